/* Generated-input search: choice source, case context, property registry. */
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

/* Every random decision of a case comes from here.  A case is a pure function of the sequence of choices, so a case
   can be recorded, shrunk (choice 0 is always the simplest alternative) and replayed. */
class Src {
	uint64_t st_ = 0;
	bool replay_ = false;
	const uint32_t *in_ = nullptr;
	size_t in_len_ = 0, pos_ = 0;
	uint32_t *rec_ = nullptr;
	size_t rec_cap_ = 0;
	volatile size_t *rec_len_ = nullptr;
	uint64_t next() {
		uint64_t z = (st_ += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
public:
	static Src random(uint64_t seed) { Src s; s.st_ = seed; return s; }
	static Src replay(const uint32_t *p, size_t n) { Src s; s.replay_ = true; s.in_ = p; s.in_len_ = n; return s; }
	void record(uint32_t *buf, size_t cap, volatile size_t *len) { rec_ = buf; rec_cap_ = cap; rec_len_ = len; *len = 0; }
	size_t used() const { return pos_; }
	uint32_t below(uint32_t n) {
		uint32_t v;
		if (n == 0) n = 1;
		if (replay_) v = pos_ < in_len_ ? in_[pos_] : 0;
		else v = (uint32_t) (next() >> 16);
		if (!replay_ || v >= n) v %= n;
		pos_++;
		if (rec_ && *rec_len_ < rec_cap_) { rec_[*rec_len_] = v; *rec_len_ = *rec_len_ + 1; }
		return v;
	}
	int range(int lo, int hi) { return lo + (int) below((uint32_t) (hi - lo + 1)); }
	/* true with probability pct%; 0 is false */
	bool chance(int pct) { return (int) below(100) >= 100 - pct; }
	template<class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t) v.size())]; }
	/* index drawn with the given weights; put the simplest alternative first */
	int weighted(const std::vector<int> &w) {
		int t = 0;
		for (int x : w) t += x;
		int r = (int) below((uint32_t) (t ? t : 1));
		for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return (int) i; r -= w[i]; }
		return 0;
	}
};

struct Fail { std::string why; };
struct Discard { std::string why; };

/* One generated case. */
struct Case {
	Src &s;
	std::string text;             /* readable rendering, completed before the code under test runs */
	bool nontrivial = false;      /* by the property's stated rule */
	std::set<std::string> labels; /* distribution */
	unsigned evals = 0;           /* executions of the code under test */
	bool thorough = false;
	explicit Case(Src &src) : s(src) {}
	void label(const std::string &l) { labels.insert(l); }
	[[noreturn]] void fail(const std::string &w) { throw Fail{w}; }
	[[noreturn]] void discard(const std::string &w) { throw Discard{w}; }
	/* publish `text` where the parent can read it even if this process dies */
	void publish();
};

struct Property {
	const char *id;
	const char *rule;             /* how cases are made, what is non-trivial */
	void (*run)(Case &);
	long quick_cases;
	long thorough_cases;
	std::vector<const char *> engines;
	/* optional: re-run the recorded known findings; returns lines to print */
	const char *assumptions;
};

std::vector<Property> &registry();
struct Register { Register(const Property &p) { registry().push_back(p); } };

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
