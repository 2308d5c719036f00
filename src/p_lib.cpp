/* D01 arrays, D02 tries, D04 sorting, number conversions and byte helpers: DuckLib against mathematical models. */
#include <algorithm>
#include <cmath>
#include <memory>
#include "common.hpp"
#include "rawapi.h"

namespace {
const raw_api *raw(const char *cfg) { return (const raw_api *) engine(cfg)->raw; }
/* heap bytes of exactly n bytes, so that the sanitizer sees every access outside */
struct Bytes {
	unsigned char *p;
	size_t n;
	explicit Bytes(size_t k, int fill = 0xa5) : p((unsigned char *) malloc(k ? k : 1)), n(k) {
		if (!k) { free(p); p = (unsigned char *) malloc(0); }
		memset(p, fill, k);
	}
	explicit Bytes(const std::string &s) : Bytes(s.size()) { if (n) memcpy(p, s.data(), n); }
	Bytes(const Bytes &) = delete;
	~Bytes() { free(p); }
	std::string str() const { return std::string((char *) p, n); }
};
std::string hex(const std::string &s, size_t max = 40) {
	std::string r;
	for (size_t i = 0; i < s.size() && i < max; i++) r += strf("%02x", (unsigned char) s[i]);
	if (s.size() > max) r += "...";
	return r;
}
/* an allocator of one configuration; checks at the end that everything was given back */
struct Mem {
	const char *cfg;
	const raw_api *r;
	void *pool = nullptr, *ma;
	long before;
	Mem(const char *c, size_t size, int fit) : cfg(c), r(raw(c)) {
		int e;
		if (r->uses_pool) pool = aligned_alloc(16, (size + 15) & ~(size_t) 15);
		before = engine(cfg)->alloc_live();
		ma = r->ma_new(pool, size, fit, &e);
	}
	long left() { return r->uses_pool ? r->ma_live(ma) : engine(cfg)->alloc_live() - before; }
	~Mem() { r->ma_delete(ma); free(pool); }
};
const char *errname(int e) {
	static const char *N[] = {"ok", "invalidValue", "bufferUnderflow", "bufferOverflow", "nullPointer", "danglingPointer", "outOfMemory", "shouldntHappen", "cantHappen"};
	return e >= 0 && e <= 8 ? N[e] : "?";
}

/* ------------------------------------------------------------------------------------------------- D01 -------- */
struct ArrOp { int op, a; size_t n; ptrdiff_t i; bool null; std::string data; };
struct Arr { size_t es; int strategy; void *h = nullptr; std::vector<std::string> model; };
std::string bytes_of(Src &s, size_t n) {
	std::string r(n, 0);
	if (n <= 64) for (auto &c : r) c = (char) s.below(256);
	else { uint32_t x = s.below(1u << 30); for (auto &c : r) { x = x * 1664525u + 1013904223u; c = (char) (x >> 24); } }
	return r;
}
const char *const ARR_OPS[] = {"push", "push-many", "pop", "pop-many", "get-top", "set-top", "get", "set", "clear", "reinitialise"};
void arr_run(Case &c) {
	Src &s = c.s;
	int narr = s.range(1, 4), nops = s.range(1, c.thorough ? 400 : 120);
	std::vector<Arr> arrs((size_t) narr);
	static const int ES[] = {1, 8, 4, 2, 3, 5, 7, 16, 24, 40, 33, 255, 1000};
	for (auto &a : arrs) { a.es = (size_t) ES[s.weighted({20, 20, 10, 5, 5, 5, 5, 10, 5, 5, 5, 3, 2})]; a.strategy = s.chance(60) ? 0 : 1; a.strategy = 1 - a.strategy; }
	int fit = s.range(0, 3);
	/* lengths are followed so that operations inside, at and outside the bounds are all common */
	std::vector<size_t> len((size_t) narr, 0);
	std::vector<ArrOp> ops;
	size_t wander = 0, shrinks = 0;
	auto index = [&](size_t n) -> ptrdiff_t {
		switch (s.weighted({60, 8, 8, 8, 8, 4, 4})) {
		case 0: return n ? (ptrdiff_t) s.below((uint32_t) n) : 0;
		case 1: return (ptrdiff_t) n;
		case 2: return (ptrdiff_t) n - 1;
		case 3: return -1;
		case 4: return (ptrdiff_t) n + s.range(0, 5);
		case 5: return s.chance(50) ? PTRDIFF_MAX : PTRDIFF_MIN;
		default: return -s.range(1, 5);
		}
	};
	c.text = strf("; %d arrays:", narr);
	for (auto &a : arrs) c.text += strf(" (%zu bytes, %s)", a.es, a.strategy ? "double" : "fit");
	c.text += "\n";
	for (int k = 0; k < nops; k++) {
		ArrOp o{};
		o.a = s.range(0, narr - 1);
		Arr &a = arrs[(size_t) o.a];
		size_t &n = len[(size_t) o.a];
		o.op = s.weighted({30, 15, 14, 8, 5, 5, 10, 10, 2, 1});
		switch (o.op) {
		case 0: o.null = s.chance(12); if (!o.null) o.data = bytes_of(s, a.es); n++; wander++; break;
		case 1: o.n = (size_t) (s.chance(10) ? s.range(0, 60) : s.range(0, 6)); if (n > 3000) o.n = 0; o.null = s.chance(15); if (!o.null) o.data = bytes_of(s, a.es * o.n); n += o.n; wander++; break;
		case 2: o.null = s.chance(25); if (n) { n--; shrinks++; } break;
		case 3: o.null = s.chance(25); o.n = s.chance(75) ? (size_t) s.range(0, (int) (n < 40 ? n : 40)) : n + (size_t) s.range(0, 3); if (o.n <= n) { n -= o.n; if (o.n) shrinks++; } break;
		case 5: case 7: o.data = bytes_of(s, a.es); if (o.op == 7) o.i = index(n); break;
		case 6: o.i = index(n); break;
		case 8: n = 0; shrinks++; break;
		case 9: n = 0; break;
		}
		ops.push_back(o);
		c.text += strf("%d %s", o.a, ARR_OPS[o.op]);
		if (o.op == 1 || o.op == 3) c.text += strf(" %zu", o.n);
		if (o.op == 6 || o.op == 7) c.text += strf(" [%td]", o.i);
		if (o.null) c.text += " null";
		if (o.data.size()) c.text += " " + hex(o.data);
		c.text += "\n";
	}
	c.label(strf("%d arrays", narr));
	c.nontrivial = wander >= 5 && shrinks >= 2;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Mem m(cfg, 64u << 20, fit);
		const raw_api *r = m.r;
		for (auto &a : arrs) { a.h = r->arr_new(m.ma, a.es, a.strategy); a.model.clear(); }
		c.evals++;
		for (size_t k = 0; k < ops.size(); k++) {
			const ArrOp &o = ops[k];
			Arr &a = arrs[(size_t) o.a];
			int e = 0, want = 0;
			std::string got, expect;
			size_t n = a.model.size();
			bool out = false;
			auto where = [&] { return strf("configuration %s, operation %zu (%s on array %d): ", cfg, k + 1, ARR_OPS[o.op], o.a); };
			switch (o.op) {
			case 0: {
				Bytes b(o.data);
				e = r->arr_push(a.h, o.null ? nullptr : b.p);
				a.model.push_back(o.null ? std::string(a.es, 0) : o.data);
				break;
			}
			case 1: {
				Bytes b(o.data);
				e = r->arr_push_many(a.h, o.null ? nullptr : b.p, o.n);
				for (size_t i = 0; i < o.n; i++) a.model.push_back(o.null ? std::string(a.es, 0) : o.data.substr(i * a.es, a.es));
				break;
			}
			case 2: {
				Bytes b(a.es);
				if (!n) want = 2;
				e = r->arr_pop(a.h, o.null ? nullptr : b.p);
				if (n) { if (!o.null) { out = true; expect = a.model.back(); } a.model.pop_back(); }
				else expect = std::string(a.es, (char) 0xa5), out = !o.null;
				got = b.str();
				break;
			}
			case 3: {
				Bytes b(o.n <= n ? a.es * o.n : 0);
				if (o.n > n) want = 2;
				e = r->arr_pop_many(a.h, o.null ? nullptr : b.p, o.n);
				if (!want) {
					for (size_t i = n - o.n; i < n; i++) expect += a.model[i];
					a.model.resize(n - o.n);
					out = !o.null;
				}
				got = b.str();
				break;
			}
			case 4: {
				Bytes b(a.es);
				e = r->arr_get_top(a.h, b.p);
				if (!n) want = 2;
				out = true;
				expect = n ? a.model.back() : std::string(a.es, (char) 0xa5);
				got = b.str();
				break;
			}
			case 5: {
				Bytes b(o.data);
				e = r->arr_set_top(a.h, b.p);
				if (!n) want = 2; else a.model.back() = o.data;
				break;
			}
			case 6: {
				Bytes b(a.es);
				bool in = o.i >= 0 && (size_t) o.i < n;
				e = r->arr_get(a.h, b.p, o.i);
				if (!in) want = 1;
				out = true;
				expect = in ? a.model[(size_t) o.i] : std::string(a.es, (char) 0xa5);
				got = b.str();
				break;
			}
			case 7: {
				Bytes b(o.data);
				bool in = o.i >= 0 && (size_t) o.i < n;
				e = r->arr_set(a.h, b.p, o.i);
				if (!in) want = 1; else a.model[(size_t) o.i] = o.data;
				break;
			}
			case 8: e = r->arr_clear(a.h); a.model.clear(); break;
			default: e = r->arr_quit(a.h); a.model.clear(); r->arr_init(a.h, m.ma, a.es, a.strategy);
			}
			/* which error is reported is not part of the property */
			if ((e != 0) != (want != 0)) c.fail(where() + strf("expected %s, got %s\n", want ? "an error" : "success", errname(e)));
			if (out && got != expect) c.fail(where() + "delivered " + hex(got) + ", expected " + hex(expect) + "\n");
			for (size_t q = 0; q < arrs.size(); q++) {
				Arr &b = arrs[q];
				if (r->arr_length(b.h) != b.model.size()) c.fail(where() + strf("array %zu has %zu elements, expected %zu\n", q, r->arr_length(b.h), b.model.size()));
				const char *p = (const char *) r->arr_elements(b.h);
				if (&b != &a && k % 8) continue;
				for (size_t i = 0; i < b.model.size(); i++)
					if (memcmp(p + i * b.es, b.model[i].data(), b.es)) c.fail(where() + strf("array %zu, element %zu is ", q, i) + hex(std::string(p + i * b.es, b.es)) + ", expected " + hex(b.model[i]) + "\n");
			}
		}
		for (auto &a : arrs) { int e = r->arr_delete(a.h); if (e) c.fail(strf("configuration %s: dl_array_quit: %s\n", cfg, errname(e))); }
		if (m.left()) c.fail(strf("configuration %s: %ld allocations are left\n", cfg, m.left()));
	}
}

/* ------------------------------------------------------------------------------------------------- D02 -------- */
struct TrieOp { int t; std::string key; ptrdiff_t v; };
void trie_run(Case &c) {
	Src &s = c.s;
	int nt = s.range(1, 3), nops = s.range(1, c.thorough ? 300 : 80), fit = s.range(0, 3);
	int alpha = s.range(1, 3);
	std::vector<ptrdiff_t> null_index;
	for (int i = 0; i < nt; i++) null_index.push_back(s.chance(70) ? -1 : s.range(0, 50));
	std::vector<TrieOp> ops;
	std::vector<std::string> keys;
	auto letter = [&]() -> char { return s.chance(6) ? (char) s.below(256) : (char) ("a\0b\xff"[s.below((uint32_t) alpha + 1)]); };
	auto fresh = [&] {
		std::string k;
		int n = s.chance(4) ? s.range(20, 400) : s.range(0, 9);
		for (int i = 0; i < n; i++) k += letter();
		return k;
	};
	auto related = [&](bool insert) {
		if (keys.empty() || s.chance(25)) return fresh();
		std::string k = s.pick(keys);
		switch (s.weighted({30, 25, 20, 15, insert ? 10 : 10})) {
		case 0: { int n = s.range(1, 4); for (int i = 0; i < n; i++) k += letter(); return k; }      /* extension */
		case 1: return k.substr(0, s.below((uint32_t) k.size() + 1));                               /* prefix */
		case 2: if (k.empty()) return k; k[s.below((uint32_t) k.size())] = letter(); return k;      /* one byte changed */
		case 3: { k = k.substr(0, s.below((uint32_t) k.size() + 1)); int n = s.range(1, 4); for (int i = 0; i < n; i++) k += letter(); return k; }
		default: return k;                                                                           /* again */
		}
	};
	std::set<std::string> distinct;
	int shared = 0;
	c.text = strf("; %d tries, values of the empty key:", nt);
	for (auto v : null_index) c.text += strf(" %td", v);
	c.text += "\n";
	for (int k = 0; k < nops; k++) {
		TrieOp o;
		o.t = s.range(0, nt - 1);
		o.key = related(true);
		o.v = s.chance(90) ? s.range(0, 999) : s.chance(50) ? PTRDIFF_MAX : (ptrdiff_t) -2 - s.range(0, 9);
		for (auto &x : distinct) if (x != o.key && x.size() && o.key.size() && x[0] == o.key[0]) { shared++; break; }
		distinct.insert(o.key);
		keys.push_back(o.key);
		ops.push_back(o);
		c.text += strf("%d: ", o.t) + hex(o.key, 60) + strf(" -> %td\n", o.v);
	}
	std::vector<std::string> probes = {""};
	int np = s.range(5, 40);
	for (int i = 0; i < np; i++) probes.push_back(related(false));
	c.text += "; looked up besides:";
	for (auto &p : probes) c.text += " " + hex(p, 60);
	c.text += "\n";
	c.nontrivial = distinct.size() >= 5 && shared >= 3;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Mem m(cfg, 8u << 20, fit);
		const raw_api *r = m.r;
		std::vector<void *> t;
		std::vector<std::map<std::string, ptrdiff_t>> model((size_t) nt);
		for (int i = 0; i < nt; i++) { t.push_back(r->trie_new(m.ma, null_index[(size_t) i])); model[(size_t) i][""] = null_index[(size_t) i]; }
		c.evals++;
		auto look = [&](size_t i, const std::string &k, const std::string &when) {
			Bytes b(k);
			ptrdiff_t got = r->trie_find(t[i], b.p, b.n);
			auto it = model[i].find(k);
			ptrdiff_t want = it == model[i].end() ? -1 : it->second;
			if (got != want) c.fail(strf("configuration %s, %s: trie %zu finds %td for ", cfg, when.c_str(), i, got) + hex(k, 400) + strf(", expected %td\n", want));
		};
		for (auto &p : probes) look(0, p, "empty");
		for (size_t k = 0; k < ops.size(); k++) {
			auto &o = ops[k];
			{
				Bytes b(o.key);
				int e = r->trie_insert(t[(size_t) o.t], b.p, b.n, o.v);
				if (e) c.fail(strf("configuration %s, insertion %zu: %s\n", cfg, k + 1, errname(e)));
				memset(b.p, 0xee, b.n);
			}
			model[(size_t) o.t][o.key] = o.v;
			std::string when = strf("after insertion %zu", k + 1);
			for (size_t i = 0; i < t.size(); i++) {
				if (i != (size_t) o.t && k % 4) continue;
				for (auto &x : distinct) look(i, x, when);
				for (auto &x : probes) look(i, x, when);
			}
		}
		for (size_t i = 0; i < t.size(); i++) {
			int e = r->trie_delete(t[i]);
			if (e) c.fail(strf("configuration %s: dl_trie_quit: %s\n", cfg, errname(e)));
		}
		if (m.left()) c.fail(strf("configuration %s: %ld allocations are left\n", cfg, m.left()));
	}
}

/* ------------------------------------------------------------------------------------------------- D04 -------- */
struct Ctx { size_t size; int mode; const void *self; long calls; const unsigned char *a; size_t bytes; bool bad; const unsigned char *pivot; };
int key_cmp(const void *l, const void *r, const void *x) {
	Ctx *c = (Ctx *) const_cast<void *>(x);
	if (c->self != x) { c->bad = true; return 0; }
	c->calls++;
	int a = *(const unsigned char *) l, b = *(const unsigned char *) r, d;
	switch (c->mode) {
	case 0: d = a - b; break;
	case 1: d = b - a; break;
	case 2: d = a / 16 - b / 16; break;     /* ties between different elements */
	case 3: d = a < b ? -1 : a > b; break;
	case 4: d = memcmp(l, r, c->size); break;
	default: d = (a - b) * 8000000;
	}
	return d;
}
void sort_case(Case &c) {
	Src &s = c.s;
	static const int ES[] = {1, 4, 8, 2, 3, 16, 40, 100};
	size_t es = (size_t) ES[s.weighted({20, 20, 20, 5, 10, 10, 10, 5})];
	int n = s.chance(15) ? s.range(0, 3) : s.chance(c.thorough ? 30 : 6) ? s.range(50, 600) : s.range(2, 40);
	int pattern = s.weighted({40, 15, 10, 10, 10, 10}), mode = s.range(0, 5), which = s.range(0, 2);
	std::vector<std::string> v;
	int base = s.range(0, 255);
	for (int i = 0; i < n; i++) {
		std::string x = bytes_of(s, es);
		switch (pattern) {
		case 0: break;
		case 1: x[0] = (char) s.range(0, 2); break;
		case 2: x[0] = (char) (i * 255 / (n ? n : 1)); break;
		case 3: x[0] = (char) (255 - i * 255 / (n ? n : 1)); break;
		case 4: x[0] = (char) (i < n / 2 ? i : n - i); break;
		default: if (i && s.chance(80)) x = v[s.below((uint32_t) v.size())]; else x[0] = (char) base;
		}
		v.push_back(x);
	}
	ptrdiff_t low = 0, high = (ptrdiff_t) n - 1;
	bool part = which > 0 && n && s.chance(30);
	if (part) { low = s.range(0, n - 1); high = s.range((int) low - 1, n - 1); }
	static const char *W[] = {"heapsort", "quicksort_lomuto", "quicksort_hoare"};
	c.text = strf("%s of %d elements of %zu bytes, from %td to %td, comparison %d\n", W[which], n, es, low, high, mode);
	for (auto &x : v) c.text += hex(x) + "\n";
	c.label(W[which]);
	c.label(strf("pattern %d", pattern));
	c.nontrivial = n >= 5;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Bytes b((size_t) n * es);
		for (int i = 0; i < n; i++) memcpy(b.p + (size_t) i * es, v[(size_t) i].data(), es);
		Ctx x{es, mode, nullptr, 0, b.p, b.n, false, nullptr};
		x.self = &x;
		raw(cfg)->sort(which, b.p, (size_t) n, es, low, high, key_cmp, &x);
		c.evals++;
		if (x.bad) c.fail(strf("configuration %s: the comparison was called with another context\n", cfg));
		std::vector<std::string> got;
		for (int i = 0; i < n; i++) got.push_back(std::string((char *) b.p + (size_t) i * es, es));
		auto show = [&] { std::string r; for (auto &y : got) r += hex(y) + "\n"; return r; };
		for (ptrdiff_t i = 0; i < n; i++) if ((i < low || i > high) && got[(size_t) i] != v[(size_t) i]) c.fail(strf("configuration %s: element %td outside of the range changed\n", cfg, i) + show());
		for (ptrdiff_t i = low + 1; i <= high; i++) if (key_cmp(got[(size_t) i - 1].data(), got[(size_t) i].data(), &x) > 0) c.fail(strf("configuration %s: elements %td and %td are not in order\n", cfg, i - 1, i) + show());
		auto p = v, q = got;
		std::sort(p.begin(), p.end());
		std::sort(q.begin(), q.end());
		if (p != q) c.fail(strf("configuration %s: the result is not a permutation\n", cfg) + show());
	}
}
bool dig(char c) { return c >= '0' && c <= '9'; }
bool xdig(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
/* -1 malformed, 0 not covered, 1 *v */
int model_int(const std::string &t, ptrdiff_t *v) {
	size_t i = 0;
	bool neg = false, h = false;
	if (i < t.size() && t[i] == '-') { neg = true; i++; }
	if (i >= t.size() || !dig(t[i])) return -1;
	if (t[i] == '0' && i + 1 < t.size() && (t[i + 1] == 'x' || t[i + 1] == 'X')) { h = true; i += 2; if (i == t.size()) return 0; }
	unsigned __int128 x = 0;
	bool big = false;
	for (; i < t.size(); i++) {
		if (h ? !xdig(t[i]) : !dig(t[i])) return -1;
		x = x * (h ? 16 : 10) + (unsigned) (dig(t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10);
		if (x > (unsigned __int128) PTRDIFF_MAX) { big = true; x = (unsigned __int128) PTRDIFF_MAX + 1; }
	}
	if (big) return 0;
	*v = neg ? -(ptrdiff_t) x : (ptrdiff_t) x;
	return 1;
}
bool model_float(const std::string &t) {
	size_t i = 0;
	if (i < t.size() && t[i] == '-') i++;
	if (i < t.size() && t[i] == '.') { i++; if (i >= t.size() || !dig(t[i])) return false; while (i < t.size() && dig(t[i])) i++; }
	else {
		if (i >= t.size() || !dig(t[i])) return false;
		while (i < t.size() && dig(t[i])) i++;
		if (i < t.size() && t[i] == '.') { i++; while (i < t.size() && dig(t[i])) i++; }
	}
	if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
		i++;
		if (i < t.size() && t[i] == '-') i++;
		if (i >= t.size() || !dig(t[i])) return false;
		while (i < t.size() && dig(t[i])) i++;
	}
	return i == t.size();
}
std::string digits(Src &s, int lo, int hi, bool h = false) {
	std::string r;
	int n = s.range(lo, hi);
	for (int i = 0; i < n; i++) r += h ? "0123456789abcdefABCDEF"[s.below(22)] : (char) ('0' + s.below(10));
	return r;
}
std::string damage(Src &s, std::string t) {
	int n = s.range(1, 2);
	for (int i = 0; i < n; i++) {
		static const char J[] = "-+.eExX0 9ag\0\xff(";
		char ch = J[s.below(sizeof J - 1)];
		size_t at = s.below((uint32_t) t.size() + 1);
		switch (s.below(4)) {
		case 0: t.insert(at, 1, ch); break;
		case 1: if (t.size()) t.erase(at < t.size() ? at : t.size() - 1, 1); break;
		case 2: if (t.size()) t[at < t.size() ? at : t.size() - 1] = ch; break;
		default: t.resize(at);
		}
	}
	return t;
}
void int_case(Case &c) {
	Src &s = c.s;
	std::string t;
	switch (s.weighted({40, 25, 20, 15})) {
	case 0: t = (s.chance(40) ? "-" : "") + digits(s, 1, 18); break;
	case 1: t = (s.chance(40) ? "-" : "") + std::string(s.chance(70) ? "0x" : "0X") + digits(s, 1, 15, true); break;
	case 2: t = damage(s, (s.chance(40) ? "-" : "") + (s.chance(50) ? digits(s, 1, 8) : "0x" + digits(s, 1, 8, true))); break;
	default: {
		static const ptrdiff_t E[] = {0, 1, -1, PTRDIFF_MAX, PTRDIFF_MIN + 1, 9, 10, 99, 100, INT32_MAX, (ptrdiff_t) INT32_MAX + 1, INT32_MIN};
		t = strf("%td", E[s.below(12)]);
	}
	}
	ptrdiff_t v = 0;
	int k = model_int(t, &v);
	c.text = "integer from \"" + t + "\" (" + hex(t) + ")\n";
	c.label(k > 0 ? "integer" : k < 0 ? "malformed integer" : "uncovered integer");
	c.nontrivial = t.size() > 1;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Bytes b(t);
		ptrdiff_t got = 0;
		int e = raw(cfg)->to_ptrdiff(&got, b.p, b.n);
		c.evals++;
		if (k < 0 && !e) c.fail(strf("configuration %s: accepted as %td\n", cfg, got));
		if (k > 0 && (e || got != v)) c.fail(strf("configuration %s: %s, %td; expected %td\n", cfg, errname(e), got, v));
	}
}
void float_case(Case &c) {
	Src &s = c.s;
	std::string t;
	auto good = [&] {
		std::string r = s.chance(40) ? "-" : "";
		switch (s.below(4)) {
		case 0: r += digits(s, 1, 20) + "." + digits(s, 1, 20); break;
		case 1: r += "." + digits(s, 1, 20); break;
		case 2: r += digits(s, 1, 20) + "."; break;
		default: r += digits(s, 1, 20);
		}
		if (s.chance(50)) r += std::string(s.chance(50) ? "e" : "E") + (s.chance(50) ? "-" : "") + (s.chance(85) ? digits(s, 1, 2) : s.chance(80) ? strf("%d", s.range(100, 330)) : digits(s, 4, 30));
		return r;
	};
	t = good();
	if (s.chance(35)) t = damage(s, t);
	bool ok = model_float(t);
	c.text = "float from \"" + t + "\" (" + hex(t) + ")\n";
	c.label(ok ? "float" : "malformed float");
	c.nontrivial = t.size() > 2;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Bytes b(t);
		double got = 0, want = ok ? strtod(t.c_str(), nullptr) : 0;
		int e = raw(cfg)->to_double(&got, b.p, b.n);
		c.evals++;
		if (!ok) { if (!e) c.fail(strf("configuration %s: accepted as %g\n", cfg, got)); continue; }
		if (e) c.fail(strf("configuration %s: %s\n", cfg, errname(e)));
		double a = std::fabs(want);
		bool near = std::fabs(got - want) <= a * 1e-12;
		if (a > 1e300) near = near || (std::fabs(got) >= 1e299 && (got < 0) == (want < 0));
		if (a < 1e-290) near = near || std::fabs(got) < 1e-289;
		if (got != got || !near) c.fail(strf("configuration %s: %.17g, expected %.17g\n", cfg, got, want));
	}
}
void print_case(Case &c) {
	Src &s = c.s;
	int kind = s.range(0, 3);
	static const ptrdiff_t E[] = {0, 1, -1, 9, 10, -10, PTRDIFF_MAX, PTRDIFF_MIN, INT32_MAX, INT32_MIN, 255, 256};
	ptrdiff_t v = s.chance(30) ? E[s.below(12)] : (ptrdiff_t) (((uint64_t) s.below(1u << 31) << 33 ^ (uint64_t) s.below(1u << 31) << 11 ^ s.below(1u << 20)) >> s.below(64)) * (s.chance(50) ? 1 : -1);
	std::string prefix = bytes_of(s, s.below(5)), want;
	if (kind == 0) want = strf("%td", v);
	else if (kind == 1) want = strf("%zu", (size_t) v);
	else if (kind == 2) want = strf("%d", (int) (v & 255));
	else want = v & 1 ? "true" : "false";
	c.text = strf("text of %s appended to %zu bytes, kind %d\n", want.c_str(), prefix.size(), kind);
	c.label("number to text");
	c.nontrivial = want.size() > 1;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Mem m(cfg, 1u << 16, 2);
		const raw_api *r = m.r;
		void *a = r->arr_new(m.ma, 1, s.range(0, 1));
		Bytes b(prefix);
		r->arr_push_many(a, b.p, b.n);
		int e = kind == 0 ? r->from_ptrdiff(a, v) : kind == 1 ? r->from_size(a, (size_t) v) : kind == 2 ? r->from_uint8(a, (unsigned) (v & 255)) : r->from_bool(a, (int) (v & 1));
		std::string got((const char *) r->arr_elements(a), r->arr_length(a));
		c.evals++;
		if (e || got != prefix + want) c.fail(strf("configuration %s: %s, \"%s\"\n", cfg, errname(e), got.c_str()));
		if (kind == 0 && v != PTRDIFF_MIN) {
			Bytes w(want);
			ptrdiff_t back = 0;
			if (r->to_ptrdiff(&back, w.p, w.n) || back != v) c.fail(strf("configuration %s: read back as %td\n", cfg, back));
		}
		if (kind == 3) {
			Bytes w(want);
			int back = 7;
			if (r->to_bool(&back, w.p, w.n) || back != (int) (v & 1)) c.fail(strf("configuration %s: read back as %d\n", cfg, back));
		}
		if (r->arr_delete(a) || m.left()) c.fail(strf("configuration %s: allocations are left\n", cfg));
	}
}
void bytes_case(Case &c) {
	Src &s = c.s;
	std::string a = s.chance(20) ? std::vector<std::string>{"true", "false", "tru", "falsee", "TRUE", "", "false\n"}[s.below(7)] : bytes_of(s, (size_t) s.range(0, 20)), b = a;
	if (s.chance(60)) b = damage(s, b);
	size_t common = s.below((uint32_t) std::min(a.size(), b.size()) + 1);
	std::string buf = bytes_of(s, (size_t) s.range(1, 60));
	size_t from = s.below((uint32_t) buf.size()), to = s.below((uint32_t) buf.size()), len = s.below((uint32_t) (buf.size() - std::max(from, to)) + 1);
	c.text = "compare " + hex(a) + " and " + hex(b) + strf(", first %zu bytes; move %zu bytes from %zu to %zu of ", common, len, from, to) + hex(buf, 80) + "\n";
	c.label("bytes");
	c.nontrivial = a.size() > 1 && len > 1;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		const raw_api *r = raw(cfg);
		Bytes x(a), y(b), p(a.substr(0, common)), q(b.substr(0, common));
		c.evals++;
		if (r->compare(x.p, x.n, y.p, y.n) != (a == b)) c.fail(strf("configuration %s: dl_string_compare\n", cfg));
		if (r->compare_partial(p.p, q.p, common) != (a.substr(0, common) == b.substr(0, common))) c.fail(strf("configuration %s: dl_string_compare_partial\n", cfg));
		int bo = 7, e = r->to_bool(&bo, x.p, x.n);
		if ((e == 0) != (a == "true" || a == "false") || (!e && bo != (a == "true"))) c.fail(strf("configuration %s: dl_string_toBool: %s, %d\n", cfg, errname(e), bo));
		Bytes m(buf);
		std::string want = buf;
		memmove(&want[0] + to, want.data() + from, len);
		r->memcopy(m.p + to, m.p + from, len);
		if (m.str() != want) c.fail(strf("configuration %s: dl_memcopy: ", cfg) + hex(m.str(), 80) + ", expected " + hex(want, 80) + "\n");
		Bytes n1(len), src(buf.substr(from, len));
		r->memcopy_no_overlap(n1.p, src.p, len);
		if (n1.str() != buf.substr(from, len)) c.fail(strf("configuration %s: dl_memcopy_noOverlap\n", cfg));
		r->memclear(m.p + to, len);
		for (size_t i = 0; i < len; i++) want[to + i] = 0;
		if (m.str() != want) c.fail(strf("configuration %s: dl_memclear\n", cfg));
		Bytes z(a.substr(0, a.find('\0')) + std::string(1, 0));
		if (r->string_length(z.p) != z.n - 1) c.fail(strf("configuration %s: dl_strlen\n", cfg));
		for (int ch = 0; ch < 256; ch++) {
			bool d = dig((char) ch), h = xdig((char) ch), al = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z');
			if (!!r->is_digit(ch) != d || !!r->is_hex(ch) != h || !!r->is_alpha(ch) != al || !!r->is_space(ch) != (ch <= ' ')) c.fail(strf("configuration %s: class of character %d\n", cfg, ch));
		}
		for (int i = 0; i < 16; i++) if (r->nybble(i) != "0123456789ABCDEF"[i]) c.fail(strf("configuration %s: hexadecimal digit %d\n", cfg, i));
	}
}
void d04_run(Case &c) {
	switch (c.s.weighted({45, 15, 15, 10, 15})) {
	case 0: return sort_case(c);
	case 1: return int_case(c);
	case 2: return float_case(c);
	case 3: return print_case(c);
	default: bytes_case(c);
	}
}
}
static Register r_d01({"D01", "up to 120 (thorough: 400) operations - push, push many (including none and null, which means zeros), pop one or many (with or without a place to put them, more than there are), get and set the top or any index (inside, at the ends, far outside, negative), clear, shut down and initialise again - on one to four arrays with different element sizes (1 to 1000 bytes) and both strategies, sharing one allocator of any configuration; after each operation the length and every element are those of a vector, what was delivered is right, exactly the impossible operations report an error and change nothing, and nothing stays allocated at the end. Buffers have exactly the size the operation may touch, under AddressSanitizer. Non-trivial: at least five insertions and two removals.", arr_run, 40000, 500000, {"default", "inference", "portable", "noopt"}, "Enough memory is available; the element passed is not inside the array itself."});
static Register r_d02({"D02", "one to three tries sharing an allocator of any configuration, up to 80 (thorough: 300) insertions of keys that extend, shorten, branch from, or repeat earlier keys over alphabets of two to four bytes (0 and 255 included) plus arbitrary bytes, of 0 to 400 bytes; after each insertion every key inserted so far into any trie and up to 40 related keys are looked up and compared with a map (-1 when absent), and nothing stays allocated at the end. Keys are overwritten after the insertion. Non-trivial: at least five distinct keys, three of which share a first byte with an earlier one.", trie_run, 25000, 300000, {"default", "inference", "portable", "noopt"}, "The library has no removal. Values are not -1, the answer for an absent key."});
static Register r_d04({"D04", "half: arrays of 0 to 600 elements of 1 to 100 bytes (random, few keys, sorted, reversed, rising and falling, repeated) sorted by each of the three sorting functions, or a part of the array by the quicksorts, with comparisons that order bytes forwards, backwards, coarsely (ties between different elements), as whole elements, and with large results: the result must be in order, a permutation, and unchanged outside of the range. A third: decimal, hexadecimal and floating point text, a third of it damaged by one or two bytes: accepted exactly if it matches the manual's grammar, with the value of strtoll or (within 1e-12) strtod. The rest: numbers to text and back, comparison, copying with overlap and clearing of bytes, character classes. Every array and text lies in a heap block of exactly its size, under AddressSanitizer. Non-trivial: at least five elements, or text longer than one character.", d04_run, 200000, 4000000, {"default", "inference", "portable", "noopt"}, "Integers that fit; hexadecimal text with at least one digit."});
