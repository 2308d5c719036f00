/* Runner: forked workers, crash isolation, shrinking, replay, evidence. */
#include "core.hpp"
#include "eng.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

std::vector<Property> &registry() { static std::vector<Property> r; return r; }

std::string strf(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	char b[4096];
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	return b;
}

extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:hard_rss_limit_mb=2800:max_allocation_size_mb=2000:allocator_may_return_null=1:handle_segv=1:abort_on_error=0:detect_stack_use_after_return=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }

static const int MAXW = 16;
static const size_t REC_CAP = 1 << 20;
static const size_t TEXT_CAP = 1 << 18;
static const size_t SET_CAP = 1 << 22;
static const int CASE_CPU_SECONDS = 30;

struct LabelSlot { char name[64]; std::atomic<long> n; };
struct Shared {
	std::atomic<long> cur[MAXW];
	std::atomic<int> failed[MAXW]; /* 1: oracle mismatch */
	char why[MAXW][4096];
	std::atomic<long> cases, nontrivial, distinct, discards, evals;
	std::atomic<int> stop;
	std::atomic<uint64_t> set[SET_CAP];
	LabelSlot labels[256];
	char samples[6][8192];
	std::atomic<int> nsamples;
	/* single-case evaluation */
	volatile size_t rec_len;
	uint32_t rec[REC_CAP];
	char text[TEXT_CAP];
	char one_why[8192];
	int one_nontrivial;
};
static Shared *sh;

static double now() {
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static bool g_publish;
void Case::publish() {
	if (!g_publish) return;
	size_t n = std::min(text.size(), TEXT_CAP - 1);
	memcpy(sh->text, text.data(), n);
	sh->text[n] = 0;
}

static uint64_t mix(uint64_t h, const void *p, size_t n) {
	const unsigned char *c = (const unsigned char *) p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
	h ^= h >> 29;
	return h;
}
static uint64_t case_seed(const Property &p, long seed, long idx) {
	uint64_t h = mix(0xcbf29ce484222325ull, p.id, strlen(p.id));
	h = mix(h, &seed, sizeof seed);
	return mix(h, &idx, sizeof idx);
}
static bool add_distinct(const std::string &t) {
	uint64_t h = mix(0xcbf29ce484222325ull, t.data(), t.size());
	if (!h) h = 1;
	size_t i = h % SET_CAP;
	for (int k = 0; k < 64; k++) {
		uint64_t e = 0;
		if (sh->set[i].compare_exchange_strong(e, h)) return true;
		if (e == h) return false;
		i = (i + 1) % SET_CAP;
	}
	return false;
}
static void add_label(const std::string &l) {
	for (auto &s : sh->labels) {
		if (!s.name[0]) {
			/* racy creation is harmless: the same name may take two slots, and slots are summed when printed */
			snprintf(s.name, sizeof s.name, "%s", l.c_str());
			s.n++;
			return;
		}
		if (l.compare(0, 63, s.name) == 0) { s.n++; return; }
	}
}
static void arm_timer() {
	struct itimerval t;
	memset(&t, 0, sizeof t);
	t.it_value.tv_sec = CASE_CPU_SECONDS;
	setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

static std::string g_tmp;
static bool g_thorough;

static void redirect_stderr(const std::string &path) {
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
}
static std::string slurp(const std::string &p) {
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

static void worker(const Property &p, long seed, int w, int W, long from, long n) {
	redirect_stderr(g_tmp + "/w" + std::to_string(w) + ".err");
	for (long i = from; i < n; i += W) {
		if (sh->stop) _exit(0);
		sh->cur[w] = i;
		arm_timer();
		Src s = Src::random(case_seed(p, seed, i));
		Case c(s);
		c.thorough = g_thorough;
		try {
			p.run(c);
			sh->cases++;
			sh->evals += c.evals;
			for (auto &l : c.labels) add_label(l);
			if (c.nontrivial) {
				sh->nontrivial++;
				if (add_distinct(c.text)) sh->distinct++;
				if ((i % 7 == 3 && c.text.size() < 1500) || (sh->nsamples == 0 && c.text.size() < 6000)) {
					int k = sh->nsamples++;
					if (k < 6) snprintf(sh->samples[k], sizeof sh->samples[k], "%s", c.text.c_str());
				}
			}
		} catch (Discard &d) {
			sh->discards++;
			add_label("discard:" + d.why);
		} catch (Fail &f) {
			snprintf(sh->why[w], sizeof sh->why[w], "%s", f.why.c_str());
			sh->failed[w] = 1;
			_exit(3);
		}
	}
	sh->cur[w] = -1;
	_exit(0);
}

enum Outcome { PASS, MISMATCH, CRASH, HANG, DISCARDED };
/* Runs one case in a child. */
static Outcome run_one(const Property &p, Src s, std::string *why) {
	memset(sh->one_why, 0, 64);
	sh->text[0] = 0;
	sh->rec_len = 0;
	std::string err = g_tmp + "/one.err";
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		redirect_stderr(err);
		g_publish = true;
		arm_timer();
		s.record(sh->rec, REC_CAP, &sh->rec_len);
		Case c(s);
		c.thorough = g_thorough;
		try {
			p.run(c);
			c.publish();
			sh->one_nontrivial = c.nontrivial;
		} catch (Discard &) {
			_exit(4);
		} catch (Fail &f) {
			c.publish();
			snprintf(sh->one_why, sizeof sh->one_why, "%s", f.why.c_str());
			_exit(3);
		}
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return PASS;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return DISCARDED;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { if (why) *why = sh->one_why; return MISMATCH; }
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) {
		if (why) *why = strf("did not terminate: more than %d s of CPU time in one case", CASE_CPU_SECONDS);
		return HANG;
	}
	if (why) {
		std::string e = slurp(err);
		*why = strf("the process died (%s %d)\n", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + e.substr(0, 3000);
	}
	return CRASH;
}
static bool bad(Outcome o) { return o == MISMATCH || o == CRASH || o == HANG; }

static std::vector<uint32_t> recorded() { return std::vector<uint32_t>(sh->rec, sh->rec + sh->rec_len); }

static std::vector<uint32_t> shrink(const Property &p, std::vector<uint32_t> best, Outcome kind) {
	double t0 = now();
	double limit = kind == HANG ? 60 : 40;
	int evals = 0;
	auto attempt = [&](std::vector<uint32_t> c) {
		if (c == best || now() - t0 > limit || evals > 3000) return false;
		evals++;
		Outcome o = run_one(p, Src::replay(c.data(), c.size()), nullptr);
		if (!bad(o)) return false;
		if (o == HANG && kind != HANG) return false;
		auto r = recorded();
		if (r.size() > c.size()) r.resize(c.size());
		while (!r.empty() && r.back() == 0) r.pop_back();
		if (r.size() < best.size() || (r.size() == best.size() && r < best)) { best = r; return true; }
		return false;
	};
	bool progress = true;
	while (progress && now() - t0 < limit) {
		progress = false;
		for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size() && now() - t0 < limit;) {
				auto c = best;
				c.erase(c.begin() + (long) i, c.begin() + (long) (i + len));
				if (attempt(c)) { progress = true; continue; }
				bool nz = false;
				for (size_t k = i; k < i + len; k++) nz |= best[k] != 0;
				if (nz && len > 1) {
					c = best;
					for (size_t k = i; k < i + len; k++) c[k] = 0;
					if (attempt(c)) { progress = true; continue; }
				}
				i += len;
			}
			if (len == 1) break;
		}
		for (size_t i = 0; i < best.size() && now() - t0 < limit; i++) {
			if (!best[i]) continue;
			auto c = best;
			c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			for (int k = 0; k < 8 && i < best.size() && best[i] > 1; k++) {
				c = best; c[i] /= 2;
				if (attempt(c)) { progress = true; continue; }
				break;
			}
			if (i < best.size() && best[i] > 0) { c = best; c[i]--; if (attempt(c)) progress = true; }
		}
	}
	return best;
}

static std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch == '\t') o += "\\t";
		else if (ch < 32 || ch >= 127) o += strf("\\u%04x", ch);
		else o += (char) ch;
	}
	return o;
}

static void write_evidence(const Property &p, const char *tier, long seed, double wall, int violations, const std::string &extra) {
	mkdir("evidence", 0755);
	std::ofstream f("evidence/" + std::string(p.id) + ".json");
	std::map<std::string, long> lab;
	for (auto &l : sh->labels) if (l.name[0]) lab[l.name] += l.n;
	f << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
	f << "  \"evaluations\": " << (long) sh->evals << ",\n  \"cases\": " << (long) sh->cases << ",\n  \"nontrivial\": " << (long) sh->nontrivial;
	f << ",\n  \"distinct_nontrivial\": " << (long) sh->distinct << ",\n  \"discarded\": " << (long) sh->discards;
	f << ",\n  \"rule\": \"" << jesc(p.rule) << "\",\n  \"distribution\": {";
	bool first = true;
	for (auto &l : lab) { f << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
	f << "},\n  \"samples\": [";
	int ns = std::min<int>(6, sh->nsamples);
	for (int i = 0; i < ns; i++) f << (i ? ",\n   " : "\n   ") << "\"" << jesc(sh->samples[i]) << "\"";
	f << "\n  ]\n },\n";
	if (p.assumptions && *p.assumptions) f << " \"assumptions\": [\"" << jesc(p.assumptions) << "\"],\n";
	f << extra;
	f << " \"wall_s\": " << strf("%.2f", wall) << ",\n \"violations\": " << violations << "\n}\n";
}

static const Property *find(const char *id) {
	for (auto &p : registry()) if (!strcmp(p.id, id)) return &p;
	return nullptr;
}

/* ---- known findings ------------------------------------------------------------------------------------------- */
int replay_known(const Property &p); /* known.cpp */

static std::vector<uint32_t> read_replay(const char *path, std::string *prop) {
	std::ifstream f(path);
	std::string line;
	std::vector<uint32_t> v;
	while (std::getline(f, line)) {
		if (line.rfind("property ", 0) == 0) *prop = line.substr(9);
		if (line.rfind("tier thorough", 0) == 0) g_thorough = true;
		if (line.rfind("choices", 0) == 0) {
			std::stringstream s(line.substr(7));
			uint32_t x;
			while (s >> x) v.push_back(x);
			break;
		}
	}
	return v;
}

int main(int argc, char **argv) {
	const char *tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
	long seed = getenv("VERIF_SEED") ? atol(getenv("VERIF_SEED")) : 1;
	long cases = -1, dump = -1;
	const char *id = nullptr, *replay = nullptr;
	int W = 8;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--list") { for (auto &q : registry()) printf("%s\n", q.id); return 0; }
		else if (a == "--cases") cases = atol(argv[++i]);
		else if (a == "--seed") seed = atol(argv[++i]);
		else if (a == "--tier") tier = argv[++i];
		else if (a == "--dump") dump = atol(argv[++i]);
		else if (a == "--jobs") W = atoi(argv[++i]);
		else if (a == "--replay") replay = argv[++i];
		else id = argv[i];
	}
	g_thorough = !strcmp(tier, "thorough");
	std::vector<uint32_t> rv;
	std::string rp;
	if (replay) {
		rv = read_replay(replay, &rp);
		id = rp.c_str();
	}
	const Property *p = id ? find(id) : nullptr;
	if (!p) { fprintf(stderr, "unknown property %s\n", id ? id : ""); return 2; }
	sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) { perror("mmap"); return 2; }
	const char *bd = getenv("B") ? getenv("B") : "build";
	g_tmp = std::string(bd) + "/tmp_" + p->id;
	mkdir(g_tmp.c_str(), 0755);
	for (auto e : p->engines) if (!load_engine(bd, e)) return 2;

	if (replay) {
		std::string why;
		Outcome o = run_one(*p, Src::replay(rv.data(), rv.size()), &why);
		printf("%s\n---\n%s\n%s\n", sh->text, o == PASS ? "PASS" : o == DISCARDED ? "DISCARDED" : "FAIL", why.c_str());
		if (bad(o)) { printf("VIOLATION property=%s replay=%s\n", p->id, replay); return 1; }
		return 0;
	}
	if (dump >= 0) {
		for (long i = 0; i < dump; i++) {
			std::string why;
			Outcome o = run_one(*p, Src::random(case_seed(*p, seed, i)), &why);
			printf("---- case %ld (%s%s, %zu choices)\n%s\n%s", i, o == PASS ? "pass" : o == DISCARDED ? "discarded" : "FAIL",
			       sh->one_nontrivial ? ", nontrivial" : "", (size_t) sh->rec_len, sh->text, bad(o) ? (why + "\n").c_str() : "");
		}
		return 0;
	}

	double t0 = now();
	if (cases < 0) cases = g_thorough ? p->thorough_cases : p->quick_cases;
	double wall_limit = g_thorough ? 780 : 200;
	if (replay_known(*p)) { return 1; }
	long resume[MAXW];
	pid_t pids[MAXW];
	for (int w = 0; w < W; w++) { resume[w] = w; pids[w] = 0; sh->cur[w] = w; }
	auto launch = [&](int w) {
		sh->failed[w] = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) { worker(*p, seed, w, W, resume[w], cases); _exit(0); }
		pids[w] = pid;
	};
	for (int w = 0; w < W; w++) launch(w);
	int live = W, unreproduced = 0;
	std::vector<long> failing;
	bool timed_out = false;
	while (live > 0) {
		int st;
		pid_t pid = waitpid(-1, &st, WNOHANG);
		if (pid <= 0) {
			usleep(20000);
			if (now() - t0 > wall_limit) { sh->stop = 1; timed_out = true; }
			continue;
		}
		int w = -1;
		for (int k = 0; k < W; k++) if (pids[k] == pid) w = k;
		if (w < 0) continue;
		live--;
		pids[w] = 0;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		long idx = sh->cur[w];
		std::string why;
		/* confirm: three independent replays of the same choices */
		int good = 0;
		Outcome kind = PASS;
		for (int k = 0; k < 3; k++) {
			Outcome o = run_one(*p, Src::random(case_seed(*p, seed, idx)), &why);
			if (bad(o)) { good++; kind = o; }
		}
		if (good < 3) {
			fprintf(stderr, "note: case %ld failed once but %d of 3 replays failed; not reported (%s)\n", idx, good, why.substr(0, 200).c_str());
			unreproduced++;
			resume[w] = idx + W;
			if (!sh->stop && unreproduced < 50) { launch(w); live++; }
			continue;
		}
		sh->stop = 1;
		while (live > 0) { /* let the others finish their current case */
			pid = waitpid(-1, &st, 0);
			if (pid > 0) live--;
			else break;
		}
		auto best = recorded();
		best = shrink(*p, best, kind);
		int again = 0;
		for (int k = 0; k < 3; k++) if (bad(run_one(*p, Src::replay(best.data(), best.size()), &why))) again++;
		if (again < 3) { /* the shrunk case is unstable: fall back to the original */
			run_one(*p, Src::random(case_seed(*p, seed, idx)), &why);
			best = recorded();
		}
		mkdir("replays", 0755);
		std::string path = std::string("replays/") + p->id + strf("-seed%ld-case%ld.replay", seed, idx);
		std::ofstream f(path);
		f << "property " << p->id << "\ntier " << tier << "\nseed " << seed << " case " << idx << "\nchoices";
		for (auto x : best) f << " " << x;
		f << "\n\n" << sh->text << "\n\n---\n" << why << "\n";
		f.close();
		printf("%s\n---\n%s\n", std::string(sh->text).substr(0, 4000).c_str(), why.c_str());
		printf("VIOLATION property=%s replay=%s\n", p->id, path.c_str());
		fflush(stdout);
		write_evidence(*p, tier, seed, now() - t0, 1, "");
		return 1;
	}
	double wall = now() - t0;
	write_evidence(*p, tier, seed, wall, 0, "");
	printf("%s: held on %ld cases (%ld executions, %ld non-trivial, %ld distinct, %ld discarded) in %.1f s%s\n", p->id, (long) sh->cases,
	       (long) sh->evals, (long) sh->nontrivial, (long) sh->distinct, (long) sh->discards, wall, timed_out ? " [stopped at the time limit]" : "");
	if (sh->cases == 0 || sh->nontrivial == 0) { printf("no non-trivial case was run\n"); return 2; }
	return 0;
}
