/* G01: collection is invisible; G03: heap exhaustion is a reported error. */
#include "story.hpp"

namespace {
/* What one session does with a heap of a given size. */
struct Outcome {
	bool fits = true;          /* no allocation failed */
	std::string got;           /* everything observed */
	size_t failed_at = 0;      /* index of the source that ran out of memory */
	std::string partial;       /* the trace of that source */
	bool created = true;
};
struct Script { std::vector<std::string> src; std::vector<std::string> want; std::vector<bool> err; int callbacks = 1; };

Outcome play(const char *cfg, const Script &sc, size_t heap, size_t ct, long period, unsigned &evals, const Script *after = nullptr, std::string *afterwards = nullptr, long *leak = nullptr) {
	Outcome o;
	Session se(cfg, heap, ct, sc.callbacks);
	se.a->set_gc_period(se.s, period);
	for (size_t i = 0; i < sc.src.size(); i++) {
		se.a->set_budget(se.s, 200000);
		Result r = se.run(sc.src[i]);
		evals++;
		bool oom = r.compile == 6 || r.exec == 6 || (r.compile && r.cerr.find("Out of memory") != std::string::npos) || (r.exec > 0 && r.verr.find("Out of memory") != std::string::npos);
		if (oom) {
			o.fits = false;
			o.failed_at = i;
			o.partial = r.trace;
			if (r.exec > 0) se.a->soft_reset(se.s);
			break;
		}
		o.got += r.outcome() + "\n";
		if (r.exec > 0 && se.a->soft_reset(se.s)) { o.fits = false; o.failed_at = i; break; }   /* captured variables move to the heap */
		if (r.outcome() != sc.want[i]) { o.got += r.cerr + r.verr; break; }
	}
	if (after && !o.fits) {
		for (size_t i = 0; i < after->src.size(); i++) {
			se.a->set_budget(se.s, 200000);
			Result r = se.run(after->src[i]);
			evals++;
			if (r.exec > 0) se.a->soft_reset(se.s);
			*afterwards += r.outcome() + "\n";
			if (r.outcome() != after->want[i]) *afterwards += r.cerr + r.verr;
		}
	}
	if (leak) *leak = se.close();
	return o;
}
std::string all(const Script &s) { std::string r; for (auto &w : s.want) r += w + "\n"; return r; }
std::string show(const Script &s) { std::string r; for (size_t i = 0; i < s.src.size(); i++) r += (s.src.size() > 1 ? strf("; source %zu\n", i + 1) : std::string()) + s.src[i] + "\n"; return r; }
size_t smallest_session(const char *cfg, int callbacks = 1) {
	static std::map<std::string, size_t> memo;
	std::string key = strf("%s %d", cfg, callbacks);
	auto it = memo.find(key);
	if (it != memo.end()) return it->second;
	for (size_t h = 1; h < 500; h++) {
		eng_opts o = {h, 2000, 1000, 4u << 20, 2, callbacks};
		eng *e = engine(cfg)->create(&o);
		if (!e) continue;
		engine(cfg)->destroy(e);
		return memo[key] = h;
	}
	throw Fail{"no session can be created"};
}
/* The smallest heap with which everything fits, or 0. */
size_t smallest_heap(const char *cfg, const Script &sc, size_t top, unsigned &evals) {
	size_t lo = smallest_session(cfg, sc.callbacks), hi = top;
	if (!play(cfg, sc, hi, 4000, 0, evals).fits) return 0;
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		if (play(cfg, sc, mid, 4000, 0, evals).fits) hi = mid; else lo = mid + 1;
	}
	return hi;
}

/* Programs that keep what they allocate. */
struct Hoard {
	Src &s;
	Case &c;
	int n = 0;
	bool leave = true;         /* may leave globals behind */
	bool pairs = false;        /* user objects that refer to others */
	Hoard(Case &cc) : s(cc.s), c(cc) {}
	SxP item(int depth, const std::string &i) {
		SxP iv = i.empty() ? N(s.range(0, 99)) : sx_id(i);
		if (pairs && depth > 0 && s.chance(40)) switch (s.below(8)) {
		case 0: case 1: case 2: return L(I("pair"), item(depth - 1, i), item(depth - 1, i));
		case 3: return L(I(s.chance(50) ? "pair-first" : "pair-second"), L(I("pair"), item(depth - 1, i), item(depth - 1, i)));
		case 4: return L(I("pair-set!"), L(I("pair"), item(depth - 1, i), item(depth - 1, i)), item(depth - 1, i));
		case 5: { std::string v = strf("h%d", n++); return L(L(), L(I("var"), sx_id(v), L(I("pair"), item(depth - 1, i), iv)), L(I("lambda"), L(I("q")), L(I("pair-set!"), sx_id(v), L(I("list"), L(I("pair-first"), sx_id(v)), I("q"))))); }
		case 6: return L(I("make-instance"), L(I("make-type")), L(I("pair"), item(depth - 1, i), iv), L(I("pair"), iv, L(I("lambda"), L(), iv)));
		default: { SxP in = L(I("pair"), item(depth - 1, i), iv); return L(I("pair"), in, L(I("pair-second"), L(I("pair"), iv, item(depth - 1, i)))); }
		}
		switch (s.below(depth > 0 ? 15 : 5)) {
		case 0: return iv;
		case 1: return sx_str(s.pick(std::vector<std::string>{"a", "abc", "long string of text", ""}));
		case 2: return L(I("quote"), s.chance(50) ? I("sym") : L(I("p"), N(3), sx_str("z")));
		case 3: return L(I("lambda"), L(), N(4));
		case 4: return L(I("make-type"));
		case 5: return L(I("list"), item(depth - 1, i), item(depth - 1, i));
		case 6: return L(I("vector"), item(depth - 1, i), item(depth - 1, i), iv);
		case 7: { std::string v = strf("h%d", n++); return L(L(), L(I("var"), sx_id(v), item(depth - 1, i)), L(I("lambda"), L(I("q")), L(I("setq"), sx_id(v), L(I("list"), sx_id(v), I("q"))))); }
		case 8: return L(I("make-instance"), L(I("make-type")), item(depth - 1, i), s.chance(50) ? L() : L(I("lambda"), L(), iv));
		case 9: return L(I("cons"), item(depth - 1, i), item(depth - 1, i));
		case 10: return L(I("concatenate"), sx_str("x"), L(I("concatenate"), sx_str("yz"), sx_str(s.chance(50) ? "" : "w")));
		case 11: return L(I("make-vector"), N(s.range(0, 4)), item(depth - 1, i));
		case 12: { std::vector<SxP> k = {I("funcall"), L(I("lambda"), L(I("&rest"), I("r")), I("r"))}; int m = s.range(0, 5); for (int j = 0; j < m; j++) k.push_back(item(0, i)); return sx_list(k); }
		case 13: return L(I("apply"), L(I("lambda"), L(I("a"), I("&rest"), I("r")), L(I("cons"), I("r"), I("a"))), item(depth - 1, i), L(I("list"), iv, N(2)));
		default: return L(I("cdr"), L(s.chance(50) ? I("vector") : I("list"), item(depth - 1, i), item(depth - 1, i)));
		}
	}
	/* Closures in closures, of which only the innermost stays reachable. */
	void chain(std::vector<SxP> &st) {
		int d = s.range(1, 4), id = n++;
		auto nm = [&](const char *t, int i) { return strf("%s%d-%d", t, id, i); };
		std::vector<std::string> vars;
		/* levels from the outside in */
		std::vector<bool> local((size_t) d + 1), two((size_t) d + 1);
		for (int i = 0; i <= d; i++) { local[(size_t) i] = s.chance(40); two[(size_t) i] = s.chance(25); }
		for (int i = 0; i < d; i++) { vars.push_back(nm("p", i)); if (local[(size_t) i]) vars.push_back(nm("l", i)); }
		auto use = [&]() {
			std::vector<SxP> b = {I("lambda"), L(I("q"))};
			std::vector<SxP> r = {s.chance(50) ? I("list") : I("vector"), I("q")};
			for (auto &v : vars) if (s.chance(55)) {
				if (s.chance(40)) b.push_back(L(I("setq"), sx_id(v), s.chance(50) ? L(I("list"), sx_id(v), I("q")) : item(1, "")));
				r.push_back(sx_id(v));
			}
			if (s.chance(30)) b.push_back(L(I("gc!")));
			b.push_back(sx_list(r));
			return sx_list(b);
		};
		SxP f = s.chance(30) ? L(I("list"), use(), use()) : use();
		bool pair = f->k[0]->s == "list";
		for (int i = d - 1; i >= 0; i--) {
			std::vector<SxP> b = {I("lambda"), L(sx_id(nm("p", i)))};
			if (local[(size_t) i]) b.push_back(L(I("var"), sx_id(nm("l", i)), item(1, "")));
			b.push_back(f);
			f = sx_list(b);
		}
		std::string m = nm("m", 0);
		st.push_back(L(I("var"), sx_id(m), f));
		bool global = leave && s.chance(40), composite = s.chance(15);
		std::string keep = nm(global ? "kg" : "k", 0);
		SxP call;
		if (s.chance(50)) { for (int i = 0; i < d; i++) st.push_back(L(I("setq"), sx_id(m), L(I("funcall"), sx_id(m), item(2, "")))); call = sx_id(m); }
		else { call = sx_id(m); for (int i = 0; i < d; i++) call = L(I("funcall"), call, item(2, "")); }
		if (composite && !pair) call = L(I("make-instance"), L(I("make-type")), N(1), call);
		st.push_back(L(I(global ? "global" : "var"), sx_id(keep), call));
		if (s.chance(85)) st.push_back(L(I("setq"), sx_id(m), L()));
		int uses = s.range(1, 4);
		for (int i = 0; i < uses; i++) {
			if (s.chance(60)) st.push_back(L(I("gc!")));
			if (s.chance(50)) st.push_back(L(I("emit"), item(3, "")));
			SxP who = sx_id(keep);
			if (pair) who = s.chance(50) ? L(I("car"), who) : L(I("car"), L(I("cdr"), who));
			SxP r = L(I("funcall"), who, item(1, ""));
			st.push_back(L(I("emit"), r));
		}
	}
	/* Structures built and changed through pairs. */
	void paired(std::vector<SxP> &st, std::vector<std::string> &acc) {
		std::string p = strf("pr%d", n++), q = strf("pq%d", n++), i = strf("i%d", n++);
		auto pair = [&](SxP a, SxP b) { return L(I("pair"), a, b); };
		auto first = [&](SxP a) { return L(I("pair-first"), a); };
		auto second = [&](SxP a) { return L(I("pair-second"), a); };
		bool global = leave && s.chance(25);
		SxP def = I(global ? "global" : "var");
		auto between = [&] {
			if (s.chance(50)) st.push_back(L(I("gc!")));
			if (s.chance(50)) st.push_back(L(I("emit"), item(3, "")));
		};
		switch (s.below(4)) {
		case 0: {
			/* a list of pairs */
			st.push_back(L(def, sx_id(p), L()));
			st.push_back(L(I("var"), sx_id(i), N(0)));
			std::vector<SxP> w = {I("while"), L(I("<"), sx_id(i), N(s.range(1, 9)))};
			w.push_back(L(I("setq"), sx_id(i), L(I("+"), sx_id(i), N(1))));
			w.push_back(L(I("setq"), sx_id(p), s.chance(50) ? pair(item(1, i), sx_id(p)) : pair(sx_id(p), item(1, i))));
			if (s.chance(40)) w.push_back(L(I("emit"), s.chance(50) ? first(sx_id(p)) : second(sx_id(p))));
			st.push_back(sx_list(w));
			break;
		}
		case 1: {
			/* a pair that is changed again and again */
			st.push_back(L(def, sx_id(p), pair(item(2, ""), item(2, ""))));
			int m = s.range(1, 4);
			for (int j = 0; j < m; j++) {
				between();
				st.push_back(L(I("pair-set!"), sx_id(p), item(2, "")));
				if (s.chance(40)) st.push_back(L(I("emit"), sx_id(p)));
			}
			break;
		}
		case 2: {
			/* a cycle: only parts of it can be printed */
			st.push_back(L(def, sx_id(q), pair(N(0), item(2, ""))));
			SxP in = sx_id(q);
			int k = (int) s.below(4);
			SxP other = item(2, "");
			st.push_back(L(I("pair-set!"), sx_id(q), k == 0 ? in : k == 1 ? L(I("list"), in, other) : k == 2 ? L(I("vector"), other, in) : pair(other, in)));
			between();
			SxP back = first(in);
			if (k == 1) back = L(I("car"), back);
			if (k == 2) back = L(I("get-vector-element"), back, N(1));
			if (k == 3) back = second(back);
			int deep = s.range(0, 2);
			if (k == 0) { SxP f = in; for (int j = 0; j < deep; j++) f = first(f); st.push_back(L(I("emit"), second(f))); }
			else {
				st.push_back(L(I("emit"), k == 1 ? L(I("car"), L(I("cdr"), first(in))) : k == 2 ? L(I("get-vector-element"), first(in), N(0)) : first(first(in))));
				st.push_back(L(I("emit"), second(back)));
			}
			if (s.chance(50)) st.push_back(L(I("setq"), sx_id(q), second(sx_id(q))));
			else st.push_back(L(I("pair-set!"), sx_id(q), N(1)));
			p = q;
			break;
		}
		default: {
			/* one thing reached by two ways, one of which goes away */
			st.push_back(L(I("var"), sx_id(q), item(2, "")));
			st.push_back(L(def, sx_id(p), s.chance(50) ? pair(sx_id(q), item(1, "")) : pair(item(1, ""), pair(sx_id(q), N(1)))));
			if (s.chance(70)) st.push_back(L(I("setq"), sx_id(q), item(1, "")));
			between();
			if (s.chance(50)) st.push_back(L(I("setq"), sx_id(p), second(sx_id(p))));
			acc.push_back(q);
		}
		}
		between();
		acc.push_back(p);
	}
	SxP program(int scale, const std::vector<std::string> &globals) {
		std::vector<SxP> st;
		std::vector<std::string> acc;
		int m = s.range(1, 4);
		for (int j = 0; j < m; j++) {
			std::string a = strf("acc%d", n++), i = strf("i%d", n++);
			if (globals.size() && s.chance(40)) st.push_back(L(I("emit"), sx_id(s.pick(globals))));
			if (pairs && s.chance(50)) paired(st, acc);
			else switch (s.below(7)) {
			case 5: case 6: chain(st); c.label("closures in closures"); break;
			case 0: case 1:
				st.push_back(L(I("var"), sx_id(a), L()));
				st.push_back(L(I("var"), sx_id(i), N(0)));
				{
					std::vector<SxP> w = {I("while"), L(I("<"), sx_id(i), N(s.range(1, scale)))};
					w.push_back(L(I("setq"), sx_id(i), L(I("+"), sx_id(i), N(1))));
					w.push_back(L(I("setq"), sx_id(a), L(I("cons"), item(2, i), sx_id(a))));
					if (s.chance(40)) w.push_back(L(I("emit"), s.chance(50) ? sx_id(i) : L(I("car"), sx_id(a))));
					st.push_back(sx_list(w));
				}
				acc.push_back(a);
				break;
			case 2:
				/* recursion that holds its values on the stack */
				st.push_back(L(I("defun"), sx_id(a), L(I("n")), L(I("if"), L(I("<"), I("n"), N(1)), L(), L(I("cons"), item(1, "n"), L(sx_id(a), L(I("-"), I("n"), N(1)))))));
				st.push_back(L(I("var"), sx_id(i), L(sx_id(a), N(s.range(1, scale)))));
				acc.push_back(i);
				break;
			case 3: {
				std::vector<SxP> k = {s.chance(50) ? I("list") : I("vector")};
				int q = s.range(1, 12);
				for (int x = 0; x < q; x++) k.push_back(item(2, ""));
				st.push_back(L(I("var"), sx_id(a), sx_list(k)));
				acc.push_back(a);
				break;
			}
			default:
				st.push_back(L(I("var"), sx_id(a), item(3, "")));
				st.push_back(L(I("emit"), sx_id(a)));
				acc.push_back(a);
			}
			if (acc.size() > 1 && s.chance(30)) st.push_back(L(I("setq"), sx_id(s.pick(acc)), s.chance(50) ? L() : item(1, "")));
			if (s.chance(30)) st.push_back(L(I("gc!")));
			if (s.chance(30)) st.push_back(L(I("emit"), N(s.range(0, 99))));
		}
		std::vector<SxP> r = {I("list")};
		for (auto &a : acc) r.push_back(sx_id(a));
		st.push_back(sx_list(r));
		return wrap(st);
	}
};

/* One or more sources and what they must do. */
Script script(Case &c, Interp &in, bool multi, bool pairs = false) {
	Src &s = c.s;
	Script sc;
	if (pairs) { sc.callbacks = 3; for (auto n : {"pair", "pair-first", "pair-second", "pair-set!"}) in.callbacks.insert(n); }
	int n = multi ? s.range(2, 5) : 1;
	std::vector<Var> gv;
	int fresh = 0;
	for (int i = 0; i < n; i++) {
		SxP p;
		if (pairs || s.chance(45)) { Hoard h(c); h.n = 100 * i; h.pairs = pairs; p = h.program(c.thorough ? 30 : 14, {}); }
		else {
			Profile pr;
			pr.depth = s.range(2, 4); pr.stmts = 5; pr.closures = 16; pr.lists = 16; pr.vecs = 12; pr.comps = 8; pr.strings = 14; pr.gcs = 4; pr.apply = 8;
			pr.globals = multi || s.chance(30);
			pr.errors = s.chance(10) ? 4 : 0;
			Gen g(s, pr);
			g.budget = c.thorough ? 160 : 90;
			g.gvars = gv;
			g.fresh = fresh;
			p = g.program();
			gv = g.gvars;
			fresh = g.fresh;
			copy_labels(c, g);
		}
		in.trace.clear();
		in.steps = 0;
		std::string w = reference(c, in, p);
		sc.src.push_back(render(p));
		sc.want.push_back(w);
		sc.err.push_back(w.size() >= 13 && w.substr(w.size() - 13) == "runtime-error");
	}
	return sc;
}
}

static void exact_heap(Case &c, bool pairs) {
	Src &s = c.s;
	Interp in;
	bool multi = s.chance(25);
	if (multi) c.label("several sources");
	Script sc = script(c, in, multi, pairs);
	c.text = show(sc);
	c.publish();
	const size_t top = 8000;
	for (auto cfg : configs(c, 1)) {
		size_t h = smallest_heap(cfg, sc, top, c.evals);
		if (!h) c.discard("too large");
		c.nontrivial = h > smallest_session(cfg, sc.callbacks) + 12;
		struct Run { size_t heap; long period; };
		std::vector<Run> runs = {{top, 0}, {h, 0}, {h + 1, 0}, {h + 2, 0}, {h + (size_t) s.range(3, 9), 0}, {h + (size_t) s.range(10, 60), 0}, {top, 1}, {top, s.range(2, 7)}, {h, 1}, {h + (size_t) s.range(1, 30), s.range(1, 5)}};
		for (auto &r : runs) {
			Outcome o = play(cfg, sc, r.heap, 4000, r.period, c.evals);
			if (!o.fits) c.fail(strf("configuration %s: a heap of %zu objects suffices, but with %zu objects%s memory runs out in source %zu\n", cfg, h, r.heap, r.period ? strf(" and a collection on every %ld. callback", r.period).c_str() : "", o.failed_at + 1));
			if (o.got != all(sc)) c.fail(strf("configuration %s, heap of %zu objects (%zu suffice)%s\nexpected:\n%s\ngot:\n%s", cfg, r.heap, h, r.period ? strf(", collecting on every %ld. callback", r.period).c_str() : "", all(sc).c_str(), o.got.c_str()));
		}
	}
}
static void gc_run(Case &c) {
	Src &s = c.s;
	if (s.chance(20)) {
		/* the compile-time heap */
		std::string src, want;
		macro_source(c, &src, &want);
		c.label("small compile-time heap");
		c.publish();
		Script sc;
		sc.src = {src}; sc.want = {want}; sc.err = {false};
		for (auto cfg : configs(c, 1)) {
			size_t lo = 1, hi = 20000;
			auto fits = [&](size_t h) {
				eng_opts o = {4000, h, 1000, 4u << 20, 2, 1};
				eng *e = engine(cfg)->create(&o);
				if (!e) return false;
				engine(cfg)->destroy(e);
				return play(cfg, sc, 4000, h, 0, c.evals).fits;
			};
			if (!fits(hi)) c.discard("too large");
			while (lo < hi) { size_t m = (lo + hi) / 2; if (fits(m)) hi = m; else lo = m + 1; }
			for (size_t h : {hi, hi + 1, hi + 2, hi + (size_t) s.range(3, 9), hi + (size_t) s.range(10, 60), (size_t) 20000}) {
				long period = s.chance(50) ? s.range(1, 4) : 0;
				Outcome o = play(cfg, sc, 4000, h, period, c.evals);
				if (!o.fits) c.fail(strf("configuration %s: a compile-time heap of %zu objects suffices, but with %zu objects memory runs out\n", cfg, hi, h));
				if (o.got != all(sc)) c.fail(strf("configuration %s, compile-time heap of %zu objects (%zu suffice)\nexpected:\n%s\ngot:\n%s", cfg, h, hi, all(sc).c_str(), o.got.c_str()));
			}
		}
		return;
	}
	exact_heap(c, false);
}
static Register r_g01({"G01",
	"generated programs and histories of sources rich in closures, sequences, composites, strings, rest lists and recursion; the smallest heap with which memory does not run out is found by bisection; with that heap, with one, two and a few objects more, and with a collection on every n-th callback, the outcome must be that of the reference interpreter. The same with the compile-time heap for generated macro programs. Non-trivial: the program needs more than a dozen objects at once, so that with the smallest heap every allocation may collect.",
	gc_run, 2200, 30000, {"default", "noopt", "portable", "inference"},
	""});

static void pairs_run(Case &c) { exact_heap(c, true); }
static Register r_g04({"G04",
	"generated programs and histories in which user objects of the host, whose marker names two heap cells, hold and are held by lists, vectors, closures, composites, strings, globals and each other, are changed, shared and dropped, and form cycles; with the smallest heap that suffices, with a few objects more, and with a collection on every n-th callback, all that is reached through them must be what the reference interpreter says. Non-trivial: the program needs more than a dozen objects at once.",
	pairs_run, 1000, 30000, {"default", "noopt", "portable", "inference"},
	""});

static bool prefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }

static void exhaust_run(Case &c) {
	Src &s = c.s;
	Interp in;
	/* globals that must survive, a program that needs much, and uses of the globals */
	Script setup, hog, check;
	std::vector<std::string> names;
	{
		Hoard h(c);
		std::vector<SxP> st;
		int n = s.range(0, 3);
		for (int i = 0; i < n; i++) {
			std::string g = strf("keep%d", i);
			st.push_back(L(I("global"), sx_id(g), h.item(s.range(1, 3), "")));
			names.push_back(g);
		}
		if (s.chance(60)) {
			st.push_back(L(I("var"), I("cell"), L(I("list"), N(1), sx_str("cell"))));
			st.push_back(L(I("global"), I("cell-add"), L(I("lambda"), L(I("v")), L(I("setq"), I("cell"), L(I("cons"), I("v"), I("cell"))))));
		}
		else st.push_back(L(I("global"), I("cell-add"), L(I("lambda"), L(I("v")), L(I("list"), I("v")))));
		SxP p = wrap(st);
		setup.want.push_back(reference(c, in, p));
		setup.src.push_back(render(p));
	}
	/* the check must not depend on how far the failing program came: that program does not assign these globals */
	Interp in2 = in;
	{
		SxP p;
		if (s.chance(70)) { Hoard h(c); h.n = 50; h.leave = false; p = h.program(c.thorough ? 30 : 14, names); }
		else {
			Profile pr;
			pr.depth = 4; pr.stmts = 6; pr.closures = 16; pr.lists = 20; pr.vecs = 14; pr.comps = 8; pr.strings = 14; pr.gcs = 2; pr.apply = 8;
			Gen g(s, pr);
			g.budget = 120;
			p = g.program();
		}
		in2.trace.clear();
		hog.want.push_back(reference(c, in2, p));
		hog.src.push_back(render(p));
	}
	{
		in.trace.clear();
		in.steps = 0;
		std::vector<SxP> k = {I("list")};
		for (auto &g : names) k.push_back(sx_id(g));
		SxP p = wrap({L(I("emit"), N(5)), L(I("emit"), sx_list(k)), L(I("cell-add"), N(8)), L(I("emit"), L(I("cell-add"), sx_str("t")))});
		check.want.push_back(reference(c, in, p));
		check.src.push_back(render(p));
		Profile pr;
		pr.stmts = 3; pr.depth = 3;
		Gen g(s, pr);
		g.budget = 30;
		p = g.program();
		in.trace.clear();
		in.steps = 0;
		check.want.push_back(reference(c, in, p));
		check.src.push_back(render(p));
	}
	c.text = show(setup) + "; the program that runs out of memory\n" + show(hog) + "; afterwards\n" + show(check);
	c.publish();
	auto join = [](const Script &a, const Script &b) { Script r = a; r.src.insert(r.src.end(), b.src.begin(), b.src.end()); r.want.insert(r.want.end(), b.want.begin(), b.want.end()); r.err.assign(r.src.size(), false); return r; };
	Script sh = join(setup, hog), sk = join(setup, check);
	const size_t top = 8000;
	for (auto cfg : configs(c, 1)) {
		/* the failing program is compiled in the same order, so that names are the same */
		size_t h = smallest_heap(cfg, sh, top, c.evals), hs = smallest_heap(cfg, setup, top, c.evals), hk = smallest_heap(cfg, sk, top, c.evals);
		if (!h || !hk) c.discard("too large");
		size_t lo = std::max(hs, smallest_session(cfg));
		c.nontrivial = h > lo + 5;
		if (h <= lo) c.discard("the program needs no more than the setup");
		std::set<size_t> heaps = {h - 1, lo};
		for (int i = 0; i < 6; i++) heaps.insert(lo + s.below((uint32_t) (h - lo)));
		for (size_t x : heaps) {
			std::string aft;
			Outcome o = play(cfg, sh, x, 4000, s.chance(30) ? s.range(1, 4) : 0, c.evals, &check, &aft);
			auto where = [&]() { return strf("configuration %s, heap of %zu objects (%zu suffice)\n", cfg, x, h); };
			if (o.fits) c.fail(where() + "memory should have run out, but the outcomes are\n" + o.got);
			if (o.failed_at != 1) c.fail(where() + "the setup ran out of memory\n");
			if (o.got != all(setup)) c.fail(where() + "before memory ran out, expected:\n" + all(setup) + "got:\n" + o.got);
			if (!prefix(o.partial, hog.want[0])) c.fail(where() + "the program did something else before it ran out of memory\nfull trace:\n" + hog.want[0] + "\ngot:\n" + o.partial);
			if (x >= hk) {
				c.label("session used afterwards");
				if (aft != all(check)) c.fail(where() + "afterwards, expected:\n" + all(check) + "got:\n" + aft);
			}
		}
	}
}
static Register r_g03({"G03",
	"a program that stores structures and closures in globals, then a program that keeps much more than fits, with up to eight heap sizes below the one it needs (found by bisection): the second program must end with an out-of-memory error after a prefix of its effects, and after a reset of the stack the globals, the closures and a further generated program must behave as without it whenever they need no more than the heap. Non-trivial: more than five heap sizes lie between the needs of the two programs.",
	exhaust_run, 1800, 30000, {"default", "noopt", "portable", "inference"},
	""});
