/* Whole-program agreement with the reference interpreter: general programs, closures. */
#include "common.hpp"

static void whole(Case &c, Profile p, int budget, int ncfg, std::function<bool(const Interp &, const Gen &)> nontrivial) {
	Gen g(c.s, p);
	g.budget = budget;
	SxP prog = g.program();
	std::string src = render(prog);
	c.text = pretty(prog);
	Interp in;
	std::string want = reference(c, in, prog);
	copy_labels(c, g);
	c.nontrivial = nontrivial(in, g);
	auto cf = configs(c, ncfg);
	c.publish();
	for (auto cfg : cf) agree(c, cfg, src, want);
}

static void eval_run(Case &c) {
	Profile p;
	p.stmts = c.thorough ? 9 : 6;
	p.wide = c.s.chance(12) ? 10 : 0;
	p.depth = 3 + (int) c.s.below(2);
	p.globals = c.s.chance(40);
	whole(c, p, c.thorough ? 260 : 160, 2, [](const Interp &in, const Gen &) {
		int kinds = 0;
		for (auto &o : in.ops) if (o.first != "quote") kinds++;
		return kinds >= 4 && in.steps >= 10;
	});
}
static Register r_eval({"L01",
	"Typed random programs (variables, functions, closures, loops, conditionals, sequences, strings, composites, globals) are run by a reference "
	"interpreter written from docs/language.md and by duck-lisp; value, callback trace and success/failure must be equal. Non-trivial: at least 4 "
	"different operations executed and at least 10 evaluation steps.",
	eval_run, 12000, 150000, {"default", "noopt", "portable", "inference"},
	"Programs do not depend on the order in which sibling arguments are evaluated unless the trace fixes it; results the documentation leaves open are discarded."});

/* Closures over shared variables, kept in a registry and called while and after their scopes are open. */
namespace {
struct Weave {
	Case &c;
	Src &s;
	struct Frame { std::vector<std::string> vars; };
	std::vector<Frame> fr;
	int budget, serial = 0, closures = 0, nested = 0, sets = 0;
	bool gcs;
	Weave(Case &cc, int b, bool g) : c(cc), s(cc.s), budget(b), gcs(g) {}
	std::vector<std::string> visible() {
		std::vector<std::string> r;
		std::set<std::string> seen;
		for (size_t i = fr.size(); i-- > 0;) for (auto &v : fr[i].vars) if (seen.insert(v).second) r.push_back(v);
		return r;
	}
	std::string settable() {
		std::vector<std::string> r;
		for (auto &v : visible()) if (v[0] == 'v' || v[0] == 'q') r.push_back(v);
		return r.empty() ? "" : r[s.below((uint32_t) r.size())];
	}
	SxP show(int most = 6) {
		std::vector<SxP> k = {I("list")};
		auto v = visible();
		for (auto &n : v) if ((int) k.size() <= most && (v.size() <= 3 || s.chance(70))) k.push_back(sx_id(n));
		if (k.size() == 1) k.push_back(N(serial++));
		return sx_list(k);
	}
	SxP value() {
		auto v = visible();
		std::vector<std::string> ints = v;
		switch (ints.empty() ? 0 : s.weighted({40, 30, 30})) {
		case 0: return N(s.range(0, 99));
		case 1: return sx_id(ints[s.below((uint32_t) ints.size())]);
		default: return L(I("+"), sx_id(ints[s.below((uint32_t) ints.size())]), N(s.range(1, 9)));
		}
	}
	/* "(lambda (qN) ...)" or the tail of a defun */
	std::vector<SxP> fn(int depth, bool closure) {
		std::string q = strf("q%d", (int) s.below(3));
		fr.push_back({{q}});
		fr.push_back({});
		std::vector<SxP> k = {sx_list({sx_id(q)})};
		body(k, depth - 1, closure, s.weighted({20, 30, 25, 15, 10}));
		k.push_back(show());
		fr.pop_back();
		fr.pop_back();
		return k;
	}
	SxP lambda(int depth) {
		closures++;
		if (fr.size() > 4) nested++;
		auto k = fn(depth, true);
		k.insert(k.begin(), I("lambda"));
		return sx_list(k);
	}
	void body(std::vector<SxP> &out, int depth, bool closure, int n) {
		for (int i = 0; i < n && budget > 0; i++) {
			budget--;
			switch (s.weighted({24, 20, depth > 0 ? 24 : 0, depth > 0 ? 10 : 0, depth > 0 ? 10 : 0, depth > 0 ? 6 : 0, depth > 0 && !closure ? 12 : 0, closure ? 0 : 10, gcs ? 6 : 0, closure ? 0 : 1, 10})) {
			case 0: {
				std::string nm = strf("v%d", (int) s.below(5));
				bool dup = false;
				for (auto &v : fr.back().vars) if (v == nm) dup = true;
				if (dup) break;
				SxP e = value();
				out.push_back(L(I("var"), sx_id(nm), e));
				fr.back().vars.push_back(nm);
				break;
			}
			case 1: {
				std::string nm = settable();
				if (nm.empty()) break;
				sets++;
				out.push_back(L(I("setq"), sx_id(nm), value()));
				break;
			}
			case 2: out.push_back(L(I("setq"), I(s.chance(80) ? "reg" : "*greg*"), L(I("cons"), lambda(depth), I("reg")))); break;
			case 3: {
				std::string f = strf("f%d", serial++);
				if (s.chance(50)) { SxP l = lambda(depth); out.push_back(L(I("var"), sx_id(f), l)); out.push_back(L(I("emit"), L(I("funcall"), sx_id(f), value()))); }
				else {
					closures++;
					auto k = fn(depth, true);
					k.insert(k.begin(), sx_id(f));
					k.insert(k.begin(), I("defun"));
					out.push_back(sx_list(k));
					int times = s.range(1, 2);
					for (int t = 0; t < times; t++) out.push_back(L(I("emit"), L(sx_id(f), value())));
					if (s.chance(40)) out.push_back(L(I("setq"), I("reg"), L(I("cons"), sx_id(f), I("reg"))));
				}
				break;
			}
			case 4: {
				fr.push_back({});
				std::vector<SxP> k = {sx_list({})};
				body(k, depth - 1, closure, s.range(1, 4));
				k.push_back(show());
				fr.pop_back();
				out.push_back(s.chance(50) ? L(I("emit"), sx_list(k)) : sx_list(k));
				break;
			}
			case 5: {
				std::string iv = strf("i%d", serial++);
				fr.push_back({{iv}});
				fr.push_back({});
				std::vector<SxP> k = {I("while"), L(I("<"), sx_id(iv), N(s.range(1, 4)))};
				body(k, depth - 1, closure, s.range(1, 4));
				k.push_back(L(I("setq"), sx_id(iv), L(I("+"), sx_id(iv), N(1))));
				fr.pop_back();
				fr.pop_back();
				out.push_back(L(sx_list({}), L(I("var"), sx_id(iv), N(0)), sx_list(k)));
				break;
			}
			case 6: {
				std::string m = strf("m%d", serial++);
				auto k = fn(depth, false);
				k.insert(k.begin(), sx_id(m));
				k.insert(k.begin(), I("defun"));
				out.push_back(sx_list(k));
				int times = s.range(1, 2);
				for (int t = 0; t < times; t++) out.push_back(L(I("emit"), L(sx_id(m), value())));
				break;
			}
			case 7: out.push_back(s.chance(60) ? L(I("emit"), L(I("funcall"), L(I("car"), I("reg")), N(s.range(0, 9)))) : L(I("call-all"), I("reg"))); break;
			case 8: out.push_back(L(I("gc!"))); break;
			case 9: {
				int w = s.range(30, 280), b = serial++;
				for (int k = 0; k < w; k++) out.push_back(L(I("var"), sx_id(strf("p%d-%d", b, k)), N(k)));
				c.label("more than 30 locals between");
				break;
			}
			default: out.push_back(L(I("emit"), show()));
			}
		}
	}
};
}
static void closure_run(Case &c) {
	if (c.s.chance(25)) {
		Profile p;
		p.stmts = c.thorough ? 10 : 7;
		p.closures = 35;
		p.loops = 10;
		p.vecs = 2; p.comps = 2; p.floats = 1; p.strings = 3; p.lists = 5;
		p.emits = 14;
		p.shadow = 65;
		p.gcs = c.s.chance(40) ? 8 : 0;
		p.wide = c.s.chance(25) ? 14 : 0;
		p.depth = 4;
		whole(c, p, c.thorough ? 300 : 190, 2, [](const Interp &in, const Gen &g) {
			auto n = [&](const char *k) { auto i = g.used.find(k); return i == g.used.end() ? 0 : i->second; };
			auto o = in.ops.find("call");
			return o != in.ops.end() && o->second >= 2 &&
			       n("assignment to a captured variable") + n("shared upvalue") + n("closures in a loop") + n("escaping closure") + n("recursion") + n("defun") > 0;
		});
		return;
	}
	Weave w(c, c.thorough ? 70 : 45, c.s.chance(40));
	std::vector<SxP> st = {
		L(I("var"), I("reg"), sx_list({})), L(I("global"), I("*greg*"), sx_list({})),
		L(I("setq"), I("reg"), L(I("list"), L(I("lambda"), L(I("x")), I("x")))),
		L(I("defun"), I("call-all"), L(I("l")), L(I("while"), I("l"), L(I("emit"), L(I("funcall"), L(I("car"), I("l")), N(3))), L(I("setq"), I("l"), L(I("cdr"), I("l"))))),
	};
	w.fr.push_back({});
	w.body(st, c.s.range(2, 4), false, c.s.range(3, 9));
	if (w.gcs) st.push_back(L(I("gc!")));
	st.push_back(L(I("call-all"), I("reg")));
	st.push_back(L(I("call-all"), I("*greg*")));
	if (c.s.chance(50)) st.push_back(L(I("call-all"), I("reg")));
	st.push_back(w.show());
	SxP prog = wrap(st);
	std::string src = render(prog);
	c.text = pretty(prog);
	Interp in;
	std::string want = reference(c, in, prog);
	auto o = in.ops.find("call");
	c.nontrivial = w.closures >= 2 && o != in.ops.end() && o->second >= 4;
	if (w.nested) c.label("nested closures");
	if (w.sets) c.label("assignments");
	if (w.gcs) c.label("collections");
	auto cf = configs(c, 2);
	c.publish();
	for (auto cfg : cf) agree(c, cfg, src, want);
}
static Register r_clo({"L02",
	"Random weaves of nested functions, blocks and loops over shared variables: closures are put in a registry, called while their scopes are open and again "
	"after they ended, assign variables of any enclosing level, with shadowing, up to 280 locals in between and collections; plus general closure-heavy "
	"programs; all against the reference interpreter's lexical scoping. Non-trivial: at least two closures and four calls, or (general programs) a call of "
	"a closure that captures, assigns or escapes.",
	closure_run, 8000, 120000, {"default", "noopt", "portable", "inference"}, ""});
