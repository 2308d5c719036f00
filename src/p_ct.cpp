/* L10: compile-time evaluation gives the run-time value; its effects and definitions stay at compile time. */
#include "common.hpp"

namespace {
bool convertible(const VP &v, int d = 0) {
	if (d > 12) return false;
	switch (v->t) {
	case Value::NIL: case Value::BOOL: case Value::STR: case Value::SYM: return true;
	case Value::FLOAT: return v->f == v->f && v->f < 1e30 && v->f > -1e30;
	case Value::INT: return v->i <= 2147483647ll && v->i >= -2147483647ll;
	case Value::LIST: {
		int n = 0;
		VP p = v;
		for (; p->t == Value::LIST; p = p->cons->cdr) if (!convertible(p->cons->car, d + 1) || ++n > 300) return false;
		return p->t == Value::NIL;
	}
	default: return false;
	}
}
struct CtVar { std::string name; char kind; /* i int, l list, s string, f function of one int, n counter, b box (list with one int) */ };
struct CtFail {};

struct Ct {
	Case &c;
	Src &s;
	Interp ci;                               /* the compile-time machine, alive for the whole session */
	Interp ri;                               /* the run-time machine */
	std::vector<ScopeP> cs;                  /* compile-time scopes of the current source, innermost last */
	std::vector<std::vector<CtVar>> cv;
	std::vector<CtVar> cg;                   /* compile-time globals */
	std::vector<std::string> rg;             /* run-time globals (int or list) */
	std::vector<std::string> macros;
	std::map<std::string, VP> mfun;
	std::vector<std::vector<std::string>> mscope;
	int fresh = 0, uses = 0, defs_used = 0, defs = 0;
	bool failed = false;                     /* the current source does not compile */
	std::string rflag;
	Ct(Case &cc) : c(cc), s(cc.s) { ci.in_ct = true; }

	Gen sub() {
		Profile p;
		p.depth = 2; p.stmts = 2; p.globals = false; p.emits = 6; p.comps = 0; p.vecs = 4; p.gcs = 2; p.alias = 4;
		Gen g(s, p);
		g.budget = 25;
		return g;
	}
	std::vector<CtVar> vis(const char *kinds) {
		std::vector<CtVar> r;
		std::set<std::string> seen;
		for (size_t i = cv.size(); i-- > 0;) for (size_t j = cv[i].size(); j-- > 0;) if (seen.insert(cv[i][j].name).second && strchr(kinds, cv[i][j].kind)) r.push_back(cv[i][j]);
		for (auto &g : cg) if (seen.insert(g.name).second && strchr(kinds, g.kind)) r.push_back(g);
		return r;
	}
	/* an int expression over compile-time names */
	SxP cint(int d, bool fx) {
		auto v = vis("i");
		auto f = vis("f");
		auto n = vis("n");
		auto l = vis("l");
		switch (s.weighted({10, 25, 20, fx ? 20 : 0, 12, 10, 8})) {
		case 1: if (v.size()) { defs_used++; return sx_id(s.pick(v).name); } break;
		case 2: if (f.size() && d > 0) { defs_used++; return L(sx_id(s.pick(f).name), cint(d - 1, false)); } break;
		case 3: if (n.size()) { defs_used++; c.label("compile-time state"); return L(sx_id(s.pick(n).name)); } break;
		case 4: if (d > 0) { bool e = fx && s.chance(50); SxP a = cint(d - 1, e), b = cint(d - 1, false); if (e) b = N(s.range(0, 9)); return L(I(s.chance(50) ? "+" : "-"), a, b); } break;
		case 5: if (l.size()) { defs_used++; return L(I("length"), sx_id(s.pick(l).name)); } break;
		case 6: { Gen g = sub(); return g.expr(T_INT, 2, fx ? 1 : 0); }
		}
		return N(s.range(-9, 300));
	}
	SxP cany(bool fx) {
		auto l = vis("l");
		auto st = vis("s");
		switch (s.weighted({30, 12, 12, 20, 14, 8, 8})) {
		case 1: if (l.size()) { defs_used++; return sx_id(s.pick(l).name); } break;
		case 2: if (st.size()) { defs_used++; return L(I("concatenate"), sx_id(s.pick(st).name), sx_str(rand_string(s, 6))); } break;
		case 3: { Gen g = sub(); return g.expr(std::vector<Ty>{T_INT, T_BOOL, T_FLOAT, T_STR, T_SYM, T_LIST}[s.below(6)], 3, fx ? 2 : 0); }
		case 4: { std::vector<SxP> k = {I("list"), cint(1, fx)}; int n = s.range(0, 3); for (int i = 0; i < n; i++) k.push_back(cint(1, false)); if (s.chance(30)) k.push_back(L(I("quote"), I("sym"))); return sx_list(k); }
		case 5: return L(I("if"), L(I("<"), cint(1, fx), N(5)), sx_str("small"), L(I("quote"), L(I("big"), N(1), sx_str("x"))));
		case 6: return rand_datum(s, 2);
		}
		return cint(2, fx);
	}
	/* runs the forms at compile time; the value, or nothing when the source fails to compile */
	VP run(const std::vector<SxP> &forms) {
		ci.steps = 0;
		try { return ci.body(forms, 0, cs.back()); }
		catch (RefError &) { ci.depth = 0; failed = true; throw CtFail{}; }
		catch (RefLimit &) { throw Discard{"too long"}; }
		catch (RefUnspecified &u) { throw Discard{"unspecified: " + u.why}; }
	}
	SxP comptime(std::vector<SxP> forms, VP *val = nullptr, bool want_value = true) {
		long cl = ci.clock;
		(void) cl;
		VP v = run(forms);
		if (!convertible(v) || (!want_value && s.chance(60))) { forms.push_back(N(0)); v = v_int(0); }
		if (val) *val = v;
		uses++;
		for (auto &f : forms) ci.keep.push_back(f);
		forms.insert(forms.begin(), I(s.chance(8) ? "__comptime" : "comptime"));
		return sx_list(forms);
	}
	/* (comptime E) and the datum it stands for */
	std::pair<SxP, SxP> value(bool fx, bool integer = false) {
		std::vector<SxP> forms;
		if (fx && s.chance(15)) forms.push_back(L(I("emit"), cint(1, false)));
		if (s.chance(10)) forms.push_back(L(I("gc!")));
		if (s.chance(10)) { std::string t = strf("t%d", fresh++); forms.push_back(L(L(), L(I("var"), sx_id(t), cint(1, false)), sx_id(t))); }
		if (integer) forms.push_back(cint(2, fx)); else forms.push_back(cany(fx));
		VP v;
		SxP x = comptime(forms, &v);
		if (integer && v->t != Value::INT) throw Discard{"not an integer"};
		return {x, L(I("quote"), ci.to_sx(v))};
	}
	typedef std::pair<SxP, SxP> P2;
	static P2 both(const SxP &x) { return {x, x}; }
	static P2 mk(std::vector<P2> k) { std::vector<SxP> a, b; for (auto &x : k) { a.push_back(x.first); b.push_back(x.second); } return {sx_list(a), sx_list(b)}; }
	P2 define() {
		defs++;
		std::vector<SxP> f;
		std::string nm = strf("c%c%d", "vxy"[s.below(3)], s.chance(70) ? fresh++ : (int) s.below((uint32_t) fresh + 1));
		bool global = s.chance(30);
		if (global) nm = strf("*cg%d*", (int) s.below(6));
		else for (auto &v : cv.back()) if (v.name == nm) nm = strf("c%d", fresh++);
		char kind;
		std::vector<SxP> rest;
		SxP e;
		switch (s.weighted({30, 15, 12, 22, 18})) {
		case 0: kind = 'i'; e = cint(2, true); break;
		case 1: { kind = 'l'; std::vector<SxP> k = {I("list")}; int n = s.range(0, 4); for (int i = 0; i < n; i++) k.push_back(cint(1, false)); e = sx_list(k); break; }
		case 2: kind = 's'; e = sx_str(rand_string(s, 8)); break;
		case 3: {
			kind = 'f';
			SxP body = L(I("+"), I("p"), cint(1, false));
			if (s.chance(25)) body = L(I("if"), L(I(">"), I("p"), N(0)), L(I("if"), L(I("<"), I("p"), N(30)), L(I("+"), N(2), L(I("self"), L(I("-"), I("p"), N(1)))), body), body);
			if (!global && s.chance(60)) { f.push_back(L(I("defun"), sx_id(nm), L(I("p")), body)); e = nullptr; }
			else e = L(I("lambda"), L(I("p")), body);
			break;
		}
		default: {
			/* a function with a variable of its own */
			kind = 'n';
			std::string st = strf("st%d", fresh++);
			int step = s.range(1, 5);
			SxP fn = L(I("lambda"), L(), L(I("setq"), sx_id(st), L(I("+"), sx_id(st), N(step))));
			switch (s.below(3)) {
			case 0: e = L(L(), L(I("var"), sx_id(st), N(s.range(0, 9))), fn); break;      /* in a scope that has ended */
			case 1: f.push_back(L(I("var"), sx_id(st), N(s.range(0, 9)))); e = fn; break; /* next to it */
			default: f.push_back(L(I("global"), sx_id("*" + st + "*"), N(s.range(0, 9)))); e = L(I("lambda"), L(), L(I("setq"), sx_id("*" + st + "*"), L(I("+"), sx_id("*" + st + "*"), N(step))));
			}
		}
		}
		if (e) {
			if (kind == 'n' || kind == 'f') {
				/* callable: needs the function namespace unless global */
				if (global) f.push_back(L(I("global"), sx_id(nm), e));
				else if (kind == 'n') { std::string t = strf("fn%d", fresh++); f.push_back(L(I("var"), sx_id(t), e)); f.push_back(L(I("defun"), sx_id(nm), L(), L(I("funcall"), sx_id(t)))); }
				else { std::string t = strf("fn%d", fresh++); f.push_back(L(I("var"), sx_id(t), e)); f.push_back(L(I("defun"), sx_id(nm), L(I("p")), L(I("funcall"), sx_id(t), I("p")))); }
			}
			else f.push_back(L(I(global ? "global" : "var"), sx_id(nm), e));
		}
		VP v;
		SxP x = comptime(f, &v, false);
		if (global) { bool had = false; for (auto &g : cg) if (g.name == nm) { g.kind = kind; had = true; } if (!had) cg.push_back({nm, kind}); }
		else cv.back().push_back({nm, kind});
		return {x, L(I("quote"), ci.to_sx(v))};
	}
	P2 assign() {
		auto v = vis("i");
		auto l = vis("l");
		if (l.size() && s.chance(40)) {
			std::string n = s.pick(l).name;
			std::vector<SxP> f;
			if (s.chance(50)) f.push_back(L(I("setq"), sx_id(n), L(I("cons"), cint(1, false), sx_id(n))));
			else f.push_back(L(I("when"), sx_id(n), L(I("set-car"), sx_id(n), cint(1, false))));
			VP x; SxP q = comptime(f, &x);
			c.label("compile-time mutation");
			return {q, L(I("quote"), ci.to_sx(x))};
		}
		if (v.size()) {
			std::string n = s.pick(v).name;
			VP x; SxP q = comptime({L(I("setq"), sx_id(n), L(I("+"), sx_id(n), cint(1, false)))}, &x);
			c.label("compile-time assignment");
			return {q, L(I("quote"), ci.to_sx(x))};
		}
		return define();
	}
	void push() { ScopeP n = std::make_shared<Scope>(); n->parent = cs.back(); cs.push_back(n); cv.push_back({}); mscope.push_back({}); }
	void pop() { cs.pop_back(); cv.pop_back(); mscope.pop_back(); }
	std::vector<std::string> vmac() { std::vector<std::string> r; for (auto &m : mscope) r.insert(r.end(), m.begin(), m.end()); return r; }
	P2 stmt(int depth) {
		switch (s.weighted({22, 26, 8, 8, 8, 6, 8, 8, 6, 6, depth > 0 ? 14 : 0})) {
		case 0: return define();
		case 1: { auto v = value(true); return mk({both(I("emit")), v}); }
		case 2: return assign();
		case 3: { auto v = value(true); c.label("condition"); return mk({both(I("if")), v, both(L(I("emit"), N(1))), both(L(I("emit"), N(2)))}); }
		case 4: {
			auto v = value(true, true);
			c.label("operand");
			switch (s.below(3)) {
			case 0: return mk({both(I("emit")), mk({both(I("+")), v, both(N(s.range(0, 9)))})});
			case 1: return mk({both(I("emit")), mk({both(I("list")), both(sx_str("a")), v, both(sx_bool(true))})});
			default: return mk({both(I("second")), both(N(1)), v});
			}
		}
		case 5: { auto v = value(true); c.label("function body"); return mk({both(I("emit")), mk({both(I("funcall")), mk({both(I("lambda")), both(L(I("q"))), mk({both(I("list")), both(I("q")), v})}), both(N(3))})}); }
		case 6: {
			/* a global of the run-time machine, seen by later sources */
			auto v = value(true);
			std::string n = strf("*rg%d*", (int) s.below(4));
			bool had = false;
			for (auto &x : rg) had |= x == n;
			if (!had) rg.push_back(n);
			return mk({both(I("global")), both(sx_id(n)), v});
		}
		case 7: {
			/* loop: evaluated once, at compile time */
			auto v = value(true);
			std::string i = strf("i%d", fresh++);
			c.label("loop body");
			return mk({both(L()), both(L(I("var"), sx_id(i), N(0))), mk({both(I("while")), both(L(I("<"), sx_id(i), N(s.range(0, 3)))), mk({both(I("emit")), v}), both(L(I("setq"), sx_id(i), L(I("+"), sx_id(i), N(1))))})});
		}
		case 8: {
			std::string m = strf("mac%d", fresh++);
			SxP body = L(I("list"), L(I("quote"), I("list")), I("a"), cint(2, true), L(I("quote"), L(I("quote"), I("z"))));
			SxP lam = L(I("lambda"), L(I("a")), body);
			ci.keep.push_back(lam);
			mfun[m] = run({lam});
			mscope.back().push_back(m);
			return {L(I("defmacro"), sx_id(m), L(I("a")), body), sx_list({})};
		}
		case 9: {
			auto ms = vmac();
			if (ms.empty()) { auto v = value(true); return mk({both(I("emit")), v}); }
			std::string m = s.pick(ms);
			VP r;
			ci.steps = 0;
			SxP arg = s.chance(60) ? N(s.range(0, 99)) : L(I("list"), N(1), sx_str("w"));
			try { r = ci.call(mfun[m], {ci.quote(arg)}); }
			catch (RefError &) { ci.depth = 0; failed = true; throw CtFail{}; }
			catch (RefLimit &) { throw Discard{"too long"}; }
			if (!convertible(r)) throw Discard{"not source"};
			uses++;
			defs_used++;
			c.label("macro that uses compile-time definitions");
			if (s.chance(25)) {
				/* as a function, in compile-time code */
				SxP call = L(I("comptime"), L(I("funcall"), sx_id(m), L(I("quote"), arg)));
				return mk({both(I("emit")), P2{call, L(I("quote"), ci.to_sx(r))}});
			}
			return mk({both(I("emit")), P2{L(sx_id(m), arg), ci.to_sx(r)}});
		}
		default: {
			push();
			int n = s.range(1, 3);
			std::vector<P2> b;
			c.label("nested scope");
			for (int i = 0; i < n; i++) b.push_back(stmt(depth - 1));
			pop();
			switch (s.below(4)) {
			case 0: { b.insert(b.begin(), both(L())); return mk(b); }
			case 1: { b.insert(b.begin(), {both(I("when")), both(sx_id(rflag))}); return mk(b); }
			case 2: { b.insert(b.begin(), {both(I("unless")), both(sx_id(rflag))}); return mk(b); }
			default: {
				std::string f = strf("rf%d", fresh++);
				b.insert(b.begin(), {both(I("defun")), both(sx_id(f)), both(L())});
				P2 d = mk(b);
				std::vector<P2> k = {both(I("noscope")), d};
				int calls = s.range(0, 2);
				for (int i = 0; i < calls; i++) k.push_back(both(L(sx_id(f))));
				return mk(k);
			}
			}
		}
		}
	}
};
} // namespace

static void ct_run(Case &c) {
	Src &s = c.s;
	Ct g(c);
	int nsrc = s.weighted({40, 30, 20, 10}) + 1;
	std::vector<std::string> srcs, wants;
	for (int k = 0; k < nsrc; k++) {
		g.cs = {std::make_shared<Scope>()};
		g.cv = {{}};
		g.mscope = {{}};
		g.failed = false;
		g.ci.trace.clear();
		g.ri.trace.clear();
		g.rflag = strf("flag%d", k);
		std::vector<SxP> src, ref;
		SxP fl = L(I("var"), sx_id(g.rflag), sx_bool(s.chance(70)));
		src.push_back(fl);
		ref.push_back(fl);
		int n = s.range(1, c.thorough ? 12 : 8);
		try {
			for (int i = 0; i < n; i++) { auto p = g.stmt(2); src.push_back(p.first); ref.push_back(p.second); }
			if (s.chance(10)) {
				/* compile-time code cannot see run-time variables, nor fail unnoticed */
				c.label("compile-time error");
				SxP bad = s.chance(50) ? L(I("comptime"), sx_id(g.rflag)) : L(I("comptime"), L(I("emit"), N(1)), L(I("car"), N(5)));
				src.push_back(bad);
				if (bad->k.size() == 3) g.ci.trace += "ct:1\n";
				g.failed = true;
				src.push_back(L(I("emit"), N(4)));
			}
			else if (g.cv[0].size() && s.chance(15)) {
				/* run-time code cannot see compile-time names */
				c.label("run-time use of a compile-time name");
				auto &v = s.pick(g.cv[0]);
				SxP bad = strchr("fn", v.kind) && s.chance(50) ? L(sx_id(v.name), N(1)) : L(I("emit"), sx_id(v.name));
				src.push_back(bad);
				ref.push_back(bad);
			}
			else if (g.cg.size() && s.chance(10)) { SxP bad = L(I("emit"), sx_id(s.pick(g.cg).name)); src.push_back(bad); ref.push_back(bad); c.label("run-time use of a compile-time name"); }
			else if (g.rg.size() && s.chance(40)) { SxP x = L(I("emit"), sx_id(s.pick(g.rg))); src.push_back(x); ref.push_back(x); }
		} catch (CtFail &) { src.push_back(L(I("comptime"), N(0))); c.discard("generated a failing compile-time form"); }
		std::string want;
		if (g.failed) want = g.ci.trace + "compile-error";
		else {
			g.ri.steps = 0;
			g.ri.depth = 0;
			SxP rp = wrap(ref);
			want = g.ci.trace + reference(c, g.ri, rp);
		}
		srcs.push_back(render(wrap(src)));
		wants.push_back(want);
		c.text += strf("; source %d\n", k + 1) + pretty(wrap(src)) + "\n";
	}
	if (!g.uses) c.discard("nothing at compile time");
	c.nontrivial = g.uses >= 2 && g.defs_used >= 1;
	if (nsrc > 1) c.label("several sources");
	c.publish();
	bool small = s.chance(20);
	size_t ct = small ? (size_t) s.range(150, 800) : 20000;
	long gcp = s.chance(25) ? s.range(1, 4) : 0;
	for (auto cfg : configs(c, 1)) {
		Session se(cfg, 4000, ct);
		se.a->set_gc_period(se.s, gcp);
		bool oom = false;
		for (size_t k = 0; k < srcs.size() && !oom; k++) {
			Result r = se.run(srcs[k]);
			c.evals++;
			if (small && r.cerr.find("Out of memory") != std::string::npos) { c.label("small compile-time heap exhausted"); oom = true; break; }
			std::string got = r.outcome();
			if (r.exec > 0) se.a->soft_reset(se.s);
			if (got != wants[k]) c.fail(strf("configuration %s, source %zu\nexpected:\n%s\ngot:\n%s\n%s%s", cfg, k + 1, wants[k].c_str(), got.c_str(), r.cerr.c_str(), r.verr.c_str()));
			if (se.a->ct_stack_len(se.s) != 0) c.fail(strf("configuration %s, source %zu: %zu values left on the compile-time stack", cfg, k + 1, se.a->ct_stack_len(se.s)));
		}
	}
}
static Register r_l10({"L10",
	"one to four sources in one session whose statements define, assign and use variables, functions, counters and globals at compile time in nested scopes and feed compile-time values to run-time forms (operands, conditions, bodies, loops, macro expansions, globals); two reference interpreters give the compile-time trace followed by the run-time trace and value with every compile-time value replaced by its datum. Non-trivial: at least two compile-time evaluations, at least one of which uses an earlier compile-time definition.",
	ct_run, 7000, 80000, {"default", "noopt", "portable", "inference"},
	"Compile-time results are booleans, 32-bit integers, floats, symbols, strings and proper lists (vectors are a known finding). Forms whose order of compilation is not documented (several effectful compile-time forms among sibling arguments, unreachable branches of constant conditions) are not generated."});
