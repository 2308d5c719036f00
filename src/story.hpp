/* Histories of one session and what must be observed after each step. */
#pragma once
#include "common.hpp"

struct StoryStep {
	enum T { RUN, BAD, COMPILE, EXEC, GC, RESET, DUMP, POP } t = RUN;
	SxP prog;
	std::string src, want, show;
	bool keep = false, failed = false;
	int slot = -1;            /* COMPILE, EXEC */
	int from_top = 0;         /* DUMP */
	size_t depth = 0;         /* stack depth after the step */
};
/* A history of one session, with what must be observed after each step. */
struct Story {
	Case &c;
	Src &s;
	Interp in;
	std::vector<Var> gvars;
	std::vector<StoryStep> steps;
	std::vector<VP> kept;
	std::vector<SxP> compiled;     /* slots */
	int fresh = 0, failures = 0, runs = 0, crossings = 0;
	std::set<std::string> cells;   /* global getters and setters made so far */
	Story(Case &cc) : c(cc), s(cc.s) {}

	std::string eval(const SxP &p, bool *failed, VP *value = nullptr) {
		in.trace.clear();
		in.steps = 0;
		in.depth = 0;
		try {
			VP v = in.top(p);
			if (!printable(v)) c.discard("result not printable");
			*failed = false;
			if (value) *value = v;
			return in.trace + "=> " + dump(v);
		}
		catch (RefError &) { *failed = true; return in.trace + "runtime-error"; }
		catch (RefLimit &) { c.discard("too long"); }
		catch (RefUnspecified &u) { c.discard("unspecified: " + u.why); }
	}
	void push(StoryStep st) {
		if (st.t == StoryStep::RUN || st.t == StoryStep::EXEC) {
			VP v;
			st.want = eval(st.t == StoryStep::RUN ? st.prog : compiled[(size_t) st.slot], &st.failed, &v);
			runs++;
			if (st.failed) { failures++; kept.clear(); }
			else if (st.keep) kept.push_back(v);
		}
		if (st.t == StoryStep::RESET) kept.clear();
		if (st.t == StoryStep::POP && !kept.empty()) kept.pop_back();
		if (st.t == StoryStep::DUMP) { VP v = kept[kept.size() - 1 - (size_t) st.from_top]; if (!printable(v)) return; st.want = dump(v); }
		st.depth = kept.size();
		switch (st.t) {
		case StoryStep::RUN: st.src = render(st.prog); st.show = pretty(st.prog) + (st.keep ? "\n; the value is left on the stack" : ""); break;
		case StoryStep::BAD: st.show = "; must be rejected\n" + st.src; break;
		case StoryStep::COMPILE: st.src = render(st.prog); st.show = strf("; compiled only, as number %d\n", st.slot) + pretty(st.prog); break;
		case StoryStep::EXEC: st.show = strf("; execute number %d", st.slot) + (st.keep ? ", the value is left on the stack" : ""); break;
		case StoryStep::GC: st.show = "; collect garbage"; break;
		case StoryStep::RESET: st.show = "; reset the stack"; break;
		case StoryStep::POP: st.show = "; pop one value"; break;
		case StoryStep::DUMP: st.show = strf("; inspect stack value %d from the top", st.from_top); break;
		}
		steps.push_back(st);
	}
	/* ---- sources ---- */
	SxP gen_program(int errors, bool bare) {
		Profile p;
		p.globals = true; p.errors = errors; p.stmts = 4; p.depth = 3; p.emits = 14; p.gcs = 2; p.alias = 5;
		Gen g(s, p);
		g.gvars = gvars;
		g.fresh = fresh;
		g.budget = 50;
		SxP r;
		if (bare) { r = g.expr(std::vector<Ty>{T_INT, T_LIST, T_STR, T_FN, T_VEC, T_BOOL, T_ANY}[s.below(7)], 2, 2); }
		else r = g.program();
		gvars = g.gvars;
		fresh = g.fresh;
		return r;
	}
	SxP cell_use() {
		static const std::vector<std::string> K = {"k0", "k1", "k2", "k3"};
		std::string n = s.pick(K);
		switch (s.below(4)) {
		case 0: return L(I("funcall"), sx_id("get-" + n));
		case 1: return L(sx_id("get-" + n));
		case 2: return L(sx_id("set-" + n), s.chance(50) ? N(s.range(0, 99)) : L(I("list"), N(s.range(0, 9)), sx_str("u")));
		default: return L(I("funcall"), sx_id("set-" + n), L(I("list"), L(I("funcall"), sx_id("get-" + n))));
		}
	}
	int lv = 0;
	/* nested levels; a fault (or not) at the bottom */
	SxP nest(int depth, const std::vector<std::string> &scope, const SxP &bottom) {
		std::vector<SxP> b;
		std::vector<std::string> in_scope = scope;
		int n = s.range(0, 2);
		for (int i = 0; i < n; i++) {
			std::string v = strf("x%d", lv++);
			b.push_back(L(I("var"), sx_id(v), s.chance(60) ? N(s.range(0, 50)) : L(I("list"), N(s.range(0, 9)), sx_str("q"))));
			in_scope.push_back(v);
		}
		int m = s.range(0, 2);
		for (int i = 0; i < m; i++) switch (s.below(5)) {
			case 0: b.push_back(L(I("emit"), in_scope.empty() ? N(s.range(0, 99)) : sx_id(s.pick(in_scope)))); break;
			case 1: case 2:
				if (!in_scope.empty()) {
					std::string k = strf("k%d", s.below(4)), v = s.pick(in_scope);
					b.push_back(L(I("global"), sx_id("get-" + k), L(I("lambda"), L(), sx_id(v))));
					b.push_back(L(I("global"), sx_id("set-" + k), L(I("lambda"), L(I("nv")), L(I("setq"), sx_id(v), I("nv")))));
					c.label("closures over locals left in globals");
				}
				break;
			case 3: b.push_back(L(I("global"), sx_id(strf("plain%d", s.below(3))), N(s.range(0, 999)))); break;
			default: if (!in_scope.empty()) b.push_back(L(I("setq"), sx_id(s.pick(in_scope)), N(s.range(100, 999)))); else b.push_back(cell_use());
		}
		SxP inner = depth > 0 ? nest(depth - 1, in_scope, bottom) : bottom;
		if (s.chance(30)) inner = s.chance(50) ? L(I("list"), N(1), inner, N(s.range(600, 699))) : L(I("second"), sx_str("p"), inner);
		else if (s.chance(15)) inner = L(I("+"), N(1), L(I("length"), L(I("list"), inner)));
		if (s.chance(20)) { std::string v = strf("x%d", lv++); b.push_back(L(I("var"), sx_id(v), inner)); inner = sx_id(v); }
		b.push_back(inner);
		if (s.chance(50)) b.push_back(L(I("emit"), N(s.range(700, 799))));
		auto lam = [&](std::vector<SxP> params) { std::vector<SxP> k = {I("lambda"), sx_list(params)}; k.insert(k.end(), b.begin(), b.end()); return sx_list(k); };
		switch (s.below(10)) {
		case 0: { std::vector<SxP> k = {L()}; k.insert(k.end(), b.begin(), b.end()); return sx_list(k); }
		case 1: return L(I("funcall"), lam({}));
		case 2: return L(I("funcall"), lam({I("a")}), N(s.range(0, 9)));
		case 3: return L(I("apply"), lam({I("a"), I("&rest"), I("b")}), N(1), L(I("list"), N(2), N(3)));
		case 4: c.label("fault under a host callback"); return L(I("ccall1"), lam({I("a")}), N(s.range(0, 9)));
		case 5: c.label("fault under a host callback"); return L(I("ccall0"), lam({}));
		case 6: { std::vector<SxP> k = {I("if"), L(I("<"), N(1), N(2))}; std::vector<SxP> w = {L()}; w.insert(w.end(), b.begin(), b.end()); k.push_back(sx_list(w)); k.push_back(N(0)); return sx_list(k); }
		case 7: { std::string f = strf("fn%d", lv++); std::vector<SxP> d = {I("defun"), sx_id(f), L(I("a"))}; d.insert(d.end(), b.begin(), b.end()); return L(L(), sx_list(d), L(sx_id(f), N(s.range(0, 9)))); }
		case 8: {
			/* in the n-th iteration of a loop */
			std::string i = strf("i%d", lv++);
			std::vector<SxP> w = {I("while"), L(I("<"), sx_id(i), N(s.range(1, 3)))};
			w.push_back(L(I("setq"), sx_id(i), L(I("+"), sx_id(i), N(1))));
			w.insert(w.end(), b.begin(), b.end());
			return L(L(), L(I("var"), sx_id(i), N(0)), sx_list(w), sx_id(i));
		}
		default: return L(I("funcall"), L(I("make-instance"), L(I("make-type")), N(0), lam({I("a")})), N(4));
		}
	}
	SxP bottom(bool fault) {
		if (!fault) return s.chance(50) ? N(s.range(0, 99)) : cell_use();
		if (s.chance(28)) {
			/* a failing host callback, reached in every way */
			c.label("failing host callback");
			std::string f = strf("bf%d", lv++);
			switch (s.below(9)) {
			case 0: case 1: return L(I("boom"));
			case 2: return L(I("funcall"), I("boom"));
			case 3: return L(I("apply"), I("boom"), L());
			case 4: return L(L(), L(I("var"), sx_id(f), I("boom")), L(I("funcall"), sx_id(f)));
			case 5: return L(I("funcall"), L(I("car"), L(I("list"), I("boom"), N(1))));
			case 6: return L(I("ccall0"), I("boom"));
			case 7: return L(L(), L(I("var"), sx_id(f), I("boom")), L(I("funcall"), L(I("lambda"), L(I("a")), L(I("list"), N(1), L(I("funcall"), I("a")))), sx_id(f)));
			default: return L(I("apply"), L(I("lambda"), L(I("&rest"), I("r")), L(I("apply"), L(I("car"), I("r")), L(I("cdr"), I("r")))), L(I("list"), I("boom")));
			}
		}
		if (s.chance(10)) return L(I("emit"), L(I("boom")));
		Profile p;
		Gen g(s, p);
		return g.fault(1);
	}
	std::string bad_source() {
		static const std::vector<std::string> B = {"(() (emit 1) (car))", "(() (emit 1) (if 1 2))", "(() (global plain0 666) (emit 2) (+ 1))", "(() (var zz 5) (defun plain1 (a) 1) (lambda))", "(emit 1", "(() (global get-k0 5) \"abc)", "(() (setq 5 1))", "(() (emit 3) (defun ff (5) 1))", "(() (defmacro mm (a) a) (emit 1) (mm 1 2))", ")", "(() (lambda (x) (emit x) (while)))", "(() (global plain0 5) (quote))"};
		return s.pick(B);
	}
	/* ---- running ---- */
	void run(const char *cfg, long gc_period) {
		Session se(cfg, 6000);
		se.a->set_gc_period(se.s, gc_period);
		std::map<int, std::vector<unsigned char>> slots;
		size_t base = se.a->stack_len(se.s);
		int k = 0;
		for (auto &st : steps) {
			k++;
			auto where = [&]() { return strf("configuration %s%s, step %d:\n", cfg, gc_period ? strf(", collecting on every %ld. callback", gc_period).c_str() : "", k) + st.show + "\n"; };
			se.a->set_budget(se.s, 200000);
			switch (st.t) {
			case StoryStep::RUN: {
				Result r = se.run(st.src, false, st.keep);
				c.evals++;
				if (r.outcome() != st.want) c.fail(where() + "expected:\n" + st.want + "\ngot:\n" + r.outcome() + "\n" + r.cerr + r.verr);
				if (st.failed) se.a->soft_reset(se.s);
				break;
			}
			case StoryStep::BAD: {
				Result r = se.run(st.src);
				c.evals++;
				if (r.outcome() != "compile-error") c.fail(where() + "expected: compile-error\ngot:\n" + r.outcome() + "\n");
				break;
			}
			case StoryStep::COMPILE: {
				std::string err;
				if (se.compile(st.src, &slots[st.slot], false, &err)) c.fail(where() + "rejected\n" + err);
				std::string t = se.trace();
				if (!t.empty()) c.fail(where() + "compiling had effects\n" + t);
				c.evals++;
				break;
			}
			case StoryStep::EXEC: {
				Result r;
				r.before = se.a->stack_len(se.s);
				r.exec = se.exec(slots[st.slot]);
				r.verr = se.errors(1);
				r.trace = se.trace();
				r.after = se.a->stack_len(se.s);
				if (r.exec == 0) {
					r.value = r.after > r.before ? se.top() : "<nothing>";
					if (!st.keep && r.after > r.before) se.a->pop(se.s, r.after - r.before);
				}
				c.evals++;
				if (r.outcome() != st.want) c.fail(where() + "expected:\n" + st.want + "\ngot:\n" + r.outcome() + "\n" + r.verr);
				if (st.failed) se.a->soft_reset(se.s);
				break;
			}
			case StoryStep::GC: if (se.a->gc(se.s)) c.fail(where() + "collection failed\n"); break;
			case StoryStep::RESET: if (se.a->soft_reset(se.s)) c.fail(where() + "reset failed\n"); base = 0; break;
			case StoryStep::POP: if (se.a->stack_len(se.s) > base) se.a->pop(se.s, 1); break;
			case StoryStep::DUMP: { std::string g = se.top((size_t) st.from_top); if (g != st.want) c.fail(where() + "expected: " + st.want + "\ngot: " + g + "\n"); break; }
			}
			if (se.a->stack_len(se.s) != st.depth) c.fail(where() + strf("the stack holds %zu values instead of %zu\n", se.a->stack_len(se.s), st.depth));
		}
	}
	std::string text() { std::string r; for (auto &st : steps) r += st.show + "\n----\n"; return r; }
};
