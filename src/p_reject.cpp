/* T04: malformed forms are rejected; T02: no source text crashes or wedges the compiler. */
#include "common.hpp"
#include "layout.hpp"

namespace {
struct Arity { const char *kw; int min, max; bool body; };
/* operands by the manual; body: only meaningful as a statement */
const Arity ARITY[] = {
	{"quote", 1, 1, false}, {"var", 2, 2, true}, {"global", 2, 2, false}, {"setq", 2, 2, false}, {"not", 1, 1, false},
	{"+", 2, 2, false}, {"*", 2, 2, false}, {"/", 2, 2, false}, {"-", 2, 2, false}, {"=", 2, 2, false}, {"<", 2, 2, false}, {">", 2, 2, false},
	{"while", 2, 99, false}, {"if", 3, 3, false}, {"when", 2, 99, false}, {"unless", 2, 99, false},
	{"defun", 3, 99, true}, {"lambda", 2, 99, false}, {"defmacro", 3, 99, false},
	{"cons", 2, 2, false}, {"car", 1, 1, false}, {"cdr", 1, 1, false}, {"set-car", 2, 2, false}, {"set-cdr", 2, 2, false}, {"null?", 1, 1, false},
	{"type-of", 1, 1, false}, {"make-type", 0, 0, false}, {"make-instance", 3, 3, false}, {"composite-value", 1, 1, false}, {"composite-function", 1, 1, false},
	{"set-composite-value", 2, 2, false}, {"set-composite-function", 2, 2, false},
	{"make-string", 1, 1, false}, {"concatenate", 2, 2, false}, {"substring", 3, 3, false}, {"length", 1, 1, false},
	{"symbol-string", 1, 1, false}, {"symbol-id", 1, 1, false},
	{"make-vector", 2, 2, false}, {"get-vector-element", 2, 2, false}, {"set-vector-element", 3, 3, false},
	{"apply", 2, 99, false}, {"funcall", 1, 99, false},
};
struct Bad {
	SxP x;
	bool body = false;      /* only a statement position */
	std::string kind;
};
struct Planter {
	Case &c;
	Src &s;
	Gen g;
	std::vector<std::string> vars;  /* variables in scope */
	std::vector<std::string> names; /* every name the program declares */
	int fresh = 0;
	Planter(Case &cc, Profile p) : c(cc), s(cc.s), g(cc.s, p) {}
	SxP kw(const char *n) { return sx_id((s.chance(15) ? "__" : "") + std::string(n)); }
	SxP operand() {
		switch (s.below(7)) {
		case 0: return N(s.range(-3, 300));
		case 1: return sx_str("s");
		case 2: return L();
		case 3: return sx_bool(true);
		case 4: if (!vars.empty()) return sx_id(s.pick(vars)); return N(1);
		case 5: return L(I("id"), N(s.range(0, 9)));
		default: return L(I("quote"), rand_datum(s, 1));
		}
	}
	/* something that is not a name */
	SxP not_a_name() {
		switch (s.below(7)) {
		case 0: return N(s.range(-5, 500));
		case 1: return sx_str("name");
		case 2: return L(I("name"));
		case 3: return sx_bool(s.chance(50));
		case 4: return sx_float(1.5, "1.5");
		case 5: return L();
		default: return L(I("id"), N(1));
		}
	}
	/* a parameter list that is not one */
	SxP bad_params(bool macro) {
		std::vector<SxP> ps;
		int n = s.range(0, 3);
		for (int i = 0; i < n; i++) ps.push_back(sx_id(strf("p%d", i)));
		switch (s.below(macro ? 4 : 5)) {
		case 0: ps.insert(ps.begin() + s.range(0, n), N(s.range(0, 9))); break;
		case 1: ps.insert(ps.begin() + s.range(0, n), sx_str("p")); break;
		case 2: ps.push_back(I("&rest")); break;
		case 3: {
			ps.push_back(I("&rest"));
			int m = s.range(2, 3);
			for (int i = 0; i < m; i++) ps.push_back(sx_id(strf("r%d", i)));
			break;
		}
		default: ps.insert(ps.begin() + s.range(0, n), std::vector<SxP>{L(I("q")), sx_bool(true), sx_float(1.5, "1.5")}[s.below(3)]);
		}
		return sx_list(ps);
	}
	Bad bad() {
		Bad b;
		switch (s.weighted({50, 20, 15, 15})) {
		case 0: {
			const Arity &a = ARITY[s.below(sizeof ARITY / sizeof *ARITY)];
			int n;
			bool low = a.min > 0 && (a.max >= 99 || s.chance(50));
			if (low) n = s.range(0, a.min - 1);
			else n = a.max + s.range(1, s.chance(10) ? 300 : 3);
			if (!strcmp(a.kw, "-") && n == 1) n = 0;
			std::vector<SxP> k = {kw(a.kw)};
			bool names_first = !strcmp(a.kw, "var") || !strcmp(a.kw, "global") || !strcmp(a.kw, "setq") || !strcmp(a.kw, "defun") || !strcmp(a.kw, "defmacro");
			bool lambda = !strcmp(a.kw, "lambda"), def = !strcmp(a.kw, "defun") || !strcmp(a.kw, "defmacro");
			for (int i = 0; i < n; i++) {
				if (i == 0 && names_first) { k.push_back(sx_id(!strcmp(a.kw, "setq") && !vars.empty() ? s.pick(vars) : strf("nw%d", fresh++))); continue; }
				if ((i == 1 && def) || (i == 0 && lambda)) { k.push_back(L(I("p"))); continue; }
				k.push_back(operand());
			}
			b.x = sx_list(k);
			b.body = a.body;
			b.kind = strf("%s with %s operands", a.kw, low ? "too few" : "too many");
			return b;
		}
		case 1: {
			int form = s.below(5);
			static const char *F[] = {"var", "setq", "global", "defun", "defmacro"};
			if (form < 3) b.x = L(kw(F[form]), not_a_name(), operand());
			else b.x = L(kw(F[form]), not_a_name(), L(I("p")), operand());
			b.body = form == 0 || form == 3;
			b.kind = strf("%s with a name that is not one", F[form]);
			return b;
		}
		case 2: {
			int form = s.below(3);
			static const char *F[] = {"lambda", "defun", "defmacro"};
			SxP ps = s.chance(75) ? bad_params(form == 2) : std::vector<SxP>{N(5), sx_str("x"), I("x"), sx_bool(true), sx_float(1.5, "1.5")}[s.below(form == 2 ? 1 : 5)];
			if (form == 0) b.x = L(kw("lambda"), ps, operand());
			else b.x = L(kw(F[form]), sx_id(strf("nw%d", fresh++)), ps, operand());
			b.body = form == 1;
			b.kind = strf("%s with a bad parameter list", F[form]);
			return b;
		}
		default: {
			/* mac2 takes two operands, macv one or more */
			int n;
			bool v = s.chance(40);
			if (v) n = 0;
			else do n = s.range(0, 5); while (n == 2);
			std::vector<SxP> k = {I(v ? "macv" : "mac2")};
			for (int i = 0; i < n; i++) k.push_back(operand());
			b.x = sx_list(k);
			b.kind = "macro with the wrong number of operands";
			return b;
		}
		}
	}
	SxP cond() { return L(I("<"), sx_id(vars.empty() ? "v0" : s.pick(vars)), N(s.range(-2, 9))); }
	/* an expression that contains x as an expression, or (stmt) a statement that contains x as a statement; `hole`
	   tells which kind of place x needs */
	SxP wrap_one(const SxP &x, bool need_body, bool &is_stmt) {
		std::vector<SxP> pre, post;
		if (s.chance(40)) pre.push_back(L(I("emit"), N(s.range(100, 199))));
		if (s.chance(40)) post.push_back(L(I("emit"), N(s.range(200, 299))));
		auto body = [&](std::vector<SxP> head) {
			for (auto &p : pre) head.push_back(p);
			head.push_back(x);
			for (auto &p : post) head.push_back(p);
			return sx_list(head);
		};
		is_stmt = false;
		int n = need_body ? s.below(8) : s.below(20);
		switch (n) {
		case 0: return body({L()});
		case 1: return L(kw("funcall"), body({kw("lambda"), L()}));
		case 2: return body({kw("when"), cond()});
		case 3: return body({kw("unless"), cond()});
		case 4: { is_stmt = true; std::string f = strf("fn%d", fresh++); names.push_back(f); return body({kw("defun"), sx_id(f), L(I("q"))}); }
		case 5: return body({kw("lambda"), L(I("a"), I("&rest"), I("b"))});
		case 6: return body({kw("while"), L(I("<"), N(2), N(1))});
		case 7: return L(kw("if"), cond(), body({L()}), N(1));
		case 8: return L(I("id"), x);
		case 9: return L(I("second"), N(1), x);
		case 10: return L(kw("if"), cond(), x, N(1));
		case 11: return L(kw("if"), cond(), N(1), x);
		case 12: return L(kw("if"), x, N(1), N(2));
		case 13: { is_stmt = true; std::string v = strf("vv%d", fresh++); names.push_back(v); return L(kw("var"), sx_id(v), x); }
		case 14: if (!vars.empty()) return L(kw("setq"), sx_id(s.pick(vars)), x); return L(I("id"), x);
		case 15: return L(I("macv"), x);
		case 16: return L(kw("list"), N(1), x, sx_str("t"));
		case 17: return L(kw("+"), N(1), x);
		case 18: return L(kw("cons"), x, L());
		default: return L(kw("car"), L(kw("list"), x));
		}
	}
	void collect(const SxP &x) {
		if (x->t != Sx::LIST) return;
		if (x->k.size() >= 3 && x->k[0]->t == Sx::ID && x->k[1]->t == Sx::ID) {
			std::string o = x->k[0]->s;
			if (o.compare(0, 2, "__") == 0) o = o.substr(2);
			if (o == "var" || o == "defun" || o == "defmacro") names.push_back(x->k[1]->s);
		}
		for (auto &k : x->k) collect(k);
	}
};
SxP macros2() { return L(I("defmacro"), I("mac2"), L(I("a"), I("b")), L(I("list"), L(I("quote"), I("list")), I("a"), I("b"))); }
SxP macrosv() { return L(I("defmacro"), I("macv"), L(I("a"), I("&rest"), I("b")), L(I("cons"), L(I("quote"), I("list")), L(I("cons"), I("a"), I("b")))); }
}

static void malformed_run(Case &c) {
	Src &s = c.s;
	Profile p;
	p.globals = false; p.alias = 5; p.emits = 20; p.stmts = 3; p.depth = 3;
	Planter pl(c, p);
	pl.g.budget = 60;
	bool reader = s.chance(20);
	std::vector<SxP> st = {macros2(), macrosv()};
	int nv = s.range(1, 3);
	for (int i = 0; i < nv; i++) { std::string v = strf("v%d", i); st.push_back(L(I("var"), sx_id(v), N(s.range(0, 5)))); pl.vars.push_back(v); }
	int n = s.range(0, 3), m = s.range(0, 3);
	for (int i = 0; i < n; i++) pl.g.stmt(st, 2);
	std::vector<SxP> good = st;
	std::string bad_src, kind;
	SxP bad_prog, good_prog, quoted;
	int depth = 0;
	{
		Bad b = pl.bad();
		int levels = s.weighted({2, 3, 3, 2, 1, 1});
		depth = levels;
		SxP x = b.x, y = N(7);
		quoted = L(I("emit"), L(I("quote"), b.x));
		bool need = b.body;
		/* the same wrappers around the malformed form and around a number */
		for (int i = 0; i < levels; i++) {
			bool is_stmt = false;
			SxP mark = sx_id("@hole@");
			SxP w = pl.wrap_one(mark, need, is_stmt);
			std::function<SxP(const SxP &, const SxP &)> sub = [&](const SxP &t, const SxP &v) -> SxP {
				if (t->t == Sx::ID && t->s == "@hole@") return v;
				if (t->t != Sx::LIST) return t;
				std::vector<SxP> k;
				for (auto &e : t->k) k.push_back(sub(e, v));
				return sx_list(k);
			};
			x = sub(w, x);
			y = sub(w, y);
			need = is_stmt;
		}
		if (!need && s.chance(30)) { x = L(I("emit"), x); y = L(I("emit"), y); }
		st.push_back(x);
		good.push_back(y);
		kind = b.kind;
	}
	std::vector<SxP> tail;
	for (int i = 0; i < m; i++) pl.g.stmt(tail, 2);
	tail.push_back(N(s.range(0, 99)));
	st.insert(st.end(), tail.begin(), tail.end());
	good.insert(good.end(), tail.begin(), tail.end());
	good_prog = wrap(good);
	bad_prog = wrap(st);
	Interp in;
	std::string want = reference(c, in, good_prog);
	/* a form is not malformed when it is data */
	Interp inq;
	std::string wantq = reference(c, inq, wrap({quoted, N(1)}));
	if (!reader) { Layout l(s, s.chance(20) ? 1 : 0); bad_src = l.source(bad_prog); }
	else {
		std::vector<std::string> t;
		tokenize(good_prog, t);
		switch (s.below(4)) {
		case 0: { int k = s.range(1, 3); t.resize(t.size() > (size_t) k ? t.size() - (size_t) k : 1); kind = "parentheses not closed"; while (t.size() > 1 && t.back() != "(" && t.back() != ")") t.pop_back(); break; }
		case 1: {
			/* one opening parenthesis too many somewhere */
			t.insert(t.begin() + (long) s.below((uint32_t) t.size()), "(");
			kind = "parentheses not closed";
			break;
		}
		case 2: {
			/* a string that never ends, in place of some token of the second half */
			size_t k = s.below((uint32_t) t.size());
			t.resize(k);
			t.push_back("\"" + std::string(s.chance(50) ? "abc" : "") + (s.chance(30) ? "\\\"" : "") + (s.chance(30) ? " ) ; x" : ""));
			kind = "string not terminated";
			break;
		}
		default: {
			size_t k = s.below((uint32_t) t.size());
			t.resize(k + 1);
			while (t.size() > 1 && t.back()[0] == '"') t.pop_back();
			int open = 0;
			for (auto &x : t) { if (x == "(") open++; if (x == ")") open--; }
			if (open <= 0) t.resize(1);
			kind = "source truncated";
		}
		}
		/* a form may be marked as literal; without inference that changes nothing */
		if (s.chance(30)) for (size_t i = 0; i < t.size(); i++) if (t[i] == "(" && s.chance(i ? 20 : 60)) t[i] = "#(";
		Layout l(s, s.chance(40) ? 1 : 0);
		bad_src = l.tokens(t);
		if (kind == "string not terminated") while (!bad_src.empty() && bad_src.back() != t.back().back()) bad_src.pop_back();
	}
	/* what the session must have forgotten */
	pl.collect(bad_prog);
	std::vector<std::string> probes;
	for (int i = 0; i < 2 && !pl.names.empty(); i++) {
		std::string nm = s.pick(pl.names);
		probes.push_back(s.chance(50) ? "(emit " + nm + ")" : "(" + nm + " 1 2)");
	}
	c.text = "; " + kind + "\n" + (reader ? bad_src : pretty(bad_prog)) + "\n---- then ----\n" + pretty(good_prog);
	for (auto &x : probes) c.text += "\n---- then ----\n" + x;
	c.label(kind);
	c.label(strf("depth %d", depth));
	c.nontrivial = reader ? bad_src.size() > 60 : depth >= 1;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Session se(cfg);
		int times = s.range(1, 3);
		for (int i = 0; i < times; i++) {
			Result r = se.run(bad_src);
			c.evals++;
			if (!r.compile) c.fail(strf("configuration %s: malformed program (%s) was accepted\n", cfg, kind.c_str()) + r.outcome());
			if (!r.trace.empty()) c.fail(strf("configuration %s: part of the rejected program ran\n", cfg) + r.trace);
			if (r.cerr.empty()) c.fail(strf("configuration %s: rejected without a message (%s)\n", cfg, kind.c_str()));
		}
		for (auto &x : probes) {
			/* a name only the rejected source knew is an unknown global here */
			Result r = se.run(x);
			if (r.outcome() != "runtime-error") c.fail(strf("configuration %s: %s after the rejected program\nexpected: runtime-error\ngot: %s\n%s", cfg, x.c_str(), r.outcome().c_str(), r.cerr.c_str()));
			se.a->soft_reset(se.s);
		}
		Result q = se.run(render(wrap({quoted, N(1)})));
		if (q.outcome() != wantq) c.fail(strf("configuration %s: the form as quoted data\nexpected:\n%s\ngot:\n%s\n%s", cfg, wantq.c_str(), q.outcome().c_str(), q.cerr.c_str()));
		Result r = se.run(render(good_prog));
		c.evals += 2;
		if (r.outcome() != want) c.fail(strf("configuration %s: the corrected program after the rejected one\nexpected:\n%s\ngot:\n%s\n%s%s", cfg, want.c_str(), r.outcome().c_str(), r.cerr.c_str(), r.verr.c_str()));
	}
}
static Register r_t04({"T04",
	"a generated program with one malformed form (wrong number of operands for any keyword or alias, something else in place of a name, a bad parameter list, a macro with the wrong number of operands) under up to five enclosing forms, or with unbalanced or unterminated tokens; the load must fail with a message and without effects, one to three times in the same session, after which the names it declared are unknown, the malformed form is valid quoted data, and the corrected program behaves as the reference says. Non-trivial: the form stands inside at least one other form, or the damaged source is longer than 60 bytes.",
	malformed_run, 7000, 90000, {"default", "noopt", "portable", "inference"},
	"`var` and `defun` are checked only as statements, where they have a meaning; conditions around the malformed form are not constants."});

/* ---- T02 ---------------------------------------------------------------------------------------------------------- */
#include "hostile.hpp"
static void crash_run(Case &c) {
	Src &s = c.s;
	bool infer = s.chance(25);
	int n = s.weighted({60, 20, 10, 10}) + 1;
	std::vector<Hostile> hs;
	for (int i = 0; i < n; i++) hs.push_back(hostile(s, infer, c.thorough));
	Profile p;
	p.globals = true; p.alias = 10;
	Gen g(s, p);
	g.budget = 60;
	SxP good = g.program();
	Interp in;
	std::string want = reference(c, in, good);
	size_t bytes = 0;
	for (auto &h : hs) { c.text += h.text + "\n---- then ----\n"; bytes += h.text.size(); c.label(h.kind); }
	c.text += render(good);
	c.nontrivial = bytes >= 20;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		bool inf = infer;
		if (inf) cfg = "inference";
		Session se(cfg, 4000, 2000, true, 48u << 20);
		if (inf) c.label("with inference");
		bool macros = false;
		for (auto &h : hs) {
			std::vector<unsigned char> bc;
			std::string err;
			se.a->set_budget(se.s, 20000);
			int e = se.compile(h.text, &bc, inf, &err);
			c.evals++;
			c.label(e ? "rejected" : "accepted");
			if (e == 6 /* out of memory */) c.discard("out of memory");
			if (e && err.empty() && !h.ct && !inf) c.fail(strf("configuration %s: rejected without a message (error %d)\n", cfg, e) + h.text);
			if (h.defmacro && (!e || inf)) macros = true;
			se.trace();
		}
		if (macros) c.label("macros may be left behind");
		se.a->set_budget(se.s, 200000);
		Result r = se.run(render(good));
		c.evals++;
		if (!macros && r.outcome() != want) c.fail(strf("configuration %s: a program after the hostile sources\nexpected:\n%s\ngot:\n%s\n%s%s", cfg, want.c_str(), r.outcome().c_str(), r.cerr.c_str(), r.verr.c_str()));
	}
}
static Register r_t02({"T02",
	"one to four hostile sources loaded into one session (random bytes, token soup, generated programs damaged by tokens, subtrees or bytes, nestings and sequences up to and beyond the documented depth limits; a quarter with parenthesis inference), each allowed to be rejected with a message or accepted but not executed, under AddressSanitizer and UBSan and 30 s of processor time; then a generated program must behave as the reference says. Non-trivial: at least 20 bytes of hostile source.",
	crash_run, 5000, 60000, {"default", "noopt", "portable", "inference"},
	"Sources whose compile-time code would legitimately not terminate are avoided by leaving loops and recursion out of compile-time code; a message is not required when compile-time code may have failed; the final program is only run, not compared, when a hostile source may have defined macros."});
