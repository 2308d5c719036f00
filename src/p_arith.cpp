/* Operators give the same result wherever their operands live. */
#include "common.hpp"

namespace {
struct Arith {
	Src &s;
	Inc &p;
	int serial = 0;
	std::set<int> places;
	Arith(Src &src, Inc &i) : s(src), p(i) {}
	SxP num() {
		switch (s.weighted({40, 14, 12, 12, 6, 16, 9, 5})) {
		case 6: return sx_bool(s.chance(60));
		case 7: {
			/* next to the integers that booleans and others compare as */
			static const std::vector<const char *> F = {"0.5", "-0.5", "0.0", "1.0", "1.5", "-1.0", "0.25", "0.75", "1.25", "-1.5", "2.0", "127.5", "255.5", "-128.5", "65535.5", "65536.5"};
			const char *f = s.pick(F);
			return sx_float(strtod(f, nullptr), f);
		}
		case 0: return N(s.range(-9, 20));
		case 1: return N(std::vector<int>{126, 127, 128, 129, 254, 255, 256, 257, -127, -128, -129, -255, -256}[s.below(13)]);
		case 2: return N(std::vector<int>{32766, 32767, 32768, 32769, 65535, 65536, 65537, -32767, -32768, -32769, -65535, -65536}[s.below(12)]);
		case 3: return N(std::vector<int>{8388607, 8388608, 16777215, 16777216, 2147483646, 2147483647, -2147483647, -16777217, 1000000007}[s.below(9)]);
		case 4: return N((int) s.below(2000001) - 1000000);
		default: return lit_float(s);
		}
	}
	SxP other() {
		switch (s.below(9)) {
		case 0: return sx_bool(true);
		case 1: return sx_bool(false);
		case 2: return sx_list({});
		case 3: return sx_str(rand_string(s, 5));
		case 4: return L(I("quote"), I(s.chance(50) ? "a" : "b"));
		case 5: return L(I("list"), N(1));
		case 6: return L(I("vector"), N(1));
		case 7: return L(I("make-type"));
		default: return L(I("type-of"), N(1));
		}
	}
	std::string name() { return strf("%s%d", s.chance(50) ? "n" : "operand-", serial++); }
	void pad() {
		if (!s.chance(12)) return;
		int n = s.chance(30) ? s.range(90, 140) : s.range(1, 12);
		for (int i = 0; i < n; i++) p.add(L(I("var"), sx_id(strf("p%d", serial++)), N(i)));
	}
	/* a form that yields the value of `v`, which lives in the chosen place */
	SxP place(SxP v, std::vector<SxP> &params, std::vector<SxP> &args) {
		int k = s.weighted({20, 16, 14, 14, 8, 8, 8, 6, 6});
		bool pure = v->t != Sx::LIST || v->k.empty() || v->k[0]->s == "quote";
		if (k == 5 && !pure) k = 1;
		places.insert(k);
		switch (k) {
		case 0: return v;
		case 1: { std::string n = name(); p.add(L(I("var"), sx_id(n), v)); pad(); return sx_id(n); }
		case 2: { std::string n = "*" + name() + "*"; p.add(L(I("global"), sx_id(n), v)); return sx_id(n); }
		case 3: { std::string n = name(); params.push_back(sx_id(n)); args.push_back(v); return sx_id(n); }
		case 4: return s.chance(50) ? L(I("id"), v) : L(I("funcall"), L(I("lambda"), L(I("x")), I("x")), v);
		case 5: return L(I("comptime"), s.chance(30) && v->t == Sx::INT ? L(I("+"), v, N(0)) : v);
		case 6: {
			std::string n = name();
			p.add(L(I("var"), sx_id(n), s.chance(50) ? other() : num()));
			p.add(L(I("setq"), sx_id(n), v));
			return sx_id(n);
		}
		case 7: return s.chance(50) ? L(I("car"), L(I("list"), v, N(7))) : L(I("get-vector-element"), L(I("vector"), N(7), v), N(1));
		default: return s.chance(50) ? L(I("if"), sx_bool(true), v, N(3)) : L(sx_list({}), L(I("var"), I("t"), v), I("t"));
		}
	}
};
}
static void arith_run(Case &c) {
	Src &s = c.s;
	Inc p;
	Arith g(s, p);
	static const std::vector<const char *> OPS = {"+", "-", "*", "/", "<", ">", "="};
	int n = s.range(1, c.thorough ? 12 : 7), done = 0;
	bool err = false;
	for (int i = 0; i < n && !p.dead; i++) {
		const char *op = OPS[s.below(7)];
		bool bad = s.chance(8) || (!strcmp(op, "=") && s.chance(30));
		SxP a = bad && s.chance(60) ? g.other() : g.num(), b = bad && s.chance(60) ? g.other() : g.num();
		if (!strcmp(op, "/") && s.chance(5)) b = N(0);
		else if (a->t == Sx::BOOL && b->t == Sx::BOOL && strcmp(op, "=")) b = s.chance(50) ? N(s.range(-2, 3)) : lit_float(s);
		else if (s.chance(10)) b = a;
		if (!bad && s.chance(9)) {
			/* integers that differ in high bits only, or hardly */
			c.label("far integers");
			int k = s.pick(std::vector<int>{8, 16, 24, 31, 32, 32, 32, 33, 40, 48, 56, 60}), h = std::min(k, 30), d = s.range(-1, 1);
			SxP x = N(s.range(-300, 300));
			SxP far = L(I("*"), N(1 << h), N(1 << std::min(k - h, 30)));
			if (s.chance(30)) far = L(I("*"), N(-1), far);
			far = L(I("+"), far, x);
			if (d && s.chance(50)) far = L(I("+"), far, N(d));
			a = x;
			b = s.chance(70) ? far : L(I("+"), far, L(I("*"), N(65536), N(65536)));
			if (s.chance(25)) a = L(I("+"), far, N(s.range(-1, 1)));
			if (s.chance(50)) std::swap(a, b);
			if (s.chance(60)) op = s.pick(std::vector<const char *>{"=", "<", ">"});
			if (!strcmp(op, "/") && s.chance(50)) op = "-";
		}
		std::vector<SxP> ps, as;
		SxP fa = g.place(a, ps, as), fb = s.chance(5) && fa->t == Sx::ID ? fa : g.place(b, ps, as);
		SxP e;
		switch (s.weighted({80, 8, 6, 6})) {
		case 0: e = L(sx_id((s.chance(10) ? "__" : "") + std::string(op)), fa, fb); break;
		case 1: { std::vector<SxP> q, r; e = L(sx_id(op), L(sx_id(OPS[s.below(3)]), fa, fb), g.place(g.num(), ps, as)); break; }
		case 2: e = L(I("not"), L(sx_id(op), fa, fb)); break;
		default: e = L(sx_id(op), fa, L(sx_id(OPS[s.below(4)]), fb, fa)); break;
		}
		int depth = s.weighted({55, 30, 10, 5});
		if (s.chance(20)) e = L(sx_list({}), L(I("var"), I("result"), e), I("result"));
		/* the operator runs in a function that gets its parameters and captures the rest */
		for (int d = 0; d < depth; d++) e = L(I("funcall"), L(I("lambda"), L(), e));
		if (ps.size()) {
			std::vector<SxP> k = {I("funcall"), L(I("lambda"), sx_list(ps), e)};
			if (s.chance(40)) {
				std::string f = strf("f%d", g.serial++);
				p.add(L(I("defun"), sx_id(f), sx_list(ps), e));
				k = {sx_id(f)};
			}
			k.insert(k.end(), as.begin(), as.end());
			e = sx_list(k);
		}
		if (p.add(L(I("emit"), e), true)) done++;
		err |= p.dead;
		if (depth) c.label("operands captured by a function");
	}
	static const char *PN[] = {"literal", "local", "global", "parameter", "call result", "compile-time", "assigned variable", "element", "branch or block"};
	for (int k : g.places) c.label(PN[k]);
	if (err) c.label("run-time error");
	SxP prog = p.program();
	c.text = pretty(prog);
	c.nontrivial = done >= 1 && g.places.size() >= 2;
	std::string src = render(prog), want = p.want();
	auto cf = configs(c, 2);
	c.publish();
	for (auto cfg : cf) agree(c, cfg, src, want);
}
static Register r_arith({"L06",
	"Random operators (+ - * / < > = and nestings) over random operands (integers around every encoding boundary, floats, other kinds), each operand in one of "
	"nine places (literal, local, global, parameter, call result, compile-time constant, assigned variable, element, branch), evaluated directly or inside up to three "
	"functions that capture the operands, with other locals in between; against 128-bit integer and double arithmetic. Non-trivial: operands in at least two kinds of place.",
	arith_run, 9000, 140000, {"default", "noopt", "portable", "inference"}, "Integer results beyond 4e18, float division by zero and arithmetic on two booleans are left out."});
