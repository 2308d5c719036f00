/* Literals and quoted data; conditions. */
#include "common.hpp"
#include "layout.hpp"

/* an expression that builds the datum at run time out of atoms */
static SxP build(Src &s, const SxP &d) {
	if (d->t == Sx::ID) return L(I("quote"), d);
	if (d->t != Sx::LIST || d->k.empty()) return s.chance(30) ? L(I("quote"), d) : d;
	if (s.chance(20)) return L(I("quote"), d);
	if (s.chance(15)) {
		std::vector<SxP> rest(d->k.begin() + 1, d->k.end());
		return L(I("cons"), build(s, d->k[0]), build(s, sx_list(rest)));
	}
	std::vector<SxP> k = {I("list")};
	for (auto &x : d->k) k.push_back(build(s, x));
	return sx_list(k);
}
static int size_of(const SxP &x) { int n = 1; if (x->t == Sx::LIST) for (auto &y : x->k) n += size_of(y); return n; }

static void data_run(Case &c) {
	Src &s = c.s;
	std::vector<SxP> st;
	std::string want;
	Interp in;
	int nd = s.range(1, c.thorough ? 5 : 3), routes = 0, nodes = 0;
	bool macro = s.chance(60);
	if (macro) st.push_back(L(I("defmacro"), I("m-quote"), L(I("x")), L(I("list"), L(I("quote"), I("quote")), I("x"))));
	bool macro2 = s.chance(30);
	if (macro2) st.push_back(L(I("defmacro"), I("m-first"), L(I("x"), I("&rest"), I("more")), L(I("list"), L(I("quote"), I("quote")), I("x"))));
	Layout lay(s, s.weighted({20, 30, 50}));
	std::vector<SxP> data;
	std::string syms;
	for (int i = 0; i < nd; i++) {
		SxP d = data.size() && s.chance(15) ? data[s.below((uint32_t) data.size())] : quote_datum(s, 3);
		data.push_back(d);
		nodes += size_of(d);
		std::string shown = dump(in.quote(d));
		int nr = s.range(1, 3);
		for (int r = 0; r < nr; r++) {
			SxP e;
			switch (s.weighted({25, 15, macro ? 15 : 0, 15, 15, macro2 ? 8 : 0, 8, 8})) {
			case 0: e = L(I("quote"), d); break;
			case 1: e = L(I("comptime"), L(I("quote"), d)); c.label("comptime"); break;
			case 2: e = L(I("m-quote"), d); c.label("macro argument"); break;
			case 3: e = build(s, d); c.label("built"); break;
			case 4: {
				Layout l2(s, lay.level);
				std::string t = l2.text(d);
				if (t.size() > 3000) { e = L(I("quote"), d); break; }
				if (s.chance(30)) t = l2.gap(false) + t + l2.gap(false);
				e = L(I("comptime"), L(I("car"), L(I("read"), sx_str(t), sx_bool(false))));
				c.label("read");
				break;
			}
			case 5: e = L(I("m-first"), d, quote_datum(s, 1), quote_datum(s, 0)); c.label("macro argument"); break;
			case 6: e = L(I("car"), L(I("cdr"), L(I("quote"), sx_list({quote_datum(s, 1), d, quote_datum(s, 1)})))); break;
			default: e = L(I("funcall"), L(I("lambda"), L(I("x")), I("x")), L(I("quote"), d)); break;
			}
			st.push_back(L(I("emit"), e));
			want += shown + "\n";
			routes++;
		}
		if (d->t == Sx::ID) {
			std::string o = s.chance(50) ? d->s : odd_name(s);
			bool eq = o == d->s;
			SxP other = s.chance(70) ? L(I("quote"), sx_id(o)) : L(I("comptime"), L(I("intern"), sx_str(o)));
			st.push_back(L(I("emit"), L(I("="), L(I("quote"), d), other)));
			want += eq ? "#t\n" : "#f\n";
			st.push_back(L(I("emit"), L(I("symbol-string"), L(I("quote"), d))));
			want += dump(v_str(d->s)) + "\n";
			st.push_back(L(I("global"), I("*sym*"), L(I("quote"), d)));
			syms = d->s;
			c.label("symbol identity");
		}
	}
	st.push_back(N(0));
	std::string src = lay.source(wrap(st)), src2, want2;
	if (syms.size() && s.chance(70)) {
		/* symbols of separately loaded sources */
		std::string o = s.chance(60) ? syms : odd_name(s);
		src2 = lay.source(wrap({L(I("quote"), sx_id(odd_name(s))), L(I("="), I("*sym*"), L(I("quote"), sx_id(o)))}));
		want2 = o == syms ? "=> #t" : "=> #f";
		c.label("symbols of two sources");
	}
	if (lay.comments) c.label("comments");
	if (lay.respelled) c.label("alternative spellings");
	c.text = src + (src2.size() ? "\n;;;; second source\n" + src2 : "");
	c.nontrivial = nodes >= 3 && routes >= 2;
	want += "=> 0";
	auto cf = configs(c, 2);
	c.publish();
	for (auto cfg : cf) {
		Session se(cfg);
		Result r = se.run(src);
		c.evals++;
		if (r.outcome() != want) c.fail(strf("configuration %s\nexpected:\n", cfg) + want + "\ngot:\n" + r.outcome() + "\n" + r.cerr + r.verr);
		if (src2.empty()) continue;
		r = se.run(src2);
		if (r.outcome() != want2) c.fail(strf("configuration %s, second source\nexpected:\n", cfg) + want2 + "\ngot:\n" + r.outcome() + "\n" + r.cerr + r.verr);
	}
}
static Register r_data({"L08",
	"Random data (integers at encoding boundaries, floats in every documented spelling, strings of any bytes, odd symbol names, nested and long lists) written in random "
	"layouts and spellings and delivered by eight routes (quote, comptime, macro argument, read at compile time, element by element, inside a larger quotation, ...); the "
	"value must be the datum; symbols compared within and across sources. Non-trivial: at least three nodes and two routes.",
	data_run, 7000, 110000, {"default", "noopt", "portable", "inference"}, "Integers within 32 bits; floats with at most 9 significant digits."});

/* ---- conditions ------------------------------------------------------------------------------------------------ */
namespace {
struct Cond {
	Case &c;
	Src &s;
	std::vector<SxP> top;      /* declarations in front */
	std::vector<std::string> locals;
	int serial = 0, forms = 0, budget;
	Cond(Case &cc, int b) : c(cc), s(cc.s), budget(b) {}
	SxP leaf() { return s.chance(70) ? L(I("emit"), N(serial++)) : N(serial++); }
	SxP value() {
		switch (s.weighted({14, 14, 10, 10, 8, 8, 6, 6, 6, 6, 6, 4, 4, 4})) {
		case 0: return sx_bool(true);
		case 1: return sx_bool(false);
		case 2: return sx_list({});
		case 3: return N(s.chance(50) ? 0 : std::vector<int>{1, -1, 256, 65536, 16777216, 255}[s.below(6)]);
		case 4: return sx_float(0, "0.0");
		case 5: return s.chance(50) ? sx_float(0.5, "0.5") : sx_float(-2, "-2.0");
		case 6: return L(I("quote"), I("sym"));
		case 7: return sx_str(s.chance(50) ? "a" : "false");
		case 8: return L(I("list"), s.chance(50) ? N(0) : sx_list({}));
		case 9: return L(I("vector"));
		case 10: return L(I("vector"), sx_bool(false));
		case 11: return L(I("cdr"), L(I("vector"), N(1)));
		case 12: return L(I("lambda"), L(), sx_bool(false));
		default: return s.chance(50) ? L(I("list")) : L(I("quote"), s.chance(50) ? sx_list({}) : sx_list({N(0)}));
		}
	}
	SxP condition(int depth) {
		SxP v = value();
		bool lit = v->t != Sx::LIST || v->k.empty();
		switch (s.weighted({30, 14, 10, 10, 8, 8, 6, lit ? 6 : 0, 8, depth > 0 ? 8 : 0, 5})) {
		case 0: return v;
		case 1: { std::string n = strf("c%d", serial++); top.push_back(L(I("var"), sx_id(n), v)); return sx_id(n); }
		case 2: { std::string n = strf("*c%d*", serial++); top.push_back(L(I("global"), sx_id(n), v)); return sx_id(n); }
		case 3: return L(I("second"), L(I("emit"), N(serial++)), v);
		case 4: return L(I("id"), v);
		case 5: return L(I("not"), v->t == Sx::STR || (v->t == Sx::LIST && v->k.size() && (v->k[0]->s == "quote" || v->k[0]->s == "lambda")) ? sx_bool(true) : v);
		case 6: return L(I("null?"), v);
		case 7: return L(I("comptime"), v);
		case 8: return L(I(s.chance(50) ? "<" : "="), L(I("id"), N(s.range(0, 3))), N(s.range(0, 3)));
		case 9: return form(depth - 1, false);
		default: return L(sx_list({}), L(I("emit"), N(serial++)), v);
		}
	}
	void fill(std::vector<SxP> &k, int depth) {
		int n = s.weighted({10, 40, 30, 20});
		for (int i = 0; i < n && budget > 0; i++) {
			budget--;
			int r = s.weighted({45, depth > 0 ? 40 : 0, 10, 4});
			if (r == 0) k.push_back(leaf());
			else if (r == 1) k.push_back(form(depth - 1, true));
			else if (r == 2) k.push_back(L(I("var"), sx_id(strf("v%d", serial)), N(serial))), serial++;
			else {
				int w = std::vector<int>{5, 12, 28, 30, 32, 40, 60, 130}[s.below(8)];
				for (int j = 0; j < w; j++) k.push_back(L(I("id"), N(j)));
				c.label("long branch");
			}
		}
	}
	SxP branch(int depth) {
		if (depth > 0 && s.chance(40)) return form(depth - 1, false);
		if (s.chance(35)) { std::vector<SxP> k = {sx_list({})}; fill(k, depth); k.push_back(leaf()); return sx_list(k); }
		return leaf();
	}
	SxP form(int depth, bool statement) {
		forms++;
		switch (s.weighted({40, 25, 25, 22})) {
		case 0: return L(I("if"), condition(depth), branch(depth), branch(depth));
		case 1: { std::vector<SxP> k = {I("when"), condition(depth)}; fill(k, depth); k.push_back(leaf()); return sx_list(k); }
		case 2: { std::vector<SxP> k = {I("unless"), condition(depth)}; fill(k, depth); k.push_back(leaf()); return sx_list(k); }
		default: {
			(void) statement;
			std::string i = strf("i%d", serial++);
			std::vector<SxP> k = {I("while")};
			SxP init, step;
			switch (s.below(6)) {
			case 0: init = N(0); k.push_back(L(I("<"), sx_id(i), N(s.range(0, 4)))); step = L(I("+"), sx_id(i), N(1)); break;
			case 1: init = N(s.range(0, 4)); k.push_back(sx_id(i)); step = L(I("-"), sx_id(i), N(1)); break;
			case 2: { std::vector<SxP> l = {I("list")}; int n = s.range(0, 4); for (int q = 0; q < n; q++) l.push_back(N(0)); init = sx_list(l); k.push_back(sx_id(i)); step = L(I("cdr"), sx_id(i)); break; }
			case 3: { std::vector<SxP> l = {I("vector")}; int n = s.range(0, 4); for (int q = 0; q < n; q++) l.push_back(sx_list({})); init = sx_list(l); k.push_back(sx_id(i)); step = L(I("cdr"), sx_id(i)); break; }
			case 4: init = N(0); k.push_back(s.chance(50) ? sx_bool(false) : s.chance(50) ? sx_list({}) : N(0)); step = N(1); break;
			default: init = sx_bool(true); k.push_back(L(I("second"), L(I("emit"), N(serial++)), sx_id(i))); step = sx_bool(false); break;
			}
			fill(k, depth);
			k.push_back(L(I("setq"), sx_id(i), step));
			if (s.chance(40)) k.push_back(leaf());
			return L(sx_list({}), L(I("var"), sx_id(i), init), sx_list(k));
		}
		}
	}
};
}
static void cond_run(Case &c) {
	Cond g(c, c.thorough ? 60 : 30);
	std::vector<SxP> body;
	int n = c.s.range(1, c.thorough ? 6 : 4);
	for (int i = 0; i < n; i++) {
		SxP f = g.form(c.s.range(0, 3), true);
		if (c.s.chance(15)) { f = L(I("funcall"), L(I("lambda"), L(), f)); c.label("conditions captured by a function"); }
		body.push_back(c.s.chance(60) ? L(I("emit"), f) : f);
	}
	std::vector<SxP> st = g.top;
	st.insert(st.end(), body.begin(), body.end());
	SxP prog = wrap(st);
	c.text = pretty(prog);
	Interp in;
	std::string want = reference(c, in, prog);
	c.nontrivial = g.forms >= 2 && in.trace.size() > 3;
	for (auto k : {"if", "when", "unless", "while iteration"}) if (in.ops.count(k)) c.label(k);
	auto cf = configs(c, 2);
	std::string src = render(prog);
	c.publish();
	for (auto cfg : cf) agree(c, cfg, src, want);
}
static Register r_cond({"L13",
	"Random nests of if, when, unless and while whose conditions are every kind of value in every placement (literal, local, captured, global, call result, block, "
	"compile-time, nested conditional), with traced branches from empty to over 128 bytes; value and trace against the reference interpreter. Non-trivial: at least two "
	"conditional forms and a trace.",
	cond_run, 9000, 140000, {"default", "noopt", "portable", "inference"}, "Empty strings, types and composites as conditions are left out: the manual is silent."});
