/* Calls: every route to a function passes the same arguments. */
#include "common.hpp"

static SxP datum(Src &s, int depth = 2) {
	switch (s.weighted({30, 10, 10, 10, 8, 8, 10, 6, 4})) {
	case 0: return N(s.range(-5, 300));
	case 1: return sx_str(rand_string(s, 12));
	case 2: return L(I("quote"), I(std::vector<const char *>{"a", "b", "sym", "list", "x1"}[s.below(5)]));
	case 3: return sx_bool(s.chance(50));
	case 4: return lit_float(s);
	case 5: return sx_list({});
	case 6: {
		std::vector<SxP> k = {I("list")};
		int n = s.range(0, 3);
		for (int i = 0; i < n; i++) k.push_back(depth > 0 ? datum(s, depth - 1) : N(i));
		return sx_list(k);
	}
	case 7: return L(I("vector"), N(s.range(0, 9)), depth > 0 ? datum(s, depth - 1) : N(1));
	default: return L(I("cons"), N(1), depth > 0 ? datum(s, depth - 1) : N(2));
	}
}
SxP rand_datum(Src &s, int depth) { return datum(s, depth); }

namespace {
struct Fn { SxP ref; std::string direct; int np; bool variadic; bool composite; };
}

static void calls_run(Case &c) {
	Src &s = c.s;
	Inc p;
	std::vector<Fn> fns;
	bool rec = false, routes[10] = {false};
	p.add(L(I("var"), I("n"), N(0)));
	p.add(L(I("defun"), I("via0"), L(I("f")), L(I("funcall"), I("f"))));
	p.add(L(I("defun"), I("via1"), L(I("f"), I("a")), L(I("funcall"), I("f"), I("a"))));
	p.add(L(I("defun"), I("via2"), L(I("f"), I("a"), I("b")), L(I("funcall"), I("f"), I("a"), I("b"))));
	p.add(L(I("defun"), I("fwd"), L(I("f"), I("&rest"), I("r")), L(I("apply"), I("f"), I("r"))));
	p.add(L(I("defun"), I("fwd1"), L(I("f"), I("x"), I("&rest"), I("r")), L(I("apply"), I("f"), I("x"), I("r"))));
	int nf = s.range(1, c.thorough ? 6 : 4);
	for (int i = 0; i < nf; i++) {
		Fn f;
		f.np = s.weighted({12, 20, 20, 16, 10, 6, 4});
		if (s.chance(6)) f.np = s.range(7, 40);
		else if (s.chance(2)) f.np = std::vector<int>{126, 127, 128, 200, 253, 254}[s.below(6)];
		f.variadic = s.chance(40);
		f.composite = false;
		std::vector<SxP> ps, body = {I("list"), N(1000 + i)};
		for (int k = 0; k < f.np; k++) { ps.push_back(sx_id(strf("a%d", k))); body.push_back(ps.back()); }
		if (f.variadic) { ps.push_back(I("&rest")); ps.push_back(I("r")); body.push_back(I("r")); }
		std::vector<SxP> fb;
		if (s.chance(40)) fb.push_back(L(I("setq"), I("n"), L(I("+"), I("n"), N(1))));
		if (s.chance(25)) { fb.push_back(L(I("var"), I("loc"), f.np ? ps[0] : N(3))); body.push_back(I("loc")); }
		if (f.np && s.chance(20)) { fb.push_back(L(I("setq"), ps[s.below((uint32_t) f.np)], datum(s))); }
		if (s.chance(25)) { body.push_back(I("n")); }
		SxP result = sx_list(body);
		if (f.np >= 1 && s.chance(20)) {
			/* counts its first argument down through self */
			std::vector<SxP> k;
			bool app = s.chance(30);
			SxP down = L(I("-"), I("a0"), N(1));
			if (app) { k = {I("apply"), I("self"), down}; }
			else k = {s.chance(50) ? I("self") : I("self"), down};
			std::vector<SxP> rest(ps.begin() + 1, ps.begin() + f.np);
			if (app) {
				rest.insert(rest.begin(), I("list"));
				k.push_back(f.variadic && f.np == 1 ? I("r") : sx_list(rest));
			}
			else { k.insert(k.end(), rest.begin(), rest.end()); if (f.variadic) k.push_back(L(I("length"), I("r"))); }
			result = L(I("if"), L(I("="), L(I("type-of"), I("a0")), L(I("type-of"), N(1))),
			           L(I("if"), L(I(">"), I("a0"), N(0)), L(I("if"), L(I("<"), I("a0"), N(40)), sx_list(k), result), result), result);
			rec = true;
		}
		fb.push_back(result);
		std::string nm = strf("f%d", i);
		std::vector<SxP> k;
		SxP lam;
		{
			std::vector<SxP> l = {I("lambda"), sx_list(ps)};
			l.insert(l.end(), fb.begin(), fb.end());
			lam = sx_list(l);
		}
		switch (s.weighted({40, 25, 15, 10, 10})) {
		case 0: {
			k = {I("defun"), sx_id(nm), sx_list(ps)};
			k.insert(k.end(), fb.begin(), fb.end());
			p.add(sx_list(k));
			f.ref = sx_id(nm); f.direct = nm;
			break;
		}
		case 1: p.add(L(I("var"), sx_id(nm), lam)); f.ref = sx_id(nm); break;
		case 2: p.add(L(I("global"), sx_id("*" + nm + "*"), lam)); f.ref = sx_id("*" + nm + "*"); f.direct = "*" + nm + "*"; break;
		case 3: p.add(L(I("var"), sx_id(nm + "-box"), L(I("list"), lam))); f.ref = L(I("car"), sx_id(nm + "-box")); break;
		default: p.add(L(I("defun"), sx_id(nm + "-mk"), L(I("k")), L(I("var"), I("kk"), I("k")), lam)); f.ref = L(sx_id(nm + "-mk"), N(i)); break;
		}
		fns.push_back(f);
		if (s.chance(25)) {
			SxP inner = f.ref;
			int lv = s.range(1, 3);
			for (int q = 0; q < lv; q++) inner = L(I("make-instance"), L(I("make-type")), N(q), inner);
			p.add(L(I("var"), sx_id(nm + "-c"), inner));
			Fn g = f;
			g.ref = sx_id(nm + "-c");
			g.direct = "";
			g.composite = true;
			fns.push_back(g);
		}
	}
	int nc = s.range(1, c.thorough ? 16 : 9), made = 0;
	for (int i = 0; i < nc && !p.dead; i++) {
		Fn &f = fns[s.below((uint32_t) fns.size())];
		int na = f.np + (f.variadic ? s.weighted({30, 25, 20, 10, 5}) : 0);
		bool wrong = s.chance(6);
		if (wrong) na = std::max(0, f.np + (s.chance(50) ? 1 : -1) * s.range(1, 2));
		if (f.variadic && s.chance(3)) na = std::min(250, f.np + s.range(10, 120));
		std::vector<SxP> a;
		for (int k = 0; k < na; k++) a.push_back(k == 0 && s.chance(40) ? N(s.range(0, 12)) : k > 12 ? N(k) : datum(s));
		std::vector<SxP> k;
		int route = s.weighted({25, 15, 25, 10, 10, 8, 8});
		if (na > 250) route = 2;
		switch (route) {
		case 0: if (f.direct.size()) { k = {sx_id(f.direct)}; k.insert(k.end(), a.begin(), a.end()); break; } /* fall through */
		case 1: k = {I("funcall"), f.ref}; k.insert(k.end(), a.begin(), a.end()); break;
		case 2: {
			size_t sp = s.below((uint32_t) a.size() + 1);
			k = {I("apply"), f.ref};
			k.insert(k.end(), a.begin(), a.begin() + (long) sp);
			std::vector<SxP> t(a.begin() + (long) sp, a.end());
			t.insert(t.begin(), I("list"));
			k.push_back(sx_list(t));
			break;
		}
		case 3: if (na <= 2) { k = {sx_id(strf("via%d", na)), f.ref}; k.insert(k.end(), a.begin(), a.end()); break; } /* fall through */
		case 4: k = {I("fwd"), f.ref}; k.insert(k.end(), a.begin(), a.end()); break;
		case 5: if (na <= 2) { k = {sx_id(strf("ccall%d", na)), f.ref}; k.insert(k.end(), a.begin(), a.end()); break; } /* fall through */
		default:
			if (na == 0) { k = {I("funcall"), f.ref}; break; }
			k = {I("fwd1"), f.ref};
			k.insert(k.end(), a.begin(), a.end());
		}
		bool was = p.dead;
		if (p.add(L(I("emit"), sx_list(k)), wrong)) {
			made++;
			routes[route] = true;
			if (wrong && p.dead && !was) c.label("wrong number of arguments");
			if (f.composite) c.label("through a composite");
			if (f.np > 100) c.label("more than 100 parameters");
		}
	}
	if (!p.dead && s.chance(60)) p.add(I("n"));
	if (rec) c.label("recursion through self");
	int nr = 0;
	static const char *RN[] = {"direct", "funcall", "apply", "higher-order", "variadic forwarder", "duckVM_call from C", "apply with a leading argument"};
	for (int i = 0; i < 7; i++) if (routes[i]) { c.label(RN[i]); nr++; }
	SxP prog = p.program();
	c.text = pretty(prog);
	c.nontrivial = made >= 2 && nr >= 2;
	std::string src = render(prog), want = p.want();
	auto cf = configs(c, 2);
	c.publish();
	for (auto cfg : cf) agree(c, cfg, src, want);
}
static Register r_calls({"L03",
	"Random sets of functions (0 to 254 parameters, optional &rest, defun/lambda/global/boxed/returned, wrapped in nested composites) called with random "
	"data by every route (direct, funcall, apply with every split of the arguments, higher-order functions, variadic forwarders, duckVM_call from a C "
	"callback, self), 6% with a wrong number of arguments, against the reference interpreter. Non-trivial: at least two calls by two different routes.",
	calls_run, 6000, 90000, {"default", "noopt", "portable", "inference"}, ""});
