/* L09: macro use equals writing the expansion by hand. */
#include "common.hpp"

namespace {
std::string bare(const std::string &s) { return s.size() > 2 && s[0] == '_' && s[1] == '_' ? s.substr(2) : s; }
SxP clone(const SxP &x) {
	SxP r = std::make_shared<Sx>(*x);
	for (auto &k : r->k) k = clone(k);
	return r;
}
/* A place where a form is compiled: kid `i` of `p`; `body` when definitions may stand there. */
struct Slot { SxP p; size_t i; bool body; int depth; };

struct Macroizer {
	Case &c;
	Src &s;
	std::vector<SxP> defs;            /* go to the start of the program */
	int n = 0, uses = 0;
	std::set<std::string> lib;        /* library macros in use */
	Macroizer(Case &cc) : c(cc), s(cc.s) {}

	static bool has(const SxP &x, const char *name) {
		if (x->t == Sx::ID) return bare(x->s) == name;
		for (auto &k : x->k) if (has(k, name)) return true;
		return false;
	}
	static size_t size(const SxP &x) { size_t r = 1; for (auto &k : x->k) r += size(k); return r; }

	void slots(const SxP &p, size_t i, bool body, int depth, std::vector<Slot> &out) {
		const SxP &x = p->k[i];
		out.push_back({p, i, body, depth});
		if (x->t != Sx::LIST || x->k.empty()) return;
		size_t n = x->k.size();
		auto kids = [&](size_t from, bool b) { for (size_t j = from; j < n; j++) slots(x, j, b, depth + 1, out); };
		if (x->k[0]->t != Sx::ID) { for (size_t j = 1; j < n; j++) slots(x, j, true, depth + 1, out); return; }
		std::string h = bare(x->k[0]->s);
		if (h == "quote" || h == "defmacro" || h == "comptime" || h[0] == '%') return;
		if (h == "var" || h == "setq" || h == "global") return kids(2, false);
		if (h == "defun") return kids(3, true);
		if (h == "lambda") return kids(2, true);
		if (h == "when" || h == "unless" || h == "while") { slots(x, 1, false, depth + 1, out); return kids(2, true); }
		if (h == "noscope") return kids(1, true);
		kids(1, false);
	}

	/* code that builds `x` at compile time; nodes in `hole` are parameters */
	std::map<const Sx *, std::string> hole;
	std::map<std::string, std::string> texthole;
	bool holed(const SxP &x) {
		if (hole.count(x.get())) return true;
		for (auto &k : x->k) if (holed(k)) return true;
		return false;
	}
	SxP kw(const char *k) { return sx_id(s.chance(6) ? std::string("__") + k : k); }
	SxP q(const SxP &x) { return L(kw("quote"), x); }
	SxP build_tail(const SxP &x, size_t from, const std::string &rest, size_t rest_from) {
		if (rest.size() && from == rest_from) return sx_id(rest);
		if (from >= x->k.size()) return s.chance(50) ? sx_list({}) : q(sx_list({}));
		return L(kw("cons"), build(x->k[from]), build_tail(x, from + 1, rest, rest_from));
	}
	SxP build(const SxP &x, const std::string &rest = "", size_t rest_from = 0) {
		auto it = hole.find(x.get());
		if (it != hole.end()) return sx_id(it->second);
		switch (x->t) {
		case Sx::INT:
			if (x->i > -30000 && x->i < 30000 && s.chance(15)) { int d = s.range(1, 50); return L(kw("+"), N(x->i - d), N(d)); }
			return s.chance(50) ? clone(x) : q(clone(x));
		case Sx::STR:
			if (s.chance(18)) {
				/* cut out of a longer string: `x` is a tail, a slice or a copy of one */
				c.label("slice of a string in a macro");
				static const char *F[] = {"", "?", "ab", "\\\"", "xyzzy", "long lead ", "0123456789012345678901234567890123456789"};
				std::string a = F[s.below(7)], b = x->s.empty() ? "" : F[s.below(7)], all = a + x->s + b;
				int la = (int) a.size(), lx = (int) x->s.size();
				if (!lx && la) { SxP r = sx_str(a); for (int i = 0; i < la; i++) r = L(kw("cdr"), r); return r; }
				SxP src = sx_str(all);
				if (s.chance(25)) { std::string t = strf("t%d", n++); return L(L(), L(kw("var"), sx_id(t), src), L(kw("substring"), sx_id(t), N(la), N(la + lx))); }
				int cut = la < 12 && s.chance(60) ? (int) s.below((uint32_t) la + 1) : 0;
				for (int i = 0; i < cut; i++) src = L(kw("cdr"), src);
				if (la == cut && b.empty()) return src;
				return L(kw("substring"), src, N(la - cut), N(la - cut + lx));
			}
			if (x->s.size() > 1 && s.chance(15)) { size_t k = s.below((uint32_t) x->s.size()); return L(kw("concatenate"), sx_str(x->s.substr(0, k)), sx_str(x->s.substr(k))); }
			return s.chance(50) ? clone(x) : q(clone(x));
		case Sx::FLOAT: case Sx::BOOL: return s.chance(50) ? clone(x) : q(clone(x));
		case Sx::ID: return q(clone(x));
		case Sx::LIST: break;
		}
		if (x->k.empty()) return s.chance(50) ? sx_list({}) : q(sx_list({}));
		if (rest.empty() && !holed(x) && s.chance(45)) return q(clone(x));
		if (rest.size()) return build_tail(x, 0, rest, rest_from);
		switch (s.weighted({60, 16, 6, 6, 6, 6, 4})) {
		case 1: return build_tail(x, 0, "", 0);
		case 2: {
			/* through a compile-time local */
			c.label("local in a macro");
			std::string t = strf("t%d", n++);
			return L(L(), L(kw("var"), sx_id(t), listing(x)), sx_id(t));
		}
		case 3: {
			c.label("set-cdr in a macro");
			std::string t = strf("t%d", n++);
			size_t cut = 1 + s.below((uint32_t) x->k.size());
			std::vector<SxP> a = {kw("list")}, b = {kw("list")};
			/* the last cons of the first part gets the second part as its tail */
			for (size_t i = cut - 1; i < cut; i++) a.push_back(build(x->k[i]));
			for (size_t i = cut; i < x->k.size(); i++) b.push_back(build(x->k[i]));
			SxP r = sx_id(t);
			for (size_t i = cut - 1; i-- > 0;) r = L(kw("cons"), build(x->k[i]), r);
			return L(L(), L(kw("var"), sx_id(t), sx_list(a)), L(kw("set-cdr"), sx_id(t), sx_list(b)), r);
		}
		case 4: {
			c.label("condition in a macro");
			if (s.chance(50)) return L(kw("if"), sx_bool(true), listing(x), L(kw("car"), N(0)));
			return L(kw("if"), L(kw("<"), N(3), N(2)), sx_list({}), listing(x));
		}
		case 5: {
			c.label("closure in a macro");
			if (x->k.size() > 200) return listing(x);
			std::vector<SxP> ps, li = {kw("list")}, call = {kw("funcall"), nullptr};
			for (size_t i = 0; i < x->k.size(); i++) { ps.push_back(sx_id(strf("u%d", n++))); li.push_back(ps.back()); call.push_back(build(x->k[i])); }
			call[1] = L(kw("lambda"), sx_list(ps), sx_list(li));
			return sx_list(call);
		}
		case 6: {
			/* a loop that reverses the reversed list */
			c.label("loop in a macro");
			std::string a = strf("t%d", n++), b = strf("t%d", n++);
			std::vector<SxP> li = {kw("list")};
			for (size_t i = x->k.size(); i-- > 0;) li.push_back(build(x->k[i]));
			return L(L(), L(kw("var"), sx_id(a), sx_list(li)), L(kw("var"), sx_id(b), sx_list({})),
			         L(kw("while"), sx_id(a), L(kw("setq"), sx_id(b), L(kw("cons"), L(kw("car"), sx_id(a)), sx_id(b))), L(kw("setq"), sx_id(a), L(kw("cdr"), sx_id(a)))), sx_id(b));
		}
		default: return listing(x);
		}
	}
	SxP listing(const SxP &x) {
		std::vector<SxP> k = {kw("list")};
		for (auto &y : x->k) k.push_back(build(y));
		return sx_list(k);
	}
	void descend(const SxP &x, std::vector<SxP> &out) { for (auto &k : x->k) { out.push_back(k); descend(k, out); } }

	/* `sl` holds a form; put a call of a fresh macro there that expands to it */
	void specific(const Slot &sl) {
		SxP x = sl.p->k[sl.i];
		hole.clear();
		std::vector<SxP> nodes, args;
		std::vector<SxP> ps;
		std::string rest;
		size_t rest_from = 0;
		std::string name = strf("%%m%d", n++);
		size_t head_end = x->k.size();
		if (x->t == Sx::LIST && x->k.size() >= 2 && s.chance(30)) {
			rest_from = 1 + s.below((uint32_t) x->k.size() - 1);
			if (s.chance(10)) rest_from = x->k.size();   /* empty rest list */
			rest = s.chance(50) ? "r" : "args";
			head_end = rest_from;
			c.label("variadic macro");
		}
		if (x->t == Sx::LIST) for (size_t i = 0; i < head_end; i++) { nodes.push_back(x->k[i]); descend(x->k[i], nodes); }
		int want = (int) s.weighted({15, 30, 25, 15, 10});
		for (int t = 0; t < want * 3 && (int) ps.size() < want && nodes.size(); t++) {
			SxP h = nodes[s.below((uint32_t) nodes.size())];
			/* disjoint from the others */
			bool ok = !holed(h);
			std::vector<SxP> up;
			for (auto &e : hole) { std::vector<SxP> d; SxP eh; for (auto &nn : nodes) if (nn.get() == e.first) eh = nn; if (eh) { descend(eh, d); for (auto &y : d) if (y == h) ok = false; } }
			if (!ok) continue;
			std::string pn = strf("a%d", (int) ps.size());
			hole[h.get()] = pn;
			/* the same text elsewhere may use the same parameter */
			if (s.chance(60)) {
				std::string txt = render(h);
				for (auto &y : nodes) {
					if (y == h || render(y) != txt || holed(y)) continue;
					bool inside = false;
					for (auto &e : hole) { SxP eh; for (auto &nn : nodes) if (nn.get() == e.first) eh = nn; if (!eh) continue; std::vector<SxP> d; descend(eh, d); for (auto &z : d) if (z == y) inside = true; }
					if (!inside) { hole[y.get()] = pn; c.label("parameter used twice"); }
				}
			}
			ps.push_back(sx_id(pn));
			args.push_back(h);
		}
		SxP b = build(x, rest, rest_from);
		std::vector<SxP> def = {kw("defmacro"), sx_id(name), nullptr};
		if (rest.size()) { ps.push_back(I("&rest")); ps.push_back(sx_id(rest)); }
		def[2] = sx_list(ps);
		if (s.chance(12)) { def.push_back(L(kw("var"), I("pre"), q(I("noise")))); c.label("statements in a macro"); }
		if (s.chance(8)) { def.push_back(L(kw("defun"), I("build"), sx_list({}), b)); b = L(I("build")); c.label("function in a macro"); }
		def.push_back(b);
		std::vector<SxP> call = {sx_id(name)};
		call.insert(call.end(), args.begin(), args.end());
		if (rest.size()) call.insert(call.end(), x->k.begin() + (long) rest_from, x->k.end());
		place(sl, sx_list(call), sx_list(def));
	}
	void place(const Slot &sl, const SxP &call, const SxP &def) {
		sl.p->k[sl.i] = call;
		uses++;
		if (!def) return;
		if (sl.body && sl.i > 0 && s.chance(25)) {
			/* defined right before its use, in the same scope */
			sl.p->k.insert(sl.p->k.begin() + (long) sl.i, def);
			c.label("macro defined in an inner scope");
		}
		else defs.push_back(def);
	}
	void library(const std::string &name) {
		if (!lib.insert(name).second) return;
		SxP d;
		auto Q = [&](const char *x) { return L(kw("quote"), I(x)); };
		if (name == "%same") d = L(kw("defmacro"), I("%same"), L(I("x")), I("x"));
		else if (name == "%call") d = L(kw("defmacro"), I("%call"), L(I("f"), I("&rest"), I("r")), L(kw("cons"), I("f"), I("r")));
		else if (name == "%rev") {
			d = L(kw("defmacro"), I("%rev"), L(I("&rest"), I("r")), L(kw("var"), I("o"), sx_list({})),
			      L(kw("while"), I("r"), L(kw("setq"), I("o"), L(kw("cons"), L(kw("car"), I("r")), I("o"))), L(kw("setq"), I("r"), L(kw("cdr"), I("r")))), I("o"));
		}
		else if (name == "%progn") d = L(kw("defmacro"), I("%progn"), L(I("&rest"), I("r")), L(kw("cons"), sx_list({}), I("r")));
		else if (name == "%seq") d = L(kw("defmacro"), I("%seq"), L(I("&rest"), I("r")), L(kw("cons"), Q("noscope"), I("r")));
		else if (name == "%cond") {
			d = L(kw("defmacro"), I("%cond"), L(I("&rest"), I("cl")),
			      L(kw("if"), L(kw("null?"), I("cl")), sx_list({}),
			        L(kw("list"), Q("if"), L(kw("car"), L(kw("car"), I("cl"))), L(kw("car"), L(kw("cdr"), L(kw("car"), I("cl")))), L(kw("apply"), I("self"), L(kw("cdr"), I("cl"))))));
		}
		else if (name == "%cond2") {
			/* expands to itself */
			d = L(kw("defmacro"), I("%cond2"), L(I("&rest"), I("cl")),
			      L(kw("if"), L(kw("null?"), I("cl")), sx_list({}),
			        L(kw("list"), Q("if"), L(kw("car"), L(kw("car"), I("cl"))), L(kw("car"), L(kw("cdr"), L(kw("car"), I("cl")))), L(kw("cons"), Q("%cond2"), L(kw("cdr"), I("cl"))))));
		}
		else if (name == "%if-not") d = L(kw("defmacro"), I("%if-not"), L(I("c"), I("a"), I("b")), L(kw("list"), Q("if"), I("c"), I("b"), I("a")));
		else if (name == "%help") {
			defs.push_back(L(kw("comptime"), L(kw("defun"), I("helper"), L(I("h"), I("&rest"), I("r")), L(kw("cons"), I("h"), I("r"))), N(0)));
			d = L(kw("defmacro"), I("%help"), L(I("h"), I("&rest"), I("r")), L(kw("apply"), I("helper"), I("h"), I("r")));
		}
		else if (name == "%tmp" || name == "%thunk" || name == "%bin" || name == "%pick") {
			/* names nobody else has */
			bool named = s.chance(35);
			auto fresh = [&](const char *v) { return L(kw("var"), I(v), named ? L(I("intern"), L(kw("concatenate"), sx_str(v), L(I("gensym")))) : L(I("gensym"))); };
			std::vector<SxP> k = {kw("defmacro"), sx_id(name), nullptr, fresh("g")};
			SxP nil = s.chance(50) ? sx_list({}) : q(sx_list({}));
			if (name == "%tmp") { k[2] = L(I("x")); k.push_back(L(kw("list"), nil, L(kw("list"), Q("var"), I("g"), I("x")), I("g"))); }
			else if (name == "%thunk") { k[2] = L(I("x")); k.push_back(L(kw("list"), nil, L(kw("list"), Q("defun"), I("g"), sx_list({}), I("x")), L(kw("list"), I("g")))); }
			else if (name == "%pick") { k[2] = L(I("c"), I("a"), I("b")); k.push_back(L(kw("list"), nil, L(kw("list"), Q("var"), I("g"), I("c")), L(kw("list"), Q("if"), I("g"), I("a"), I("b")))); }
			else {
				k[2] = L(I("o"), I("a"), I("b"));
				k.push_back(fresh("h"));
				k.push_back(L(kw("list"), nil, L(kw("list"), Q("var"), I("g"), I("a")), L(kw("list"), Q("var"), I("h"), I("b")), L(kw("list"), I("o"), I("g"), I("h"))));
			}
			c.label(named ? "gensym, named" : "gensym");
			d = sx_list(k);
		}
		defs.push_back(d);
	}
	/* a library macro that gives the form in `sl`; false if none fits */
	bool generic(const Slot &sl) {
		SxP x = sl.p->k[sl.i];
		bool list = x->t == Sx::LIST && x->k.size();
		std::string h = list && x->k[0]->t == Sx::ID ? bare(x->k[0]->s) : "";
		auto call = [&](const char *m, std::vector<SxP> a) { library(m); a.insert(a.begin(), I(m)); sl.p->k[sl.i] = sx_list(a); uses++; c.label(std::string("library ") + m); return true; };
		bool expression = h != "var" && h != "defun" && h != "global" && h != "noscope" && h != "defmacro" && h != "comptime" && h[0] != '%' && !has(x, "self");
		switch (s.below(12)) {
		case 8: if (!expression) return false; return call("%tmp", {x});
		case 9: if (!expression) return false; return call("%thunk", {x});
		case 10: if (h != "+" && h != "-" && h != "*" && h != "<" && h != ">" && h != "=" && h != "cons" && h != "concatenate") return false; if (x->k.size() != 3 || !expression) return false; return call("%bin", x->k);
		case 11: if (h != "if" || x->k.size() != 4 || !expression) return false; return call("%pick", {x->k[1], x->k[2], x->k[3]});
		case 0: return call("%same", {x});
		case 1: if (h.empty() || x->k.size() > 200) return false; return call("%call", x->k);
		case 2: { if (!list || x->k.size() > 200) return false; std::vector<SxP> r(x->k.rbegin(), x->k.rend()); return call("%rev", r); }
		case 3: if (!list || x->k[0]->t != Sx::LIST || x->k[0]->k.size() || x->k.size() > 200) return false; return call("%progn", std::vector<SxP>(x->k.begin() + 1, x->k.end()));
		case 4: case 5: {
			if (h != "if" || x->k.size() != 4) return false;
			bool two = s.chance(50);
			std::vector<SxP> cl;
			SxP y = x;
			for (;;) {
				cl.push_back(L(y->k[1], y->k[2]));
				SxP e = y->k[3];
				if (e->t == Sx::LIST && e->k.size() == 4 && e->k[0]->t == Sx::ID && bare(e->k[0]->s) == "if") { y = e; continue; }
				cl.push_back(L(sx_bool(true), e));
				break;
			}
			return call(two ? "%cond2" : "%cond", cl);
		}
		case 6: if (h != "if" || x->k.size() != 4) return false; return call("%if-not", {x->k[1], x->k[3], x->k[2]});
		default: if (h.empty() || x->k.size() > 200) return false; return call("%help", x->k);
		}
	}
	/* a run of statements becomes one macro call */
	bool group(const SxP &p, size_t from, size_t to) {
		std::vector<SxP> ks(p->k.begin() + (long) from, p->k.begin() + (long) to);
		for (auto &k : ks) if (has(k, "defmacro")) return false;
		SxP holder;
		if (s.chance(50)) {
			library("%seq");
			ks.insert(ks.begin(), I("%seq"));
			holder = sx_list(ks);
			uses++;
		}
		else { ks.insert(ks.begin(), I("noscope")); holder = sx_list(ks); }
		p->k.erase(p->k.begin() + (long) from, p->k.begin() + (long) to);
		p->k.insert(p->k.begin() + (long) from, holder);
		c.label("several statements from one macro");
		if (holder->k[0]->s == "noscope") { Slot sl{p, from, true, 0}; specific(sl); }
		return true;
	}
};
} // namespace

/* A program with macros and the outcome of the program it expands to. */
void macro_source(Case &c, std::string *src_out, std::string *want_out) {
	Src &s = c.s;
	Profile pr;
	pr.depth = s.range(2, 4);
	pr.stmts = s.range(2, c.thorough ? 10 : 6);
	pr.wide = s.chance(15) ? 30 : 0;
	pr.maxpad = 135;
	pr.errors = s.chance(15) ? 4 : 0;
	pr.globals = s.chance(40);
	Gen g(s, pr);
	g.budget = c.thorough ? 160 : 90;
	SxP prog = g.program();
	Interp in;
	std::string want = reference(c, in, prog);
	SxP mp = clone(prog);
	Macroizer m(c);
	int target = s.range(1, c.thorough ? 14 : 8);
	int depth_used = 0;
	for (int t = 0; t < target * 4 && m.uses < target; t++) {
		std::vector<Slot> sl;
		for (size_t i = 1; i < mp->k.size(); i++) m.slots(mp, i, true, 1, sl);
		if (sl.empty()) break;
		Slot x = sl[s.below((uint32_t) sl.size())];
		SxP f = x.p->k[x.i];
		if (Macroizer::has(f, "defmacro")) continue;
		if (Macroizer::size(f) > 400) continue;
		if (f->k.empty() && s.chance(70)) continue;
		bool called = false;
		{ std::string r = render(f); called = r.find("(%") != std::string::npos; }
		if (s.chance(8) && x.body && x.i + 1 < x.p->k.size()) {
			size_t e = x.i + 1 + s.below((uint32_t) std::min<size_t>(4, x.p->k.size() - x.i));
			if (!m.group(x.p, x.i, e)) continue;
		}
		else if (s.chance(30)) { if (!m.generic(x)) continue; }
		else m.specific(x);
		if (called) { c.label("macro call inside a macro call or expansion"); depth_used++; }
		if (x.depth > 2) c.label("deep macro call");
		if (x.body) c.label("macro as a statement"); else c.label("macro as an argument");
	}
	if (!m.uses) c.discard("no macro");
	/* definitions first, in any order */
	std::vector<SxP> defs = m.defs;
	for (size_t i = defs.size(); i > 1; i--) std::swap(defs[i - 1], defs[s.below((uint32_t) i)]);
	/* functions used by macros must be defined before the macros */
	std::stable_partition(defs.begin(), defs.end(), [](const SxP &d) { return d->k[0]->s == "comptime" || d->k[0]->s == "__comptime"; });
	/* a compile-time counter used by statements whose order is known */
	std::vector<SxP> extra, plain;
	std::string wantx;
	mp->k.insert(mp->k.begin() + 1, defs.begin(), defs.end());
	std::string src = render(mp);
	c.text = "; expected outcome from the expanded program:\n" + pretty(prog) + "\n; with macros:\n" + pretty(mp);
	c.nontrivial = m.uses >= 2 && depth_used >= 1;
	*src_out = src;
	*want_out = want;
}
static void macro_run(Case &c) {
	Src &s = c.s;
	std::string src, want;
	macro_source(c, &src, &want);
	c.publish();
	bool small = s.chance(25);
	size_t ct = small ? (size_t) s.range(200, 1500) : 20000;
	for (auto cfg : configs(c, 1)) {
		Session se(cfg, 4000, ct);
		Result r = se.run(src, false);
		c.evals++;
		if (small && r.cerr.find("Out of memory") != std::string::npos) { c.label("small compile-time heap exhausted"); continue; }
		if (small) c.label("small compile-time heap");
		if (r.outcome() != want) c.fail(strf("configuration %s, compile-time heap of %zu objects\nexpected:\n%s\ngot:\n%s\n%s%s", cfg, ct, want.c_str(), r.outcome().c_str(), r.cerr.c_str(), r.verr.c_str()));
	}
}
static Register r_l09({"L09",
	"a generated program whose subterms (expressions, definitions, runs of statements) are replaced, repeatedly and nested, by calls of generated macros that build them from unevaluated arguments, in its own scope or at the start; the outcome must be that of the program before the replacement. Non-trivial: at least two macro uses, at least one of them around another one.",
	macro_run, 9000, 100000, {"default", "noopt", "portable", "inference"},
	"The outcome of the unmacroed program is computed by the reference interpreter; the macros' builders (list, cons, quote, conditions, loops, closures, helper functions at compile time) are inverses of the form they build by construction."});
