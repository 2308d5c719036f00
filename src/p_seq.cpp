/* Histories of operations on sequences, strings and composites, with aliasing. */
#include "common.hpp"

namespace {
struct Mix { int lists, vecs, strs, comps; };

struct Hist {
	Case &c;
	Src &s;
	Mix mix;
	Inc p;
	std::vector<std::string> names;
	int fresh = 0, ops = 0, muts = 0, aliased = 0, slices = 0, faults = 0;
	bool gc = false;
	Hist(Case &cc, Mix m) : c(cc), s(cc.s), mix(m) {}

	VP val(const std::string &n) {
		VP v = p.get(n);
		if (v) return v;
		auto it = p.in.globals.find(n);
		return it == p.in.globals.end() ? nullptr : it->second;
	}
	std::string name_of(std::function<bool(const VP &)> f) {
		std::vector<std::string> r;
		for (auto &n : names) { VP v = val(n); if (v && f(v)) r.push_back(n); }
		return r.empty() ? "" : r[s.below((uint32_t) r.size())];
	}
	SxP lit(int depth = 2) { return rand_datum(s, depth); }
	/* an expression whose value satisfies f, or any literal of that kind */
	SxP operand(std::function<bool(const VP &)> f, std::function<SxP()> otherwise) {
		if (s.chance(88)) {
			std::string n = name_of(f);
			if (n.size()) {
				SxP r = sx_id(n);
				if (s.chance(8)) r = L(I("id"), r);
				else if (s.chance(4)) r = L(I("car"), L(I("list"), r));
				return r;
			}
		}
		return otherwise();
	}
	SxP any() {
		if (s.chance(45)) { std::string n = name_of([](const VP &) { return true; }); if (n.size()) return sx_id(n); }
		return lit(1);
	}
	SxP mklist() {
		std::vector<SxP> k = {I("list")};
		int n = s.weighted({10, 20, 25, 25, 10, 5, 5});
		if (s.chance(3)) n = s.range(20, 120);
		for (int i = 0; i < n; i++) k.push_back(n > 10 ? N(i) : any());
		if (s.chance(15) && n < 10) {
			std::vector<SxP> q;
			for (int i = 0; i < n; i++) q.push_back(s.chance(70) ? N(s.range(0, 20)) : I("qq"));
			return L(I("quote"), sx_list(q));
		}
		return sx_list(k);
	}
	SxP mkvec() {
		if (s.chance(25)) return L(I("make-vector"), N(s.chance(5) ? s.range(200, 600) : s.range(0, 6)), any());
		std::vector<SxP> k = {I("vector")};
		int n = s.weighted({8, 20, 25, 25, 10, 5, 5});
		if (s.chance(3)) n = s.range(20, 120);
		for (int i = 0; i < n; i++) k.push_back(n > 10 ? N(i) : any());
		return sx_list(k);
	}
	SxP mkstr() {
		switch (s.weighted({60, 15, 15, 10})) {
		case 0: return sx_str(rand_string(s, s.chance(5) ? 300 : 10));
		case 1: { std::vector<SxP> k = {I(s.chance(50) ? "list" : "vector")}; int n = s.range(0, 5); for (int i = 0; i < n; i++) k.push_back(N(s.chance(85) ? s.range(32, 126) : s.range(0, 255))); return L(I("make-string"), sx_list(k)); }
		case 2: return L(I("symbol-string"), sym());
		default: return L(I("concatenate"), sx_str(rand_string(s, 5)), sx_str(rand_string(s, 5)));
		}
	}
	SxP sym() {
		static const std::vector<std::string> names = {"a", "b", "ab", "abc", "hello", "x-y", "+", "trueish", "list", "emit", "a1", "really-rather-long-symbol-name"};
		return L(I("quote"), sx_id(s.chance(85) ? s.pick(names) : strf("s%d", s.range(0, 400))));
	}
	SxP mkcomp() {
		SxP t = operand([](const VP &v) { return v->t == Value::TYPE && v->i >= 0; }, [&] { return L(I("make-type")); });
		SxP fn;
		switch (s.weighted({30, 30, 20, 20})) {
		case 0: fn = sx_list({}); break;
		case 1: fn = L(I("lambda"), L(I("x")), L(I("list"), N(s.range(0, 99)), I("x"))); break;
		case 2: fn = operand([](const VP &v) { return v->t == Value::COMPOSITE || v->t == Value::CLOSURE; }, [&] { return L(I("lambda"), sx_list({}), N(7)); }); break;
		default: fn = any();
		}
		return L(I("make-instance"), t, any(), fn);
	}
	static bool isseq(const VP &v) { return v->t == Value::LIST || v->t == Value::VEC; }
	SxP seq() {
		int w = s.weighted({mix.lists, mix.vecs});
		return operand([&](const VP &v) { return w ? v->t == Value::VEC : (v->t == Value::LIST); }, [&] { return w ? mkvec() : mklist(); });
	}
	SxP str() { return operand([](const VP &v) { return v->t == Value::STR; }, [&] { return mkstr(); }); }
	SxP num(int lo, int hi) { return N(s.range(lo, std::max(lo, hi))); }
	int len(const SxP &x) {
		/* the length of the value of an operand made of names, if it can be told */
		SxP y = x;
		while (y->t == Sx::LIST && y->k.size() == 2 && y->k[1]->t == Sx::ID) y = y->k[1];
		if (y->t == Sx::STR) return (int) y->s.size();
		if (y->t != Sx::ID) return 3;
		VP v = val(y->s);
		if (!v) return 3;
		if (v->t == Value::STR) return (int) v->s.size();
		if (v->t == Value::VEC) return v->vec && v->off < v->vec->v.size() ? (int) (v->vec->v.size() - v->off) : 0;
		return 3;
	}
	void touch(const SxP &x) {
		SxP y = x;
		while (y->t == Sx::LIST && y->k.size() == 2 && y->k[1]->t == Sx::ID) y = y->k[1];
		if (y->t != Sx::ID) return;
		VP v = val(y->s);
		if (!v) return;
		muts++;
		int n = 0;
		for (auto &m : names) {
			VP w = val(m);
			if (w && w->t == v->t && ((v->cons && w->cons == v->cons) || (v->vec && w->vec == v->vec) || (v->comp && w->comp == v->comp))) n++;
		}
		if (n > 1) aliased++;
	}
	SxP expr(bool &writes) {
		writes = false;
		int fam = s.weighted({mix.lists + mix.vecs, mix.strs, mix.comps});
		if (fam == 0) {
			switch (s.weighted({6, 6, 5, 10, 14, 14, 14, 6, 8, 8, 5, 4, 5, 3, 3})) {
			case 0: return mklist();
			case 1: return mkvec();
			case 2: return L(I("make-string"), operand([](const VP &v) { return v->t == Value::LIST || v->t == Value::VEC; }, [&] { return mklist(); }));
			case 3: return L(I("cons"), any(), s.chance(70) ? operand([](const VP &v) { return v->t == Value::LIST || v->t == Value::NIL; }, [&] { return mklist(); }) : any());
			case 4: return L(I("car"), seq());
			case 5: slices++; return L(I("cdr"), seq());
			case 6: { SxP q = seq(); touch(q); writes = true; return L(I("set-car"), q, any()); }
			case 7: {
				SxP q = seq();
				touch(q);
				writes = true;
				VP v = q->t == Sx::ID ? val(q->s) : nullptr;
				SxP t = v && v->t == Value::VEC ? (s.chance(80) ? sx_list({}) : any()) : s.chance(75) ? operand([](const VP &x) { return x->t == Value::LIST || x->t == Value::NIL; }, [&] { return mklist(); }) : any();
				return L(I("set-cdr"), q, t);
			}
			case 8: { SxP q = operand([](const VP &v) { return v->t == Value::VEC; }, [&] { return mkvec(); }); return L(I("get-vector-element"), q, num(0, len(q) - 1)); }
			case 9: { SxP q = operand([](const VP &v) { return v->t == Value::VEC; }, [&] { return mkvec(); }); touch(q); writes = true; return L(I("set-vector-element"), q, num(0, len(q) - 1), any()); }
			case 10: return L(I("length"), seq());
			case 11: return L(I("null?"), any());
			case 12: return L(I("="), any(), any());
			case 13: return L(I("not"), seq());
			default: return L(I("="), L(I("type-of"), any()), L(I("type-of"), any()));
			}
		}
		if (fam == 1) {
			switch (s.weighted({12, 14, 20, 14, 8, 8, 10, 10, 6, 6, 5})) {
			case 0: return mkstr();
			case 1: {
				SxP a = s.chance(80) ? str() : sym(), b = s.chance(80) ? str() : sym();
				if (a->t == Sx::ID && s.chance(30)) {
					/* two parts of one string */
					auto part = [&](const SxP &q) {
						VP v = val(q->s);
						if (!v || v->t != Value::STR || !len(q)) return q;
						slices++;
						if (s.chance(30)) return L(I("cdr"), q);
						int n = len(q), x = s.range(0, n - 1);
						return L(I("substring"), q, N(x), N(s.range(x, n)));
					};
					b = part(a);
					a = part(a);
				}
				return s.chance(25) ? L(I("="), a, b) : L(I("concatenate"), a, b);
			}
			case 2: {
				slices++;
				SxP q = str();
				int n = len(q), a = s.range(0, std::max(0, n - 1)), b = s.range(a, std::max(a, n));
				if (n == 0) a = b = 0;
				return L(I("substring"), q, N(a), N(b));
			}
			case 3: slices++; return L(I("cdr"), str());
			case 4: return L(I("car"), str());
			case 5: { SxP q = str(); return L(I("get-vector-element"), q, num(0, len(q) - 1)); }
			case 6: return L(I("length"), str());
			case 7: return L(I("="), str(), s.chance(80) ? str() : any());
			case 8:
				if (s.chance(30)) return L(I("="), L(I("symbol-id"), sym()), L(I("symbol-id"), s.chance(95) ? sym() : any()));
				return L(I("="), sym(), s.chance(60) ? sym() : any());
			case 9: return L(I("symbol-string"), s.chance(50) ? sym() : operand([](const VP &v) { return v->t == Value::SYM; }, [&] { return sym(); }));
			default: return s.chance(50) ? L(I("null?"), str()) : sym();
			}
		}
		auto comp = [&] { return operand([](const VP &v) { return v->t == Value::COMPOSITE; }, [&] { return mkcomp(); }); };
		switch (s.weighted({10, 20, 15, 12, 14, 10, 10, 6, 8, 5})) {
		case 0: return L(I("make-type"));
		case 1: return mkcomp();
		case 2: return L(I("composite-value"), comp());
		case 3: return L(I("composite-function"), comp());
		case 4: { SxP q = comp(); touch(q); writes = true; return L(I("set-composite-value"), q, any()); }
		case 5: {
			SxP q = comp();
			touch(q);
			writes = true;
			return L(I("set-composite-function"), q, s.chance(60) ? L(I("lambda"), L(I("x")), L(I("list"), N(s.range(100, 199)), I("x"))) : any());
		}
		case 6: return L(I("="), L(I("type-of"), comp()), s.chance(50) ? operand([](const VP &v) { return v->t == Value::TYPE; }, [&] { return L(I("make-type")); }) : L(I("type-of"), any()));
		case 7: return L(I("type-of"), any());
		case 8: return L(I("funcall"), comp(), any());
		default: return L(I("="), L(I("type-of"), any()), L(I("type-of"), any()));
		}
	}
	SxP fault() {
		int fam = s.weighted({mix.lists + mix.vecs, mix.strs, mix.comps});
		faults++;
		if (fam == 0) {
			SxP q = operand([](const VP &v) { return v->t == Value::VEC; }, [&] { return mkvec(); });
			int n = len(q);
			switch (s.below(8)) {
			case 0: return L(I("get-vector-element"), q, N(n + s.weighted({50, 20, 20}) * 3));
			case 1: return L(I("get-vector-element"), q, L(I("-"), N(0), N(s.range(1, 4))));
			case 2: return L(I("set-vector-element"), q, N(n + s.weighted({50, 20, 20}) * 3), any());
			case 3: return L(I("set-vector-element"), q, L(I("-"), N(0), N(s.range(1, 4))), any());
			case 4: return L(I("car"), operand([](const VP &v) { return v->t == Value::INT || v->t == Value::SYM || v->t == Value::BOOL || v->t == Value::CLOSURE; }, [&] { return N(4); }));
			case 5: return L(I(s.chance(50) ? "set-car" : "set-cdr"), operand([](const VP &v) { return v->t == Value::INT || v->t == Value::SYM || v->t == Value::NIL; }, [&] { return N(4); }), any());
			case 6: return L(I("length"), operand([](const VP &v) { return v->t == Value::INT || v->t == Value::SYM; }, [&] { return N(4); }));
			default: return L(I("get-vector-element"), any(), any());
			}
		}
		if (fam == 1) {
			SxP q = str();
			int n = len(q);
			switch (s.below(6)) {
			case 0: return L(I("substring"), q, N(0), N(n + s.range(1, 5)));
			case 1: return L(I("substring"), q, N(std::min(n, 2)), N(s.range(0, 1)));
			case 2: return L(I("get-vector-element"), q, N(n + s.range(0, 3)));
			case 3: return L(I("concatenate"), q, any());
			case 4: return L(I("symbol-string"), any());
			default: return L(I("substring"), q, L(I("-"), N(0), N(s.range(1, 3))), N(s.range(0, n)));
			}
		}
		switch (s.below(4)) {
		case 0: return L(I("composite-value"), any());
		case 1: return L(I("make-instance"), any(), N(1), sx_list({}));
		case 2: return L(I("set-composite-function"), any(), any());
		default: return L(I("make-instance"), L(I("type-of"), any()), N(1), sx_list({}));
		}
	}
	SxP wrapx(SxP e) {
		if (s.chance(10)) e = L(I("funcall"), L(I("lambda"), sx_list({}), e));
		if (s.chance(3)) e = L(I("funcall"), L(I("lambda"), sx_list({}), L(I("funcall"), L(I("lambda"), sx_list({}), e))));
		return e;
	}
	bool bind(SxP e) {
		int how = s.weighted({60, 25, 15});
		bool cap = false;
		if (how == 1 && names.size()) {
			/* assign over an existing name */
			std::string n = names[s.below((uint32_t) names.size())];
			return p.add(L(I("setq"), sx_id(n), e));
		}
		(void) cap;
		std::string n = how == 2 ? strf("*g%d*", fresh++) : strf("v%d", fresh++);
		if (!p.add(L(I(how == 2 ? "global" : "var"), sx_id(n), e))) return false;
		names.push_back(n);
		return true;
	}
	void show(const std::string &n) {
		VP v = val(n);
		if (v && printable(v)) p.add(L(I("emit"), sx_id(n)));
	}
	void run(int n) {
		int wide = s.chance(10) ? s.range(100, 320) : 0;
		int pad_at = wide ? s.range(0, 4) : -1;
		bind(fresh_value());
		bind(fresh_value());
		for (int i = 0; i < n && !p.dead; i++) {
			if (i == pad_at) { for (int k = 0; k < wide; k++) p.add(L(I("var"), sx_id(strf("p%d", k)), N(k))); c.label("more than 100 locals between"); }
			if (gc && s.chance(15)) p.add(L(I("gc!")));
			bool w;
			SxP e = wrapx(expr(w));
			bool ok;
			if (w) ok = p.add(e);
			else if (s.chance(65)) ok = bind(e);
			else {
				ok = p.add(L(I("emit"), e));
			}
			if (ok) { ops++; c.label(head(e)); }
			if (ok && w && names.size() && s.chance(50)) show(names[s.below((uint32_t) names.size())]);
		}
		if (!p.dead && s.chance(22)) { SxP f = wrapx(fault()); if (p.add(L(I("emit"), f), true) && p.dead) c.label("run-time error: " + head(f)); }
		if (!p.dead) {
			for (auto &m : names) show(m);
			p.add(N(0));
		}
	}
	static std::string head(const SxP &e) {
		SxP y = e;
		while (y->t == Sx::LIST && y->k.size() == 2 && y->k[0]->t == Sx::ID && y->k[0]->s == "funcall" && y->k[1]->t == Sx::LIST && y->k[1]->k.size() == 3) y = y->k[1]->k[2];
		return y->t == Sx::LIST && y->k.size() && y->k[0]->t == Sx::ID ? y->k[0]->s : "value";
	}
	SxP fresh_value() {
		switch (s.weighted({mix.lists, mix.vecs, mix.strs, mix.comps})) {
		case 0: return mklist();
		case 1: return mkvec();
		case 2: return mkstr();
		default: return mkcomp();
		}
	}
};
}

static void hist_run(Case &c, Mix m, std::function<bool(const Hist &)> nontrivial) {
	Hist h(c, m);
	h.gc = c.s.chance(40);
	h.run(c.s.range(4, c.thorough ? 40 : 24));
	SxP prog = h.p.program();
	c.text = pretty(prog);
	c.nontrivial = nontrivial(h);
	std::string src = render(prog), want = h.p.want();
	auto cf = configs(c, 2);
	c.publish();
	for (auto cfg : cf) agree(c, cfg, src, want);
}
static void seq_run(Case &c) { hist_run(c, {50, 45, 3, 2}, [](const Hist &h) { return h.ops >= 4 && (h.aliased > 0 || h.slices > 0 || h.faults > 0); }); }
static Register r_seq({"L04",
	"Random histories of list and vector operations (construction, access, mutation through any of several names sharing structure, tails, element access, "
	"length, null?, =, through captured variables and globals, up to 320 locals apart, collections in between; 22% end in a faulty operation) are run "
	"against the reference model with the current contents of every name compared. Non-trivial: at least 4 operations with a mutation visible through "
	"two names, a tail, or a faulty operation.",
	seq_run, 8000, 120000, {"default", "noopt", "portable", "inference"}, ""});
static void str_run(Case &c) { hist_run(c, {8, 7, 80, 2}, [](const Hist &h) { return h.ops >= 4 && (h.slices > 0 || h.faults > 0); }); }
static Register r_str({"L05",
	"Random histories of string and symbol operations (literals with escapes, make-string from lists, vectors and tails, concatenate, substring, car/cdr, "
	"element access, length, null?, =, symbol-string; 22% end in a faulty operation) against the reference model. Non-trivial: at least 4 operations "
	"including a slice of a string or a faulty operation.",
	str_run, 8000, 120000, {"default", "noopt", "portable", "inference"}, ""});
static void comp_run(Case &c) { hist_run(c, {8, 7, 4, 80}, [](const Hist &h) { return h.ops >= 4 && (h.muts > 0 || h.faults > 0); }); }
static Register r_comp({"L07",
	"Random histories of type and composite operations (make-type, make-instance, composite-value/-function and their setters through aliases, type-of, "
	"calls of composites, nested composites; 22% end in a faulty operation) against the reference model. Non-trivial: at least 4 operations including a "
	"mutation or a faulty operation.",
	comp_run, 8000, 120000, {"default", "noopt", "portable", "inference"}, ""});
