/* V02: callbacks that call back into the machine. */
#include "story.hpp"
#include "places.hpp"

namespace {
struct Reroute {
	Case &c;
	Src &s;
	int percent;
	int rerouted = 0, fresh = 0;
	std::set<std::string> functions = {"self"};
	Reroute(Case &cc, int p) : c(cc), s(cc.s), percent(p) {}
	void names(const SxP &x) {
		if (x->t != Sx::LIST) return;
		if (x->k.size() > 1 && x->k[0]->t == Sx::ID && bare(x->k[0]->s) == "defun" && x->k[1]->t == Sx::ID) functions.insert(x->k[1]->s);
		for (auto &k : x->k) names(k);
	}
	static bool mentions(const SxP &x, const char *n) {
		if (x->t == Sx::ID) return bare(x->s) == n;
		if (x->t == Sx::LIST) for (auto &k : x->k) if (mentions(k, n)) return true;
		return false;
	}
	/* calls in x by other routes */
	void calls(const SxP &x) {
		if (x->t != Sx::LIST || x->k.empty()) return;
		if (x->k[0]->t == Sx::ID) {
			std::string h = bare(x->k[0]->s);
			if (h == "quote" || h == "defmacro" || h == "comptime") return;
			size_t from = h == "lambda" ? 2 : h == "defun" ? 3 : h == "var" || h == "setq" || h == "global" ? 2 : 1;
			for (size_t i = from; i < x->k.size(); i++) calls(x->k[i]);
			if (h == "funcall" && x->k.size() >= 2 && x->k.size() <= 4 && s.chance((uint32_t) percent)) { x->k[0] = sx_id(strf("ccall%d", (int) x->k.size() - 2)); rerouted++; }
			else if (functions.count(x->k[0]->s) && x->k.size() <= 3 && s.chance((uint32_t) percent)) { x->k.insert(x->k.begin(), sx_id(strf("ccall%d", (int) x->k.size() - 1))); rerouted++; }
			return;
		}
		for (auto &k : x->k) calls(k);
	}
	/* subterms and rests of scopes become functions that are called from outside */
	SxP through(const SxP &e) {
		int k = fresh++;
		SxP gc = L(I("gc!"));
		switch (s.below(7)) {
		case 0: return L(I("ccall0"), L(I("lambda"), L(), gc, e));
		case 1: return L(I("ccall1"), L(I("lambda"), L(sx_id(strf("p%d_", k))), sx_id(strf("p%d_", k))), e);
		case 2: return L(I("ccall2"), L(I("lambda"), L(sx_id(strf("p%d_", k)), sx_id(strf("q%d_", k))), gc, sx_id(strf("q%d_", k))), L(I("list"), N(k), sx_str("p")), e);
		case 3: return L(I("ccall1"), L(I("lambda"), L(sx_id(strf("p%d_", k)), I("&rest"), sx_id(strf("q%d_", k))), sx_id(strf("p%d_", k))), e);
		case 4: return L(I("ccall1"), I("ccall0"), L(I("lambda"), L(), e));
		case 5: return L(I("ccall0"), L(I("make-instance"), L(I("make-type")), N(1), L(I("lambda"), L(), e, e->t == Sx::LIST ? L(I("id"), e) : e)));
		default: return L(I("ccall0"), L(I("lambda"), L(), e));
		}
	}
	void subterms(const SxP &prog, int n) {
		for (int i = 0; i < n; i++) {
			Places p;
			p.body(prog, 1);
			if (s.chance(35)) {
				/* the rest of a scope */
				std::vector<Places::Body> bs;
				for (auto &b : p.bodies) if (!b.loop && b.p->k.size() >= b.from + 2) bs.push_back(b);
				if (bs.empty()) continue;
				auto b = s.pick(bs);
				size_t at = b.from + 1 + s.below((uint32_t) (b.p->k.size() - b.from - 1));
				std::vector<SxP> lam = {I("lambda"), L()};
				lam.insert(lam.end(), b.p->k.begin() + (long) at, b.p->k.end());
				bool self = false;
				for (auto &k : lam) if (mentions(k, "self")) self = true;
				if (self) continue;
				b.p->k.erase(b.p->k.begin() + (long) at, b.p->k.end());
				b.p->k.push_back(L(I("ccall0"), sx_list(lam)));
				c.label("the rest of a scope is called from outside");
			}
			else {
				if (p.args.empty()) continue;
				auto a = s.pick(p.args);
				SxP e = a.p->k[a.i];
				if (mentions(e, "self")) continue;
				a.p->k[a.i] = through(e);
			}
			rerouted++;
		}
	}
	/* n nested native calls, each with something captured and something collected */
	SxP deep(const SxP &bottom) {
		int n = s.chance(70) ? s.range(1, 12) : s.range(13, c.thorough ? 120 : 60);
		if (n > 12) c.label("more than twelve native calls deep");
		SxP down = L(I("-"), I("n"), N(1)), again;
		switch (s.below(4)) {
		case 0: again = L(I("ccall1"), I("self"), down); break;
		case 1: again = L(I("ccall1"), I("deep-function"), down); break;
		case 2: again = L(I("ccall0"), L(I("lambda"), L(), L(I("deep-function"), down))); break;
		default: again = L(I("ccall2"), L(I("lambda"), L(I("a"), I("b")), L(I("funcall"), I("a"), I("b"))), I("deep-function"), down);
		}
		std::vector<SxP> b = {I("defun"), I("deep-function"), L(I("n")), L(I("var"), I("mine"), L(I("list"), I("n"), L(I("*"), I("n"), N(3))))};
		if (s.chance(50)) b.push_back(L(I("var"), I("seen"), L(I("lambda"), L(), I("mine"))));
		else b.push_back(L(I("var"), I("seen"), L(I("lambda"), L(), L(I("setq"), I("mine"), L(I("cons"), N(7), I("mine"))))));
		if (s.chance(50)) b.push_back(L(I("gc!")));
		b.push_back(L(I("var"), I("r"), L(I("if"), L(I("<"), I("n"), N(1)), bottom, again)));
		if (s.chance(50)) b.push_back(L(I("gc!")));
		b.push_back(L(I("cons"), L(I("car"), L(I("funcall"), I("seen"))), L(I("cons"), L(I("length"), I("mine")), s.chance(50) ? L(I("list"), I("r")) : L(I("list"), L(I("car"), L(I("list"), I("r")))))));
		rerouted++;
		if (n > 20) b.back() = L(I("car"), L(I("cdr"), b.back()));
		return L(L(), sx_list(b), L(I("deep-function"), N(n)));
	}
};
}

static void reenter_run(Case &c) {
	Src &s = c.s;
	Story y(c);
	int n = s.range(1, 4), total = 0, faults = 0;
	for (int i = 0; i < n; i++) {
		StoryStep st;
		bool fault = s.chance(25);
		Reroute r(c, s.range(30, 100));
		switch (s.weighted({60, 20, 20})) {
		case 0: st.prog = y.gen_program(fault ? 8 : 0, false); break;
		case 1: st.prog = wrap({y.nest(s.range(1, 4), {}, y.bottom(fault))}); break;
		default: st.prog = wrap({r.deep(y.bottom(fault))}); c.label("deep"); if (s.chance(50)) st.prog = wrap({r.deep(L(I("car"), L(I("list"), N(5), st.prog->k[1])))});
		}
		st.prog = copy_sx(st.prog);
		r.names(st.prog);
		r.calls(st.prog);
		r.subterms(st.prog, s.range(0, 5));
		total += r.rerouted;
		if (s.chance(10)) {
			std::string v = strf("ct%d_", i);
			st.prog->k.insert(st.prog->k.begin() + 1, L(I("var"), sx_id(v), L(I("comptime"), L(I("ccall1"), L(I("lambda"), L(I("x")), L(I("*"), I("x"), N(3))), N(s.range(0, 50))))));
			c.label("during compilation");
		}
		st.keep = s.chance(30);
		y.push(st);
		if (y.steps.back().failed) faults++;
		if (s.chance(15)) { StoryStep g; g.t = StoryStep::GC; y.push(g); }
	}
	for (auto &g : y.gvars) if (s.chance(50)) { StoryStep st; st.prog = sx_id(g.name); y.push(st); }
	for (int k = 0; k < 4; k++) if (s.chance(30)) { StoryStep st; st.prog = L(I("funcall"), sx_id(strf("get-k%d", k))); y.push(st); }
	if (faults) c.label("an error inside");
	c.text = y.text();
	c.nontrivial = total >= 2;
	c.publish();
	for (auto cfg : configs(c, 1)) y.run(cfg, s.chance(60) ? s.range(1, 4) : 0);
}
static Register r_v02({"V02",
	"one to four programs of a session in which function calls, argument and statement positions and whole rests of scopes are rerouted through host callbacks that call the given function value (closures with captured variables, variadic functions, composites, other callbacks, themselves) with duckVM_call, up to 60 native calls deep (thorough: 120, nested twice), some with a run-time error at the bottom, collecting garbage on every n-th callback; outcome, trace and the stack left behind are those of the reference interpreter. Non-trivial: at least two rerouted calls.",
	reenter_run, 5000, 60000, {"default", "noopt", "portable", "inference"},
	"After a run-time error the host resets the stack, as the manual tells it to."});
