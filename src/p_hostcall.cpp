/* V05: the host calls functions of programs that have ended. */
#include "story.hpp"

namespace {
struct Arg { int kind; long i; double f; std::string s; };   /* 0 integer, 1 float, 2 boolean, 3 string, 4 nil, 5 global */
struct Call {
	std::string fn;
	int held = -1;                 /* not a global but the result held on the stack, counted from the bottom */
	std::vector<Arg> args;
	int junk = 0;                  /* values pushed before */
	bool positive = false, collect = false;
	std::string store;             /* global the result is put in */
	bool hold = false;             /* the result stays on the stack */
};
struct Step {
	enum T { RUN, CALL, GC, BAD, RESET } t = RUN;
	std::string src, want, show;
	bool failed = false;
	Call call;
	std::vector<std::string> below;  /* what the stack must hold afterwards, held results only */
};
struct Plan {
	Case &c;
	Src &s;
	Interp in;
	std::vector<Step> steps;
	std::vector<std::string> fns, data;   /* globals */
	std::vector<VP> held;
	int n = 0, calls = 0, failures = 0, bad = 0;
	Plan(Case &cc) : c(cc), s(cc.s) {}
	SxP value(int depth) {
		switch (s.below(depth > 0 ? 8 : 4)) {
		case 0: return N(s.range(0, 99));
		case 1: return sx_str(s.pick(std::vector<std::string>{"s", "text", ""}));
		case 2: return data.empty() ? N(5) : sx_id(s.pick(data));
		case 3: return L(I("quote"), s.chance(50) ? I("sym") : L(N(1), I("b")));
		case 4: return L(I("list"), value(depth - 1), value(depth - 1));
		case 5: return L(I("vector"), value(depth - 1), value(depth - 1));
		case 6: return L(I("cons"), value(depth - 1), value(depth - 1));
		default: return L(I("make-instance"), L(I("make-type")), value(depth - 1), L());
		}
	}
	/* an expression in a function with these parameters and these variables around it */
	SxP body(const std::vector<std::string> &vars, int depth) {
		auto var = [&]() -> SxP { return vars.empty() ? value(1) : sx_id(s.pick(vars)); };
		switch (s.below(depth > 0 ? 15 : 3)) {
		case 0: case 1: return var();
		case 2: return value(1);
		case 3: return s.chance(50) ? L(I("list"), var(), value(1), var()) : L(I("list"), N(1), body(vars, depth - 1), sx_str("l"));
		case 4: return s.chance(50) ? L(I("cons"), var(), var()) : L(I("cons"), body(vars, depth - 1), N(2));
		case 5: return vars.empty() ? value(2) : L(I("setq"), var(), L(I("list"), N(s.range(0, 9)), var()));
		case 6: return L(I("emit"), body(vars, depth - 1));
		case 7: return L(L(), L(I("gc!")), body(vars, depth - 1));
		case 8: { std::string v = strf("w%d", n++); std::vector<std::string> in2 = vars; in2.push_back(v); return L(L(), L(I("var"), sx_id(v), body(vars, depth - 1)), body(in2, depth - 1)); }
		case 9: { std::string v = strf("w%d", n++); std::vector<std::string> in2 = vars; in2.push_back(v); return L(I("funcall"), L(I("lambda"), L(sx_id(v)), body(in2, depth - 1)), body(vars, depth - 1)); }
		case 10: { std::string v = strf("w%d", n++); std::vector<std::string> in2 = vars; in2.push_back(v); return L(I("lambda"), L(sx_id(v)), body(in2, depth - 1)); }
		case 11: return L(I("if"), body(vars, depth - 1), body(vars, depth - 1), body(vars, depth - 1));
		case 12: if (!fns.empty()) { std::string f = s.pick(fns); return s.chance(50) ? L(I("ccall1"), sx_id(f), body(vars, depth - 1)) : L(I("funcall"), sx_id(f), body(vars, depth - 1)); } return var();
		case 13: if (!data.empty()) return L(I("global"), sx_id(s.pick(data)), body(vars, depth - 1)); return var();
		default: return s.chance(30) ? L(I("+"), N(1), var()) : L(I("ccall0"), L(I("lambda"), L(), body(vars, depth - 1)));
		}
	}
	SxP define(std::vector<std::string> &made) {
		std::vector<SxP> st;
		std::vector<std::string> vars;
		int m = s.range(0, 2);
		if (s.chance(30)) { int k = s.range(1, 30); for (int i = 0; i < k; i++) st.push_back(L(I("var"), sx_id(strf("z%d", n++)), N(i))); }
		for (int i = 0; i < m; i++) { std::string v = strf("v%d", n++); st.push_back(L(I("var"), sx_id(v), value(2))); vars.push_back(v); }
		int k = s.range(1, 3);
		for (int i = 0; i < k; i++) {
			std::string f = fns.size() && s.chance(15) ? s.pick(fns) : strf("fun%d", n++);
			std::vector<SxP> ps;
			std::vector<std::string> in2 = vars;
			int np = s.weighted({20, 40, 25, 10, 5});
			for (int j = 0; j < np; j++) { std::string v = strf("a%d", j); ps.push_back(sx_id(v)); in2.push_back(v); }
			if (s.chance(25)) { ps.push_back(I("&rest")); ps.push_back(I("r")); in2.push_back("r"); }
			std::vector<SxP> lam = {I("lambda"), sx_list(ps)};
			int b = s.range(1, 3);
			for (int j = 0; j < b; j++) lam.push_back(body(in2, 3));
			SxP def = sx_list(lam);
			if (s.chance(10)) def = I(s.pick(std::vector<const char *>{"emit", "id", "second", "gc!", "ccall0", "ccall1", "boom"}));
			if (s.chance(12)) def = L(I("make-instance"), L(I("make-type")), N(1), def);
			if (s.chance(6)) def = value(1);
			if (s.chance(25)) { std::string w = strf("loc%d", n++); st.push_back(L(I("var"), sx_id(w), def)); st.push_back(L(I("global"), sx_id(f), sx_id(w))); }
			else st.push_back(L(I("global"), sx_id(f), def));
			made.push_back(f);
		}
		if (s.chance(50)) { std::string d = strf("data%d", (int) s.below(3)); st.push_back(L(I("global"), sx_id(d), value(2))); made.push_back("=" + d); }
		if (!fns.empty() && s.chance(30)) st.push_back(L(I("emit"), L(I("funcall"), sx_id(s.pick(fns)), value(1))));
		st.push_back(value(1));
		return wrap(st);
	}
	void eval(Step &st, const std::function<VP()> &f, VP *out) {
		in.trace.clear();
		in.steps = 0;
		in.depth = 0;
		try {
			VP v = f();
			if (!printable(v)) c.discard("not printable");
			st.want = in.trace + "=> " + dump(v);
			*out = v;
		}
		catch (RefError &) { st.want = in.trace + "runtime-error"; st.failed = true; failures++; held.clear(); }
		catch (RefLimit &) { c.discard("too long"); }
		catch (RefUnspecified &u) { c.discard("unspecified: " + u.why); }
	}
	void finish(Step st) {
		for (auto &h : held) { if (!printable(h)) c.discard("not printable"); st.below.push_back(dump(h)); }
		steps.push_back(st);
	}
	VP make(const Arg &a) {
		switch (a.kind) {
		case 0: return v_int(a.i);
		case 1: return v_float(a.f);
		case 2: return v_bool(a.i != 0);
		case 3: return v_str(a.s);
		case 5: return in.globals.at(a.s);
		default: return v_nil();
		}
	}
	std::string text(const Arg &a) { return a.kind == 5 ? a.s : dump(make(a)); }
	void call() {
		Step st;
		st.t = Step::CALL;
		Call &k = st.call;
		VP f;
		if (!held.empty() && s.chance(30)) { k.held = (int) s.below((uint32_t) held.size()); f = held[(size_t) k.held]; c.label("function held on the stack"); }
		else if (fns.empty()) return;
		else { k.fn = s.chance(4) && !data.empty() ? s.pick(data) : s.pick(fns); f = in.globals.at(k.fn); }
		VP g = f;
		for (int i = 0; i < 20 && g->t == Value::COMPOSITE; i++) g = g->comp->function;
		size_t want = 1;
		if (g->t == Value::CLOSURE) { want = g->fn->params.size(); if (g->fn->variadic) want += s.weighted({25, 25, 20, 10, 5, 5}); if (g->fn->variadic && s.chance(4)) want += (size_t) s.range(20, 200); if (s.chance(6)) want = s.chance(50) && want ? want - 1 : want + 1; }
		else if (g->t == Value::CALLBACK) want = g->s == "gc!" || g->s == "boom" ? 0 : g->s == "second" || g->s == "ccall1" ? 2 : 1;
		for (size_t i = 0; i < want; i++) {
			Arg a = {0, 0, 0, ""};
			bool callee = i == 0 && g->t == Value::CALLBACK && !g->s.compare(0, 5, "ccall");
			switch (callee ? 5 : s.weighted({30, 10, 10, 15, 8, 27})) {
			case 0: a.i = s.range(0, 99); break;
			case 1: a.kind = 1; a.f = s.range(0, 40) / 4.0; break;
			case 2: a.kind = 2; a.i = s.chance(50); break;
			case 3: a.kind = 3; a.s = s.pick(std::vector<std::string>{"t", "argument", "", "a b"}); break;
			case 4: a.kind = 4; break;
			default: a.kind = 5; a.s = (data.empty() || s.chance(40) || callee) && !fns.empty() ? s.pick(fns) : data.empty() ? "data0" : s.pick(data); if (!in.globals.count(a.s)) a.kind = 4;
			}
			k.args.push_back(a);
		}
		k.junk = s.chance(50) ? 0 : s.range(1, 3);
		k.positive = s.chance(30);
		k.collect = s.chance(25);
		std::vector<VP> as;
		std::string shown;
		for (auto &a : k.args) { as.push_back(make(a)); shown += " " + text(a); }
		if (s.chance(30) && !data.empty()) k.store = s.pick(data);
		k.hold = s.chance(25);
		st.show = "; the host calls " + (k.held >= 0 ? strf("the value held at %d", k.held) : k.fn) + " with" + (shown.empty() ? " nothing" : shown)
			+ (k.junk ? strf(", %d values below it", k.junk) : "") + (k.positive ? ", by its place from the bottom" : "") + (k.collect ? ", collecting before" : "")
			+ (k.store.empty() ? "" : ", and stores the result in " + k.store) + (k.hold ? ", and keeps it on the stack" : "");
		VP v;
		eval(st, [&] { return in.call(f, as); }, &v);
		if (!st.failed) {
			if (!k.store.empty()) in.globals[k.store] = v;
			if (k.hold) held.push_back(v);
		}
		calls++;
		finish(st);
	}
	void run() {
		Step st;
		std::vector<std::string> made;
		SxP p = define(made);
		st.src = render(p);
		st.show = pretty(p);
		VP v;
		eval(st, [&] { return in.top(p); }, &v);
		for (auto &m : made) {
			bool d = m[0] == '=';
			std::string name = d ? m.substr(1) : m;
			auto &to = d ? data : fns;
			if (in.globals.count(name) && std::find(to.begin(), to.end(), name) == to.end()) to.push_back(name);
		}
		finish(st);
	}
	void plan() {
		run();
		int m = s.range(2, c.thorough ? 24 : 12);
		for (int i = 0; i < m; i++) {
			Step st;
			switch (s.weighted({20, 60, 8, 5, 7})) {
			case 0: run(); break;
			case 1: call(); break;
			case 2: st.t = Step::GC; st.show = "; the host collects garbage"; finish(st); break;
			case 3: st.t = Step::BAD; st.src = s.pick(std::vector<std::string>{"(() (global data0 7) (emit 1) (car))", "(emit 1", "(() (emit 2) (if 1 2))"}); st.show = "; must be rejected\n" + st.src; bad++; finish(st); break;
			default: st.t = Step::RESET; st.show = "; the host resets the stack"; held.clear(); finish(st);
			}
		}
	}
};
bool out_of_memory(int e, const std::string &m) { return e == 6 || (e && m.find("Out of memory") != std::string::npos); }

/* false: the heap is too small */
bool replay(Case &c, Plan &y, const char *cfg, size_t heap, long period) {
	Session se(cfg, heap);
	se.a->set_gc_period(se.s, period);
	std::vector<std::string> held;
	int k = 0;
	auto capi = [&](const char *op, long a = 0, long b = 0, const std::string &d = "") {
		eng_buf o = {nullptr, 0, 0};
		int e = se.a->capi(se.s, op, a, b, d.data(), d.size(), &o);
		std::string r(o.data ? o.data : "", o.len);
		free(o.data);
		return std::make_pair(e, r);
	};
	for (auto &st : y.steps) {
		k++;
		auto where = [&]() { return strf("configuration %s, heap of %zu objects%s, step %d:\n", cfg, heap, period ? strf(", collecting on every %ld. callback", period).c_str() : "", k) + st.show + "\n"; };
		se.a->set_budget(se.s, 200000);
		size_t before = se.a->stack_len(se.s);
		switch (st.t) {
		case Step::RUN: {
			Result r = se.run(st.src);
			c.evals++;
			if (out_of_memory(r.compile, r.cerr) || out_of_memory(r.exec, r.verr)) return false;
			if (r.outcome() != st.want) c.fail(where() + "expected:\n" + st.want + "\ngot:\n" + r.outcome() + "\n" + r.cerr + r.verr);
			if (st.failed) { int e = se.a->soft_reset(se.s); if (e && heap < 6000) return false; /* captured variables move to the heap */ if (e) c.fail(where() + "the reset failed\n"); }
			break;
		}
		case Step::CALL: {
			auto ok = [&](std::pair<int, std::string> r, const char *what) { if (r.first == 6) throw 6; if (r.first) c.fail(where() + what + strf(" failed with error %d\n", r.first)); };
			auto global = [&](const std::string &name) {
				auto key = capi("key", 0, 0, name);
				ok(capi("pushGlobal", atol(key.second.c_str())), ("duckVM_pushGlobal of " + name).c_str());
			};
			try {
				for (int i = 0; i < st.call.junk; i++) { ok(capi("pushInteger"), "duckVM_pushInteger"); ok(capi("setInteger", 9000 + i), "duckVM_setInteger"); }
				size_t at = se.a->stack_len(se.s);
				if (st.call.held >= 0) ok(capi("push", st.call.held), "duckVM_push");
				else global(st.call.fn);
				for (auto &a : st.call.args) switch (a.kind) {
				case 0: ok(capi("pushInteger"), "duckVM_pushInteger"); ok(capi("setInteger", a.i), "duckVM_setInteger"); break;
				case 1: ok(capi("pushFloat"), "duckVM_pushFloat"); ok(capi("setFloat", 0, 0, std::string((const char *) &a.f, sizeof a.f)), "duckVM_setFloat"); break;
				case 2: ok(capi("pushBoolean"), "duckVM_pushBoolean"); ok(capi("setBoolean", a.i), "duckVM_setBoolean"); break;
				case 3: ok(capi("pushString", 0, 0, a.s), "duckVM_pushString"); break;
				case 4: ok(capi("pushNil"), "duckVM_pushNil"); break;
				default: global(a.s);
				}
				if (st.call.collect) ok(capi("garbageCollect"), "duckVM_garbageCollect");
				long na = (long) st.call.args.size();
				se.trace();
				int e = capi("call", st.call.positive ? (long) at : -1 - na, na).first;
				c.evals++;
				std::string got = se.trace(), err = se.errors(1);
				if (out_of_memory(e, err)) return false;
				got += e ? "runtime-error" : "=> " + se.top(0);
				if (got != st.want) c.fail(where() + "expected:\n" + st.want + "\ngot:\n" + got + "\n" + err);
				if (e) { if (capi("softReset").first) { if (heap < 6000) return false; c.fail(where() + "the reset failed\n"); } break; }
				size_t now = se.a->stack_len(se.s);
				if (now < at + 1) c.fail(where() + "nothing was left on the stack\n");
				for (int i = 0; i < st.call.junk; i++) if (se.top(now - 1 - (at - (size_t) st.call.junk + (size_t) i)) != std::to_string(9000 + i)) c.fail(where() + "a value below the call has changed into " + se.top(now - 1 - (at - (size_t) st.call.junk + (size_t) i)) + "\n");
				if (!st.call.store.empty()) ok(capi("setGlobal", atol(capi("key", 0, 0, st.call.store).second.c_str())), "duckVM_setGlobal");
				if (st.call.hold) {
					/* the result takes the place of everything above what was there before */
					ok(capi("copyFromTop", -(long) (now - before)), "duckVM_copyFromTop");
					now--;
					ok(capi("popSeveral", (long) (now - before)), "duckVM_popSeveral");
				}
				else ok(capi("popSeveral", (long) (now - before)), "duckVM_popSeveral");
			}
			catch (int) { return false; }
			break;
		}
		case Step::GC: if (capi("garbageCollect").first) c.fail(where() + "failed\n"); break;
		case Step::BAD: { Result r = se.run(st.src); if (r.outcome() != "compile-error") c.fail(where() + "got:\n" + r.outcome() + "\n"); break; }
		case Step::RESET: if (capi("softReset").first) { if (heap < 6000) return false; c.fail(where() + "the reset failed\n"); } break;
		}
		size_t now = se.a->stack_len(se.s);
		if (now != st.below.size()) c.fail(where() + strf("the stack holds %zu values instead of %zu\n", now, st.below.size()));
		for (size_t i = 0; i < now; i++) if (se.top(now - 1 - i) != st.below[i]) c.fail(where() + strf("the value kept at %zu should be\n", i) + st.below[i] + "\nbut is\n" + se.top(now - 1 - i) + "\n");
	}
	if (!y.bad && !y.failures) {
		long leak = se.close();
		if (leak) c.fail(strf("configuration %s: %ld allocations were not given back\n", cfg, leak));
	}
	return true;
}
}

static void hostcall_run(Case &c) {
	Plan y(c);
	y.plan();
	for (auto &st : y.steps) c.text += st.show + "\n";
	c.nontrivial = y.calls >= 2;
	if (y.failures) c.label("a call fails");
	c.publish();
	for (auto cfg : configs(c, 1)) {
		if (!replay(c, y, cfg, 6000, c.s.chance(40) ? c.s.range(1, 4) : 0)) c.discard("too large");
		/* the smallest of some heaps that suffices */
		for (size_t h : {36, 40, 45, 50, 56, 63, 70, 80, 90, 105, 120, 150, 200, 300}) {
			eng_opts o = {h, 2000, 1000, 4u << 20, 2, 1};
			eng *e = engine(cfg)->create(&o);
			if (!e) continue;
			engine(cfg)->destroy(e);
			if (replay(c, y, cfg, h, 0)) break;
		}
	}
}
static Register r_v05({"V05",
	"histories of one session in which programs define global functions (closures over shared and mutable variables, variadic functions, composites that wrap functions, host callbacks, functions that call each other, redefine globals, collect or fail) and, after they have ended, the host pushes such a function or one held on the stack, pushes integers, floats, booleans, strings, nil and globals, and calls it with duckVM_call by an index from either end, stores results in globals or keeps them on the stack, loads, collects and resets in between; result, trace and everything below on the stack are those of the reference interpreter, with a large heap and with a heap that just suffices. Non-trivial: two or more calls by the host.",
	hostcall_run, 4000, 60000, {"default", "noopt", "portable", "inference"},
	"how many values duckVM_call leaves between what was there before and the result is not claimed; after a run-time error the host resets the stack"});
