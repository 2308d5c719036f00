/* L11: sessions of many sources; V01: containment of run-time errors. */
#include "story.hpp"

typedef StoryStep Step;
static void session_run(Case &c) {
	Src &s = c.s;
	Story y(c);
	int n = s.range(3, c.thorough ? 24 : 12);
	for (int i = 0; i < n; i++) {
		Step st;
		switch (s.weighted({30, 14, 16, 6, 12, 12, 8, 4, 8, 6})) {
		case 0: st.prog = y.gen_program(s.chance(20) ? 5 : 0, false); st.keep = s.chance(35); y.push(st); break;
		case 1: st.prog = y.gen_program(0, true); st.keep = s.chance(35); c.label("bare form"); y.push(st); break;
		case 2: st.prog = wrap({y.nest(s.range(0, 2), {}, y.bottom(s.chance(15)))}); st.keep = s.chance(35); y.push(st); break;
		case 3: st.t = Step::BAD; st.src = y.bad_source(); c.label("rejected source"); y.push(st); break;
		case 4: { st.prog = s.chance(50) ? y.gen_program(0, s.chance(30)) : wrap({y.nest(1, {}, y.bottom(false))}); st.t = Step::COMPILE; st.slot = (int) y.compiled.size(); y.compiled.push_back(st.prog); y.push(st); break; }
		case 5: if (y.compiled.empty()) break; st.t = Step::EXEC; st.slot = s.range(0, (int) y.compiled.size() - 1); st.keep = s.chance(35); c.label("compiled earlier, executed later"); y.push(st); break;
		case 6: st.t = Step::GC; y.push(st); break;
		case 7: st.t = s.chance(70) ? Step::POP : Step::RESET; y.push(st); break;
		case 8: if (y.kept.empty()) break; st.t = Step::DUMP; st.from_top = s.range(0, (int) y.kept.size() - 1); c.label("value kept on the stack"); y.push(st); break;
		default: st.prog = y.cell_use(); st.keep = s.chance(35); y.push(st);
		}
	}
	/* every global at the end */
	for (auto &g : y.gvars) if (s.chance(70)) { Step st; st.prog = sx_id(g.name); y.push(st); }
	for (size_t i = 0; i < y.kept.size(); i++) { Step st; st.t = Step::DUMP; st.from_top = (int) i; y.push(st); }
	c.text = y.text();
	c.nontrivial = y.runs >= 3;
	c.publish();
	for (auto cfg : configs(c, 1)) y.run(cfg, s.chance(30) ? s.range(1, 5) : 0);
}
static Register r_l11({"L11",
	"histories of one session: generated programs and bare forms that share globals, closures over locals of earlier sources, sources compiled now and executed later or repeatedly, rejected sources, run-time errors followed by a reset, collections, values left on the stack, popped and inspected; every outcome, the values kept on the stack and the stack depth are compared with one persistent reference interpreter. Non-trivial: at least three executed sources.",
	session_run, 4000, 60000, {"default", "noopt", "portable", "inference"},
	"After a run-time error the host resets the stack, as the manual tells it to."});

static void contain_run(Case &c) {
	Src &s = c.s;
	Story y(c);
	int n = s.range(1, c.thorough ? 10 : 5);
	int depth_max = 0;
	for (int i = 0; i < n; i++) {
		Step st;
		switch (s.weighted({60, 15, 15, 5})) {
		case 0: { int d = s.range(0, 5); depth_max = std::max(depth_max, d); st.prog = wrap({y.nest(d, {}, y.bottom(s.chance(85)))}); y.push(st); break; }
		case 1: st.prog = y.gen_program(12, false); y.push(st); break;
		case 2: st.prog = y.cell_use(); y.push(st); break;
		default: st.t = Step::GC; y.push(st);
		}
		if (s.chance(20)) { Step g; g.t = Step::GC; y.push(g); }
	}
	/* afterwards: every cell and every global */
	for (int k = 0; k < 4; k++) {
		Step a, b, d;
		a.prog = L(I("funcall"), sx_id(strf("get-k%d", k)));
		b.prog = L(sx_id(strf("set-k%d", k)), N(1000 + k));
		y.push(a);
		if (s.chance(50)) { y.push(b); for (int j = 0; j < 4; j++) if (s.chance(40)) { d.prog = L(I("funcall"), sx_id(strf("get-k%d", j))); y.push(d); } }
	}
	for (int k = 0; k < 3; k++) { Step st; st.prog = sx_id(strf("plain%d", k)); y.push(st); }
	for (auto &g : y.gvars) if (s.chance(70)) { Step st; st.prog = sx_id(g.name); y.push(st); }
	{ Step st; st.prog = y.gen_program(0, false); y.push(st); }
	c.text = y.text();
	int f = 0;
	for (auto &st : y.steps) if (st.failed && st.prog && st.prog->t == Sx::LIST && st.prog->k.size() && st.prog->k[0]->t == Sx::LIST) f++;
	c.nontrivial = f >= 1 && depth_max >= 1;
	c.publish();
	for (auto cfg : configs(c, 1)) y.run(cfg, s.chance(30) ? s.range(1, 5) : 0);
}
static Register r_v01({"V01",
	"one to five programs, most of them with a fault (every kind of run-time error, a failing host callback) at the bottom of up to six nested scopes, calls by every route including through host callbacks, loops, branches and half-evaluated argument lists, with closures over the locals of every level stored in globals on the way; after each error the stack is reset; then all globals and closures are read and written and further programs run, everything compared with the reference interpreter, which stops at the fault. Non-trivial: at least one program failed and one was nested two deep.",
	contain_run, 5000, 60000, {"default", "noopt", "portable", "inference"},
	"After a run-time error the host resets the stack, as the manual tells it to. Heap exhaustion is left to G03."});
