/* M01: balanced sessions leak nothing; no history touches memory outside live allocations (the engines are built with
   AddressSanitizer, so such an access ends the case). */
#include "story.hpp"
#include "hostile.hpp"

static void memory_run(Case &c) {
	Src &s = c.s;
	struct Step { int t; std::string src; int slot; bool infer, loops; };
	std::vector<Step> steps;
	bool wild = s.chance(40);
	int n = s.range(1, c.thorough ? 10 : 6), slots = 0, sources = 0;
	Story y(c);
	for (int i = 0; i < n; i++) {
		Step st = {0, "", -1, s.chance(30), false};
		std::string show;
		switch (s.weighted({70, 10, 10, 10})) {
		case 0: case 1: {
			if (wild) {
				Hostile h = hostile(s, st.infer, c.thorough);
				st.src = h.text;
				st.loops = h.loops;
				c.label(h.kind);
			}
			else if (s.chance(35)) {
				std::string want, keep = c.text;
				macro_source(c, &st.src, &want);
				c.text = keep;
				st.infer = false;
				c.label("macros and compile-time code");
			}
			else if (s.chance(12)) {
				/* the reader at compile time, on good and bad text; a bad one is a value, not an error */
				std::string text = hostile(s, false).text;
				if (text.size() > 3000) text.resize(3000);
				st.src = render(L(I("comptime"), L(L(), L(I("var"), I("r"), L(I("read"), sx_str(text), sx_bool(s.chance(25)))), L(I("cdr"), I("r")))));
				st.infer = false;
				c.label("read at compile time");
			}
			else {
				Profile p;
				p.globals = s.chance(60); p.errors = s.chance(25) ? 8 : 0; p.gcs = 3; p.stmts = s.range(1, 5); p.depth = s.range(2, 4); p.alias = 5;
				Gen g(s, p);
				g.fresh = y.fresh;
				g.gvars = y.gvars;
				SxP x = s.chance(25) ? wrap({y.nest(s.range(0, 3), {}, y.bottom(s.chance(25)))}) : g.program();
				y.fresh = g.fresh;
				y.gvars = g.gvars;
				Interp probe;
				try { ref_outcome(probe, x); } catch (RefLimit &) { c.discard("too long"); } catch (RefUnspecified &) {}
				st.src = render(x);
				st.infer = false;
			}
			st.slot = slots++;
			sources++;
			show = (st.infer ? "; loaded with inference where available\n" : "") + st.src;
			st.t = s.chance(75) ? 0 : 1;
			if (st.t == 1) show += "\n; compiled only";
			break;
		}
		case 2: if (!slots) continue; st.t = 2; st.slot = (int) s.below((uint32_t) slots); show = strf("; execute source %d again", st.slot + 1); break;
		default: st.t = 3 + (int) s.below(3); show = st.t == 3 ? "; collect garbage" : st.t == 4 ? "; reset the stack" : "; pop what is there";
		}
		c.text += show + "\n----\n";
		steps.push_back(st);
	}
	int flags = s.chance(30) ? s.range(1, 3) : 0;
	long period = s.chance(50) ? s.range(1, 5) : 0;
	c.nontrivial = sources >= 1 && c.text.size() > 40;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Session se(cfg, (size_t) s.range(300, 4000), 4000, true, 48u << 20);
		se.a->set_flags(se.s, flags);
		se.a->set_gc_period(se.s, period);
		std::vector<std::vector<unsigned char>> code((size_t) slots);
		std::vector<int> ok((size_t) slots, 0);
		bool all_loaded = true;
		auto exec = [&](int slot) {
			if (!ok[(size_t) slot]) return;
			se.a->set_budget(se.s, 3000);
			int e = se.exec(code[(size_t) slot]);
			se.trace();
			se.errors(1);
			if (e) se.a->soft_reset(se.s);
			else if (se.a->stack_len(se.s) && s.chance(60)) se.a->pop(se.s, se.a->stack_len(se.s));
			c.evals++;
		};
		std::map<int, bool> loops;
		for (auto &st : steps) {
			switch (st.t) {
			case 0: case 1: {
				se.a->set_budget(se.s, 100000);
				int e = se.compile(st.src, &code[(size_t) st.slot], st.infer);
				se.trace();
				ok[(size_t) st.slot] = e == 0 && !st.loops;
				if (e) all_loaded = false;
				if (st.t == 0) exec(st.slot);
				break;
			}
			case 2: exec(st.slot); break;
			case 3: if (se.a->gc(se.s)) c.fail(strf("configuration %s: a collection failed\n", cfg)); break;
			case 4: if (se.a->soft_reset(se.s)) c.fail(strf("configuration %s: a reset failed\n", cfg)); break;
			default: if (se.a->stack_len(se.s)) se.a->pop(se.s, se.a->stack_len(se.s));
			}
		}
		long leaked = se.close();
		if (!wild) c.label(all_loaded ? "balanced" : "a load failed");
		if (all_loaded && leaked) c.fail(strf("configuration %s: every source was accepted, and %ld allocations are left after shutdown\n", cfg, leaked));
	}
}
static Register r_m01({"M01",
	"histories of one session. Six in ten consist of generated programs (with macros, compile-time code, closures left in globals, run-time errors followed by a reset) that are all accepted, executed now, later or repeatedly, with collections, resets and pops in between, symbol names stripped or not and disassembly kept or not: after shutdown no allocation may be left (malloc is counted; with DuckLib's allocator its block list is read). The others load texts of every degree of brokenness and execute what is accepted; the whole history runs under AddressSanitizer and UndefinedBehaviorSanitizer, and if every text was accepted, nothing may be left either. Non-trivial: at least one source and more than forty bytes.",
	memory_run, 6000, 80000, {"default", "noopt", "portable", "inference"},
	"Accepted texts that may loop forever are compiled but not executed. Leaks on failed compilations are documented by the project and not claimed."});
