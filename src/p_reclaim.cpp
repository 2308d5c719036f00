/* G02: unreachable objects are reclaimed, and user objects are destroyed exactly once. */
#include "story.hpp"

namespace {
/* ---- loops in a bounded heap ---- */
void loops(Case &c) {
	Src &s = c.s;
	c.label("loop in a bounded heap");
	Profile pr;
	pr.depth = s.range(2, 4); pr.stmts = s.range(1, 5); pr.closures = 16; pr.lists = 16; pr.vecs = 12; pr.comps = 8; pr.strings = 12; pr.apply = 8; pr.loops = 3;
	pr.globals = s.chance(30);
	Gen g(s, pr);
	g.budget = c.thorough ? 120 : 60;
	SxP body = g.program();
	copy_labels(c, g);
	int kind = s.below(5);
	auto make = [&](int n) {
		SxP i = sx_id("loop-i");
		switch (kind) {
		case 0: return wrap({L(I("var"), i, N(0)), L(I("while"), L(I("<"), i, N(n)), L(I("setq"), i, L(I("+"), i, N(1))), body), i});
		case 1: return wrap({L(I("defun"), I("loop-f"), L(), body), L(I("var"), i, N(0)), L(I("while"), L(I("<"), i, N(n)), L(I("setq"), i, L(I("+"), i, N(1))), L(I("loop-f"))), i});
		/* the last value is kept, the one before becomes garbage */
		case 2: return wrap({L(I("var"), i, N(0)), L(I("var"), I("last"), L()), L(I("while"), L(I("<"), i, N(n)), L(I("setq"), i, L(I("+"), i, N(1))), L(I("setq"), I("last"), body)), I("last")});
		case 3: return wrap({L(I("var"), i, N(0)), L(I("var"), I("last"), L()), L(I("defun"), I("loop-g"), L(I("x")), L(I("setq"), I("last"), L(I("list"), I("x")))), L(I("while"), L(I("<"), i, N(n)), L(I("setq"), i, L(I("+"), i, N(1))), L(I("loop-g"), body)), I("last")});
		default: return wrap({L(I("var"), i, N(0)), L(I("while"), L(I("<"), i, N(n)), L(I("setq"), i, L(I("+"), i, N(1))), L(I("global"), I("last-value"), body)), I("last-value")});
		}
	};
	int n = c.thorough ? 400 : 60;
	SxP small = make(4), large = make(n);
	Interp in, in2;
	in.max_steps = 40000; in2.max_steps = 400000;
	std::string ws = reference(c, in, small), wl = reference(c, in2, large);
	if (ws.size() >= 13 && ws.substr(ws.size() - 13) == "runtime-error") c.discard("fails");
	std::string ss = render(small), sl = render(large);
	c.text = pretty(large);
	c.publish();
	for (auto cfg : configs(c, 1)) {
		auto play = [&](const std::string &src, size_t heap, bool *oom) {
			eng_opts o = {heap, 2000, 1000, 4u << 20, 2, 1};
			*oom = true;
			eng *e = engine(cfg)->create(&o);
			if (!e) return std::string();
			engine(cfg)->destroy(e);
			Session se(cfg, heap, 2000);
			se.a->set_budget(se.s, 2000000);
			Result r = se.run(src);
			c.evals++;
			*oom = r.exec > 0 && (r.exec == 6 || r.verr.find("Out of memory") != std::string::npos);
			return r.outcome();
		};
		size_t lo = 1, hi = 6000;
		bool oom;
		play(ss, hi, &oom);
		if (oom) c.discard("too large");
		while (lo < hi) { size_t m = (lo + hi) / 2; play(ss, m, &oom); if (oom) lo = m + 1; else hi = m; }
		c.nontrivial = hi > 30;
		std::string got = play(sl, hi, &oom);
		if (oom) c.fail(strf("configuration %s: four iterations run in a heap of %zu objects, but %d iterations do not\n", cfg, hi, n));
		if (got != wl) c.fail(strf("configuration %s, heap of %zu objects\nexpected:\n%s\ngot:\n%s\n", cfg, hi, wl.c_str(), got.c_str()));
	}
}

/* ---- the number of live objects ---- */
void counts(Case &c) {
	Src &s = c.s;
	c.label("live objects counted");
	std::vector<std::string> srcs, wants;
	Interp in;
	int n = s.range(1, 4);
	bool globals = s.chance(60);
	std::vector<Var> gv;
	int fresh = 0;
	for (int i = 0; i < n; i++) {
		Profile pr;
		pr.depth = s.range(2, 4); pr.stmts = 5; pr.closures = 16; pr.lists = 16; pr.vecs = 12; pr.comps = 8; pr.strings = 14; pr.gcs = 3; pr.apply = 8;
		pr.globals = globals;
		pr.errors = s.chance(25) ? 6 : 0;
		Gen g(s, pr);
		g.gvars = gv; g.fresh = fresh;
		g.budget = 80;
		SxP p = g.program();
		gv = g.gvars; fresh = g.fresh;
		copy_labels(c, g);
		in.trace.clear(); in.steps = 0;
		wants.push_back(reference(c, in, p));
		srcs.push_back(render(p));
	}
	/* a round that ends with every global holding nothing */
	std::vector<std::string> drop;
	for (auto &v : gv) drop.push_back("(() (global " + v.name + " ()))");
	for (auto &x : srcs) c.text += x + "\n";
	c.publish();
	c.nontrivial = in.allocs > 10 || n > 1;
	for (auto cfg : configs(c, 1)) {
		Session se(cfg, 6000);
		se.a->gc(se.s);
		size_t base = se.a->live_objects(se.s);
		size_t after[4] = {0, 0, 0, 0};
		for (int round = 0; round < 4; round++) {
			for (size_t i = 0; i < srcs.size(); i++) {
				se.a->set_budget(se.s, 200000);
				Result r = se.run(srcs[i]);
				c.evals++;
				if (round == 0 && r.outcome() != wants[i]) c.fail(strf("configuration %s, source %zu\nexpected:\n%s\ngot:\n%s\n", cfg, i + 1, wants[i].c_str(), r.outcome().c_str()));
				if (r.exec > 0) se.a->soft_reset(se.s);
				if (gv.empty()) {
					se.a->gc(se.s);
					size_t l = se.a->live_objects(se.s);
					if (l != base) c.fail(strf("configuration %s: after source %zu, which defines no globals, and a collection %zu objects are alive instead of the initial %zu\n", cfg, i + 1, l, base));
				}
			}
			for (auto &d : drop) { Result r = se.run(d); c.evals++; if (!r.ok()) c.fail("cannot assign a global: " + r.outcome()); }
			se.a->gc(se.s);
			after[round] = se.a->live_objects(se.s);
		}
		/* every global still holds one object: nil */
		for (int round = 0; round < 4; round++) if (after[round] > base + gv.size() || after[round] != after[0])
			c.fail(strf("configuration %s: %zu objects are alive at first, %zu globals now hold nothing, and after rounds of running everything, dropping everything and collecting, %zu %zu %zu %zu are alive\n", cfg, base, gv.size(), after[0], after[1], after[2], after[3]));
	}
}

/* ---- destructors ---- */
struct Node { int kind; std::vector<int> refs; std::vector<int> users; };  /* slot i: refs[i] >= 0 node, users[i] >= 0 user object */
struct Users {
	Case &c;
	Src &s;
	std::vector<Node> nodes;
	std::vector<int> glob, stack;    /* node or -1 */
	int users = 0;
	std::vector<std::string> src, show;
	Users(Case &cc) : c(cc), s(cc.s), glob(5, -1) {}
	enum { LIST, VEC, COMP, CLO, CLOMP };
	std::string slot_text(Node &n, int depth, bool ref_ok) {
		int r = s.weighted({40, ref_ok ? 35 : 0, 10, depth ? 15 : 0});
		std::vector<int> live;
		if (r == 1) for (int i = 0; i < 5; i++) if (glob[(size_t) i] >= 0) live.push_back(i);
		n.refs.push_back(-1);
		n.users.push_back(-1);
		size_t k = n.refs.size() - 1;
		if (r == 0) { n.users[k] = users++; return strf("(mkuser %d)", n.users[k]); }
		if (r == 1 && live.size()) { int g = s.pick(live); n.refs[k] = glob[(size_t) g]; return strf("g%d", g); }
		if (r == 3) {
			int id;
			std::string t = make(depth - 1, &id, ref_ok);
			n.refs[k] = id;
			return t;
		}
		return strf("%d", s.range(0, 9));
	}
	/* text of an expression that makes a container */
	std::string make(int depth, int *id, bool ref_ok) {
		Node n;
		n.kind = s.below(5);
		std::string t;
		switch (n.kind) {
		case LIST: case VEC: {
			int m = s.range(1, 3);
			t = n.kind == LIST ? "(list" : "(vector";
			for (int i = 0; i < m; i++) t += " " + slot_text(n, depth, ref_ok);
			t += ")";
			break;
		}
		case COMP: t = "(make-instance (make-type) " + slot_text(n, depth, ref_ok) + " ())"; break;
		case CLO: t = "(() (var u " + slot_text(n, depth, ref_ok) + ") (lambda () u))"; break;
		default: t = "(make-instance (make-type) 0 (() (var u " + slot_text(n, depth, ref_ok) + ") (lambda (x) (list u x))))"; break;
		}
		*id = (int) nodes.size();
		nodes.push_back(n);
		return t;
	}
	std::set<int> reachable(std::set<int> *us) {
		std::set<int> seen;
		std::vector<int> todo;
		for (int g : glob) if (g >= 0) todo.push_back(g);
		for (int g : stack) if (g >= 0) todo.push_back(g);
		while (todo.size()) {
			int n = todo.back();
			todo.pop_back();
			if (!seen.insert(n).second) continue;
			for (int r : nodes[(size_t) n].refs) if (r >= 0) todo.push_back(r);
			for (int u : nodes[(size_t) n].users) if (u >= 0) us->insert(u);
		}
		return seen;
	}
};

void destructors(Case &c) {
	Src &s = c.s;
	c.label("destructors");
	Users m(c);
	struct Op { int t; std::string src; std::set<int> alive; int users; size_t pops; };
	std::vector<Op> ops;
	int n = s.range(4, c.thorough ? 60 : 25), gcs = 0, drops = 0;
	for (int i = 0; i < n; i++) {
		Op op;
		op.t = 0;
		op.pops = 0;
		switch (s.weighted({30, 15, 12, 18, 6, 10, 8, 6})) {
		case 0: { int g = s.range(0, 4), id; op.src = strf("(global g%d ", g) + m.make(2, &id, true) + ")"; m.glob[(size_t) g] = id; break; }
		case 1: {
			/* replace a slot of a container */
			std::vector<int> cand;
			for (int g = 0; g < 5; g++) if (m.glob[(size_t) g] >= 0 && m.nodes[(size_t) m.glob[(size_t) g]].kind <= Users::COMP) cand.push_back(g);
			if (cand.empty()) continue;
			int g = s.pick(cand), id = m.glob[(size_t) g];
			int k = (int) s.below((uint32_t) m.nodes[(size_t) id].refs.size());
			Node tmp;
			std::string v = m.slot_text(tmp, 1, true);
			Node &nd = m.nodes[(size_t) id];
			nd.refs[(size_t) k] = tmp.refs[0];
			nd.users[(size_t) k] = tmp.users[0];
			if (nd.kind == Users::COMP) op.src = strf("(set-composite-value g%d ", g) + v + ")";
			else if (nd.kind == Users::VEC && s.chance(60)) op.src = strf("(set-vector-element g%d %d ", g, k) + v + ")";
			else { std::string p = strf("g%d", g); for (int j = 0; j < k; j++) p = "(cdr " + p + ")"; op.src = "(set-car " + p + " " + v + ")"; }
			/* nothing of it stays on the stack */
			op.src = "(() " + op.src + " 0)";
			if (tmp.refs[0] == id) c.label("cycle");
			break;
		}
		case 2: { int g = s.range(0, 4); op.src = strf("(global g%d ())", g); if (m.glob[(size_t) g] >= 0) drops++; m.glob[(size_t) g] = -1; break; }
		case 3: op.t = 1; gcs++; break;
		case 4: { int id; op.t = 2; op.src = m.make(2, &id, true); m.stack.push_back(id); c.label("user objects held by the stack"); break; }
		case 5: if (m.stack.empty()) continue; op.t = 3; op.pops = 1 + s.below((uint32_t) m.stack.size()); for (size_t k = 0; k < op.pops; k++) m.stack.pop_back(); break;
		case 6: { /* garbage */ int id; op.src = "(() (var a " + m.make(2, &id, true) + ") (var b (lambda () a)) 5)"; break; }
		default: {
			/* a failing program: what it held is dropped by the reset */
			int id;
			op.t = 4;
			op.src = "(() (var a " + m.make(2, &id, true) + ") (var b (lambda () a)) (ccall1 (lambda (x) (list b (car 5))) 1))";
			m.stack.clear();
			c.label("user objects held by a failed program");
		}
		}
		m.reachable(&op.alive);
		op.users = m.users;
		ops.push_back(op);
	}
	{ Op op; op.t = 1; op.pops = 0; m.reachable(&op.alive); op.users = m.users; ops.push_back(op); }
	for (auto &op : ops) c.text += op.t == 1 ? "; collect\n" : op.t == 3 ? strf("; pop %zu\n", op.pops) : op.t == 2 ? op.src + " ; kept on the stack\n" : op.src + "\n";
	c.publish();
	c.nontrivial = m.users >= 4 && gcs >= 1 && drops >= 1;
	for (auto cfg : configs(c, 1)) {
		size_t heap = s.chance(50) ? 6000 : 700;
		Session se(cfg, heap);
		size_t kept = 0;
		for (size_t i = 0; i < ops.size(); i++) {
			auto &op = ops[i];
			auto where = [&]() { return strf("configuration %s, step %zu: %s\n", cfg, i + 1, op.t == 1 ? "collection" : op.src.c_str()); };
			if (op.t == 0 || op.t == 2 || op.t == 4) {
				Result r = se.run(op.src, false, op.t == 2);
				c.evals++;
				if (r.exec == 6) return;
				if (op.t == 4) {
					if (r.outcome() != "runtime-error") c.fail(where() + "got " + r.outcome());
					se.a->soft_reset(se.s);
					kept = 0;
				}
				else if (!r.ok()) c.fail(where() + "got " + r.outcome() + r.verr + r.cerr);
				if (op.t == 2) kept++;
			}
			if (op.t == 3) { se.a->pop(se.s, op.pops); kept -= op.pops; }
			if (op.t == 1) se.a->gc(se.s);
			if (se.a->stack_len(se.s) != kept) c.fail(where() + "stack depth\n");
			for (int u = 0; u < op.users; u++) {
				int st = se.a->user_state(se.s, u);
				if (op.alive.count(u) && st != 1) c.fail(where() + strf("user object %d is reachable and was destroyed\n", u));
				if (op.t == 1 && !op.alive.count(u) && st != 2) c.fail(where() + strf("user object %d is unreachable and was not destroyed\n", u));
			}
			if (se.a->user_double(se.s)) c.fail(where() + "a user object was destroyed twice\n");
		}
		const eng_api *a = se.a;
		se.close();
		if (a->last_user_alive()) c.fail(strf("configuration %s: after shutdown %ld user objects were never destroyed\n", cfg, a->last_user_alive()));
		if (a->last_user_double()) c.fail(strf("configuration %s: at shutdown user objects were destroyed again\n", cfg));
	}
}
}
static void reclaim_run(Case &c) {
	switch (c.s.weighted({30, 35, 35})) {
	case 0: return loops(c);
	case 1: return counts(c);
	default: return destructors(c);
	}
}
static Register r_g02({"G02",
	"(1) generated loop bodies repeated in five kinds of loops: the heap that suffices for four iterations (found by bisection) must suffice for sixty; (2) histories of generated sources, some failing: after a collection exactly as many objects are alive as at first (with globals: as after the previous identical round, with every global emptied); (3) histories over lists, vectors, composites, closures and composite functions that hold user objects and each other, cycles included, in globals and on the stack, with replacements, drops, failing programs, resets and collections: after every step no reachable user object is destroyed, after every collection all unreachable ones are, none is destroyed twice, and shutdown destroys the rest. Non-trivial: (1) more than thirty objects; (2) more than ten allocations; (3) at least four user objects, a collection and a drop.",
	reclaim_run, 4500, 60000, {"default", "noopt", "portable", "inference"},
	"duck-lisp copies objects by value, so each user object is stored in one heap cell only, as the property's wording requires."});
