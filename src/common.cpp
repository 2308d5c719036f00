#include "common.hpp"

std::string reference(Case &c, Interp &in, const SxP &prog) {
	try { return ref_outcome(in, prog); }
	catch (RefLimit &) { c.discard("too long"); }
	catch (RefUnspecified &u) { c.discard("unspecified: " + u.why); }
}
void agree(Case &c, const char *cfg, const std::string &src, const std::string &want, size_t vm_objects, long gc_period, bool infer) {
	Session s(cfg, vm_objects);
	s.a->set_gc_period(s.s, gc_period);
	Result r = s.run(src, infer);
	c.evals++;
	std::string got = r.outcome();
	if (got != want)
		c.fail(strf("configuration %s%s\n", cfg, gc_period ? strf(", collecting on every %ld. callback", gc_period).c_str() : "") +
		       "expected:\n" + want + "\ngot:\n" + got + "\n" + r.cerr + r.verr);
}
std::vector<const char *> configs(Case &c, int n) {
	std::vector<const char *> all(ALL_CFG, ALL_CFG + 4), r;
	if (c.thorough) n = 4;
	while ((int) r.size() < n) {
		size_t k = c.s.below((uint32_t) all.size());
		r.push_back(all[k]);
		all.erase(all.begin() + (long) k);
	}
	return r;
}
static bool walk(const VP &v, int depth, int &nodes) {
	if (depth > 16 || nodes++ > 1500) return false;
	switch (v->t) {
	case Value::LIST: {
		VP p = v;
		while (p->t == Value::LIST) {
			if (nodes++ > 1500) return false;
			if (!walk(p->cons->car, depth + 1, nodes)) return false;
			p = p->cons->cdr;
		}
		return p->t == Value::NIL || walk(p, depth + 1, nodes);
	}
	case Value::VEC:
		if (v->vec) for (size_t i = v->off; i < v->vec->v.size(); i++) if (!walk(v->vec->v[i], depth + 1, nodes)) return false;
		return true;
	case Value::COMPOSITE: case Value::PAIR: return walk(v->comp->value, depth + 1, nodes) && walk(v->comp->function, depth + 1, nodes);
	default: return true;
	}
}
bool printable(const VP &v) { int n = 0; return walk(v, 0, n); }

bool Inc::add(const SxP &x, bool may_fail) {
	if (dead) return false;
	std::string before = in.trace;
	long muts = in.muts;
	auto drop = [&] {
		/* a statement that changed something before it was abandoned cannot be taken back */
		if (in.muts != muts) throw Discard{"side effects of an abandoned statement"};
		in.trace = before;
		in.depth = 0;
		dropped++;
		return false;
	};
	try {
		in.steps = 0;
		VP v = in.stmt(x, sc);
		if (!printable(v)) { last = "?"; }
		else last = dump(v);
		st.push_back(x);
		return true;
	}
	catch (RefError &) { if (may_fail) { st.push_back(x); dead = true; return true; } }
	catch (RefUnspecified &) {}
	catch (RefLimit &) {}
	return drop();
}
