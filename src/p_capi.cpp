/* V03: sequences of calls of the C interface against a model of the stack and of the structures on it. */
#include "common.hpp"
#include <memory>
#include <climits>
#include <cmath>

namespace {

enum Kind { BOOL, INT, FLOAT, STR, SYM, TYPE, LIST, VEC, COMP, CLOS, FUNC, CODE };
struct Cons; struct Vec; struct Comp; struct Clos;
struct V {
	Kind k = LIST;
	bool b = false;
	long i = 0;              /* integer, symbol ID, type */
	double f = 0;
	std::string s;           /* string, symbol name */
	Cons *c = nullptr;
	Vec *v = nullptr;        /* null: an empty vector */
	size_t off = 0;
	Comp *p = nullptr;
	Clos *l = nullptr;
};
struct Cons { V car, cdr; };
struct Vec { std::vector<V> el; };
struct Comp { long type; V value, function; };
struct Clos { int arity; bool variadic; std::vector<V> up; };

V integer(long i) { V v; v.k = INT; v.i = i; return v; }
V boolean(bool b) { V v; v.k = BOOL; v.b = b; return v; }
V str(const std::string &s) { V v; v.k = STR; v.s = s; return v; }

std::string bytes(const std::string &s) {
	std::string r;
	for (unsigned char ch : s) {
		if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') r += (char) ch;
		else r += strf("\\x%02x", ch);
	}
	return r;
}

struct Shape {
	std::vector<const void *> seen;
	std::string out;
	size_t id(const void *p, bool *known) {
		for (size_t i = 0; i < seen.size(); i++) if (seen[i] == p) { *known = true; return i; }
		seen.push_back(p);
		*known = false;
		return seen.size() - 1;
	}
	void put(const V &v) {
		bool known;
		switch (v.k) {
		case BOOL: out += v.b ? "#t" : "#f"; break;
		case INT: out += strf("%ld", v.i); break;
		case FLOAT: out += strf("%af", v.f); break;
		case STR: out += "\"" + bytes(v.s) + "\""; break;
		case SYM: out += strf("'%lu:", (unsigned long) v.i) + bytes(v.s); break;
		case TYPE: out += strf("<type %lu>", (unsigned long) v.i); break;
		case LIST:
			if (!v.c) { out += "()"; break; }
			out += strf("(%zu", id(v.c, &known));
			if (!known) { out += " "; put(v.c->car); out += " . "; put(v.c->cdr); }
			out += ")";
			break;
		case VEC:
			if (!v.v) { out += "[]"; break; }
			out += strf("[%zu+%zu", id(v.v, &known), v.off);
			if (!known) for (auto &e : v.v->el) { out += " "; put(e); }
			out += "]";
			break;
		case COMP:
			out += strf("{%zu", id(v.p, &known));
			if (!known) { out += strf(" %lu ", (unsigned long) v.p->type); put(v.p->value); out += " "; put(v.p->function); }
			out += "}";
			break;
		case CLOS: out += strf("<closure %d%s>", v.l->arity, v.l->variadic ? "+" : ""); break;
		case FUNC: out += "<function>"; break;
		case CODE: out += "<bytecode>"; break;
		}
	}
};

struct Bad {};   /* the model's error */

const long G = LONG_MIN + 7;    /* stands for the key of the program's global */

struct Program {
	const char *src;
	bool (*applies)(const V &g);
	V (*eval)(struct Model &, V &g);
};

struct Model {
	std::vector<V> st;
	std::map<long, V> globals;
	std::vector<std::unique_ptr<Cons>> cs;
	std::vector<std::unique_ptr<Vec>> vs;
	std::vector<std::unique_ptr<Comp>> ps;
	std::vector<std::unique_ptr<Clos>> ls;
	std::set<long> types;
	size_t prefix = 0;           /* slots below that belong to somebody else */

	V cons(const V &a, const V &d) { cs.emplace_back(new Cons{a, d}); V v; v.c = cs.back().get(); return v; }
	V vec(const std::vector<V> &e) { V v; v.k = VEC; if (e.empty()) return v; vs.emplace_back(new Vec{e}); v.v = vs.back().get(); return v; }
	V comp(long t) { ps.emplace_back(new Comp{t, V(), V()}); V v; v.k = COMP; v.p = ps.back().get(); return v; }
	V clos(int arity, bool variadic, const std::vector<V> &up) { ls.emplace_back(new Clos{arity, variadic, up}); V v; v.k = CLOS; v.l = ls.back().get(); return v; }

	V &top() { if (st.empty()) throw Bad(); return st.back(); }
	/* indices count from the bottom of the real stack */
	V &at(long i) {
		long n = (long) (st.size() + prefix);
		if (i < 0) i += n;
		i -= (long) prefix;
		if (i < 0 || i >= (long) st.size()) throw Bad();
		return st[(size_t) i];
	}
	std::string shape() const {
		Shape h;
		for (auto &v : st) { h.put(v); h.out += "\n"; }
		return h.out;
	}
	/* no more heap objects than this are reachable */
	size_t reachable() const {
		size_t n = 0;
		std::set<const void *> seen;
		std::function<void(const V &)> go = [&](const V &v) {
			switch (v.k) {
			case STR: case SYM: n++; break;
			case LIST: if (v.c && seen.insert(v.c).second) { n += 3; go(v.c->car); go(v.c->cdr); } break;
			case VEC: if (v.v && seen.insert(v.v).second) { n += 1; for (auto &e : v.v->el) { n++; go(e); } } break;
			case COMP: if (seen.insert(v.p).second) { n += 4; go(v.p->value); go(v.p->function); } break;
			case CLOS: n += 2 + 2 * v.l->up.size(); for (auto &e : v.l->up) go(e); break;
			case CODE: n++; break;
			default: break;
			}
		};
		for (auto &v : st) go(v);
		for (auto &g : globals) { n++; go(g.second); }
		return n;
	}
};

bool cyclic(const V &v) {
	std::set<const Cons *> seen;
	for (const Cons *c = v.c; c; c = c->cdr.k == LIST ? c->cdr.c : nullptr) if (!seen.insert(c).second) return true;
	return false;
}
V first(const V &q) {
	if (q.k == LIST) return q.c ? q.c->car : V();
	if (q.k == VEC && q.v) return q.v->el[q.off];
	if (q.k == STR && !q.s.empty()) return integer((unsigned char) q.s[0]);
	if (q.k == CLOS && !q.l->up.empty()) return q.l->up[0];
	throw Bad();
}
V rest(const V &q) {
	if (q.k == LIST) return q.c ? q.c->cdr : V();
	if (q.k == VEC && q.v) {
		V r = q;
		if (++r.off == q.v->el.size()) { r.v = nullptr; r.off = 0; }
		return r;
	}
	if (q.k == STR && !q.s.empty()) return str(q.s.substr(1));
	throw Bad();
}
V element(const V &q, long i) {
	if (i < 0) throw Bad();
	if (q.k == LIST) {
		V v = q;
		while (v.k == LIST && v.c && i) { v = v.c->cdr; i--; }
		if (v.k != LIST || !v.c) throw Bad();
		return v.c->car;
	}
	if (q.k == VEC && q.v && (unsigned long) i < q.v->el.size() - q.off) return q.v->el[q.off + (size_t) i];
	if (q.k == STR && (unsigned long) i < q.s.size()) return integer((unsigned char) q.s[(size_t) i]);
	if (q.k == CLOS && (unsigned long) i < q.l->up.size()) return q.l->up[(size_t) i];
	throw Bad();
}
void set_element(V q, long i, const V &x) {
	if (i < 0) throw Bad();
	if (q.k == LIST) {
		while (q.k == LIST && q.c && i) { V d = q.c->cdr; q = d; i--; }
		if (q.k != LIST || !q.c) throw Bad();
		V y = x;
		q.c->car = y;
		return;
	}
	if (q.k == VEC && q.v && (unsigned long) i < q.v->el.size() - q.off) { V y = x; q.v->el[q.off + (size_t) i] = y; return; }
	throw Bad();
}
long length(const V &q) {
	long n = 0;
	if (q.k == LIST) {
		if (cyclic(q)) throw Bad();
		for (V v = q; v.k == LIST && v.c; ) { V d = v.c->cdr; v = d; n++; }
		return n;
	}
	if (q.k == VEC) return q.v ? (long) (q.v->el.size() - q.off) : 0;
	if (q.k == STR) return (long) q.s.size();
	if (q.k == CLOS) return (long) q.l->up.size();
	throw Bad();
}
const char *type_of(const V &v) {
	static const char *N[] = {"bool", "integer", "float", "string", "symbol", "type", "list", "vector", "composite", "closure", "function", "bytecode"};
	return N[v.k];
}
std::string is(const V &v) {
	switch (v.k) {
	case BOOL: return "boolean ";
	case INT: return "integer ";
	case FLOAT: return "float ";
	case STR: return v.s.empty() ? "string empty " : "string ";
	case SYM: return "symbol ";
	case TYPE: return "type ";
	case LIST: return v.c ? "list cons " : "list nil empty ";
	case VEC: return v.v ? "vector " : "vector empty ";
	case COMP: return "composite ";
	case CLOS: return v.l->up.empty() ? "closure empty " : "closure ";
	default: return "";
	}
}

bool any(const V &) { return true; }
bool is_list(const V &g) { return g.k == LIST; }
bool is_cons(const V &g) { return g.k == LIST && g.c; }
bool is_seq(const V &g) { return (g.k == LIST && !cyclic(g)) || g.k == VEC || g.k == STR; }
bool is_vec(const V &g) { return g.k == VEC && g.v; }
bool is_comp(const V &g) { return g.k == COMP; }
const Program PROGRAMS[] = {
	{"(() g)", any, [](Model &, V &g) { return g; }},
	{"(() (list g 1 g))", any, [](Model &m, V &g) { return m.cons(g, m.cons(integer(1), m.cons(g, V()))); }},
	{"(() (vector g 2))", any, [](Model &m, V &g) { return m.vec({g, integer(2)}); }},
	{"(() (cons 3 g))", any, [](Model &m, V &g) { return m.cons(integer(3), g); }},
	{"(() (car g))", is_list, [](Model &, V &g) { return first(g); }},
	{"(() (cdr g))", is_list, [](Model &, V &g) { return rest(g); }},
	{"(() (set-car g 7) g)", is_cons, [](Model &, V &g) { g.c->car = integer(7); return g; }},
	{"(() (set-cdr g (list 8)) g)", is_cons, [](Model &m, V &g) { V l = m.cons(integer(8), V()); g.c->cdr = l; return g; }},
	{"(() (set-cdr g 9) g)", is_cons, [](Model &, V &g) { g.c->cdr = integer(9); return g; }},
	{"(() (length g))", is_seq, [](Model &, V &g) { return integer(length(g)); }},
	{"(() (get-vector-element g 0))", is_vec, [](Model &, V &g) { return first(g); }},
	{"(() (set-vector-element g 0 10) g)", is_vec, [](Model &, V &g) { set_element(g, 0, integer(10)); return g; }},
	{"(() (cdr g))", is_vec, [](Model &, V &g) { return rest(g); }},
	{"(() (composite-value g))", is_comp, [](Model &, V &g) { return g.p->value; }},
	{"(() (composite-function g))", is_comp, [](Model &, V &g) { return g.p->function; }},
	{"(() (set-composite-value g 11) g)", is_comp, [](Model &, V &g) { g.p->value = integer(11); return g; }},
	{"(() (type-of g))", is_comp, [](Model &, V &g) { V t; t.k = TYPE; t.i = g.p->type; return t; }},
	{"(() (lambda () 1))", any, [](Model &m, V &) { return m.clos(0, false, {}); }},
	{"(() (lambda (x y) (cons y x)))", any, [](Model &m, V &) { return m.clos(2, false, {}); }},
	{"(() (lambda (x y &rest z) z))", any, [](Model &m, V &) { return m.clos(2, true, {}); }},
	{"(() (var a (list 5 g)) (lambda (x) (cons x a)))", any,
	 [](Model &m, V &g) { return m.clos(1, false, {m.cons(integer(5), m.cons(g, V()))}); }},
	{"(() id)", any, [](Model &, V &) { V f; f.k = FUNC; return f; }},
	{"(() \"from a \\\"program\\\"\")", any, [](Model &, V &) { return str("from a \"program\""); }},
};
const int NPROGRAMS = (int) (sizeof PROGRAMS / sizeof *PROGRAMS);

struct Op {
	std::string name;
	long a = 0, b = 0;
	std::string data;
	int prog = -1;
};
std::string show(const Op &o) {
	static const std::set<std::string> A = {"push", "pushNewType", "popSeveral", "copyFromTop", "setBoolean", "setInteger", "pushCompressedSymbol", "pushExistingType",
		"pushComposite", "setCompositeValue", "setCompositeFunction", "pushVector", "setCar", "setFirst", "setCdr", "setRest", "pushElement"};
	if (o.prog >= 0) return std::string("execute ") + PROGRAMS[o.prog].src;
	if (o.name == "pushString") return o.name + " \"" + bytes(o.data) + "\"";
	if (o.name == "pushSymbol") return o.name + strf(" %ld \"", o.a) + bytes(o.data) + "\"";
	if (o.name == "setFloat") { double d; memcpy(&d, o.data.data(), sizeof d); return o.name + strf(" %.17g", d); }
	if (o.name == "setElement") return o.name + strf(" element %ld of slot %ld", o.a, o.b);
	if (o.name == "pushGlobal" || o.name == "setGlobal") return o.name + (o.a == G ? " g" : strf(" %ld", o.a));
	return A.count(o.name) ? o.name + strf(" %ld", o.a) : o.name;
}

struct Driver {
	Case &c;
	Model m;
	size_t heap;
	size_t base = 0;              /* objects the machine needs for itself */
	bool inside;                  /* inside of a callback: what is below the arguments belongs to the caller */
	std::vector<Op> ops;

	/* per configuration */
	Session *se = nullptr;
	long gkey = 0;
	std::vector<std::vector<unsigned char>> codes;

	std::string failure, discard;

	Op make(Src &s) {
		Op o;
		long n = (long) (m.st.size() + m.prefix);
		auto index = [&]() -> long {
			if (inside) { if (s.chance(6) || m.st.empty()) return s.pick<long>({LONG_MAX, LONG_MIN}); }
			else if (s.chance(6)) return s.pick<long>({n, n + 1, -n - 1, -n - 5, LONG_MAX, LONG_MIN});
			if (m.st.empty()) return 0;
			long i = (long) s.below((uint32_t) m.st.size());
			return inside || s.chance(60) ? -1 - i : (long) m.prefix + i;
		};
		/* an index of something worth changing, most of the time */
		auto target = [&](bool comp) -> long {
			std::vector<long> good;
			for (size_t i = 0; i < m.st.size(); i++) {
				auto &v = m.st[i];
				if (comp ? v.k == COMP : (v.k == LIST && v.c) || (v.k == VEC && v.v)) good.push_back((long) i);
			}
			if (good.empty() || s.chance(20)) return index();
			long i = s.pick(good);
			return inside || s.chance(60) ? i - (long) m.st.size() : (long) m.prefix + i;
		};
		auto position = [&]() -> long {
			if (s.chance(8)) return s.pick<long>({-1, LONG_MAX, LONG_MIN, 300, -2});
			return (long) s.below(5);
		};
		bool grow = m.st.size() < 2 || (m.st.size() < 10 && s.chance(40));
		bool shrink = m.st.size() >= 10 && s.chance(50);
		if (shrink) {
			o.name = s.chance(70) ? "pop" : "popSeveral";
			o.a = (long) s.below(4);
			if (!inside && s.chance(5)) o.a = n + 1 + (long) s.below(3);
			return o;
		}
		static const std::vector<const char *> NEW = {"pushInteger", "pushNil", "pushCons", "pushVector", "pushString", "pushComposite", "pushBoolean", "pushFloat",
			"pushSymbol", "pushCompressedSymbol", "pushNewType", "pushExistingType", "pushGlobal", "push", "program"};
		static const std::vector<const char *> USE = {"pushFirst", "pushRest", "pushCar", "pushCdr", "pushElement", "pushCompositeValue", "pushCompositeFunction",
			"setFirst", "setCar", "setRest", "setCdr", "setElement", "setCompositeValue", "setCompositeFunction", "setGlobal",
			"length", "is", "typeOf", "stackLength", "copyFromTop", "pop", "popSeveral", "garbageCollect",
			"setBoolean", "setInteger", "setFloat", "copyBoolean", "copySignedInteger", "copyUnsignedInteger", "copyFloat", "copyString",
			"copySymbolName", "copySymbolId", "copyType", "copyCompositeType", "copyClosureArity", "copyClosureIsVariadic", "copyClosureName",
			"pushClosureBytecode", "popAll", "softReset"};
		if (grow) o.name = NEW[s.below((uint32_t) NEW.size())];
		else {
			/* what fits the object on top, or anything */
			std::vector<const char *> fit = {"setFirst", "setRest", "setElement", "setCompositeValue", "setCompositeFunction", "setGlobal", "is", "copyFromTop", "pop", "typeOf"};
			if (!m.st.empty()) switch (m.st.back().k) {
			case BOOL: fit.insert(fit.end(), {"setBoolean", "copyBoolean"}); break;
			case INT: fit.insert(fit.end(), {"setInteger", "copySignedInteger", "copyUnsignedInteger"}); break;
			case FLOAT: fit.insert(fit.end(), {"setFloat", "setFloat", "copyFloat"}); break;
			case SYM: fit.insert(fit.end(), {"copySymbolName", "copySymbolId"}); break;
			case TYPE: fit.insert(fit.end(), {"copyType"}); break;
			case LIST: case VEC: fit.insert(fit.end(), {"pushFirst", "pushRest", "pushElement", "pushElement", "length", "pushCar", "pushCdr", "setCar", "setCdr"}); break;
			case STR: fit.insert(fit.end(), {"pushFirst", "pushRest", "pushElement", "pushElement", "length", "copyString", "copyString"}); break;
			case COMP: fit.insert(fit.end(), {"copyCompositeType", "pushCompositeValue", "pushCompositeFunction"}); break;
			case CLOS: fit.insert(fit.end(), {"copyClosureArity", "copyClosureIsVariadic", "pushFirst", "pushElement", "length", "pushClosureBytecode", "pushRest"}); break;
			default: break;
			}
			o.name = s.chance(75) ? s.pick(fit) : USE[s.below((uint32_t) USE.size())];
		}
		static const std::vector<long> NUMBERS = {0, 1, -1, 5, 255, 256, -128, 65536, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN, 4294967296};
		const std::string &name = o.name;
		if (name == "program") {
			std::vector<int> ok;
			if (inside) { o.name = "pushInteger"; return o; }
			for (int i = 0; i < NPROGRAMS; i++) if (PROGRAMS[i].applies(m.globals[G])) ok.push_back(i);
			o.prog = s.pick(ok);
			return o;
		}
		if (name == "popAll" || name == "softReset") {
			if (inside || s.chance(70)) o.name = "is";
			return o;
		}
		if (name == "push") o.a = index();
		else if (name == "pushNewType") {
			/* so many before it that a short counter comes back to the types at hand */
			if (s.chance(30)) o.a = s.chance(60) ? s.range(250, 258) : s.range(65500, 65540);
		}
		else if (name == "copyFromTop") o.a = index();
		else if (name == "pop") { if (inside && m.st.empty()) o.name = "is"; }
		else if (name == "popSeveral") {
			o.a = (long) s.below((uint32_t) std::min<size_t>(m.st.size(), 4) + 1);
			if (s.chance(5)) o.a = !inside && s.chance(50) ? n + 1 + (long) s.below(3) : LONG_MAX;
		}
		else if (name == "setBoolean") o.a = (long) s.below(2);
		else if (name == "setInteger") o.a = s.chance(50) ? s.range(0, 100) : s.pick(NUMBERS);
		else if (name == "setFloat") {
			double d = s.pick<double>({0.0, 1.5, -2.25, 1e300, 5e-324, -0.0, INFINITY, -INFINITY, 0.1});
			o.data.assign((const char *) &d, sizeof d);
		}
		else if (name == "pushString" || name == "pushSymbol") {
			int k = s.weighted({60, 20, 20});
			int len = k == 0 ? s.range(0, 4) : k == 1 ? 0 : s.range(5, 300);
			for (int i = 0; i < len; i++) o.data += (char) (s.chance(70) ? 'a' + s.below(4) : s.below(256));
			if (name == "pushSymbol") { o.a = s.chance(70) ? (long) s.below(200) : s.pick<long>({100000, LONG_MAX}); if (o.data.empty()) o.data = "s"; }
		}
		else if (name == "pushCompressedSymbol") o.a = s.chance(70) ? (long) s.below(200) : s.pick<long>({100000, LONG_MAX});
		else if (name == "pushExistingType" || name == "pushComposite") {
			o.a = m.types.empty() || s.chance(40) ? s.pick<long>({1, 0, 8, 12, 50, 100000, LONG_MAX}) : *m.types.begin();
		}
		else if (name == "pushVector") o.a = s.chance(90) ? (long) s.below(5) : s.range(5, 40);
		else if (name == "setCompositeValue" || name == "setCompositeFunction") o.a = target(true);
		else if (name == "setFirst" || name == "setCar" || name == "setRest" || name == "setCdr") o.a = target(false);
		else if (name == "pushElement") o.a = position();
		else if (name == "setElement") { o.a = position(); o.b = target(false); }
		else if (name == "pushGlobal" || name == "setGlobal") o.a = s.chance(75) ? G : s.pick<long>({-1, 1000000, LONG_MAX});
		return o;
	}
	/* Not claimed, or takes for ever. */
	bool unclaimed(const Op &o) {
		try {
			if ((o.name == "setFirst" || o.name == "setCar") && m.at(o.a).k == CLOS) return true;
			if (o.name == "setElement" && m.at(o.b).k == CLOS) return true;
			if (o.name == "pushElement" && o.a > 1000 && !m.st.empty() && cyclic(m.st.back())) return true;
			if (o.name == "setElement" && o.a > 1000 && cyclic(m.at(o.b))) return true;
		}
		catch (Bad &) {}
		return false;
	}
	/* Does to the model what the operation should do; returns what it should report. */
	std::string apply(const Op &o) {
		const std::string &n = o.name;
		if (o.prog >= 0) { V g = m.globals[G]; m.st.push_back(PROGRAMS[o.prog].eval(m, g)); return ""; }
		auto need = [&](Kind k) -> V & { V &t = m.top(); if (t.k != k) throw Bad(); return t; };
		auto push = [&](V v) { m.st.push_back(v); return std::string(); };
		if (n == "stackLength") return strf("%zu", m.st.size() + m.prefix);
		if (n == "push") return push(m.at(o.a));
		if (n == "pop") { m.top(); m.st.pop_back(); return ""; }
		if (n == "popSeveral") {
			if ((unsigned long) o.a > m.st.size()) throw Bad();
			m.st.resize(m.st.size() - (size_t) o.a);
			return "";
		}
		if (n == "popAll" || n == "softReset") { m.st.clear(); return ""; }
		if (n == "garbageCollect") return "";
		if (n == "copyFromTop") { V t = m.top(); m.at(o.a) = t; return ""; }
		if (n == "typeOf") return type_of(m.top());
		if (n == "pushGlobal") { if (!m.globals.count(o.a)) throw Bad(); return push(m.globals[o.a]); }
		if (n == "setGlobal") { m.globals[o.a] = m.top(); return ""; }
		if (n == "pushBoolean") return push(boolean(false));
		if (n == "setBoolean") { need(BOOL).b = o.a; return ""; }
		if (n == "copyBoolean") return need(BOOL).b ? "#t" : "#f";
		if (n == "pushInteger") return push(integer(0));
		if (n == "setInteger") { need(INT).i = o.a; return ""; }
		if (n == "copySignedInteger") return strf("%ld", need(INT).i);
		if (n == "copyUnsignedInteger") return strf("%lu", (unsigned long) need(INT).i);
		if (n == "pushFloat") { V v; v.k = FLOAT; return push(v); }
		if (n == "setFloat") { memcpy(&need(FLOAT).f, o.data.data(), sizeof(double)); return ""; }
		if (n == "copyFloat") return strf("%af", need(FLOAT).f);
		if (n == "pushString") return push(str(o.data));
		if (n == "copyString") return "\"" + bytes(need(STR).s) + "\"";
		if (n == "pushSymbol" || n == "pushCompressedSymbol") { V v; v.k = SYM; v.i = o.a; v.s = o.data; return push(v); }
		if (n == "copySymbolName") return bytes(need(SYM).s);
		if (n == "copySymbolId") return strf("%lu", (unsigned long) need(SYM).i);
		if (n == "pushExistingType") { V v; v.k = TYPE; v.i = o.a; return push(v); }
		if (n == "copyType") return strf("%lu", (unsigned long) need(TYPE).i);
		if (n == "pushComposite") return push(m.comp(o.a));
		if (n == "copyCompositeType") return strf("%lu", (unsigned long) need(COMP).p->type);
		if (n == "pushCompositeValue") { V v = need(COMP).p->value; return push(v); }
		if (n == "pushCompositeFunction") { V v = need(COMP).p->function; return push(v); }
		if (n == "setCompositeValue" || n == "setCompositeFunction") {
			V t = m.top(), &q = m.at(o.a);
			if (q.k != COMP) throw Bad();
			(n == "setCompositeValue" ? q.p->value : q.p->function) = t;
			return "";
		}
		if (n == "pushNil") return push(V());
		if (n == "pushCons") return push(m.cons(V(), V()));
		if (n == "pushVector") return push(m.vec(std::vector<V>((size_t) o.a)));
		if (n == "copyClosureArity") return strf("%d", need(CLOS).l->arity);
		if (n == "copyClosureIsVariadic") return need(CLOS).l->variadic ? "#t" : "#f";
		if (n == "copyClosureName") { need(CLOS); return ""; }
		if (n == "pushClosureBytecode") { need(CLOS); V v; v.k = CODE; return push(v); }
		if (n == "pushCar" || n == "pushFirst") return push(first(m.top()));
		if (n == "pushCdr" || n == "pushRest") return push(rest(m.top()));
		if (n == "setCar" || n == "setFirst") {
			V t = m.top(), &q = m.at(o.a);
			if (q.k == LIST && q.c) q.c->car = t;
			else set_element(q.k == VEC ? q : V(), 0, t);
			return "";
		}
		if (n == "setCdr" || n == "setRest") {
			V t = m.top(), &q = m.at(o.a);
			if (q.k != LIST || !q.c) throw Bad();
			q.c->cdr = t;
			return "";
		}
		if (n == "pushElement") return push(element(m.top(), o.a));
		if (n == "setElement") { V t = m.top(); set_element(m.at(o.b), o.a, t); return ""; }
		if (n == "length") return strf("%ld", length(m.top()));
		if (n == "is") return is(m.top());
		throw Fail{"harness: no model of " + n};
	}

	static std::string take(eng_buf &b) { std::string r(b.data ? b.data : "", b.len); free(b.data); return r; }
	std::string shape() { eng_buf b = {nullptr, 0, 0}; se->a->shape(se->s, m.prefix, &b); return take(b); }
	int call(const Op &o, std::string *out) {
		eng_buf b = {nullptr, 0, 0};
		long a = o.a;
		if ((o.name == "pushGlobal" || o.name == "setGlobal") && a == G) a = gkey;
		int e = se->a->capi(se->s, o.name.c_str(), a, o.b, o.data.data(), o.data.size(), &b);
		*out = take(b);
		return e;
	}
	/* Makes the operation up, applies it to both, compares.  False when the history ends here. */
	bool step(const Op &o, size_t number) {
		std::string want, got, before = m.shape();
		bool ok = true;
		/* what an earlier lack of memory may have led to */
		if (unclaimed(o)) return true;
		if (o.prog >= 0 && !PROGRAMS[o.prog].applies(m.globals[G])) return true;
		c.evals++;
		int e = o.prog >= 0 ? se->exec(codes[(size_t) o.prog]) : call(o, &got);
		se->errors(1);
		auto where = [&]() { return strf("step %zu (%s): ", number + 1, show(o).c_str()); };
		if (e == 6) {
			/* out of memory: only when there is little left, and nothing changed */
			if (m.reachable() + base < heap) { failure = where() + strf("out of memory although at most %zu of %zu objects are in use", m.reachable() + base, heap); return false; }
			if (o.prog >= 0) { discard = "a program ran out of memory"; return false; }
			if (o.name == "pop" || o.name == "popSeveral" || o.name == "popAll" || o.name == "softReset") { discard = "no memory to release a captured variable"; return false; }
			c.label("out of memory");
			std::string now = shape();
			if (now != before) { failure = where() + "changed the stack although it ran out of memory\nbefore:\n" + before + "after:\n" + now; return false; }
			return !inside;
		}
		if (o.name == "pushNewType") {
			/* its number is whatever it is, but new */
			if (e) { failure = where() + "failed"; return false; }
			std::string t;
			Op q;
			q.name = "copyType";
			if (call(q, &t)) { failure = where() + "copyType failed afterwards"; return false; }
			V v;
			v.k = TYPE;
			v.i = strtol(t.c_str(), nullptr, 10);
			m.st.push_back(v);
			if (!m.types.insert(v.i).second) { failure = where() + "the new type " + t + " was handed out before"; return false; }
		}
		else {
			try { want = apply(o); } catch (Bad &) { ok = false; }
		}
		if (ok && e) { failure = where() + strf("failed with error %d", e); return false; }
		if (!ok && !e) { failure = where() + "succeeded, but should have reported an error\nstack:\n" + shape(); return false; }
		if (ok && want != got) { failure = where() + "reported " + got + " instead of " + want; return false; }
		if (!ok && o.prog >= 0) {
			se->a->soft_reset(se->s);
			m.st.clear();
		}
		std::string now = shape(), should = m.shape();
		if (now != should) {
			failure = where() + (ok ? "" : "an error should change nothing: ") + "the stack is\n" + now + "instead of\n" + should + "before:\n" + before;
			return false;
		}
		if (!ok) c.label("errors");
		return true;
	}
};

struct InsideRun {
	Driver *d;
	long change;             /* overwrite the caller's variable */
};

std::vector<Op> generate(Case &c, Driver &d, int n) {
	/* Made against the model alone, so that every configuration gets the same history. */
	std::vector<Op> ops;
	for (int i = 0; i < n; i++) {
		Op o = d.make(c.s);
		if (d.unclaimed(o)) continue;
		if (o.name == "pushNewType") {
			V v;
			v.k = TYPE;
			v.i = 1000 + i;
			d.m.st.push_back(v);
		}
		else try { d.apply(o); } catch (Bad &) { if (o.prog >= 0) d.m.st.clear(); }
		ops.push_back(o);
	}
	return ops;
}

int inside(void *ctx) {
	InsideRun *r = (InsideRun *) ctx;
	Driver &d = *r->d;
	Session &se = *d.se;
	size_t len = se.a->stack_len(se.s);
	if (len < 2) { d.failure = "the callback got no arguments"; return 1; }
	d.m.prefix = len - 2;
	d.m.st.clear();
	d.m.st.push_back(integer(5));
	d.m.st.push_back(str("six"));
	auto below = [&]() { std::string t; for (size_t i = 0; i < d.m.prefix; i++) t += se.top(len - 1 - i) + "\n"; return t; };
	std::string caller = below();
	if (d.shape() != d.m.shape()) { d.failure = "the callback got " + d.shape() + "as arguments"; return 1; }
	for (size_t i = 0; i < d.ops.size(); i++) if (!d.step(d.ops[i], i)) { if (d.failure.empty() && d.discard.empty()) break; return 1; }
	/* the last value on the stack is the result */
	std::string got;
	Op o;
	if (d.m.st.empty()) { o.name = "pushNil"; if (d.call(o, &got)) { d.discard = "out of memory"; return 1; } d.m.st.push_back(V()); }
	while (d.m.st.size() > 1) {
		o.name = "copyFromTop"; o.a = -2;
		if (d.call(o, &got)) { d.failure = "copyFromTop -2 failed"; return 1; }
		o.name = "pop";
		if (d.call(o, &got)) { d.failure = "pop failed"; return 1; }
		d.m.st[d.m.st.size() - 2] = d.m.st.back();
		d.m.st.pop_back();
	}
	len = se.a->stack_len(se.s);
	if (len != d.m.prefix + 1) { d.failure = "the stack has the wrong length"; return 1; }
	if (below() != caller) { d.failure = "the caller's slots changed from\n" + caller + "to\n" + below(); return 1; }
	if (r->change) {
		/* Through the stack, overwrite the caller's variable `a`, which a closure captured. */
		for (size_t i = 0; i < d.m.prefix; i++) {
			if (se.top(len - 1 - i) != "1111111") continue;
			o.name = "pushInteger"; o.a = 0;
			if (d.call(o, &got)) { d.failure = "pushInteger failed"; return 1; }
			o.name = "setInteger"; o.a = 2222222;
			if (d.call(o, &got)) { d.failure = "setInteger failed"; return 1; }
			o.name = "copyFromTop"; o.a = (long) i;
			if (d.call(o, &got)) { d.failure = "copyFromTop failed"; return 1; }
			o.name = "pop";
			if (d.call(o, &got)) { d.failure = "pop failed"; return 1; }
			r->change = 2;
		}
	}
	d.m.globals[LONG_MIN] = d.m.st[0];   /* remember the result */
	return 0;
}

void capi_run(Case &c) {
	Src &s = c.s;
	bool in = s.chance(35);
	size_t heap = (size_t) s.pick<int>({300, 30, 40, 50, 70, 100, 1000});
	int n = s.range(1, c.thorough ? 120 : 40);
	bool change = in && s.chance(50);
	Driver gen{c, {}, heap, 0, in, {}, nullptr, 0, {}, "", ""};
	if (in) { gen.m.st.push_back(integer(5)); gen.m.st.push_back(str("six")); gen.m.prefix = 0; }
	gen.m.globals[G] = V();
	gen.ops = generate(c, gen, n);
	c.text = strf("heap of %zu objects%s\n", heap, in ? ", inside of a callback called with 5 and \"six\"" : "");
	std::set<std::string> kinds;
	for (auto &o : gen.ops) { c.text += show(o) + "\n"; c.label(o.prog >= 0 ? "programs" : o.name); kinds.insert(o.name); }
	if (change) c.text += "overwrite the variable of the caller\n";
	c.label(in ? "inside a callback" : "between executions");
	c.nontrivial = kinds.size() >= 4;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		Session se(cfg, heap, 2000, 2);
		Driver d{c, {}, heap, 0, in, gen.ops, &se, 0, {}, "", ""};
		d.m.globals[G] = V();
		Result r0 = se.run("(global g ())");
		if (!r0.ok() && r0.exec == 6) c.discard("heap too small");
		if (!r0.ok()) c.fail("the global cannot be made: " + r0.cerr + r0.verr);
		for (auto &p : PROGRAMS) {
			std::vector<unsigned char> bc;
			std::string err;
			if (in) break;
			if (se.compile(p.src, &bc, false, &err)) c.fail(std::string("cannot compile ") + p.src + ": " + err);
			d.codes.push_back(bc);
		}
		{
			eng_buf b = {nullptr, 0, 0};
			se.a->capi(se.s, "key", 0, 0, "g", 1, &b);
			d.gkey = strtol(b.data, nullptr, 10);
			free(b.data);
		}
		se.a->gc(se.s);
		/* a program's code, what an operation makes at once, the frame of the program around the callback */
		d.base = se.a->live_objects(se.s) + (in ? 40 : 12);
		if (!in) {
			size_t base = se.a->stack_len(se.s);
			if (base) c.fail("the stack is not empty at first");
			for (size_t i = 0; i < d.ops.size(); i++) if (!d.step(d.ops[i], i)) break;
			if (!d.discard.empty()) c.discard(d.discard);
			if (!d.failure.empty()) c.fail(std::string(cfg) + ": " + d.failure);
			/* all of it survives a collection */
			std::string got;
			Op o;
			o.name = "garbageCollect";
			if (!d.step(o, d.ops.size())) c.fail(std::string(cfg) + ": " + d.failure);
		}
		else {
			InsideRun ir{&d, change};
			se.a->set_script(se.s, inside, &ir);
			Result r = se.run("(() (var a 1111111) (var b (list 1 \"two\")) (var f (lambda () a)) (var r (script! 5 \"six\")) (gc!) (list r a b (funcall f)))", false, true);
			if (!d.discard.empty()) c.discard(d.discard);
			if (!d.failure.empty()) c.fail(std::string(cfg) + ": " + d.failure);
			if (r.exec == 6 && d.m.reachable() + d.base >= heap) c.discard("out of memory");
			if (!r.ok()) c.fail(std::string(cfg) + strf(": the program around the callback fails: %d %d ", r.compile, r.exec) + r.verr + r.cerr);
			if (change && ir.change != 2) c.fail("harness: the variable was not found");
			V a = integer(change ? 2222222 : 1111111);
			V b = d.m.cons(integer(1), d.m.cons(str("two"), V()));
			V l = d.m.cons(d.m.globals[LONG_MIN], d.m.cons(a, d.m.cons(b, d.m.cons(a, V()))));
			d.m.prefix = 0;
			d.m.st = {l};
			if (r.after != 1) c.fail(std::string(cfg) + strf(": %zu values on the stack at the end", r.after));
			if (d.shape() != d.m.shape()) c.fail(std::string(cfg) + ": the program around the callback returned\n" + d.shape() + "instead of\n" + d.m.shape());
		}
		se.a->soft_reset(se.s);
		long leaked = se.close();
		if (leaked) c.fail(std::string(cfg) + strf(": %ld allocations leaked", leaked));
	}
}

Register r({"V03",
	"histories of calls of the C interface (pushing, copying, setting, popping, inspecting every kind of object; first, rest and elements of lists, vectors, strings and closures; globals; collections; "
	"wrong types, indices outside of the stack or sequence) between executions of programs that share objects with them, or inside of a callback; after each call the status, what it reports and the shape "
	"of the stack (with the identity of conses, vectors and composites) are compared with a model. Heaps of 30 to 1000 objects; running out of memory must be justified and change nothing. "
	"Non-trivial: at least four different operations.",
	capi_run, 12000, 150000, {"default", "inference", "portable", "noopt"},
	"operations that set captured variables of closures, and the number of values duckVM_call leaves, are not claimed"});

}
