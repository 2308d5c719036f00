/* K02: operand encodings; K01: configurations and code sizes; K03: determinism of compilation. */
#include "common.hpp"
#include "hostile.hpp"
#include "places.hpp"

namespace {
int magnitude(Case &c, int cap) {
	Src &s = c.s;
	int n;
	switch (s.weighted({20, 20, 40, 10, 6})) {
	case 0: n = s.range(1, 20); break;
	case 1: n = s.range(118, 136); break;
	case 2: n = s.range(236, 266); break;
	case 3: n = s.range(267, 420); break;
	default: n = s.range(500, 900);
	}
	return std::min(n, cap);
}

struct Pad {
	Case &c;
	Src &s;
	int fresh = 0;
	bool many_args = false, many_captures = false;
	Pad(Case &cc) : c(cc), s(cc.s) {}
	void locals(const SxP &prog) {
		Places p;
		p.body(prog, 1);
		auto b = s.pick(p.bodies);
		int n = magnitude(c, b.loop ? 300 : 1000);
		size_t at = b.from + s.below((uint32_t) (b.p->k.size() - b.from + (b.p->k.size() > b.from ? 0 : 1)));
		std::vector<SxP> v;
		for (int i = 0; i < n; i++) v.push_back(L(I("var"), sx_id(strf("pad%d", fresh++)), N(i & 63)));
		b.p->k.insert(b.p->k.begin() + (long) at, v.begin(), v.end());
		c.label("locals");
	}
	void symbols(const SxP &prog) {
		std::vector<SxP> q;
		int n = magnitude(c, 1000);
		for (int i = 0; i < n; i++) q.push_back(sx_id(strf("sym%d", fresh++)));
		prog->k.insert(prog->k.begin() + 1, L(I("lambda"), L(), L(I("quote"), sx_list(q))));
		c.label("symbols");
	}
	void globals(const SxP &prog) {
		std::vector<SxP> v;
		int n = magnitude(c, 600);
		for (int i = 0; i < n; i++) v.push_back(L(I("global"), sx_id(strf("padg%d", fresh++)), N(i & 63)));
		if (s.chance(50)) { v = {L(I("lambda"), L(), sx_list([&] { std::vector<SxP> k = {I("list")}; for (auto &x : v) k.push_back(x); return k; }()))}; }
		prog->k.insert(prog->k.begin() + 1, v.begin(), v.end());
		c.label("globals");
	}
	/* the second part of a scope becomes a function that captures much */
	void captures(const SxP &prog) {
		Places p;
		p.body(prog, 1);
		std::vector<Places::Body> bs;
		for (auto &b : p.bodies) if (b.p->k.size() >= b.from + 2) bs.push_back(b);
		if (bs.empty()) return;
		auto b = s.pick(bs);
		int n = magnitude(c, 400);
		size_t at = b.from + 1 + s.below((uint32_t) (b.p->k.size() - b.from - 1));
		std::vector<SxP> vars, uses = {I("vector")}, lam = {I("lambda"), L()};
		std::vector<std::string> names;
		for (int i = 0; i < n; i++) { names.push_back(strf("cap%d", fresh++)); vars.push_back(L(I("var"), sx_id(names.back()), N(i & 63))); uses.push_back(sx_id(names.back())); }
		lam.push_back(sx_list(uses));
		lam.insert(lam.end(), b.p->k.begin() + (long) at, b.p->k.end());
		/* the definitions in it must not become a loop's or a scope's last value */
		b.p->k.erase(b.p->k.begin() + (long) at, b.p->k.end());
		b.p->k.insert(b.p->k.begin() + (long) b.from, vars.begin(), vars.end());
		b.p->k.push_back(L(I("funcall"), sx_list(lam)));
		if (n > 200) many_captures = true;
		c.label("captured variables");
	}
	SxP literal() { switch (s.below(3)) { case 0: return N(s.range(0, 200)); case 1: return sx_str("t"); default: return L(I("quote"), I("u")); } }
	void temps(const SxP &prog) {
		Places p;
		p.body(prog, 1);
		if (p.args.empty()) return;
		auto a = s.pick(p.args);
		SxP e = a.p->k[a.i];
		int n = magnitude(c, 700);
		switch (s.below(4)) {
		case 0: {
			std::vector<SxP> k = {I("vector")};
			for (int i = 0; i < n; i++) k.push_back(literal());
			k.push_back(e);
			a.p->k[a.i] = L(I("get-vector-element"), sx_list(k), N(n));
			c.label("vector of many elements");
			break;
		}
		case 1: {
			int at = s.range(0, std::min(n, 400)), m = std::min(n, 400);
			std::vector<SxP> ps, k;
			for (int i = 0; i <= m; i++) { ps.push_back(sx_id(strf("arg%d", fresh++))); k.push_back(i == at ? e : literal()); }
			k.insert(k.begin(), L(I("lambda"), sx_list(ps), ps[(size_t) at]));
			k.insert(k.begin(), I("funcall"));
			a.p->k[a.i] = sx_list(k);
			if (m + 1 > 255) many_args = true;
			c.label("function of many arguments");
			break;
		}
		case 2: {
			std::vector<SxP> k = {I("funcall"), L(I("lambda"), L(I("p"), I("&rest"), I("r")), L(I("if"), L(I("="), L(I("length"), I("r")), N(n)), I("p"), sx_str("wrong length"))), e};
			for (int i = 0; i < n; i++) k.push_back(literal());
			a.p->k[a.i] = sx_list(k);
			if (n + 1 > 255) many_args = true;
			c.label("rest list of many arguments");
			break;
		}
		default: {
			std::vector<SxP> k = {I("list"), e};
			for (int i = 0; i < n; i++) k.push_back(literal());
			a.p->k[a.i] = L(I("car"), sx_list(k));
			c.label("list of many elements");
		}
		}
	}
	void string(const SxP &prog) {
		Places p;
		p.body(prog, 1);
		if (p.args.empty()) return;
		auto a = s.pick(p.args);
		int n = s.chance(70) ? magnitude(c, 1000) : s.range(65500, 65535);
		std::string t;
		for (int i = 0; i < n; i++) t += (char) ('a' + i % 26);
		SxP e = a.p->k[a.i];
		std::string v = strf("str%d", fresh++);
		a.p->k[a.i] = L(L(), L(I("var"), sx_id(v), sx_str(t)), L(I("if"), L(I("="), L(I("length"), sx_id(v)), N(n)), e, sx_str("wrong length")));
		c.label("long string");
	}
};
}

/* every kind of instruction and operand type with operands far away */
namespace {
struct Wide {
	Case &c;
	Src &s;
	std::map<std::string, std::vector<std::string>> vars;
	std::vector<std::string> declared;
	Wide(Case &cc) : c(cc), s(cc.s) {}
	SxP lit(const std::string &k) {
		if (k == "int") return N(s.range(1, 9));
		if (k == "float") { static const char *F[] = {"0.5", "1.5", "2.25", "4.0", "-3.5"}; const char *t = F[s.below(5)]; return sx_float(atof(t), t); }
		if (k == "bool") return sx_bool(s.chance(50));
		if (k == "string") return sx_str(s.chance(50) ? "abcdef" : "uvw");
		if (k == "symbol") return L(I("quote"), I(s.chance(50) ? "sa" : "sb"));
		if (k == "list") return s.chance(50) ? L(I("list"), N(s.range(1, 9)), N(2), N(3)) : L(I("quote"), L(N(s.range(1, 9)), I("q")));
		if (k == "vector") return L(I("vector"), N(s.range(1, 9)), sx_str("v"), N(3));
		if (k == "composite") return L(I("make-instance"), L(I("make-type")), N(s.range(1, 9)), L(I("lambda"), L(I("x")), L(I("list"), I("x"), N(s.range(1, 9)))));
		if (k == "type") return L(I("make-type"));
		if (k == "closure") return L(I("lambda"), L(I("x")), L(I("list"), N(s.range(1, 9)), I("x")));
		if (k == "rest") return L(I("lambda"), L(I("x"), I("&rest"), I("r")), L(I("list"), N(s.range(1, 9)), I("x"), I("r")));
		return L();
	}
	std::string declare(std::vector<SxP> &out, const std::string &k) {
		std::string n = strf("w%s%zu", k.c_str(), declared.size());
		declared.push_back(n);
		out.push_back(L(I("var"), sx_id(n), lit(k)));
		vars[k].push_back(n);
		return n;
	}
	void declare_global(std::vector<SxP> &out, const std::string &k) {
		static const char *P[] = {"wide", "widen", "widening", "abcd", "abcdefg", "wid"};
		std::string n = declared.size() % 2 ? std::string(P[s.below(6)]) : strf("g%s%zu", k.c_str(), declared.size());
		for (auto &d : declared) if (d == n) n = strf("g%s%zu", k.c_str(), declared.size());
		declared.push_back(n);
		out.push_back(L(I("global"), sx_id(n), lit(k)));
		vars[k].push_back(n);
	}
	/* nearly always a variable */
	SxP v(const std::string &k) {
		if (!vars[k].empty() && s.chance(88)) return sx_id(s.pick(vars[k]));
		return lit(k);
	}
	SxP num(bool boolean) { int r = s.below(10); return boolean && r >= 7 ? v("bool") : r % 2 ? v("int") : v("float"); }
	bool is_bool(const std::string &n) { for (auto &x : vars["bool"]) if (x == n) return true; return false; }
	SxP any() { static const char *K[] = {"int", "float", "bool", "string", "symbol", "list", "vector", "closure", "composite", "type", "nil"}; return v(K[s.below(11)]); }
	SxP plain() { static const char *K[] = {"int", "float", "bool", "string", "symbol", "list", "vector", "nil"}; return v(K[s.below(8)]); }
	SxP op(int depth) {
		SxP a, b;
		switch (s.below(depth > 0 ? 30 : 24)) {
		case 0: case 1: { a = num(true); bool ab = a->t == Sx::BOOL || (a->t == Sx::ID && is_bool(a->s)); b = num(!ab); static const char *O[] = {"+", "-", "*", "/"}; const char *o = O[s.below(4)]; if (*o == '/') b = num(false); return L(I(o), a, b); }
		case 2: case 3: { a = num(true); b = num(true); return L(I(s.chance(50) ? "<" : ">"), a, b); }
		case 4: a = plain(); return L(I("="), a, s.chance(30) ? copy_sx(a) : plain());
		case 5: { static const char *K[] = {"int", "float", "bool", "symbol", "list", "vector", "closure", "nil"}; return L(I("not"), v(K[s.below(8)])); }
		case 6: return L(I("null?"), any());
		case 7: return L(I(s.chance(50) ? "car" : "cdr"), v(s.chance(50) ? "list" : "vector"));
		case 8: return L(I("cons"), any(), s.chance(50) ? any() : v("list"));
		case 9: { std::vector<SxP> k = {I(s.chance(50) ? "list" : "vector")}; for (int i = s.range(1, 5); i > 0; i--) k.push_back(any()); return sx_list(k); }
		case 10: return L(I("make-vector"), v("int"), any());
		case 11: return L(I("get-vector-element"), v("vector"), s.chance(70) ? N(s.below(3)) : v("int"));
		case 12: return L(I("set-vector-element"), v("vector"), s.chance(80) ? N(s.below(3)) : v("int"), plain());
		case 13: return L(I(s.chance(50) ? "set-car" : "set-cdr"), s.chance(50) ? L(I("list"), any(), any()) : v("vector"), plain());
		case 14: return L(I(s.chance(50) ? "concatenate" : "="), v("string"), v("string"));
		case 15: return L(I("substring"), v("string"), N(s.below(3)), s.chance(80) ? N(s.range(2, 3)) : v("int"));
		case 16: return L(I("length"), v(s.chance(40) ? "string" : s.chance(50) ? "list" : "vector"));
		case 17: if (s.chance(40)) return L(I("="), L(I("symbol-id"), v("symbol")), L(I("symbol-id"), v("symbol")));
			return s.chance(50) ? L(I("symbol-string"), v("symbol")) : L(I("make-string"), v("symbol")->t == Sx::ID ? L(I("list"), N(65), N(66)) : v("list"));
		case 18: return L(I("="), L(I("type-of"), any()), L(I("type-of"), any()));
		case 19: return L(I("make-instance"), v("type"), any(), v("closure"));
		case 20: return L(I(s.chance(50) ? "composite-value" : "composite-function"), v("composite"));
		case 21: return s.chance(50) ? L(I("set-composite-value"), v("composite"), plain()) : L(I("set-composite-function"), v("composite"), v("closure"));
		case 22: { std::string k = s.chance(50) ? "closure" : s.chance(50) ? "composite" : "rest"; std::vector<SxP> q = {I("funcall"), v(k), any()}; if (k == "rest") for (int i = s.below(4); i > 0; i--) q.push_back(any()); return sx_list(q); }
		case 23: { int how = s.below(3); if (how == 0) return L(I("apply"), v("closure"), L(I("list"), any())); if (how == 1) return L(I("apply"), v("rest"), any(), v("list")); return L(I("apply"), v("composite"), any(), L()); }
		case 24: return L(I("if"), v(s.chance(50) ? "bool" : "nil"), op(depth - 1), op(depth - 1));
		case 25: { static const char *K[] = {"int", "float", "string", "symbol", "list", "vector", "closure", "rest", "composite"}; std::string k = K[s.below(9)]; if (vars[k].empty()) return op(depth - 1); std::string n = s.pick(vars[k]); if (s.chance(50)) return L(I("setq"), sx_id(n), lit(k)); return L(L(), L(I("setq"), sx_id(n), v(k)), op(depth - 1)); }
		case 26: return L(I("funcall"), L(I("lambda"), L(), op(depth - 1), op(depth - 1)));
		case 27: return L(L(), op(depth - 1), op(depth - 1));
		case 28: return L(I("car"), L(I("list"), op(depth - 1), any()));
		default: return L(I("funcall"), L(I("lambda"), L(I("&rest"), I("r")), L(I("funcall"), L(I("lambda"), L(), op(depth - 1))), op(depth - 1)), any(), any());
		}
	}
};
}
/* the text of the disassembler accounts for every byte of the code: an instruction to a line, its name, all its operands in order, strings in quotes */
struct Disassembly {
	std::map<int, std::string> names;
	std::map<std::string, int> opcodes;
	/* "" or what is wrong */
	std::string check(const std::string &d, const std::vector<unsigned char> &bc) {
		const std::string head = "DISASSEMBLY START\n", tail = "DISASSEMBLY END\n";
		size_t at = head.size(), pos = 0;
		if (d.compare(0, at, head)) return "the first line is missing";
		auto hex = [](char h) { return h >= '0' && h <= '9' ? h - '0' : h >= 'A' && h <= 'F' ? h - 'A' + 10 : h >= 'a' && h <= 'f' ? h - 'a' + 10 : -1; };
		while (pos < bc.size()) {
			size_t start = pos;
			std::string name;
			int op = bc[pos++];
			while (at < d.size() && d[at] != ' ' && d[at] != '\n') name += d[at++];
			auto bad = [&](const char *w) { return strf("the instruction at byte %zu (%d, %s): %s", start, op, name.substr(0, 40).c_str(), w); };
			if (name.empty() || at >= d.size()) return bad("no line");
			if (name == "Illegal") return bad("illegal");
			if (!names.count(op)) names[op] = name;
			if (names[op] != name) return bad("another name than before");
			if (!opcodes.count(name)) opcodes[name] = op;
			if (opcodes[name] != op) return bad(strf("the name of instruction %d too", opcodes[name]).c_str());
			if (name == "double-float") pos += 8;
			size_t last = 0;
			while (at < d.size() && d[at] == ' ') {
				at++;
				if (at < d.size() && d[at] == '"') {
					at++;
					for (size_t i = 0; i < last; i++, pos++, at++) {
						if (pos >= bc.size() || at >= d.size()) return bad("a string beyond the end");
						char w = (char) bc[pos];
						if (w == '\t' || w == '\v' || w == '\f') w = ' ';
						char g = d[at] == '\t' || d[at] == '\v' || d[at] == '\f' ? ' ' : d[at];
						if (g != w) return bad("another string");
					}
					if (at >= d.size() || d[at] != '"') return bad("the string isn't closed");
					at++;
					continue;
				}
				last = 0;
				int digits = 0;
				while (at + 1 < d.size() && hex(d[at]) >= 0) {
					if (hex(d[at + 1]) < 0) return bad("half a byte");
					int v = hex(d[at]) * 16 + hex(d[at + 1]);
					if (pos >= bc.size()) return bad("an operand beyond the end");
					if (v != bc[pos]) return bad("another operand");
					last = last << 8 | (size_t) v;
					pos++; at += 2; digits++;
				}
				if (!digits && d[at] != '\n' && d[at] != ' ') return bad("something that isn't an operand");
			}
			if (at >= d.size() || d[at] != '\n') return bad("the line doesn't end");
			at++;
		}
		if (pos != bc.size()) return "the last instruction reaches beyond the end";
		std::string rest = d.substr(at);
		if (rest.size() && !rest.back()) rest.pop_back();
		if (rest != tail) return "something other than the end follows the last instruction";
		return "";
	}
	void run(Case &c, const char *cfg, Session &se, const std::vector<unsigned char> &bc, const char *what) {
		eng_buf o = {nullptr, 0, 0};
		int e = se.a->disassemble(se.s, bc.data(), bc.size(), &o);
		std::string d(o.data ? o.data : "", o.len);
		free(o.data);
		if (e == 6) c.discard("memory");
		if (e) c.fail(strf("configuration %s: %s cannot be disassembled (error %d)\n", cfg, what, e));
		std::string w = check(d, bc);
		if (w.size()) c.fail(strf("configuration %s: the disassembly of %s: %s\n", cfg, what, w.c_str()));
	}
};

static void compile_and_disassemble(Case &c, const char *cfg, Session &se, const std::string &src);
static void wide_run(Case &c, bool huge, bool disassemble = false) {
	Src &s = c.s;
	Wide w(c);
	int n = huge ? s.range(65400, 65700) : s.chance(30) ? s.range(100, 140) : s.range(230, 420);
	static const char *K[] = {"int", "int", "float", "float", "bool", "string", "string", "symbol", "list", "list", "vector", "vector", "closure", "rest", "composite", "type", "nil"};
	std::vector<SxP> body;
	std::vector<const char *> order(K, K + sizeof K / sizeof *K);
	for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.below((uint32_t) i)]);
	bool symbols = s.chance(30);
	for (auto k : order) if (s.chance(symbols ? 50 : 15)) w.declare_global(body, k); else w.declare(body, k);
	int ops = huge ? s.range(30, 60) : s.range(10, 30);
	bool inner = s.chance(50), by_elements = !symbols && s.chance(huge ? 60 : 30);
	std::string keep = "keep";
	/* what stands in the deep place */
	std::vector<SxP> deep;
	int extra = s.below(4);
	for (int i = 0; i < extra; i++) w.declare(deep, K[s.below(17)]);
	size_t mark = w.declared.size() - (size_t) extra;
	for (int i = 0; i < ops; i++) deep.push_back(L(I("emit"), w.op(2)));
	if (huge || s.chance(8)) {
		/* every operator with every pair of kinds of numbers */
		c.label("all pairs of numbers");
		static const char *O[] = {"+", "-", "*", "/", "<", ">", "="}, *T[] = {"int", "float", "bool", "nil", "string"};
		auto var = [&](const char *k) -> SxP { return w.vars[k].empty() ? w.lit(k) : sx_id(s.pick(w.vars[k])); };
		for (int o = 0; o < 7; o++) for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) {
			bool arithmetic = o < 4, numbers = i < 3 && j < 3;
			if ((!numbers && o != 6) || (arithmetic && i == 2 && j == 2)) continue;
			SxP b = var(T[j]);
			/* no division by zero */
			if (o == 3 && j == 2) b = L(I("if"), b, b, N(3));
			deep.push_back(L(I("emit"), L(I(O[o]), var(T[i]), b)));
		}
	}
	/* closures that outlive the deep place */
	int outlive = s.below(4);
	for (int i = 0; i < outlive; i++) deep.push_back(L(I("setq"), sx_id(keep), L(I("cons"), L(I("lambda"), L(), w.op(1)), sx_id(keep))));
	/* after it, only what was declared before */
	for (auto &p : w.vars) { auto &v = p.second; std::vector<std::string> r; for (auto &x : v) { size_t i = 0; while (w.declared[i] != x) i++; if (i < mark) r.push_back(x); } v = r; }
	std::vector<SxP> after;
	for (int i = s.range(1, 4); i > 0; i--) after.push_back(L(I("emit"), w.op(1)));
	auto build = [&](int pad) {
		std::vector<SxP> b = {L(I("var"), sx_id(keep), L())};
		b.insert(b.end(), body.begin(), body.end());
		std::vector<SxP> d = deep;
		d.push_back(N(7));
		if (symbols) {
			if (pad) { std::vector<SxP> q; for (int i = 0; i < pad; i++) q.push_back(sx_id(strf("pad%d", i))); b.insert(b.begin(), L(I("lambda"), L(), L(I("quote"), sx_list(q)))); }
		}
		else if (by_elements) {
			/* elements are evaluated from the last to the first */
			std::vector<SxP> sc = {L()};
			sc.insert(sc.end(), d.begin(), d.end());
			std::vector<SxP> k = {I("list"), sx_list(sc)};
			for (int i = 0; i < pad; i++) k.push_back(N(i & 63));
			d = {L(I("car"), sx_list(k))};
		}
		else for (int i = 0; i < pad; i++) d.insert(d.begin(), L(I("var"), sx_id(strf("pad%d", pad - i)), N(i & 63)));
		if (inner) { d.insert(d.begin(), L()); b.push_back(L(I("emit"), sx_list(d))); }
		else b.insert(b.end(), d.begin(), d.end());
		b.insert(b.end(), after.begin(), after.end());
		b.push_back(L(I("while"), sx_id(keep), L(I("emit"), L(I("funcall"), L(I("car"), sx_id(keep)))), L(I("setq"), sx_id(keep), L(I("cdr"), sx_id(keep)))));
		b.push_back(N(1));
		return wrap(b);
	};
	SxP p0 = build(0);
	c.text = strf("; %d %s between\n", n, symbols ? "symbols" : by_elements ? "list elements" : "variables") + pretty(p0);
	c.label(std::string(symbols ? "symbols" : "distances") + (huge ? " beyond 65535" : " beyond 255"));
	Interp in;
	std::string want = reference(c, in, p0);
	c.nontrivial = std::count(want.begin(), want.end(), '\n') > 5;
	c.publish();
	std::string src = render(build(n));
	for (auto cfg : configs(c, 1)) {
		/* the library's own allocator is slow with so many blocks */
		if (huge && !strcmp(cfg, "portable")) cfg = "default";
		Session se(cfg, huge ? 140000 : 20000, 4000, true, huge ? 128u << 20 : 64u << 20);
		if (disassemble) { compile_and_disassemble(c, cfg, se, src); continue; }
		Result r = se.run(src);
		c.evals++;
		if (r.compile == 6 || r.exec == 6) c.discard("memory");
		if (r.outcome() != want) c.fail(strf("configuration %s\nexpected:\n%s\ngot:\n%s\n%s%s", cfg, want.c_str(), r.outcome().c_str(), r.cerr.substr(0, 2000).c_str(), r.verr.c_str()));
	}
}

static void compile_and_disassemble(Case &c, const char *cfg, Session &se, const std::string &src) {
	std::vector<unsigned char> bc;
	std::string err;
	int e = se.compile(src, &bc, false, &err);
	c.evals++;
	if (e == 6) c.discard("memory");
	if (e && err.find("Too many") != std::string::npos) { c.label("rejected beyond a stated limit"); return; }
	if (e) c.fail(strf("configuration %s: rejected\n", cfg) + err.substr(0, 2000));
	Disassembly().run(c, cfg, se, bc, "the code");
}
static void padded_run(Case &c, bool disassemble) {
	Src &s = c.s;
	Profile pr;
	pr.depth = s.range(2, 4); pr.stmts = s.range(2, 6);
	pr.closures = 16; pr.vecs = 10; pr.comps = 6;
	pr.globals = s.chance(50);
	pr.errors = s.chance(10) ? 3 : 0;
	Gen g(s, pr);
	g.budget = 70;
	SxP prog = g.program();
	Interp in;
	std::string want = reference(c, in, prog);
	SxP p = copy_sx(prog);
	Pad pad(c);
	int n = s.range(1, 3);
	for (int i = 0; i < n; i++) switch (s.weighted({30, 12, 12, 16, 26, 8})) {
		case 0: pad.locals(p); break;
		case 1: pad.symbols(p); break;
		case 2: pad.globals(p); break;
		case 3: pad.captures(p); break;
		case 4: pad.temps(p); break;
		default: pad.string(p);
	}
	std::string src = render(p);
	c.text = "; expected: as this program\n" + pretty(prog) + "\n; padded\n" + render(p);
	c.nontrivial = src.size() > 1500;
	c.publish();
	for (auto cfg : configs(c, 2)) {
		Session se(cfg, 20000, 4000, true, 64u << 20);
		if (disassemble) { compile_and_disassemble(c, cfg, se, src); continue; }
		Result r = se.run(src);
		c.evals++;
		if (r.compile == 6 || r.exec == 6) c.discard("memory");
		if (r.compile && r.cerr.find("Too many") != std::string::npos && (pad.many_args || pad.many_captures)) { c.label("rejected beyond a stated limit"); continue; }
		if (r.outcome() != want) c.fail(strf("configuration %s\nexpected:\n%s\ngot:\n%s\n%s%s", cfg, want.c_str(), r.outcome().c_str(), r.cerr.c_str(), r.verr.c_str()));
	}
}
static void enc_run(Case &c) {
	int kind = c.s.below(1000);
	if (kind < 300) wide_run(c, false);
	else if (kind < 312) wide_run(c, true);
	else padded_run(c, false);
}
static Register r_k02({"K02",
	"generated programs into which up to three paddings are inserted that change no meaning but the operands of the instructions around them: locals in any scope, symbols, globals, captured variables (with the rest of the scope turned into a function), elements and arguments evaluated before or after a subterm, long strings; sizes around 127/128 and 255/256, up to 900 (strings up to 65535); the outcome must be that of the unpadded program by the reference interpreter, or a compile-time error naming the limit when more than 255 arguments or captured variables are needed. Three cases in ten instead apply every kind of operation, with every pair of operand types, to variables that a hundred to four hundred, or (one case in eighty) more than 65500, variables or list elements separate from the place of use, or whose names are numbered after as many symbols. Non-trivial: the padded source has more than 1500 bytes, or more than five observed values.",
	enc_run, 3000, 40000, {"default", "noopt", "portable", "inference"},
	"Captured variables are limited to 255."});

/* ---- K01 ---- */
static SxP filler(int n) {
	/* executed or not, without effect; n bytes longer for n more */
	return L(I("id"), sx_str(std::string((size_t) std::max(n, 0), 'x')));
}
static void sized_run(Case &c, bool disassemble);
static void config_run(Case &c) {
	Src &s = c.s;
	if (s.chance(25)) {
		/* whatever the text is, all configurations agree */
		Hostile h = hostile(s, false, c.thorough);
		c.text = h.text;
		c.label("arbitrary text");
		c.nontrivial = h.text.size() > 20;
		c.publish();
		std::string first;
		for (int k = 0; k < 4; k++) {
			/* `read` with a true second argument is an error exactly where inference isn't built in */
			if (h.text.find("read") != std::string::npos && !strcmp(ALL_CFG[k], "inference")) continue;
			Session se(ALL_CFG[k], 4000, 8000, true, 48u << 20);
			Result r;
			r.compile = se.compile(h.text, &r.bc, false, &r.cerr);
			c.evals++;
			if (r.compile == 6) c.discard("memory");
			std::string o = r.compile ? "compile-error" : "compiles";
			if (!r.compile && !h.loops) {
				se.a->set_budget(se.s, 3000);
				r.exec = se.exec(r.bc);
				if (r.exec == 6) c.discard("memory");
				o = r.exec ? "runtime-error" : "=> " + se.top();
			}
			o = se.trace() + o;
			if (k == 0) first = o;
			else if (o != first) c.fail(strf("configuration %s:\n%s\nconfiguration %s:\n%s\n", ALL_CFG[0], first.c_str(), ALL_CFG[k], o.c_str()));
		}
		return;
	}
	sized_run(c, false);
}
static void sized_run(Case &c, bool disassemble) {
	Src &s = c.s;
	Profile pr;
	pr.depth = s.range(2, 4); pr.stmts = s.range(1, 5);
	pr.globals = s.chance(30);
	pr.errors = s.chance(10) ? 3 : 0;
	Gen g(s, pr);
	g.budget = 60;
	/* prog: statements, a construct around a body with a filler, statements */
	int kind = s.below(12), kind2 = s.chance(30) ? (int) s.below(12) : -1;
	SxP whole = g.program();
	std::vector<SxP> st(whole->k.begin() + 1, whole->k.end());
	size_t cut = s.below((uint32_t) st.size() + 1), cut2 = cut + s.below((uint32_t) (st.size() - cut) + 1);
	/* declarations in the middle part must stay visible afterwards: the last part goes inside too */
	if (s.chance(60)) cut2 = st.size();
	else for (size_t i = cut; i < cut2; i++) if (st[i]->t == Sx::LIST && st[i]->k.size() && st[i]->k[0]->t == Sx::ID && (bare(st[i]->k[0]->s) == "var" || bare(st[i]->k[0]->s) == "defun")) cut2 = i;
	std::vector<SxP> mid(st.begin() + (long) cut, st.begin() + (long) cut2);
	auto around = [&](int k, std::vector<SxP> b) -> SxP {
		auto cat = [](std::vector<SxP> a, const std::vector<SxP> &b2) { a.insert(a.end(), b2.begin(), b2.end()); return sx_list(a); };
		SxP scope = cat({L()}, b), t = L(I("="), N(1), L(I("id"), N(1))), f = L(I("="), N(1), L(I("id"), N(2)));
		switch (k) {
		case 0: return cat({I("when"), t}, b);
		case 1: return cat({I("unless"), f}, b);
		case 2: return L(I("if"), t, scope, sx_str("else"));
		case 3: return L(I("if"), f, sx_str("then"), scope);
		case 4: { std::vector<SxP> w = {I("while"), L(I("<"), I("wi"), N(2)), L(I("setq"), I("wi"), L(I("+"), I("wi"), N(1)))}; return L(L(), L(I("var"), I("wi"), N(0)), cat(w, b)); }
		case 5: return L(I("funcall"), cat({I("lambda"), L()}, b));
		case 6: return L(L(), cat({I("defun"), I("big-function"), L()}, b), L(I("big-function")));
		case 7: return L(I("and"), t, scope);
		case 8: return L(I("or"), f, scope);
		case 9: return L(I("list"), L(I("if"), f, scope, N(3)), L(I("if"), t, N(5), N(6)));
		case 10: return L(L(), cat({I("defun"), I("rec-function"), L(I("rn"))}, {L(I("if"), L(I("<"), I("rn"), N(1)), scope, L(I("rec-function"), L(I("-"), I("rn"), N(1))))}), L(I("rec-function"), N(2)));
		default: return L(I("list"), L(I("not"), scope), L(I("funcall"), cat({I("lambda"), L(I("&rest"), I("rr")), I("rr")}, {}), N(1)));
		}
	};
	size_t fp = s.below((uint32_t) mid.size() + 1);
	auto build = [&](int n, bool with_body) {
		std::vector<SxP> b = with_body ? mid : std::vector<SxP>{};
		if (with_body) b.insert(b.begin() + (long) std::min(fp, b.size()), filler(n));
		/* never the value */
		if (!with_body || fp + 1 >= b.size()) b.push_back(N(0));
		SxP x = around(kind, b);
		if (kind2 >= 0) x = around(kind2, {x});
		std::vector<SxP> r(st.begin(), st.begin() + (long) cut);
		r.push_back(x);
		if (with_body) r.insert(r.end(), st.begin() + (long) cut2, st.end());
		return wrap(r);
	};
	static const char *const KN[] = {"when", "unless", "if, then", "if, else", "while", "lambda", "defun", "and", "or", "if in a list", "recursion", "not"};
	c.label(std::string("around ") + KN[kind]);
	SxP p0 = build(100, true);
	c.text = pretty(p0);
	Interp in;
	std::string want = reference(c, in, p0);
	/* without symbol names */
	std::string want_stripped;
	bool strip = false;
	if (s.chance(50)) {
		Interp in2;
		in2.stripped = true;
		try { want_stripped = ref_outcome(in2, p0); strip = true; } catch (RefLimit &) {} catch (RefUnspecified &) {}
	}
	c.publish();
	/* how long is the body? */
	size_t with, without = 0;
	{
		Session se("default", 8000);
		std::vector<unsigned char> bc;
		if (se.compile(render(p0), &bc)) c.fail("rejected in configuration default\n");
		with = bc.size();
		Session se2("default", 8000);
		std::vector<unsigned char> bc2;
		if (se2.compile(render(build(0, false)), &bc2)) without = 0; else without = bc2.size();
	}
	int body = (int) with - (int) without - 100;
	static const int TARGET[] = {127, 255, 32767, 65535};
	int t = s.weighted({35, 5, 50, 10});
	int n0 = TARGET[t] - body;
	if (n0 < 12) { n0 = 32767 - body; t = 2; }
	if (n0 < 12) c.discard("large body");
	c.label(strf("size near %d", TARGET[t]));
	c.nontrivial = true;
	int width = t >= 2 ? 7 : 12, shift = s.range(-6, 6), step = s.range(1, 2);
	for (int d = -width; d <= width; d += step) {
		int n = n0 + shift + d;
		if (n > 65530) n = 65530 - (n & 15);
		std::string src = render(build(n, true));
		if (disassemble) {
			Session se("noopt", 4000);
			compile_and_disassemble(c, "noopt", se, src);
			if (d > -width) break;
			continue;
		}
		auto cfgs = configs(c, c.thorough ? 4 : 2);
		for (auto cfg : cfgs) {
			Session se(cfg, 4000);
			int flags = (int) s.below(4) & (strip ? 3 : 2);
			se.a->set_flags(se.s, flags);
			const std::string &w = flags & 1 ? want_stripped : want;
			Result r = se.run(src);
			c.evals++;
			if (r.compile == 6 || r.exec == 6) c.discard("memory");
			if (r.outcome() != w) { c.text = src.size() < 8000 ? pretty(build(n, true)) : pretty(p0); c.fail(strf("configuration %s%s%s, filler of %d bytes\nexpected:\n%s\ngot:\n%s\n%s%s", cfg, flags & 1 ? ", symbol names stripped" : "", flags & 2 ? ", with disassembly" : "", n, w.c_str(), r.outcome().c_str(), r.cerr.c_str(), r.verr.c_str())); }
		}
	}
}
static Register r_k01({"K01",
	"generated programs of which a part stands inside one or two of twelve constructs (branches, loops, functions, short-circuit operators) together with a filler whose length is swept so that the enclosed code has sizes around 127, 255, 32767 and 65535 bytes; the outcome in randomly chosen configurations, with symbol names kept or stripped and with disassembly on or off, must be that of the reference interpreter. A quarter of the cases are arbitrary texts (programs, near-programs, broken forms), for which all four configurations must agree with each other in effects and outcome. Non-trivial: sized programs; texts longer than twenty bytes.",
	config_run, 1500, 20000, {"default", "noopt", "portable", "inference"},
	""});

/* ---- K03 ---- */
static void determinism_run(Case &c) {
	Src &s = c.s;
	int kind = s.below(1000);
	if (kind < 60) { c.label("disassembly of wide operands"); wide_run(c, kind < 6, true); return; }
	if (kind < 100) { c.label("disassembly of wide operands"); padded_run(c, true); return; }
	if (kind < 120) { c.label("disassembly of long jumps"); sized_run(c, true); return; }
	int n = s.range(1, c.thorough ? 6 : 4);
	struct P { std::string src, want; bool ct; };
	std::vector<P> ps;
	std::vector<Interp> ins((size_t) n);
	for (int i = 0; i < n; i++) {
		if (s.chance(30)) {
			std::string src, want;
			std::string keep = c.text;
			macro_source(c, &src, &want);
			c.text = keep + c.text + "\n----\n";
			ps.push_back({src, want, want.find("ct:") != std::string::npos});
			c.label("with macros");
		}
		else {
			Profile pr;
			pr.depth = s.range(2, 4); pr.stmts = 5; pr.wide = s.chance(10) ? 20 : 0;
			pr.errors = s.chance(15) ? 4 : 0;
			pr.globals = s.chance(30);
			Gen g(s, pr);
			g.budget = 90;
			g.fresh = 1000 * i;
			SxP p = g.program();
			Interp in;
			std::string w = reference(c, in, p);
			ps.push_back({render(p), w, false});
			c.text += pretty(p) + "\n----\n";
		}
	}
	c.nontrivial = n > 1 || ps[0].src.size() > 300;
	c.publish();
	auto strip_ct = [](const std::string &t) { std::string r; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size() - 1; std::string l = t.substr(i, e - i + 1); if (l.compare(0, 3, "ct:")) r += l; i = e + 1; } return r; };
	for (auto cfg : configs(c, 1)) {
		/* twice in equal states */
		Session a(cfg, 6000), b(cfg, 6000);
		std::vector<std::vector<unsigned char>> bc((size_t) n);
		for (int i = 0; i < n; i++) {
			std::vector<unsigned char> x;
			std::string err;
			int e1 = a.compile(ps[(size_t) i].src, &bc[(size_t) i], false, &err), e2 = b.compile(ps[(size_t) i].src, &x);
			c.evals += 2;
			if (e1) c.fail(strf("configuration %s: source %d is rejected\n", cfg, i + 1) + err);
			if (e1 != e2 || x != bc[(size_t) i]) c.fail(strf("configuration %s: compiling source %d twice in equal states gives different code\n", cfg, i + 1));
			a.trace(); b.trace();
		}
		/* the session that compiled and one that only compiled in the same order: any order, any number of executions */
		std::vector<int> order;
		int m = s.range(n, 3 * n + 2);
		for (int i = 0; i < m; i++) order.push_back((int) s.below((uint32_t) n));
		int k = 0;
		for (int i : order) {
			k++;
			Session &se = s.chance(50) ? a : b;
			Result r;
			r.before = se.a->stack_len(se.s);
			se.a->set_budget(se.s, 200000);
			r.exec = se.exec(bc[(size_t) i]);
			r.verr = se.errors(1);
			r.trace = se.trace();
			r.after = se.a->stack_len(se.s);
			if (r.exec == 0) { r.value = r.after > r.before ? se.top() : "<nothing>"; if (r.after > r.before) se.a->pop(se.s, r.after - r.before); }
			c.evals++;
			std::string want = strip_ct(ps[(size_t) i].want);
			if (r.outcome() != want) c.fail(strf("configuration %s: execution %d, of source %d\nexpected:\n%s\ngot:\n%s\n%s", cfg, k, i + 1, want.c_str(), r.outcome().c_str(), r.verr.c_str()));
			if (r.exec) se.a->soft_reset(se.s);
		}
		/* a source compiled later means the same again */
		{
			int i = (int) s.below((uint32_t) n);
			Result r = a.run(ps[(size_t) i].src);
			c.evals++;
			if (r.outcome() != ps[(size_t) i].want && strip_ct(r.outcome()) != strip_ct(ps[(size_t) i].want)) c.fail(strf("configuration %s: source %d compiled again\nexpected:\n%s\ngot:\n%s\n", cfg, i + 1, ps[(size_t) i].want.c_str(), r.outcome().c_str()));
			if (r.exec > 0) a.a->soft_reset(a.s);
		}
		/* disassembly */
		Disassembly da;
		for (int i = 0; i < n; i++) da.run(c, cfg, a, bc[(size_t) i], strf("source %d", i + 1).c_str());
	}
}
static Register r_k03({"K03",
	"one to four generated sources, some with macros, compiled in two fresh sessions of one configuration: the code must be identical; then the code is executed repeatedly in random order, in either session, each time with the outcome of the reference interpreter, which starts afresh; one source is compiled and run again; every code is disassembled, and the text has to account for every byte of it. A few cases are programs with operands of every width, which are only compiled and disassembled. Non-trivial: several sources or one of more than 300 bytes.",
	determinism_run, 2500, 30000, {"default", "noopt", "portable", "inference"},
	"Sources of one case define the globals they read themselves, so repeated execution starts from equal states."});
