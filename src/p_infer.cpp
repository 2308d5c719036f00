/* T03: a program written without its inferable parentheses means what the explicit program means. */
#include "places.hpp"
#include <functional>

namespace {
/* The type rules of docs/parenthesis-inference.md, used backwards: they say which parentheses of a program may be left
   out, and where a `#` is needed. */
struct Unparen {
	struct Type {
		enum K { LIT, VAR, FN } k = LIT;
		std::string pos;              /* FN: one of I, L for each argument */
		bool variadic = false;
		int def = 0;
		char rest = 'I';
		enum S { NONE, DECLARES, PARAMS, NAMED_PARAMS, TWO, AROUND, TYPED } script = NONE;
	};
	Case &c;
	Src &s;
	int omit;                         /* % of omissible parentheses left out */
	int lit = 3, redeclare = 0;
	std::vector<std::map<std::string, Type>> env;
	std::vector<std::string> user_fns;
	int data = 0;
	int omitted = 0, hashes = 0, whole = 0, declared = 0, scripts = 0;
	Unparen(Case &cc, int o) : c(cc), s(cc.s), omit(o) { env.push_back({}); }

	static Type parse(const std::string &t) {
		Type r;
		if (t == "L") return r;
		if (t == "I") { r.k = Type::VAR; return r; }
		r.k = Type::FN;
		for (size_t i = 1; i + 1 < t.size(); i++) {
			if (t[i] == 'I' || t[i] == 'L') r.pos += t[i];
			if (t[i] == '&') { r.variadic = true; r.def = atoi(t.c_str() + i + 6); r.rest = t[t.size() - 2]; break; }
		}
		return r;
	}
	static std::string text(const Type &t) {
		if (t.k != Type::FN) return t.k == Type::LIT ? "L" : "I";
		std::string r;
		for (char ch : t.pos) { if (r.size()) r += ' '; r += ch; }
		if (t.variadic) r += strf("%s&rest %d %c", r.size() ? " " : "", t.def, t.rest);
		return "(" + r + ")";
	}
	static SxP form(const Type &t) {
		if (t.k != Type::FN) return I(t.k == Type::LIT ? "L" : "I");
		std::vector<SxP> k;
		for (char ch : t.pos) k.push_back(sx_id(std::string(1, ch)));
		if (t.variadic) { k.push_back(I("&rest")); k.push_back(N(t.def)); k.push_back(sx_id(std::string(1, t.rest))); }
		return sx_list(k);
	}
	static const std::vector<std::pair<const char *, const char *>> &keywords() {
		static const std::vector<std::pair<const char *, const char *>> K = {
			{"nop", "()"}, {"funcall", "(I &rest 1 I)"}, {"apply", "(I &rest 1 I)"}, {"var", "(L I)"}, {"global", "(L I)"}, {"setq", "(L I)"}, {"not", "(I)"},
			{"*", "(I I)"}, {"/", "(I I)"}, {"+", "(I I)"}, {"-", "(I I)"}, {"while", "(I &rest 1 I)"}, {"if", "(I I I)"}, {"when", "(I &rest 1 I)"}, {"unless", "(I &rest 1 I)"},
			{"=", "(I I)"}, {"<", "(I I)"}, {">", "(I I)"}, {"defun", "(L L &rest 1 I)"}, {"lambda", "(L &rest 1 I)"}, {"defmacro", "(L L &rest 1 I)"}, {"noscope", "(&rest 0 I)"},
			{"comptime", "(&rest 1 I)"}, {"quote", "(I)"}, {"list", "(&rest 0 I)"}, {"vector", "(&rest 0 I)"}, {"make-vector", "(I I)"}, {"get-vector-element", "(I I)"}, {"set-vector-element", "(I I I)"},
			{"cons", "(I I)"}, {"car", "(I)"}, {"cdr", "(I)"}, {"set-car", "(I I)"}, {"set-cdr", "(I I)"}, {"null?", "(I)"}, {"type-of", "(I)"}, {"make-type", "()"}, {"make-instance", "(I I I)"},
			{"composite-value", "(I)"}, {"composite-function", "(I)"}, {"set-composite-value", "(I I)"}, {"set-composite-function", "(I I)"}, {"make-string", "(I)"}, {"concatenate", "(I I)"},
			{"substring", "(I I I)"}, {"length", "(I)"}, {"symbol-string", "(I)"}, {"symbol-id", "(I)"}};
		return K;
	}
	static Type keyword(const std::string &n, const char *t) {
		Type r = parse(t);
		if (n == "var" || n == "global") r.script = Type::DECLARES;
		if (n == "defun" || n == "defmacro") r.script = Type::NAMED_PARAMS;
		if (n == "lambda") r.script = Type::PARAMS;
		return r;
	}
	void base(bool full) {
		for (auto n : {"declare", "infer-and-get-next-argument", "declare-identifier", "declaration-scope"}) {
			std::string t = n == std::string("declare") ? "(L L &rest 0 I)" : n == std::string("declare-identifier") ? "(I I)" : n == std::string("declaration-scope") ? "(&rest 1 I)" : "()";
			env[0][n] = env[0]["__" + std::string(n)] = parse(t);
		}
		if (!full) return;
		for (auto &k : keywords()) env[0][k.first] = env[0]["__" + std::string(k.first)] = keyword(k.first, k.second);
		env[0]["__error"] = parse("(I)");
		static const std::vector<std::pair<const char *, const char *>> C = {{"gensym", "()"}, {"intern", "(I)"}, {"read", "(I I)"}, {"emit", "(I)"}, {"id", "(I)"}, {"second", "(I I)"}, {"pick3", "(I I I)"}, {"gc!", "()"}, {"ccall0", "(I)"}, {"ccall1", "(I I)"}, {"ccall2", "(I I I)"}, {"boom", "()"}, {"mkuser", "(I)"}};
		for (auto &k : C) env[0][k.first] = parse(k.second);
	}
	const Type *find(const std::string &n) {
		for (size_t i = env.size(); i-- > 0;) { auto it = env[i].find(n); if (it != env[i].end()) return &it->second; }
		return nullptr;
	}
	void decl(const std::string &n, const Type &t) { env.back()[n] = t; if (t.k == Type::FN) user_fns.push_back(n); }
	static SxP hash(const SxP &x) { return sx_id("#" + render(x)); }
	static bool declares(const SxP &x) {
		if (x->t == Sx::ID) { std::string h = bare(x->s); return h == "var" || h == "global" || h == "defun" || h == "defmacro" || h == "declare" || h[0] == '&' || h.compare(0, 3, "dm-") == 0; }
		for (auto &k : x->k) if (declares(k)) return true;
		return false;
	}
	static Type of_params(const SxP &p) {
		Type t;
		t.k = Type::FN;
		for (auto &q : p->k) { if (q->s == "&rest") { t.variadic = true; t.def = 0; t.rest = 'I'; break; } t.pos += 'I'; }
		return t;
	}
	Type random_type() {
		Type t;
		switch (s.below(8)) {
		case 0: return t;
		case 1: t.k = Type::VAR; return t;
		default: break;
		}
		t.k = Type::FN;
		int n = s.range(0, 4);
		for (int i = 0; i < n; i++) t.pos += s.chance(15) ? 'L' : 'I';
		if (s.chance(40)) { t.variadic = true; t.def = s.chance(10) ? -1 : s.range(0, 4); t.rest = s.chance(10) ? 'L' : 'I'; }
		return t;
	}
	/* one element of a place where inference is on; `head`: it may not begin with a name */
	void conv(const SxP &x, std::vector<SxP> &out, bool head = false) {
		if (x->t == Sx::ID) {
			const Type *t = find(x->s);
			if (head || !t || t->k == Type::FN || s.chance(2)) { hashes++; out.push_back(hash(x)); }
			else out.push_back(x);
			return;
		}
		if (x->t != Sx::LIST || x->k.empty()) { out.push_back(x); return; }
		if (lit && s.chance(lit) && !declares(x)) { whole++; out.push_back(hash(x)); return; }
		const SxP &h = x->k[0];
		if (h->t != Sx::ID) { out.push_back(scope(x)); return; }
		const Type *tp = find(h->s);
		size_t n = x->k.size() - 1;
		bool literal_head = !tp || tp->k == Type::VAR || (bare(h->s) != "declare" && s.chance(2));
		if (!literal_head && tp->k == Type::FN && (tp->variadic ? n < tp->pos.size() : n != tp->pos.size())) literal_head = true;
		std::vector<SxP> items;
		if (literal_head) {
			hashes++;
			items.push_back(hash(h));
			data += bare(h->s) == "quote";
			for (size_t i = 1; i <= n; i++) conv(x->k[i], items);
			data -= bare(h->s) == "quote";
			out.push_back(sx_list(items));
			return;
		}
		items.push_back(h);
		if (tp->k == Type::LIT) {
			for (size_t i = 1; i <= n; i++) conv(x->k[i], items);
			out.push_back(sx_list(items));
			return;
		}
		Type t = *tp;
		auto arg = [&](size_t i) { char k = i < t.pos.size() ? t.pos[i] : t.rest; if (k == 'L') items.push_back(x->k[i + 1]); else conv(x->k[i + 1], items); };
		bool quoted = bare(h->s) == "quote";
		data += quoted;
		auto rest = [&](size_t from) { for (size_t i = from; i < n; i++) arg(i); };
		Type literal;
		switch (t.script) {
		case Type::NONE: rest(0); break;
		case Type::DECLARES: arg(0); decl(x->k[1]->s, literal); rest(1); break;
		case Type::TWO: arg(0); decl(x->k[1]->s, literal); arg(1); decl(x->k[2]->s, literal); rest(2); break;
		case Type::AROUND: arg(0); arg(1); env.push_back({}); decl(x->k[1]->s, literal); rest(2); env.pop_back(); break;
		case Type::NAMED_PARAMS: case Type::PARAMS: case Type::TYPED: {
			size_t p = t.script == Type::PARAMS ? 0 : 1;
			if (p) arg(0);
			arg(p);
			Type ft = t.script == Type::TYPED ? parse(render(x->k[3])) : of_params(x->k[p + 1]);
			if (t.script == Type::TYPED) arg(2);
			env.push_back({});
			for (auto &q : x->k[p + 1]->k) if (q->s != "&rest") decl(q->s, literal);
			env.back()["self"] = ft;
			rest(t.script == Type::TYPED ? 3 : p + 1);
			env.pop_back();
			if (p) decl(x->k[1]->s, ft);
			break;
		}
		}
		data -= quoted;
		bool may = !head && (!t.variadic || (t.def >= 0 && n == t.pos.size() + (size_t) t.def));
		if (may && s.chance(omit)) { omitted++; for (auto &i : items) out.push_back(i); }
		else out.push_back(sx_list(items));
		std::string hn = bare(h->s);
		if (hn == "declare" && n >= 2) decl(x->k[1]->s, parse(render(x->k[2])));
	}
	SxP declaration(const std::string &n, const Type &t) {
		declared++;
		decl(n, t);
		return L(I(s.chance(20) ? "__declare" : "declare"), sx_id(n), form(t));
	}
	void put(const SxP &call, std::vector<SxP> &out) { if (s.chance(omit)) { omitted++; for (auto &k : call->k) out.push_back(k); } else out.push_back(call); }
	SxP scope(const SxP &x) {
		std::vector<SxP> k;
		env.push_back({});
		for (size_t i = 0; i < x->k.size(); i++) {
			if (i && !data && redeclare && s.chance(redeclare)) {
				std::string n;
				if (user_fns.size() && s.chance(75)) n = user_fns[s.below((uint32_t) user_fns.size())];
				else if (s.chance(70)) { auto &kw = s.pick(keywords()); n = kw.first; if (n == "quote" || n == "noscope") n = "+"; }
				else n = strf("unused%d", s.below(4));
				put(declaration(n, random_type()), k);
			}
			if (i && !data && planted.empty() && fault && faults_left-- == 0) plant(k);
			conv(x->k[i], k, i == 0);
		}
		if (!data && planted.empty() && fault && faults_left <= 0 && s.chance(60)) {
			/* the enclosing form ends before the last call has its arguments */
			std::vector<std::string> f;
			std::set<std::string> seen;
			for (size_t i = env.size(); i-- > 0;) for (auto &e : env[i]) if (seen.insert(e.first).second && e.second.k == Type::FN && e.second.script == Type::NONE && (e.second.pos.size() || (e.second.variadic && e.second.def > 0)) && bare(e.first) != "declare" && e.second.pos.find('L') == std::string::npos) f.push_back(e.first);
			if (f.size()) {
				planted = "a call without parentheses and with too few arguments";
				const Type &t = *find(f[s.below((uint32_t) f.size())]);
				std::string name;
				for (auto &n : f) if (find(n) == &t) name = n;
				k.push_back(sx_id(name));
				int n = (int) t.pos.size() + (t.variadic && t.def > 0 ? t.def : 0);
				for (int i = s.range(1, n); i < n; i++) k.push_back(N(i));
			}
		}
		env.pop_back();
		return sx_list(k);
	}
	/* ---- things the inferrer must reject ---- */
	bool fault = false;
	int faults_left = 0;
	std::string planted;
	void plant(std::vector<SxP> &k) {
		std::vector<std::pair<std::string, Type>> fns, lits;
		std::set<std::string> seen;
		for (size_t i = env.size(); i-- > 0;) for (auto &e : env[i]) if (seen.insert(e.first).second && bare(e.first) != "declare" && e.first.find("script") == std::string::npos) (e.second.k == Type::FN ? fns : lits).push_back(e);
		auto args = [&](int n) { std::vector<SxP> r; for (int i = 0; i < n; i++) r.push_back(s.chance(70) ? N(s.range(0, 9)) : sx_str("x")); return r; };
		switch (s.below(5)) {
		case 0: planted = "an undeclared name"; k.push_back(I("undeclared-name")); return;
		case 1: { planted = "a call of an undeclared name"; std::vector<SxP> e = {I("undeclared-name")}; for (auto &a : args(s.range(0, 3))) e.push_back(a); k.push_back(sx_list(e)); return; }
		case 2: case 3: {
			auto &f = fns[s.below((uint32_t) fns.size())];
			if (f.second.script != Type::NONE) { planted = "an undeclared name"; k.push_back(I("undeclared-name")); return; }
			bool many = !f.second.variadic && (f.second.pos.empty() || s.chance(50));
			if (f.second.pos.empty() && !many) { planted = "an undeclared name"; k.push_back(I("undeclared-name")); return; }
			int n = many ? (int) f.second.pos.size() + s.range(1, 3) : s.range(0, (int) f.second.pos.size() - 1);
			planted = many ? "too many arguments in parentheses" : "too few arguments in parentheses";
			std::vector<SxP> e = {sx_id(f.first)};
			for (auto &a : args(n)) e.push_back(a);
			k.push_back(sx_list(e));
			return;
		}
		default:
			planted = "a call of a name of type I";
			k.push_back(L(I("declare"), I("plain-name"), I("I")));
			{ std::vector<SxP> e = {I("plain-name")}; for (auto &a : args(s.range(0, 2))) e.push_back(a); k.push_back(sx_list(e)); }
		}
	}
};

/* Macros whose declarations are made by scripts.  The explicit program has no declarations. */
struct Scripted {
	Unparen &u;
	Src &s;
	/* rewrites some definitions of `x` to uses of the macros; what the macros expand to is what was there */
	std::set<std::string> used;
	int n = 0;
	Scripted(Unparen &uu) : u(uu), s(uu.s) {}
	SxP rewrite(const SxP &x, bool st) {
		if (x->t != Sx::LIST || x->k.empty()) return x;
		std::vector<SxP> k = x->k;
		if (k[0]->t != Sx::ID) {
			for (size_t i = 0; i < k.size(); i++) k[i] = rewrite(k[i], i > 0);
			return sx_list(k);
		}
		std::string h = bare(k[0]->s);
		if (h == "quote" || h == "defmacro" || h == "comptime") return x;
		size_t from = h == "var" || h == "setq" || h == "global" || h == "lambda" ? 2 : h == "defun" ? 3 : 1;
		bool bodies = h == "lambda" || h == "defun";
		for (size_t i = from; i < k.size(); i++) k[i] = rewrite(k[i], bodies || ((h == "while" || h == "when" || h == "unless") && i > 1));
		if (st && h == "var" && s.chance(35)) { used.insert("dm-var"); n++; k[0] = I("dm-var"); return sx_list(k); }
		if (st && h == "defun" && s.chance(40)) {
			used.insert("dm-fun");
			n++;
			Unparen::Type t = s.chance(75) ? Unparen::of_params(k[2]) : u.random_type();
			if (t.variadic) t.def = s.range(0, 3);
			k[0] = I("dm-fun");
			k.insert(k.begin() + 3, Unparen::form(t));
			return sx_list(k);
		}
		return sx_list(k);
	}
	/* definitions of the macros, in front of the program, and their declarations (only for the inferrer) */
	void defs(std::vector<SxP> &explicit_defs, std::vector<SxP> &declarations) {
		auto Q = [](const SxP &x) { return L(I("quote"), x); };
		auto next = []() { return L(I("infer-and-get-next-argument")); };
		SxP lit = Q(I("L"));
		if (used.count("dm-var")) {
			explicit_defs.push_back(L(I("defmacro"), I("dm-var"), L(I("name"), I("value")), L(I("list"), Q(I("var")), I("name"), I("value"))));
			declarations.push_back(L(I("declare"), I("dm-var"), L(I("L"), I("I")), L(I("declare-identifier"), next(), lit)));
		}
		if (used.count("dm-fun")) {
			explicit_defs.push_back(L(I("defmacro"), I("dm-fun"), L(I("name"), I("params"), I("type"), I("&rest"), I("body")), L(I("cons"), Q(I("defun")), L(I("cons"), I("name"), L(I("cons"), I("params"), I("body"))))));
			/* as in the manual */
			declarations.push_back(L(I("declare"), I("dm-fun"), L(I("L"), I("L"), I("L"), I("&rest"), N(1), I("I")),
				L(L(I("var"), I("name"), next()), L(I("var"), I("parameters"), next()), L(I("var"), I("type"), next()),
				  L(I("declaration-scope"),
				    L(I("while"), I("parameters"),
				      L(I("var"), I("parameter"), L(I("car"), I("parameters"))),
				      L(I("unless"), L(I("="), Q(I("&rest")), I("parameter")), L(I("declare-identifier"), I("parameter"), lit)),
				      L(I("setq"), I("parameters"), L(I("cdr"), I("parameters")))),
				    L(I("declare-identifier"), Q(I("self")), I("type")),
				    next()),
				  L(I("declare-identifier"), I("name"), I("type")))));
		}
	}
};
}

/* Gives variables and parameters the names of functions: the name of a variable takes a function's type away. */
struct Shadow {
	std::map<std::string, std::string> to;
	std::set<std::string> vars, funs;
	bool clash = false;
	static bool call_of(const SxP &x, const char *n) { return x->t == Sx::LIST && x->k.size() && x->k[0]->t == Sx::ID && bare(x->k[0]->s) == n; }
	void names(const SxP &x) {
		if (x->t != Sx::LIST || x->k.empty() || call_of(x, "quote") || call_of(x, "defmacro") || call_of(x, "comptime")) return;
		if (call_of(x, "var")) vars.insert(x->k[1]->s);
		if (call_of(x, "defun")) { funs.insert(x->k[1]->s); for (auto &q : x->k[2]->k) vars.insert(q->s); }
		if (call_of(x, "lambda")) for (auto &q : x->k[1]->k) vars.insert(q->s);
		for (auto &k : x->k) names(k);
	}
	std::string of(const std::string &n) { auto it = to.find(n); return it == to.end() ? n : it->second; }
	void add(std::set<std::string> &d, const std::string &n) { if (!d.insert(n).second) clash = true; }
	SxP params(const SxP &x, std::set<std::string> &d) { std::vector<SxP> k; for (auto &q : x->k) { std::string n = of(q->s); add(d, n); k.push_back(sx_id(n)); } return sx_list(k); }
	SxP apply(const SxP &x, std::set<std::string> &d) {
		if (x->t == Sx::ID) return to.count(x->s) ? sx_id(of(x->s)) : x;
		if (x->t != Sx::LIST || x->k.empty() || call_of(x, "quote") || call_of(x, "defmacro") || call_of(x, "comptime")) return x;
		std::vector<SxP> k = x->k;
		std::set<std::string> in, *cur = &d;
		size_t from = 1;
		if (x->k[0]->t != Sx::ID) { cur = &in; k[0] = apply(k[0], in); }
		else if (call_of(x, "var")) { std::string n = of(k[1]->s); add(d, n); k[1] = sx_id(n); from = 2; }
		else if (call_of(x, "defun")) { add(d, k[1]->s); k[2] = params(k[2], in); cur = &in; from = 3; }
		else if (call_of(x, "lambda")) { k[1] = params(k[1], in); cur = &in; from = 2; }
		else if (call_of(x, "while") || call_of(x, "when") || call_of(x, "unless")) cur = &in;
		for (size_t i = from; i < k.size(); i++) k[i] = apply(k[i], *cur);
		return sx_list(k);
	}
	static SxP make(Case &c, const SxP &prog) {
		Src &s = c.s;
		Shadow h;
		h.names(prog);
		std::vector<std::string> v;
		for (auto &n : h.vars) if (n != "&rest" && n != "self" && !h.funs.count(n)) v.push_back(n);
		if (v.empty()) return prog;
		static const std::vector<std::string> K = {"car", "cdr", "list", "length", "+", "not", "cons", "emit", "id", "second", "vector", "null?", "=", "<", "make-vector", "funcall", "nop", "gensym", "pick3", "make-type", "apply"};
		std::vector<std::string> f(h.funs.begin(), h.funs.end());
		std::set<std::string> used = h.vars;
		for (int i = s.range(1, 3); i > 0; i--) {
			std::string from = s.pick(v), t = f.size() && s.chance(50) ? s.pick(f) : s.pick(K);
			if (h.to.count(from) || !used.insert(t).second) continue;
			h.to[from] = t;
		}
		std::set<std::string> top;
		SxP r = h.apply(prog, top);
		if (h.clash || h.to.empty()) return prog;
		c.label("a variable with the name of a function");
		return r;
	}
};

/* Other names, given by the host together with their types, for keywords and C functions. */
struct Hosted {
	struct Name { std::string kind, name, type; };
	std::vector<Name> names;
	std::map<std::string, std::vector<std::string>> by;
	int uses = 0;
	SxP apply(Src &s, const SxP &x) {
		if (x->t != Sx::LIST || x->k.empty()) return x;
		std::vector<SxP> k = x->k;
		if (k[0]->t == Sx::ID) {
			std::string h = bare(k[0]->s);
			if (h == "quote" || h == "defmacro" || h == "comptime") return x;
			auto it = by.find(h);
			if (it != by.end() && s.chance(70)) { uses++; k[0] = sx_id(s.pick(it->second)); }
			size_t from = h == "lambda" ? 2 : h == "defun" ? 3 : 1;
			for (size_t i = from; i < k.size(); i++) k[i] = apply(s, k[i]);
		}
		else for (auto &y : k) y = apply(s, y);
		return sx_list(k);
	}
};

static void infer_run(Case &c) {
	Src &s = c.s;
	Profile p;
	p.stmts = c.thorough ? 8 : 5;
	p.depth = 3;
	p.globals = s.chance(30);
	p.alias = s.chance(30) ? 15 : 0;
	Gen g(s, p);
	g.budget = c.thorough ? 160 : 90;
	SxP prog = g.program();
	if (s.chance(35)) prog = Shadow::make(c, prog);
	Interp in;
	std::string want = reference(c, in, prog);
	copy_labels(c, g);
	int mode = s.weighted({30, 25, 25, 12, 8});
	SxP plain_prog = prog;
	Hosted host;
	if (mode != 4 && s.chance(15)) {
		static const char *const K[] = {"gen:cons", "gen:if", "gen:while", "gen:list", "gen:not", "cb:emit", "cb:id", "cb:second"};
		static const char *const N[] = {"host-fn", "h", "hos", "ca", "lis", "emitter", "__host", "host-fn-2", "quot"};
		std::set<std::string> taken;
		std::function<void(const SxP &)> ids = [&](const SxP &x) { if (x->t == Sx::ID) taken.insert(x->s); for (auto &k : x->k) ids(k); };
		ids(prog);
		for (int i = s.range(1, 5); i > 0; i--) {
			std::string kind = K[s.below(8)], of = kind.substr(kind.find(':') + 1), n = N[s.below(9)], t;
			if (!taken.insert(n).second) continue;
			if (s.chance(25)) { Unparen r(c, 0); t = Unparen::text(r.random_type()); }
			else if (kind[0] == 'c') t = of == "second" ? "(I I)" : "(I)";
			else for (auto &k : Unparen::keywords()) if (of == k.first) t = k.second;
			host.names.push_back({kind, n, t});
			host.by[of].push_back(n);
		}
		prog = host.apply(s, prog);
		if (host.uses) c.label("names given by the host");
	}
	Unparen u(c, s.chance(70) ? 85 : s.range(0, 100));
	std::vector<SxP> out;
	std::string src;
	bool infer = true;
	if (mode == 4) {
		/* the text is read, with inference, by `read` in a macro; only declarations and what they declare is known there */
		u.base(false);
		std::vector<SxP> k = {L()};
		u.env.push_back({});
		for (auto &kw : u.keywords()) if (s.chance(40)) { Unparen::Type t = u.parse(kw.second); u.put(u.declaration(kw.first, t), k); }
		u.env[0].insert(u.env[1].begin(), u.env[1].end());
		SxP x = u.scope(prog);
		for (size_t i = 1; i < x->k.size(); i++) k.push_back(x->k[i]);
		src = render(wrap({L(I("defmacro"), I("the-program"), L(), L(I("car"), L(I("read"), sx_str(render(sx_list(k))), sx_bool(true)))), L(I("the-program"))}));
		infer = false;
		c.label("by read");
		c.text = "; the text read:\n" + pretty(sx_list(k)) + "\n; in\n" + src;
	}
	else {
		u.base(true);
		for (auto &h : host.names) u.env[0][h.name] = u.parse(h.type);
		if (mode == 1) u.redeclare = 15;
		if (mode == 3) { u.fault = true; u.faults_left = (int) s.below(6); }
		SxP x = prog;
		if (mode == 2) {
			Scripted sc(u);
			x = sc.rewrite(prog, false);
			std::vector<SxP> ed, de, k = {L()};
			sc.defs(ed, de);
			for (auto &d : ed) k.push_back(d);
			for (auto &d : de) k.push_back(d);
			for (size_t i = 1; i < x->k.size(); i++) k.push_back(x->k[i]);
			x = sx_list(k);
			u.scripts = sc.n;
			if (sc.n) c.label("declaration scripts");
			/* the scripted types take effect where the declaration stands */
			std::vector<SxP> o = {L()};
			u.env.push_back({});
			for (size_t i = 1; i < k.size(); i++) {
				u.conv(k[i], o);
				if (k[i]->t == Sx::LIST && k[i]->k.size() == 4 && k[i]->k[0]->s == "declare") {
					auto &t = u.env.back()[k[i]->k[1]->s];
					t.script = k[i]->k[1]->s == "dm-var" ? Unparen::Type::DECLARES : Unparen::Type::TYPED;
				}
			}
			out.push_back(sx_list(o));
		}
		else u.conv(x, out);
		src = render(out[0]);
		c.text = pretty(out[0]);
		if (mode == 1 && u.declared) c.label("declarations");
	}
	if (u.planted.size()) c.label("rejected: " + u.planted);
	if (u.omitted) c.label("parentheses left out");
	if (u.whole) c.label("#(...)");
	c.nontrivial = u.planted.size() || u.omitted >= 3;
	std::string given;
	for (auto &h : host.names) given += "; " + h.kind + " " + h.name + " " + h.type + "\n";
	c.text = given + "; explicit:\n" + pretty(prog) + "\n; inferred:\n" + c.text;
	c.publish();
	auto extend = [&](Session &se) {
		for (auto &h : host.names) if (int e = se.a->extend(se.s, h.kind.c_str(), h.name.data(), h.name.size(), h.type.c_str(), 0)) c.fail(strf("%s %s: error %d\n", h.kind.c_str(), h.name.c_str(), e));
	};
	if (u.planted.size()) {
		Session se("inference", 4000);
		extend(se);
		std::vector<unsigned char> bc;
		std::string err;
		int e = se.compile(src, &bc, infer, &err);
		c.evals++;
		if (!e) c.fail("accepted with inference: " + u.planted + "\n");
		if (err.empty()) c.fail("rejected without a message: " + u.planted + "\n");
		agree(c, "inference", render(plain_prog), want);
	}
	else if (host.names.size()) {
		Session se("inference", 4000);
		extend(se);
		Result r = se.run(src, infer);
		c.evals++;
		if (r.outcome() != want) c.fail("expected:\n" + want + "\ngot:\n" + r.outcome() + "\n" + r.cerr + r.verr);
	}
	else agree(c, "inference", src, want, 4000, 0, infer);
}
static Register r_t03({"T03", "a generated program with one to all of its omissible parentheses left out: the type rules of docs/parenthesis-inference.md used backwards (fixed and default variadic argument counts, literal arguments, scopes of declarations, `#name` where a name is data or undeclared, `#(form)` around whole forms, `self`, parameters and definitions that declare themselves), for the keywords' documented types, for the program's functions, and (in a quarter) for types declared and redeclared at random by `declare` inside the program, (in a quarter) for definition macros with declaration scripts as in the manual, (in a few) for text read with inference by `read` in a macro. Loaded with inference, it must do what the reference interpreter says of the explicit program. In one of eight, an undeclared name, a call with too few or too many arguments or a call of a name of type I is planted: the text must be rejected with a message, and the explicit program must still run. Non-trivial: at least three parentheses left out, or a planted error.", infer_run, 9000, 120000, {"inference"}, "Only the configuration with inference built in is concerned."});
