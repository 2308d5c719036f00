/* L12: aliases, names and shadowing.  T01: layout.  T02: arbitrary source text.  T04: malformed forms. */
#include "common.hpp"
#include "layout.hpp"

namespace {
const std::vector<std::string> KEYWORDS = {
	"nop", "funcall", "apply", "var", "global", "setq", "not", "*", "/", "+", "-", "while", "if", "when", "unless", "=", "<", ">", "defun", "lambda", "defmacro", "noscope", "comptime", "quote", "list", "vector", "make-vector", "get-vector-element", "set-vector-element", "cons", "car", "cdr", "set-car", "set-cdr", "null?", "type-of", "make-type", "make-instance", "composite-value", "composite-function", "set-composite-value", "set-composite-function", "make-string", "concatenate", "substring", "length", "symbol-string", "symbol-id", "error", "declare"};
const std::set<std::string> KWSET(KEYWORDS.begin(), KEYWORDS.end());
std::string bare(const std::string &s) { return s.size() > 2 && s[0] == '_' && s[1] == '_' ? s.substr(2) : s; }
bool is_kw(const std::string &s) { return KWSET.count(bare(s)); }

/* ---- L12, first half: consistent renaming and aliasing of a generated program ------------------------------------- */
struct Renamer {
	Case &c;
	Src &s;
	std::set<std::string> vars, fns, globals;  /* names of the program */
	std::set<std::string> callbacks = {"emit", "id", "second", "pick3", "gc!", "ccall0", "ccall1", "ccall2", "boom", "mkuser"};
	std::set<std::string> aliased;              /* keywords that are written with their alias throughout */
	std::map<std::string, std::string> to;
	int aliases = 0, keyword_names = 0;
	Renamer(Case &cc) : c(cc), s(cc.s) {}
	void params(const SxP &x) { for (auto &p : x->k) if (p->t == Sx::ID && p->s != "&rest") vars.insert(p->s); }
	void scan(const SxP &x) {
		if (x->t != Sx::LIST || x->k.empty()) return;
		size_t from = 0;
		if (x->k[0]->t == Sx::ID) {
			std::string h = bare(x->k[0]->s);
			from = 1;
			if (h == "quote") return;
			if (h == "var") { vars.insert(x->k[1]->s); from = 2; }
			else if (h == "global") { globals.insert(x->k[1]->s); from = 2; }
			else if (h == "defun") { fns.insert(x->k[1]->s); params(x->k[2]); from = 3; }
			else if (h == "lambda") { params(x->k[1]); from = 2; }
		}
		for (size_t i = from; i < x->k.size(); i++) scan(x->k[i]);
	}
	std::string new_name(bool fn, bool global) {
		switch (s.weighted({30, 20, 20, 30})) {
		case 1: return odd_name(s);
		case 2: {
			std::string k = s.pick(KEYWORDS);
			switch (s.below(7)) {
			case 0: return k + "s";
			case 1: return k + k;
			case 2: return k.size() > 1 ? k.substr(0, k.size() - 1) : k + "!";
			case 3: return "_" + k;
			case 4: return "__" + k + "_";
			case 5: { std::string u = k; for (auto &ch : u) ch = (char) toupper(ch); return u == k ? k + "*" : u; }
			default: return std::string(1, k[0]) + "~" + k;
			}
		}
		case 3: {
			std::string k = s.pick(KEYWORDS);
			if (!fn && !global) { if (s.chance(30)) k = "__" + k; keyword_names++; return k; }
			if (fn && aliased.count(k)) { keyword_names++; return k; }
			return k + "-1";
		}
		}
		static const char *const T[] = {"x", "xy", "xyz", "y", "x-", "true1", "false-", "truey", "emits", "emi", "self-", "selfish", "nil"};
		return T[s.below(13)];
	}
	void choose() {
		for (auto &k : KEYWORDS) if (s.chance(35)) aliased.insert(k);
		std::set<std::string> taken = {"self", "&rest", "true", "false"};
		for (auto &n : callbacks) taken.insert(n);
		auto one = [&](const std::string &n, bool fn, bool gl) {
			if (to.count(n)) return;
			for (int i = 0; i < 30; i++) {
				std::string m = new_name(fn, gl);
				if (taken.count(m) || ((fn || gl) && m.size() > 2 && m[0] == '_' && m[1] == '_' && is_kw(m))) continue;
				if ((fn || gl) && is_kw(m) && !(fn && aliased.count(m))) continue;
				taken.insert(m);
				to[n] = m;
				return;
			}
			std::string m = strf("n%zu_", to.size());
			taken.insert(m);
			to[n] = m;
		};
		for (auto &n : fns) one(n, true, globals.count(n));
		for (auto &n : globals) one(n, false, true);
		for (auto &n : vars) one(n, false, false);
	}
	SxP name(const SxP &x) { auto it = to.find(x->s); return it == to.end() ? x : sx_id(it->second); }
	SxP rename(const SxP &x) {
		if (x->t == Sx::ID) return name(x);
		if (x->t != Sx::LIST || x->k.empty()) return x;
		std::vector<SxP> k;
		size_t from = 0;
		if (x->k[0]->t == Sx::ID) {
			std::string h = bare(x->k[0]->s);
			if (KWSET.count(h) && !to.count(x->k[0]->s)) {
				bool al = aliased.count(h) || s.chance(10);
				aliases += al;
				k.push_back(sx_id(al ? "__" + h : h));
				from = 1;
				if (h == "quote") { k.push_back(x->k[1]); return sx_list(k); }
				if (h == "lambda" || h == "defun") {
					if (h == "defun") k.push_back(name(x->k[from++]));
					std::vector<SxP> ps;
					for (auto &p : x->k[from]->k) ps.push_back(name(p));
					k.push_back(sx_list(ps));
					from++;
				}
			}
		}
		for (size_t i = from; i < x->k.size(); i++) k.push_back(rename(x->k[i]));
		return sx_list(k);
	}
};

/* ---- L12, second half: keywords, callbacks and globals shadowed in nested scopes ---------------------------------- */
struct Shadow {
	Case &c;
	Src &s;
	struct Bind { int kind; int arity; bool rest; };  /* 0 function, 1 macro, 2 variable */
	std::vector<std::map<std::string, Bind>> sc;
	std::vector<std::string> pool;
	std::map<std::string, int> globals;               /* global functions: arity */
	int fresh = 0, tag = 0, shadowed_uses = 0, alias_uses = 0, budget = 90;
	Shadow(Case &cc) : c(cc), s(cc.s) { sc.push_back({}); }
	const Bind *fn(const std::string &n) { for (size_t i = sc.size(); i-- > 0;) { auto it = sc[i].find(n); if (it != sc[i].end() && it->second.kind < 2) return &it->second; } return nullptr; }
	const Bind *var(const std::string &n) { for (size_t i = sc.size(); i-- > 0;) { auto it = sc[i].find(n); if (it != sc[i].end() && it->second.kind != 1) return &it->second; } return nullptr; }
	SxP kw(const char *n) {
		if (fn(n)) { alias_uses++; return sx_id(std::string("__") + n); }
		return sx_id(s.chance(15) ? std::string("__") + n : n);
	}
	SxP str(const char *p) { return sx_str(strf("%s%d", p, tag++)); }
	/* a use of keyword `k` as a keyword; `head` is its spelling */
	SxP kwuse(const std::string &k, const SxP &h) {
		int a = s.range(-9, 99), b = s.range(1, 9);
		if (k == "+" || k == "-" || k == "*" || k == "/" || k == "=" || k == "<" || k == ">") return L(h, N(a), N(b));
		if (k == "list") return L(h, N(a), N(b));
		if (k == "cons") return L(h, N(a), L(kw("list"), N(b)));
		if (k == "car" || k == "cdr" || k == "length") return L(h, L(kw("list"), N(a), N(b)));
		if (k == "not" || k == "null?") return L(h, N(s.range(0, 1)));
		if (k == "if") return L(h, L(kw("<"), N(a), N(b)), N(1), N(2));
		if (k == "when" || k == "unless") return L(h, L(kw("<"), N(a), N(b)), N(a));
		if (k == "concatenate") return L(h, sx_str("ab"), sx_str("c"));
		if (k == "quote") return L(h, L(I("q"), N(a)));
		if (k == "funcall") return L(h, L(kw("lambda"), L(I("q")), L(kw("+"), I("q"), N(a))), N(b));
		if (k == "apply") return L(h, L(kw("lambda"), L(I("q"), I("w")), L(kw("-"), I("q"), I("w"))), N(a), L(kw("list"), N(b)));
		if (k == "lambda") return L(kw("funcall"), L(h, L(I("q")), L(kw("+"), I("q"), N(a))), N(b));
		if (k == "comptime") return L(h, L(I("__+"), N(a), N(b)));
		if (k == "vector") return L(kw("cdr"), L(h, N(a), N(b)));
		if (k == "noscope") return L(kw("list"), L(L(), L(h, N(a), N(b))));
		if (k == "while") return L(h, sx_bool(false), N(a));
		if (k == "var") { std::string v = strf("l%d", fresh++); return L(L(), L(h, sx_id(v), N(a)), L(kw("+"), sx_id(v), N(b))); }
		if (k == "defun") { std::string v = strf("l%d", fresh++); return L(L(), L(h, sx_id(v), L(I("q")), L(kw("+"), I("q"), N(a))), L(sx_id(v), N(b))); }
		if (k == "setq") { std::string v = strf("l%d", fresh++); return L(L(), L(kw("var"), sx_id(v), N(a)), L(h, sx_id(v), N(b)), sx_id(v)); }
		if (k == "global") return L(h, sx_id(strf("*l%d*", fresh++)), N(a));
		return nullptr;
	}
	SxP args(std::vector<SxP> k, int arity, bool rest, bool macro = false) {
		int n = arity + (rest ? s.range(0, 3) : 0);
		if (!macro && s.chance(2)) n++;
		for (int i = 0; i < n; i++) k.push_back(s.chance(80) ? N(s.range(-9, 99)) : L(kw("list"), N(1), sx_str("s")));
		return sx_list(k);
	}
	SxP use() {
		std::string k = s.pick(pool);
		const Bind *f = fn(k);
		const Bind *v = var(k);
		budget -= 3;
		switch (s.weighted({50, 20, 20, 10})) {
		case 1: if (KWSET.count(k)) { if (f) { alias_uses++; c.label("alias of a shadowed keyword"); } return kwuse(k, sx_id("__" + k)); } break;
		case 2:
			if (v && v->kind == 0) { shadowed_uses++; c.label("function as a variable"); return args({kw("funcall"), sx_id(k)}, v->arity, v->rest); }
			if (v) { c.label("variable with the name of a keyword"); return sx_id(k); }
			break;
		case 3: if (v && f && v->kind == 2) { shadowed_uses++; c.label("function and variable of one name"); return L(kw("cons"), sx_id(k), args({sx_id(k)}, f->arity, f->rest, f->kind == 1)); } break;
		}
		if (f) { shadowed_uses++; c.label(f->kind ? "macro with the name of a keyword" : "function with the name of a keyword"); return args({sx_id(k)}, f->arity, f->rest, f->kind == 1); }
		if (KWSET.count(k)) return kwuse(k, sx_id(k));
		if (k == "id") return L(I("id"), N(s.range(0, 9)));
		if (k == "second") return L(I("second"), N(1), N(s.range(0, 9)));
		auto g = globals.find(k);
		if (g != globals.end()) { c.label("global function"); return args({sx_id(k)}, g->second, false); }
		return N(0);
	}
	void params(std::vector<SxP> &ps, std::vector<SxP> &vals, int &arity, bool &rest) {
		arity = s.range(0, 3);
		rest = s.chance(20);
		std::set<std::string> seen;
		for (int i = 0; i < arity + rest; i++) {
			std::string n = s.chance(35) ? s.pick(pool) : strf("p%d", i);
			if (!seen.insert(n).second || n == "self") { n = strf("p%d", i); seen.insert(n); }
			if (i == arity) ps.push_back(I("&rest"));
			ps.push_back(sx_id(n));
			vals.push_back(sx_id(n));
			sc.back()[n] = {2, 0, false};
		}
	}
	void stmt(std::vector<SxP> &out, int depth) {
		budget -= 2;
		std::string k = s.pick(pool);
		bool taken = sc.back().count(k);
		switch (s.weighted({40, 22, 14, 12, 8, depth > 0 ? 22 : 0, depth > 0 ? 12 : 0, 8})) {
		case 1: {
			if (taken) break;
			SxP d = kw("defun");
			Bind b{0, 0, false};
			std::vector<SxP> ps, vals;
			sc.push_back({});
			params(ps, vals, b.arity, b.rest);
			std::vector<SxP> body;
			if (s.chance(30)) body.push_back(L(I("emit"), use()));
			vals.insert(vals.begin(), str("f"));
			vals.insert(vals.begin(), I("__list"));
			if (s.chance(25)) vals.push_back(use());
			body.push_back(sx_list(vals));
			sc.pop_back();
			body.insert(body.begin(), {d, sx_id(k), sx_list(ps)});
			out.push_back(sx_list(body));
			sc.back()[k] = b;
			return;
		}
		case 2: {
			if (taken) break;
			SxP d = kw("defmacro");
			Bind b{1, 0, false};
			std::vector<SxP> ps, vals;
			sc.push_back({});
			params(ps, vals, b.arity, b.rest);
			sc.pop_back();
			std::vector<SxP> body = {I("__list"), L(I("__quote"), I("__list")), str("m")};
			for (size_t i = 0; i < vals.size(); i++) body.push_back(b.rest && i + 1 == vals.size() ? L(I("__cons"), L(I("__quote"), I("__list")), vals[i]) : vals[i]);
			out.push_back(L(d, sx_id(k), sx_list(ps), sx_list(body)));
			sc.back()[k] = b;
			c.label("macro definition");
			return;
		}
		case 3: if (taken) break; out.push_back(L(kw("var"), sx_id(k), str("v"))); sc.back()[k] = {2, 0, false}; return;
		case 4: {
			const Bind *v = var(k);
			if (!v) { out.push_back(L(kw("global"), sx_id(k), str("g"))); if (globals.count(k)) globals.erase(k); out.push_back(L(I("emit"), sx_id(k))); c.label("global with the name of a keyword"); return; }
			if (v->kind == 0) { if (v->rest) break; std::vector<SxP> ps, vs = {I("__list"), str("s")}; for (int i = 0; i < v->arity; i++) { ps.push_back(sx_id(strf("p%d", i))); vs.push_back(ps.back()); } out.push_back(L(kw("setq"), sx_id(k), L(kw("lambda"), sx_list(ps), sx_list(vs)))); c.label("function replaced"); return; }
			out.push_back(L(kw("setq"), sx_id(k), str("w")));
			return;
		}
		case 5: {
			std::vector<SxP> b;
			int form = s.below(3);
			if (form == 0) b.push_back(L());
			else if (form == 1) { b.push_back(kw("when")); b.push_back(sx_bool(true)); }
			else b.push_back(L(kw("lambda"), L()));
			SxP fc = form == 2 ? kw("funcall") : nullptr, lm = form == 2 ? kw("lambda") : nullptr;
			sc.push_back({});
			std::vector<SxP> in;
			int n = s.range(1, 5);
			for (int i = 0; i < n && budget > 0; i++) stmt(in, depth - 1);
			in.push_back(use());
			sc.pop_back();
			c.label("nested scope");
			if (form == 2) { in.insert(in.begin(), {lm, L()}); out.push_back(L(I("emit"), L(fc, sx_list(in)))); }
			else { b.insert(b.end(), in.begin(), in.end()); out.push_back(form == 0 ? L(I("emit"), sx_list(b)) : sx_list(b)); }
			return;
		}
		case 6: {
			/* a closure made here and called after later definitions */
			std::string f = strf("late%d", fresh++);
			SxP v = kw("var"), lm = kw("lambda");
			sc.push_back({});
			SxP u = use();
			sc.pop_back();
			out.push_back(L(v, sx_id(f), L(lm, L(), u)));
			int n = s.range(1, 3);
			for (int i = 0; i < n && budget > 0; i++) stmt(out, depth - 1);
			out.push_back(L(I("emit"), L(kw("funcall"), sx_id(f))));
			c.label("closure over a meaning");
			return;
		}
		case 7: out.push_back(use()); return;
		}
		out.push_back(L(I("emit"), use()));
	}
	SxP program() {
		int n = s.range(1, 4);
		static const std::vector<std::string> K = {"+", "-", "*", "/", "=", "<", ">", "list", "cons", "car", "cdr", "length", "not", "null?", "if", "when", "unless", "concatenate", "quote", "funcall", "apply", "lambda", "comptime", "vector", "noscope", "while", "var", "defun", "setq", "global"};
		for (int i = 0; i < n; i++) pool.push_back(s.pick(K));
		if (s.chance(40)) pool.push_back(s.chance(50) ? "id" : "second");
		if (s.chance(40)) pool.push_back(s.pick(std::vector<std::string>{"plain", "__plain", "_car", "__cars"}));
		std::vector<SxP> st;
		if (s.chance(40)) { pool.push_back("gfun"); globals["gfun"] = 2; st.push_back(L(I("global"), I("gfun"), L(I("lambda"), L(I("a"), I("b")), L(I("list"), sx_str("gfun"), I("a"), I("b"))))); }
		int m = s.range(3, 10);
		for (int i = 0; i < m && budget > 0; i++) stmt(st, 2);
		st.push_back(use());
		return wrap(st);
	}
};
} // namespace

static void names_run(Case &c) {
	Src &s = c.s;
	if (s.chance(50)) {
		Profile p;
		p.alias = 0; p.globals = s.chance(40); p.shadow = 60; p.emits = 16; p.errors = s.chance(15) ? 6 : 0; p.retry_self = false;
		Gen g(s, p);
		SxP prog = g.program();
		Interp in;
		std::string want = reference(c, in, prog);
		Renamer r(c);
		r.scan(prog);
		r.choose();
		SxP q = r.rename(prog);
		c.text = "; original\n" + pretty(prog) + "\n; renamed\n" + pretty(q);
		c.nontrivial = r.aliases >= 2 && r.to.size() >= 2;
		c.label("renaming");
		if (r.keyword_names) c.label("names that are keywords");
		c.publish();
		for (auto cfg : configs(c, 1)) agree(c, cfg, render(q), want);
		return;
	}
	Shadow g(c);
	SxP prog = g.program();
	c.label("shadowing");
	Interp in;
	std::string want = reference(c, in, prog);
	c.text = pretty(prog);
	c.nontrivial = g.shadowed_uses >= 1 && g.alias_uses >= 1;
	c.publish();
	for (auto cfg : configs(c, 1)) agree(c, cfg, render(prog), want);
}
static Register r_l12({"L12",
	"half: a generated program whose keywords are replaced by aliases and whose variables, functions and globals are consistently renamed to keywords, prefixes and extensions of keywords and literals, and odd identifiers must behave as the reference says the original does; half: programs that define functions, macros, variables and globals with the names of keywords and callbacks in nested scopes and use each name in every way, against the reference interpreter. Non-trivial: at least two aliases and two renamed names, or a use of a shadowed name and one of an alias while its keyword is shadowed.",
	names_run, 9000, 90000, {"default", "noopt", "portable", "inference"},
	"A global function with the name of a keyword is not called by name (the manual does not say which wins); `self`, `&rest`, true and false keep their names."});

/* ---- T01 ---------------------------------------------------------------------------------------------------------- */
static std::string hex(const std::vector<unsigned char> &b) { std::string r; for (auto x : b) r += strf("%02x", x); return r; }
static void layout_run(Case &c) {
	Src &s = c.s;
	SxP prog;
	switch (s.weighted({40, 25, 25})) {
	case 0: { Profile p; p.globals = true; p.alias = 5; Gen g(s, p); g.budget = 80; prog = g.program(); break; }
	case 1: { std::vector<SxP> k = {I("list")}; int n = s.range(1, 4); for (int i = 0; i < n; i++) k.push_back(L(I("quote"), quote_datum(s, 3))); prog = sx_list(k); c.label("data"); break; }
	default: {
		std::vector<SxP> st;
		st.push_back(L(I("defmacro"), I("m"), L(I("a"), I("&rest"), I("r")), L(I("list"), L(I("quote"), I("list")), I("a"), L(I("cons"), L(I("quote"), I("list")), I("r")))));
		int n = s.range(1, 4);
		for (int i = 0; i < n; i++) st.push_back(L(I("emit"), s.chance(50) ? L(I("comptime"), L(I("list"), N(s.range(0, 9)), L(I("quote"), rand_datum(s)))) : L(I("m"), N(s.range(0, 9)), sx_str(rand_string(s, 8)), lit_float(s))));
		prog = wrap(st);
		c.label("macro and comptime");
	}
	}
	std::vector<std::string> t;
	tokenize(prog, t);
	bool bad = s.chance(30);
	if (bad) {
		c.label("damaged token sequence");
		int n = s.range(1, 3);
		for (int i = 0; i < n && t.size() > 1; i++) {
			size_t k = s.below((uint32_t) t.size());
			switch (s.below(5)) {
			case 0: t.erase(t.begin() + (long) k); break;
			case 1: t.insert(t.begin() + (long) k, t[s.below((uint32_t) t.size())]); break;
			case 2: t[k] = std::vector<std::string>{"(", ")", "()", "7", "x", "\"s\"", "1.5", "true"}[s.below(8)]; if (t[k] == "()") { t[k] = "("; t.insert(t.begin() + (long) k + 1, ")"); } break;
			case 3: std::swap(t[k], t[s.below((uint32_t) t.size())]); break;
			default: t.resize(k + 1);
			}
		}
	}
	bool infer = s.chance(15);
	Layout plain(s, 0);
	std::string a = plain.tokens(t);
	std::vector<std::string> b;
	int gaps = 0;
	int n = s.range(1, 3);
	for (int i = 0; i < n; i++) {
		Layout l(s, s.chance(25) ? 1 : 2);
		l.respell = false;
		b.push_back(l.tokens(t));
		gaps += l.comments + l.spaces;
		if (l.comments) c.label("comments");
	}
	c.text = a;
	for (auto &x : b) c.text += "\n---- re-laid ----\n" + x;
	c.nontrivial = gaps >= 5 && t.size() >= 8;
	c.publish();
	for (auto cfg : configs(c, 1)) {
		bool inf = infer && std::string(cfg) == "inference";
		if (inf) c.label("with inference");
		auto go = [&](const std::string &src, std::string &out) {
			Session se(cfg);
			se.a->set_budget(se.s, 50000);
			std::vector<unsigned char> bc;
			int e = se.compile(src, &bc, inf);
			c.evals++;
			out = e ? "rejected\n" + se.trace() : hex(bc) + "\n" + se.trace();
			return e;
		};
		std::string wa, wb;
		int ea = go(a, wa);
		c.label(ea ? "rejected" : "accepted");
		for (auto &x : b) {
			go(x, wb);
			if (wa != wb) c.fail(strf("configuration %s%s: the same tokens in another layout\nfirst:\n%s\nre-laid:\n%s\n", cfg, inf ? " with inference" : "", wa.c_str(), wb.c_str()));
		}
	}
}
static Register r_t01({"T01",
	"generated programs, data, macro and compile-time code, three in ten with damaged token sequences, printed in a plain layout and in up to three layouts with random white space (space, tab, newline, carriage return, form feed, vertical tab) and comments between any two tokens, before the first and after the last; all must be accepted or rejected alike, with byte-identical code and the same compile-time effects. Non-trivial: at least eight tokens and five inserted gaps.",
	layout_run, 9000, 90000, {"default", "noopt", "portable", "inference"},
	"Tokens are separated where the manual's grammar needs it; a string literal is one token and its contents are not touched."});
