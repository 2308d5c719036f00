#include "hostile.hpp"

static const std::vector<std::string> KWS = {
	"quote", "var", "global", "setq", "not", "+", "-", "*", "/", "=", "<", ">", "while", "if", "when", "unless", "defun", "lambda", "defmacro", "cons", "car", "cdr",
	"set-car", "set-cdr", "null?", "type-of", "make-type", "make-instance", "composite-value", "composite-function", "set-composite-value", "set-composite-function",
	"make-string", "concatenate", "substring", "length", "symbol-string", "symbol-id", "make-vector", "get-vector-element", "set-vector-element", "apply", "funcall",
	"list", "vector", "noscope", "comptime", "nop", "__error", "declare", "gensym", "intern", "read", "self", "&rest", "__lambda", "__defun", "__var", "__list", "__comptime", "__defmacro", "__noscope", "__declare"};
static const std::vector<std::string> ODD = {
	"0", "1", "-1", "255", "256", "32768", "65536", "2147483647", "-2147483648", "4294967296", "99999999999999999999999", "-", "+", "--1", "0x", "0xfg", "0X1F", "-0x7f", "1.", ".5", "-.5", ".", "1.2.3", "1e", "1e5", "1e-", "1e+3", "1e999", "-1e-999", "1e99999999", "e5", "inf", "nan",
	"1.e2", ".e1", "-.", "true", "false", "True", "truex", "nil", "\"\"", "\"a\"", "\"\\\"", "\"\\\\\"", "\"\\n\\t\"", "\"\\x\"", "\"(\"", "\";\"", "\"", "\\", "'", "`", ",", "@", "#", "##", "#(", "#x", "#\"s\"", "#1", "#()", "(#", "&rest", "&", ";", "; comment\n", ";\r", "a\"b\"", "1a", "x:y", "{", "}", "[", "]", "|", "\x01", "\x7f", "\xff", "\xc3\xa9", "a\\b"};

static std::string ident(Src &s) {
	static const std::vector<std::string> N = {"a", "b", "f", "m", "x", "v0", "id", "emit", "second", "ccall1", "gc!", "", "self", "list"};
	return s.pick(N);
}
static std::string token(Src &s, bool infer) {
	switch (s.weighted({30, 20, 20, 15, 15, infer ? 10 : 0})) {
	case 0: return s.pick(KWS);
	case 1: return "(";
	case 2: return ")";
	case 3: return ident(s);
	case 4: return s.pick(ODD);
	default: return std::vector<std::string>{"declare", "(I I)", "(L I)", "(&rest 1 I)", "(I &rest)", "(&rest)", "(&rest 5 I)", "(L L &rest 0 I)", "#", "#(", "(I &rest x I)", "(I &rest -1 I)", "(declare-identifier (infer-and-get-next-argument) (quote L))", "(infer-and-get-next-argument)", "(declaration-scope", "I", "L"}[s.below(17)];
	}
}
static SxP some_program(Src &s, bool &ct, bool &mac, bool small) {
	switch (s.weighted({50, 20, 25})) {
	case 0: { Profile p; p.globals = s.chance(30); p.alias = 10; p.errors = s.chance(20) ? 8 : 0; p.loops = 6; Gen g(s, p); g.budget = small ? 40 : 90; return g.program(); }
	case 1: { std::vector<SxP> k = {I("list")}; int n = s.range(1, 3); for (int i = 0; i < n; i++) k.push_back(L(I("quote"), quote_datum(s, 3))); return sx_list(k); }
	default: {
		ct = mac = true;
		std::vector<SxP> st;
		st.push_back(L(I("defmacro"), I("m"), L(I("a"), I("&rest"), I("r")), L(I("list"), L(I("quote"), I("list")), I("a"), L(I("cons"), L(I("quote"), I("list")), I("r")))));
		if (s.chance(50)) st.push_back(L(I("defmacro"), I("f"), L(I("a"), I("b")), L(I("list"), L(I("quote"), I("var")), I("a"), I("b"))));
		if (s.chance(50)) st.push_back(L(I("defmacro"), I("b"), L(I("&rest"), I("r")), L(I("cons"), L(I("quote"), L()), I("r"))));
		int n = s.range(1, 5);
		for (int i = 0; i < n; i++) switch (s.below(6)) {
			case 0: st.push_back(L(I("emit"), L(I("m"), N(s.range(0, 9)), sx_str(rand_string(s, 8)), lit_float(s)))); break;
			case 1: st.push_back(L(I("emit"), L(I("comptime"), L(I("list"), N(s.range(0, 9)), L(I("quote"), rand_datum(s)))))); break;
			case 2: st.push_back(L(I("f"), sx_id(strf("v%d", i)), L(I("comptime"), L(I("var"), I("q"), N(3)), L(I("+"), I("q"), I("q"))))); break;
			case 3: st.push_back(L(I("b"), L(I("emit"), N(1)), L(I("m"), L(I("lambda"), L(I("x"), I("&rest"), I("y")), L(I("list"), I("x"), I("y")))))); break;
			case 4: st.push_back(L(I("comptime"), L(I("read"), sx_str(s.chance(50) ? "(a 1 (b \"c\"))" : s.pick(ODD)), sx_bool(s.chance(50))))); break;
			default: st.push_back(L(I("emit"), L(I("comptime"), L(I("symbol-string"), L(I("intern"), sx_str(rand_string(s, 5)))))));
		}
		st.push_back(N(1));
		return wrap(st);
	}
	}
}
static void collect(const SxP &x, std::vector<SxP> &all) { all.push_back(x); for (auto &k : x->k) collect(k, all); }
static SxP mutate_tree(Src &s, const SxP &prog, const std::vector<SxP> &donors, int pct, int depth = 0) {
	if (depth > 0 && s.chance(pct)) {
		switch (s.below(6)) {
		case 0: return s.pick(donors);
		case 1: return L();
		case 2: return sx_id(s.pick(KWS));
		case 3: return sx_list({prog});
		case 4: return sx_id(ident(s));
		default: return L(sx_id(s.pick(KWS)), prog);
		}
	}
	if (prog->t != Sx::LIST) return prog;
	std::vector<SxP> k;
	for (auto &e : prog->k) {
		if (s.chance(pct / 2)) { int w = s.below(3); if (w == 0) continue; if (w == 1) k.push_back(mutate_tree(s, e, donors, 0, depth + 1)); else { k.push_back(s.pick(donors)); } }
		k.push_back(mutate_tree(s, e, donors, pct, depth + 1));
	}
	return sx_list(k);
}
static std::string rand_bytes(Src &s, int n) {
	std::string r;
	int mode = s.below(3);
	for (int i = 0; i < n; i++) r += (char) (mode == 0 ? s.range(32, 126) : mode == 1 ? s.below(256) : "()\"\\; \n#'ab01.-x"[s.below(16)]);
	return r;
}
static bool has_word(const std::string &t, const char *w) { return t.find(w) != std::string::npos; }
static void replace_word(std::string &t, const std::string &w, const std::string &by) {
	size_t p = 0;
	while ((p = t.find(w, p)) != std::string::npos) { t.replace(p, w.size(), by); p += by.size(); }
}

Hostile hostile(Src &s, bool infer, bool big) {
	Hostile h;
	bool ct = false, mac = false;
	switch (s.weighted({10, 25, 25, 20, 15, 8})) {
	case 0: h.kind = "random bytes"; h.text = rand_bytes(s, s.range(0, s.chance(10) ? 2000 : 60)); break;
	case 1: {
		h.kind = "token soup";
		std::vector<std::string> t;
		int n = s.range(1, s.chance(10) ? 200 : 40), open = 0;
		if (s.chance(70)) { t.push_back("("); open = 1; if (s.chance(60)) { t.push_back("("); t.push_back(")"); } }
		for (int i = 0; i < n; i++) { t.push_back(token(s, infer)); if (t.back() == "(") open++; if (t.back() == ")") { if (open > 1 || s.chance(5)) open--; else t.back() = "7"; } }
		if (s.chance(90)) while (open-- > 0) t.push_back(")");
		for (size_t i = 0; i < t.size(); i++) { h.text += t[i]; if (!s.chance(3)) h.text += s.chance(5) ? "\n" : " "; }
		break;
	}
	case 2: {
		h.kind = "mutated tokens";
		std::vector<std::string> t;
		tokenize(some_program(s, ct, mac, false), t);
		int n = s.range(1, 6);
		for (int i = 0; i < n && !t.empty(); i++) {
			size_t k = s.below((uint32_t) t.size());
			switch (s.below(6)) {
			case 0: t.erase(t.begin() + (long) k); break;
			case 1: t.insert(t.begin() + (long) k, t[s.below((uint32_t) t.size())]); break;
			case 2: t[k] = token(s, infer); break;
			case 3: std::swap(t[k], t[s.below((uint32_t) t.size())]); break;
			case 4: t.insert(t.begin() + (long) k, token(s, infer)); break;
			default: if (s.chance(30)) t.resize(k + 1); else { size_t e = std::min(t.size(), k + (size_t) s.range(1, 5)); t.erase(t.begin() + (long) k, t.begin() + (long) e); }
			}
		}
		for (auto &x : t) h.text += x + " ";
		break;
	}
	case 3: {
		h.kind = "mutated tree";
		SxP a = some_program(s, ct, mac, true), b = some_program(s, ct, mac, true);
		std::vector<SxP> d;
		collect(a, d); collect(b, d);
		for (auto &o : {"5", "x", "&rest"}) d.push_back(sx_id(o));
		d.push_back(L());
		h.text = render(mutate_tree(s, a, d, s.range(1, 12)));
		if (h.text.size() > 30000) h.text.resize(30000);
		break;
	}
	case 4: {
		h.kind = "mutated bytes";
		SxP a = some_program(s, ct, mac, true);
		h.text = s.chance(30) ? Layout(s, 2).source(a) : render(a);
		int n = s.range(1, 8);
		for (int i = 0; i < n && !h.text.empty(); i++) {
			size_t k = s.below((uint32_t) h.text.size());
			switch (s.below(5)) {
			case 0: h.text.erase(k, (size_t) s.range(1, 3)); break;
			case 1: h.text.insert(k, 1, "()\"\\;# \n.-0x&'"[s.below(15)]); break;
			case 2: h.text[k] = (char) s.below(256); break;
			case 3: h.text.insert(k, s.pick(ODD)); break;
			default: if (s.chance(30)) h.text.resize(k); else h.text.insert(k, h.text.substr(s.below((uint32_t) h.text.size()), (size_t) s.range(1, 40)));
			}
		}
		break;
	}
	default: {
		h.kind = "deep or long";
		int n = s.chance(50) ? s.range(1, 200) : s.range(900, 1100);
		if (big && s.chance(20)) n = s.range(1000, 20000);
		static const std::vector<std::pair<std::string, std::string>> P = {{"(", ")"}, {"(() ", ")"}, {"(lambda () ", ")"}, {"(if x ", " 1 2)"}, {"(quote ", ")"}, {"(list ", ")"}, {"(+ 1 ", ")"}, {"(when x ", ")"}, {"(cons 1 ", ")"}, {"(comptime ", ")"}, {"(f ", ")"}, {"(noscope ", ")"}, {"(funcall (lambda (a) ", ") 1)"}, {"(while false ", ")"}, {"(not ", ")"}, {"(defun f () ", ")"}, {"(var x ", ")"}, {"(setq x ", ")"}};
		auto &p = s.pick(P);
		int close = s.chance(70) ? n : s.range(0, n);
		std::string inner = s.chance(50) ? "1" : s.chance(50) ? "" : "(list 1 2)";
		if (p.first.find("comptime") != std::string::npos) { ct = true; if (n > 60) n = 60; if (close > n) close = n; }
		if (s.chance(40) && p.first != "(comptime ") {
			/* long instead of deep */
			h.text = s.chance(50) ? "(()" : s.chance(50) ? "(list" : "(quote (";
			std::string unit = s.chance(50) ? " 1" : s.chance(50) ? " (emit x)" : " " + p.first + inner + p.second;
			for (int i = 0; i < n; i++) h.text += unit;
			h.text += h.text.compare(0, 3, "(qu") ? ")" : "))";
		}
		else {
			for (int i = 0; i < n; i++) h.text += p.first;
			h.text += inner;
			for (int i = 0; i < close; i++) h.text += p.second;
		}
	}
	}
	/* compile-time code must terminate */
	ct = ct || has_word(h.text, "comptime") || has_word(h.text, "defmacro") || (infer && has_word(h.text, "declare"));
	if (ct) {
		replace_word(h.text, "while", "whale");
		replace_word(h.text, "self", "shelf");
		replace_word(h.text, "defun", "refun");
		replace_word(h.text, "global", "glooal");
		replace_word(h.text, "setq", "seta");
		replace_word(h.text, "set-c", "sex-c");
		replace_word(h.text, "ccall", "pcall");
	}
	if (ct) {
		/* the test callbacks do not check how many arguments they were given */
		std::string r;
		for (size_t i = 0; i < h.text.size();) {
			size_t j = i;
			auto sep = [](char c) { return (unsigned char) c <= ' ' || c == '(' || c == ')' || c == '"' || c == ';' || c == '#'; };
			while (j < h.text.size() && !sep(h.text[j])) j++;
			std::string w = h.text.substr(i, j - i);
			if (w == "id" || w == "emit" || w == "second" || w == "pick3" || w == "gc!" || w == "boom" || w == "mkuser") w = "list";
			r += w;
			if (j < h.text.size()) r += h.text[j++];
			i = j;
		}
		h.text = r;
	}
	h.ct = ct;
	h.defmacro = has_word(h.text, "defmacro");
	h.loops = has_word(h.text, "while") || has_word(h.text, "self") || has_word(h.text, "defun") || has_word(h.text, "global") || has_word(h.text, "setq") || has_word(h.text, "set-") || has_word(h.text, "ccall");
	return h;
}
