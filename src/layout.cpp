#include "layout.hpp"

std::string string_literal(const std::string &s) { return render(sx_str(s)); }

std::string Layout::gap(bool needed) {
	if (level == 0 || s.chance(35)) return needed ? " " : "";
	static const std::vector<std::string> W = {" ", "\n", "\t", "  ", "\n\n", "\r\n", " \n\t ", "\f", "\v", "\r"};
	static const std::vector<std::string> C = {"; comment\n", ";\n", ";; (setq x 1) \" unbalanced )(\n", "; a ; b\r\n", ";\"\n", "; # \\ ' \n", ";x\r"};
	std::string r;
	int n = s.weighted({0, 60, 25, 10});
	for (int i = 0; i < n; i++) {
		if (level >= 2 && s.chance(30)) { r += s.pick(C); comments++; }
		else { r += s.pick(W); spaces++; }
	}
	if (r.empty() && needed) r = " ";
	return r;
}
std::string Layout::atom(const SxP &x) {
	if (level < 2 || !respell) return render(x);
	switch (x->t) {
	case Sx::INT: {
		if (!s.chance(25)) return render(x);
		respelled++;
		long long v = x->i < 0 ? -x->i : x->i;
		std::string sg = x->i < 0 ? "-" : "";
		switch (s.below(5)) {
		case 0: return sg + strf("0x%llx", v);
		case 1: return sg + strf("0X%llX", v);
		case 2: return sg + strf("0x%04llX", v);
		case 3: return sg + strf("%03lld", v);
		default: return v ? strf("%s0x0%llx", sg.c_str(), v) : "-0";
		}
	}
	case Sx::STR: {
		if (!s.chance(25)) return render(x);
		respelled++;
		std::string o = "\"";
		for (char c : x->s) {
			if (c == '"' || c == '\\') { o += '\\'; o += c; }
			else if (c == '\n') o += s.chance(50) ? "\\n" : "\n";
			else if (c != 'n' && s.chance(15)) { o += '\\'; o += c; }
			else o += c;
		}
		return o + "\"";
	}
	default: return render(x);
	}
}
static bool self_delimiting(const SxP &x) { return x->t == Sx::LIST || x->t == Sx::STR; }
void Layout::put(const SxP &x, std::string &o) {
	if (x->t != Sx::LIST) { o += atom(x); return; }
	o += "(";
	o += gap(false);
	for (size_t i = 0; i < x->k.size(); i++) {
		if (i) o += gap(level < 1 || !(self_delimiting(x->k[i - 1]) || self_delimiting(x->k[i])) || !s.chance(40));
		put(x->k[i], o);
	}
	o += gap(false);
	o += ")";
}
std::string Layout::text(const SxP &x) { std::string o; put(x, o); return o; }
std::string Layout::source(const SxP &x) {
	std::string o = level ? gap(false) : "";
	put(x, o);
	if (level) o += gap(false);
	if (level >= 2 && s.chance(10)) o += std::vector<std::string>{"; last words", ";", " ;(", "\n;\""}[s.below(4)];
	return o;
}

void tokenize(const SxP &x, std::vector<std::string> &out) {
	if (x->t != Sx::LIST) { out.push_back(render(x)); return; }
	out.push_back("(");
	for (auto &k : x->k) tokenize(k, out);
	out.push_back(")");
}
std::string Layout::tokens(const std::vector<std::string> &t) {
	auto delim = [](const std::string &x) { return x == "(" || x == ")" || x[0] == '"'; };
	std::string o = level ? gap(false) : "";
	for (size_t i = 0; i < t.size(); i++) {
		if (i) {
			bool need = !(delim(t[i - 1]) || delim(t[i]));
			o += level == 0 ? (need || (t[i - 1] != "(" && t[i] != ")") ? " " : "") : gap(need || (t[i - 1] != "(" && t[i] != ")" && !s.chance(40)));
		}
		o += t[i];
	}
	if (level) o += gap(false);
	if (level >= 2 && s.chance(10)) o += std::vector<std::string>{"; last words", ";", " ;(", "\n;\""}[s.below(4)];
	return o;
}

std::string odd_name(Src &s) {
	static const std::vector<std::string> P = {
		"a", "b", "ab", "abc", "foo-bar", "x1", "+", "-", "->", "1+", "1-", "a.b", "...", "if", "lambda", "quote", "list", "car", "self", "&rest", "*g*", "__if",
		"truex", "false-1", "True", "nil", "t", "-x", "--", "-a1", "e1", "e-1", "a'b", "it's", "I'm-a-symbol!", "\xc3\xa9t\xc3\xa9", "\xe2\x87\x92", "a\\b", "@", "$x", "%", "^", "~", "[", "]", "{}", "a,b", "`", ":key", "|x|", "?", "!", "0a", "9lives", "-0a", "0xg", "=", "<=", "tru", "fals", "12-"};
	if (s.chance(75)) return s.pick(P);
	static const std::string A = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789+-*/<>=!?_.:&%$@^~";
	std::string r(1, A[s.below(26)]);
	int n = s.chance(5) ? s.range(100, 700) : s.range(0, 12);
	for (int i = 0; i < n; i++) r += A[s.below((uint32_t) A.size())];
	if (r == "true" || r == "false") r += "-";
	return r;
}
SxP odd_float(Src &s) {
	std::string t = s.chance(30) ? "-" : "";
	auto digits = [&](int lo, int hi) { std::string d; int n = s.range(lo, hi); for (int i = 0; i < n; i++) d += (char) ('0' + s.below(10)); return d; };
	switch (s.below(5)) {
	case 4: if (s.chance(20)) { t += digits(1, 1) + "." + digits(1, 6) + "00000000000000" + digits(5, 70); break; } /* fall through */
	case 0: t += digits(1, 5) + "." + digits(0, 5); break;
	case 1: t += digits(0, 4) + "." + digits(1, 6); break;
	case 2: t += digits(0, 3) + "." + digits(1, 4) + "e" + (s.chance(40) ? "-" : "") + digits(1, 1); break;
	default: t = digits(1, 1) + "e" + (s.chance(40) ? "-" : "") + digits(1, 1); break;
	}
	double d = strtod(t.c_str(), nullptr);
	return sx_float(d == 0 ? 0 : d, t);
}
SxP quote_datum(Src &s, int depth) {
	switch (s.weighted({20, 14, 12, 6, 14, depth > 0 ? 34 : 6})) {
	case 0:
		if (s.chance(50)) return N(s.range(-9, 99));
		return N(std::vector<int>{127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 8388608, 2147483647, -2147483647, 1000000}[s.below(16)]);
	case 1: return sx_id(odd_name(s));
	case 2: {
		if (s.chance(70)) return sx_str(rand_string(s, 40));
		std::string r;
		int n = s.chance(15) ? s.range(200, 700) : s.range(1, 10);
		for (int i = 0; i < n; i++) r += (char) (s.chance(50) ? s.range(32, 126) : s.range(0, 255));
		return sx_str(r);
	}
	case 3: return sx_bool(s.chance(50));
	case 4: return odd_float(s);
	default: {
		std::vector<SxP> k;
		int n = depth <= 0 ? 0 : s.chance(4) ? s.range(60, 300) : s.weighted({10, 20, 20, 20, 12, 8, 5});
		for (int i = 0; i < n; i++) k.push_back(n > 20 ? N(i) : quote_datum(s, depth - 1));
		return sx_list(k);
	}
	}
}
