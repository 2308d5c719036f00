#include "gen.hpp"
#include <algorithm>

SxP wrap(std::vector<SxP> st) {
	std::vector<SxP> k = {sx_list({})};
	k.insert(k.end(), st.begin(), st.end());
	return sx_list(k);
}

SxP Gen::kw(const char *n) {
	if (p.alias && s.chance(p.alias)) return sx_id(std::string("__") + n);
	return sx_id(n);
}
SxP lit_float(Src &s) {
	static const std::vector<std::pair<const char *, double>> F = {
		{"0.5", 0.5}, {"1.0", 1.0}, {"-1.5", -1.5}, {"2.25", 2.25}, {"0.0", 0.0}, {"1e1", 10.0}, {"-3.0", -3.0}, {"4.", 4.0}, {".5", .5}, {"12.75", 12.75}, {"100.5", 100.5}};
	auto &f = F[s.below((uint32_t) F.size())];
	return sx_float(f.second, f.first);
}
SxP Gen::int_lit() {
	switch (s.weighted({60, 12, 8, 8, 6})) {
	case 0: return N(s.range(0, 9));
	case 1: return N(-s.range(1, 9));
	case 2: return N(std::vector<int>{127, 128, 255, 256, -128, -129}[s.below(6)]);
	case 3: return N(std::vector<int>{32767, 32768, -32768, -32769, 65535, 65536}[s.below(6)]);
	default: return N(std::vector<int>{1000000, 2147483647, -2147483647, 16777216, -8388609}[s.below(5)]);
	}
}
std::string rand_string(Src &s, int maxlen) {
	static const std::string A = "abcxyz AB09.-+;()'!?*<>=_";
	int n;
	switch (s.weighted({70, 22, 8})) {
	case 0: n = s.range(0, std::min(maxlen, 6)); break;
	case 1: n = s.range(0, std::min(maxlen, 30)); break;
	default: n = s.range(0, maxlen);
	}
	std::string r;
	for (int i = 0; i < n; i++) {
		int k = (int) s.below((uint32_t) A.size() + 3);
		if (k < (int) A.size()) r += A[(size_t) k];
		else r += k == (int) A.size() ? '"' : k == (int) A.size() + 1 ? '\\' : '\n';
	}
	return r;
}

std::vector<const Var *> Gen::visible(std::function<bool(const Var &)> f) {
	std::vector<const Var *> r;
	std::set<std::string> seen;
	for (size_t i = scopes.size(); i-- > 0;) {
		for (size_t j = scopes[i].size(); j-- > 0;) {
			const Var &v = scopes[i][j];
			if (!seen.insert(v.name).second) continue;
			if (f(v)) r.push_back(&v);
		}
	}
	for (auto &v : gvars) if (seen.insert(v.name).second && f(v)) r.push_back(&v);
	return r;
}
std::string Gen::new_name(bool fn) {
	static const std::vector<std::string> VN = {"x", "y", "z", "xx", "xy", "xyz", "acc", "a", "ab", "abc", "abcd", "abcde", "abcdefg", "b", "tmp", "v-1", "v-10", "count", "n->m", "k*", "a-rather-long-variable-name"};
	static const std::vector<std::string> FN = {"f", "g", "h", "ff", "fg", "fgh", "do-it", "do-it!", "step", "steps", "stepping", "mk"};
	auto &pool = fn ? FN : VN;
	for (int t = 0; t < 4; t++) {
		std::string n = pool[s.below((uint32_t) pool.size())];
		bool clash = false;
		for (auto &v : scopes.back()) clash |= v.name == n;
		if (!clash && !s.chance(100 - p.shadow)) return n;
		if (!clash) {
			bool outer = false;
			for (auto &sc : scopes) for (auto &v : sc) outer |= v.name == n;
			if (!outer) return n;
		}
	}
	return strf("%s%d", fn ? "fn" : "q", fresh++);
}

/* effect levels granted to n sibling arguments */
void Gen::siblings(int n, int eff, std::vector<int> &o) {
	o.assign((size_t) n, std::min(eff, 1));
	if (eff >= 2 && n > 0 && s.chance(60)) {
		o.assign((size_t) n, 0);
		o[s.below((uint32_t) n)] = 2;
	}
}

Sig Gen::random_sig() {
	Sig g;
	int n = s.weighted({30, 40, 20, 8, 4});
	for (int i = 0; i < n; i++) g.params.push_back(std::vector<Ty>{T_INT, T_INT, T_LIST, T_STR, T_BOOL}[s.below(5)]);
	g.variadic = s.chance(15);
	g.ret = std::vector<Ty>{T_INT, T_INT, T_INT, T_LIST, T_STR, T_BOOL}[s.below(6)];
	return g;
}

void Gen::pad(std::vector<SxP> &out, int n) {
	for (int i = 0; i < n; i++) out.push_back(L(I("var"), sx_id(strf("p%d", fresh++)), N(i & 127)));
	used["padding"]++;
	if (n > 120) used["padding > 120"]++;
	if (n > 250) used["padding > 250"]++;
}

SxP Gen::lambda(const Sig &sig, int depth, const std::string &defun_name) {
	scopes.push_back({});
	fdepth++;
	std::vector<SxP> ps;
	Var self = declare("self", T_FN, false);
	self.reserved = true;
	scopes.back().push_back(self);
	scopes.push_back({});
	for (auto t : sig.params) {
		std::string n;
		bool clash;
		do { n = new_name(false); clash = false; for (auto &q : ps) clash |= q->s == n; } while (clash);
		Var v = declare(n, t, s.chance(40));
		scopes.back().push_back(v);
		ps.push_back(sx_id(n));
	}
	if (sig.variadic) {
		Var v = declare(strf("rest%d", fresh++), T_LIST, s.chance(30));
		scopes.back().push_back(v);
		ps.push_back(sx_id("&rest"));
		ps.push_back(sx_id(v.name));
	}
	scopes.push_back({});
	std::vector<SxP> b = block(depth - 1, sig.ret, s.range(0, 2));
	scopes.pop_back();
	scopes.pop_back();
	scopes.pop_back();
	fdepth--;
	std::vector<SxP> k;
	if (defun_name.size()) { k.push_back(kw("defun")); k.push_back(sx_id(defun_name)); }
	else k.push_back(kw("lambda"));
	k.push_back(sx_list(ps));
	k.insert(k.end(), b.begin(), b.end());
	used["lambda"]++;
	return sx_list(k);
}

SxP Gen::call_fn(const Var *f, int depth, int eff) {
	Var fv = *f;
	std::vector<int> e;
	int n = (int) fv.sig.params.size();
	int extra = fv.sig.variadic ? s.range(0, 4) : 0;
	siblings(n + extra, eff, e);
	std::vector<SxP> args;
	for (int i = 0; i < n; i++) args.push_back(expr(fv.sig.params[(size_t) i], depth - 1, e[(size_t) i]));
	for (int i = 0; i < extra; i++) args.push_back(expr(T_INT, depth - 1, e[(size_t) (n + i)]));
	std::vector<SxP> k;
	if (s.chance(p.apply * 3)) {
		/* apply: the tail goes through a list */
		size_t split = s.below((uint32_t) args.size() + 1);
		k = {kw("apply"), sx_id(fv.name)};
		for (size_t i = 0; i < split; i++) k.push_back(args[i]);
		std::vector<SxP> tail(args.begin() + (long) split, args.end());
		tail.insert(tail.begin(), kw("list"));
		k.push_back(sx_list(tail));
		used["apply"]++;
		return sx_list(k);
	}
	if ((fv.callable || fv.global) && !s.chance(25)) k = {sx_id(fv.name)};
	else k = {kw("funcall"), sx_id(fv.name)};
	k.insert(k.end(), args.begin(), args.end());
	used["call"]++;
	return sx_list(k);
}

SxP Gen::fault(int depth) {
	(void) depth;
	used["fault"]++;
	switch (s.below(14)) {
	case 0: return L(I("+"), N(1), sx_str("a"));
	case 1: return I("undefined-variable");
	case 2: return L(I("undefined-function"), N(1));
	case 3: return L(I("get-vector-element"), L(I("vector"), N(1), N(2)), N(s.range(2, 5)));
	case 4: return L(I("funcall"), L(I("lambda"), L(I("a")), I("a")));
	case 5: return L(I("funcall"), N(3));
	case 6: return L(I("car"), N(5));
	case 7: return L(I("substring"), sx_str("abc"), N(2), N(9));
	case 8: return L(I("apply"), L(I("lambda"), L(I("a")), I("a")), N(3));
	case 9: return L(I("composite-value"), N(1));
	case 10: return L(I("make-instance"), N(1), N(2), N(3));
	case 11: return L(I("length"), N(1));
	case 12: return L(I("concatenate"), sx_str("a"), N(1));
	default: return L(I("funcall"), L(I("lambda"), L(), N(1)), N(1), N(2));
	}
}

/* may change under a sibling expression with effects */
static bool mutable_cells(Ty t) { return t == T_LIST || t == T_VEC || t == T_COMP; }
SxP Gen::expr(Ty ty, int depth, int eff, const Sig *sig) {
	budget--;
	if (p.errors && eff >= 2 && s.chance(p.errors)) return fault(depth);
	bool leaf = depth <= 0 || budget <= 0;
	if (ty == T_ANY) ty = std::vector<Ty>{T_INT, T_BOOL, T_LIST, T_STR, T_FLOAT, T_VEC, T_SYM}[s.below(7)];
	if (ty == T_FN) {
		Sig g = sig ? *sig : random_sig();
		auto vs = visible([&](const Var &v) { return v.ty == T_FN && v.name != "self" && v.sig == g && (!v.mut || eff >= 1); });
		if (vs.size() && s.chance(60)) return sx_id(vs[s.below((uint32_t) vs.size())]->name);
		return lambda(g, std::min(depth, 2));
	}
	/* variables */
	auto vs = visible([&](const Var &v) { return v.ty == ty && ((!v.mut && !mutable_cells(v.ty)) || eff >= 1) && v.name != "self"; });
	if (vs.size() && !s.chance(leaf ? 25 : 65)) {
		const Var *v = vs[s.below((uint32_t) vs.size())];
		if (v->fdepth < fdepth) used[v->mut ? "captured mutable variable" : "captured variable"]++;
		if (fdepth - v->fdepth >= 2) used["capture across two functions"]++;
		return sx_id(v->name);
	}
	auto sub = [&](Ty t, int e) { return expr(t, depth - 1, e); };
	std::vector<int> e;
	/* forms available for every type */
	if (!leaf && eff >= 2) {
		int w = s.weighted({100, p.emits, 8, 8, 6, 10, 6, 6});
		switch (w) {
		case 1: used["emit"]++; return L(I("emit"), sub(ty, 2));
		case 2: { /* scope */
			scopes.push_back({});
			auto b = block(depth - 1, ty, s.range(0, 2));
			scopes.pop_back();
			used["scope"]++;
			return wrap(b);
		}
		case 3: used["if"]++; return L(kw("if"), sub(T_BOOL, 2), sub(ty, 2), sub(ty, 2));
		case 4: {
			auto ms = visible([&](const Var &v) { return v.ty == ty && v.mut && !v.reserved; });
			if (ms.empty()) break;
			std::string n = ms[s.below((uint32_t) ms.size())]->name;
			used["setq"]++;
			/* the value reads the state before the assignment */
			return L(kw("setq"), sx_id(n), sub(ty, 2));
		}
		case 5: {
			auto fs = visible([&](const Var &v) { return v.ty == T_FN && v.name != "self" && v.sig.ret == ty; });
			if (fs.empty()) break;
			return call_fn(fs[s.below((uint32_t) fs.size())], depth, 2);
		}
		case 6: {
			Sig g;
			g.ret = ty;
			if (s.chance(50)) g.params.push_back(T_INT);
			auto lam = lambda(g, std::min(depth, 2));
			used["immediate funcall"]++;
			if (g.params.size()) return L(kw("funcall"), lam, sub(T_INT, 0));
			return L(kw("funcall"), lam);
		}
		case 7: {
			if (!p.callbacks) break;
			used["pick3"]++;
			siblings(3, 2, e);
			return L(I("pick3"), sub(T_INT, e[0]), sub(ty, e[1]), sub(T_ANY, e[2]));
		}
		default: break;
		}
	}
	switch (ty) {
	case T_INT: {
		if (leaf) return int_lit();
		int w = s.weighted({14, 14, 10, 7, 5, 5, 8, 8, 5, 5, 4, 4, 3, 3});
		switch (w) {
		case 0: return int_lit();
		case 1: siblings(2, eff, e); return L(kw("+"), sub(T_INT, e[0]), sub(T_INT, e[1]));
		case 2: siblings(2, eff, e); return L(kw("-"), sub(T_INT, e[0]), sub(T_INT, e[1]));
		case 3: siblings(2, eff, e); return L(kw("*"), sub(T_INT, e[0]), N(s.range(-3, 9)));
		case 4: return L(kw("/"), sub(T_INT, eff), N(s.range(1, 9)));
		case 5: return L(kw("length"), sub(s.chance(50) ? T_LIST : T_STR, std::min(eff, 2)));
		case 6: { /* car of a list known to be non-empty */
			siblings(2, eff, e);
			return L(kw("car"), L(kw("cons"), sub(T_INT, e[0]), sub(T_LIST, e[1])));
		}
		case 7: {
			auto ls = visible([&](const Var &v) { return v.ty == T_VEC && v.veclen > 0 && eff >= 1; });
			if (ls.empty() || eff < 1) return L(kw("get-vector-element"), L(kw("vector"), sub(T_INT, 0), sub(T_INT, 0)), N(s.range(0, 1)));
			const Var *v = ls[s.below((uint32_t) ls.size())];
			used["vector read"]++;
			return L(kw("get-vector-element"), sx_id(v->name), N(s.range(0, v->veclen - 1)));
		}
		case 8: if (p.callbacks) return L(I("id"), sub(T_INT, eff)); return int_lit();
		case 9: siblings(3, eff, e); return L(kw("if"), sub(T_BOOL, eff >= 2 ? 2 : e[0]), sub(T_INT, eff), sub(T_INT, eff));
		case 10: if (p.callbacks) { siblings(2, eff, e); return L(I("second"), sub(T_ANY, e[0]), sub(T_INT, e[1])); } return int_lit();
		case 11: return L(kw("not"), sub(T_INT, eff));
		case 12: {
			auto cs = visible([&](const Var &v) { return v.ty == T_COMP && eff >= 1; });
			if (cs.empty() || eff < 1) return int_lit();
			return L(kw("composite-value"), sx_id(cs[s.below((uint32_t) cs.size())]->name));
		}
		default: {
			std::string t = rand_string(s, 20) + "x";
			return L(kw("get-vector-element"), sx_str(t), N((int) s.below((uint32_t) t.size())));
		}
		}
	}
	case T_BOOL: {
		if (leaf) return sx_bool(s.chance(50));
		switch (s.weighted({8, 14, 10, 10, 8, 6, 6, 5, 4, 5})) {
		case 0: return sx_bool(s.chance(50));
		case 1: siblings(2, eff, e); return L(kw("<"), sub(T_INT, e[0]), sub(T_INT, e[1]));
		case 2: siblings(2, eff, e); return L(kw(">"), sub(T_INT, e[0]), sub(T_INT, e[1]));
		case 3: siblings(2, eff, e); return L(kw("="), sub(T_INT, e[0]), sub(T_INT, e[1]));
		case 4: return L(kw("not"), sub(T_BOOL, eff));
		case 5: return L(kw("null?"), sub(T_LIST, eff));
		case 6: siblings(2, eff, e); return L(kw("="), sub(T_STR, e[0]), sub(T_STR, e[1]));
		case 7: {
			siblings(2, eff, e);
			SxP a = sub(T_SYM, e[0]), b = sub(T_SYM, e[1]);
			if (s.chance(35)) return s.chance(80) ? L(kw("="), L(kw("symbol-id"), a), L(kw("symbol-id"), b)) : L(kw("not"), L(kw("-"), L(kw("symbol-id"), a), L(kw("symbol-id"), b)));
			return L(kw("="), a, b);
		}
		case 8: siblings(2, eff, e); return L(kw("="), L(kw("type-of"), sub(T_ANY, e[0])), L(kw("type-of"), sub(T_ANY, e[1])));
		default: siblings(2, eff, e); return L(kw(s.chance(50) ? "<" : ">"), sub(T_FLOAT, e[0]), sub(s.chance(50) ? T_INT : T_FLOAT, e[1]));
		}
	}
	case T_FLOAT: {
		if (leaf || !s.chance(70)) return lit_float(s);
		siblings(2, eff, e);
		switch (s.below(5)) {
		case 0: return L(kw("+"), sub(T_FLOAT, e[0]), sub(T_FLOAT, e[1]));
		case 1: return L(kw("-"), sub(T_INT, e[0]), sub(T_FLOAT, e[1]));
		case 2: return L(kw("*"), sub(T_FLOAT, e[0]), sub(T_INT, e[1]));
		case 3: return L(kw("/"), sub(T_FLOAT, e[0]), N(s.range(1, 8)));
		default: return L(kw("-"), sub(T_FLOAT, e[0]), sub(T_FLOAT, e[1]));
		}
	}
	case T_STR: {
		if (leaf || !s.chance(70)) { used["string"]++; return sx_str(rand_string(s, 300)); }
		siblings(2, eff, e);
		switch (s.below(5)) {
		case 0: return L(kw("concatenate"), sub(T_STR, e[0]), sub(s.chance(25) ? T_SYM : T_STR, e[1]));
		case 1: {
			std::string t = rand_string(s, 40);
			int a = (int) s.below((uint32_t) t.size() + 1);
			int b = a + (int) s.below((uint32_t) (t.size() - (size_t) a) + 1);
			if (a == (int) t.size()) a = 0;
			return L(kw("substring"), sx_str(t), N(a), N(b));
		}
		case 2: return L(kw("symbol-string"), sub(T_SYM, eff));
		case 3: {
			std::vector<SxP> k = {kw(s.chance(50) ? "list" : "vector")};
			int n = s.range(0, 6);
			for (int i = 0; i < n; i++) k.push_back(N(s.range(32, 126)));
			return L(kw("make-string"), sx_list(k));
		}
		default: return L(kw("cdr"), sub(T_STR, eff));
		}
	}
	case T_SYM: {
		static const std::vector<std::string> SY = {"a", "b", "ab", "foo", "foo-bar", "+", "car", "if", "x", "&rest", "*g*", "->"};
		if (leaf || !s.chance(15)) return L(kw("quote"), sx_id(s.pick(SY)));
		siblings(3, eff, e);
		return L(kw("if"), sub(T_BOOL, eff >= 2 ? 2 : e[0]), sub(T_SYM, eff), sub(T_SYM, eff));
	}
	case T_LIST: {
		if (leaf) {
			if (s.chance(40)) return sx_list({});
			std::vector<SxP> k = {kw("list")};
			int n = s.range(1, 3);
			for (int i = 0; i < n; i++) k.push_back(int_lit());
			return sx_list(k);
		}
		switch (s.weighted({20, 14, 8, 8, 5, 3})) {
		case 0: {
			int n = s.range(0, s.chance(5) ? 20 : 4);
			siblings(n, eff, e);
			std::vector<SxP> k = {kw("list")};
			for (int i = 0; i < n; i++) k.push_back(sub(T_INT, e[(size_t) i]));
			used["list"]++;
			return sx_list(k);
		}
		case 1: siblings(2, eff, e); return L(kw("cons"), sub(T_INT, e[0]), sub(T_LIST, e[1]));
		case 2: if (eff < 1) return sx_list({}); return L(kw("cdr"), sub(T_LIST, eff));
		case 3: if (!p.quotes) return sx_list({}); else {
			std::vector<SxP> k;
			int n = s.range(1, 5);
			for (int i = 0; i < n; i++) k.push_back(int_lit());
			used["quoted list"]++;
			return L(kw("quote"), sx_list(k));
		}
		case 4: siblings(2, eff, e); return L(kw("set-car"), L(kw("cons"), sub(T_INT, e[0]), sub(T_LIST, e[1])), N(s.range(0, 9)));
		default: siblings(2, eff, e); return L(kw("set-cdr"), L(kw("list"), sub(T_INT, e[0])), sub(T_LIST, e[1]));
		}
	}
	case T_VEC: {
		int n = s.range(1, 4);
		siblings(n, eff, e);
		if (!leaf && s.chance(20)) return L(kw("make-vector"), N(n), sub(T_INT, eff));
		std::vector<SxP> k = {kw("vector")};
		for (int i = 0; i < n; i++) k.push_back(leaf ? int_lit() : sub(T_INT, e[(size_t) i]));
		return sx_list(k);
	}
	case T_COMP: return L(kw("make-instance"), L(kw("make-type")), int_lit(), lambda(Sig{{T_INT}, false, T_INT}, 1));
	default: return int_lit();
	}
}

void Gen::stmt(std::vector<SxP> &out, int depth) {
	std::vector<int> w = {30, p.closures, p.loops, 10, 8, p.vecs, p.lists / 2, p.comps, p.emits, p.gcs, p.globals ? 8 : 0, 5, 4, 4};
	switch (s.weighted(w)) {
	case 0: { /* var */
		Ty t = std::vector<Ty>{T_INT, T_INT, T_LIST, T_STR, T_BOOL, T_FLOAT, T_SYM}[s.below(7)];
		SxP e = expr(t, depth - 1, 2);
		Var v = declare(new_name(false), t, s.chance(60));
		out.push_back(L(kw("var"), sx_id(v.name), e));
		scopes.back().push_back(v);
		break;
	}
	case 1: { /* function */
		Sig g = random_sig();
		if (s.chance(60)) {
			std::string n = new_name(true);
			if (s.chance(20) && g.params.size() && g.params[0] == T_INT && !g.variadic && g.ret == T_INT) {
				/* bounded recursion */
				Sig h;
				h.params = {T_INT, T_INT};
				scopes.push_back({});
				fdepth++;
				Var pn = declare("n", T_INT, false), pm = declare("m", T_INT, s.chance(30));
				scopes.back() = {pn, pm};
				SxP base = expr(T_INT, 2, 2);
				SxP step = expr(T_INT, 2, 0);
				scopes.pop_back();
				fdepth--;
				SxP rec = L(I("self"), L(I("-"), I("n"), N(1)), L(I("+"), I("m"), step));
				if (s.chance(30)) rec = L(I("funcall"), I("self"), L(I("-"), I("n"), N(1)), L(I("+"), I("m"), step));
				out.push_back(L(kw("defun"), sx_id(n), L(I("n"), I("m")), L(kw("if"), L(kw("<"), I("n"), N(1)), base, L(kw("+"), N(1), rec))));
				out.push_back(L(I("emit"), L(sx_id(n), N(s.range(0, 12)), N(s.range(0, 5)))));
				used["recursion"]++;
				/* not offered to later calls: an unbounded argument would run away */
				Var v = declare(n, T_SYM, false);
				v.reserved = true;
				v.ty = T_ANY;
				scopes.back().push_back(v);
				break;
			}
			out.push_back(lambda(g, std::min(depth, 3), n));
			Var v = declare(n, T_FN, false);
			v.callable = true;
			v.sig = g;
			scopes.back().push_back(v);
			used["defun"]++;
		}
		else {
			SxP lam = lambda(g, std::min(depth, 3));
			Var v = declare(new_name(false), T_FN, s.chance(30));
			v.sig = g;
			out.push_back(L(kw("var"), sx_id(v.name), lam));
			scopes.back().push_back(v);
		}
		break;
	}
	case 2: { /* while */
		Var c = declare(strf("i%d", fresh++), T_INT, true);
		c.reserved = true;
		out.push_back(L(kw("var"), sx_id(c.name), N(0)));
		scopes.back().push_back(c);
		int n = s.range(0, 5);
		scopes.push_back({});
		std::vector<SxP> b = block(depth - 1, T_INT, s.range(0, 2));
		scopes.pop_back();
		std::vector<SxP> k = {kw("while"), L(kw("<"), sx_id(c.name), N(n))};
		SxP inc = L(kw("setq"), sx_id(c.name), L(kw("+"), sx_id(c.name), N(1)));
		if (s.chance(50)) { k.push_back(inc); k.insert(k.end(), b.begin(), b.end()); }
		else { k.insert(k.end(), b.begin(), b.end()); k.push_back(inc); }
		out.push_back(sx_list(k));
		used["while"]++;
		break;
	}
	case 3: { /* assignment */
		auto ms = visible([&](const Var &v) { return v.mut && !v.reserved && v.ty != T_FN && v.ty != T_VEC && v.ty != T_COMP; });
		if (ms.empty()) { out.push_back(expr(T_ANY, depth - 1, 2)); break; }
		Var v = *ms[s.below((uint32_t) ms.size())];
		if (v.fdepth < fdepth) used["assignment to a captured variable"]++;
		out.push_back(L(kw("setq"), sx_id(v.name), expr(v.ty, depth - 1, 2)));
		used["setq"]++;
		break;
	}
	case 4: { /* when / unless */
		scopes.push_back({});
		SxP c = expr(s.chance(80) ? T_BOOL : s.chance(50) ? T_LIST : T_INT, depth - 1, 2);
		auto b = block(depth - 1, T_ANY, s.range(0, 2));
		scopes.pop_back();
		std::vector<SxP> k = {kw(s.chance(50) ? "when" : "unless"), c};
		k.insert(k.end(), b.begin(), b.end());
		out.push_back(sx_list(k));
		used["when/unless"]++;
		break;
	}
	case 5: { /* vector variable and updates */
		auto vs = visible([&](const Var &v) { return v.ty == T_VEC && v.veclen > 0; });
		if (vs.size() && s.chance(60)) {
			Var v = *vs[s.below((uint32_t) vs.size())];
			out.push_back(L(kw("set-vector-element"), sx_id(v.name), N(s.range(0, v.veclen - 1)), expr(T_INT, depth - 1, 2)));
			used["vector write"]++;
			break;
		}
		int n = s.range(1, 5);
		std::vector<SxP> k = {kw("vector")};
		std::vector<int> e;
		siblings(n, 2, e);
		for (int i = 0; i < n; i++) k.push_back(expr(T_INT, depth - 2, e[(size_t) i]));
		Var v = declare(new_name(false), T_VEC, false);
		v.veclen = n;
		out.push_back(L(kw("var"), sx_id(v.name), sx_list(k)));
		scopes.back().push_back(v);
		break;
	}
	case 6: { /* list mutation */
		auto ls = visible([&](const Var &v) { return v.ty == T_LIST; });
		if (ls.empty()) { out.push_back(L(I("emit"), expr(T_LIST, depth - 1, 2))); break; }
		std::string n = ls[s.below((uint32_t) ls.size())]->name;
		used["list mutation"]++;
		if (s.chance(60)) out.push_back(L(kw("when"), sx_id(n), L(kw("set-car"), sx_id(n), expr(T_INT, depth - 1, 1))));
		else {
			std::vector<SxP> k = {kw("list")};
			int m = s.range(0, 3);
			for (int i = 0; i < m; i++) k.push_back(int_lit());
			out.push_back(L(kw("when"), sx_id(n), L(kw("set-cdr"), sx_id(n), sx_list(k))));
		}
		break;
	}
	case 7: { /* composite */
		auto cs = visible([&](const Var &v) { return v.ty == T_COMP; });
		if (cs.size() && s.chance(60)) {
			Var v = *cs[s.below((uint32_t) cs.size())];
			used["composite"]++;
			switch (s.below(3)) {
			case 0: out.push_back(L(kw("set-composite-value"), sx_id(v.name), expr(T_INT, depth - 1, 2))); break;
			case 1: out.push_back(L(I("emit"), L(kw("composite-value"), sx_id(v.name)))); break;
			default: out.push_back(L(I("emit"), L(kw("funcall"), sx_id(v.name), expr(T_INT, depth - 1, 2)))); break;
			}
			break;
		}
		SxP e = expr(T_COMP, depth - 1, 2);
		Var v = declare(new_name(false), T_COMP, false);
		out.push_back(L(kw("var"), sx_id(v.name), e));
		scopes.back().push_back(v);
		break;
	}
	case 8: out.push_back(L(I("emit"), expr(T_ANY, depth - 1, 2))); used["emit"]++; break;
	case 9: out.push_back(L(I("gc!"))); used["gc!"]++; break;
	case 10: {
		static const std::vector<std::string> GN = {"*g1*", "*g10", "*g10*", "glob", "global-x", "globa", "*gg*", "global-xyz"};
		std::string n = s.pick(GN);
		for (auto &g : gvars) if (g.name == n) {
			if (g.ty == T_FN) { out.push_back(L(I("emit"), expr(T_INT, depth - 1, 2))); return; }
			Var v = g;
			out.push_back(L(kw(s.chance(50) ? "setq" : "global"), sx_id(n), expr(v.ty, depth - 1, 2)));
			used["global write"]++;
			return;
		}
		if (scopes.size() > 1) { out.push_back(expr(T_INT, depth - 1, 2)); return; } /* only at the outermost level: certainly executed */
		Var v = declare(n, s.chance(30) ? T_FN : std::vector<Ty>{T_INT, T_LIST, T_STR}[s.below(3)], true);
		v.global = true;
		v.sig = random_sig();
		out.push_back(L(kw("global"), sx_id(n), v.ty == T_FN ? lambda(v.sig, 2) : expr(v.ty, depth - 1, 2)));
		if (v.ty == T_FN) v.reserved = true;
		gvars.push_back(v);
		used["global"]++;
		break;
	}
	case 11: { /* counter closures sharing a variable */
		std::string c = strf("c%d", fresh++), a = strf("inc%d", fresh++), b = strf("get%d", fresh++);
		out.push_back(L(kw("var"), sx_id(c), int_lit()));
		if (s.chance(30) && p.wide) pad(out, s.range(1, 20));
		out.push_back(L(kw("defun"), sx_id(a), L(I("d")), L(kw("setq"), sx_id(c), L(kw("+"), sx_id(c), I("d")))));
		out.push_back(L(kw("defun"), sx_id(b), L(), sx_id(c)));
		Var va = declare(a, T_FN, false), vb = declare(b, T_FN, false), vc = declare(c, T_INT, true);
		va.callable = vb.callable = true;
		va.sig.params = {T_INT};
		scopes.back().push_back(vc);
		scopes.back().push_back(va);
		scopes.back().push_back(vb);
		used["shared upvalue"]++;
		break;
	}
	case 12: { /* closures built in a loop, each with its own variable, called afterwards */
		std::string l = strf("fs%d", fresh++), i = strf("i%d", fresh++), o = strf("own%d", fresh++), r = strf("r%d", fresh++);
		out.push_back(L(kw("var"), sx_id(l), L()));
		out.push_back(L(kw("var"), sx_id(i), N(0)));
		int n = s.range(1, 4);
		out.push_back(L(kw("while"), L(kw("<"), sx_id(i), N(n)),
		                L(kw("var"), sx_id(o), L(kw("*"), sx_id(i), N(s.range(1, 9)))),
		                L(kw("setq"), sx_id(l), L(kw("cons"), L(kw("lambda"), L(), L(kw("setq"), sx_id(o), L(kw("+"), sx_id(o), N(1)))), sx_id(l))),
		                L(kw("setq"), sx_id(i), L(kw("+"), sx_id(i), N(1)))));
		out.push_back(L(kw("var"), sx_id(r), sx_id(l)));
		if (s.chance(50)) out.push_back(L(I("emit"), L(kw("funcall"), L(kw("car"), sx_id(l)))));
		out.push_back(L(kw("while"), sx_id(r), L(I("emit"), L(kw("funcall"), L(kw("car"), sx_id(r)))), L(kw("setq"), sx_id(r), L(kw("cdr"), sx_id(r)))));
		for (auto &q : {l, i, o, r}) { Var v = declare(q, T_ANY, false); v.reserved = true; if (q != o) scopes.back().push_back(v); }
		used["closures in a loop"]++;
		break;
	}
	default: { /* a function that returns a closure (upvalue outlives its scope) */
		std::string f = strf("mk%d", fresh++), g = strf("o%d", fresh++);
		out.push_back(L(kw("defun"), sx_id(f), L(I("start")), L(kw("var"), I("st"), I("start")),
		                L(kw("lambda"), L(I("d")), L(kw("setq"), I("st"), L(kw("+"), I("st"), I("d"))))));
		out.push_back(L(kw("var"), sx_id(g), L(sx_id(f), int_lit())));
		Var v = declare(g, T_FN, false);
		v.sig.params = {T_INT};
		Var vf = declare(f, T_ANY, false);
		vf.reserved = true;
		scopes.back().push_back(vf);
		scopes.back().push_back(v);
		used["escaping closure"]++;
		break;
	}
	}
}

std::vector<SxP> Gen::block(int depth, Ty ret, int n, int eff) {
	std::vector<SxP> out;
	(void) eff;
	if (p.wide && s.chance(p.wide)) {
		static const std::vector<int> W = {3, 20, 60, 118, 124, 128, 130, 135, 250, 254, 258, 300};
		int k = W[s.below((uint32_t) W.size())];
		if (k <= p.maxpad) pad(out, k);
	}
	for (int i = 0; i < n && budget > 0; i++) {
		stmt(out, depth);
		if (p.wide && s.chance(p.wide / 3)) pad(out, s.range(1, 40));
	}
	out.push_back(expr(ret, depth, 2));
	return out;
}

SxP Gen::program() {
	int n = s.range(1, p.stmts);
	std::vector<SxP> b = block(p.depth, T_ANY, n);
	return wrap(b);
}
