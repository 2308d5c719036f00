#include "lang.hpp"
#include <cmath>
#include <exception>
#include <functional>

/* ---- S-expressions -------------------------------------------------------------------------------------------- */
SxP sx_int(long long i) { auto x = std::make_shared<Sx>(); x->t = Sx::INT; x->i = i; return x; }
SxP sx_float(double f, const std::string &sp) { auto x = std::make_shared<Sx>(); x->t = Sx::FLOAT; x->f = f; x->s = sp; return x; }
SxP sx_bool(bool b) { auto x = std::make_shared<Sx>(); x->t = Sx::BOOL; x->i = b; return x; }
SxP sx_str(const std::string &s) { auto x = std::make_shared<Sx>(); x->t = Sx::STR; x->s = s; return x; }
SxP sx_id(const std::string &s) { auto x = std::make_shared<Sx>(); x->t = Sx::ID; x->s = s; return x; }
SxP sx_list(std::vector<SxP> k) { auto x = std::make_shared<Sx>(); x->t = Sx::LIST; x->k = std::move(k); return x; }

static void render_to(const SxP &x, std::string &o) {
	switch (x->t) {
	case Sx::INT: if (x->s.size()) o += x->s; else o += std::to_string(x->i); break;
	case Sx::FLOAT: o += x->s; break;
	case Sx::BOOL: o += x->i ? "true" : "false"; break;
	case Sx::STR:
		o += '"';
		for (char c : x->s) {
			if (c == '"' || c == '\\') { o += '\\'; o += c; }
			else if (c == '\n') o += "\\n";
			else o += c;
		}
		o += '"';
		break;
	case Sx::ID: o += x->s; break;
	case Sx::LIST:
		o += '(';
		for (size_t i = 0; i < x->k.size(); i++) { if (i) o += ' '; render_to(x->k[i], o); }
		o += ')';
		break;
	}
}
std::string render(const SxP &x) { std::string o; render_to(x, o); return o; }
std::string pretty(const SxP &x, int ind) {
	std::string one = render(x);
	if (one.size() + (size_t) ind < 100 || x->t != Sx::LIST || x->k.empty()) return one;
	auto padding = [](const SxP &y) {
		return y->t == Sx::LIST && y->k.size() == 3 && y->k[0]->t == Sx::ID && y->k[0]->s == "var" && y->k[1]->t == Sx::ID && y->k[1]->s.size() > 1 &&
		       y->k[1]->s[0] == 'p' && isdigit((unsigned char) y->k[1]->s[1]) && y->k[2]->t == Sx::INT;
	};
	std::string o = "(" + pretty(x->k[0], ind + 1);
	for (size_t i = 1; i < x->k.size(); i++) {
		size_t j = i;
		while (j < x->k.size() && padding(x->k[j])) j++;
		if (j - i > 3) {
			o += "\n" + std::string((size_t) ind + 1, ' ') + render(x->k[i]) + " ... " + render(x->k[j - 1]) + strf(" ;; %zu of them", j - i);
			i = j - 1;
			continue;
		}
		o += "\n" + std::string((size_t) ind + 1, ' ') + pretty(x->k[i], ind + 1);
	}
	return o + ")";
}

/* ---- values --------------------------------------------------------------------------------------------------- */
static VP mk(Value::T t) { auto v = std::make_shared<Value>(); v->t = t; return v; }
VP v_nil() { static VP n = mk(Value::NIL); return n; }
VP v_int(long long i) { auto v = mk(Value::INT); v->i = i; return v; }
VP v_bool(bool b) { auto v = mk(Value::BOOL); v->i = b; return v; }
VP v_float(double f) { auto v = mk(Value::FLOAT); v->f = f; return v; }
VP v_str(const std::string &s) { auto v = mk(Value::STR); v->s = s; return v; }
VP v_sym(const std::string &s) { auto v = mk(Value::SYM); v->s = s; return v; }
static VP v_cons(VP a, VP d) { auto v = mk(Value::LIST); v->cons = std::make_shared<Cons>(); v->cons->car = a; v->cons->cdr = d; return v; }

std::string fmt_float(double d) {
	char t[64];
	if (d != d) return "nan";
	if (d == 0) d = 0; /* either zero */
	snprintf(t, sizeof t, "%.12gf", d);
	return t;
}
static void bytes(std::string &o, const std::string &s) {
	for (unsigned char c : s) {
		if (c >= 32 && c < 127 && c != '"' && c != '\\') o += (char) c;
		else o += strf("\\x%02x", c);
	}
}
static void dump_to(std::string &o, const VP &v, int depth, int &nodes) {
	if (depth > 24 || nodes++ > 4000) { o += "..."; return; }
	switch (v->t) {
	case Value::NIL: o += "()"; break;
	case Value::BOOL: o += v->i ? "#t" : "#f"; break;
	case Value::INT: o += std::to_string(v->i); break;
	case Value::FLOAT: o += fmt_float(v->f); break;
	case Value::STR: o += '"'; bytes(o, v->s); o += '"'; break;
	case Value::SYM: o += '\''; bytes(o, v->s); break;
	case Value::LIST: {
		o += '(';
		const Cons *c = v->cons.get();
		bool first = true;
		for (;;) {
			if (nodes++ > 4000) { o += " ..."; break; }
			if (!first) o += ' ';
			first = false;
			dump_to(o, c->car, depth + 1, nodes);
			if (c->cdr->t == Value::NIL) break;
			if (c->cdr->t == Value::LIST) { c = c->cdr->cons.get(); continue; }
			o += " . ";
			dump_to(o, c->cdr, depth + 1, nodes);
			break;
		}
		o += ')';
		break;
	}
	case Value::VEC:
		o += '[';
		if (v->vec) for (size_t i = v->off; i < v->vec->v.size(); i++) {
			if (nodes++ > 4000) { o += " ..."; break; }
			if (i != v->off) o += ' ';
			dump_to(o, v->vec->v[i], depth + 1, nodes);
		}
		o += ']';
		break;
	case Value::CLOSURE: o += strf("<closure %d%s>", (int) v->fn->params.size(), v->fn->variadic ? "+" : ""); break;
	case Value::CALLBACK: o += "<callback>"; break;
	case Value::TYPE: o += v->i < 0 ? "<type>" : "<user type>"; break;
	case Value::PAIR:
		o += "<pair ";
		dump_to(o, v->comp->value, depth + 1, nodes);
		o += ' ';
		dump_to(o, v->comp->function, depth + 1, nodes);
		o += '>';
		break;
	case Value::COMPOSITE:
		o += "{";
		dump_to(o, v->comp->value, depth + 1, nodes);
		o += ' ';
		dump_to(o, v->comp->function, depth + 1, nodes);
		o += '}';
		break;
	}
}
std::string dump(const VP &v) { std::string o; int n = 0; dump_to(o, v, 0, n); return o; }

bool truthy(const VP &v) {
	switch (v->t) {
	case Value::NIL: return false;
	case Value::BOOL: case Value::INT: return v->i != 0;
	case Value::FLOAT: return v->f != 0;
	case Value::SYM: case Value::LIST: case Value::CLOSURE: case Value::CALLBACK: return true;
	case Value::VEC:
		return v->vec && v->off < v->vec->v.size();
	case Value::STR:
		if (v->s.empty()) throw RefUnspecified{"truth of an empty string"};
		return true;
	default: throw RefUnspecified{"truth of a type or composite"};
	}
}

/* ---- interpreter ---------------------------------------------------------------------------------------------- */
static const char *UNARY[] = {"not", "car", "cdr", "null?", "type-of", "composite-value", "composite-function", "make-string", "length",
                              "symbol-string", "symbol-id", nullptr};
static const char *BINARY[] = {"*", "/", "+", "-", "=", "<", ">", "cons", "set-car", "set-cdr", "make-vector", "get-vector-element",
                               "set-composite-value", "set-composite-function", "concatenate", nullptr};
static const char *TERNARY[] = {"set-vector-element", "make-instance", "substring", nullptr};
static std::unordered_map<std::string, int> &arity_table() {
	static std::unordered_map<std::string, int> t;
	if (t.empty()) {
		for (auto p = UNARY; *p; p++) t[*p] = 1;
		for (auto p = BINARY; *p; p++) t[*p] = 2;
		for (auto p = TERNARY; *p; p++) t[*p] = 3;
		t["make-type"] = 0;
	}
	return t;
}
static bool is_num(const VP &v) { return v->t == Value::INT || v->t == Value::FLOAT || v->t == Value::BOOL; }
static double as_f(const VP &v) { return v->t == Value::FLOAT ? v->f : (double) v->i; }

static VP arith(const std::string &op, const VP &a, const VP &b) {
	if (!is_num(a) || !is_num(b)) throw RefError{op + ": not a number"};
	if (op == "<" || op == ">") {
		if (a->t == Value::FLOAT || b->t == Value::FLOAT) return v_bool(op == "<" ? as_f(a) < as_f(b) : as_f(a) > as_f(b));
		return v_bool(op == "<" ? a->i < b->i : a->i > b->i);
	}
	if (a->t == Value::BOOL && b->t == Value::BOOL) throw RefUnspecified{"arithmetic on two booleans"};
	if (a->t == Value::FLOAT || b->t == Value::FLOAT) {
		double x = as_f(a), y = as_f(b), r;
		if (op == "+") r = x + y;
		else if (op == "-") r = x - y;
		else if (op == "*") r = x * y;
		else {
			if (y == 0) throw RefUnspecified{"float division by zero"};
			r = x / y;
		}
		return v_float(r);
	}
	__int128 x = a->i, y = b->i, r;
	if (op == "+") r = x + y;
	else if (op == "-") r = x - y;
	else if (op == "*") r = x * y;
	else {
		if (y == 0) throw RefError{"division by zero"};
		r = x / y;
	}
	if (r > 4000000000000000000ll || r < -4000000000000000000ll) throw RefUnspecified{"integer overflow"};
	return v_int((long long) r);
}
static VP equal(const VP &a, const VP &b) {
	switch (a->t) {
	case Value::CLOSURE: case Value::COMPOSITE: case Value::CALLBACK: case Value::PAIR: throw RefUnspecified{"= on a function or composite"};
	default: break;
	}
	switch (b->t) {
	case Value::CLOSURE: case Value::COMPOSITE: case Value::CALLBACK: case Value::PAIR: throw RefUnspecified{"= on a function or composite"};
	default: break;
	}
	if (a->t != b->t) {
		return v_bool(false);
	}
	switch (a->t) {
	case Value::NIL: return v_bool(true);
	case Value::BOOL: case Value::INT: case Value::TYPE: return v_bool(a->i == b->i);
	case Value::FLOAT: return v_bool(a->f == b->f);
	case Value::STR: case Value::SYM: return v_bool(a->s == b->s);
	case Value::LIST:
		if (a->cons->shared || b->cons->shared) throw RefUnspecified{"identity of a rest list"};
		return v_bool(a->cons == b->cons);
	case Value::VEC:
		if (!a->vec || !b->vec || a->off >= a->vec->v.size() || b->off >= b->vec->v.size()) throw RefUnspecified{"= on empty vectors"};
		return v_bool(a->vec == b->vec && a->off == b->off);
	default: return v_bool(false);
	}
}
static bool empty_vec(const VP &v) { return !v->vec || v->off >= v->vec->v.size(); }
static VP empty_vector() { return mk(Value::VEC); }

Interp::Interp() { ct = std::make_shared<Scope>(); }

Box Interp::lookup(const std::string &n, const ScopeP &sc) {
	long lim = 0x7fffffffffffffff;
	for (Scope *s = sc.get(); s; s = s->parent.get()) {
		auto it = s->vars.find(n);
		if (it != s->vars.end()) {
			auto b = s->born.find(n);
			if (b == s->born.end() || b->second < lim) return it->second;
		}
		if (s->limit < lim) lim = s->limit;
	}
	return nullptr;
}
int Interp::lookup_fn(const std::string &n, const ScopeP &sc, std::shared_ptr<Closure> *m, Box *fn) {
	long lim = 0x7fffffffffffffff;
	for (Scope *s = sc.get(); s; s = s->parent.get()) {
		auto it = s->funcs.find(n);
		if (it != s->funcs.end()) {
			auto b = s->born.find(n);
			if (b == s->born.end() || b->second < lim) { if (it->second == 2) *m = s->macros[n]; else if (fn) *fn = s->fbox[n]; return it->second; }
		}
		if (s->limit < lim) lim = s->limit;
	}
	return -1;
}

VP Interp::quote(const SxP &x) {
	switch (x->t) {
	case Sx::INT: return v_int(x->i);
	case Sx::FLOAT: return v_float(x->f);
	case Sx::BOOL: return v_bool(x->i);
	case Sx::STR: return v_str(x->s);
	case Sx::ID: return v_sym(x->s);
	case Sx::LIST: {
		VP r = v_nil();
		for (size_t i = x->k.size(); i-- > 0;) r = v_cons(quote(x->k[i]), r);
		return r;
	}
	}
	return v_nil();
}
SxP Interp::to_sx(const VP &v) {
	switch (v->t) {
	case Value::NIL: return sx_list({});
	case Value::BOOL: return sx_bool(v->i);
	case Value::INT: return sx_int(v->i);
	case Value::FLOAT: return sx_float(v->f, "?");
	case Value::STR: return sx_str(v->s);
	case Value::SYM: return sx_id(v->s);
	case Value::LIST: {
		std::vector<SxP> k;
		VP p = v;
		while (p->t == Value::LIST) {
			k.push_back(to_sx(p->cons->car));
			p = p->cons->cdr;
			if (k.size() > 5000) throw RefUnspecified{"macro result too long"};
		}
		if (p->t != Value::NIL) throw RefUnspecified{"dotted macro result"};
		return sx_list(k);
	}
	default: throw RefUnspecified{"macro result is not source"};
	}
}
SxP Interp::expand(const SxP &x, const std::shared_ptr<Closure> &m) {
	auto it = expansions.find(x.get());
	if (it != expansions.end()) return it->second;
	std::vector<VP> args;
	for (size_t i = 1; i < x->k.size(); i++) args.push_back(quote(x->k[i]));
	VP f = mk(Value::CLOSURE);
	f->fn = m;
	bool was = in_ct;
	in_ct = true;
	VP r;
	try { r = call(f, args); } catch (RefError &e) { throw RefUnspecified{"macro expansion fails: " + e.why}; }
	in_ct = was;
	SxP s = to_sx(r);
	ops["macro expansion"]++;
	expansions[x.get()] = s;
	keep.push_back(x);
	return s;
}

bool printable(const VP &v);
VP Interp::callback(const std::string &name, const std::vector<VP> &a) {
	auto need = [&](size_t n) { if (a.size() != n) throw RefUnspecified{"callback arity"}; };
	std::string pre = in_ct ? "ct:" : "";
	ops["callback"]++;
	if (name.compare(0, 5, "pair-")) for (auto &v : a) if (!printable(v)) throw RefUnspecified{"cyclic or huge"};
	if (name == "emit") { need(1); trace += pre + dump(a[0]) + "\n"; return a[0]; }
	if (name == "id") { need(1); return a[0]; }
	if (name == "second") { need(2); return a[1]; }
	if (name == "pick3") {
		need(3);
		trace += pre + "1:" + dump(a[0]) + "\n" + pre + "2:" + dump(a[1]) + "\n" + pre + "3:" + dump(a[2]) + "\n";
		return a[1];
	}
	if (name == "gc!") { need(0); return v_nil(); }
	if (name == "pair") {
		need(2);
		VP v = mk(Value::PAIR);
		v->comp = std::make_shared<Composite>();
		v->comp->value = a[0];
		v->comp->function = a[1];
		return v;
	}
	if (name == "pair-first" || name == "pair-second" || name == "pair-set!") {
		need(name == "pair-set!" ? 2 : 1);
		if (a[0]->t != Value::PAIR) throw RefError{name};
		if (name == "pair-first") return a[0]->comp->value;
		if (name == "pair-second") return a[0]->comp->function;
		a[0]->comp->value = a[1];
		muts++;
		return a[0];
	}
	if (name == "boom") { need(0); throw RefError{"boom"}; }
	if (name == "ccall0" || name == "ccall1" || name == "ccall2") {
		need((size_t) (name[5] - '0') + 1);
		return call(a[0], std::vector<VP>(a.begin() + 1, a.end()));
	}
	throw RefUnspecified{"callback " + name};
}

VP Interp::call(const VP &f0, const std::vector<VP> &args) {
	VP f = f0;
	int guard = 0;
	while (f->t == Value::COMPOSITE) { f = f->comp->function; ops["composite call"]++; if (++guard > 20) throw RefUnspecified{"composite cycle"}; }
	if (f->t == Value::CALLBACK) return callback(f->s, args);
	if (f->t != Value::CLOSURE) throw RefError{"call of a non-function"};
	auto &c = *f->fn;
	bool rest_shared = this->rest_shared;
	this->rest_shared = false;
	if (c.variadic ? args.size() < c.params.size() : args.size() != c.params.size()) throw RefError{"arity"};
	if (++depth > max_depth) throw RefLimit{};
	ScopeP self = std::make_shared<Scope>();
	self->parent = c.env;
	self->limit = c.born;
	self->vars["self"] = self->fbox["self"] = std::make_shared<VP>(f);
	self->funcs["self"] = 1;
	ScopeP sc = std::make_shared<Scope>();
	sc->parent = self;
	for (size_t i = 0; i < c.params.size(); i++) sc->vars[c.params[i]] = std::make_shared<VP>(args[i]);
	if (c.variadic) {
		VP r = v_nil();
		for (size_t i = args.size(); i-- > c.params.size();) { r = v_cons(args[i], r); r->cons->shared = rest_shared; }
		sc->vars[c.rest] = std::make_shared<VP>(r);
		ops["variadic call"]++;
	}
	ops["call"]++;
	ScopeP b = std::make_shared<Scope>();
	b->parent = sc;
	VP r = body(c.body, 0, b);
	depth--;
	return r;
}

VP Interp::body(const std::vector<SxP> &forms, size_t from, const ScopeP &sc) {
	VP r = v_nil();
	for (size_t i = from; i < forms.size(); i++) r = stmt(forms[i], sc);
	return r;
}

static std::string strip(const std::string &s) { return s.size() > 2 && s[0] == '_' && s[1] == '_' ? s.substr(2) : s; }

/* a form in body position: definitions bind in `sc` */
VP Interp::stmt(const SxP &x, const ScopeP &sc) {
	if (x->t == Sx::LIST && x->k.size() && x->k[0]->t == Sx::ID) {
		const std::string &h0 = x->k[0]->s;
		std::shared_ptr<Closure> m;
		int fk = lookup_fn(h0, sc, &m);
		if (fk == 2) return stmt(expand(x, m), sc);
		if (fk != 1) {
			std::string h = strip(h0);
			if (h == "var") {
				VP v = eval(x->k.at(2), sc);
				sc->vars[x->k[1]->s] = std::make_shared<VP>(v);
				sc->born[x->k[1]->s] = clock++;
				ops["var"]++;
				return v;
			}
			if (h == "defun") {
				auto c = std::make_shared<Sx>(*x);
				std::vector<SxP> k(x->k.begin() + 1, x->k.end());
				k[0] = sx_id("__lambda");
				SxP lam = sx_list(k);
				keep.push_back(lam);
				VP v = eval(lam, sc);
				sc->vars[x->k[1]->s] = sc->fbox[x->k[1]->s] = std::make_shared<VP>(v);
				sc->born[x->k[1]->s] = clock++;
				sc->funcs[x->k[1]->s] = 1;
				ops["defun"]++;
				return v;
			}
			if (h == "defmacro") {
				VP v = eval(sx_list([&] { std::vector<SxP> k(x->k.begin() + 1, x->k.end()); k[0] = sx_id("__lambda"); return k; }()), ct);
				sc->funcs[x->k[1]->s] = 2;
				sc->macros[x->k[1]->s] = v->fn;
				sc->born[x->k[1]->s] = clock++;
				ct->vars[x->k[1]->s] = std::make_shared<VP>(v);
				ops["defmacro"]++;
				return v_nil();
			}
			if (h == "noscope") return body(x->k, 1, sc);
		}
	}
	return eval(x, sc);
}

static VP deep_copy(const VP &v, int d = 0) {
	if (d > 200) throw RefUnspecified{"deep"};
	if (v->t == Value::LIST) return v_cons(deep_copy(v->cons->car, d + 1), deep_copy(v->cons->cdr, d + 1));
	return v;
}

VP Interp::keyword(const std::string &op, const SxP &x, const ScopeP &sc, bool *known) {
	auto &k = x->k;
	size_t n = k.size() - 1;
	*known = true;
	auto sub = [&](size_t from) { ScopeP s = std::make_shared<Scope>(); s->parent = sc; return body(k, from, s); };
	if (op == "quote") { ops["quote"]++; return quote(k.at(1)); }
	if (op == "if") { ops["if"]++; return truthy(eval(k.at(1), sc)) ? eval(k.at(2), sc) : eval(k.at(3), sc); }
	if (op == "when") { ops["when"]++; return truthy(eval(k.at(1), sc)) ? sub(2) : v_nil(); }
	if (op == "unless") { ops["unless"]++; return truthy(eval(k.at(1), sc)) ? v_nil() : sub(2); }
	if (op == "while") {
		ops["while"]++;
		while (truthy(eval(k.at(1), sc))) { if (++steps > max_steps) throw RefLimit{}; ops["while iteration"]++; sub(2); }
		return v_nil();
	}
	if (op == "setq") {
		VP v = eval(k.at(2), sc);
		ops["setq"]++;
		Box b = lookup(k.at(1)->s, sc);
		muts++;
		if (b) { *b = v; return v; }
		auto it = globals.find(k[1]->s);
		if (it == globals.end()) throw RefUnspecified{"setq of an undefined global"};
		it->second = v;
		ops["setq global"]++;
		return v;
	}
	if (op == "global") {
		VP v = eval(k.at(2), sc);
		globals[k.at(1)->s] = v;
		muts++;
		ops["global"]++;
		return v;
	}
	if (op == "lambda") {
		VP f = mk(Value::CLOSURE);
		f->fn = std::make_shared<Closure>();
		auto &c = *f->fn;
		auto &ps = k.at(1)->k;
		for (size_t i = 0; i < ps.size(); i++) {
			if (ps[i]->s == "&rest") { c.variadic = true; c.rest = ps.at(i + 1)->s; break; }
			c.params.push_back(ps[i]->s);
		}
		c.body.assign(k.begin() + 2, k.end());
		c.env = sc;
		c.born = clock++;
		ops["lambda"]++;
		return f;
	}
	if (op == "noscope") throw RefUnspecified{"noscope as an argument"};
	if (op == "comptime") {
		auto it = expansions.find(x.get());
		if (it == expansions.end()) {
			bool was = in_ct;
			in_ct = true;
			VP v = body(k, 1, ct);
			in_ct = was;
			/* the value is rebuilt each time the form is evaluated */
			auto holder = sx_list({});
			globals["\1ct" + strf("%p", (void *) x.get())] = v;
			expansions[x.get()] = holder;
			keep.push_back(x);
			ops["comptime"]++;
		}
		VP v = globals["\1ct" + strf("%p", (void *) x.get())];
		if (v->t == Value::CLOSURE) return v_nil();
		return deep_copy(v);
	}
	if (op == "list" || op == "vector") {
		std::vector<VP> a;
		for (size_t i = 1; i <= n; i++) a.push_back(eval(k[i], sc));
		ops[op]++;
		if (op == "list") {
			VP r = v_nil();
			for (size_t i = a.size(); i-- > 0;) r = v_cons(a[i], r);
			return r;
		}
		VP v = mk(Value::VEC);
		v->vec = std::make_shared<VecStore>();
		v->vec->v = a;
		return v;
	}
	if (op == "funcall") {
		std::vector<VP> a;
		VP f = eval(k.at(1), sc);
		for (size_t i = 2; i <= n; i++) a.push_back(eval(k[i], sc));
		ops["funcall"]++;
		return call(f, a);
	}
	if (op == "apply") {
		std::vector<VP> a;
		VP f = eval(k.at(1), sc);
		for (size_t i = 2; i <= n; i++) a.push_back(eval(k[i], sc));
		ops["apply"]++;
		VP last = a.back(), list = last;
		a.pop_back();
		if (last->t != Value::NIL && last->t != Value::LIST) throw RefError{"apply: last argument is not a list"};
		while (last->t == Value::LIST) { a.push_back(last->cons->car); last = last->cons->cdr; if (a.size() > 2000) throw RefUnspecified{"apply"}; }
		if (last->t != Value::NIL) throw RefUnspecified{"apply to a dotted list"};
		VP g = f;
		for (int guard = 0; g->t == Value::COMPOSITE && guard < 20; guard++) g = g->comp->function;
		if (g->t == Value::CLOSURE && g->fn->variadic) {
			/* whether the rest list shares structure with the applied list is not specified */
			for (VP l = list; l->t == Value::LIST; l = l->cons->cdr) l->cons->shared = true;
			rest_shared = true;
		}
		return call(f, a);
	}
	auto it = arity_table().find(op);
	if (it == arity_table().end()) { *known = false; return nullptr; }
	if ((size_t) it->second != n) throw RefUnspecified{"keyword arity"};
	std::vector<VP> a;
	for (size_t i = 1; i <= n; i++) a.push_back(eval(k[i], sc));
	ops[op]++;
	struct Guard { long &m; int n; bool on; ~Guard() { if (on && std::uncaught_exceptions() == n) m++; } } guard{muts, std::uncaught_exceptions(), op.compare(0, 4, "set-") == 0};
	if (op == "+" || op == "-" || op == "*" || op == "/" || op == "<" || op == ">") return arith(op, a[0], a[1]);
	if (op == "=") return equal(a[0], a[1]);
	if (op == "not") {
		switch (a[0]->t) {
		case Value::NIL: return v_bool(true);
		case Value::LIST: return v_bool(false);
		case Value::VEC: return v_bool(empty_vec(a[0]));
		case Value::BOOL: return v_bool(!a[0]->i);
		case Value::INT: return v_int(!a[0]->i);
		case Value::FLOAT: return v_float(!a[0]->f);
		case Value::STR: throw RefUnspecified{"not of a string"};
		default: throw RefError{"not"};
		}
	}
	if (op == "null?") {
		switch (a[0]->t) {
		case Value::NIL: return v_bool(true);
		case Value::VEC: return v_bool(empty_vec(a[0]));
		case Value::STR: return v_bool(a[0]->s.empty());
		default: return v_bool(false);
		}
	}
	if (op == "cons") return v_cons(a[0], a[1]);
	if (op == "car") {
		auto &v = a[0];
		switch (v->t) {
		case Value::NIL: return v_nil();
		case Value::LIST: return v->cons->car;
		case Value::VEC: if (empty_vec(v)) return empty_vector(); return v->vec->v[v->off];
		case Value::STR: if (v->s.empty()) return v_str(""); return v_int((unsigned char) v->s[0]);
		default: throw RefError{"car"};
		}
	}
	if (op == "cdr") {
		auto &v = a[0];
		switch (v->t) {
		case Value::NIL: return v_nil();
		case Value::LIST: return v->cons->cdr;
		case Value::VEC: {
			if (empty_vec(v) || v->off + 1 >= v->vec->v.size()) return empty_vector();
			VP r = mk(Value::VEC);
			r->vec = v->vec;
			r->off = v->off + 1;
			return r;
		}
		case Value::STR: return v_str(v->s.size() ? v->s.substr(1) : "");
		default: throw RefError{"cdr"};
		}
	}
	if (op == "set-car") {
		auto &v = a[0];
		if (v->t == Value::LIST && v->cons->shared) throw RefUnspecified{"mutation of a rest list"};
		if (v->t == Value::LIST) { v->cons->car = a[1]; return v; }
		if (v->t == Value::VEC && !empty_vec(v)) { v->vec->v[v->off] = a[1]; return v; }
		if (v->t == Value::STR) throw RefUnspecified{"set-car of a string"};
		throw RefError{"set-car"};
	}
	if (op == "set-cdr") {
		auto &v = a[0];
		if (v->t == Value::LIST && v->cons->shared) throw RefUnspecified{"mutation of a rest list"};
		if (v->t == Value::LIST) { v->cons->cdr = a[1]; return v; }
		if (v->t == Value::STR) throw RefUnspecified{"set-cdr of a string"};
		if (v->t == Value::VEC && v->vec && (a[1]->t == Value::NIL || (a[1]->t == Value::VEC && empty_vec(a[1])))) {
			if (v->off < v->vec->v.size()) v->vec->v.resize(v->off + 1);
			return v;
		}
		throw RefError{"set-cdr"};
	}
	if (op == "length") {
		auto &v = a[0];
		switch (v->t) {
		case Value::NIL: return v_int(0);
		case Value::VEC: return v_int(empty_vec(v) ? 0 : (long long) (v->vec->v.size() - v->off));
		case Value::STR: return v_int((long long) v->s.size());
		case Value::LIST: {
			std::set<Cons *> seen;
			VP p = v;
			long long c = 0;
			while (p->t == Value::LIST) {
				if (!seen.insert(p->cons.get()).second) throw RefError{"length of a circular list"};
				c++;
				p = p->cons->cdr;
			}
			if (p->t != Value::NIL) throw RefUnspecified{"length of a dotted list"};
			return v_int(c);
		}
		default: throw RefError{"length"};
		}
	}
	if (op == "make-vector") {
		if (a[0]->t != Value::INT) throw RefError{"make-vector"};
		if (a[0]->i < 0) throw RefError{"make-vector"};
		if (a[0]->i > 100000) throw RefUnspecified{"make-vector"};
		VP v = mk(Value::VEC);
		v->vec = std::make_shared<VecStore>();
		v->vec->v.assign((size_t) a[0]->i, a[1]);
		return v;
	}
	if (op == "get-vector-element") {
		if (a[1]->t != Value::INT) throw RefError{"index"};
		if (a[0]->t == Value::VEC) {
			long long len = empty_vec(a[0]) ? 0 : (long long) (a[0]->vec->v.size() - a[0]->off);
			if (a[1]->i < 0 || a[1]->i >= len) throw RefError{"bounds"};
			return a[0]->vec->v[a[0]->off + (size_t) a[1]->i];
		}
		if (a[0]->t == Value::STR) {
			if (a[1]->i < 0 || a[1]->i >= (long long) a[0]->s.size()) throw RefError{"bounds"};
			return v_int((unsigned char) a[0]->s[(size_t) a[1]->i]);
		}
		throw RefError{"get-vector-element"};
	}
	if (op == "set-vector-element") {
		if (a[1]->t != Value::INT) throw RefError{"index"};
		if (a[0]->t == Value::STR) throw RefUnspecified{"set-vector-element of a string"};
		if (a[0]->t != Value::VEC) throw RefError{"set-vector-element"};
		long long len = empty_vec(a[0]) ? 0 : (long long) (a[0]->vec->v.size() - a[0]->off);
		if (a[1]->i < 0 || a[1]->i >= len) throw RefError{"bounds"};
		a[0]->vec->v[a[0]->off + (size_t) a[1]->i] = a[2];
		return a[2];
	}
	if (op == "type-of") {
		VP v = mk(Value::TYPE);
		v->i = a[0]->t == Value::COMPOSITE ? a[0]->comp->type : -1 - (long long) (a[0]->t == Value::NIL ? Value::LIST : a[0]->t);
		return v;
	}
	if (op == "make-type") { VP v = mk(Value::TYPE); v->i = next_type++; return v; }
	if (op == "make-instance") {
		if (a[0]->t != Value::TYPE || a[0]->i < 0) throw RefError{"make-instance"};
		VP v = mk(Value::COMPOSITE);
		v->comp = std::make_shared<Composite>();
		v->comp->type = (int) a[0]->i;
		v->comp->value = a[1];
		v->comp->function = a[2];
		return v;
	}
	if (op == "composite-value" || op == "composite-function") {
		if (a[0]->t != Value::COMPOSITE) throw RefError{op};
		return op == "composite-value" ? a[0]->comp->value : a[0]->comp->function;
	}
	if (op == "set-composite-value" || op == "set-composite-function") {
		if (a[0]->t != Value::COMPOSITE) throw RefError{op};
		(op == "set-composite-value" ? a[0]->comp->value : a[0]->comp->function) = a[1];
		return a[0];
	}
	if (op == "make-string") {
		std::vector<VP> el;
		if (a[0]->t == Value::VEC) { if (!empty_vec(a[0])) el.assign(a[0]->vec->v.begin() + (long) a[0]->off, a[0]->vec->v.end()); }
		else if (a[0]->t == Value::LIST || a[0]->t == Value::NIL) {
			VP p = a[0];
			while (p->t == Value::LIST) { el.push_back(p->cons->car); p = p->cons->cdr; if (el.size() > 5000) throw RefUnspecified{"cyclic"}; }
			if (p->t != Value::NIL) throw RefUnspecified{"make-string of a dotted list"};
		}
		else throw RefError{"make-string"};
		std::string s;
		for (auto &e : el) {
			if (e->t != Value::INT) throw RefError{"make-string"};
			if (e->i < 0 || e->i > 255) throw RefUnspecified{"make-string: not a byte"};
			s += (char) e->i;
		}
		return v_str(s);
	}
	if (op == "concatenate") {
		for (auto &v : a) if (v->t != Value::STR && v->t != Value::SYM) throw RefError{"concatenate"};
		return v_str(name(a[0]) + name(a[1]));
	}
	if (op == "substring") {
		if (a[0]->t != Value::STR || a[1]->t != Value::INT || a[2]->t != Value::INT) throw RefError{"substring"};
		long long len = (long long) a[0]->s.size();
		if (a[1]->i < 0 || a[1]->i > len || a[2]->i < 0 || a[2]->i > len || a[1]->i > a[2]->i) throw RefError{"substring"};
		if (a[1]->i == len && len > 0) throw RefUnspecified{"substring starting at the end"};
		return v_str(a[0]->s.substr((size_t) a[1]->i, (size_t) (a[2]->i - a[1]->i)));
	}
	if (op == "symbol-string") { if (a[0]->t != Value::SYM) throw RefError{op}; return v_str(name(a[0])); }
	if (op == "symbol-id") {
		/* only to be compared with the identifiers of other symbols */
		if (a[0]->t != Value::SYM) throw RefError{op};
		return v_int(1000000007ll + (long long) symbol_ids.emplace(a[0]->s, symbol_ids.size()).first->second);
	}
	*known = false;
	return nullptr;
}

VP Interp::eval(const SxP &x, const ScopeP &sc) {
	if (++steps > max_steps) throw RefLimit{};
	switch (x->t) {
	case Sx::INT: return v_int(x->i);
	case Sx::FLOAT: return v_float(x->f);
	case Sx::BOOL: return v_bool(x->i);
	case Sx::STR: return v_str(x->s);
	case Sx::ID: {
		Box b = lookup(x->s, sc);
		if (b) return *b;
		auto it = globals.find(x->s);
		if (it != globals.end()) return it->second;
		if (callbacks.count(x->s)) { VP v = mk(Value::CALLBACK); v->s = x->s; return v; }
		throw RefError{"unbound variable " + x->s};
	}
	case Sx::LIST: break;
	}
	if (x->k.empty()) return v_nil();
	if (x->k[0]->t != Sx::ID) {
		ScopeP s = std::make_shared<Scope>();
		s->parent = sc;
		ops["scope"]++;
		return body(x->k, 0, s);
	}
	const std::string &h = x->k[0]->s;
	std::shared_ptr<Closure> m;
	Box fb;
	int fk = lookup_fn(h, sc, &m, &fb);
	if (fk == 2) return eval(expand(x, m), sc);
	VP f;
	if (fk == 1) f = *fb;
	else {
		bool known;
		VP r = keyword(strip(h), x, sc, &known);
		if (known) return r;
		auto it = globals.find(h);
		if (it != globals.end()) {
			f = it->second;
			ops["global call"]++;
			if (callbacks.count(h) && (f->t == Value::CLOSURE || f->t == Value::COMPOSITE)) throw RefUnspecified{"function in place of a callback"};
		}
		else if (callbacks.count(h)) { f = mk(Value::CALLBACK); f->s = h; }
		else throw RefError{"unbound function " + h};
	}
	std::vector<VP> a;
	for (size_t i = 1; i < x->k.size(); i++) a.push_back(eval(x->k[i], sc));
	return call(f, a);
}

VP Interp::top(const SxP &form) {
	ScopeP sc = std::make_shared<Scope>();
	keep.push_back(form);
	return stmt(form, sc);
}

std::string ref_outcome(Interp &in, const SxP &prog, bool *errored) {
	try {
		VP v = in.top(prog);
		if (errored) *errored = false;
		return in.trace + "=> " + dump(v);
	} catch (RefError &e) {
		if (errored) *errored = true;
		return in.trace + "runtime-error";
	}
}
