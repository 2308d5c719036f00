/* V04: parser actions, generators, C functions and globals added by the host. */
#include "layout.hpp"
#include "places.hpp"

namespace {
struct Refused {};
struct Host {
	Case &c;
	Src &s;
	std::map<std::string, std::string> acts, gens, cbs;   /* name -> kind */
	std::map<std::string, long> globals, ct_globals;
	std::map<const Sx *, SxP> texts;                       /* what the text in a string says */
	std::set<std::string> taken, mentioned;                /* mentioned: symbols of data in earlier loads */
	std::string log;
	int used = 0;
	explicit Host(Case &cc) : c(cc), s(cc.s) {}

	void ids(const SxP &x, std::set<std::string> &out) {
		if (x->t == Sx::ID) out.insert(x->s);
		for (auto &k : x->k) ids(k, out);
	}
	std::string name(const std::set<std::string> &avoid) {
		static const char *const T[] = {"ext", "ex", "extend", "e", "e1", "list*", "li", "noscope-", "va", "quoted", "includ", "include", "__", "__x", "gen", "act", "-", "=="};
		for (int i = 0; i < 40; i++) {
			std::string n;
			switch (s.below(4)) {
			case 0: n = T[s.below(sizeof T / sizeof *T)]; break;
			case 1: n = odd_name(s); break;
			case 2: if (mentioned.size()) { std::vector<std::string> v(mentioned.begin(), mentioned.end()); n = s.pick(v); if (taken.count(n) || is_keyword(n)) continue; taken.insert(n); mentioned.erase(n); c.label("name mentioned in an earlier load"); return n; }
				/* fall through */
			default: {
				/* near a name that is in use */
				std::vector<std::string> v(avoid.begin(), avoid.end());
				v.insert(v.end(), taken.begin(), taken.end());
				if (v.empty()) continue;
				n = s.pick(v);
				if (s.chance(50) || n.size() < 2) n += (char) ('a' + s.below(26)); else n.pop_back();
			}
			}
			if (n.empty() || avoid.count(n) || taken.count(n) || n == "true" || n == "false" || n == "self" || n == "&rest" || is_keyword(n)) continue;
			if (!isalpha((unsigned char) n[0]) && n[0] != '_') { if (s.below(2)) continue; if (!plain(n)) continue; }
			taken.insert(n);
			return n;
		}
		std::string n = strf("host-%zu-", taken.size());
		taken.insert(n);
		return n;
	}
	/* reads as a name */
	static bool plain(const std::string &n) { return !isdigit((unsigned char) n[0]) && n[0] != '-' && n[0] != '.' && n[0] != '#' && n[0] != '"' && n[0] != '\'' && n[0] != '+'; }
	static bool is_keyword(const std::string &n) {
		static const std::set<std::string> K = {"nop", "funcall", "apply", "var", "global", "setq", "not", "*", "/", "+", "-", "while", "if", "when", "unless", "=", "<", ">", "defun", "lambda", "defmacro", "noscope", "comptime", "quote", "list", "vector", "make-vector", "get-vector-element", "set-vector-element", "cons", "car", "cdr", "set-car", "set-cdr", "null?", "type-of", "make-type", "make-instance", "composite-value", "composite-function", "set-composite-value", "set-composite-function", "make-string", "concatenate", "substring", "length", "symbol-string", "symbol-id", "error", "declare", "read", "gensym", "intern", "symbol-of-name"};
		return K.count(bare(n)) != 0;
	}
	/* ---- what the parser makes of a text whose forms run actions -------------------------------------------------- */
	SxP sim(const SxP &x) {
		if (x->t != Sx::LIST) return x;
		SxP y = std::make_shared<Sx>(*x);
		for (auto &k : y->k) k = sim(k);
		if (y->k.empty() || y->k[0]->t != Sx::ID) return y;
		auto it = acts.find(y->k[0]->s);
		if (it == acts.end()) return y;
		std::string q;
		for (unsigned char ch : y->k[0]->s) q += ch >= 32 && ch < 127 && ch != '"' && ch != '\\' ? std::string(1, (char) ch) : strf("\\x%02x", ch);
		log += "[" + it->second + " " + q + strf(" %zu]", y->k.size() - 1);
		if (it->second == "reverse") { std::vector<SxP> k(y->k.rbegin(), y->k.rend() - 1); return sx_list(k); }
		if (it->second == "inline") return sim(texts.at(y->k[1].get()));
		if (it->second == "drop") return sx_list({});
		if (it->second == "fail") throw Refused{};
		return y;
	}
	std::string of(const std::map<std::string, std::string> &m, const char *kind) {
		std::vector<std::string> v;
		for (auto &p : m) if (p.second == kind) v.push_back(p.first);
		return v.empty() ? "" : s.pick(v);
	}
	/* ---- an equivalent text with actions: any form or name, code or data ------------------------------------------- */
	SxP act(const SxP &x, int percent, int inlines = 0) {
		bool wrap_it = s.chance(percent);
		int kind = wrap_it ? s.weighted({40, 40, 20}) : -1;
		std::string n;
		if (kind == 0 && x->t == Sx::LIST && (n = of(acts, "reverse")).size()) {
			std::vector<SxP> k = {sx_id(n)};
			for (size_t i = x->k.size(); i-- > 0;) k.push_back(act(x->k[i], percent, inlines));
			used++;
			c.label("reversing action");
			return sx_list(k);
		}
		if (kind == 1 && inlines < 2 && (n = of(acts, "inline")).size()) {
			SxP y = act(x, percent, inlines + 1);
			std::string t = s.below(3) ? render(y) : pretty(y);
			if (t.size() < 2000) {
				SxP st = sx_str(t);
				texts[st.get()] = y;
				used++;
				c.label("inlining action");
				if (inlines) c.label("text in text");
				return L(sx_id(n), st);
			}
			return y;
		}
		if (kind == 2 && x->t == Sx::LIST && x->k.empty() && (n = of(acts, "drop")).size()) {
			std::vector<SxP> k = {sx_id(n)};
			for (uint32_t i = s.below(3); i-- > 0;) k.push_back(act(rand_datum(s), percent, inlines));
			used++;
			c.label("dropping action");
			return sx_list(k);
		}
		if (x->t != Sx::LIST) return x;
		SxP y = std::make_shared<Sx>(*x);
		for (auto &k : y->k) k = act(k, percent, inlines);
		return y;
	}
	/* ---- an equivalent tree with the host's generators, functions and globals -------------------------------------- */
	SxP gen(const SxP &x, int percent, bool statement = false) {
		std::string n;
		if (x->t == Sx::INT && x->i < 1000000000 && x->i > -1000000000 && s.chance(percent)) {
			if (globals.size() && s.below(2)) {
				std::vector<std::string> v;
				for (auto &g : globals) v.push_back(g.first);
				n = s.pick(v);
				used++;
				c.label("global of the host");
				return L(I("+"), sx_id(n), N(x->i - globals[n]));
			}
			if (ct_globals.size() && s.below(2)) {
				std::vector<std::string> v;
				for (auto &g : ct_globals) v.push_back(g.first);
				n = s.pick(v);
				used++;
				c.label("compile-time global of the host");
				return L(I("+"), L(I("comptime"), sx_id(n)), N(x->i - ct_globals[n]));
			}
			if ((n = of(gens, "int")).size()) {
				std::vector<SxP> k = {sx_id(n)};
				long ops = (long) s.below(4);
				for (long i = 0; i < ops; i++) k.push_back(rand_datum(s));
				used++;
				c.label("constant generator");
				return L(I("+"), sx_list(k), N(x->i - (1000 * ops + 7)));
			}
			return x;
		}
		if (x->t != Sx::LIST || x->k.empty()) {
			if (x->t == Sx::LIST && s.chance(percent) && (n = of(gens, "nil")).size()) {
				std::vector<SxP> k = {sx_id(n)};
				for (uint32_t i = s.below(3); i-- > 0;) k.push_back(rand_datum(s));
				used++;
				c.label("nil generator");
				return sx_list(k);
			}
			return x;
		}
		std::vector<SxP> k;
		std::string h = x->k[0]->t == Sx::ID ? bare(x->k[0]->s) : "";
		size_t from = 1;
		if (x->k[0]->t != Sx::ID) from = 1;
		else if (h == "quote" || h == "defmacro" || h == "comptime") from = x->k.size();
		else if (h == "var" || h == "setq" || h == "global") from = 2;
		else if (h == "defun") from = 3;
		else if (h == "lambda") from = 2;
		bool body = x->k[0]->t != Sx::ID;
		for (size_t i = 0; i < x->k.size(); i++) k.push_back(i < from ? x->k[i] : gen(x->k[i], percent, (body || (h != "noscope" ? (h == "defun" && i >= 3) || (h == "lambda" && i >= 2) || ((h == "when" || h == "unless" || h == "while") && i >= 2) : true))));
		if (x->k.size() == 3 && h == "+" && x->k[1] == x->k[2] && (n = of(gens, "twice")).size()) { used++; c.label("doubling generator"); return L(sx_id(n), k[1]); }
		if (x->k[0]->t != Sx::ID) return sx_list(k);
		if (!s.chance(percent)) return sx_list(k);
		if (h == "cons" || h == "if" || h == "while" || h == "list" || h == "not") {
			if ((n = of(gens, h.c_str())).size() && s.below(3)) { k[0] = sx_id(n); used++; c.label("built-in generator under another name"); return sx_list(k); }
		}
		if ((n = of(cbs, x->k[0]->s.c_str())).size() && s.below(3)) { k[0] = sx_id(n); used++; c.label("C function under another name"); return sx_list(k); }
		if (h == "var" || h == "defun" || h == "noscope" || h == "defmacro" || h == "declare") return sx_list(k);
		(void) statement;
		if ((n = of(gens, "reverse")).size()) {
			std::vector<SxP> r = {sx_id(n)};
			r.insert(r.end(), k.rbegin(), k.rend());
			used++;
			c.label("reversing generator");
			return sx_list(r);
		}
		return sx_list(k);
	}
};

/* symbols of the first kind are never names of a generated program */
SxP datum(Src &s) {
	switch (s.below(4)) {
	case 0: return sx_id(strf("sym%d", (int) s.below(8)));
	case 1: return L(sx_id(strf("sym%d", (int) s.below(8))), rand_datum(s), sx_id(strf("sym%d", (int) s.below(8))));
	default: return rand_datum(s);
	}
}
static void extend_run(Case &c) {
	Src &s = c.s;
	auto cfg = configs(c, 1)[0];
	Host h(c);
	Interp in;
	struct Step { std::string kind, name, type, src, want; long value = 0; };
	std::vector<Step> steps;
	std::set<std::string> avoid = in.callbacks;
	avoid.insert("mkuser");
	auto reg = [&](const std::string &kind, const std::string &name, long value = 0) {
		static const char *const TYPES[] = {"I", "()", "(I)", "(&rest 0 I)", "(I &rest 1 I)", "(L L &rest 1 I)", ""};
		steps.push_back({kind, name, TYPES[s.below(7)], "", "", value});
		std::string k = kind.substr(kind.find(':') + 1);
		if (kind.substr(0, 4) == "act:") h.acts[name] = k;
		else if (kind.substr(0, 4) == "gen:") h.gens[name] = k;
		else if (kind.substr(0, 3) == "cb:") h.cbs[name] = k;
		else if (kind == "global") { h.globals[name] = value; in.globals[name] = v_int(value); }
		else h.ct_globals[name] = value;
		c.text += "; " + kind + " " + name + (kind.find("global") != std::string::npos ? strf(" = %ld", value) : "") + "\n";
	};
	static const char *const KINDS[] = {"act:reverse", "act:inline", "gen:reverse", "act:note", "act:drop", "gen:int", "gen:nil", "gen:twice", "gen:cons", "gen:if", "gen:while", "gen:list", "gen:not", "cb:emit", "cb:id", "cb:second", "global", "ct-global"};
	enum {NK = sizeof KINDS / sizeof *KINDS};
	auto some = [&](int n) {
		for (int i = 0; i < n; i++) {
			std::string kind = KINDS[s.below(NK)];
			/* a name may be given again for another extension of its sort */
			auto &m = kind[0] == 'a' ? h.acts : h.gens;
			if ((kind[0] == 'a' || kind.substr(0, 2) == "ge") && m.size() && s.chance(15)) {
				std::vector<std::string> v;
				for (auto &p : m) if (!avoid.count(p.first)) v.push_back(p.first);
				if (v.empty()) continue;
				c.label("name given again");
				reg(kind, s.pick(v));
			}
			else reg(kind, h.name(avoid), s.range(-300, 300));
		}
	};
	int loads = 1 + (int) s.below(4), forms = 0;
	bool refused = false;
	std::set<std::string> notes;
	for (int l = 0; l < loads; l++) {
		Profile p;
		p.stmts = 4;
		p.depth = 3;
		p.loops = 4;
		p.errors = 4;
		p.callbacks = true;
		Gen g(s, p);
		g.budget = 70;
		SxP m = g.program();
		h.ids(m, avoid);
		/* names the program uses are not the host's, and the other way round */
		std::set<std::string> mine;
		h.ids(m, mine);
		bool clash = false;
		for (auto &n : mine) if (h.taken.count(n)) clash = true;
		if (clash) c.discard("a name of the program is the host's");
		if (s.chance(6)) {
			/* what is registered from here on has large numbers */
			bool huge = s.chance(1) && strcmp(cfg, "portable");
			int n = huge ? s.range(65300, 65700) : s.range(90, 400);
			std::vector<SxP> q;
			for (int i = 0; i < n; i++) q.push_back(sx_id(strf("filler%d", i)));
			SxP f = wrap({L(I("lambda"), L(), L(I("quote"), sx_list(q))), N(1)});
			h.log.clear();
			SxP g = h.sim(f);
			if (render(g) != render(f)) c.discard("a name of the program is the host's");
			steps.push_back({"load", "", "", render(f), h.log + "=> 1", 0});
			c.text += strf("; a load that mentions %d symbols\n", n);
			c.label(huge ? "more than 65536 symbols" : "many symbols");
		}
		some(l == 0 ? 4 + (int) s.below(8) : (int) s.below(3));
		/* watch forms by their head: keywords, functions and parameter lists alike */
		if (mine.size() && s.chance(40)) {
			std::vector<std::string> v(mine.begin(), mine.end());
			std::string n = s.pick(v);
			if (!h.acts.count(n)) { reg("act:note", n); c.label("watched name"); }
		}
		{
			/* statements and operands that only extensions write naturally */
			Places pl;
			pl.body(m, 1);
			for (uint32_t i = s.below(4); i-- > 0 && pl.bodies.size();) {
				auto b = s.pick(pl.bodies);
				if (b.p->k.size() < b.from + 1) continue;
				size_t at = b.from + s.below((uint32_t) (b.p->k.size() - b.from));
				b.p->k.insert(b.p->k.begin() + (long) at, s.below(2) ? sx_list({}) : L(I("emit"), L(I("quote"), datum(s))));
			}
			if (h.of(h.gens, "twice").size() && s.chance(60)) {
				/* at the top level only: a fault among operands would depend on their order */
				if (s.chance(25)) { SxP e = m->k.back(); if (e->t != Sx::LIST || e->k.empty() || e->k[0]->t != Sx::ID || (bare(e->k[0]->s) != "var" && bare(e->k[0]->s) != "defun" && bare(e->k[0]->s) != "noscope")) m->k.back() = L(I("+"), e, e); }
				else { Gen o(s, p); o.budget = 25; SxP e = o.expr(T_INT, 2, 2); m->k.insert(m->k.begin() + 1 + (long) s.below((uint32_t) m->k.size() - 1), L(I("emit"), L(I("+"), e, e))); }
			}
		}
		in.trace.clear();
		in.steps = 0;
		in.depth = 0;
		std::string want = reference(c, in, m);
		int percent = 4 + (int) s.below(25);
		SxP t = h.gen(m, percent);
		std::string bad;
		if (s.chance(12) && l + 1 < loads) {
			bad = s.below(2) ? "act:fail" : "gen:fail";
			reg(bad, h.name(avoid));
		}
		SxP full = t;
		if (bad == "gen:fail") {
			full = copy_sx(t);
			full->k.insert(full->k.begin() + 1 + (long) s.below((uint32_t) full->k.size() - 1), L(sx_id(h.of(h.gens, "fail")), N(1)));
		}
		{
			/* no name in it is an action's, other than those that only watch */
			std::set<std::string> all;
			h.ids(full, all);
			for (auto &n : all) { auto it = h.acts.find(n); if (it != h.acts.end() && it->second != "note") c.discard("a name of the program is the host's"); }
			all.clear();
			h.ids(m, all);
			for (auto &n : all) if (h.taken.count(n) && !h.acts.count(n)) c.discard("a name of the program is the host's");
		}
		SxP e = h.act(full, percent);
		if (bad == "act:fail") {
			/* around any form or name */
			std::vector<std::pair<SxP, size_t>> at;
			std::function<void(const SxP &)> walk = [&](const SxP &x) { for (size_t i = 0; i < x->k.size(); i++) { if (!(x->k[i]->t == Sx::STR && h.texts.count(x->k[i].get()))) at.push_back({x, i}); walk(x->k[i]); } };
			walk(e);
			if (at.empty()) continue;
			auto w = s.pick(at);
			w.first->k[w.second] = L(sx_id(h.of(h.acts, "fail")), w.first->k[w.second]);
		}
		h.log.clear();
		bool rejected = bad.size();
		try {
			SxP back = h.sim(e);
			if (render(back) != render(full) && !rejected) { fprintf(stderr, "simulation: %s\n%s\n", render(back).c_str(), render(full).c_str()); abort(); }
			if (bad == "act:fail") rejected = false;   /* in the dropped operands of another: cannot be */
		}
		catch (Refused &) { }
		std::string show = pretty(e);
		if (rejected) { refused = true; want = h.log + "compile-error"; }
		else want = h.log + want;
		steps.push_back({"load", "", "", render(e), want, 0});
		{
			std::set<std::string> all;
			h.ids(e, all);
			for (auto &n : all) if (n.substr(0, 3) == "sym" && n.size() == 4 && !h.taken.count(n)) h.mentioned.insert(n);
		}
		c.text += show + "\n; " + want + "\n";
		/* C functions, macros and generators are forgotten by nobody: `fail` is not used again */
		for (auto it = h.acts.begin(); it != h.acts.end();) { if (it->second == "fail") { it = h.acts.erase(it); } else ++it; }
		for (auto it = h.gens.begin(); it != h.gens.end();) { if (it->second == "fail") it = h.gens.erase(it); else ++it; }
		forms++;
	}
	if (refused) c.label("refused by the host");
	if (loads > 1) c.label("several loads");
	c.nontrivial = h.used >= 3;
	c.publish();
	Session se(cfg);
	for (auto &st : steps) {
		if (st.kind == "load") {
			c.evals++;
			Result r = se.run(st.src);
			if (r.outcome() != st.want) c.fail(strf("in configuration %s:\nexpected ", cfg) + st.want + "\nobserved " + r.outcome() + "\nmessages " + r.cerr + r.verr + "\n");
			if (r.compile && r.cerr.find("refused") == std::string::npos) c.fail("the message of the refusal is missing: " + r.cerr + "\n");
		}
		else {
			int e = se.a->extend(se.s, st.kind.c_str(), st.name.data(), st.name.size(), st.type.c_str(), st.value);
			if (e) c.fail(strf("%s %s: error %d\n", st.kind.c_str(), st.name.c_str(), e));
		}
	}
	if (!refused) { long n = se.close(); if (n) c.fail(strf("%ld allocations were not given back\n", n)); }
}
static Register r_v04({"V04", "sessions of one to four loads between registrations of parser actions (that watch, reverse, replace by the form in a text, drop or refuse a form), generators (that compile another form, a constant, nil, an operand twice, or refuse; built-in ones under new names), C functions under new names, and globals at run time and at compile time, under odd names, prefixes and extensions of names in use, and names given again. Generated programs are rewritten into what the extensions turn back into them: actions around any form or name of code, parameter lists and quoted data, texts in texts; generators around evaluated forms. Oracle: the order in which actions ran (innermost first, from a model of the parser) followed by what the reference interpreter says of the original program; a refused form rejects the load with the message and the session goes on; nothing leaks when nothing was refused. Non-trivial: at least three extension forms.", extend_run, 20000, 300000, {"default", "noopt", "portable", "inference"}, ""});
}
