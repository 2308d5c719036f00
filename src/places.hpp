/* Where in a program something may be inserted or replaced without changing what is a statement and what a value. */
#pragma once
#include "common.hpp"

inline std::string bare(const std::string &s) { return s.size() > 2 && s[0] == '_' && s[1] == '_' ? s.substr(2) : s; }
inline SxP copy_sx(const SxP &x) { SxP r = std::make_shared<Sx>(*x); for (auto &k : r->k) k = copy_sx(k); return r; }
/* Statement lists and argument positions of a program. */
struct Places {
	struct Body { SxP p; size_t from; bool loop; };
	struct Arg { SxP p; size_t i; };
	std::vector<Body> bodies;
	std::vector<Arg> args;
	void walk(const SxP &p, size_t i) {
		SxP x = p->k[i];
		if (x->t != Sx::LIST || x->k.empty()) return;
		if (x->k[0]->t != Sx::ID) { body(x, 1); return; }
		std::string h = bare(x->k[0]->s);
		if (h == "quote" || h == "defmacro" || h == "comptime") return;
		if (h == "var" || h == "setq" || h == "global") return arg(x, 2);
		if (h == "defun") return body(x, 3);
		if (h == "lambda") return body(x, 2);
		if (h == "when" || h == "unless") { arg(x, 1); return body(x, 2); }
		if (h == "while") { arg(x, 1); return body(x, 2, true); }
		if (h == "noscope") { for (size_t j = 1; j < x->k.size(); j++) walk(x, j); return; }
		for (size_t j = 1; j < x->k.size(); j++) arg(x, j);
	}
	void arg(const SxP &x, size_t j) { if (j >= x->k.size()) return; args.push_back({x, j}); walk(x, j); }
	void body(const SxP &x, size_t from, bool loop = false) {
		/* `(() self ...)` names and such are ordinary statements */
		bodies.push_back({x, from, loop});
		for (size_t j = from; j < x->k.size(); j++) { if (x->k[j]->t == Sx::LIST && !(x->k[j]->k.size() && x->k[j]->k[0]->t == Sx::ID && (bare(x->k[j]->k[0]->s) == "var" || bare(x->k[j]->k[0]->s) == "defun" || bare(x->k[j]->k[0]->s) == "global"))) args.push_back({x, j}); walk(x, j); }
	}
};
