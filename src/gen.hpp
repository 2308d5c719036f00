/* Typed generator of duck-lisp programs whose result does not depend on the order in which sibling arguments are
   evaluated. */
#pragma once
#include "core.hpp"
#include "lang.hpp"

enum Ty { T_INT, T_BOOL, T_FLOAT, T_STR, T_SYM, T_LIST, T_VEC, T_FN, T_COMP, T_ANY };

struct Sig { std::vector<Ty> params; bool variadic = false; Ty ret = T_INT; bool operator==(const Sig &o) const { return params == o.params && variadic == o.variadic && ret == o.ret; } };
struct Var {
	std::string name;
	Ty ty;
	bool mut = false;       /* may be assigned */
	bool reserved = false;  /* a loop counter: only the loop assigns it */
	bool callable = false;  /* in the function namespace */
	bool global = false;
	Sig sig;                /* T_FN, T_COMP (callable composite) */
	int veclen = 0;         /* T_VEC: known length */
	int fdepth = 0;         /* function nesting depth at the declaration */
};
struct Profile {
	int depth = 4;
	int stmts = 5;
	int wide = 0;           /* % chance of a padding block at a scope */
	int closures = 10, loops = 8, floats = 8, strings = 10, lists = 12, vecs = 8, comps = 4, syms = 5, apply = 4, emits = 12, shadow = 40;
	int gcs = 0;            /* weight of (gc!) statements */
	int errors = 0;         /* % chance of a faulty expression */
	bool globals = false;
	int alias = 3;          /* % of keywords written with the __ prefix */
	bool callbacks = true;
	bool quotes = true;
	int maxpad = 300;
	bool nonrec = false;
	bool retry_self = true;
};
struct Gen {
	Src &s;
	Profile p;
	std::vector<std::vector<Var>> scopes;
	std::vector<Var> gvars;
	int fdepth = 0;
	int fresh = 0;
	int budget = 160;       /* nodes */
	std::map<std::string, int> used;
	Gen(Src &src, Profile pr) : s(src), p(pr) { scopes.push_back({}); }
	SxP program();                                   /* one top-level form: a scope */
	SxP expr(Ty ty, int depth, int eff, const Sig *sig = nullptr);
	std::vector<SxP> block(int depth, Ty ret, int n, int eff = 2); /* statements of a fresh scope, the last has type ret */
	void stmt(std::vector<SxP> &out, int depth);
	SxP lambda(const Sig &sig, int depth, const std::string &defun_name = "");
	SxP fault(int depth);
	void pad(std::vector<SxP> &out, int n);
	SxP kw(const char *name);
	std::string new_name(bool fn);
	std::vector<const Var *> visible(std::function<bool(const Var &)> f);
	Var declare(const std::string &name, Ty ty, bool mut) { Var v; v.name = name; v.ty = ty; v.mut = mut; v.fdepth = fdepth; return v; }
	SxP int_lit();
	SxP call_fn(const Var *f, int depth, int eff);
	Sig random_sig();
	void siblings(int n, int eff, std::vector<int> &out);
};
SxP lit_float(Src &s);
std::string rand_string(Src &s, int maxlen);
/* wraps a program's statements in the scope idiom `(() ...)` */
SxP wrap(std::vector<SxP> stmts);
