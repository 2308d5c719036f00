/* S-expressions, their text, and a reference interpreter of duck-lisp written from docs/language.md and
   docs/language-reference.md. */
#pragma once
#include "core.hpp"
#include <memory>
#include <unordered_map>

struct Sx;
typedef std::shared_ptr<Sx> SxP;
struct Sx {
	enum T { INT, FLOAT, BOOL, STR, ID, LIST } t = LIST;
	long long i = 0;
	double f = 0;
	std::string s;      /* STR, ID; for FLOAT/INT: the spelling, when it matters */
	std::vector<SxP> k; /* LIST */
};
SxP sx_int(long long i);
SxP sx_float(double f, const std::string &spelling);
SxP sx_bool(bool b);
SxP sx_str(const std::string &s);
SxP sx_id(const std::string &s);
SxP sx_list(std::vector<SxP> k);
template<class... A> SxP L(A... a) { return sx_list(std::vector<SxP>{a...}); }
inline SxP I(const char *s) { return sx_id(s); }
inline SxP N(long long i) { return sx_int(i); }
std::string render(const SxP &x);
/* multi-line rendering for people */
std::string pretty(const SxP &x, int indent = 0);

/* ---- values --------------------------------------------------------------------------------------------------- */
struct Value;
typedef std::shared_ptr<Value> VP;
struct Cons { VP car, cdr; bool shared = false; /* may or may not be part of a rest list */ };
struct Closure;
struct Scope;
typedef std::shared_ptr<Scope> ScopeP;
struct VecStore { std::vector<VP> v; };
struct Composite { int type; VP value, function; };
struct Value {
	enum T { NIL, BOOL, INT, FLOAT, STR, SYM, LIST, VEC, CLOSURE, CALLBACK, TYPE, COMPOSITE, PAIR } t = NIL;
	long long i = 0;            /* INT, BOOL, TYPE (built-in types: negative) */
	double f = 0;
	std::string s;              /* STR, SYM, CALLBACK */
	std::shared_ptr<Cons> cons;
	std::shared_ptr<VecStore> vec;
	size_t off = 0;
	std::shared_ptr<Closure> fn;
	std::shared_ptr<Composite> comp;   /* also the two of a PAIR, which is a user object */
};
struct Closure {
	std::vector<std::string> params;
	std::string rest;
	bool variadic = false;
	std::vector<SxP> body;
	ScopeP env;
	long born = 0x7fffffffffffffff;
};
typedef std::shared_ptr<VP> Box;
struct Scope {
	ScopeP parent;
	std::unordered_map<std::string, Box> vars;
	std::unordered_map<std::string, long> born;  /* when it was declared; a closure does not see later declarations */
	long limit = 0x7fffffffffffffff;             /* outside this scope only earlier declarations are visible */
	std::unordered_map<std::string, Box> fbox;   /* what the function namespace names: the variable of the defun */
	std::unordered_map<std::string, int> funcs; /* 1 function, 2 macro, 0 hidden */
	std::unordered_map<std::string, std::shared_ptr<Closure>> macros;
};

struct RefError { std::string why; };   /* a run-time error of the program */
struct RefLimit {};                     /* too long */
struct RefUnspecified { std::string why; };

struct Interp {
	std::unordered_map<std::string, VP> globals;
	std::string trace;
	long steps = 0, max_steps = 60000;
	int depth = 0, max_depth = 400;
	int next_type = 0;
	std::unordered_map<std::string, size_t> symbol_ids;
	long allocs = 0, muts = 0;           /* muts: side effects so far */
	std::map<std::string, long> ops;   /* which operations were exercised */
	std::set<std::string> callbacks = {"emit", "id", "second", "pick3", "gc!", "ccall0", "ccall1", "ccall2", "boom"};
	std::unordered_map<std::string, std::shared_ptr<Closure>> gmacros;
	std::unordered_map<const Sx *, SxP> expansions;
	std::vector<SxP> keep;
	ScopeP ct;                          /* compile-time scope */
	bool in_ct = false, rest_shared = false;
	bool stripped = false;              /* symbols have no names at run time */
	std::string name(const VP &v) const { return v->t == Value::SYM && stripped ? "" : v->s; }
	Interp();
	/* One top-level form, as handed to duckLisp_loadString */
	VP top(const SxP &form);
	VP eval(const SxP &x, const ScopeP &sc);
	VP body(const std::vector<SxP> &forms, size_t from, const ScopeP &sc);
	VP stmt(const SxP &x, const ScopeP &sc);
	VP call(const VP &f, const std::vector<VP> &args);
	VP keyword(const std::string &op, const SxP &x, const ScopeP &sc, bool *known);
	VP callback(const std::string &name, const std::vector<VP> &args);
	long clock = 1;
	Box lookup(const std::string &n, const ScopeP &sc);
	/* 1 function, 2 macro, -1 neither */
	int lookup_fn(const std::string &n, const ScopeP &sc, std::shared_ptr<Closure> *m, Box *fn = nullptr);
	SxP expand(const SxP &x, const std::shared_ptr<Closure> &m);
	SxP to_sx(const VP &v);
	VP quote(const SxP &x);
};
std::string dump(const VP &v);
VP v_nil();
VP v_int(long long i);
VP v_bool(bool b);
VP v_float(double f);
VP v_str(const std::string &s);
VP v_sym(const std::string &s);
bool truthy(const VP &v);
std::string fmt_float(double d);
/* "=> VALUE" / "runtime-error" preceded by the trace, like Result::outcome */
std::string ref_outcome(Interp &in, const SxP &prog, bool *errored = nullptr);
