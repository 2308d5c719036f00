/* Pieces shared by the property files. */
#pragma once
#include "eng.hpp"
#include "gen.hpp"
#include "lang.hpp"

static const char *const ALL_CFG[] = {"default", "noopt", "portable", "inference"};

inline void copy_labels(Case &c, const Gen &g) { for (auto &u : g.used) c.label(u.first); }

/* expected outcome by the reference interpreter; discards what it does not specify */
std::string reference(Case &c, Interp &in, const SxP &prog);
/* the outcome of `src` in a fresh session of `cfg` must be `want` */
void agree(Case &c, const char *cfg, const std::string &src, const std::string &want, size_t vm_objects = 4000, long gc_period = 0, bool infer = false);
/* picks n distinct configurations (n>=1); all of them in thorough runs */
std::vector<const char *> configs(Case &c, int n);

/* A program built statement by statement: every statement is run by the reference interpreter as it is added, so the
   generator can look at the state reached so far, and statements the documentation does not define are left out. */
struct Inc {
	Interp in;
	ScopeP sc;
	std::vector<SxP> st;
	bool dead = false;   /* the last statement is a run-time error */
	int dropped = 0;
	Inc() { sc = std::make_shared<Scope>(); }
	/* false: not added */
	bool add(const SxP &x, bool may_fail = false);
	VP get(const std::string &n) { Box b = in.lookup(n, sc); return b ? *b : nullptr; }
	SxP program() { return wrap(st); }
	std::string want() { return dead ? in.trace + "runtime-error" : in.trace + "=> " + last; }
	std::string last = "()";
};
/* true when the value can be printed in full (no cycles, not too large) */
bool printable(const VP &v);
SxP rand_datum(Src &s, int depth = 2);
/* p_macro.cpp: a program with macros and the outcome of the program it expands to; sets text and nontrivial */
void macro_source(Case &c, std::string *src, std::string *want);
