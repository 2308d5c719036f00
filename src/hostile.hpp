/* Source text of every degree of brokenness. */
#pragma once
#include "common.hpp"
#include "layout.hpp"
struct Hostile {
	std::string text;
	std::string kind;
	bool ct = false;        /* may contain compile-time code (macros, comptime, declaration scripts) */
	bool defmacro = false;  /* may define a macro */
	bool loops = false;     /* may not terminate when executed */
};
Hostile hostile(Src &s, bool infer, bool big = false);
