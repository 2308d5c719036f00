/* Other spellings of the same program or datum. */
#pragma once
#include "lang.hpp"
std::string rand_string(Src &s, int maxlen);
struct Layout {
	Src &s;
	int level;              /* 0: one space; 1: white space; 2: also comments and alternative spellings of atoms */
	bool respell = true;    /* level 2: alternative spellings of atoms too */
	int spaces = 0, comments = 0, respelled = 0;
	Layout(Src &src, int l) : s(src), level(l) {}
	std::string gap(bool needed);
	std::string atom(const SxP &x);
	std::string text(const SxP &x);
	/* the whole source, with leading and trailing layout */
	std::string source(const SxP &x);
	/* a sequence of tokens, balanced or not */
	std::string tokens(const std::vector<std::string> &t);
private:
	void put(const SxP &x, std::string &o);
};
/* data for quote: every kind, odd names and spellings */
SxP quote_datum(Src &s, int depth);
std::string odd_name(Src &s);
SxP odd_float(Src &s);
/* the tokens of a form */
void tokenize(const SxP &x, std::vector<std::string> &out);
/* bytes as the text of a string literal */
std::string string_literal(const std::string &s);
