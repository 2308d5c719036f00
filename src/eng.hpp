/* Engines (one per build configuration of duck-lisp) and a session wrapper. */
#pragma once
#include "core.hpp"
#include "engine.h"

bool load_engine(const char *dir, const char *name);
const eng_api *engine(const char *name);

struct Result {
	int compile = 0, exec = 0;      /* 0 is success; exec is -1 when compilation failed */
	std::string value, trace, cerr, verr;
	size_t before = 0, after = 0;   /* stack depth */
	std::vector<unsigned char> bc;
	bool ok() const { return compile == 0 && exec == 0; }
	/* "ok VALUE", "compile-error", "runtime-error", each followed by the trace */
	std::string outcome() const;
};

struct Session {
	const eng_api *a;
	eng *s;
	eng_opts o;
	Session(const char *config, size_t vm_objects = 4000, size_t ct_objects = 2000, int callbacks = 1, size_t pool = 4u << 20, int fit = 2);
	~Session();
	Session(const Session &) = delete;
	Session &operator=(const Session &) = delete;
	long close();                   /* destroys; returns leaked allocations */
	int compile(const std::string &src, std::vector<unsigned char> *bc, bool infer = false, std::string *err = nullptr);
	int exec(const std::vector<unsigned char> &bc);
	/* compile and execute; the value left on the stack is read and the stack is brought back to where it was */
	Result run(const std::string &src, bool infer = false, bool keep = false);
	std::string top(size_t from_top = 0);
	std::string trace();
	std::string errors(int which);
};
