#include "eng.hpp"
#include <dlfcn.h>

static std::map<std::string, const eng_api *> g_engines;

bool load_engine(const char *dir, const char *name) {
	std::string path = std::string(dir) + "/engine_" + name + ".so";
	if (path[0] != '/') path = "./" + path;
	void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!h) { fprintf(stderr, "%s\n", dlerror()); return false; }
	auto f = (const eng_api *(*)(void)) dlsym(h, "engine_get_api");
	if (!f) return false;
	g_engines[name] = f();
	return true;
}
const eng_api *engine(const char *name) {
	auto it = g_engines.find(name);
	if (it == g_engines.end()) { fprintf(stderr, "engine %s is not loaded\n", name); abort(); }
	return it->second;
}

std::string Result::outcome() const {
	std::string r = trace;
	if (compile) r += "compile-error";
	else if (exec) r += "runtime-error";
	else { r += "=> " + value; if (after != before + 1) r += strf(" [%ld values on the stack instead of 1]", (long) (after - before)); }
	return r;
}

Session::Session(const char *config, size_t vm_objects, size_t ct_objects, int callbacks, size_t pool, int fit) {
	a = engine(config);
	o = {vm_objects, ct_objects, 1000, pool, fit, callbacks};
	s = a->create(&o);
	if (!s) throw Fail{std::string("session initialisation failed in configuration ") + config};
	a->set_budget(s, 200000);
}
Session::~Session() { if (s) a->destroy(s); }
long Session::close() { long l = a->destroy(s); s = nullptr; return l; }

static std::string take(eng_buf &b) {
	std::string r(b.data ? b.data : "", b.len);
	free(b.data);
	return r;
}
std::string Session::top(size_t n) { eng_buf b = {nullptr, 0, 0}; if (a->dump(s, n, &b)) { free(b.data); return "<empty stack>"; } return take(b); }
std::string Session::trace() { eng_buf b = {nullptr, 0, 0}; a->trace(s, &b, 1); return take(b); }
std::string Session::errors(int w) { eng_buf b = {nullptr, 0, 0}; a->errors(s, w, &b, 1); return take(b); }

int Session::compile(const std::string &src, std::vector<unsigned char> *bc, bool infer, std::string *err) {
	unsigned char *p = nullptr;
	size_t n = 0;
	/* exactly as many bytes as the program has, so that a read past the end is seen */
	char *copy = (char *) malloc(src.size() ? src.size() : 1);
	memcpy(copy, src.data(), src.size());
	int e = a->compile(s, copy, src.size(), infer, &p, &n);
	free(copy);
	if (bc) bc->assign(p, p + n);
	free(p);
	std::string es = errors(0);
	if (err) *err = es;
	return e;
}
int Session::exec(const std::vector<unsigned char> &bc) {
	unsigned char *copy = (unsigned char *) malloc(bc.size() ? bc.size() : 1);
	memcpy(copy, bc.data(), bc.size());
	int e = a->exec(s, copy, bc.size());
	free(copy);
	return e;
}
Result Session::run(const std::string &src, bool infer, bool keep) {
	Result r;
	r.before = a->stack_len(s);
	r.compile = compile(src, &r.bc, infer, &r.cerr);
	if (r.compile) { r.exec = -1; r.trace = trace(); return r; }
	r.exec = exec(r.bc);
	r.verr = errors(1);
	r.trace = trace();
	r.after = a->stack_len(s);
	if (r.exec == 0) {
		r.value = r.after > r.before ? top() : "<nothing>";
		if (!keep && r.after > r.before) a->pop(s, r.after - r.before);
	}
	return r;
}
