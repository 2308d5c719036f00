/* Loads and runs each file given, in one session, and prints what happened.
   Options: -g N collect on every N-th callback; -o N heap objects; -r A B (first) repeat with heaps of A to B objects; -i inference; -x N execute each source N times;
   -c N which callbacks (3: pairs too); -l report what is live after a collection and what was leaked. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "engine.h"
#include "rawapi.h"
const raw_api RAW_API;   /* not used here */
static void put(eng_buf *b) { if (b->len) fwrite(b->data, 1, b->len, stdout); b->len = 0; }
static int run(int argc, char **argv, size_t heap) {
	const eng_api *a = engine_get_api();
	eng_opts o = {4000, 2000, 2000, 16u << 20, 2, 1};
	long gc = 0, times = 1;
	int infer = 0, leaks = 0, i = 1;
	setvbuf(stdout, NULL, _IOLBF, 0);
	for (; i < argc && argv[i][0] == '-'; i++) {
		switch (argv[i][1]) {
		case 'g': gc = atol(argv[++i]); break;
		case 'o': o.vm_objects = (size_t) atol(argv[++i]); break;
		case 'r': i += 2; break;
		case 'i': infer = 1; break;
		case 'x': times = atol(argv[++i]); break;
		case 'l': leaks = 1; break;
		case 'c': o.link_callbacks = atoi(argv[++i]); break;
		}
	}
	if (heap) { o.vm_objects = heap; printf("heap %zu\n", heap); }
	eng *s = a->create(&o);
	if (!s) { printf("create failed\n"); return 1; }
	a->set_gc_period(s, gc);
	for (; i < argc; i++) {
		if (argv[i][0] == '+') {
			/* +KIND=NAME=VALUE: an extension by the host */
			char *k = strdup(argv[i] + 1), *n = strchr(k, '='), *v = n ? strchr(n + 1, '=') : NULL;
			if (n) *n++ = 0;
			if (v) *v++ = 0;
			int x = a->extend(s, k, n ? n : "", n ? strlen(n) : 0, "(&rest 0 I)", v ? atol(v) : 0);
			if (x) printf("extend: error %d\n", x);
			free(k);
			continue;
		}
		if (argv[i][0] == '!') {
			/* !NAME=N: the host calls the global function NAME with the integer N */
			char *k = strdup(argv[i] + 1), *v = strchr(k, '=');
			if (v) *v++ = 0;
			eng_buf o = {0};
			a->capi(s, "key", 0, 0, k, strlen(k), &o);
			long key = o.len ? atol(o.data) : -1;
			int x = a->capi(s, "pushGlobal", key, 0, "", 0, &o);
			if (!x) x = a->capi(s, "pushInteger", 0, 0, "", 0, &o);
			if (!x) x = a->capi(s, "setInteger", v ? atol(v) : 0, 0, "", 0, &o);
			if (!x) x = a->capi(s, "call", -2, 1, "", 0, &o);
			o.len = 0;
			a->trace(s, &o, 1);
			put(&o);
			if (x) { printf("%s: error\n", k); a->soft_reset(s); }
			else { a->dump(s, 0, &o); printf("%s: ", k); put(&o); printf("\n"); a->pop(s, a->stack_len(s)); }
			free(o.data);
			free(k);
			continue;
		}
		FILE *f = fopen(argv[i], "rb");
		static char src[4 << 20];
		size_t n = f ? fread(src, 1, sizeof src, f) : 0;
		if (f) fclose(f);
		char *copy = malloc(n ? n : 1);   /* exactly as long as the source */
		memcpy(copy, src, n);
		unsigned char *bc = NULL;
		size_t len = 0;
		int e = a->compile(s, copy, n, infer, &bc, &len);
		eng_buf b = {0};
		free(copy);
		if (e) { a->trace(s, &b, 1); put(&b); printf("compile error\n"); }
		else for (long t = 0; t < times; t++) {
			size_t before = a->stack_len(s);
			e = a->exec(s, bc, len);
			a->trace(s, &b, 1);
			put(&b);
			if (e) { printf("run-time error\n"); a->soft_reset(s); }
			else {
				printf("=> ");
				if (a->stack_len(s) > before) { a->dump(s, 0, &b); put(&b); }
				printf(" (%ld left)\n", (long) a->stack_len(s) - (long) before);
				if (a->stack_len(s) > before) a->pop(s, a->stack_len(s) - before);
			}
		}
		free(bc);
		free(b.data);
	}
	if (leaks) { a->gc(s); printf("live %zu user %ld double %ld\n", a->live_objects(s), a->user_alive(s), a->user_double(s)); }
	long l = a->destroy(s);
	if (leaks) printf("leaked %ld\n", l);
	return 0;
}
int main(int argc, char **argv) {
	if (argc > 3 && !strcmp(argv[1], "-r")) {
		for (size_t n = strtoul(argv[2], 0, 10); n <= strtoul(argv[3], 0, 10); n++) run(argc, argv, n);
		return 0;
	}
	return run(argc, argv, 0);
}
