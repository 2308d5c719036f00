/* dlrun CONFIG [-i] [-d] PROGRAM... : compile and run each PROGRAM text in one session, print results. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include "engine.h"
int main(int argc, char **argv) {
	char path[256]; int infer = 0, dis = 0; size_t objs = 1000; long gcp = 0;
	const char *b = getenv("B") ? getenv("B") : "/verif/build";
	snprintf(path, sizeof path, "%s/engine_%s.so", b, argv[1]);
	void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
	if (!h) { puts(dlerror()); return 2; }
	const eng_api *a = ((const eng_api *(*)(void)) dlsym(h, "engine_get_api"))();
	int i = 2;
	for (; i < argc; i++) {
		if (!strcmp(argv[i], "-i")) infer = 1;
		else if (!strcmp(argv[i], "-d")) dis = 1;
		else if (!strcmp(argv[i], "-o")) objs = atol(argv[++i]);
		else if (!strcmp(argv[i], "-g")) gcp = atol(argv[++i]);
		else break;
	}
	eng_opts o = {objs, 1000, 1000, (getenv("POOL") ? (size_t) atol(getenv("POOL")) : 4) << 20, 2, 1};
	eng *s = a->create(&o);
	if (!s) { puts("create failed"); return 2; }
	a->set_budget(s, 100000);
	a->set_gc_period(s, gcp);
	for (; i < argc; i++) {
		unsigned char *bc; size_t n; eng_buf e = {0};
		char *src = argv[i]; size_t len = strlen(src);
		if (len > 1 && src[0] == '@') {	/* @FILE */
			FILE *f = fopen(src + 1, "rb");
			if (!f) { perror(src + 1); return 2; }
			src = malloc(16 << 20); len = fread(src, 1, 16 << 20, f);
			fclose(f);
		}
		char *copy = malloc(len ? len : 1); memcpy(copy, src, len);
		int r = a->compile(s, copy, len, infer, &bc, &n);
		free(copy);
		a->errors(s, 0, &e, 1);
		printf("compile=%d bytes=%zu ctstack=%zu %s%s\n", r, n, a->ct_stack_len(s), e.len ? "errors: " : "", e.data ? e.data : "");
		if (!r) {
			if (dis) { eng_buf d = {0}; a->disassemble(s, bc, n, &d); printf("%.*s\n", (int) d.len, d.data); }
			size_t before = a->stack_len(s);
			r = a->exec(s, bc, n);
			eng_buf t = {0}, v = {0}, e2 = {0};
			a->trace(s, &t, 1);
			a->errors(s, 1, &e2, 1);
			printf("trace:\n%sexec=%d stack %zu->%zu %s%s\n", t.data, r, before, a->stack_len(s), e2.len ? "errors: " : "", e2.data ? e2.data : "");
			if (!r) { a->dump(s, 0, &v); printf("=> %s\n", v.data ? v.data : "(nothing)"); a->pop(s, 1); }
			else a->soft_reset(s);
		}
		free(bc);
	}
	size_t live = a->live_objects(s);
	printf("live=%zu leaked=%ld\n", live, a->destroy(s));
	return 0;
}
