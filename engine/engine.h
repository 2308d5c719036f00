/* Uniform C interface to one build configuration of duck-lisp.  One shared object per configuration exports
   `engine_get_api`.  Nothing here depends on which configuration is behind it. */
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct eng eng;

typedef struct {
	size_t vm_objects;   /* heap objects of the runtime VM */
	size_t ct_objects;   /* heap objects of the compile-time VM */
	size_t inf_objects;  /* heap objects of the inference VM */
	size_t pool_bytes;   /* memory pool (only used by the DuckLib allocator) */
	int fit;             /* dl_memoryFit_t */
	int link_callbacks;  /* link the test callbacks; 2: and script!; 3: and those of pairs */
} eng_opts;

/* Growable byte buffer owned by the engine. */
typedef struct {
	char *data;
	size_t len;
	size_t cap;
} eng_buf;

typedef struct {
	const char *config;
	int has_inference;
	int uses_pool;

	eng *(*create)(const eng_opts *);
	/* Destroys everything.  Returns the number of allocations duck-lisp did not give back. */
	long (*destroy)(eng *);

	/* bytecode is owned by the caller (free()). */
	int (*compile)(eng *, const char *src, size_t n, int infer, unsigned char **bc, size_t *bc_len);
	int (*exec)(eng *, const unsigned char *bc, size_t bc_len);
	size_t (*stack_len)(eng *);
	size_t (*ct_stack_len)(eng *);
	/* index counts from the top: 0 is the top of the stack */
	int (*dump)(eng *, size_t from_top, eng_buf *out);
	int (*pop)(eng *, size_t n);
	int (*soft_reset)(eng *);
	int (*gc)(eng *);
	size_t (*live_objects)(eng *);     /* objects in use right now (runtime VM) */
	void (*errors)(eng *, int which, eng_buf *out, int clear); /* which: 0 compiler, 1 VM */
	void (*trace)(eng *, eng_buf *out, int clear);
	long (*user_alive)(eng *);         /* user objects created and not destroyed */
	long (*user_double)(eng *);        /* user objects destroyed more than once */
	int (*user_state)(eng *, long id); /* 0 never made, 1 alive, 2 destroyed */
	long (*last_user_alive)(void);     /* after destroy: user objects never destroyed */
	long (*last_user_double)(void);
	int (*disassemble)(eng *, const unsigned char *bc, size_t bc_len, eng_buf *out);
	/* callbacks count their invocations; past the budget they return an error */
	void (*set_budget)(eng *, long budget);
	void (*set_flags)(eng *, int flags);   /* 1 strip symbol names, 2 keep disassemblies */
	/* gc_period n>0: `emit`, `id` and the other callbacks collect on every n-th invocation */
	void (*set_gc_period)(eng *, long n);
	/* allocator accounting (configurations that use malloc); fail_at counts down, 0 = never fail */
	void (*set_alloc_fail)(long fail_at);
	long (*alloc_live)(void);
	long (*alloc_total)(void);
	/* one call of the C interface by name; `out` receives what it reports */
	int (*capi)(eng *, const char *op, long a, long b, const char *data, size_t n, eng_buf *out);
	/* the objects on the stack from index `from` on; conses, vectors and composites are numbered as they are met */
	int (*shape)(eng *, size_t from, eng_buf *out);
	/* link_callbacks == 2: (script! x y) calls fn, with capi and shape acting on the machine that called it */
	void (*set_script)(eng *, int (*fn)(void *), void *ctx);
	/* the three ways to extend the compiler, and host globals: see host_extend in engine.c */
	int (*extend)(eng *, const char *kind, const char *name, size_t n, const char *type, long value);
	void *raw;                         /* struct eng_raw_api * : see rawapi.h */
} eng_api;

const eng_api *engine_get_api(void);

#ifdef __cplusplus
}
#endif
#endif
