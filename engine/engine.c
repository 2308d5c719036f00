/* Shim around one configuration of duck-lisp.  Compiled together with /repo's sources, with the configuration's
   defines.  Uses only the public headers. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <stdint.h>
#include "duckLisp.h"
#include "duckVM.h"
#include "parser.h"
#include "emitters.h"
#include "generators.h"
#include "DuckLib/memory.h"
#include "DuckLib/array.h"
#include "engine.h"
#include "rawapi.h"
extern const raw_api RAW_API;

#ifndef ENGINE_CONFIG
#define ENGINE_CONFIG "?"
#endif

/* ---- allocator accounting ------------------------------------------------------------------------------------ */
static long g_alloc_live, g_alloc_total, g_fail_at;
void *verif_malloc(size_t n);
void *verif_realloc(void *p, size_t n);
void verif_free(void *p);
/* Large blocks are given room to grow in place (poisoned until it is asked for): the address sanitizer's realloc always
   copies, which makes long programs quadratic. */
#if defined(__SANITIZE_ADDRESS__)
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
#else
#define __asan_poison_memory_region(p, n) ((void) 0)
#define __asan_unpoison_memory_region(p, n) ((void) 0)
#endif
enum {LARGE = 16384, LARGE_BLOCKS = 64};
static struct {char *p; size_t n, cap;} g_large[LARGE_BLOCKS];
static int g_large_n;
static int large_find(void *p) {
	for (int i = 0; i < g_large_n; i++) if (g_large[i].p == (char *) p) return i;
	return -1;
}
void *verif_malloc(size_t n) {
	if (g_fail_at > 0 && --g_fail_at == 0) { g_fail_at = 1; return NULL; }
	void *p = malloc(n);
	g_alloc_total++;
	if (p) g_alloc_live++;
	return p;
}
void *verif_realloc(void *p, size_t n) {
	if (g_fail_at > 0 && --g_fail_at == 0) { g_fail_at = 1; return NULL; }
	void *q;
	g_alloc_total++;
	int i = p && g_large_n ? large_find(p) : -1;
	if (i >= 0) {
		__asan_unpoison_memory_region(p, g_large[i].cap);
		if (n <= g_large[i].cap && n >= LARGE) {
			g_large[i].n = n;
			__asan_poison_memory_region((char *) p + n, g_large[i].cap - n);
			return p;
		}
		size_t old = g_large[i].n;
		g_large[i] = g_large[--g_large_n];
		if (n <= old || n > (SIZE_MAX >> 2)) {   /* shrinks to a small block, or fails */
			q = realloc(p, n);
			if (!q && !n) g_alloc_live--;
			return q;
		}
		q = malloc(2 * n);
		if (!q) return 0;
		memcpy(q, p, old);
		free(p);
	}
	else if (p && n >= LARGE && n < (SIZE_MAX >> 2) && g_large_n < LARGE_BLOCKS) {
		size_t old = malloc_usable_size(p);
		q = malloc(2 * n);
		if (!q) return 0;
		memcpy(q, p, old < n ? old : n);
		free(p);
	}
	else {
		q = realloc(p, n);
		if (!p && q) g_alloc_live++;
		if (p && !q && n == 0) g_alloc_live--;
		return q;
	}
	g_large[g_large_n].p = q;
	g_large[g_large_n].n = n;
	g_large[g_large_n++].cap = 2 * n;
	__asan_poison_memory_region((char *) q + n, n);
	return q;
}
void verif_free(void *p) {
	int i = p && g_large_n ? large_find(p) : -1;
	if (i >= 0) {
		__asan_unpoison_memory_region(p, g_large[i].cap);
		g_large[i] = g_large[--g_large_n];
	}
	if (p) g_alloc_live--;
	free(p);
}

/* ---- buffers ------------------------------------------------------------------------------------------------- */
static void buf_put(eng_buf *b, const char *s, size_t n) {
	if (b->len + n + 1 > b->cap) {
		size_t c = b->cap ? b->cap : 256;
		while (c < b->len + n + 1) c *= 2;
		b->data = realloc(b->data, c);
		b->cap = c;
	}
	memcpy(b->data + b->len, s, n);
	b->len += n;
	b->data[b->len] = 0;
}
static void buf_str(eng_buf *b, const char *s) { buf_put(b, s, strlen(s)); }
static void buf_bytes(eng_buf *b, const unsigned char *s, size_t n) {
	char t[8];
	for (size_t i = 0; i < n; i++) {
		if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') { t[0] = (char) s[i]; buf_put(b, t, 1); }
		else { snprintf(t, sizeof t, "\\x%02x", s[i]); buf_str(b, t); }
	}
}

/* ---- session ------------------------------------------------------------------------------------------------- */
#define MAX_USER 4096
struct eng {
	dl_memoryAllocation_t ma;
	void *pool;
	duckLisp_t dl;
	duckVM_t vm;
	int dl_ok, vm_ok;
	eng_buf trace;
	long budget, used;
	long gc_period;
	long alloc_base;
	size_t pool_base;
	long user_created, user_destroyed, user_double;
	unsigned char user_state[MAX_USER];
	int (*script)(void *);
	void *script_ctx;
	int inferring;
	struct pair *pairs;
};

/* What a pair object (a user object of the harness) refers to: cells of the heap, which its marker names. */
struct pair {
	struct pair *next;   /* all of a session */
	duckVM_object_t *first, *second;
};

static int type_base(void) { return (int) duckVM_object_type_last; }

static eng *dumping;   /* whose symbols are being printed */
#define DUMP_DEPTH 24
#define DUMP_NODES 4000
static void dump_object(eng_buf *b, const duckVM_object_t *o, int depth, int *nodes) {
	char t[64];
	if (!o) { buf_str(b, "()"); return; }   /* a null pointer is nil */
	if (depth > DUMP_DEPTH || (*nodes)++ > DUMP_NODES) { buf_str(b, "..."); return; }
	switch (o->type) {
	case duckVM_object_type_bool: buf_str(b, o->value.boolean ? "#t" : "#f"); break;
	case duckVM_object_type_integer: snprintf(t, sizeof t, "%lld", (long long) o->value.integer); buf_str(b, t); break;
	case duckVM_object_type_float: {
		double d = o->value.floatingPoint;
		if (d == 0) d = 0;
		if (d != d) snprintf(t, sizeof t, "nan");
		else snprintf(t, sizeof t, "%.12gf", d);
		buf_str(b, t);
		break;
	}
	case duckVM_object_type_string:
		buf_str(b, "\"");
		if (o->value.string.internalString) {
			buf_bytes(b,
			          (o->value.string.internalString->value.internalString.value + o->value.string.offset),
			          o->value.string.length - o->value.string.offset);
		}
		buf_str(b, "\"");
		break;
	case duckVM_object_type_symbol:
		buf_str(b, "'");
		if (o->value.symbol.internalString) {
			buf_bytes(b,
			          o->value.symbol.internalString->value.internalString.value,
			          o->value.symbol.internalString->value.internalString.value_length);
		}
		else if (dumping && o->value.symbol.id < dumping->dl.symbols_array.elements_length) {
			/* stripped */
			duckLisp_ast_identifier_t n = DL_ARRAY_GETADDRESS(dumping->dl.symbols_array, duckLisp_ast_identifier_t, o->value.symbol.id);
			buf_bytes(b, n.value, n.value_length);
		}
		else { snprintf(t, sizeof t, "@%lu", (unsigned long) o->value.symbol.id); buf_str(b, t); }
		break;
	case duckVM_object_type_function: buf_str(b, "<callback>"); break;
	case duckVM_object_type_closure:
		snprintf(t, sizeof t, "<closure %d%s>", (int) o->value.closure.arity, o->value.closure.variadic ? "+" : "");
		buf_str(b, t);
		break;
	case duckVM_object_type_list: {
		const duckVM_object_t *c = o->value.list;
		int first = 1;
		buf_str(b, "(");
		while (c) {
			if ((*nodes)++ > DUMP_NODES) { buf_str(b, " ..."); break; }
			if (!first) buf_str(b, " ");
			first = 0;
			dump_object(b, c->value.cons.car, depth + 1, nodes);
			const duckVM_object_t *d = c->value.cons.cdr;
			if (!d) break;
			if (d->type == duckVM_object_type_list) { c = d->value.list; continue; }
			if (d->type == duckVM_object_type_cons) { c = d; continue; }
			buf_str(b, " . ");
			dump_object(b, d, depth + 1, nodes);
			break;
		}
		buf_str(b, ")");
		break;
	}
	case duckVM_object_type_cons: {
		duckVM_object_t l;
		memset(&l, 0, sizeof l);
		l.type = duckVM_object_type_list;
		l.value.list = (duckVM_object_t *) o;
		dump_object(b, &l, depth, nodes);
		break;
	}
	case duckVM_object_type_vector: {
		buf_str(b, "[");
		if (o->value.vector.internal_vector) {
			const duckVM_internalVector_t *iv = &o->value.vector.internal_vector->value.internal_vector;
			for (dl_size_t i = (dl_size_t) o->value.vector.offset; i < iv->length; i++) {
				if ((*nodes)++ > DUMP_NODES) { buf_str(b, " ..."); break; }
				if (i != (dl_size_t) o->value.vector.offset) buf_str(b, " ");
				dump_object(b, iv->values[i], depth + 1, nodes);
			}
		}
		buf_str(b, "]");
		break;
	}
	case duckVM_object_type_type:
		if (o->value.type < (dl_size_t) type_base()) snprintf(t, sizeof t, "<type>");
		else snprintf(t, sizeof t, "<user type>");
		buf_str(b, t);
		break;
	case duckVM_object_type_composite: {
		const duckVM_internalComposite_t *c = &o->value.composite->value.internalComposite;
		snprintf(t, sizeof t, "{");
		buf_str(b, t);
		dump_object(b, c->value, depth + 1, nodes);
		buf_str(b, " ");
		dump_object(b, c->function, depth + 1, nodes);
		buf_str(b, "}");
		break;
	}
	case duckVM_object_type_user:
		if ((size_t) o->value.user.data >= MAX_USER) {
			struct pair *p = o->value.user.data;
			buf_str(b, "<pair ");
			dump_object(b, p->first, depth + 1, nodes);
			buf_str(b, " ");
			dump_object(b, p->second, depth + 1, nodes);
			buf_str(b, ">");
			break;
		}
		snprintf(t, sizeof t, "<user %ld>", (long) (size_t) o->value.user.data);
		buf_str(b, t);
		break;
	default:
		snprintf(t, sizeof t, "<internal type %d>", (int) o->type);
		buf_str(b, t);
	}
}

static eng *vm_eng(duckVM_t *vm) { return (eng *) vm->userData; }
static int is_ct(duckVM_t *vm) { return vm != &vm_eng(vm)->vm; }

static dl_error_t tick(duckVM_t *vm) {
	eng *s = vm_eng(vm);
	s->used++;
	if (s->budget > 0 && s->used > s->budget) return dl_error_cantHappen;
	if (s->gc_period > 0 && s->used % s->gc_period == 0) return duckVM_garbageCollect(vm);
	return dl_error_ok;
}

static duckVM_object_t *stack_at(duckVM_t *vm, size_t from_top) {
	if (vm->stack.elements_length <= from_top) return NULL;
	return &DL_ARRAY_GETADDRESS(vm->stack, duckVM_object_t, vm->stack.elements_length - 1 - from_top);
}

static void trace_object(duckVM_t *vm, size_t from_top, const char *tag) {
	eng *s = vm_eng(vm);
	int nodes = 0;
	if (s->trace.len > 400000) return;
	if (is_ct(vm)) buf_str(&s->trace, "ct:");
	buf_str(&s->trace, tag);
	duckVM_object_t *o = stack_at(vm, from_top);
	dumping = s;
	if (o) dump_object(&s->trace, o, 0, &nodes);
	else buf_str(&s->trace, "<stack underflow>");
	buf_str(&s->trace, "\n");
}

/* (emit x) => x */
static dl_error_t cb_emit(duckVM_t *vm) {
	dl_error_t e = tick(vm);
	if (e) return e;
	trace_object(vm, 0, "");
	return dl_error_ok;
}
/* (id x) => x */
static dl_error_t cb_id(duckVM_t *vm) { return tick(vm); }
/* (second a b) => b */
static dl_error_t cb_second(duckVM_t *vm) {
	dl_error_t e = tick(vm);
	if (e) return e;
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}
/* (pick3 a b c) => (a b c) traced, returns b */
static dl_error_t cb_pick3(duckVM_t *vm) {
	dl_error_t e = tick(vm);
	if (e) return e;
	trace_object(vm, 2, "1:");
	trace_object(vm, 1, "2:");
	trace_object(vm, 0, "3:");
	e = duckVM_pop(vm);
	if (e) return e;
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}
/* (gc!) => () */
static dl_error_t cb_gc(duckVM_t *vm) {
	dl_error_t e = tick(vm);
	if (e) return e;
	e = duckVM_garbageCollect(vm);
	if (e) return e;
	return duckVM_pushNil(vm);
}
/* (ccallN f a...) => (f a...) through duckVM_call */
static dl_error_t ccall(duckVM_t *vm, int n) {
	dl_error_t e = tick(vm);
	if (e) return e;
	e = duckVM_call(vm, -1 - n, (dl_uint8_t) n);
	if (e) return e;
	/* stack: f result */
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}
static dl_error_t cb_ccall0(duckVM_t *vm) { return ccall(vm, 0); }
static dl_error_t cb_ccall1(duckVM_t *vm) { return ccall(vm, 1); }
static dl_error_t cb_ccall2(duckVM_t *vm) { return ccall(vm, 2); }
/* (boom) => error */
static dl_error_t cb_boom(duckVM_t *vm) {
	dl_error_t e = tick(vm);
	if (e) return e;
	return dl_error_invalidValue;
}

static dl_error_t user_destructor(duckVM_gclist_t *gclist, duckVM_object_t *o) {
	eng *s = vm_eng(gclist->duckVM);
	size_t id = (size_t) o->value.user.data;
	s->user_destroyed++;
	if (id < MAX_USER) {
		if (s->user_state[id] == 2) s->user_double++;
		s->user_state[id] = 2;
	}
	return dl_error_ok;
}
/* (mkuser n) => user object n, stored once on the heap by the program */
static dl_error_t cb_mkuser(duckVM_t *vm) {
	eng *s = vm_eng(vm);
	dl_error_t e = tick(vm);
	if (e) return e;
	duckVM_object_t *arg = stack_at(vm, 0);
	if (!arg || arg->type != duckVM_object_type_integer) return dl_error_invalidValue;
	size_t id = (size_t) arg->value.integer;
	if (id >= MAX_USER || s->user_state[id]) return dl_error_invalidValue;
	s->user_created++;
	s->user_state[id] = 1;
	*arg = duckVM_object_makeUser((void *) id, dl_null, user_destructor);
	return dl_error_ok;
}

static dl_error_t pair_marker(duckVM_gclist_t *gclist, dl_array_t *dispatch, duckVM_object_t *o) {
	struct pair *p = o->value.user.data;
	(void) gclist;
	dl_error_t e = dl_array_pushElement(dispatch, &p->first);
	if (e) return e;
	return dl_array_pushElement(dispatch, &p->second);
}
static struct pair *pair_at(duckVM_t *vm, size_t from_top) {
	duckVM_object_t *o = stack_at(vm, from_top);
	return o && o->type == duckVM_object_type_user && (size_t) o->value.user.data >= MAX_USER ? o->value.user.data : NULL;
}
/* (pair a b) => a user object that refers to a and b */
static dl_error_t cb_pair(duckVM_t *vm) {
	eng *s = vm_eng(vm);
	dl_error_t e = tick(vm);
	if (e) return e;
	if (!stack_at(vm, 1)) return dl_error_invalidValue;
	struct pair *p = calloc(1, sizeof *p);
	p->next = s->pairs;
	s->pairs = p;
	duckVM_object_t o = duckVM_object_makeUser(p, pair_marker, dl_null);
	e = duckVM_object_push(vm, &o);
	if (e) return e;
	e = duckVM_allocateHeapObject(vm, &p->first, *stack_at(vm, 2));
	if (e) return e;
	e = duckVM_allocateHeapObject(vm, &p->second, *stack_at(vm, 1));
	if (e) return e;
	e = duckVM_copyFromTop(vm, -3);
	if (e) return e;
	return duckVM_popSeveral(vm, 2);
}
/* (pair-first p), (pair-second p) */
static dl_error_t pair_part(duckVM_t *vm, int second) {
	dl_error_t e = tick(vm);
	if (e) return e;
	struct pair *p = pair_at(vm, 0);
	if (!p) return dl_error_invalidValue;
	e = duckVM_object_push(vm, second ? p->second : p->first);
	if (e) return e;
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}
static dl_error_t cb_pair_first(duckVM_t *vm) { return pair_part(vm, 0); }
static dl_error_t cb_pair_second(duckVM_t *vm) { return pair_part(vm, 1); }
/* (pair-set! p x) => p, whose first is x now */
static dl_error_t cb_pair_set(duckVM_t *vm) {
	dl_error_t e = tick(vm);
	if (e) return e;
	struct pair *p = pair_at(vm, 1);
	if (!p) return dl_error_invalidValue;
	e = duckVM_allocateHeapObject(vm, &p->first, *stack_at(vm, 0));
	if (e) return e;
	return duckVM_pop(vm);
}

/* (script! a b): whatever the harness wants */
static dl_error_t cb_script(duckVM_t *vm) {
	eng *s = vm_eng(vm);
	if (is_ct(vm) || !s->script) return dl_error_invalidValue;
	return (dl_error_t) s->script(s->script_ctx);
}

typedef struct { const char *name; dl_error_t (*cb)(duckVM_t *); const char *type; } cbdef;
static const cbdef CBS[] = {
	{"emit", cb_emit, "(I)"},
	{"id", cb_id, "(I)"},
	{"second", cb_second, "(I I)"},
	{"pick3", cb_pick3, "(I I I)"},
	{"gc!", cb_gc, "()"},
	{"ccall0", cb_ccall0, "(I)"},
	{"ccall1", cb_ccall1, "(I I)"},
	{"ccall2", cb_ccall2, "(I I I)"},
	{"boom", cb_boom, "()"},
	{"mkuser", cb_mkuser, "(I)"},
	{"script!", cb_script, "(I I)"},   /* linked only when asked for, like the rest */
	{"pair", cb_pair, "(I I)"},
	{"pair-first", cb_pair_first, "(I)"},
	{"pair-second", cb_pair_second, "(I)"},
	{"pair-set!", cb_pair_set, "(I I)"},
};
#define CBS_PAIRS 4
#define CBS_USUAL (sizeof CBS / sizeof *CBS - 1 - CBS_PAIRS)

static long e_destroy(eng *s);

static eng *e_create(const eng_opts *o) {
	eng *s = calloc(1, sizeof *s);
	dl_error_t e;
	s->alloc_base = g_alloc_live;
#ifdef USE_DUCKLIB_MALLOC
	size_t pool_bytes = o->pool_bytes;
#else
	size_t pool_bytes = 4096; /* not used */
#endif
	s->pool = malloc(pool_bytes);
	e = dl_memory_init(&s->ma, s->pool, pool_bytes, (dl_memoryFit_t) o->fit);
	if (e) { free(s->pool); free(s); return NULL; }
	e = duckLisp_init(&s->dl, &s->ma, o->ct_objects
#ifdef USE_PARENTHESIS_INFERENCE
	                  , o->inf_objects
#endif
		);
	s->dl_ok = 1;
	if (e) { e_destroy(s); return NULL; }
	s->dl.vm.userData = s;
	s->dl.userData = s;
	e = duckVM_init(&s->vm, &s->ma, o->vm_objects);
	s->vm_ok = 1;
	if (e) { e_destroy(s); return NULL; }
	s->vm.userData = s;
	if (o->link_callbacks) {
		for (size_t i = 0; i < sizeof CBS / sizeof *CBS; i++) {
			if (i == CBS_USUAL && o->link_callbacks != 2) continue;
			if (i > CBS_USUAL && o->link_callbacks != 3) continue;
			dl_ptrdiff_t key;
			e = duckLisp_linkCFunction(&s->dl, CBS[i].cb, (dl_uint8_t *) CBS[i].name, strlen(CBS[i].name)
#ifdef USE_PARENTHESIS_INFERENCE
			                           , (dl_uint8_t *) CBS[i].type, strlen(CBS[i].type)
#endif
				);
			if (e) { e_destroy(s); return NULL; }
			key = duckLisp_symbol_nameToValue(&s->dl, (const dl_uint8_t *) CBS[i].name, strlen(CBS[i].name));
			if (key < 0) { e_destroy(s); return NULL; }
			e = duckVM_linkCFunction(&s->vm, key, CBS[i].cb);
			if (e) { e_destroy(s); return NULL; }
		}
	}
	return s;
}

static long g_last_alive, g_last_double;
static long e_destroy(eng *s) {
	long leaked = 0;
	if (s->vm_ok) duckVM_quit(&s->vm);
	g_last_alive = s->user_created - s->user_destroyed;
	g_last_double = s->user_double;
	if (s->dl_ok) duckLisp_quit(&s->dl);
#ifdef USE_DUCKLIB_MALLOC
	{
		/* every block still allocated, apart from the allocator's own block list */
		for (dl_size_t i = 0; i < s->ma.blockList_length; i++) {
			dl_memoryBlock_t *b = &s->ma.blockList[i];
			if (b->allocated && !b->unlinked && (dl_ptrdiff_t) i != s->ma.blockList_indexOfBlockList) leaked++;
		}
	}
#else
	leaked = g_alloc_live - s->alloc_base;
#endif
	dl_memory_quit(&s->ma);
	free(s->pool);
	while (s->pairs) { struct pair *p = s->pairs; s->pairs = p->next; free(p); }
	free(s->trace.data);
	free(s);
	return leaked;
}

static int e_compile(eng *s, const char *src, size_t n, int infer, unsigned char **bc, size_t *bc_len) {
	dl_uint8_t *bytecode = dl_null;
	dl_size_t len = 0;
	s->inferring = infer;
	*bc = NULL;
	*bc_len = 0;
	dl_error_t e = duckLisp_loadString(&s->dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                                   infer ? dl_true : dl_false,
#endif
	                                   &bytecode, &len,
	                                   (const dl_uint8_t *) src, n,
	                                   (const dl_uint8_t *) "prog", 4);
	if (bytecode) {
		if (!e) {
			*bc = malloc(len ? len : 1);
			memcpy(*bc, bytecode, len);
			*bc_len = len;
		}
		dl_error_t e2 = DL_FREE(&s->ma, &bytecode);
		(void) e2;
	}
	return (int) e;
}
static int e_exec(eng *s, const unsigned char *bc, size_t n) {
	return (int) duckVM_execute(&s->vm, (dl_uint8_t *) bc, n);
}
static size_t e_stack_len(eng *s) { return duckVM_stackLength(&s->vm); }
static size_t e_ct_stack_len(eng *s) { return duckVM_stackLength(&s->dl.vm); }
static int e_dump(eng *s, size_t from_top, eng_buf *out) {
	int nodes = 0;
	duckVM_object_t *o = stack_at(&s->vm, from_top);
	if (!o) return 1;
	dumping = s;
	dump_object(out, o, 0, &nodes);
	return 0;
}
static int e_pop(eng *s, size_t n) { return (int) duckVM_popSeveral(&s->vm, n); }
static int e_soft_reset(eng *s) { return (int) duckVM_softReset(&s->vm); }
static int e_gc(eng *s) { return (int) duckVM_garbageCollect(&s->vm); }
static size_t e_live(eng *s) { return s->vm.gclist.objects_length - s->vm.gclist.freeObjects_length; }
static void e_errors(eng *s, int which, eng_buf *out, int clear) {
	dl_array_t *a = which ? &s->vm.errors : &s->dl.errors;
	if (a->elements_length) buf_put(out, a->elements, a->elements_length * a->element_size);
	if (clear) (void) dl_array_popElements(a, dl_null, a->elements_length);
}
static void e_trace(eng *s, eng_buf *out, int clear) {
	if (s->trace.len) buf_put(out, s->trace.data, s->trace.len);
	else buf_put(out, "", 0);
	if (clear) s->trace.len = 0;
}
static long e_user_alive(eng *s) { return s->user_created - s->user_destroyed; }
static long e_user_double(eng *s) { return s->user_double; }
static int e_user_state(eng *s, long id) { return id >= 0 && id < MAX_USER ? s->user_state[id] : -1; }
static long e_last_alive(void) { return g_last_alive; }
static long e_last_double(void) { return g_last_double; }
static int e_disassemble(eng *s, const unsigned char *bc, size_t n, eng_buf *out) {
	dl_array_t a;
	dl_array_init(&a, &s->ma, sizeof(dl_uint8_t), dl_array_strategy_double);
	dl_error_t e = duckLisp_disassemble(&a, &s->ma, bc, n);
	if (a.elements_length) buf_put(out, a.elements, a.elements_length);
	dl_error_t e2 = dl_array_quit(&a);
	return e ? (int) e : (int) e2;
}
static void e_set_budget(eng *s, long b) { s->budget = b; s->used = 0; }
static void e_set_flags(eng *s, int f) { s->dl.stripSymbolNames = (f & 1) != 0; s->dl.disassemble = (f & 2) != 0; }
static void e_set_gc_period(eng *s, long n) { s->gc_period = n; }
static void e_set_fail(long n) { g_fail_at = n; }
static long e_alloc_live(void) { return g_alloc_live; }
static long e_alloc_total(void) { return g_alloc_total; }

/* ---- the C interface, call by call ---------------------------------------------------------------------------- */
static const char *type_name(duckVM_object_type_t t) {
	switch (t) {
	case duckVM_object_type_none: return "none";
	case duckVM_object_type_bool: return "bool";
	case duckVM_object_type_integer: return "integer";
	case duckVM_object_type_float: return "float";
	case duckVM_object_type_string: return "string";
	case duckVM_object_type_list: return "list";
	case duckVM_object_type_symbol: return "symbol";
	case duckVM_object_type_function: return "function";
	case duckVM_object_type_closure: return "closure";
	case duckVM_object_type_vector: return "vector";
	case duckVM_object_type_type: return "type";
	case duckVM_object_type_composite: return "composite";
	case duckVM_object_type_user: return "user";
	case duckVM_object_type_bytecode: return "bytecode";
	default: return "internal";
	}
}

typedef struct { const void **p; size_t n, cap; eng_buf *b; } shaper;
/* number of the object; *known tells whether it was met before */
static size_t shape_id(shaper *h, const void *p, int *known) {
	for (size_t i = 0; i < h->n; i++) if (h->p[i] == p) { *known = 1; return i; }
	if (h->n == h->cap) {
		h->cap = h->cap ? 2 * h->cap : 64;
		h->p = realloc(h->p, h->cap * sizeof *h->p);
	}
	h->p[h->n++] = p;
	*known = 0;
	return h->n - 1;
}
static void shape_object(shaper *h, const duckVM_object_t *o) {
	char t[64];
	eng_buf *b = h->b;
	int known;
	if (!o) { buf_str(b, "()"); return; }
	switch (o->type) {
	case duckVM_object_type_bool: buf_str(b, o->value.boolean ? "#t" : "#f"); break;
	case duckVM_object_type_integer: snprintf(t, sizeof t, "%lld", (long long) o->value.integer); buf_str(b, t); break;
	case duckVM_object_type_float: snprintf(t, sizeof t, "%af", o->value.floatingPoint); buf_str(b, t); break;
	case duckVM_object_type_string:
		buf_str(b, "\"");
		if (o->value.string.internalString) {
			buf_bytes(b, o->value.string.internalString->value.internalString.value + o->value.string.offset,
			          o->value.string.length - o->value.string.offset);
		}
		buf_str(b, "\"");
		break;
	case duckVM_object_type_symbol:
		snprintf(t, sizeof t, "'%lu:", (unsigned long) o->value.symbol.id);
		buf_str(b, t);
		if (o->value.symbol.internalString) {
			buf_bytes(b, o->value.symbol.internalString->value.internalString.value,
			          o->value.symbol.internalString->value.internalString.value_length);
		}
		break;
	case duckVM_object_type_type:
		snprintf(t, sizeof t, "<type %lu>", (unsigned long) o->value.type);
		buf_str(b, t);
		break;
	case duckVM_object_type_closure:
		snprintf(t, sizeof t, "<closure %d%s>", (int) o->value.closure.arity, o->value.closure.variadic ? "+" : "");
		buf_str(b, t);
		break;
	case duckVM_object_type_cons:
		snprintf(t, sizeof t, "(%lu", (unsigned long) shape_id(h, o, &known));
		buf_str(b, t);
		if (!known) {
			buf_str(b, " ");
			shape_object(h, o->value.cons.car);
			buf_str(b, " . ");
			shape_object(h, o->value.cons.cdr);
		}
		buf_str(b, ")");
		break;
	case duckVM_object_type_list: shape_object(h, o->value.list); break;
	case duckVM_object_type_vector: {
		const duckVM_object_t *io = o->value.vector.internal_vector;
		const duckVM_internalVector_t *iv = io ? &io->value.internal_vector : NULL;
		if (!iv || (dl_size_t) o->value.vector.offset >= iv->length) { buf_str(b, "[]"); break; }
		snprintf(t, sizeof t, "[%lu+%lu", (unsigned long) shape_id(h, io, &known), (unsigned long) o->value.vector.offset);
		buf_str(b, t);
		if (!known) {
			/* all of it, also what is before the slice */
			for (dl_size_t i = 0; i < iv->length; i++) { buf_str(b, " "); shape_object(h, iv->values[i]); }
		}
		buf_str(b, "]");
		break;
	}
	case duckVM_object_type_composite: {
		const duckVM_internalComposite_t *c = &o->value.composite->value.internalComposite;
		snprintf(t, sizeof t, "{%lu", (unsigned long) shape_id(h, o->value.composite, &known));
		buf_str(b, t);
		if (!known) {
			snprintf(t, sizeof t, " %lu ", (unsigned long) c->type);
			buf_str(b, t);
			shape_object(h, c->value);
			buf_str(b, " ");
			shape_object(h, c->function);
		}
		buf_str(b, "}");
		break;
	}
	default: snprintf(t, sizeof t, "<%s>", type_name(o->type)); buf_str(b, t);
	}
}
static int e_shape(eng *s, size_t from, eng_buf *out) {
	shaper h;
	memset(&h, 0, sizeof h);
	h.b = out;
	for (size_t i = from; i < s->vm.stack.elements_length; i++) {
		shape_object(&h, &DL_ARRAY_GETADDRESS(s->vm.stack, duckVM_object_t, i));
		buf_str(out, "\n");
	}
	free(h.p);
	return 0;
}
static void e_set_script(eng *s, int (*fn)(void *), void *ctx) { s->script = fn; s->script_ctx = ctx; }

static int e_capi(eng *s, const char *op, long a, long b, const char *data, size_t n, eng_buf *out) {
	duckVM_t *vm = &s->vm;
	dl_error_t e = dl_error_ok;
	char t[64];
	dl_bool_t flag = dl_false;
	dl_size_t size = 0;
	dl_ptrdiff_t diff = 0;
	double f = 0;
	dl_uint8_t *bytes = dl_null;
	/* a private copy, which must not be needed afterwards */
	dl_uint8_t *copy = malloc(n ? n : 1);
	if (n) memcpy(copy, data, n);
	t[0] = 0;
#define IS(NAME) (!strcmp(op, NAME))
	if (IS("stackLength")) { snprintf(t, sizeof t, "%lu", (unsigned long) duckVM_stackLength(vm)); }
	else if (IS("push")) e = duckVM_push(vm, a);
	else if (IS("pop")) e = duckVM_pop(vm);
	else if (IS("popSeveral")) e = duckVM_popSeveral(vm, (dl_size_t) a);
	else if (IS("popAll")) e = duckVM_popAll(vm);
	else if (IS("softReset")) e = duckVM_softReset(vm);
	else if (IS("garbageCollect")) e = duckVM_garbageCollect(vm);
	else if (IS("copyFromTop")) e = duckVM_copyFromTop(vm, a);
	else if (IS("typeOf")) {
		duckVM_object_type_t type;
		e = duckVM_typeOf(vm, &type);
		if (!e) snprintf(t, sizeof t, "%s", type_name(type));
	}
	else if (IS("key")) {
		snprintf(t, sizeof t, "%ld", (long) duckLisp_symbol_nameToValue(&s->dl, copy, n));
	}
	else if (IS("call")) e = duckVM_call(vm, a, (dl_uint8_t) b);
	else if (IS("pushGlobal")) e = duckVM_pushGlobal(vm, a);
	else if (IS("setGlobal")) e = duckVM_setGlobal(vm, a);
	else if (IS("pushBoolean")) e = duckVM_pushBoolean(vm);
	else if (IS("setBoolean")) e = duckVM_setBoolean(vm, a ? dl_true : dl_false);
	else if (IS("copyBoolean")) { e = duckVM_copyBoolean(vm, &flag); if (!e) snprintf(t, sizeof t, "%s", flag ? "#t" : "#f"); }
	else if (IS("pushInteger")) e = duckVM_pushInteger(vm);
	else if (IS("setInteger")) e = duckVM_setInteger(vm, a);
	else if (IS("copySignedInteger")) { e = duckVM_copySignedInteger(vm, &diff); if (!e) snprintf(t, sizeof t, "%ld", (long) diff); }
	else if (IS("copyUnsignedInteger")) { e = duckVM_copyUnsignedInteger(vm, &size); if (!e) snprintf(t, sizeof t, "%lu", (unsigned long) size); }
	else if (IS("pushFloat")) e = duckVM_pushFloat(vm);
	else if (IS("setFloat")) { memcpy(&f, copy, sizeof f); e = duckVM_setFloat(vm, f); }
	else if (IS("copyFloat")) { e = duckVM_copyFloat(vm, &f); if (!e) snprintf(t, sizeof t, "%af", f); }
	else if (IS("pushString")) e = duckVM_pushString(vm, copy, n);
	else if (IS("copyString")) {
		e = duckVM_copyString(vm, &bytes, &size);
		if (!e) {
			buf_str(out, "\"");
			if (size) buf_bytes(out, bytes, size);
			buf_str(out, "\"");
			if (bytes) e = DL_FREE(vm->memoryAllocation, &bytes);
		}
	}
	else if (IS("pushSymbol")) e = duckVM_pushSymbol(vm, (dl_size_t) a, copy, n);
	else if (IS("pushCompressedSymbol")) e = duckVM_pushCompressedSymbol(vm, (dl_size_t) a);
	else if (IS("copySymbolName")) {
		e = duckVM_copySymbolName(vm, &bytes, &size);
		if (!e) {
			if (size) buf_bytes(out, bytes, size);
			if (bytes) e = DL_FREE(vm->memoryAllocation, &bytes);
		}
	}
	else if (IS("copySymbolId")) { e = duckVM_copySymbolId(vm, &size); if (!e) snprintf(t, sizeof t, "%lu", (unsigned long) size); }
	else if (IS("pushNewType")) {
		/* `a` types that nobody keeps come first */
		for (long i = 0; i < a && !e; i++) {
			e = duckVM_pushNewType(vm);
			if (!e) e = duckVM_pop(vm);
		}
		if (!e) e = duckVM_pushNewType(vm);
	}
	else if (IS("pushExistingType")) e = duckVM_pushExistingType(vm, (dl_size_t) a);
	else if (IS("copyType")) { e = duckVM_copyType(vm, &size); if (!e) snprintf(t, sizeof t, "%lu", (unsigned long) size); }
	else if (IS("pushComposite")) e = duckVM_pushComposite(vm, (dl_size_t) a);
	else if (IS("copyCompositeType")) { e = duckVM_copyCompositeType(vm, &size); if (!e) snprintf(t, sizeof t, "%lu", (unsigned long) size); }
	else if (IS("pushCompositeValue")) e = duckVM_pushCompositeValue(vm);
	else if (IS("pushCompositeFunction")) e = duckVM_pushCompositeFunction(vm);
	else if (IS("setCompositeValue")) e = duckVM_setCompositeValue(vm, a);
	else if (IS("setCompositeFunction")) e = duckVM_setCompositeFunction(vm, a);
	else if (IS("pushNil")) e = duckVM_pushNil(vm);
	else if (IS("pushCons")) e = duckVM_pushCons(vm);
	else if (IS("pushVector")) e = duckVM_pushVector(vm, (dl_size_t) a);
	else if (IS("copyClosureArity")) { dl_uint8_t u = 0; e = duckVM_copyClosureArity(vm, &u); if (!e) snprintf(t, sizeof t, "%d", (int) u); }
	else if (IS("copyClosureIsVariadic")) { e = duckVM_copyClosureIsVariadic(vm, &flag); if (!e) snprintf(t, sizeof t, "%s", flag ? "#t" : "#f"); }
	else if (IS("copyClosureName")) { e = duckVM_copyClosureName(vm, &diff); }
	else if (IS("pushClosureBytecode")) e = duckVM_pushClosureBytecode(vm);
	else if (IS("pushCar")) e = duckVM_pushCar(vm);
	else if (IS("pushFirst")) e = duckVM_pushFirst(vm);
	else if (IS("pushCdr")) e = duckVM_pushCdr(vm);
	else if (IS("pushRest")) e = duckVM_pushRest(vm);
	else if (IS("setCar")) e = duckVM_setCar(vm, a);
	else if (IS("setFirst")) e = duckVM_setFirst(vm, a);
	else if (IS("setCdr")) e = duckVM_setCdr(vm, a);
	else if (IS("setRest")) e = duckVM_setRest(vm, a);
	else if (IS("pushElement")) e = duckVM_pushElement(vm, a);
	else if (IS("setElement")) e = duckVM_setElement(vm, a, b);
	else if (IS("length")) { e = duckVM_length(vm, &size); if (!e) snprintf(t, sizeof t, "%lu", (unsigned long) size); }
	else if (IS("is")) {
		static const struct { const char *name; dl_error_t (*fn)(duckVM_t *, dl_bool_t *); } TESTS[] = {
			{"none", duckVM_isNone}, {"boolean", duckVM_isBoolean}, {"integer", duckVM_isInteger}, {"float", duckVM_isFloat},
			{"string", duckVM_isString}, {"symbol", duckVM_isSymbol}, {"type", duckVM_isType}, {"composite", duckVM_isComposite},
			{"list", duckVM_isList}, {"nil", duckVM_isNil}, {"cons", duckVM_isCons}, {"vector", duckVM_isVector},
			{"closure", duckVM_isClosure}, {"user", duckVM_isUser}, {"empty", duckVM_isEmpty},
		};
		for (size_t i = 0; i < sizeof TESTS / sizeof *TESTS; i++) {
			flag = (i & 1) ? dl_true : dl_false;   /* must be overwritten */
			e = TESTS[i].fn(vm, &flag);
			if (e) break;
			if (flag) { buf_str(out, TESTS[i].name); buf_str(out, " "); }
		}
	}
	else e = dl_error_shouldntHappen;
#undef IS
	buf_str(out, t);
	memset(copy, 0xA5, n);
	free(copy);
	return (int) e;
}

/* ---- extensions by the host (docs/api.md, "Compiler model") -------------------------------------------------------- */
typedef duckLisp_ast_compoundExpression_t cst;
static eng *of(duckLisp_t *dl) { return (eng *) dl->userData; }
/* what an action leaves in the trace: [ACTION NAME OPERANDS] */
static void note(duckLisp_t *dl, const char *action, const cst *x) {
	eng *s = of(dl);
	char t[64];
	const duckLisp_ast_expression_t *f = &x->value.expression;
	buf_str(&s->trace, "[");
	buf_str(&s->trace, action);
	buf_str(&s->trace, " ");
	buf_bytes(&s->trace, f->compoundExpressions[0].value.identifier.value, f->compoundExpressions[0].value.identifier.value_length);
	snprintf(t, sizeof t, " %lu]", (unsigned long) f->compoundExpressions_length - 1);
	buf_str(&s->trace, t);
}
static dl_error_t parse(duckLisp_t *dl, const dl_uint8_t *text, dl_size_t n, cst *out) {
	dl_ptrdiff_t index = 0;
	return duckLisp_parse_compoundExpression(dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                                         of(dl)->inferring ? dl_true : dl_false,
#endif
	                                         (const dl_uint8_t *) "host", 4, text, n, out, &index, dl_true);
}
static dl_error_t act_note(duckLisp_t *dl, cst *x) { note(dl, "note", x); return dl_error_ok; }
/* (NAME z y x f) becomes (f x y z) */
static dl_error_t act_reverse(duckLisp_t *dl, cst *x) {
	duckLisp_ast_expression_t *f = &x->value.expression;
	dl_error_t e;
	note(dl, "reverse", x);
	e = duckLisp_ast_compoundExpression_quit(dl->memoryAllocation, &f->compoundExpressions[0]);
	if (e) return e;
	size_t n = --f->compoundExpressions_length;
	for (size_t i = 0; i < n; i++) f->compoundExpressions[i] = f->compoundExpressions[i + 1];
	for (size_t i = 0; i < n / 2; i++) {
		cst t = f->compoundExpressions[i];
		f->compoundExpressions[i] = f->compoundExpressions[n - 1 - i];
		f->compoundExpressions[n - 1 - i] = t;
	}
	return dl_error_ok;
}
/* (NAME "text") becomes the form that the text says */
static dl_error_t act_inline(duckLisp_t *dl, cst *x) {
	duckLisp_ast_expression_t *f = &x->value.expression;
	dl_error_t e;
	cst y;
	if (f->compoundExpressions_length != 2 || f->compoundExpressions[1].type != duckLisp_ast_type_string) return dl_error_invalidValue;
	note(dl, "inline", x);
	duckLisp_ast_compoundExpression_init(&y);
	e = parse(dl, f->compoundExpressions[1].value.string.value, f->compoundExpressions[1].value.string.value_length, &y);
	if (e) { (void) duckLisp_ast_compoundExpression_quit(dl->memoryAllocation, &y); return e; }
	e = duckLisp_ast_compoundExpression_quit(dl->memoryAllocation, x);
	*x = y;
	return e;
}
/* (NAME ...) becomes () */
static dl_error_t act_drop(duckLisp_t *dl, cst *x) {
	dl_error_t e;
	cst y;
	note(dl, "drop", x);
	duckLisp_ast_compoundExpression_init(&y);
	e = parse(dl, (const dl_uint8_t *) "()", 2, &y);
	if (e) return e;
	e = duckLisp_ast_compoundExpression_quit(dl->memoryAllocation, x);
	*x = y;
	return e;
}
static dl_error_t act_fail(duckLisp_t *dl, cst *x) {
	note(dl, "fail", x);
	(void) duckLisp_error_pushRuntime(dl, (const dl_uint8_t *) "refused", 7);
	return dl_error_cantHappen;
}
typedef duckLisp_ast_expression_t form;
/* (NAME z y x f) is compiled as (f x y z) */
static dl_error_t gen_reverse(duckLisp_t *dl, duckLisp_compileState_t *cs, dl_array_t *as, form *f) {
	form g;
	dl_ptrdiff_t index = -1;
	dl_error_t e;
	g.compoundExpressions_length = f->compoundExpressions_length - 1;
	g.compoundExpressions = malloc(sizeof(cst) * (g.compoundExpressions_length + 1));
	for (size_t i = 0; i < g.compoundExpressions_length; i++) g.compoundExpressions[i] = f->compoundExpressions[f->compoundExpressions_length - 1 - i];
	e = duckLisp_compile_expression(dl, cs, as, f->compoundExpressions[0].value.identifier.value, f->compoundExpressions[0].value.identifier.value_length, &g, &index);
	/* whatever it did to its operands is theirs */
	for (size_t i = 0; i < g.compoundExpressions_length; i++) f->compoundExpressions[f->compoundExpressions_length - 1 - i] = g.compoundExpressions[i];
	free(g.compoundExpressions);
	return e;
}
static dl_error_t gen_nil(duckLisp_t *dl, duckLisp_compileState_t *cs, dl_array_t *as, form *f) { (void) f; return duckLisp_emit_nil(dl, cs, as); }
static dl_error_t gen_int(duckLisp_t *dl, duckLisp_compileState_t *cs, dl_array_t *as, form *f) {
	dl_ptrdiff_t index;
	return duckLisp_emit_pushInteger(dl, cs, as, &index, 1000 * ((long) f->compoundExpressions_length - 1) + 7);
}
/* (NAME x) is compiled as (+ x x) */
static dl_error_t gen_twice(duckLisp_t *dl, duckLisp_compileState_t *cs, dl_array_t *as, form *f) {
	dl_ptrdiff_t i, j;
	dl_error_t e;
	duckLisp_ast_identifier_t *n = &f->compoundExpressions[0].value.identifier;
	if (f->compoundExpressions_length != 2) return dl_error_invalidValue;
	e = duckLisp_compile_compoundExpression(dl, cs, as, n->value, n->value_length, &f->compoundExpressions[1], &i, dl_null, dl_false);
	if (e) return e;
	e = duckLisp_compile_compoundExpression(dl, cs, as, n->value, n->value_length, &f->compoundExpressions[1], &j, dl_null, dl_false);
	if (e) return e;
	return duckLisp_emit_add(dl, cs, as, i, j);
}
static dl_error_t gen_fail(duckLisp_t *dl, duckLisp_compileState_t *cs, dl_array_t *as, form *f) {
	(void) cs; (void) as; (void) f;
	(void) duckLisp_error_pushRuntime(dl, (const dl_uint8_t *) "refused", 7);
	return dl_error_invalidValue;
}
static int e_extend(eng *s, const char *kind, const char *name, size_t n, const char *type, long value) {
	static const struct { const char *kind; dl_error_t (*fn)(duckLisp_t *, cst *); } ACTS[] = {
		{"act:note", act_note}, {"act:reverse", act_reverse}, {"act:inline", act_inline}, {"act:drop", act_drop}, {"act:fail", act_fail},
	};
	static const struct { const char *kind; dl_error_t (*fn)(duckLisp_t *, duckLisp_compileState_t *, dl_array_t *, form *); } GENS[] = {
		{"gen:reverse", gen_reverse}, {"gen:nil", gen_nil}, {"gen:int", gen_int}, {"gen:twice", gen_twice}, {"gen:fail", gen_fail},
		{"gen:cons", duckLisp_generator_cons}, {"gen:if", duckLisp_generator_if}, {"gen:while", duckLisp_generator_while}, {"gen:list", duckLisp_generator_list}, {"gen:not", duckLisp_generator_not},
	};
	/* the name does not outlive the call */
	dl_uint8_t *copy = malloc(n ? n : 1), *ty = malloc(strlen(type) + 1);
	dl_error_t e = dl_error_shouldntHappen;
	memcpy(copy, name, n);
	memcpy(ty, type, strlen(type));
	for (size_t i = 0; i < sizeof ACTS / sizeof *ACTS; i++) if (!strcmp(kind, ACTS[i].kind)) e = duckLisp_addParserAction(&s->dl, ACTS[i].fn, copy, n);
	for (size_t i = 0; i < sizeof GENS / sizeof *GENS; i++) {
		if (!strcmp(kind, GENS[i].kind)) {
			e = duckLisp_addGenerator(&s->dl, GENS[i].fn, copy, n
#ifdef USE_PARENTHESIS_INFERENCE
			                          , ty, strlen(type), (dl_uint8_t *) "", 0
#endif
				);
		}
	}
	if (!strncmp(kind, "cb:", 3)) {
		for (size_t i = 0; i < CBS_USUAL; i++) {
			if (strcmp(kind + 3, CBS[i].name)) continue;
			e = duckLisp_linkCFunction(&s->dl, CBS[i].cb, copy, n
#ifdef USE_PARENTHESIS_INFERENCE
			                           , ty, strlen(type)
#endif
				);
			if (e) break;
			dl_ptrdiff_t key = duckLisp_symbol_nameToValue(&s->dl, copy, n);
			e = key < 0 ? dl_error_cantHappen : duckVM_linkCFunction(&s->vm, key, CBS[i].cb);
		}
	}
	/* a global that holds an integer: at run time, or at compile time */
	if (!strcmp(kind, "global") || !strcmp(kind, "ct-global")) {
		dl_ptrdiff_t key = -1;
		duckVM_t *vm = *kind == 'c' ? &s->dl.vm : &s->vm;
		e = duckLisp_addGlobal(&s->dl, copy, n, &key, *kind == 'c' ? dl_true : dl_false);
		if (!e) e = duckVM_pushInteger(vm);
		if (!e) e = duckVM_setInteger(vm, value);
		if (!e) e = duckVM_setGlobal(vm, key);
		if (!e) e = duckVM_pop(vm);
	}
	memset(copy, 0xA5, n);
	free(copy);
	free(ty);
	return (int) e;
}

static const eng_api API = {
	.config = ENGINE_CONFIG,
#ifdef USE_PARENTHESIS_INFERENCE
	.has_inference = 1,
#endif
#ifdef USE_DUCKLIB_MALLOC
	.uses_pool = 1,
#endif
	.create = e_create, .destroy = e_destroy, .compile = e_compile, .exec = e_exec,
	.stack_len = e_stack_len, .ct_stack_len = e_ct_stack_len, .dump = e_dump, .pop = e_pop,
	.soft_reset = e_soft_reset, .gc = e_gc, .live_objects = e_live, .errors = e_errors, .trace = e_trace,
	.user_state = e_user_state, .last_user_alive = e_last_alive, .last_user_double = e_last_double,
	.user_alive = e_user_alive, .user_double = e_user_double, .disassemble = e_disassemble,
	.set_budget = e_set_budget, .set_flags = e_set_flags, .set_gc_period = e_set_gc_period, .set_alloc_fail = e_set_fail,
	.alloc_live = e_alloc_live, .alloc_total = e_alloc_total,
	.extend = e_extend, .capi = e_capi, .shape = e_shape, .set_script = e_set_script,
	.raw = (void *) &RAW_API,
};

__attribute__((visibility("default"))) const eng_api *engine_get_api(void) { return &API; }
