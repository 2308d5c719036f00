/* Wrappers of DuckLib for one configuration. */
#include <stdlib.h>
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/array.h"
#include "DuckLib/trie.h"
#include "DuckLib/sort.h"
#include "DuckLib/string.h"
#include "rawapi.h"

static void *r_ma_new(void *pool, size_t size, int fit, int *e) {
	dl_memoryAllocation_t *ma = calloc(1, sizeof *ma);
	*e = 0;
#ifdef USE_DUCKLIB_MALLOC
	*e = dl_memory_init(ma, pool, size, (dl_memoryFit_t) fit);
	if (*e) { free(ma); return NULL; }
#else
	(void) pool; (void) size; (void) fit;
#endif
	return ma;
}
static void r_ma_delete(void *ma) {
#ifdef USE_DUCKLIB_MALLOC
	dl_memory_quit(ma);
#endif
	free(ma);
}
static int r_malloc(void *ma, void **p, size_t n) { return dl_malloc(ma, p, n); }
static int r_free(void *ma, void **p) { return dl_free(ma, p); }
static int r_realloc(void *ma, void **p, size_t n) { return dl_realloc(ma, p, n); }
static size_t r_usage(void *ma) { dl_size_t n = 0; dl_memory_usage(&n, *(dl_memoryAllocation_t *) ma); return n; }

static long r_live(void *m) {
	long n = 0;
#ifdef USE_DUCKLIB_MALLOC
	dl_memoryAllocation_t *ma = m;
	for (size_t i = 0; i < ma->blockList_length; i++)
		if (ma->blockList[i].allocated && !ma->blockList[i].unlinked && (dl_ptrdiff_t) i != ma->blockList_indexOfBlockList) n++;
#else
	(void) m;
#endif
	return n;
}
static void r_table(void *m, const void **start, size_t *bytes) {
	dl_memoryAllocation_t *ma = m;
	*start = ma->blockList;
	*bytes = ma->blockList_length * sizeof(dl_memoryBlock_t);
}

static void *r_arr_new(void *ma, size_t es, int strategy) {
	dl_array_t *a = malloc(sizeof *a);
	dl_array_init(a, ma, es, strategy ? dl_array_strategy_double : dl_array_strategy_fit);
	return a;
}
static void r_arr_init(void *a, void *ma, size_t es, int strategy) { dl_array_init(a, ma, es, strategy ? dl_array_strategy_double : dl_array_strategy_fit); }
static int r_arr_quit(void *a) { return dl_array_quit(a); }
static int r_arr_delete(void *a) { int e = dl_array_quit(a); free(a); return e; }
static size_t r_arr_length(void *a) { return ((dl_array_t *) a)->elements_length; }
static const void *r_arr_elements(void *a) { return ((dl_array_t *) a)->elements; }
static int r_arr_push(void *a, void *el) { return dl_array_pushElement(a, el); }
static int r_arr_push_many(void *a, const void *els, size_t n) { return dl_array_pushElements(a, els, n); }
static int r_arr_pop(void *a, void *el) { return dl_array_popElement(a, el); }
static int r_arr_pop_many(void *a, void *els, size_t n) { return dl_array_popElements(a, els, n); }
static int r_arr_get_top(void *a, void *el) { return dl_array_getTop(a, el); }
static int r_arr_set_top(void *a, void *el) { return dl_array_setTop(a, el); }
static int r_arr_get(void *a, void *el, ptrdiff_t i) { return dl_array_get(a, el, i); }
static int r_arr_set(void *a, const void *el, ptrdiff_t i) { return dl_array_set(a, el, i); }
static int r_arr_clear(void *a) { return dl_array_clear(a); }

static void *r_trie_new(void *ma, ptrdiff_t null_index) {
	dl_trie_t *t = malloc(sizeof *t);
	dl_trie_init(t, ma, null_index);
	return t;
}
static int r_trie_delete(void *t) { int e = dl_trie_quit(t); free(t); return e; }
static int r_trie_insert(void *t, const unsigned char *k, size_t n, ptrdiff_t v) { return dl_trie_insert(t, k, n, v); }
static ptrdiff_t r_trie_find(void *t, const unsigned char *k, size_t n) { dl_ptrdiff_t i = -77; dl_trie_find(*(dl_trie_t *) t, &i, k, n); return i; }

static void r_sort(int which, void *a, size_t n, size_t size, ptrdiff_t low, ptrdiff_t high, raw_cmp cmp, const void *context) {
	switch (which) {
	case 0: heapsort(a, n, size, cmp, context); break;
	case 1: quicksort_lomuto(a, n, size, low, high, cmp, context); break;
	default: quicksort_hoare(a, n, size, low, high, cmp, context);
	}
}

static int r_is_digit(int c) { return dl_string_isDigit((dl_uint8_t) c); }
static int r_is_hex(int c) { return dl_string_isHexadecimalDigit((dl_uint8_t) c); }
static int r_is_alpha(int c) { return dl_string_isAlpha((dl_uint8_t) c); }
static int r_is_space(int c) { return dl_string_isSpace((dl_uint8_t) c); }
static int r_to_bool(int *r, const unsigned char *s, size_t n) { dl_bool_t b = 9; int e = dl_string_toBool(&b, s, n); *r = b; return e; }
static int r_to_ptrdiff(ptrdiff_t *r, const unsigned char *s, size_t n) { dl_ptrdiff_t v = 0; int e = dl_string_toPtrdiff(&v, s, n); *r = v; return e; }
static int r_to_double(double *r, const unsigned char *s, size_t n) { return dl_string_toDouble(r, s, n); }
static int r_from_bool(void *a, int b) { return dl_string_fromBool(a, (dl_bool_t) b); }
static int r_from_uint8(void *a, unsigned v) { return dl_string_fromUint8(a, (dl_uint8_t) v); }
static int r_from_ptrdiff(void *a, ptrdiff_t v) { return dl_string_fromPtrdiff(a, v); }
static int r_from_size(void *a, size_t v) { return dl_string_fromSize(a, v); }
static int r_compare(const unsigned char *a, size_t an, const unsigned char *b, size_t bn) { dl_bool_t r = 9; dl_string_compare(&r, a, an, b, bn); return r; }
static int r_compare_partial(const unsigned char *a, const unsigned char *b, size_t n) { dl_bool_t r = 9; dl_string_compare_partial(&r, a, b, n); return r; }
static size_t r_string_length(const unsigned char *s) { dl_size_t n = 0; dl_strlen(&n, s); return n; }
static int r_nybble(int i) { return dl_nybbleToHexChar((dl_uint8_t) i); }

const raw_api RAW_API = {
#ifdef USE_DUCKLIB_MALLOC
	.uses_pool = 1,
#endif
	.block_descriptor_size = sizeof(dl_memoryBlock_t),
	.ma_new = r_ma_new, .ma_delete = r_ma_delete, .ma_malloc = r_malloc, .ma_free = r_free, .ma_realloc = r_realloc, .ma_usage = r_usage, .ma_live = r_live, .ma_table = r_table,
	.arr_new = r_arr_new, .arr_delete = r_arr_delete, .arr_quit = r_arr_quit, .arr_init = r_arr_init, .arr_length = r_arr_length,
	.arr_elements = r_arr_elements, .arr_push = r_arr_push, .arr_push_many = r_arr_push_many, .arr_pop = r_arr_pop, .arr_pop_many = r_arr_pop_many,
	.arr_get_top = r_arr_get_top, .arr_set_top = r_arr_set_top, .arr_get = r_arr_get, .arr_set = r_arr_set, .arr_clear = r_arr_clear,
	.trie_new = r_trie_new, .trie_delete = r_trie_delete, .trie_insert = r_trie_insert, .trie_find = r_trie_find,
	.sort = r_sort,
	.is_digit = r_is_digit, .is_hex = r_is_hex, .is_alpha = r_is_alpha, .is_space = r_is_space,
	.to_bool = r_to_bool, .to_ptrdiff = r_to_ptrdiff, .to_double = r_to_double,
	.from_bool = r_from_bool, .from_uint8 = r_from_uint8, .from_ptrdiff = r_from_ptrdiff, .from_size = r_from_size,
	.compare = r_compare, .compare_partial = r_compare_partial, .memcopy = dl_memcopy, .memcopy_no_overlap = dl_memcopy_noOverlap, .memclear = dl_memclear,
	.string_length = r_string_length, .nybble = r_nybble,
};
