/* Direct access to the library underneath the interpreter, with nothing but C types. */
#ifndef VERIF_RAWAPI_H
#define VERIF_RAWAPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef int (*raw_cmp)(const void *l, const void *r, const void *context);

typedef struct {
	int uses_pool;
	size_t block_descriptor_size;
	/* allocators: ma_new returns NULL and sets *e on failure */
	void *(*ma_new)(void *pool, size_t size, int fit, int *e);
	void (*ma_delete)(void *ma);
	int (*ma_malloc)(void *ma, void **p, size_t n);
	int (*ma_free)(void *ma, void **p);
	int (*ma_realloc)(void *ma, void **p, size_t n);
	size_t (*ma_usage)(void *ma);
	/* pool only: blocks handed out and not given back; where the allocator keeps its table */
	long (*ma_live)(void *ma);
	void (*ma_table)(void *ma, const void **start, size_t *bytes);

	/* arrays; strategy 0 fit, 1 double */
	void *(*arr_new)(void *ma, size_t element_size, int strategy);
	int (*arr_delete)(void *a);               /* dl_array_quit, then forgets it */
	int (*arr_quit)(void *a);
	void (*arr_init)(void *a, void *ma, size_t element_size, int strategy);
	size_t (*arr_length)(void *a);
	const void *(*arr_elements)(void *a);
	int (*arr_push)(void *a, void *el);
	int (*arr_push_many)(void *a, const void *els, size_t n);
	int (*arr_pop)(void *a, void *el);
	int (*arr_pop_many)(void *a, void *els, size_t n);
	int (*arr_get_top)(void *a, void *el);
	int (*arr_set_top)(void *a, void *el);
	int (*arr_get)(void *a, void *el, ptrdiff_t i);
	int (*arr_set)(void *a, const void *el, ptrdiff_t i);
	int (*arr_clear)(void *a);

	/* tries */
	void *(*trie_new)(void *ma, ptrdiff_t null_index);
	int (*trie_delete)(void *t);
	int (*trie_insert)(void *t, const unsigned char *key, size_t n, ptrdiff_t value);
	ptrdiff_t (*trie_find)(void *t, const unsigned char *key, size_t n);

	/* sorting: 0 heapsort, 1 quicksort_lomuto, 2 quicksort_hoare */
	void (*sort)(int which, void *a, size_t n, size_t size, ptrdiff_t low, ptrdiff_t high, raw_cmp cmp, const void *context);

	/* strings */
	int (*is_digit)(int c);
	int (*is_hex)(int c);
	int (*is_alpha)(int c);
	int (*is_space)(int c);
	int (*to_bool)(int *r, const unsigned char *s, size_t n);
	int (*to_ptrdiff)(ptrdiff_t *r, const unsigned char *s, size_t n);
	int (*to_double)(double *r, const unsigned char *s, size_t n);
	/* appended to the array of bytes */
	int (*from_bool)(void *a, int b);
	int (*from_uint8)(void *a, unsigned v);
	int (*from_ptrdiff)(void *a, ptrdiff_t v);
	int (*from_size)(void *a, size_t v);
	int (*compare)(const unsigned char *a, size_t an, const unsigned char *b, size_t bn);
	int (*compare_partial)(const unsigned char *a, const unsigned char *b, size_t n);
	void (*memcopy)(void *d, const void *s, size_t n);
	void (*memcopy_no_overlap)(void *d, const void *s, size_t n);
	void (*memclear)(void *d, size_t n);
	size_t (*string_length)(const unsigned char *s);
	int (*nybble)(int i);
} raw_api;

#ifdef __cplusplus
}
#endif
#endif
