/* Force-included when DuckLib/memory.c is compiled: its malloc/realloc/free become countable. */
#ifndef VERIF_ALLOC_SHIM_H
#define VERIF_ALLOC_SHIM_H
#include <stdlib.h>
void *verif_malloc(size_t);
void *verif_realloc(void *, size_t);
void verif_free(void *);
#define malloc verif_malloc
#define realloc verif_realloc
#define free verif_free
#endif
