/* forced into every C file of the scratch tree: heap calls go to the checking allocator of cmem.c */
#include <stdlib.h>
#include <string.h>
void *dv_malloc(size_t n); void *dv_calloc(size_t n, size_t k); void *dv_realloc(void *p, size_t n); void dv_free(void *p);
#ifndef DV_HARNESS
#define malloc dv_malloc
#define calloc dv_calloc
#define realloc dv_realloc
#define free dv_free
#endif
