#ifndef DV_STRING
#define DV_STRING
#include <stdlib.h>
void *memset(void *p, int c, size_t n); void *memcpy(void *d, const void *s, size_t n); void *memmove(void *d, const void *s, size_t n);
#endif
