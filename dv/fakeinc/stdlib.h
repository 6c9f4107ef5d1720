#ifndef DV_STDLIB
#define DV_STDLIB
typedef unsigned long size_t;
#define NULL 0
void *malloc(size_t n); void *calloc(size_t n, size_t m); void *realloc(void *p, size_t n); void free(void *p); int abs(int x); long labs(long x); void exit(int c); void abort(void);
#endif
