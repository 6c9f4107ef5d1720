#ifndef DV_STDIO
#define DV_STDIO
#include <stdlib.h>
int printf(const char *f, ...);
#endif
