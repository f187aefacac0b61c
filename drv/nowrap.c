/* drivers without allocation interposition */
#include "drv.h"
#undef xmalloc
void *__real_malloc(size_t n) { return malloc(n); }
void *__real_calloc(size_t a, size_t b) { return calloc(a, b); }
void *__real_realloc(void *p, size_t n) { return realloc(p, n); }
void __real_free(void *p) { free(p); }
