/* lk.h -- put before every source of a driver in a run that looks for lost memory (C28): what the
   driver itself allocates is never a loss and keeps what it points to */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
extern void __lsan_disable(void), __lsan_enable(void);
static inline void *lk_malloc(size_t n) { void *p; __lsan_disable(); p = malloc(n); __lsan_enable(); return p; }
static inline void *lk_calloc(size_t n, size_t m) { void *p; __lsan_disable(); p = calloc(n, m); __lsan_enable(); return p; }
static inline void *lk_realloc(void *q, size_t n) { void *p; __lsan_disable(); p = realloc(q, n); __lsan_enable(); return p; }
static inline char *lk_strdup(const char *s) { char *p; __lsan_disable(); p = strdup(s); __lsan_enable(); return p; }
#define malloc lk_malloc
#define calloc lk_calloc
#define realloc lk_realloc
#undef strdup
#define strdup lk_strdup
