/* Counts the blocks the library holds (linked with --wrap into the shared
   library given to the Python bindings). */
#include <stdlib.h>
#include <stdatomic.h>
static atomic_long live;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (!q && p) live++; if (q && !p && !n) live--; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (p) live++; return p; }
long vf_live(void) { return live; }
