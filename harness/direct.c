/* The library is compiled with the C library's allocation functions renamed to
 * these, so that a block obtained past the configured functions is noticed. */
#include <stdlib.h>
#include <string.h>
#ifdef LMH_THREADS
#define TV _Thread_local
#else
#define TV
#endif
TV long lm_direct = 0;
void *lm_direct_malloc (size_t n) { lm_direct++; return malloc (n); }
void *lm_direct_calloc (size_t n, size_t m) { lm_direct++; return calloc (n, m); }
void *lm_direct_realloc (void *p, size_t n) { lm_direct++; return realloc (p, n); }
void lm_direct_free (void *p) { lm_direct++; free (p); }
char *lm_direct_strdup (const char *s) { lm_direct++; return strdup (s); }
char *lm_direct_strndup (const char *s, size_t n) { lm_direct++; return strndup (s, n); }
