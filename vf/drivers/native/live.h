/* counts the blocks the code under test has allocated and not released (link with --wrap=malloc,calloc,realloc,strdup,vasprintf,free) */
static long live; static void *lset[1 << 16];
static void ladd(void *p) { unsigned h = (unsigned)((unsigned long)p >> 4) * 2654435761u >> 16; int i; if (!p) return; for (i = 0; i < 1 << 16; i++, h = (h + 1) & 0xffff) if (lset[h] == NULL || lset[h] == (void *)1) { lset[h] = p; live++; return; } }
static void ldel(void *p) { unsigned h = (unsigned)((unsigned long)p >> 4) * 2654435761u >> 16; int i; if (!p) return; for (i = 0; i < 1 << 16 && lset[h] != NULL; i++, h = (h + 1) & 0xffff) if (lset[h] == p) { lset[h] = (void *)1; live--; return; } }
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); char *__real_strdup(const char *); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); ladd(p); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); ladd(p); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p) { ldel(q); ladd(p); } return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); ladd(p); return p; }
void __wrap_free(void *p) { ldel(p); __real_free(p); }
int __real_vasprintf(char **, const char *, va_list);
int __wrap_vasprintf(char **s, const char *f, va_list a) { int r = __real_vasprintf(s, f, a); if (r >= 0) ladd(*s); return r; }
