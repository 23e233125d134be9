// Link-time fault injection for the command line programs (prove.c, verify.c linked unchanged).
//   FAKE_PROVE=file  the expensive Prove() is replaced by reading a ready-made proof (only where output faults are studied)
//   FAKE_VERIFY=1    likewise for Verify()
//   MALLOC_FAIL_AT=n, THREAD_FAIL_AT=n   the n-th call fails
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdatomic.h>
#include <errno.h>
#include <pthread.h>
#include <poik.h>
void __real_Prove(struct secret const *, struct proof *);
void __wrap_Prove(struct secret const *s, struct proof *p)
{
    const char *f = getenv("FAKE_PROVE"); if (!f) { __real_Prove(s, p); return; }
    FILE *h = fopen(f, "r"); if (!h || !Parse(h, p)) { fputs("FAULTS: cannot load proof\n", stderr); _Exit(70); } fclose(h);
}
bool __real_Verify(struct proof *);
bool __wrap_Verify(struct proof *p) { return getenv("FAKE_VERIFY") ? true : __real_Verify(p); }
static int due(const char *name, atomic_long *n) { const char *e = getenv(name); if (!e) return 0; if (atomic_fetch_add(n, 1) + 1 != atol(e)) return 0; fprintf(stderr, "FAULTS: injected %s=%s\n", name, e); return 1; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); static atomic_long nm, nt, nj;
void *__wrap_malloc(size_t n) { if (due("MALLOC_FAIL_AT", &nm)) { errno = ENOMEM; return 0; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (due("MALLOC_FAIL_AT", &nm)) { errno = ENOMEM; return 0; } return __real_calloc(a, b); }
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { if (due("THREAD_FAIL_AT", &nt)) return EAGAIN; return __real_pthread_create(t, a, f, x); }
