// Deterministic stand-in for random.c (link-time replacement of randombytes).
// Draws of `fixed` bytes come from stream `seed`, all others from stream `alt`; each size class has its own counter.
// RNG_FAIL_AT=n: the n-th call (1-based) reports failure. RNG_LOG: sizes of draws.
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static uint64_t seed = 1, alt = 1; static uint32_t fixed = 0; static uint64_t cnt[4096]; static uint64_t calls;
static unsigned char *lg; static size_t n, cap; static int on;
static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void rng_reset(uint64_t s, uint64_t a, uint32_t f) { pthread_mutex_lock(&mx); seed = s; alt = a; fixed = f; memset(cnt, 0, sizeof cnt); calls = 0; n = 0; pthread_mutex_unlock(&mx); }
void rng_log_enable(int x) { on = x; }
size_t rng_log(unsigned char **p) { *p = lg; return n; }
static void report(void) { fprintf(stderr, "RNGSTUB: calls %llu\n", (unsigned long long)calls); }
int randombytes(unsigned char *b, unsigned long long len)
{
    pthread_mutex_lock(&mx);
    static long fail_at = -1; if (fail_at < 0) { const char *e = getenv("RNG_FAIL_AT"); fail_at = e ? atol(e) : 0; }
    static int cnt_on = -1; if (cnt_on < 0) { cnt_on = getenv("RNG_COUNT") != 0; if (cnt_on) atexit(report); }
    ++calls;
    if (fail_at && (long)calls == fail_at) { pthread_mutex_unlock(&mx); fprintf(stderr, "RNGSTUB: injected failure at call %ld\n", fail_at); return 1; }
    uint64_t c = cnt[len & 4095]++, k = (fixed == 0 || len == fixed) ? seed : alt;
    if (on) { if (n + 4 > cap) { cap = cap * 2 + 65536; lg = realloc(lg, cap); } uint32_t l = (uint32_t)len; memcpy(lg + n, &l, 4); n += 4; }
    pthread_mutex_unlock(&mx);
    uint64_t st = mix(k * 0x9e3779b97f4a7c15ULL + mix(c + 1) + mix(len * 77 + 5));
    for (unsigned long long i = 0; i < len; i += 8) { st += 0x9e3779b97f4a7c15ULL; uint64_t v = mix(st); unsigned long long m = len - i < 8 ? len - i : 8; memcpy(b + i, &v, m); }
    return 0;
}
