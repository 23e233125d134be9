// Server around the public proof API (Generate/Prove/Verify/Parse/Dump) of one parameter size.
// The library is linked unchanged from /repo; shake256 and sysconf are observed/steered at link time.
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <poik.h>

static int jitter;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static unsigned char *lg; static size_t lgn, lgcap; static int logging; static size_t maxlog = 64u << 20;
static void put(const void *p, size_t n) {
    if (lgn + n > maxlog) return;
    if (lgn + n > lgcap) { lgcap = (lgn + n) * 2 + 4096; lg = realloc(lg, lgcap); }
    memcpy(lg + lgn, p, n); lgn += n;
}
static void nap(void) { if (jitter) { static __thread unsigned s; if (!s) s = (unsigned)(uintptr_t)&s ^ (unsigned)time(0); s = s * 1664525u + 1013904223u; if ((s >> 24) < 64) usleep((s >> 8) % jitter); else if ((s >> 24) < 128) sched_yield(); } }

void __real_shake256(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
void __wrap_shake256(unsigned char *o, unsigned long long ol, const unsigned char *in, unsigned long long il)
{
    nap();
    __real_shake256(o, ol, in, il);
    if (logging) {
        pthread_mutex_lock(&mx);
        uint32_t h[2] = {(uint32_t)il, (uint32_t)ol}; put(h, 8); put(in, il); put(o, ol);
        pthread_mutex_unlock(&mx);
    }
    nap();
}
long __real_sysconf(int);
static long nthr;
__attribute__((disable_sanitizer_instrumentation)) long __wrap_sysconf(int n)   // may be called before a sanitizer runtime is up
{
    if (nthr && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return nthr;
    return __real_sysconf(n);
}

#ifdef RNG_STUB
void rng_reset(uint64_t seed, uint64_t altseed, uint32_t fixed_size);
size_t rng_log(unsigned char **p);
void rng_log_enable(int);
#endif

static void rd(void *b, size_t n) { if (n && fread(b, 1, n, stdin) != n) exit(0); }
static void out(const void *b, uint32_t n) { fwrite(&n, 1, 4, stdout); fwrite(b, 1, n, stdout); fflush(stdout); }

static struct proof *prf_of(const unsigned char *t, size_t n, int *ok)
{
    struct proof *p = malloc(sizeof *p); memset(p, 0xA5, sizeof *p);
    FILE *f = n ? fmemopen((void *)t, n, "r") : fopen("/dev/null", "r");
    *ok = Parse(f, p); fclose(f);
    return p;
}

// application threads using the library at the same time: even ones verify the given text, odd ones generate a secret
static const unsigned char *ct; static size_t cn;
static void *app(void *a)
{
    size_t k = (size_t)a; int r = 0;
    if (k & 1) { packed_fp2 E; memset(&E, 0, sizeof E); struct secret s; r = Generate(&E, &s); }
    else { int ok; struct proof *p = prf_of(ct, cn, &ok); r = ok && Verify(p); free(p); }
    return (void *)(size_t)r;
}

int main(void)
{
    if (getenv("POIK_THREADS")) nthr = atol(getenv("POIK_THREADS"));
    if (getenv("PROGRESS")) Progress_Indicator_File = fopen("/dev/null", "w");
    if (getenv("JITTER")) jitter = atoi(getenv("JITTER"));
    for (;;) {
        unsigned char op; uint32_t n; rd(&op, 1); rd(&n, 4);
        unsigned char *b = malloc(n + 1); rd(b, n); b[n] = 0;
        switch (op) {
        case 'I': { uint32_t v[8] = {POIK_BITS, sizeof(packed_fp2), sizeof(struct secret), sizeof(struct proof), POIK_REPS, POIK_WIDTH, POIK_HEIGHT, HASH_BYTES}; out(v, sizeof v); } break;
        case 'G': { packed_fp2 E; struct secret s; memset(&s, 0x5A, sizeof s); memcpy(&E, b, sizeof E); unsigned char r[1 + sizeof s]; r[0] = Generate(&E, &s); memcpy(r + 1, &s, sizeof s); out(r, sizeof r); } break;
        case 'P': { struct secret s; memcpy(&s, b, sizeof s); struct proof *p = malloc(sizeof *p); memset(p, 0xA5, sizeof *p); Prove(&s, p);
                    char *t = 0; size_t tn = 0; FILE *f = open_memstream(&t, &tn); int ok = Dump(f, p); fclose(f); if (!ok) tn = 0; out(t, tn); free(t); free(p); } break;
        case 'L': logging = b[0]; out("", 0); break;
        case 'V': { int ok; struct proof *p = prf_of(b, n, &ok); int v = 0; lgn = 0; if (ok) v = Verify(p);
                    unsigned char *r = malloc(2 + lgn); r[0] = ok; r[1] = v; if (lgn) memcpy(r + 2, lg, lgn); out(r, 2 + lgn); free(r); lgn = 0; free(p); } break;
        case 'T': { int ok; uint32_t rep; int32_t tag; memcpy(&rep, b, 4); memcpy(&tag, b + 4, 4); struct proof *p = prf_of(b + 8, n - 8, &ok); int v = 0; if (ok) { *(int32_t *)&p->resp[rep].tag = tag; v = Verify(p); }
                    unsigned char r[2] = {ok, v}; out(r, 2); lgn = 0; free(p); } break;
        case 'R': { int ok; struct proof *p = prf_of(b, n, &ok); char *t = 0; size_t tn = 0; FILE *f = open_memstream(&t, &tn); fputc(ok, f); if (ok && !Dump(f, p)) fputs("DUMPFAIL", f); fclose(f); out(t, tn); free(t); free(p); } break;
        case 'F': { packed_fp2 E; memset(&E, 0xA5, sizeof E); FILE *f = n ? fmemopen(b, n, "r") : fopen("/dev/null", "r"); unsigned char r[1 + sizeof E]; r[0] = Parse_Fp2(f, &E); fclose(f); memcpy(r + 1, &E, sizeof E); out(r, sizeof r); } break;
        case 'D': { packed_fp2 E; memcpy(&E, b, sizeof E); char *t = 0; size_t tn = 0; FILE *f = open_memstream(&t, &tn); int ok = Dump_Fp2(f, &E); fclose(f); out(t, ok ? tn : 0); free(t); } break;
#ifdef RNG_STUB
        case 'S': { uint64_t s[2]; uint32_t z; memcpy(s, b, 16); memcpy(&z, b + 16, 4); rng_reset(s[0], s[1], z); out("", 0); } break;
        case 'Q': { rng_log_enable(b[0]); unsigned char *p; size_t k = rng_log(&p); out(p, k); } break;
#endif
        case 'W': { int ok; struct proof *p = prf_of(b, n, &ok); int v = 0; if (ok) v = Verify(p); char *t = 0; size_t tn = 0; FILE *f = open_memstream(&t, &tn); fputc(ok, f); fputc(v, f); if (ok) Dump(f, p); fclose(f); out(t, tn); free(t); free(p); lgn = 0; } break;
        case 'C': { pthread_t th[16]; unsigned char r[16]; unsigned k = b[0] > 16 ? 16 : b[0]; ct = b + 1; cn = n - 1; for (size_t i = 0; i < k; ++i) pthread_create(&th[i], 0, app, (void *)i);
                    for (unsigned i = 0; i < k; ++i) { void *v; pthread_join(th[i], &v); r[i] = (size_t)v; } out(r, k); lgn = 0; } break;
        case 'X': exit(0);
        default: exit(77);
        }
        free(b);
    }
}
