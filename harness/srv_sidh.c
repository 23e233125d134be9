// Request server around the public SIDH/SIKE interface (compressed with -DCOMP).
// Every argument lives in its own exactly sized heap block between guard zones; inputs are compared with a copy afterwards.
// Entropy: real random.c, or with -DTAPE a scripted tape (op 'T': fail_at u32, then the bytes; draws beyond it are pseudo-random).
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#define STR_(x) #x
#define STR(x) STR_(x)
#if BITS == 434
#ifdef COMP
#include "P434/P434_compressed_api.h"
#else
#include "P434/P434_api.h"
#endif
#elif BITS == 503
#ifdef COMP
#include "P503/P503_compressed_api.h"
#else
#include "P503/P503_api.h"
#endif
#elif BITS == 610
#ifdef COMP
#include "P610/P610_compressed_api.h"
#else
#include "P610/P610_api.h"
#endif
#else
#ifdef COMP
#include "P751/P751_compressed_api.h"
#else
#include "P751/P751_api.h"
#endif
#endif
#ifdef COMP
#define SIDHF(n) CAT(n, _SIDHp, BITS##_)
#define X2(n, b) n##_SIDHp##b##_Compressed
#define X1(n, b) n##_SIKEp##b##_compressed
#else
#define X2(n, b) n##_SIDHp##b
#define X1(n, b) n##_SIKEp##b
#endif
#define X3(n, b) n##_SIDHp##b
#define Y2(n, b) X2(n, b)
#define Y1(n, b) X1(n, b)
#define Y3(n, b) X3(n, b)
#define DH(n) Y2(n, BITS)
#define KEM(n) Y1(n, BITS)
#define RND(n) Y3(n, BITS)

#ifdef CT       // run under memcheck: secrets are marked undefined, every dependence of a branch or an address on them is an error
#include <valgrind/memcheck.h>
#define SECRET(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#define PUBLIC(p, n) VALGRIND_MAKE_MEM_DEFINED(p, n)
#define ERRORS() ((uint32_t)VALGRIND_COUNT_ERRORS)
#else
#define SECRET(p, n) ((void)0)
#define PUBLIC(p, n) ((void)0)
#define ERRORS() 0u
#endif
static uint32_t err0; static volatile int sink;

#ifdef TAPE
static unsigned char *tape; static size_t tlen, tpos; static uint32_t fail_at, calls, drawn; static uint64_t st = 88172645463325252ull;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
int randombytes(unsigned char *b, unsigned long long n)
{
    pthread_mutex_lock(&mx);
    ++calls; drawn += n;
    if (fail_at && calls == fail_at) { pthread_mutex_unlock(&mx); return 1; }
    for (unsigned long long i = 0; i < n; i++) { if (tpos < tlen) b[i] = tape[tpos++]; else { st ^= st << 13; st ^= st >> 7; st ^= st << 17; b[i] = st >> 32; } }
    SECRET(b, n);
    pthread_mutex_unlock(&mx);
    return 0;
}
#else
static uint32_t calls, drawn;
#endif

#define GZ 64
#ifdef COMP
#define SKSEC (CRYPTO_SECRETKEYBYTES - CRYPTO_PUBLICKEYBYTES - SIDH_BYTES)
#else
#define SKSEC (CRYPTO_SECRETKEYBYTES - CRYPTO_PUBLICKEYBYTES)
#endif
typedef struct { unsigned char *base, *p, *copy; size_t n; int in; } buf;
static buf mk(size_t n, const unsigned char *src)
{
    buf b = {0}; b.n = n; b.in = src != 0;
#ifdef EXACT
    b.p = b.base = malloc(n ? n : 1);       // exactly sized: address/memory sanitizers see every stray access and unset byte
#ifdef COMP
    memset(b.p, 0x5A, n);                   // compressed SIDH keys of Bob do not fill the common public key size
#endif
#else
    b.base = malloc(n + 2 * GZ); memset(b.base, 0xC7, n + 2 * GZ); b.p = b.base + GZ; memset(b.p, 0x5A, n);
#endif
    if (src) { memcpy(b.p, src, n); b.copy = malloc(n ? n : 1); memcpy(b.copy, src, n); }
    return b;
}
static int chk(buf *b)      // bit 0: guard zone touched, bit 1: input modified
{
    int r = 0;
#ifndef EXACT
    for (size_t i = 0; i < GZ; i++) if (b->base[i] != 0xC7 || b->p[b->n + i] != 0xC7) r |= 1;
#endif
    if (b->in && memcmp(b->p, b->copy, b->n)) r |= 2;
    return r;
}
static void rd(void *p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = read(0, (char *)p + k, n - k); if (r <= 0) _exit(0); k += r; } }
static void wr(const void *p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = write(1, (const char *)p + k, n - k); if (r <= 0) _exit(1); k += r; } }
static void reply(int rc, int nb, buf *b)
{
    uint32_t n = 10; int fl = ERRORS() != err0 ? 4 : 0; PUBLIC(&rc, sizeof rc);
    for (int i = 0; i < nb; i++) PUBLIC(b[i].p, b[i].n);
    for (int i = 0; i < nb; i++) { fl |= chk(&b[i]); if (!b[i].in) n += b[i].n; }
    unsigned char h[10] = {rc, fl}; memcpy(h + 2, &calls, 4); memcpy(h + 6, &drawn, 4);
    wr(&n, 4); wr(h, 10);
    for (int i = 0; i < nb; i++) { if (!b[i].in && b[i].n) wr(b[i].p, b[i].n); free(b[i].base); free(b[i].copy); }
}
static int bad;
static void *worker(void *a)
{
    int n = *(int *)a;
    for (int i = 0; i < n; i++) {
        unsigned char *pk = malloc(CRYPTO_PUBLICKEYBYTES), *sk = malloc(CRYPTO_SECRETKEYBYTES), *ct = malloc(CRYPTO_CIPHERTEXTBYTES), s1[CRYPTO_BYTES], s2[CRYPTO_BYTES];
        if (KEM(crypto_kem_keypair)(pk, sk) || KEM(crypto_kem_enc)(ct, s1, pk) || KEM(crypto_kem_dec)(s2, ct, sk) || memcmp(s1, s2, CRYPTO_BYTES)) __atomic_fetch_add(&bad, 1, __ATOMIC_RELAXED);
        unsigned char a_[SIDH_SECRETKEYBYTES_A], b_[SIDH_SECRETKEYBYTES_B], pa[SIDH_PUBLICKEYBYTES], pb[SIDH_PUBLICKEYBYTES], j1[SIDH_BYTES], j2[SIDH_BYTES];
        if (RND(random_mod_order_A)(a_) || RND(random_mod_order_B)(b_) || DH(EphemeralKeyGeneration_A)(a_, pa) || DH(EphemeralKeyGeneration_B)(b_, pb) || DH(EphemeralSecretAgreement_A)(a_, pb, j1) || DH(EphemeralSecretAgreement_B)(b_, pa, j2) || memcmp(j1, j2, SIDH_BYTES)) __atomic_fetch_add(&bad, 1, __ATOMIC_RELAXED);
        free(pk); free(sk); free(ct);
    }
    return 0;
}
int main()
{
    for (;;) {
        char op; uint32_t n; rd(&op, 1); rd(&n, 4);
        unsigned char *q = malloc(n + 1); if (n) rd(q, n);
#ifdef TAPE
        if (op != 'T') calls = drawn = 0;
#endif
        buf b[4]; int rc = 0; err0 = ERRORS();
        size_t KA = SIDH_SECRETKEYBYTES_A, KB = SIDH_SECRETKEYBYTES_B, PK = SIDH_PUBLICKEYBYTES;
        switch (op) {
        case 'I': { uint32_t v[8] = {KA, KB, PK, SIDH_BYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_PUBLICKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES}; b[0] = mk(32, 0); memcpy(b[0].p, v, 32); reply(0, 1, b); break; }
#ifdef TAPE
        case 'T': memcpy(&fail_at, q, 4); free(tape); tlen = n - 4; tape = malloc(tlen + 1); memcpy(tape, q + 4, tlen); tpos = 0; st = 88172645463325252ull; reply(0, 0, b); break;
#endif
        case 'r': b[0] = mk(KA, 0); rc = RND(random_mod_order_A)(b[0].p); reply(rc, 1, b); break;
        case 'R': b[0] = mk(KB, 0); rc = RND(random_mod_order_B)(b[0].p); reply(rc, 1, b); break;
        case 'a': b[0] = mk(KA, q); SECRET(b[0].p, KA); b[1] = mk(PK, 0); rc = DH(EphemeralKeyGeneration_A)(b[0].p, b[1].p); reply(rc, 2, b); break;
        case 'b': b[0] = mk(KB, q); SECRET(b[0].p, KB); b[1] = mk(PK, 0); rc = DH(EphemeralKeyGeneration_B)(b[0].p, b[1].p); reply(rc, 2, b); break;
        case 'x': b[0] = mk(KA, q); SECRET(b[0].p, KA); b[1] = mk(PK, q + KA); b[2] = mk(SIDH_BYTES, 0); rc = DH(EphemeralSecretAgreement_A)(b[0].p, b[1].p, b[2].p); reply(rc, 3, b); break;
        case 'y': b[0] = mk(KB, q); SECRET(b[0].p, KB); b[1] = mk(PK, q + KB); b[2] = mk(SIDH_BYTES, 0); rc = DH(EphemeralSecretAgreement_B)(b[0].p, b[1].p, b[2].p); reply(rc, 3, b); break;
        case 'K': b[0] = mk(CRYPTO_PUBLICKEYBYTES, 0); b[1] = mk(CRYPTO_SECRETKEYBYTES, 0); rc = KEM(crypto_kem_keypair)(b[0].p, b[1].p); reply(rc, 2, b); break;
        case 'E': b[0] = mk(CRYPTO_PUBLICKEYBYTES, q); b[1] = mk(CRYPTO_CIPHERTEXTBYTES, 0); b[2] = mk(CRYPTO_BYTES, 0); rc = KEM(crypto_kem_enc)(b[1].p, b[2].p, b[0].p); reply(rc, 3, b); break;
        case 'D': b[0] = mk(CRYPTO_SECRETKEYBYTES, q); SECRET(b[0].p, SKSEC); b[1] = mk(CRYPTO_CIPHERTEXTBYTES, q + CRYPTO_SECRETKEYBYTES); b[2] = mk(CRYPTO_BYTES, 0); rc = KEM(crypto_kem_dec)(b[2].p, b[1].p, b[0].p); reply(rc, 3, b); break;
        case 'Z': b[0] = mk(64, 0); memset(b[0].p, 1, 64); SECRET(b[0].p, 64); if (q[0] == 0) { if (b[0].p[3] == 1) sink = 7; } else if (q[0] == 1) sink = q[b[0].p[0] & 1]; else sink = b[0].p[0] ^ b[0].p[1]; reply(0, 1, b); break;     // control: leaks by a branch, by an address, not at all
        case 'C': { int m = q[1]; pthread_t t[64]; bad = 0; for (int i = 0; i < q[0]; i++) pthread_create(&t[i], 0, worker, &m); for (int i = 0; i < q[0]; i++) pthread_join(t[i], 0); b[0] = mk(4, 0); memcpy(b[0].p, &bad, 4); reply(0, 1, b); break; }
        default: _exit(0);
        }
        free(q);
    }
}
