// Request server around sha3/fips202.c. Input and output buffers end (or begin) at an inaccessible page; what lies on the accessible side is filled with a pattern and checked.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include "fips202.h"
static void rd(void *p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = read(0, (char *)p + k, n - k); if (r <= 0) _exit(0); k += r; } }
static void wr(const void *p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = write(1, (const char *)p + k, n - k); if (r <= 0) _exit(1); k += r; } }
#define AREA (1u << 22)
#define PG 4096u
static unsigned char *area(void)
{
    unsigned char *p = mmap(0, AREA + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED || mprotect(p, PG, PROT_NONE) || mprotect(p + PG + AREA, PG, PROT_NONE)) _exit(9);
    return p + PG;
}
#define PAT 0xC3
// place n bytes: mode 0 flush with the end, 1 flush with the start, 2.. at offset mode-2 from a 64-byte boundary in the middle
static unsigned char *place(unsigned char *a, size_t n, int mode) { return mode == 0 ? a + AREA - n : mode == 1 ? a : a + 64 + (mode - 2); }
static int around(unsigned char *a, unsigned char *p, size_t n)
{
    size_t lo = p - a > 512 ? p - a - 512 : 0, hi = (p - a) + n + 512 < AREA ? (p - a) + n + 512 : AREA;
    for (size_t i = lo; i < (size_t)(p - a); i++) if (a[i] != PAT) return 1;
    for (size_t i = (p - a) + n; i < hi; i++) if (a[i] != PAT) return 1;
    return 0;
}
typedef void (*absorb_t)(uint64_t *, const unsigned char *, unsigned int);
typedef void (*squeeze_t)(unsigned char *, unsigned long long, uint64_t *);
typedef void (*xof_t)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
static void huge_in(int alg, uint64_t len)
{   // the input repeats one 2 MB block of file pages mapped again and again
    const size_t B = 1 << 21; FILE *f = tmpfile(); if (!f) { unsigned char x = 2; wr(&x, 1); return; }
    unsigned char *blk = malloc(B); for (size_t i = 0; i < B; i++) blk[i] = (unsigned char)(i * 167 + (i >> 8) * 29 + (i >> 16)); 
    if (fwrite(blk, 1, B, f) != B || fflush(f)) { unsigned char x = 2; wr(&x, 1); return; }
    size_t k = (len + B - 1) / B; unsigned char *p = mmap(0, k * B, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { unsigned char x = 2; wr(&x, 1); return; }
    for (size_t i = 0; i < k; i++) if (mmap(p + i * B, B, PROT_READ, MAP_SHARED | MAP_FIXED, fileno(f), 0) == MAP_FAILED) { unsigned char x = 2; wr(&x, 1); return; }
    unsigned char o[1 + 200]; o[0] = 0; ((xof_t)(alg ? shake256 : shake128))(o + 1, 200, p, len);
    wr(o, sizeof o); munmap(p, k * B); fclose(f); free(blk);
}
static void huge_out(int alg, uint64_t len)
{   // the output goes to one block of pages mapped again and again: the last block written is returned
    const size_t B = 1 << 21; FILE *f = tmpfile(); if (!f || ftruncate(fileno(f), B)) { unsigned char x = 2; wr(&x, 1); return; }
    size_t k = (len + B - 1) / B; unsigned char *p = mmap(0, k * B, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { unsigned char x = 2; wr(&x, 1); return; }
    for (size_t i = 0; i < k; i++) if (mmap(p + i * B, B, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fileno(f), 0) == MAP_FAILED) { unsigned char x = 2; wr(&x, 1); return; }
    ((xof_t)(alg ? shake256 : shake128))(p, len, (const unsigned char *)"long output", 11);
    unsigned char o[201]; o[0] = 0; memcpy(o + 1, p + len - 200, 200); wr(o, sizeof o); munmap(p, k * B); fclose(f);
}
int main()
{
    unsigned char *A = area(), *O = area(), *S = area(); memset(A, PAT, AREA); memset(O, PAT, AREA); memset(S, PAT, AREA);
    for (;;) {
        struct { uint8_t op, alg, imode, omode; uint32_t inlen, outlen, nsq, rep; uint64_t huge; } __attribute__((packed)) h; rd(&h, sizeof h);
        if (h.op == 'H') { huge_in(h.alg, h.huge); continue; }
        if (h.op == 'J') { huge_out(h.alg, h.huge); continue; }
        uint32_t r = h.alg ? SHAKE256_RATE : SHAKE128_RATE, *sq = malloc(4 * h.nsq + 4); if (h.nsq) rd(sq, 4 * h.nsq);
        unsigned char *copy = malloc(h.inlen + 1); if (h.inlen) rd(copy, h.inlen);
        unsigned char *in = place(A, h.inlen, h.imode); if (h.inlen) memcpy(in, copy, h.inlen); unsigned char fl = 0;
        size_t total = h.outlen; if (h.op == 'I') { total = 0; for (uint32_t i = 0; i < h.nsq; i++) total += (size_t)sq[i] * r; }
        if (total + 1024 > AREA || h.inlen + 1024 > AREA) _exit(8);
        unsigned char *out = place(O, total, h.omode);
        if (h.op == 'O') ((xof_t)(h.alg ? shake256 : shake128))(out, total, in, h.inlen);
        else {
            uint64_t *s = (uint64_t *)place(S, 200, h.imode > 1 ? 2 : h.imode); memset(s, 0, 200);
            ((absorb_t)(h.alg ? shake256_absorb : shake128_absorb))(s, in, h.inlen);
            unsigned char *q = out; for (uint32_t i = 0; i < h.nsq; i++) { ((squeeze_t)(h.alg ? shake256_squeezeblocks : shake128_squeezeblocks))(q, sq[i], s); q += (size_t)sq[i] * r; }
            if (around(S, (unsigned char *)s, 200)) fl |= 4;
            memset(s, PAT, 200);
        }
        if (around(O, out, total)) fl |= 1;
        if (around(A, in, h.inlen) || (h.inlen && memcmp(in, copy, h.inlen))) fl |= 2;
        uint32_t l = total; wr(&fl, 1); wr(&l, 4); wr(out, total);
        memset(out, PAT, total); memset(in, PAT, h.inlen); free(copy); free(sq);
    }
}
