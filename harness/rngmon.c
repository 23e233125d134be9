// Monitor around the real randombytes(): the system calls below it are replaced by scripted ones (link-time).
// usage: rngmon MODE SEED   prints one line per call: "<ret> <n> <hex output> <canary ok>" and afterwards the delivered stream
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <pthread.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <setjmp.h>
#include <sys/wait.h>
int randombytes(unsigned char *, unsigned long long);
#ifdef NOWRAP   // race-detector build: nothing is replaced
#define __real_open open
#define __real_read read
#endif
static int mode, scripted; static uint64_t st; static unsigned char *del; static size_t dn, dcap; static long fails, opens, reads, ofail; static jmp_buf give_up; static int fdset[1024];
static uint64_t rnd(void) { st += 0x9e3779b97f4a7c15ULL; uint64_t z = st; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static void deliver(unsigned char *b, size_t n) { for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)rnd(); if (dn + n > dcap) { dcap = 2 * (dn + n) + 65536; del = realloc(del, dcap); } memcpy(del + dn, b, n); dn += n; }
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t);
static int isdev(const char *p) { return strstr(p, "random") != 0; }
int __wrap_open(const char *p, int fl, ...)
{
    if (scripted && isdev(p)) { if ((mode == 3 || mode == 5) && ofail < 4) { ++ofail; errno = EMFILE; return -1; } ++opens; }
    int fd = __real_open(p, fl); if (fd >= 0 && fd < 1024 && isdev(p)) fdset[fd] = 1; return fd;
}
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl); }
// modes: 0 full reads, 1 short reads, 2 short reads + EINTR/EAGAIN, 3 also failing open and empty reads, 4 permanent failure, 5 one byte at a time
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!scripted || fd < 0 || fd >= 1024 || !fdset[fd]) return __real_read(fd, b, n);
    ++reads;
    if (mode == 4) { if (++fails > 40) longjmp(give_up, 1); errno = EIO; return -1; }
    if (mode == 2 || mode == 3) { unsigned r = rnd() % 6; if (r == 0) { errno = EINTR; return -1; } if (r == 1) { errno = EAGAIN; return -1; } if (mode == 3 && r == 2) return 0; }
    if (n && mode == 5) n = 1; else if (mode && n > 1) n = 1 + rnd() % n;
    deliver(b, n); return n;
}
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
    (void)f; ++reads; if (mode == 4) { if (++fails > 40) longjmp(give_up, 1); errno = EIO; return -1; }
    if (mode == 2 || mode == 3) { if (rnd() % 3 == 0) { errno = EINTR; return -1; } }
    if (n && mode == 5) n = 1; else if (mode && n > 1) n = 1 + rnd() % n;
    deliver(b, n); return n;
}
int __wrap_getentropy(void *b, size_t n) { ++reads; if (mode == 4) { if (++fails > 40) longjmp(give_up, 1); errno = EIO; return -1; } deliver(b, n); return 0; }
unsigned __wrap_sleep(unsigned s) { (void)s; return 0; }
int __wrap_usleep(unsigned s) { (void)s; return 0; }
int __wrap_nanosleep(const void *a, void *b) { (void)a; (void)b; return 0; }
static int nfd(void) { int k = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) ++k; if (d) closedir(d); return k; }
static void hex(const unsigned char *b, size_t n) { for (size_t i = 0; i < n; ++i) printf("%02x", b[i]); }
#define NT 8
#define NC 400
static unsigned char pool[NT][NC][32]; static pthread_barrier_t bar;
static void *thr(void *a) { size_t k = (size_t)a; pthread_barrier_wait(&bar); for (int i = 0; i < NC; ++i) if (randombytes(pool[k][i], 32)) memset(pool[k][i], 0, 32); return 0; }
int main(int argc, char **argv)
{
    mode = atoi(argv[1]); st = strtoull(argv[2], 0, 10);
    if (mode == 10) {       // concurrency on the real device
        pthread_t t[NT]; pthread_barrier_init(&bar, 0, NT); int f0 = nfd();
        for (size_t i = 0; i < NT; ++i) pthread_create(&t[i], 0, thr, (void *)i);
        for (int i = 0; i < NT; ++i) pthread_join(t[i], 0);
        printf("F %d\n", nfd() - f0);
        for (int i = 0; i < NT; ++i) for (int j = 0; j < NC; ++j) { printf("O "); hex(pool[i][j], 32); puts(""); }
        return 0;
    }
    if (mode == 11) {       // real device: sizes, canaries, every byte filled, descriptors
        int f0 = nfd(); static const size_t sz[] = {0, 1, 2, 3, 7, 8, 16, 24, 27, 28, 32, 47, 48, 56, 64, 80, 96, 128, 255, 256, 257, 4095, 4096, 4097, 65537, 1000003};
        for (unsigned k = 0; k < sizeof sz / sizeof *sz; ++k) { size_t n = sz[k]; unsigned char *b = malloc(n + 64), *seen = calloc(n + 1, 1); int bad = 0, ret = 0, stuck = 0;
            for (int r = 0; r < 12; ++r) { unsigned char fill = r * 21; memset(b, fill, n + 64); ret |= randombytes(b + 32, n); for (int i = 0; i < 32; ++i) bad |= b[i] != fill || b[32 + n + i] != fill; for (size_t i = 0; i < n; ++i) seen[i] |= b[32 + i] != fill; }
            for (size_t i = 0; i < n; ++i) stuck += !seen[i];
            printf("R %zu %d %d %d\n", n, ret, bad, stuck); free(b); free(seen); }
        printf("F %d\n", nfd() - f0); return 0;
    }
    if (mode == 12) {       // parent and child after fork
        unsigned char a[32]; randombytes(a, 32); for (int i = 0; i < 4; ++i) { fflush(stdout); if (!fork()) { randombytes(a, 32); printf("O "); hex(a, 32); puts(""); fflush(stdout); _exit(0); } } randombytes(a, 32); while (wait(0) > 0); printf("O "); hex(a, 32); puts(""); return 0;
    }
    scripted = 1;
    static const size_t sz[] = {16, 32, 64, 24, 27, 128, 1, 48, 56, 300, 96, 5000, 33, 2, 64};
    for (unsigned k = 0; k < sizeof sz / sizeof *sz; ++k) {
        size_t n = sz[k]; unsigned char *b = malloc(n + 64); memset(b, 0xC3, n + 64);
        if (setjmp(give_up)) { printf("G %zu\n", n); fails = 0; free(b); if (k > 3) break; continue; }
        int r = randombytes(b + 32, n); int can = 1; for (int i = 0; i < 32; ++i) can &= b[i] == 0xC3 && b[32 + n + i] == 0xC3;
        printf("C %d %zu %d ", r, n, can); hex(b + 32, n); puts(""); free(b);
    }
    printf("S %ld %ld ", opens, reads); hex(del, dn); puts(""); return 0;
}
