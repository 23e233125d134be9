// Delays around every atomic access of a race-detector build (link-time wrappers of the detector's own entry points), so that
// the steps of a read-modify-write that should have been one step are torn apart.
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
static int amount(void) { static int j = -1; if (j < 0) { const char *e = getenv("ATOMJIT"); j = e ? atoi(e) : 0; } return j; }
static void nap(void)
{
    static __thread uint32_t s; int j = amount();
    if (!j) return;
    if (!s) s = (uint32_t)(uintptr_t)&s ^ (uint32_t)time(0);
    s = s * 1664525u + 1013904223u;
    if (s >> 31) usleep((s >> 8) % j); else sched_yield();
}
#define RMW(T, B, op) T __real___tsan_atomic##B##_##op(volatile T *, T, int); T __wrap___tsan_atomic##B##_##op(volatile T *a, T v, int mo) { nap(); T r = __real___tsan_atomic##B##_##op(a, v, mo); nap(); return r; }
#define ALL(T, B) \
  T __real___tsan_atomic##B##_load(const volatile T *, int); T __wrap___tsan_atomic##B##_load(const volatile T *a, int mo) { nap(); T r = __real___tsan_atomic##B##_load(a, mo); nap(); return r; } \
  void __real___tsan_atomic##B##_store(volatile T *, T, int); void __wrap___tsan_atomic##B##_store(volatile T *a, T v, int mo) { nap(); __real___tsan_atomic##B##_store(a, v, mo); nap(); } \
  RMW(T, B, exchange) RMW(T, B, fetch_add) RMW(T, B, fetch_sub) RMW(T, B, fetch_and) RMW(T, B, fetch_or) RMW(T, B, fetch_xor)
ALL(uint8_t, 8) ALL(uint16_t, 16) ALL(uint32_t, 32) ALL(uint64_t, 64)
