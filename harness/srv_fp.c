// Request server around the exported field and multi-precision functions. All symbols are weak: what a build does not export is reported as absent.
// Every call goes through a trampoline that checks the callee-saved registers, the stack pointer and the direction flag; every operand sits between guard words.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef uint64_t D;
#define C3_(a, b, c) a##b##c
#define C3(a, b, c) C3_(a, b, c)
#define W NW
#define O NO
#define N(pre, post) C3(pre, BITS, post)
#define WEAK __attribute__((weak))
typedef uint64_t (*fn)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
#define DECL(x) extern WEAK void x(void);
#define FP(X) \
 X(0, N(fpadd,), 0, W, W, W) X(1, N(fpsub,), 0, W, W, W) X(2, N(fpneg,), 2, W, 0, W) X(3, N(fpdiv2_,), 1, W, 0, W) X(4, N(fpcorrection,), 2, W, 0, W) \
 X(5, N(fpmul,_mont), 0, W, W, W) X(6, N(fpsqr,_mont), 1, W, 0, W) X(7, N(fpinv,_mont), 2, W, 0, W) X(8, N(fpinv,_chain_mont), 2, W, 0, W) X(9, N(fpinv,_mont_bingcd), 2, W, 0, W) \
 X(10, N(fp2add,), 0, 2*W, 2*W, 2*W) X(11, N(fp2sub,), 0, 2*W, 2*W, 2*W) X(12, N(fp2neg,), 2, 2*W, 0, 2*W) X(13, N(fp2div2_,), 1, 2*W, 0, 2*W) X(14, N(fp2correction,), 2, 2*W, 0, 2*W) \
 X(15, N(fp2mul,_mont), 0, 2*W, 2*W, 2*W) X(16, N(fp2sqr,_mont), 1, 2*W, 0, 2*W) X(17, N(fp2inv,_mont), 2, 2*W, 0, 2*W) X(18, N(fp2inv,_mont_bingcd), 2, 2*W, 0, 2*W) \
 X(19, to_mont, 1, W, 0, W) X(20, from_mont, 1, W, 0, W) X(21, to_fp2mont, 1, 2*W, 0, 2*W) X(22, from_fp2mont, 1, 2*W, 0, 2*W) \
 X(23, mp_add, 4, W, W, W) X(24, mp_sub, 4, W, W, W) X(25, multiply, 4, W, W, 2*W) X(26, mp_shiftr1, 5, W, 0, W) X(27, mp_shiftl1, 5, W, 0, W) \
 X(28, N(mp_sub,_p2), 0, W, W, W) X(29, N(mp_sub,_p4), 0, W, W, W) X(30, is_sqr_fp2, 6, 2*W, 0, W) X(31, sqrt_Fp2, 1, 2*W, 0, 2*W) X(32, cmp_f2elm, 3, 2*W, 2*W, 0) \
 X(33, sqr_Fp2_cycl, 7, 2*W, W, 2*W) X(34, cube_Fp2_cycl, 7, 2*W, W, 2*W) X(35, inv_mod_orderA, 1, O, 0, O) X(36, Montgomery_multiply_mod_order, 8, 2*O, 2*O, O) \
 X(37, Montgomery_inversion_mod_order_bingcd, 9, O, 3*O, O) X(38, mod3, 10, O, 0, 0) X(39, N(fpcopy,), 1, W, 0, W) X(40, N(fp2copy,), 1, 2*W, 0, 2*W) X(41, N(mp_add,_asm), 0, W, W, W) X(42, fp2_conj, 1, 2*W, 0, 2*W) \
 X(43, mont_n_way_inv, 11, 6*W, 0, 6*W) X(44, ct_compare, 12, W, W, 0) X(45, ct_cmov, 13, W, 2*W, W) X(46, rdc_mont, 14, 2*W, 0, W)
#define DC(i, f, s, a, b, c) DECL(f)
FP(DC)
static struct { fn f; int sig, na, nb, nc; } T[64];
static const char *names[64];
#define ST_(x) #x
#define ST(x) ST_(x)
#define SET(i, f_, s, a, b, c) T[i].f = (fn)f_; T[i].sig = s; T[i].na = a; T[i].nb = b; T[i].nc = c; names[i] = ST(f_);

// tramp(f, args[5], result*) -> bit mask of violated calling conventions
uint64_t tramp(fn f, uint64_t *args, uint64_t *res);
__asm__(".text\n.globl tramp\ntramp:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n push %rdx\n"
 " mov %rsp, saved_sp(%rip)\n"
 " mov %rdi, %rax\n mov %rsi, %r10\n mov (%r10), %rdi\n mov 8(%r10), %rsi\n mov 16(%r10), %rdx\n mov 24(%r10), %rcx\n mov 32(%r10), %r8\n"
 " movabs $0x1111111111111111, %rbx\n movabs $0x2222222222222222, %rbp\n movabs $0x3333333333333333, %r12\n movabs $0x4444444444444444, %r13\n movabs $0x5555555555555555, %r14\n movabs $0x6666666666666666, %r15\n"
 " call *%rax\n"
 " xor %r11d, %r11d\n pushf\n pop %r10\n test $0x400, %r10\n jz 1f\n or $64, %r11\n cld\n"
 "1: movabs $0x1111111111111111, %r10\n cmp %r10, %rbx\n je 1f\n or $1, %r11\n"
 "1: movabs $0x2222222222222222, %r10\n cmp %r10, %rbp\n je 1f\n or $2, %r11\n"
 "1: movabs $0x3333333333333333, %r10\n cmp %r10, %r12\n je 1f\n or $4, %r11\n"
 "1: movabs $0x4444444444444444, %r10\n cmp %r10, %r13\n je 1f\n or $8, %r11\n"
 "1: movabs $0x5555555555555555, %r10\n cmp %r10, %r14\n je 1f\n or $16, %r11\n"
 "1: movabs $0x6666666666666666, %r10\n cmp %r10, %r15\n je 1f\n or $32, %r11\n"
 "1: cmp saved_sp(%rip), %rsp\n je 1f\n or $128, %r11\n mov saved_sp(%rip), %rsp\n"
 "1: pop %rdx\n mov %rax, (%rdx)\n mov %r11, %rax\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
 ".lcomm saved_sp, 8\n");

static void rd(void *p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = read(0, (char *)p + k, n - k); if (r <= 0) _exit(0); k += r; } }
static void wr(const void *p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = write(1, (const char *)p + k, n - k); if (r <= 0) _exit(1); k += r; } }
#define G 8
#define MX (6 * W)
static D A_[MX + 2 * G], B_[MX + 2 * G], C_[MX + 2 * G];
static D *prep(D *z, const unsigned char *src, int n) { for (int i = 0; i < MX + 2 * G; i++) z[i] = 0xA5A5A5A5DEADBEEFull; if (src) memcpy(z + G, src, 8 * n); return z + G; }
static int guard(D *z, int n) { for (int i = 0; i < G; i++) if (z[i] != 0xA5A5A5A5DEADBEEFull) return 1; for (int i = G + n; i < MX + 2 * G; i++) if (z[i] != 0xA5A5A5A5DEADBEEFull) return 1; return 0; }
int main()
{
    FP(SET)
    for (;;) {
        char op; uint32_t n; rd(&op, 1); rd(&n, 4); unsigned char *q = malloc(n + 1); if (n) rd(q, n);
        if (op == 'L') { uint32_t v[64 * 5]; for (int i = 0; i < 64; i++) { v[5 * i] = T[i].f != 0; v[5 * i + 1] = T[i].sig; v[5 * i + 2] = T[i].na; v[5 * i + 3] = T[i].nb; v[5 * i + 4] = T[i].nc; } uint32_t l = sizeof v; wr(&l, 4); wr(v, l); free(q); continue; }
        int id = q[0], al = q[1]; uint32_t cnt; memcpy(&cnt, q + 2, 4);
        int na = T[id].na, nb = T[id].nb, nc = T[id].nc, s = T[id].sig; const unsigned char *in = q + 6;
        size_t per = 8 * nc + 16; uint32_t l = cnt * per; unsigned char *out = malloc(l + 1), *o = out;
        for (uint32_t k = 0; k < cnt; k++, in += 8 * (na + nb), o += per) {
            D *a = prep(A_, in, na), *b = prep(B_, in + 8 * na, nb), *c = prep(C_, 0, 0), *r = c; uint64_t ar[5] = {0}, res = 0, fl;
            D *x = a, *y = b;
            if (al == 1) { r = x = a; } else if (al == 2) { r = y = b; } else if (al == 3) { y = x; r = x; } else if (al == 4) y = x;    // c=a, c=b, all the same, a=b
            #define V(p) ((uint64_t)(p))
            switch (s) {
            case 0: ar[0] = V(x); ar[1] = V(y); ar[2] = V(r); break;
            case 1: case 6: ar[0] = V(x); ar[1] = V(r); break;
            case 2: ar[0] = V(x); r = x; break;
            case 3: ar[0] = V(x); ar[1] = V(y); break;
            case 4: ar[0] = V(x); ar[1] = V(y); ar[2] = V(r); ar[3] = W; break;
            case 5: ar[0] = V(x); ar[1] = W; r = x; break;
            case 7: ar[0] = V(x); ar[1] = V(b); r = x; break;
            case 8: ar[0] = V(a); ar[1] = V(a + O); ar[2] = V(al == 1 ? a : al == 2 ? a + O : c); ar[3] = V(b); ar[4] = V(b + O); r = (D *)ar[2]; break;
            case 9: ar[0] = V(a); ar[1] = V(r); ar[2] = V(b); ar[3] = V(b + O); ar[4] = V(b + 2 * O); break;
            case 10: ar[0] = V(x); break;
            case 11: ar[0] = V(x); ar[1] = 3; ar[2] = V(r); break;
            case 12: ar[0] = V(x); ar[1] = V(y); ar[2] = 8 * W - 1; break;
            case 14: ar[0] = V(x); ar[1] = V(r); break;
            case 13: r = x; ar[0] = V(x); ar[1] = V(b); ar[2] = 8 * W; ar[3] = b[W]; break;
            }
            fl = tramp(T[id].f, ar, &res);
            int inplace = r == a || (r >= a && r < a + na), g = guard(A_, na) | guard(B_, nb) | guard(C_, (r == c) ? nc : 0);
            if (g) fl |= 256;
            if (s != 14 && !(r >= a && r < a + na) && memcmp(a, in, 8 * na)) fl |= 512;
            if (nb && r != b && memcmp(b, in + 8 * na, 8 * nb)) fl |= 512;
            memcpy(o, &fl, 8); memcpy(o + 8, &res, 8); memcpy(o + 16, r, 8 * nc);
        }
        wr(&l, 4); wr(out, l); free(out); free(q);
    }
}
