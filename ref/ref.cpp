// Independent reference implementation of the mathematics behind SECUER-pok.
// Written from the protocol description (Montgomery curves over GF(p^2), Velu-type 2-/3-isogenies,
// SIDH/SIKE), not from the code under test: straightforward, variable time, fully reduced arithmetic,
// affine canonical models, 2- and 3-isogeny steps (never 4), local back-tracking test per step.
// Everything crosses the interface as little-endian fixed length byte strings (re || im).
#include <cstdint>
#include <cstring>
#include <vector>
#include <array>
typedef unsigned __int128 u128;
typedef uint64_t u64;

template<int B> struct PP;
template<> struct PP<434> { enum { N = 7,  E2 = 216, E3 = 137, BY = 55 }; };
template<> struct PP<503> { enum { N = 8,  E2 = 250, E3 = 159, BY = 63 }; };
template<> struct PP<610> { enum { N = 10, E2 = 305, E3 = 192, BY = 77 }; };
template<> struct PP<751> { enum { N = 12, E2 = 372, E3 = 239, BY = 94 }; };

struct Rng { u64 s; u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); } };

template<int NB> struct Ref {
    enum { N = PP<NB>::N, E2 = PP<NB>::E2, E3 = PP<NB>::E3, BY = PP<NB>::BY };
    typedef std::array<u64, N> Raw;

    static int cmp(const Raw &a, const Raw &b) { for (int i = N - 1; i >= 0; --i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
    static u64 rsub(Raw &c, const Raw &a, const Raw &b) { u64 bo = 0; for (int i = 0; i < N; ++i) { u128 t = (u128)a[i] - b[i] - bo; c[i] = (u64)t; bo = (u64)(t >> 64) & 1; } return bo; }
    static u64 radd(Raw &c, const Raw &a, const Raw &b) { u64 cy = 0; for (int i = 0; i < N; ++i) { u128 t = (u128)a[i] + b[i] + cy; c[i] = (u64)t; cy = (u64)(t >> 64); } return cy; }

    struct Consts { Raw p, p1, pm2, pp14, r2, one; u64 pinv; Consts() {
        // p+1 = 2^E2 * 3^E3
        p1.fill(0); p1[0] = 1;
        for (int i = 0; i < E3; ++i) { Raw t; radd(t, p1, p1); radd(p1, t, p1); }
        for (int i = 0; i < E2; ++i) { Raw t = p1; radd(p1, t, t); }
        Raw o; o.fill(0); o[0] = 1; rsub(p, p1, o);
        Raw two = o; two[0] = 2; rsub(pm2, p, two);
        pp14 = p1; for (int k = 0; k < 2; ++k) { for (int i = 0; i < N; ++i) pp14[i] = (pp14[i] >> 1) | (i + 1 < N ? pp14[i + 1] << 63 : 0); }
        pinv = 1; for (int i = 0; i < 6; ++i) pinv *= 2 - p[0] * pinv; pinv = 0 - pinv;
        // one = 2^(64N) mod p, r2 = 2^(128N) mod p by doubling
        Raw x = o; for (int i = 0; i < 128 * N; ++i) { Raw t; u64 cy = radd(t, x, x); if (cy || cmp(t, p) >= 0) rsub(t, t, p); x = t; if (i == 64 * N - 1) one = x; }
        r2 = x; } };
    static const Consts &C() { static const Consts c; return c; }

    struct Fp { Raw v; };
    static Fp zero() { Fp a; a.v.fill(0); return a; }
    static Fp one() { Fp a; a.v = C().one; return a; }
    static Fp add(const Fp &a, const Fp &b) { Fp c; u64 cy = radd(c.v, a.v, b.v); if (cy || cmp(c.v, C().p) >= 0) rsub(c.v, c.v, C().p); return c; }
    static Fp sub(const Fp &a, const Fp &b) { Fp c; if (rsub(c.v, a.v, b.v)) radd(c.v, c.v, C().p); return c; }
    static Fp neg(const Fp &a) { return sub(zero(), a); }
    static Fp mul(const Fp &a, const Fp &b) {
        const Raw &p = C().p; const u64 pi = C().pinv; u64 t[N + 2]; memset(t, 0, sizeof t);
        for (int i = 0; i < N; ++i) {
            u64 cy = 0; const u64 ai = a.v[i];
            for (int j = 0; j < N; ++j) { u128 w = (u128)ai * b.v[j] + t[j] + cy; t[j] = (u64)w; cy = (u64)(w >> 64); }
            u128 w = (u128)t[N] + cy; t[N] = (u64)w; t[N + 1] = (u64)(w >> 64);
            const u64 m = t[0] * pi; w = (u128)m * p[0] + t[0]; cy = (u64)(w >> 64);
            for (int j = 1; j < N; ++j) { w = (u128)m * p[j] + t[j] + cy; t[j - 1] = (u64)w; cy = (u64)(w >> 64); }
            w = (u128)t[N] + cy; t[N - 1] = (u64)w; t[N] = t[N + 1] + (u64)(w >> 64);
        }
        Fp c; for (int i = 0; i < N; ++i) c.v[i] = t[i];
        if (t[N] || cmp(c.v, p) >= 0) rsub(c.v, c.v, p);
        return c; }
    static Fp sqr(const Fp &a) { return mul(a, a); }
    static bool isz(const Fp &a) { for (int i = 0; i < N; ++i) if (a.v[i]) return false; return true; }
    static bool eq(const Fp &a, const Fp &b) { return cmp(a.v, b.v) == 0; }
    static Fp fpow(const Fp &a, const Raw &e) { Fp r = one(); for (int i = 64 * N - 1; i >= 0; --i) { r = sqr(r); if ((e[i >> 6] >> (i & 63)) & 1) r = mul(r, a); } return r; }
    static void shr1(Raw &a) { for (int i = 0; i < N; ++i) a[i] = (a[i] >> 1) | (i + 1 < N ? a[i + 1] << 63 : 0); }
    static void half(Raw &x) { u64 cy = 0; if (x[0] & 1) cy = radd(x, x, C().p); shr1(x); x[N - 1] |= cy << 63; }
    static Fp inv(const Fp &a) {        // binary Euclid; 0 -> 0
        if (isz(a)) return a;
        Raw u = a.v, v = C().p; Fp x1, x2; x1.v.fill(0); x1.v[0] = 1; x2.v.fill(0); Raw o = x1.v;
        while (cmp(u, o) && cmp(v, o)) {
            while (!(u[0] & 1)) { shr1(u); half(x1.v); }
            while (!(v[0] & 1)) { shr1(v); half(x2.v); }
            if (cmp(u, v) >= 0) { rsub(u, u, v); x1 = sub(x1, x2); } else { rsub(v, v, u); x2 = sub(x2, x1); } }
        Fp r; r.v = C().r2; return mul(mul(cmp(u, o) ? x2 : x1, r), r); }
    static Fp inv_slow(const Fp &a) { return fpow(a, C().pm2); }
    static bool sqrt(const Fp &a, Fp &r) { r = fpow(a, C().pp14); return eq(sqr(r), a); }
    static Fp small(u64 k) { Fp a; a.v.fill(0); a.v[0] = k; Fp r; r.v = C().r2; return mul(a, r); }
    static Raw plain(const Fp &a) { Fp o; o.v.fill(0); o.v[0] = 1; return mul(a, o).v; }
    static Fp dec(const uint8_t *b) { // arbitrary BY byte integer, reduced mod p
        Fp a; a.v.fill(0); for (int i = 0; i < BY; ++i) a.v[i >> 3] |= (u64)b[i] << (8 * (i & 7));
        while (cmp(a.v, C().p) >= 0) rsub(a.v, a.v, C().p);
        Fp r; r.v = C().r2; return mul(a, r); }
    static void enc(const Fp &a, uint8_t *b) { Raw r = plain(a); for (int i = 0; i < BY; ++i) b[i] = (uint8_t)(r[i >> 3] >> (8 * (i & 7))); }

    struct F2 { Fp a, b; };
    static F2 z2() { return F2{zero(), zero()}; }
    static F2 one2() { return F2{one(), zero()}; }
    static F2 small2(u64 k) { return F2{small(k), zero()}; }
    static F2 add(const F2 &x, const F2 &y) { return F2{add(x.a, y.a), add(x.b, y.b)}; }
    static F2 sub(const F2 &x, const F2 &y) { return F2{sub(x.a, y.a), sub(x.b, y.b)}; }
    static F2 neg(const F2 &x) { return F2{neg(x.a), neg(x.b)}; }
    static F2 mul(const F2 &x, const F2 &y) { Fp t0 = mul(x.a, y.a), t1 = mul(x.b, y.b), t2 = mul(add(x.a, x.b), add(y.a, y.b)); return F2{sub(t0, t1), sub(sub(t2, t0), t1)}; }
    static F2 sqr(const F2 &x) { Fp m = mul(x.a, x.b); return F2{mul(add(x.a, x.b), sub(x.a, x.b)), add(m, m)}; }
    static bool isz(const F2 &x) { return isz(x.a) && isz(x.b); }
    static bool eq(const F2 &x, const F2 &y) { return eq(x.a, y.a) && eq(x.b, y.b); }
    static F2 inv(const F2 &x) { Fp n = inv(add(sqr(x.a), sqr(x.b))); return F2{mul(x.a, n), neg(mul(x.b, n))}; }
    static bool issq(const F2 &x) { if (isz(x)) return true; Fp r; return sqrt(add(sqr(x.a), sqr(x.b)), r); }
    static bool sqrt(const F2 &x, F2 &r) { // any root
        if (isz(x)) { r = z2(); return true; }
        Fp n; if (!sqrt(add(sqr(x.a), sqr(x.b)), n)) return false;
        static const Fp half = inv(small(2));
        for (int k = 0; k < 2; ++k) {
            Fp h = mul(add(x.a, n), half), s;
            if (sqrt(h, s)) {
                if (!isz(s)) r = F2{s, mul(mul(x.b, half), inv(s))};
                else { Fp t; if (!sqrt(neg(x.a), t)) { n = neg(n); continue; } r = F2{zero(), t}; }
                if (eq(sqr(r), x)) return true; }
            n = neg(n); }
        return false; }
    static F2 dec2(const uint8_t *b) { return F2{dec(b), dec(b + BY)}; }
    static void enc2(const F2 &x, uint8_t *b) { enc(x.a, b); enc(x.b, b + BY); }
    static F2 rnd2(Rng &g) { F2 x; for (int k = 0; k < 2; ++k) { uint8_t t[BY]; for (int i = 0; i < BY; ++i) t[i] = (uint8_t)(g.next() >> 17); (k ? x.b : x.a) = dec(t); } return x; }

    // ---------------------------------------------------------------- textbook Weierstrass arithmetic (used by the stand-in for Sage only)
    struct We { F2 a2, a4, a6; };
    struct Wj { F2 X, Y, Z; };          // x = X/Z^2, y = Y/Z^3
    struct Wa { F2 x, y; bool inf; };
    static F2 k2(const F2 &a) { return add(a, a); }
    static F2 k3(const F2 &a) { return add(k2(a), a); }
    static F2 k4(const F2 &a) { return k2(k2(a)); }
    static Wj winf() { return Wj{one2(), one2(), z2()}; }
    static Wj wdbl(const Wj &P, const We &E) {
        if (isz(P.Z) || isz(P.Y)) return winf();
        F2 yy = sqr(P.Y), zz = sqr(P.Z), S = k4(mul(P.X, yy)), M = add(add(k3(sqr(P.X)), k2(mul(E.a2, mul(P.X, zz)))), mul(E.a4, sqr(zz)));
        F2 X = sub(sub(sqr(M), k4(mul(E.a2, mul(yy, zz)))), k2(S));
        return Wj{X, sub(mul(M, sub(S, X)), k4(k2(sqr(yy)))), k2(mul(P.Y, P.Z))}; }
    static Wj wadd(const Wj &P, const Wj &Q, const We &E) {
        if (isz(P.Z)) return Q; if (isz(Q.Z)) return P;
        F2 z1 = sqr(P.Z), z2_ = sqr(Q.Z), u1 = mul(P.X, z2_), u2 = mul(Q.X, z1), s1 = mul(P.Y, mul(z2_, Q.Z)), s2 = mul(Q.Y, mul(z1, P.Z)), H = sub(u2, u1), r = sub(s2, s1);
        if (isz(H)) return isz(r) ? wdbl(P, E) : winf();
        F2 Z = mul(mul(P.Z, Q.Z), H), hh = sqr(H), h3 = mul(H, hh), V = mul(u1, hh);
        F2 X = sub(sub(sub(sqr(r), mul(E.a2, sqr(Z))), h3), k2(V));
        return Wj{X, sub(mul(r, sub(V, X)), mul(s1, h3)), Z}; }
    static Wa waff(const Wj &P) { if (isz(P.Z)) return Wa{z2(), z2(), true}; F2 i = inv(P.Z), i2 = sqr(i); return Wa{mul(P.X, i2), mul(P.Y, mul(i2, i)), false}; }
    static Wj wjac(const Wa &P) { return P.inf ? winf() : Wj{P.x, P.y, one2()}; }
    static Wa wmul(const Wa &P, const We &E, const uint8_t *k, int nb) { Wj R = winf(), B = wjac(P); for (int i = 8 * nb - 1; i >= 0; --i) { R = wdbl(R, E); if ((k[i >> 3] >> (i & 7)) & 1) R = wadd(R, B, E); } return waff(R); }
    static Wj wl(Wj P, const We &E, int l, int k) { for (; k > 0; --k) { Wj D = wdbl(P, E); P = l == 2 ? D : wadd(D, P, E); } return P; }
    struct Ws { F2 x0, g, u; };
    static void weval(const Ws &s, Wa *P, int n) {      // simultaneous inversion
        std::vector<F2> d(n), pre(n); F2 acc = one2();
        for (int i = 0; i < n; ++i) { if (!P[i].inf) { d[i] = sub(P[i].x, s.x0); if (isz(d[i])) P[i].inf = true; } pre[i] = acc; if (!P[i].inf) acc = mul(acc, d[i]); }
        F2 iv = inv(acc);
        for (int i = n - 1; i >= 0; --i) { if (P[i].inf) continue; F2 q = mul(iv, pre[i]); iv = mul(iv, d[i]); F2 gi = mul(s.g, q), ui = mul(s.u, sqr(q)); P[i].x = add(P[i].x, add(gi, ui)); P[i].y = mul(P[i].y, sub(one2(), mul(add(gi, k2(ui)), q))); } }
    // isogeny with kernel <K> of order l^e, l in {2,3}; steps in order; returns codomain
    static bool wchain(We E, Wa K, int l, int e, We &D, std::vector<Ws> &out) {
        std::vector<Wa> st; std::vector<int> h; st.push_back(K); h.push_back(e);
        while (!st.empty()) {
            if (h.back() > 1) { int m = h.back() / 2; st.push_back(waff(wl(wjac(st.back()), E, l, m))); h.push_back(h.back() - m); if (st.back().inf) return false; continue; }
            Wa P = st.back(); st.pop_back(); h.pop_back(); Ws s; F2 g = add(add(k3(sqr(P.x)), k2(mul(E.a2, P.x))), E.a4), t, w;
            if (l == 2) { s = Ws{P.x, g, z2()}; } else { s = Ws{P.x, k2(g), k4(sqr(P.y))}; }
            t = s.g; w = add(s.u, mul(P.x, s.g)); out.push_back(s);
            E = We{E.a2, sub(E.a4, add(k4(t), t)), sub(sub(E.a6, k4(mul(E.a2, t))), sub(k4(k2(w)), w))};
            weval(s, st.data(), (int)st.size());
            for (auto &x : h) x -= 1;
            for (auto &x : st) if (x.inf) return false; }
        D = E; return true; }
    // base^k mod f, f monic of degree d (coefficients low to high, leading one omitted)
    static void ppow(const F2 *f, int d, const F2 *base, const uint8_t *k, int nb, F2 *r) {
        auto mm = [&](const std::vector<F2> &a, const std::vector<F2> &b) { std::vector<F2> c(2 * d - 1, z2()); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) c[i + j] = add(c[i + j], mul(a[i], b[j]));
            for (int i = 2 * d - 2; i >= d; --i) for (int j = 0; j < d; ++j) c[i - d + j] = sub(c[i - d + j], mul(c[i], f[j])); c.resize(d); return c; };
        std::vector<F2> acc(d, z2()), b(base, base + d); acc[0] = one2(); bool on = false;
        for (int i = 8 * nb - 1; i >= 0; --i) { if (on) acc = mm(acc, acc); if ((k[i >> 3] >> (i & 7)) & 1) { acc = on ? mm(acc, b) : b; on = true; } }
        for (int i = 0; i < d; ++i) r[i] = acc[i]; }

    // ---------------------------------------------------------------- x-only arithmetic on (A:C)
    struct Cv { F2 A, C; };
    struct Pt { F2 X, Z; };
    static Cv affine(const F2 &A) { return Cv{A, one2()}; }
    static F2 coeff(const Cv &E) { return mul(E.A, inv(E.C)); }
    static bool inf(const Pt &P) { return isz(P.Z); }
    static Pt pt(const F2 &x) { return Pt{x, one2()}; }
    static F2 xof(const Pt &P) { return mul(P.X, inv(P.Z)); }
    static bool same(const Pt &P, const Pt &Q) { if (inf(P) || inf(Q)) return inf(P) && inf(Q); return eq(mul(P.X, Q.Z), mul(Q.X, P.Z)); }
    static Pt dbl(const Pt &P, const Cv &E) { // x(2P) = (X^2-Z^2)^2 / 4XZ(X^2+aXZ+Z^2)
        F2 s = sqr(add(P.X, P.Z)), d = sqr(sub(P.X, P.Z)), e = sub(s, d); // e=4XZ
        F2 c2 = add(E.C, E.C), c4 = add(c2, c2), ap = add(E.A, c2);
        F2 u = mul(c4, d);
        return Pt{mul(u, s), mul(e, add(mul(ap, e), u))}; }
    static Pt dadd(const Pt &P, const Pt &Q, const Pt &D) {
        F2 u = mul(sub(P.X, P.Z), add(Q.X, Q.Z)), v = mul(add(P.X, P.Z), sub(Q.X, Q.Z));
        return Pt{mul(D.Z, sqr(add(u, v))), mul(D.X, sqr(sub(u, v)))}; }
    static Pt tpl(const Pt &P, const Cv &E) { if (inf(P)) return P; Pt D = dbl(P, E); if (inf(D)) return P; // 2P=0 -> 3P=P
        // differential addition degenerates if x(P)=0 (then P has order 2, handled above)
        return dadd(D, P, P); }
    static Pt mulp(Pt P, const Cv &E, int l, int k) { for (int i = 0; i < k; ++i) { if (inf(P)) return P; P = l == 2 ? dbl(P, E) : tpl(P, E); } return P; }
    // general ladder, scalar little-endian bytes
    static Pt ladder(const Pt &P, const Cv &E, const uint8_t *k, int nb) {
        if (inf(P)) return P;
        Pt R0 = Pt{one2(), z2()}, R1 = P; bool started = false;
        for (int i = 8 * nb - 1; i >= 0; --i) { int bit = (k[i >> 3] >> (i & 7)) & 1;
            if (!started) { if (!bit) continue; started = true; R0 = P; R1 = dbl(P, E); continue; }
            Pt S = inf(R0) ? R1 : inf(R1) ? R0 : (isz(P.X) ? addx0(R0, R1) : dadd(R0, R1, P));
            if (bit) { R0 = S; R1 = dbl(R1, E); } else { R0 = dbl(R0, E); R1 = S; } }
        return R0; }
    static Pt addx0(const Pt &P, const Pt &Q) { // difference (0,0): only multiples of (0,0) arise
        return same(P, Q) ? Pt{one2(), z2()} : inf(P) ? Q : P; }
    static F2 rhs(const F2 &A, const F2 &x) { return mul(x, add(mul(x, add(x, A)), one2())); }

    static F2 jinv(const F2 &A) { F2 a2 = sqr(A), t = sub(a2, small2(3)), d = sub(a2, small2(4)); if (isz(d)) return z2(); return mul(mul(small2(256), mul(t, sqr(t))), inv(d)); }

    // 0 bad, 1 = y^2=x^3+Ax^2+x is supersingular with (p+1)^2 points over GF(p^2)
    static int curve_ok(const F2 &A) {
        if (isz(sub(sqr(A), small2(4)))) return 0;
        Rng g{0x5eed ^ plain(A.a)[0] ^ (plain(A.b)[0] << 1)}; Cv E = affine(A);
        for (int n = 0; n < 3;) { F2 x = rnd2(g); if (!issq(rhs(A, x))) continue; ++n;
            Pt P = mulp(mulp(pt(x), E, 2, E2), E, 3, E3); if (!inf(P)) return 0; }
        return 1; }

    struct Iso { F2 B, r, s; }; // x -> (x-r)*s onto coefficient B
    static Pt app(const Iso &i, const Pt &P) { return Pt{mul(i.s, sub(P.X, mul(i.r, P.Z))), P.Z}; }
    static bool models(const F2 &A, Iso out[6]) {
        out[0] = Iso{A, z2(), one2()}; out[1] = Iso{neg(A), z2(), neg(one2())};
        F2 d; static const F2 half = inv(small2(2)); int n = 2;
        if (!sqrt(sub(sqr(A), small2(4)), d)) return false;
        for (int k = 0; k < 2; ++k) {
            F2 al = mul(half, sub(k ? neg(d) : d, A)); // alpha^2+A alpha+1=0
            F2 q = add(add(mul(small2(3), sqr(al)), mul(mul(small2(2), A), al)), one2()), w;
            if (!sqrt(q, w) || isz(w)) return false;
            F2 s = inv(w);
            for (int m = 0; m < 2; ++m) { out[n++] = Iso{mul(add(mul(small2(3), al), A), s), al, s}; s = neg(s); } }
        return true; }
    static bool less(const F2 &x, const F2 &y) { Raw a = plain(x.a), b = plain(y.a); int c = cmp(a, b); if (c) return c < 0; return cmp(plain(x.b), plain(y.b)) < 0; }
    static bool canon(const F2 &A, Iso &best) { Iso m[6]; if (!models(A, m)) return false; best = m[0]; for (int i = 1; i < 6; ++i) if (less(m[i].B, best.B)) best = m[i]; return true; }

    // ---------------------------------------------------------------- isogenies
    static void step(int l, Cv &E, const Pt &K, std::vector<Pt*> &pts) {
        if (l == 2) { // kernel (x2,0), x2 != 0: A' = 2(1-2x2^2), x -> x(x*x2-1)/(x-x2)
            F2 X2 = sqr(K.X), Z2 = sqr(K.Z); E.C = Z2; E.A = sub(Z2, add(X2, X2)); E.A = add(E.A, E.A);
            for (Pt *P : pts) { F2 n = mul(P->X, sub(mul(P->X, K.X), mul(P->Z, K.Z))), d = mul(P->Z, sub(mul(P->X, K.Z), mul(P->Z, K.X))); P->X = n; P->Z = d; }
        } else { // kernel x3: A' = (A x3 - 6 x3^2 + 6) x3, x -> x ((x x3-1)/(x-x3))^2
            F2 X2 = sqr(K.X), Z2 = sqr(K.Z), t = sub(Z2, X2); F2 t6 = add(t, t); t6 = add(t6, add(t6, t6)); // 6(Z^2-X^2)
            F2 A = mul(K.X, add(mul(E.A, mul(K.X, K.Z)), mul(E.C, t6))); E.C = mul(E.C, mul(Z2, K.Z)); E.A = A;
            for (Pt *P : pts) { F2 n = sqr(sub(mul(P->X, K.X), mul(P->Z, K.Z))), d = sqr(sub(mul(P->X, K.Z), mul(P->Z, K.X))); P->X = mul(P->X, n); P->Z = mul(P->Z, d); } }
    }
    static void walk(int l, int n, Cv &E, Pt K, std::vector<Pt*> &pts) {
        if (n == 1) { step(l, E, K, pts); return; }
        int h = n / 2; Pt L = mulp(K, E, l, n - h);
        pts.push_back(&K); walk(l, h, E, L, pts); pts.pop_back();
        walk(l, n - h, E, K, pts); }
    // K of exact order l^n on affine A; result coefficient, images of pts
    static bool isog(int l, int n, const F2 &A, Pt K, F2 &out, std::vector<Pt*> pts) {
        F2 a = A; Cv E = affine(a);
        Pt T = mulp(K, E, l, n - 1);
        if (inf(T)) return false;
        if (!inf(l == 2 ? dbl(T, E) : tpl(T, E))) return false;
        if (l == 2 && isz(T.X)) { Iso m[6]; if (!models(a, m)) return false; K = app(m[2], K); for (Pt *P : pts) *P = app(m[2], *P); E = affine(m[2].B); }
        walk(l, n, E, K, pts);
        if (isz(E.C)) return false;
        out = coeff(E); return true; }

    // discrete logarithm in the cyclic group of order 2^E2 generated by K: k = 1 mod 4 with x([k]K) = x(M)
    static int dlog2(const F2 &A, const F2 &xK, const F2 &xM, uint8_t *k) {
        Cv E = affine(A); std::vector<Pt> D(E2), M(E2); D[0] = pt(xK); M[0] = pt(xM);
        for (int i = 1; i < E2; ++i) { D[i] = dbl(D[i - 1], E); M[i] = dbl(M[i - 1], E); }
        int nb = (E2 + 7) / 8; memset(k, 0, nb); k[0] = 1;
        for (int i = 2; i < E2; ++i) { if (inf(D[E2 - i - 1]) || inf(M[E2 - i - 1])) return 0;
            if (!same(ladder(D[E2 - i - 1], E, k, nb), M[E2 - i - 1])) k[i >> 3] |= 1 << (i & 7); }
        return same(ladder(D[0], E, k, nb), M[0]); }
    static int ex(int l) { return l == 2 ? (int)E2 : (int)E3; }
    // random point of exact order l^k on A; avoid/force: x of the order-l point below (mode 0 none, 1 avoid, 2 require)
    static Pt rpoint(int l, int k, const F2 &A, Rng &g, int mode, const Pt &ref) {
        Cv E = affine(A); int e = ex(l);
        for (;;) {
            F2 x = rnd2(g); if (!issq(rhs(A, x))) continue;
            Pt P = l == 2 ? mulp(pt(x), E, 3, E3) : mulp(pt(x), E, 2, E2);
            Pt T = mulp(P, E, l, e - 1); if (inf(T)) continue;
            if (mode == 1 && same(T, ref)) continue;
            if (mode == 2 && !same(T, ref)) continue;
            P = mulp(P, E, l, e - k);
            return P; } }

    // verify a chain exactly as the protocol defines it. returns 0 ok, else reason code; jend / Aend set as far as meaningful
    // 1: bad order at step (step in *pos), 2: backtracking (cyclicity) at step *pos, 3: bad curve
    static int chain(int l, const F2 &A0, int n, const uint8_t *xs, uint8_t *jend, uint8_t *Aend, int *pos) {
        F2 cur = A0; Pt back; int bt = -1; Rng g{77};
        for (int i = 0; i < n; ++i) {
            if (i) { Iso c; if (!canon(cur, c)) { *pos = i; return 3; } cur = c.B; back = app(c, back); }
            Cv E = affine(cur); Pt K = pt(dec2(xs + 2 * BY * i)); Pt T = mulp(K, E, l, ex(l) - 1);
            if (inf(T) || !inf(l == 2 ? dbl(T, E) : tpl(T, E))) { *pos = i; return 1; }
            if (i && bt < 0 && same(T, back)) bt = i;
            Pt R = rpoint(l, 1, cur, g, 1, T); // l-torsion independent of the kernel; its image generates the dual direction
            F2 nxt; if (!isog(l, ex(l), cur, K, nxt, {&R})) { *pos = i; return 3; }
            cur = nxt; back = R; }
        if (jend) enc2(jinv(cur), jend);
        if (Aend) { Iso c; canon(cur, c); enc2(c.B, Aend); }
        if (bt >= 0) { *pos = bt; return 2; }
        *pos = n; return 0; }

    // random chain of n steps starting at A0 (step 0 on A0 as given, later on canonical models).
    // back_at = i>=1: force backtracking at step i. low_at=i: kernel of order l^(e-low_by) at step i. outputs xs, canonical curves As[n+1]
    static int mkchain(int l, const F2 &A0, int n, u64 seed, int back_at, int low_at, int low_by, uint8_t *xs, uint8_t *As, uint8_t *jend) {
        F2 cur = A0; Pt back; Rng g{seed};
        for (int i = 0; i < n; ++i) {
            if (i) { Iso c; if (!canon(cur, c)) return 0; cur = c.B; back = app(c, back); }
            if (As) enc2(cur, As + 2 * BY * i);
            Pt K = rpoint(l, ex(l), cur, g, i == 0 ? 0 : i == back_at ? 2 : 1, i ? back : pt(z2()));
            if (i == low_at) { Pt L = mulp(K, affine(cur), l, low_by); enc2(xof(L), xs + 2 * BY * i); }
            else enc2(xof(K), xs + 2 * BY * i);
            Pt T = mulp(K, affine(cur), l, ex(l) - 1); Pt R = rpoint(l, 1, cur, g, 1, T);
            F2 nxt; if (!isog(l, ex(l), cur, K, nxt, {&R})) return 0;
            cur = nxt; back = R; }
        Iso c; if (!canon(cur, c)) return 0;
        if (As) enc2(c.B, As + 2 * BY * n);
        if (jend) enc2(jinv(cur), jend);
        return 1; }

    // full square: secret chain (canonical curves A[0..w], kernels xk[0..w-1] on them), random left chain of h steps.
    // given != null: use that left chain (kernels on the canonical models) instead of a random one.
    static int instance(const uint8_t *As, const uint8_t *xk, int w, int h, u64 seed, int left_back_at, const uint8_t *given,
                        uint8_t *left, uint8_t *E2c, uint8_t *bottom, uint8_t *right, uint8_t *j2, uint8_t *j3) {
        std::vector<F2> a(w + 1); std::vector<Pt> k(w); Rng g{seed};
        for (int i = 0; i <= w; ++i) a[i] = dec2(As + 2 * BY * i);
        for (int i = 0; i < w; ++i) k[i] = pt(dec2(xk + 2 * BY * i));
        Pt back; 
        for (int row = 0; row < h; ++row) {
            Pt Kl = given ? pt(dec2(given + 2 * BY * row)) : rpoint(3, E3, a[0], g, row == 0 ? 0 : row == left_back_at ? 2 : 1, row ? back : pt(z2()));
            Pt T = mulp(Kl, affine(a[0]), 3, E3 - 1), bk = rpoint(3, 1, a[0], g, 1, T);
            enc2(xof(Kl), left + 2 * BY * row);
            Pt Kc = Kl;
            for (int col = 0; col <= w; ++col) {
                F2 down; Pt b2 = bk, kb = col < w ? k[col] : bk; Iso c;
                std::vector<Pt*> v; if (col < w) v.push_back(&kb); if (col == 0) v.push_back(&b2);
                Pt Kcr = Kc; F2 rightA;
                if (col < w) { if (!isog(2, E2, a[col], k[col], rightA, {&Kcr})) return 0; Iso cr; if (!canon(rightA, cr)) return 0; Kcr = app(cr, Kcr); if (!eq(cr.B, a[col + 1])) return 0; }
                if (!isog(3, E3, a[col], Kc, down, v) || !canon(down, c)) return 0;
                if (col == w) enc2(xof(Kc), right + 2 * BY * row);
                if (col == 0) { back = app(c, b2); }
                a[col] = c.B; if (col < w) k[col] = app(c, kb);
                Kc = Kcr; } }
        enc2(a[0], E2c); for (int i = 0; i < w; ++i) enc2(xof(k[i]), bottom + 2 * BY * i);
        enc2(jinv(a[0]), j2); enc2(jinv(a[w]), j3);
        // consistency of the square
        F2 e; if (!isog(2, E2, a[w - 1], k[w - 1], e, {}) || !eq(jinv(e), jinv(a[w]))) return 0;
        return 1; }

    // ---------------------------------------------------------------- SIDH
    // three point ladder: x(P + [k]Q) from x(P), x(Q), x(P-Q); k little-endian bytes, nbits processed
    static Pt lad3(const F2 &xP, const F2 &xQ, const F2 &xPQ, const uint8_t *k, int nbits, const F2 &A) {
        Cv E = affine(A); Pt Q = pt(xQ), P = pt(xP), D = pt(xPQ); // invariant: Q=2^iQ, P, D = P - Q
        for (int i = 0; i < nbits; ++i) { int bit = (k[i >> 3] >> (i & 7)) & 1;
            if (bit) { P = addp(P, Q, D); } else { D = addp(D, Q, P); } // bit: P+=Q (diff D=P-Q); D stays: (P+Q)-(2Q)=P-Q ok
            Q = dbl(Q, E); }
        return P; }
    static Pt addp(const Pt &P, const Pt &Q, const Pt &D) { if (inf(P)) return Q; if (inf(Q)) return P; return dadd(P, Q, D); }
    static F2 getA(const F2 &xP, const F2 &xQ, const F2 &xR) { // A = (1-xPxQ-xPxR-xQxR)^2/(4xPxQxR) - xP-xQ-xR
        F2 pq = mul(xP, xQ), n = sub(sub(sub(one2(), pq), mul(xP, xR)), mul(xQ, xR)); F2 d = mul(small2(4), mul(pq, xR));
        return sub(sub(sub(mul(sqr(n), inv(d)), xP), xQ), xR); }
    // who: 2 Alice, 3 Bob.  gens: own basis x(P),x(Q),x(P-Q) and the other's, each plain encoded. start curve A=6
    static int keygen(int l, const uint8_t *sk, int nbits, const uint8_t *own, const uint8_t *oth, uint8_t *pk, uint8_t *Aout) {
        F2 A = small2(6), o; Pt K = lad3(dec2(own), dec2(own + 2 * BY), dec2(own + 4 * BY), sk, nbits, A);
        Pt a = pt(dec2(oth)), b = pt(dec2(oth + 2 * BY)), c = pt(dec2(oth + 4 * BY));
        if (!isog(l, ex(l), A, K, o, {&a, &b, &c})) return 0;
        enc2(xof(a), pk); enc2(xof(b), pk + 2 * BY); enc2(xof(c), pk + 4 * BY); if (Aout) enc2(o, Aout); return 1; }
    static int agree(int l, const uint8_t *sk, int nbits, const uint8_t *pk, uint8_t *j) {
        F2 P = dec2(pk), Q = dec2(pk + 2 * BY), R = dec2(pk + 4 * BY), A = getA(P, Q, R), o;
        Pt K = lad3(P, Q, R, sk, nbits, A);
        if (!isog(l, ex(l), A, K, o, {})) return 0;
        enc2(jinv(o), j); return 1; }
    // 3-torsion public key validation (what SIKE decapsulation must accept): P,Q of exact order 3^e3 and independent
    static int pkvalid(const uint8_t *pk) { F2 P = dec2(pk), Q = dec2(pk + 2 * BY), R = dec2(pk + 4 * BY);
        if (isz(P) || isz(Q) || isz(R)) return 0; F2 A = getA(P, Q, R); Cv E = affine(A);
        Pt p = mulp(pt(P), E, 3, E3 - 1), q = mulp(pt(Q), E, 3, E3 - 1);
        if (inf(p) || inf(q) || same(p, q)) return 0;
        return inf(tpl(p, E)) && inf(tpl(q, E)); }
};

#define DISP(bits, ...) switch (bits) { case 434: { typedef Ref<434> R; __VA_ARGS__ } break; case 503: { typedef Ref<503> R; __VA_ARGS__ } break; case 610: { typedef Ref<610> R; __VA_ARGS__ } break; case 751: { typedef Ref<751> R; __VA_ARGS__ } break; }
extern "C" {
int ref_dlog2(int bits, const uint8_t *A, const uint8_t *K, const uint8_t *M, uint8_t *k) { DISP(bits, return R::dlog2(R::dec2(A), R::dec2(K), R::dec2(M), k);); return -1; }
int ref_curve_ok(int bits, const uint8_t *A) { DISP(bits, return R::curve_ok(R::dec2(A)););  return -1; }
int ref_j(int bits, const uint8_t *A, uint8_t *j) { DISP(bits, R::enc2(R::jinv(R::dec2(A)), j); return 1;); return -1; }
int ref_canon(int bits, const uint8_t *A, uint8_t *o) { DISP(bits, R::Iso c; if (!R::canon(R::dec2(A), c)) return 0; R::enc2(c.B, o); return 1;); return -1; }
// maps x on A to model number idx (0..5); outputs B and x'
int ref_model(int bits, const uint8_t *A, const uint8_t *x, int idx, uint8_t *B, uint8_t *xo) { DISP(bits, R::Iso m[6]; if (!R::models(R::dec2(A), m)) return 0; R::enc2(m[idx].B, B); if (x) R::enc2(R::xof(R::app(m[idx], R::pt(R::dec2(x)))), xo); return 1;); return -1; }
int ref_chain(int bits, int l, const uint8_t *A, int n, const uint8_t *xs, uint8_t *j, uint8_t *Aend, int *pos) { DISP(bits, return R::chain(l, R::dec2(A), n, xs, j, Aend, pos);); return -1; }
int ref_mkchain(int bits, int l, const uint8_t *A, int n, uint64_t seed, int back_at, int low_at, int low_by, uint8_t *xs, uint8_t *As, uint8_t *j) { DISP(bits, return R::mkchain(l, R::dec2(A), n, seed, back_at, low_at, low_by, xs, As, j);); return -1; }
int ref_instance(int bits, const uint8_t *As, const uint8_t *xk, int w, int h, uint64_t seed, int lb, const uint8_t *given, uint8_t *left, uint8_t *E2, uint8_t *bottom, uint8_t *right, uint8_t *j2, uint8_t *j3) { DISP(bits, return R::instance(As, xk, w, h, seed, lb, given, left, E2, bottom, right, j2, j3);); return -1; }
// one isogeny of degree l^e with kernel x, pushing one point (may be null); codomain canonical
int ref_isog(int bits, int l, const uint8_t *A, const uint8_t *x, const uint8_t *push, uint8_t *Aout, uint8_t *pushed) { DISP(bits, R::F2 o; R::Pt q = push ? R::pt(R::dec2(push)) : R::pt(R::z2()); std::vector<R::Pt*> v; if (push) v.push_back(&q); if (!R::isog(l, R::ex(l), R::dec2(A), R::pt(R::dec2(x)), o, v)) return 0; R::Iso c; if (!R::canon(o, c)) return 0; R::enc2(c.B, Aout); if (push) { q = R::app(c, q); if (R::inf(q)) return 2; R::enc2(R::xof(q), pushed); } return 1;); return -1; }
// [l^k]P ; returns 0 if infinity
int ref_mul(int bits, const uint8_t *A, const uint8_t *x, int l, int k, uint8_t *o) { DISP(bits, R::Pt P = R::mulp(R::pt(R::dec2(x)), R::affine(R::dec2(A)), l, k); if (R::inf(P)) return 0; R::enc2(R::xof(P), o); return 1;); return -1; }
int ref_ladder(int bits, const uint8_t *A, const uint8_t *x, const uint8_t *k, int nb, uint8_t *o) { DISP(bits, R::Pt P = R::ladder(R::pt(R::dec2(x)), R::affine(R::dec2(A)), k, nb); if (R::inf(P)) return 0; R::enc2(R::xof(P), o); return 1;); return -1; }
int ref_point(int bits, const uint8_t *A, int l, int k, uint64_t seed, uint8_t *o) { DISP(bits, Rng g{seed}; R::Pt P = R::rpoint(l, k, R::dec2(A), g, 0, R::pt(R::z2())); R::enc2(R::xof(P), o); return 1;); return -1; }
int ref_oncurve(int bits, const uint8_t *A, const uint8_t *x) { DISP(bits, return R::issq(R::rhs(R::dec2(A), R::dec2(x)));); return -1; }
int ref_issq(int bits, const uint8_t *x) { DISP(bits, return R::issq(R::dec2(x));); return -1; }
int ref_sqrt(int bits, const uint8_t *x, uint8_t *o) { DISP(bits, R::F2 r; if (!R::sqrt(R::dec2(x), r)) return 0; R::enc2(r, o); return 1;); return -1; }
int ref_keygen(int bits, int l, const uint8_t *sk, int nbits, const uint8_t *own, const uint8_t *oth, uint8_t *pk, uint8_t *A) { DISP(bits, return R::keygen(l, sk, nbits, own, oth, pk, A);); return -1; }
int ref_agree(int bits, int l, const uint8_t *sk, int nbits, const uint8_t *pk, uint8_t *j) { DISP(bits, return R::agree(l, sk, nbits, pk, j);); return -1; }
int ref_pkvalid(int bits, const uint8_t *pk) { DISP(bits, return R::pkvalid(pk);); return -1; }
int ref_getA(int bits, const uint8_t *pk, uint8_t *A) { DISP(bits, R::enc2(R::getA(R::dec2(pk), R::dec2(pk + 2 * R::BY), R::dec2(pk + 4 * R::BY)), A); return 1;); return -1; }
int ref_fp2(int bits, int op, const uint8_t *x, const uint8_t *y, uint8_t *o) { DISP(bits, R::F2 a = R::dec2(x), b = y ? R::dec2(y) : R::z2(), r; switch (op) { case '+': r = R::add(a, b); break; case '-': r = R::sub(a, b); break; case '*': r = R::mul(a, b); break; case '/': r = R::mul(a, R::inv(b)); break; case 'c': { R::Fp t = a.a; (void)t; r = a; } break; default: return 0; } R::enc2(r, o); return 1;); return -1; }
// stand-in for Sage: n coordinates cross as a2 a4 a6 x y
int ref_wmul(int bits, const uint8_t *E, const uint8_t *k, int nb, uint8_t *o) { DISP(bits, const int w = 2 * R::BY; R::We c{R::dec2(E), R::dec2(E + w), R::dec2(E + 2 * w)}; R::Wa P{R::dec2(E + 3 * w), R::dec2(E + 4 * w), false}; P = R::wmul(P, c, k, nb); if (P.inf) return 0; R::enc2(P.x, o); R::enc2(P.y, o + w); return 1;); return -1; }
int ref_wchain(int bits, const uint8_t *E, int l, int e, uint8_t *o) { DISP(bits, const int w = 2 * R::BY; R::We c{R::dec2(E), R::dec2(E + w), R::dec2(E + 2 * w)}, D; R::Wa P{R::dec2(E + 3 * w), R::dec2(E + 4 * w), false}; std::vector<R::Ws> s; if (!R::wchain(c, P, l, e, D, s)) return 0;
    R::enc2(D.a4, o); R::enc2(D.a6, o + w); o += 2 * w; for (auto &x : s) { R::enc2(x.x0, o); R::enc2(x.g, o + w); R::enc2(x.u, o + 2 * w); o += 3 * w; } return 1;); return -1; }
int ref_weval(int bits, int n, const uint8_t *s, const uint8_t *P, uint8_t *o) { DISP(bits, const int w = 2 * R::BY; R::F2 X = R::dec2(P), Y = R::dec2(P + w), Z = R::one2(), W = Z;
    for (int i = 0; i < n; ++i, s += 3 * w) { R::F2 x0 = R::dec2(s), g = R::dec2(s + w), u = R::dec2(s + 2 * w), d = R::sub(X, R::mul(x0, Z)); if (R::isz(d)) return 0;
        R::F2 d2 = R::sqr(d), z2 = R::sqr(Z), gz = R::mul(g, R::mul(z2, d)), uz = R::mul(u, R::mul(z2, Z)), d3 = R::mul(d2, d);
        X = R::add(R::mul(X, d2), R::add(gz, uz)); Z = R::mul(Z, d2); Y = R::mul(Y, R::sub(d3, R::add(gz, R::add(uz, uz)))); W = R::mul(W, d3); }
    R::enc2(R::mul(X, R::inv(Z)), o); R::enc2(R::mul(Y, R::inv(W)), o + w); return 1;); return -1; }
int ref_invtest(int bits, const uint8_t *a) { DISP(bits, return R::eq(R::inv(R::dec(a)), R::inv_slow(R::dec(a)));); return -1; }
int ref_ppow(int bits, int d, const uint8_t *f, const uint8_t *b, const uint8_t *k, int nb, uint8_t *o) { DISP(bits, const int w = 2 * R::BY; std::vector<R::F2> F; std::vector<R::F2> B; std::vector<R::F2> r(d); for (int i = 0; i < d; ++i) { F.push_back(R::dec2(f + i * w)); B.push_back(R::dec2(b + i * w)); } R::ppow(F.data(), d, B.data(), k, nb, r.data()); for (int i = 0; i < d; ++i) R::enc2(r[i], o + i * w); return 1;); return -1; }
}
