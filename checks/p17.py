"""Field arithmetic: every exported operation of every build against big integers, on boundary-directed operands."""
from vf import *
RULE = 'an evaluation is one call of an exported arithmetic function compared with big-integer arithmetic; distinct = (size, build, function, operands)'
NWF = {434: 7, 503: 8, 610: 10, 751: 12}; NWO = {434: 4, 503: 4, 610: 5, 751: 6}
NAMES = 'fpadd fpsub fpneg fpdiv2 fpcorrection fpmul_mont fpsqr_mont fpinv_mont fpinv_chain_mont fpinv_mont_bingcd fp2add fp2sub fp2neg fp2div2 fp2correction fp2mul_mont fp2sqr_mont fp2inv_mont fp2inv_mont_bingcd to_mont from_mont to_fp2mont from_fp2mont mp_add mp_sub multiply mp_shiftr1 mp_shiftl1 mp_sub_p2 mp_sub_p4 is_sqr_fp2 sqrt_Fp2 cmp_f2elm sqr_Fp2_cycl cube_Fp2_cycl inv_mod_orderA Montgomery_multiply_mod_order Montgomery_inversion_mod_order_bingcd mod3 fpcopy fp2copy mp_add_asm fp2_conj mont_n_way_inv ct_compare ct_cmov rdc_mont'.split()
ID = {n: i for i, n in enumerate(NAMES)}
def fp_server(bits, arch, opt='rel', comp=True):
    hf = ['-I', SRC, '-D', 'BITS=%d' % bits, '-D', 'NW=%d' % NWF[bits], '-D', 'NO=%d' % NWO[bits]]
    return link('fp%d_%s_%s_%d' % (bits, arch, opt, comp), lib_objs(bits, 'comp' if comp else 'sidh', arch, opt), [os.path.join(HARN, 'srv_fp.c')], opt, hf)
class FSrv(Server):
    def info(s): v = struct.unpack('<320I', s.call('L')); return {NAMES[i]: v[5 * i:5 * i + 5] for i in range(len(NAMES)) if v[5 * i]}
    def batch(s, name, alias, inputs, inf):
        _, sig, na, nb, nc = inf; r = s.call('F', struct.pack('<BBI', ID[name], alias, len(inputs)) + b''.join(inputs)); per = 8 * nc + 16
        return [(struct.unpack_from('<QQ', r, i * per), r[i * per + 16:(i + 1) * per]) for i in range(len(inputs))]
def pool_fp(bits, rng, n, bound):
    """values in [0, bound) near every boundary that matters to carries and reductions"""
    p, w = P[bits], NWF[bits]; R = 1 << 64 * w; o64 = (1 << 64) - 1; out = []
    base = [0, p, 2 * p, p // 2, 3 * p // 2, R % p, R * R % p, (R % p) + p, 3 * p, 4 * p, (1 << E2[bits]), (1 << E2[bits]) - 1, p >> E2[bits], 3**E3[bits]]
    for b in base: out += [b + d for d in (-2, -1, 0, 1, 2)]
    for k in range(0, 64 * w + 1, 64): out += [(1 << k) + d for d in (-1, 0, 1)] + [p - (1 << k), p + (1 << k), 2 * p - (1 << k) - 1, p ^ (o64 << k)]
    for k in range(1, p.bit_length() + 1, 7): out += [1 << k, (1 << k) - 1, 2 * p - (1 << k)]
    out = [x for x in out if 0 <= x < bound]
    pl = [p >> 64 * i & o64 for i in range(w)]; bl = [(bound - 1) >> 64 * i & o64 for i in range(w)]
    while len(out) < n:
        t = rng.below(4)
        if t == 0: out.append(rng.below(1 << 1024) % bound)
        else:
            v = 0; S = rng.bytes(w * 2)
            for i in range(w):
                c = [0, o64, 1, o64 - 1, 1 << 63, (1 << 63) - 1, pl[i], pl[i] + 1 & o64, pl[i] - 1 & o64, bl[i], bl[i] - 1 & o64, None, None, 0, o64, o64][S[i] & 15]
                v |= (rng.u64() if c is None else c) << 64 * i
            out.append(v % bound if v >= bound and rng.below(2) else (v if v < bound else v % (1 << (bound.bit_length() - 1))))
    return out
def le(x, words): return x.to_bytes(8 * words, 'little')
class M:
    """reference: checks the outputs of one operation"""
    def __init__(s, bits): s.p, s.w, s.R, s.o = P[bits], NWF[bits], 1 << 64 * NWF[bits], NWO[bits]; s.Ri = pow(s.R, -1, s.p); s.bits = bits; s.e = E2[bits]; s.ob = 3**E3[bits]; s.RO = 1 << 64 * s.o
def lazy_p4(m): return m.bits == 751 or m.arch == 'generic'    # elsewhere an empty stub nobody calls: the assembly computes the squaring without it
def ops(m, rng, n, pairs, singles, lazy):
    """yield (name, aliases, inputs as bytes, list of checkers(out int or tuple, ret) -> bool)"""
    p, w, R, Ri = m.p, m.w, m.R, m.Ri; I = int.from_bytes; W8 = 8 * w
    one = lambda b: I(b, 'little'); two = lambda b: (I(b[:W8], 'little'), I(b[W8:2 * W8], 'little'))
    mod = lambda want, hi: (lambda out, ret: one(out) % p == want % p and one(out) < hi)
    mod2 = lambda x, y, hi: (lambda out, ret: (lambda t: t[0] % p == x % p and t[1] % p == y % p and t[0] < hi and t[1] < hi)(two(out)))
    eq = lambda want: (lambda out, ret: one(out) == want)
    B = 2 * p
    def bi(name, f, chk, ps, al=(0, 1, 2, 3)): yield name, al, [(le(a, w) + le(b, w), chk(f(a, b)), chk(f(a, a)), (a, b)) for a, b in ps]
    def un(name, f, ss, al=(0, 1)): yield name, al, [(le(a, w), f(a), f(a), a) for a in ss]
    yield from bi('fpadd', lambda a, b: a + b, lambda v: mod(v, B), pairs)
    yield from bi('fpsub', lambda a, b: a - b, lambda v: mod(v, B), pairs)
    yield from bi('fpmul_mont', lambda a, b: a * b * Ri, lambda v: mod(v, B), pairs)
    yield from bi('mp_sub_p2', lambda a, b: a - b + 2 * p, eq, pairs)
    if lazy_p4(m): yield from bi('mp_sub_p4', lambda a, b: a - b + 4 * p, eq, pairs)
    yield from bi('mp_add_asm', lambda a, b: (a + b) % R, eq, pairs)
    yield from un('fpneg', lambda a: mod(-a, B + 1), singles, (0,))
    yield from un('fpdiv2', lambda a: mod(a * ((p + 1) // 2), B), singles)
    yield from un('fpcorrection', lambda a: eq(a % p), singles, (0,))
    yield from un('fpsqr_mont', lambda a: mod(a * a * Ri, B), singles)
    yield from un('to_mont', lambda a: mod(a * R, B), singles)
    yield from un('from_mont', lambda a: eq(a * Ri % p), singles)
    cols, m.hit = columns(m, rng, n)
    yield 'rdc_mont', (0,), [(le(a, 2 * w), mod(a * Ri, B), None, a) for a in cols]
    yield from un('from_mont', lambda a: eq(a * Ri % p), [x for x in (a % R for a in cols) if x < B])
    yield from un('fpcopy', lambda a: eq(a), singles)
    inv = lambda a: pow(a * Ri, -1, p) * R if a % p else 0
    few = singles[:n // 8] + [singles[rng.below(len(singles))] for _ in range(n // 20)]
    yield from un('fpinv_mont', lambda a: mod(inv(a), B), few, (0,))
    yield from un('fpinv_mont_bingcd', lambda a: mod(inv(a), B), [a for a in few if a % p], (0,))
    yield from un('fpinv_chain_mont', lambda a: mod(pow(a * Ri, (p - 3) // 4, p) * R, B), few[::3], (0,))
    # quadratic extension
    q = [(x, y) for x, y in pairs]; k = len(q)
    prs = [(q[i], q[rng.below(k)]) for i in range(k)] + [((a, b), (b, a)) for a, b in q[:k // 6]] + [((a, b), (a, b)) for a, b in q[:k // 6]] + [((a, a), (b, b)) for a, b in q[:k // 6]] + [((a, 0), (b, 2 * p - 1)) for a, b in q[:k // 12]] + [((0, a), (2 * p - 1, b)) for a, b in q[:k // 12]]
    def bi2(name, f, ps, al, hi=B): yield name, al, [(le(a[0], w) + le(a[1], w) + le(b[0], w) + le(b[1], w), mod2(*f(a, b), hi), mod2(*f(a, a), hi), (a, b)) for a, b in ps]
    def un2(name, f, ss, al): yield name, al, [(le(a[0], w) + le(a[1], w), f(a), f(a), a) for a in ss]
    mul = lambda a, b: ((a[0] * b[0] - a[1] * b[1]) * Ri, (a[0] * b[1] + a[1] * b[0]) * Ri)
    yield from bi2('fp2add', lambda a, b: (a[0] + b[0], a[1] + b[1]), prs[::3], (0, 1, 2, 3))
    yield from bi2('fp2sub', lambda a, b: (a[0] - b[0], a[1] - b[1]), prs[::3], (0, 1, 2, 3))
    yield from bi2('fp2mul_mont', mul, prs, (0, 1, 2, 3))
    yield from un2('fp2sqr_mont', lambda a: mod2(*mul(a, a), B), q, (0, 1))
    if lazy:    # operands as the curve formulas pass them: sums of two elements that were not reduced
        lz = [((rng.choice(lazy), rng.choice(lazy)), (rng.choice(lazy), rng.choice(lazy))) for _ in range(k // 2)] + [((x, x), (x, x)) for x in lazy[:40]]
        yield from bi2('fp2mul_mont', mul, lz, (0,))
    yield from un2('fp2neg', lambda a: mod2(-a[0], -a[1], B + 1), q[::3], (0,))
    yield from un2('fp2div2', lambda a: mod2(a[0] * ((p + 1) // 2), a[1] * ((p + 1) // 2), B), q[::3], (0, 1))
    yield from un2('fp2correction', lambda a: (lambda out, ret: two(out) == (a[0] % p, a[1] % p)), q[::3], (0,))
    yield from un2('fp2copy', lambda a: (lambda out, ret: two(out) == a), q[::9], (0,))
    yield from un2('fp2_conj', lambda a: mod2(a[0], -a[1], B + 1), q[::9], (0,))
    yield from un2('to_fp2mont', lambda a: mod2(a[0] * R, a[1] * R, B), q[::4], (0, 1))
    yield from un2('from_fp2mont', lambda a: (lambda out, ret: two(out) == (a[0] * Ri % p, a[1] * Ri % p)), q[::4], (0, 1))
    def inv2(a):
        x, y = a[0] * Ri % p, a[1] * Ri % p; d = (x * x + y * y) % p
        if not d: return 0, 0
        d = pow(d, -1, p); return x * d * R, -y * d * R
    f2 = q[::max(1, k // (n // 10))] + [(a, 0) for a in few[:20]] + [(0, a) for a in few[:20]]
    yield from un2('fp2inv_mont', lambda a: mod2(*inv2(a), B + 1), f2, (0,))
    yield from un2('fp2inv_mont_bingcd', lambda a: mod2(*inv2(a), B + 1), [a for a in f2 if a[0] % p or a[1] % p], (0,))
    # squares: build u = y^2 for all kinds of y, and u = anything
    sq = [mul(y, y) for y in f2]; sq = [(a % p + p * (i & 1), b % p + p * (i >> 1 & 1)) for i, (a, b) in enumerate(sq)]
    def is_root(u): return lambda out, ret: (lambda t: (lambda s: (s[0] - u[0]) % p == 0 and (s[1] - u[1]) % p == 0)(mul(t, t)))(two(out))
    yield from un2('sqrt_Fp2', is_root, sq, (0, 1))
    def qr(u): x, y = u; d = (x * x + y * y) * Ri * Ri % p; return lambda out, ret: (ret & 255) == (1 if d == 0 or pow(d, (p - 1) // 2, p) == 1 else 0)
    yield from un2('is_sqr_fp2', qr, sq[::2] + f2[::2], (0,))
    cm = [(a, ((a[0] + p) if a[0] < p else a[0] - p, a[1])) for a in q[::8]] + [(a, a) for a in q[::16]] + [(a, (a[0] ^ 1 << rng.below(w * 64), a[1])) for a in q[::8]] + [(a, (a[0], a[1] ^ 1 << rng.below(w * 64))) for a in q[::8]] + prs[::8]
    cm = [(a, b) for a, b in cm if max(a + b) < B]
    yield 'cmp_f2elm', (0,), [(le(a[0], w) + le(a[1], w) + le(b[0], w) + le(b[1], w), (lambda a, b: lambda out, ret: (ret & 255) == (0 if all((x - y) % p == 0 for x, y in zip(a, b)) else 255))(a, b), None, (a, b)) for a, b in cm]
    # norm-1 elements z = v/conj(v)
    o = le(R % p, w); un1 = []
    for v in f2[::2]:
        x, y = v[0] * Ri % p, v[1] * Ri % p; d = (x * x + y * y) % p
        if d: d = pow(d, -1, p); un1.append(((x * x - y * y) * d % p, 2 * x * y * d % p))
    def cyc(z, e):
        r = z
        for _ in range(e - 1): r = ((r[0] * z[0] - r[1] * z[1]) % p, (r[0] * z[1] + r[1] * z[0]) % p)
        return r
    for nm, e in (('sqr_Fp2_cycl', 2), ('cube_Fp2_cycl', 3)): yield nm, (0,), [(le(z[0] * R % p, w) + le(z[1] * R % p, w) + o, mod2(*[t * R for t in cyc(z, e)], B), None, z) for z in un1]
    tr = [tuple(f2[rng.below(len(f2))] for _ in range(3)) for _ in range(len(f2) // 3)]; tr = [t for t in tr if all(x % p or y % p for x, y in t)]
    yield 'mont_n_way_inv', (0,), [(b''.join(le(x, w) + le(y, w) for x, y in t), (lambda t: lambda out, ret: all(mod2(*inv2(t[i]), B + 1)(out[2 * W8 * i:2 * W8 * (i + 1)], 0) for i in range(3)))(t), None, t) for t in tr]
    # multi-precision integers
    full = [rng.choice([0, R - 1, 1, R >> 1, rng.below(R), rng.below(R), x]) for x in singles[:n // 3]]; fp_ = [(x, rng.choice(full)) for x in full] + [(R - 1, 1), (R - 1, R - 1), (0, 1), (0, R - 1), (1, 1)]
    yield 'mp_add', (0, 1, 2), [(le(a, w) + le(b, w), (lambda a, b: lambda out, ret: one(out) == (a + b) % R and (ret & 0xffffffff) == (a + b) // R)(a, b), None, (a, b)) for a, b in fp_]
    yield 'mp_sub', (0, 1, 2), [(le(a, w) + le(b, w), (lambda a, b: lambda out, ret: one(out) == (a - b) % R and (ret & 0xffffffff) == (a < b))(a, b), None, (a, b)) for a, b in fp_]
    yield 'multiply', (0,), [(le(a, w) + le(b, w), eq(a * b), None, (a, b)) for a, b in fp_]
    yield 'mp_shiftr1', (0,), [(le(a, w), eq(a >> 1), None, a) for a in full]
    yield 'mp_shiftl1', (0,), [(le(a, w), eq((a << 1) % R), None, a) for a in full]
    # arithmetic modulo the group orders
    no, O2, e, ob, RO = m.o, 1 << m.e, m.e, m.ob, m.RO
    odd = [1, 3, O2 - 1, O2 // 2 + 1, O2 // 2 - 1, 5, (1 << 64) + 1, (1 << 64) - 1] + [(1 << k) + 1 for k in range(1, e, 5)] + [(1 << k) - 1 for k in range(2, e, 5)] + [O2 - (1 << k) + 1 for k in range(1, e, 9)] + [rng.below(O2) | 1 for _ in range(n // 4)]
    yield 'inv_mod_orderA', (0,), [(le(a, no), (lambda a: lambda out, ret: one(out) % O2 * a % O2 == 1 and one(out) < O2)(a), None, a) for a in odd]
    rp = -pow(ob, -1, RO) % RO; tail = le(ob, no) + le(rp, no); edge = [0, 1, 2, ob - 1, ob - 2, ob // 2, RO % ob, RO * RO % ob] + [1 << k for k in range(0, ob.bit_length() - 1, 16)] + [(1 << k) - 1 for k in range(64, ob.bit_length(), 64)]
    ms = [(rng.choice(edge), rng.choice(edge)) for _ in range(n // 6)] + [(rng.below(ob), rng.choice(edge + [rng.below(ob)])) for _ in range(n // 4)]
    yield 'Montgomery_multiply_mod_order', (0, 1, 2), [(le(a, no) + le(b, no) + tail, (lambda a, b: lambda out, ret: one(out) == a * b * pow(RO, -1, ob) % ob)(a, b), None, (a, b)) for a, b in ms]
    nz = [a for a in edge + [rng.below(ob) for _ in range(n // 16)] if a % 3]
    yield 'Montgomery_inversion_mod_order_bingcd', (0, 1), [(le(a, no) + tail + le(RO * RO % ob, no), (lambda a: lambda out, ret: one(out) == pow(a, -1, ob) * RO * RO % ob)(a), None, a) for a in nz]
    yield 'mod3', (0,), [(le(a, no), (lambda a: lambda out, ret: (ret & 0xffffffff) == a % 3)(a), None, a) for a in edge + [rng.below(RO) for _ in range(n // 8)] + [RO - 1]]
    L = W8 - 1
    cc = [(a, a ^ (1 << rng.below(8 * L))) for a in full] + [(a, a) for a in full[::4]] + [(a, a ^ (rng.below(255) + 1) << 8 * rng.below(L)) for a in full] + [(a, a ^ 0x80 << 8 * rng.below(L)) for a in full[::4]] + [(a, a ^ 1 << 8 * i) for i in (0, L - 1) for a in full[:4]] + [(a, a ^ 1 << 8 * L) for a in full[:4]]
    yield 'ct_compare', (0,), [(le(a, w) + le(b, w), (lambda a, b: lambda out, ret: (ret & 255) == (0 if (a ^ b) % (1 << 8 * L) == 0 else 255))(a, b), None, (a, b)) for a, b in cc]
    yield 'ct_cmov', (0,), [(le(a, w) + le(b, w) + le(t, w), eq(b if t else a), None, (a, b, bool(t))) for a, b in fp_[::2] for t in (0, R - 1)]
def columns(m, rng, n):
    """numbers to be reduced, built so that a column (or row) sum of the reduction is all ones when a carry arrives"""
    p, w, R, o64 = m.p, m.w, m.R, (1 << 64) - 1; p1 = [(p + 1) >> 64 * i & o64 for i in range(w)]; z = next(i for i in range(w) if p1[i]); out = []; hit = 0
    def acc(mc, ma, i):     # column sums as a column-wise reduction forms them, up to column i (before ma[i] is added)
        s = 0
        for c in range(i + 1):
            s >>= 64
            s += sum(mc[j] * p1[c - j] for j in range(max(0, c - w + 1), min(c, w - 1) + 1))
            if c == i: return s
            if c < w: ma[c] = (mc[c] - s) & o64
            s += ma[c]
    word = lambda: rng.choice([0, 1, o64, o64 - 1, 1 << 63, rng.u64(), rng.u64(), rng.u64()])
    for q in range(n):
        mc = [rng.choice([0, word()]) for _ in range(w)]; ma = [0] * w + [rng.choice([0, o64, word()]) for _ in range(w - 1)] + [rng.below((p >> 64 * (w - 1)) + 1)]
        if q % 3:      # columns
            i = rng.range(z, 2 * w - 2); k = min(i - z, w - 1); L, H = 0, o64
            if i > w: mc = [word() for _ in range(w)]
            mc[k] = H; top = acc(mc, ma, i); mc[k] = L; bot = acc(mc, ma, i); goal = ((bot >> 128) + 1 << 128) - 1
            if top < goal - o64: goal = top
            while L < H:
                mid = (L + H + 1) // 2; mc[k] = mid
                if acc(mc, ma, i) <= goal: L = mid
                else: H = mid - 1
            mc[k] = L; s = acc(mc, ma, i); v = s & o64
            if i < w: mc[i] = rng.below(v) if v else 0
            else: ma[i] = o64
            hit += (s >> 64 & o64) == o64
        a_lo = mc_i = sum(x << 64 * j for j, x in enumerate(mc)); a_lo = -mc_i * p % R
        if q % 3: hi = sum(x << 64 * j for j, x in enumerate(ma[w:]))
        else:          # rows: after the first k rows the upper words are all ones
            k = rng.range(1, w); part = a_lo + sum(x << 64 * j for j, x in enumerate(mc[:k])) * (p + 1); up = rng.range(w, 2 * w - 1); top = rng.choice([p >> 64 << 64, (1 << 64 * (w - 1)) - 1, p])
            hi = ((top | ((1 << 64 * (up - w)) - 1)) - (part >> 64 * w)) % p if rng.below(2) else (top - (part >> 64 * w)) % p
        if hi >= p: hi %= 1 << (p.bit_length() - 1)
        out.append(a_lo + (hi << 64 * w))
    return out, hit
def crafted(m, rng, n):
    """products with chosen results and chosen low halves"""
    p, R, out = m.p, m.R, []; cs = columns(m, rng, n)[0]
    for _ in range(n):
        b = rng.below(2 * p) | 1
        if b % p == 0: continue
        t = rng.choice([0, 1, p - 1, 2, (1 << 64) - 1, p >> 64 << 64, (1 << E2[m.bits]) - 1, p - (1 << 64)]); a = t * R * pow(b, -1, p) % p; out.append((a + p * rng.below(2), b))   # result t
        k = 64 * rng.range(1, m.w - 1); t = (cs.pop() % (1 << k)) if cs and rng.below(2) else rng.choice([(1 << k) - 1, 1, 1 << (k - 1), (1 << k) - (1 << 64) if k > 64 else (1 << 64) - 1, ((1 << k) - 1) ^ 0xff]); a = t * pow(b, -1, 1 << k) % (1 << k); out.append((a, b))           # low limbs of the product = t
    return out
def main(c):
    T = c.thorough; t0 = time.time()
    spec = [(b, a, 'rel', True) for b in SIZES for a in ('fast', 'generic')] + [(751, 'mulx', 'rel', True), (751, 'nomulx', 'rel', True)] + [(b, 'fast', 'rel', False) for b in SIZES] + [(b, 'generic', 'asan', True) for b in (SIZES if T else (434, 751))]
    paths = dict(zip(spec, build_all([(lambda s=s: fp_server(*s)) for s in spec]))); log('built')
    seen = set()
    # the work is Python-bound: one process per build
    import multiprocessing as mp
    def work(sp, rnd, qu):
        b, a, o, comp = sp; lab = a + ('' if comp else ' plain') + (' ' + o if o != 'rel' else ''); m = M(b); m.arch = a; rng = Rng('P17', c.seed, rnd, b)
        n = 1200 if T else {434: 700, 503: 600, 610: 500, 751: 500}[b]
        if not comp: n //= 3
        if o == 'asan': n //= 3
        if not comp or o == 'asan': rng = Rng('P17x', c.seed, rnd, b, a, o)
        singles = pool_fp(b, rng, n * 2, 2 * m.p); ps = [(rng.choice(singles), rng.choice(singles)) for _ in range(n * 2)] + crafted(m, rng, n // 2) + [(x, y) for x in singles[:24] for y in singles[:24]][::1 if T else 3]
        lazy = pool_fp(b, rng, n, 4 * m.p)
        s = FSrv(paths[sp], timeout=200); inf = s.info(); cnt = {}; bad = []
        for name, als, cases in ops(m, rng, n, ps, singles, lazy):
            if name not in inf: cnt[name] = 0; continue
            for al in als:
                if al == 2 and inf[name][1] in (1,): continue
                try: res = s.batch(name, al, [x[0] for x in cases], inf[name])
                except Crash as e: bad.append((name, al, 'crash: ' + e.why + ' ' + e.err[:1500], None)); break
                cnt[name] = cnt.get(name, 0) + len(cases)
                for (inp, ck, ck2, ident), ((fl, ret), out) in zip(cases, res):
                    f = ck2 if al == 3 else ck
                    if fl or not f(out, ret): bad.append((name, al, 'registers or guard words damaged (%#x)' % fl if fl else 'wrong result', {'in': inp.hex(), 'out': out.hex(), 'ret': ret, 'operands': str(ident)})); break
        s.close(); qu.put((sp, lab, cnt, bad, sorted(set(NAMES) - set(inf))))
    for rnd in range(30 if T else 1):
        pend = sorted(spec, key=lambda s: -s[0] * (4 if s[1] == 'generic' else 1)); qu = mp.Queue(); live = 0; fails = 0
        ps = []
        def start():
            nonlocal live
            pr = mp.Process(target=work, args=(pend.pop(0), rnd, qu)); pr.start(); _procs.append(pr); ps.append(pr); live += 1
        while pend and live < NCPU: start()
        done = 0
        import queue
        while done < len(spec):
            try: sp, lab, cnt, bad, missing = qu.get(timeout=20)
            except queue.Empty:
                if any(p.exitcode not in (None, 0) for p in ps): raise RuntimeError('worker failed')
                continue
            done += 1; live -= 1
            if pend: start()
            for k, v in cnt.items():
                c.event(k, None, v)
                with c.lock: c.distinct.update(hashlib.blake2b(repr((sp, k, i, rnd)).encode(), digest_size=8).digest() for i in range(v))
            if missing and not rnd and sp[3]: c.note('p%d %s does not export: %s' % (sp[0], lab, ' '.join(missing)))
            for name, al, what, data in bad:
                key = name
                c.violation('p%d %s: %s (operand aliasing %d): %s%s' % (sp[0], lab, name, al, what, ' for operands ' + data['operands'][:300] if data else ''), key, dict(data or {}, bits=sp[0], build=lab, function=name, aliasing=al))
            c.samples.append({'kind': 'build', 'case': '%s %s: %s' % (sp[0], lab, cnt)}) if len(c.samples) < 6 else None
            log(sp[0], lab, sum(cnt.values()), 'calls')
        if time.time() - t0 > 2500: break
from vf import _procs
