"""SIDH: public keys and shared secrets are the isogeny-defined ones, on every build."""
from pok import *
RULE = 'an evaluation is one key generation, agreement or draw checked against the reference; distinct = (size, build, operation, key)'
GEN = None
def gens(bits):
    global GEN
    if GEN is None: GEN = json.load(open(os.path.join(VERIF, 'corpus', 'generators.json')))
    return bytes.fromhex(GEN[str(bits)]['A']), bytes.fromhex(GEN[str(bits)]['B'])
def ref_keygen(bits, w, k):
    A, B = gens(bits)
    if w == 'A':
        # the scheme's 4-isogeny formulas and the reference's 2-isogenies end on models that differ by x -> -x (a convention pinned by the known-answer tests)
        pk, C = refm.keygen(bits, 2, k.to_bytes(SKA[bits], 'little'), BITS_A[bits], A, B)
        return (neg2(bits, pk), neg2(bits, C)) if bits in NEG else (pk, C)
    return refm.keygen(bits, 3, k.to_bytes(SKB[bits], 'little'), BITS_B[bits], B, A)
NEG = SIZES
def neg2(bits, b): n = BY[bits]; return b''.join(((P[bits] - int.from_bytes(b[i:i + n], 'little')) % P[bits]).to_bytes(n, 'little') for i in range(0, len(b), n))
def ref_agree(bits, w, k, pk):
    return refm.agree(bits, 2, k.to_bytes(SKA[bits], 'little'), BITS_A[bits], pk) if w == 'A' else refm.agree(bits, 3, k.to_bytes(SKB[bits], 'little'), BITS_B[bits], pk)
def skb(bits, w, k): return k.to_bytes(SKA[bits] if w == 'A' else SKB[bits], 'little')
def edge_keys(bits, w, rng, n):
    e = BITS_A[bits] if w == 'A' else BITS_B[bits]; M = (1 << e) - 1
    ks = [0, 1, M, M - 1, 1 << (e - 1), (1 << (e - 1)) - 1, 2, 3, 3 * ((1 << e) // 3) & M, M // 3, 2 * (M // 3), (1 << 64) - 1, 1 << 64, M ^ (M >> 8 << 8), M ^ ((1 << 64) - 1), (1 << (e - 8)) - 1]
    for b in range(64, e, 64): ks += [1 << b, (1 << b) - 1, M ^ (1 << b)]
    ks += [M // 255 * 0xAA & M, M // 255 * 0x55 & M, 3**(E3[bits] // 2) & M, 2 * 3**(E3[bits] - 2) & M, M - 6]
    out = list(dict.fromkeys(ks))
    out += [1 << rng.below(e) for _ in range(4)]
    while len(out) < n: out.append(rng.below(M + 1))
    return out
def exchange(c, bits, srvs, rng, n):
    """n keys per party; every build computes everything, the reference decides"""
    KA, KB = edge_keys(bits, 'A', rng, n), edge_keys(bits, 'B', rng, n)
    if len(KA) > n: KA = KA[:n * 2 // 3] + [KA[i] for i in range(n * 2 // 3, len(KA)) if rng.below(2)]
    m = min(len(KA), len(KB)); KA, KB = KA[:m], KB[:m]
    if n > 60: KB = KB[m // 3:] + KB[:m // 3]      # pair edge keys with different ones
    pool = cf.ThreadPoolExecutor(NCPU)
    ra = list(pool.map(lambda k: ref_keygen(bits, 'A', k), KA)); rb = list(pool.map(lambda k: ref_keygen(bits, 'B', k), KB))
    rs = list(pool.map(lambda t: (ref_agree(bits, 'A', t[0], t[2][0]), ref_agree(bits, 'B', t[1], t[3][0])), zip(KA, KB, rb, ra)))
    bad = [i for i in range(m) if rs[i][0] != rs[i][1] or rs[i][0] is None]
    assert not bad, ('reference disagrees with itself', bits, bad)
    def one(s):
        for i in range(m):
            for w, k, r in (('A', KA[i], ra[i]), ('B', KB[i], rb[i])):
                rc, pk = s.keygen(w, skb(bits, w, k))
                c.expect(rc == 0 and pk == r[0], 'keygen ' + w, (bits, s.label, k), 'p%d %s: public key of party %s for secret %#x is not the image of the basis under its isogeny (rc %d)' % (bits, s.label, w, k, rc), 'keygen', {'bits': bits, 'sk': hex(k), 'got': pk, 'want': r[0]})
            for w, k, r in (('A', KA[i], rb[i]), ('B', KB[i], ra[i])):
                rc, ss = s.agree(w, skb(bits, w, k), r[0])
                c.expect(rc == 0 and ss == rs[i][0], 'agreement ' + w, (bits, s.label, k), 'p%d %s: shared secret of party %s for secret %#x differs from the j-invariant defined by both isogenies (rc %d)' % (bits, s.label, w, k, rc), 'agree', {'bits': bits, 'skA': hex(KA[i]), 'skB': hex(KB[i]), 'got': ss, 'want': rs[i][0]})
        if s.dirty: c.violation('p%d %s: call %r wrote outside its buffers or modified its inputs' % (bits, s.label, s.dirty[0][:2]), 'dirty', s.dirty[0])
    list(pool.map(one, srvs))
def draws(c, bits, s, rng, n):
    """secret keys over a uniform entropy tape: inside the prescribed range, every bit free and balanced, entropy not reused"""
    for w, nb, sz in (('A', BITS_A[bits], SKA[bits]), ('B', BITS_B[bits], SKB[bits])):
        s.tape(rng.bytes(n * 128)); v = []
        for _ in range(n):
            rc, k = s.rnd(w); v.append(int.from_bytes(k, 'little'))
            c.event('draw ' + w, (bits, s.label, k.hex()))
            if rc or v[-1] >> nb: return c.violation('p%d %s: secret key of %s outside [0, 2^%d) or failure reported (rc %d): %#x' % (bits, s.label, w, nb, rc, v[-1]), 'range')
        for b in range(nb):
            f = sum(x >> b & 1 for x in v)
            if not n * .25 < f < n * .75: c.violation('p%d %s: bit %d of the secret keys of %s is set in %d of %d draws: not uniform over the full range' % (bits, s.label, b, w, f, n), 'uniform'); break
        if len(set(v)) != n: c.violation('p%d %s: repeated secret keys of %s' % (bits, s.label, w), 'repeat')
        for fa in (1,):
            s.tape(rng.bytes(1024), fail_at=fa); rc, k = s.rnd(w)
            c.expect(rc != 0, 'entropy failure', (bits, s.label, w), 'p%d %s: a failing entropy source is not reported by the secret key draw of %s' % (bits, s.label, w), 'entropy')
        s.tape()
def main(c):
    refm.load(); T = c.thorough
    archs = ('fast', 'generic', 'mulx', 'nomulx')
    kinds = [(b, a) for b in SIZES for a in archs if a in ('fast', 'generic') or b == 751]    # the other sizes have one assembly variant
    paths = dict(zip(kinds, build_all([(lambda b=b, a=a: sidh_server(b, a)) for b, a in kinds]))); log('built')
    t0 = time.time()
    for rnd in range(40 if T else 1):
        def job(b):
            srvs = [SSrv(b, paths[b, a], label=a) for a in archs if (b, a) in paths]
            rng = Rng('P12', c.seed, rnd, b)
            exchange(c, b, srvs, rng, (60 if T else {434: 60, 503: 40, 610: 24, 751: 16}[b]))
            draws(c, b, srvs[0], rng, 240)
            if rnd == 0: draws(c, b, srvs[1], rng, 240)
            for s in srvs: s.close()
            log(b, 'done')
        with cf.ThreadPoolExecutor(4) as ex: list(ex.map(job, SIZES))
        if time.time() - t0 > 2500: break
    c.extra['builds'] = ['p%d %s' % k for k in kinds]
    c.assumptions.append('base points (corpus/generators.json) are fixed parameters of the scheme; their orders were checked')
