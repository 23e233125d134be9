"""Compressed SIDH and SIKE: agreement, decapsulation and the isogeny-defined secret for every key."""
from compm import *
RULE = 'an evaluation is one compressed key, agreement, encapsulation or decapsulation compared with the reference; distinct = (size, build, operation, keys)'
def alice_keys(bits, rng, n):
    e = E2[bits]; M = (1 << e) - 2
    k = [2, M, 1 << (e - 1), (1 << (e - 1)) - 2, 4, M - 2, M & ~0xFFFF, 0xFFFE, (1 << 64), (1 << 64) - 2, M ^ (1 << 64), M // 255 * 0xAA & M, M // 255 * 0x55 & M] + [1 << b for b in range(128, e, 64)]
    while len(k) < n: k.append(rng.below(1 << e) & ~1)
    return k[:n]
def bob_keys(bits, rng, n):
    e = FB[bits]; M = (1 << e) - 1
    k = [3 * x for x in (1, M, 1 << (e - 1), (1 << (e - 1)) - 1, 2, 3, M - 1, (1 << 64) - 1, 1 << 64, M // 255 * 0xAA & M, M // 255 * 0x55 & M, 3**(E3[bits] - 3), 2 * 3**(E3[bits] - 3), 3**(E3[bits] // 2)) if x <= M]
    while len(k) < n: k.append(3 * rng.below(M + 1))
    return k[:n]
def split(bits, pk):
    return pk
def run_size(c, bits, srvs, pairs, tapes, pool):
    """pairs of secret keys through SIDH and random tapes through SIKE on all builds"""
    ka, kb = [p[0] for p in pairs], [p[1] for p in pairs]
    ra = list(pool.map(lambda k: ckey(bits, 'A', k), ka)); rb = list(pool.map(lambda k: ckey(bits, 'B', k), kb))
    js = list(pool.map(lambda t: cshared(bits, t[0], t[1][0]), zip(ka, rb)))
    ja = [refm.j(bits, r[1]) for r in ra]; jb = [refm.j(bits, r[1]) for r in rb]
    nA, nB = 3 * OB[bits] + 2 * BY[bits] + 3, 3 * OA[bits] + 2 * BY[bits] + 3
    def one(s):
        res = []
        for i, (a, b) in enumerate(pairs):
            A, B = a.to_bytes(SKA[bits], 'little'), b.to_bytes(SKB[bits], 'little'); D = {'bits': bits, 'build': s.label, 'skA': hex(a), 'skB': hex(b)}
            rc1, pa = s.keygen('A', A); rc2, pb = s.keygen('B', B)
            c.expect(rc1 == 0 and refm.j(bits, pkA_curve(bits, pa)) == ja[i], 'public curve A', (bits, s.label, a), 'p%d %s: compressed public key of Alice for secret %#x names another curve than her isogeny reaches' % (bits, s.label, a), 'curveA', D)
            c.expect(rc2 == 0 and refm.j(bits, pkB_curve(bits, pb)) == jb[i], 'public curve B', (bits, s.label, b), 'p%d %s: compressed public key of Bob for secret %#x names another curve than his isogeny reaches' % (bits, s.label, b), 'curveB', D)
            r1, x = s.agree('A', A, pb); r2, y = s.agree('B', B, pa)
            c.expect(r1 == 0 and x == js[i], 'agreement A', (bits, s.label, a, b), 'p%d %s: Alice (secret %#x) does not derive the shared secret from the compressed key of Bob (secret %#x, search index %d)%s' % (bits, s.label, a, b, pb[nB - 2], '' if x != y else ' - nor does Bob'), 'agreeA', dict(D, pkB=pb, got=x, want=js[i]))
            c.expect(r2 == 0 and y == js[i], 'agreement B', (bits, s.label, a, b), 'p%d %s: Bob (secret %#x) does not derive the shared secret from the compressed key of Alice (secret %#x)' % (bits, s.label, b, a), 'agreeB', dict(D, pkA=pa, got=y, want=js[i]))
            c.event('basis search index', (bits, s.label.split()[-1] == 'shrunk', 'B', pb[nB - 2])); c.event('basis search index', (bits, s.label.split()[-1] == 'shrunk', 'A', pa[nA - 3] & 127, pa[nA - 2], pa[nA - 1]))
            res.append((pa[:nA], pb[:nB]))
        for t in tapes:
            s.tape(t); rc, pk, sk = s.keypair(); key = CKey(bits, sk, pk); m = t[MSGB[bits] + SKA[bits]:][:MSGB[bits]]
            D = {'bits': bits, 'build': s.label, 'tape': t}
            ok = rc == 0 and key.s == t[:MSGB[bits]] and key.a == (int.from_bytes(t[MSGB[bits]:MSGB[bits] + SKA[bits]], 'little') & ((1 << E2[bits]) - 2)) and sk[MSGB[bits] + SKA[bits]:][:len(pk)] == pk
            c.expect(ok, 'key pair', (bits, s.label, t[:64].hex()), 'p%d %s: compressed key pair is not made of the drawn random bytes and its public key' % (bits, s.label), 'keypair', D)
            rc, ct, ss = s.enc(pk); e = formatB(bits, shake(SKB[bits], m, pk)); r = ckey(bits, 'B', e)
            ok = rc == 0 and refm.j(bits, ct_curve(bits, ct)) == refm.j(bits, r[1]) and ss == shake(SSB[bits], m, ct) and ct[-MSGB[bits]:] == bytes(p ^ q for p, q in zip(m, shake(MSGB[bits], cshared(bits, key.a, r[0]))))
            c.expect(ok, 'encapsulation', (bits, s.label, t[:64].hex()), 'p%d %s: compressed encapsulation is not the prescribed one for its random message' % (bits, s.label), 'enc', D)
            rc, got = s.dec(sk, ct)
            c.expect(rc == 0 and got == ss, 'decapsulation', (bits, s.label, t[:64].hex()), 'p%d %s: honest compressed ciphertext is not decapsulated to the encapsulated secret (search index %d)' % (bits, s.label, ct[4 * OA[bits] + 2 * BY[bits] + 1]), 'dec', dict(D, sk=sk, ct=ct))
            res.append((pk, sk, ct, ss))
        if s.dirty: c.violation('p%d %s: call %r wrote outside its buffers or modified its inputs' % (bits, s.label, s.dirty[0][:2]), 'dirty', s.dirty[0])
        return res
    rs = list(pool.map(one, srvs))
    norm = [(s, r) for s, r in zip(srvs, rs) if not s.label.endswith('shrunk')]
    for s, r in norm[1:]:
        c.expect(r == norm[0][1], 'builds agree', (bits, s.label, norm[0][0].label, hash(str(pairs))), 'p%d: builds %s and %s give different compressed keys or ciphertexts' % (bits, norm[0][0].label, s.label), 'builds', {'bits': bits})
def draws(c, bits, s, rng, n):
    for w, nb, mul in (('A', E2[bits] - 1, 2), ('B', FB[bits], 3)):
        s.tape(rng.bytes(128 * n)); v = []
        for _ in range(n):
            rc, k = s.rnd(w); k = int.from_bytes(k, 'little'); v.append(k // mul)
            c.event('draw ' + w, (bits, s.label, k))
            if rc or k % mul or (k // mul) >> nb: return c.violation('p%d %s: secret key of %s is not a multiple of %d below %d*2^%d: %#x' % (bits, s.label, w, mul, mul, nb, k), 'range')
        for b in range(nb):
            f = sum(x >> b & 1 for x in v)
            if not n // 2 - 9 * int(n**.5) // 2 <= f <= n // 2 + 9 * int(n**.5) // 2: return c.violation('p%d %s: bit %d of the secret keys of %s is not balanced (%d of %d)' % (bits, s.label, b, w, f, n), 'bias')
        c.expect(len(set(v)) == n, 'distinct keys', (bits, w, s.label), 'p%d %s: secret keys repeat under fresh entropy' % (bits, s.label), 'repeat')
def main(c):
    refm.load(); T = c.thorough; t0 = time.time()
    kinds = [(b, a) for b in SIZES for a in ('fast', 'generic')] + [(751, 'mulx'), (751, 'nomulx')]
    paths = dict(zip(kinds, build_all([(lambda b=b, a=a: sidh_server(b, a, comp=True)) for b, a in kinds])))
    sh = shrunk_tree()
    if sh is None: c.note('basis tables are declared differently: build with shortened tables left out')
    else:
        try: paths.update(dict(zip([(b, 'shrunk') for b in SIZES], build_all([(lambda b=b: sidh_server(b, 'fast', comp=True, src=sh, tag='_shrunk')) for b in SIZES]))))
        except BuildError as e: c.note('build with shortened tables failed: ' + str(e)[:300])
    log('built', len(paths))
    pool = cf.ThreadPoolExecutor(2 * NCPU)
    for rnd in range(40 if T else 1):
        for b in SIZES:
            rng = Rng('P15', c.seed, rnd, b); L = {434: 90, 503: 70, 610: 48, 751: 40}[b]
            rare = rare_keys(b); KA, KB = alice_keys(b, rng, L), bob_keys(b, rng, L)
            if rnd: KA, KB = [rng.below(1 << E2[b]) & ~1 for _ in KA], [3 * rng.below(1 << FB[b]) for _ in KB]
            order = sorted(range(L), key=lambda i: rng.u64()); KB = [KB[i] for i in order]
            F = [(a, k) for a, k in zip(KA, KB)]; R = [(rng.below(1 << E2[b]) & ~1, k) for _, k in rare]
            n = MSGB[b] + SKA[b] + MSGB[b]
            tapes = [rng.bytes(n) for _ in range(10 if b < 600 else 6)]
            if not rnd: tapes = [bytes(n), b'\xff' * n] + tapes
            slow = max(4, L // 6)
            mk = lambda a: SSrv(b, paths[b, a], True, 'comp ' + a)
            # spread the work: several servers per build on disjoint pairs; the first `slow` pairs and all rare keys run on every build
            jobs = [([mk('fast'), mk('generic')] + ([mk('mulx'), mk('nomulx')] if b == 751 else []), F[:slow] + (R if T else [r for r, x in zip(R, rare) if x[0] >= 16]), tapes[:3])]
            rest, rt = F[slow:], tapes[3:]
            for i in range(3): jobs.append(([mk('fast')], rest[i::3], rt[i::3]))
            if (b, 'shrunk') in paths:
                for i in range(2): jobs.append(([mk('shrunk')], F[i::2], tapes[i::2]))
            with cf.ThreadPoolExecutor(6) as ex:
                for f in [ex.submit(run_size, c, b, s, p, t, pool) for s, p, t in jobs]: f.result()
            if not rnd: draws(c, b, jobs[0][0][0], rng, 600)
            for s, _, _ in jobs:
                for x in s: x.close()
            log(b, 'done')
        if time.time() - t0 > 2500: break
    c.assumptions += ['the generator points of the compressed parameter sets are pinned in corpus/generators_comp.json', 'rare search indices come from a committed search result and from a build with two-entry tables']
