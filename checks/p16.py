"""Compressed variants on hostile bytes: implicit rejection, memory safety, termination."""
from compm import *
from p08 import report
RULE = 'an evaluation is one hostile ciphertext or public key processed to the end and judged; distinct = (size, build, kind of input, position)'
def parts(bits, ct):
    o, n = OA[bits], 2 * BY[bits]; sc = [int.from_bytes(ct[i * o:i * o + o], 'little') for i in range(4)]
    return sc, ct[4 * o:4 * o + n], ct[4 * o + n], ct[4 * o + n + 1], ct[4 * o + n + 2:]
def join(bits, sc, A, q, ind, msg): return b''.join(x.to_bytes(OA[bits], 'little') for x in sc) + A + bytes([q, ind]) + msg
def same_equation(key, ct, x):
    """does x stand for the same point up to sign as the honest ct under this secret key? ('' no, else a class of alternative encoding)"""
    b = key.bits; M = (1 << E2[b]) - 1; p = P[b]
    (s1, A1, q1, i1, m1), (s2, A2, q2, i2, m2) = parts(b, ct), parts(b, x)
    if m1 != m2 or i1 != i2 or (q1 ^ q2) & 1 or [v % p for v in dec2(b, A1)] != [v % p for v in dec2(b, A2)]: return ''
    f = lambda s: ((s[0] + key.a * s[2]) & M, (s[1] + key.a * s[3]) & M)
    u, v = f(s1), f(s2)
    if u != v and u != ((-v[0]) & M, (-v[1]) & M): return ''
    if A1 != A2 or q1 != q2 or [y & M for y in s1] == [y & M for y in s2]: return 'unused-bits'
    return 'same-equation'
def hostile_cts(bits, key, cts, rng, flips, nbits=0):
    ct, ct2, oth = cts; sc, A, q, ind, msg = parts(bits, ct); n = len(ct); e = E2[bits]; M = (1 << e) - 1; L = 256**OA[bits] - 1; p, W = P[bits], BY[bits]
    for i in flips(n): yield ('flip', i), ct[:i] + bytes([ct[i] ^ 1 << rng.below(8)]) + ct[i + 1:]
    for i in range(4):
        for nm, v in (('0', 0), ('1', 1), ('ff', L), ('+1', (sc[i] + 1) & M), ('-1', (sc[i] - 1) & M), ('neg', (-sc[i]) & M), ('half', sc[i] ^ 1 << (e // 2)), ('top', sc[i] ^ 1 << (e - 1)), ('top-1', sc[i] ^ 1 << (e - 2)), ('even', sc[i] & ~1), ('odd', sc[i] | 1), ('unused', sc[i] | (L ^ M)), ('random', rng.below(M + 1))):
            y = list(sc); y[i] = v; yield ('scalar %d' % i, nm), join(bits, y, A, q, ind, msg)
    for nm, y in (('all 0', [0] * 4), ('all 1', [1] * 4), ('all ff', [L] * 4), ('neg', [(-v) & M for v in sc]), ('swap a b', [sc[1], sc[0], sc[3], sc[2]]), ('swap 0 1', [sc[2], sc[3], sc[0], sc[1]]), ('double', [2 * v & M for v in sc]), ('triple', [3 * v & M for v in sc]), ('even', [v & ~1 for v in sc]), ('1 0 0 0', [1, 0, 0, 0]), ('0 1 0 0', [0, 1, 0, 0])):
        yield ('scalars', nm), join(bits, y, A, q, ind, msg)
    a0, a1 = dec2(bits, A)
    curves = [('0', 0, 0), ('2', 2, 0), ('-2', p - 2, 0), ('6', 6, 0), ('1', 1, 0), ('-1', p - 1, 0), ('p', p, 0), ('0,p', 0, p), ('p,p', p, p), ('2+p', min(2 + p, 256**W - 1), 0), ('i', 0, 1), ('2i', 0, 2), ('conjugate', a0, (p - a1) % p), ('negative', (p - a0) % p, (p - a1) % p), ('swapped', a1, a0), ('random', rng.fp(bits), rng.fp(bits)), ('real', rng.fp(bits), 0), ('ff', 256**W - 1, 256**W - 1)]
    for k in (1, 3):
        if a0 + k * p < 256**W: curves.append(('+%dp' % k, a0 + k * p, a1))
        if a1 + k * p < 256**W: curves.append(('i*%dp' % k, a0, a1 + k * p))
    for k in range(1, 6):
        md = refm.model(bits, A, k)
        if md: curves.append(('model %d' % k,) + dec2(bits, md))
    for nm, u, v in curves:
        E = u.to_bytes(W, 'little') + v.to_bytes(W, 'little')
        if E != A: yield ('curve', nm), join(bits, sc, E, q, ind, msg)
        if nm in ('0', '2', '-2', 'p', '6', 'i', '2i', 'ff'):
            for t, y in (('zero scalars', [0] * 4), ('one', [1, 0, 0, 0])): yield ('curve', nm, t), join(bits, y, E, q, ind, msg)
    for v in range(256) if nbits else (0, 1, 2, 15, 16, 17, 18, 64, 127, 128, 254, 255):
        if v != ind: yield ('index', v), join(bits, sc, A, q, v, msg)
        if v & 1 != q & 1 or nbits or v in (254, 255): 
            if v != q: yield ('selector', v), join(bits, sc, A, v, ind, msg)
    for i in range(0, len(msg)): yield ('message', i), ct[:n - len(msg) + i] + bytes([msg[i] ^ 1 << rng.below(8)]) + msg[i + 1:]
    s2, A2, q2, i2, m2 = parts(bits, ct2)
    yield ('mix', 'message'), ct[:-len(msg)] + m2
    yield ('mix', 'points'), ct2[:-len(msg)] + msg
    yield ('mix', 'scalars'), join(bits, s2, A, q, ind, msg)
    yield ('mix', 'curve'), join(bits, sc, A2, q, ind, msg)
    yield ('mix', 'curve and basis'), join(bits, sc, A2, q2, i2, msg)
    yield ('mix', 'a'), join(bits, [s2[0], sc[1], s2[2], sc[3]], A, q, ind, msg)
    yield ('other key', ''), oth
    for k in range(4): yield ('random', k), rng.bytes(n)
    yield ('constant', '0'), bytes(n)
    yield ('constant', 'ff'), b'\xff' * n
    # adaptive: shift weight between the two scalars of a component so that the sum under the secret key is preserved exactly if the guessed key bit is right
    low = 0
    for i in range(1, 6 if not nbits else 40):
        for g in (0, 1):
            d = 1 << (e - i - 1); y = list(sc); y[2] = (sc[2] + d) & M; y[0] = (sc[0] - d * (low + (g << i))) & M
            yield ('guess key bit', i, g), join(bits, y, A, q, ind, msg)
        low = key.a & ((1 << (i + 1)) - 1)
def mkcts(s, key, key2, rng):
    """honest ciphertexts (two for key, one for key2) with shared secret and message"""
    cts = []
    for pk in (key.pk, key.pk, key2.pk):
        m = rng.bytes(MSGB[s.bits]); s.tape(m); rc, ct, ss = s.enc(pk); cts.append((ct, ss, m))
    return cts
def newkey(s): rc, pk, sk = s.keypair(); return CKey(s.bits, sk, pk)
def t_dec(c, bits, path, lab, rng, flips, nsrv, safe, nbits=0, thin=1):
    srvs = [SSrv(bits, path, True, lab, timeout=120) for _ in range(nsrv)]
    s = srvs[0]; s.tape(rng.bytes(800)); key, key2 = newkey(s), newkey(s); cs = mkcts(s, key, key2, rng); cts = [x[0] for x in cs]
    q = list(hostile_cts(bits, key, cts, rng, flips, nbits))[rng.below(thin)::thin]; seen = {}; Lk = threading.Lock()
    n = MSGB[bits]
    def go(i):
        s = srvs[i]
        for nm, x in q[i::nsrv]:
            if x in cts[:2]: continue
            D = {'bits': bits, 'build': lab, 'what': str(nm), 'sk': key.sk, 'ct': x, 'honest': cts[0]}
            try: rc, got = s.dec(key.sk, x)
            except Crash as e:
                c.violation('p%d %s: decapsulation of a hostile compressed ciphertext (%s) fails: %s' % (bits, lab, ' '.join(map(str, nm)), report(e)), 'crash', dict(D, stderr=e.err[:5000])); continue
            if safe: c.event('decapsulation under ' + lab, (bits, lab) + nm)
            D['got'] = got; want = reject(key, x); eq = ''
            if got != want:
                for h in cts[:2]: eq = eq or same_equation(key, h, x)
            if got != want and eq:
                m = cs[0][2] if same_equation(key, cts[0], x) else cs[1][2]
                if got == shake(SSB[bits], m, x):
                    c.event('accepted alternative encoding', (bits, lab) + nm); c.violation('p%d %s: ciphertext %s is not the honest one but passes validation (%s)' % (bits, lab, nm, eq), eq, D); continue
            c.expect(rc == 0 and got == want, 'rejection', (bits, lab) + nm, 'p%d %s: manipulated compressed ciphertext (%s) is not answered with the rejection value (status %d)%s' % (bits, lab, ' '.join(map(str, nm)), rc, ' - it is an honest shared secret' if got in (cs[0][1], cs[1][1]) else ''), 'rejection', D)
            with Lk:
                if seen.setdefault(got, x) != x: c.violation('p%d %s: two ciphertexts give the same value' % (bits, lab), 'collision', D)
        for nm, x in q[i::nsrv * 20]:
            r = s.dec(key.sk, x); c.expect(r == s.dec(key.sk, x), 'repeatable', (bits, lab) + nm, 'p%d %s: rejection value of the same ciphertext changes' % (bits, lab), 'repeat')
            p = rng.below(n); sk2 = key.sk[:p] + bytes([key.sk[p] ^ 1 << rng.below(8)]) + key.sk[p + 1:]
            r2 = s.dec(sk2, x)
            if r[1] == reject(key, x): c.expect(r2[1] == shake(SSB[bits], sk2[:n], x), 'rejection string', (bits, lab, p) + nm, 'p%d %s: rejection value does not follow byte %d of the rejection string' % (bits, lab, p), 'rejstr')
        if s.dirty: c.violation('p%d %s: call %r wrote outside its buffers or modified its inputs' % (bits, lab, s.dirty[0][:2]), 'dirty', s.dirty[0])
    with cf.ThreadPoolExecutor(nsrv) as ex: list(ex.map(go, range(nsrv)))
    for s in srvs: s.close()
    log(bits, lab, len(q), 'ciphertexts')
def hostile_pks(bits, w, pk, rng, n):
    """public keys of party w"""
    o = OB[bits] if w == 'A' else OA[bits]; W = 2 * BY[bits]; N = len(pk); t = 3 * o + W; p = P[bits]
    yield ('constant', 0), bytes(N)
    yield ('constant', 255), b'\xff' * N
    for k in range(n): yield ('random', k), rng.bytes(N)
    for k in range(n): i = rng.below(N); yield ('flip', i), pk[:i] + bytes([pk[i] ^ 1 << rng.below(8)]) + pk[i + 1:]
    for i in range(3):
        for nm, v in (('0', 0), ('ff', 256**o - 1), ('order', 3**E3[bits] if w == 'A' else 2**E2[bits] % 256**o), ('order-1', (3**E3[bits] if w == 'A' else 2**E2[bits]) - 1), ('1', 1), ('even', 2), ('3', 3)): yield ('scalar', i, nm), pk[:i * o] + v.to_bytes(o, 'little') + pk[i * o + o:]
    for nm, u, v in (('0', 0, 0), ('2', 2, 0), ('-2', p - 2, 0), ('6', 6, 0), ('p', p, p), ('i', 0, 1), ('2i', 0, 2), ('random', rng.fp(bits), rng.fp(bits)), ('ff', 256**BY[bits] - 1, 256**BY[bits] - 1)): yield ('curve', nm), pk[:3 * o] + u.to_bytes(BY[bits], 'little') + v.to_bytes(BY[bits], 'little') + pk[t:]
    for a in (0, 1, 19, 20, 21, 22, 126, 127, 128, 129, 255):
        for b in (0, 1, 20, 21, 127, 255, a): yield ('selectors', a, b), pk[:t] + bytes([a, b, rng.below(256)]) + pk[t + 3:]
def t_keys(c, bits, path, lab, rng, n, step=1, off=0):
    s = SSrv(bits, path, True, lab, timeout=120); s.tape(rng.bytes(800))
    ka, kb = s.rnd('A')[1], s.rnd('B')[1]; pa, pb = s.keygen('A', ka)[1], s.keygen('B', kb)[1]
    cases = [('agree B', nm, x) for nm, x in hostile_pks(bits, 'A', pa, rng, n)] + [('agree A', nm, x) for nm, x in hostile_pks(bits, 'B', pb, rng, n)] + [('encapsulate', nm, x) for nm, x in list(hostile_pks(bits, 'A', pa, rng, max(1, n // 3)))[::3]]
    # secret keys are the caller's own but any value of the documented length must be safe
    for k, v in enumerate((bytes, lambda m: b'\xff' * m, rng.bytes)): cases += [('keygen A', k, v(SKA[bits])), ('keygen B', k, bytes(SKB[bits]) if k == 0 else (3 * rng.below(1 << FB[bits])).to_bytes(SKB[bits], 'little'))]
    for op, nm, x in cases[off::step]:
        try: r = {'agree A': lambda: s.agree('A', ka, x), 'agree B': lambda: s.agree('B', kb, x), 'encapsulate': lambda: s.enc(x), 'keygen A': lambda: s.keygen('A', x), 'keygen B': lambda: s.keygen('B', x)}[op]()
        except Crash as e:
            c.violation('p%d %s: %s fails on hostile bytes (%s): %s' % (bits, lab, op, nm, report(e)), 'crash', {'bits': bits, 'build': lab, 'op': op, 'what': str(nm), 'input': x, 'skA': ka, 'skB': kb, 'stderr': e.err[:5000]}); continue
        c.event(op + ' under ' + lab, (bits, nm))
    if s.dirty: c.violation('p%d %s: call %r wrote outside its buffers or modified its inputs' % (bits, lab, s.dirty[0][:2]), 'dirty', s.dirty[0])
    s.close(); log(bits, lab, len(cases[off::step]), 'hostile keys')
def main(c):
    refm.load(); T = c.thorough
    spec = [(b, a, 'rel', False) for b in SIZES for a in ('fast', 'generic')] + [(b, 'fast', 'asan', True) for b in SIZES] + [(b, 'generic', 'asan', True) for b in SIZES] + [(b, 'generic', 'msan', True) for b in ((434,) if not T else SIZES)]
    paths = dict(zip(spec, build_all([(lambda b=b, a=a, o=o, x=x: sidh_server(b, a, o, comp=True, exact=x)) for b, a, o, x in spec]))); log('built')
    for rnd in range(25 if T else 1):
        jobs = []
        for sp in sorted(spec, key=lambda s: -s[0] * (3 if s[1] == 'generic' else 1)):
            b, a, o, x = sp; rng = Rng('P16', c.seed, rnd, *sp); lab = '%s %s' % (a, o)
            thin = 1 if T or a == 'fast' and (o == 'rel' or b == 434) else 4 if a == 'generic' and b > 600 else 3
            full = o == 'rel' and a == 'fast' or T
            def flips(n, rng=rng, full=full):
                if full: return range(n)
                return sorted({0, n - 1} | {rng.below(n) for _ in range(12)})
            jobs.append(lambda sp=sp, rng=rng, lab=lab, flips=flips, x=x, b=b, thin=thin: t_dec(c, b, paths[sp], lab, rng, flips, 3, x, int(T and rnd == 0), thin))
            if x: jobs.append(lambda sp=sp, rng=Rng('P16k', c.seed, rnd, *sp), lab=lab, b=b, a=a: t_keys(c, b, paths[sp], lab, rng, 30 if T else 12, 1 if T or b == 434 and a == 'fast' else 5 if a == 'generic' and b > 600 else 3))
        with cf.ThreadPoolExecutor(6) as ex:
            for f in [ex.submit(j) for j in jobs]: f.result()
        if c.elapsed() > 2500: break
    c.assumptions.append('a ciphertext that validation accepts although it differs from the honest one is tolerated only if it is one of the listed known findings')
