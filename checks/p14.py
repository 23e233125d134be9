"""SIKE: everything but an honest ciphertext is rejected implicitly with H(s || ct)."""
from sikem import *
RULE = 'an evaluation is one decapsulation of a manipulated ciphertext compared with the rejection value; distinct = (size, build, manipulation)'
def hostile_cts(bits, key, ct, ct2, other, rng, flips):
    """(name, ciphertext) of strings that are no honest encapsulation under key"""
    n, m, F = len(ct), MSGB[bits], BY[bits]; c0 = ct[:-m]
    def put(i, v): return ct[:i] + bytes([v]) + ct[i + 1:]
    for i in flips(n):
        yield ('flip', i, 'low'), put(i, ct[i] ^ 1); 
        yield ('flip', i, 'other'), put(i, ct[i] ^ (1 << (1 + rng.below(7))))
        if rng.below(4) == 0: yield ('byte', i), put(i, (ct[i] + 1 + rng.below(255)) & 255)
    yield ('two bytes',), bytes(b ^ (1 if i in (0, n - 1) else 0) for i, b in enumerate(ct))
    # components of other ciphertexts
    for k in range(6): yield ('component %d of another ciphertext' % k,), ct[:k * F] + ct2[k * F:(k + 1) * F] + ct[(k + 1) * F:]
    yield ('message part of another ciphertext',), c0 + ct2[-m:]
    yield ('points of another ciphertext',), ct2[:-m] + ct[-m:]
    yield ('ciphertext for another key',), other
    x = [c0[2 * F * i:2 * F * i + 2 * F] for i in range(3)]
    for nm, o in (('PQR swapped', (1, 0, 2)), ('rotated', (1, 2, 0)), ('P=Q', (0, 0, 2)), ('all equal', (0, 0, 0)), ('R=P', (0, 1, 0)), ('R=Q', (0, 1, 1))): yield (nm,), b''.join(x[i] for i in o) + ct[-m:]
    # encodings that are not reduced or overflow
    for i in range(6):
        v = int.from_bytes(c0[i * F:(i + 1) * F], 'little')
        for k in (1, 2):
            if v + k * P[bits] < 256**F: yield ('component %d plus %dp' % (i, k),), c0[:i * F] + (v + k * P[bits]).to_bytes(F, 'little') + c0[(i + 1) * F:] + ct[-m:]
        yield ('component %d negated' % i,), c0[:i * F] + (P[bits] - v).to_bytes(F, 'little') + c0[(i + 1) * F:] + ct[-m:]
        yield ('component %d all ones' % i,), c0[:i * F] + b'\xff' * F + c0[(i + 1) * F:] + ct[-m:]
        yield ('component %d zero' % i,), c0[:i * F] + bytes(F) + c0[(i + 1) * F:] + ct[-m:]
    yield ('zero',), bytes(n); yield ('ones',), b'\xff' * n; yield ('zero points',), bytes(n - m) + ct[-m:]
    for k in range(3): yield ('random', k), rng.bytes(n)
    yield ('random reduced',), b''.join(rng.fp2(bits) for _ in range(3)) + rng.bytes(m)
    # valid curve, bad points: order too small, dependent, wrong order, on another valid curve
    A = refm.getA(bits, c0); e = E3[bits]
    for nm, f in (('P of order 3^(e-1)', lambda: [refm.mul(bits, A, x[0], 3, 1), x[1], x[2]]), ('Q of order 3^(e-1)', lambda: [x[0], refm.mul(bits, A, x[1], 3, 1), x[2]]), ('P of order 3', lambda: [refm.mul(bits, A, x[0], 3, e - 1), x[1], x[2]]), ('2-power points', lambda: [refm.point(bits, A, 2, E2[bits], 7), refm.point(bits, A, 2, E2[bits], 8), x[2]]), ('small x', lambda: [enc2(bits, 1), enc2(bits, -1), x[2]])):
        try: y = f()
        except Exception: continue
        if all(y): yield (nm,), b''.join(y) + ct[-m:]
    for k in range(2):    # a perfectly valid public key that is not the one derived from the message
        yield ('foreign but valid points', k), ref_keygen(bits, 'A', rng.below(1 << BITS_A[bits]))[0] + ct[-m:]
    e_ = ephemeral(bits, bytes(m), key.pk)
    yield ('other ephemeral key, consistent message mask',), (lambda k: ref_keygen(bits, 'A', k)[0] + bytes(a ^ b for a, b in zip(rng.bytes(m), shake(m, ref_agree(bits, 'A', k, key.pk)))))(rng.below(1 << BITS_A[bits]))
def run(c, bits, path, label, rng, flips, nsrv=1, vary=True):
    key, key2 = [mkkey(bits, rng.bytes(MSGB[bits]), rng.below(1 << BITS_B[bits])) for _ in range(2)]
    (ct, ss), (ct2, ss2), (oth, _) = encaps(bits, key.pk, rng.bytes(MSGB[bits])), encaps(bits, key.pk, rng.bytes(MSGB[bits])), encaps(bits, key2.pk, rng.bytes(MSGB[bits]))
    srvs = [SSrv(bits, path, label=label) for _ in range(nsrv)]; q = list(hostile_cts(bits, key, ct, ct2, oth, rng, flips))
    seen = {}; L = threading.Lock()
    def go(i):
        s = srvs[i]
        rc, got = s.dec(key.sk, ct)
        if (rc, got) != (0, ss): c.note('honest ciphertext not decapsulated at p%d %s (checked elsewhere)' % (bits, label))
        for nm, x in q[i::nsrv]:
            if x in (ct, ct2): continue
            rc, got = s.dec(key.sk, x); rj = reject(key, x)
            what = ' - it is the shared secret of the honest ciphertext' if got in (ss, ss2) else ''
            if got != rj:
                m = open_ct(key, x)
                if m is not None and got == shake(SSB[bits], m, x): what = ' - it is derived from the recovered message'
            c.expect(rc == 0 and got == rj, 'rejection', (bits, label) + nm, 'p%d %s: manipulated ciphertext (%s) is not answered with the rejection value (status %d)%s' % (bits, label, ' '.join(map(str, nm)), rc, what), 'rejection', {'sk': key.sk, 'ct': x, 'got': got, 'want': rj, 'what': nm})
            with L:
                if got in seen and seen[got] != x: c.violation('p%d %s: two different ciphertexts give the same value' % (bits, label), 'collision')
                seen[got] = x
        for nm, x in q[i::nsrv * 12]:      # same ciphertext again, and with another rejection string
            a = s.dec(key.sk, x); b = s.dec(key.sk, x)
            c.expect(a == b, 'repeatable', (bits, label) + nm, 'p%d %s: rejection value of the same ciphertext changes' % (bits, label), 'repeat')
            if vary:
                p = rng.below(MSGB[bits]); sk2 = key.sk[:p] + bytes([key.sk[p] ^ 1 << rng.below(8)]) + key.sk[p + 1:]
                r2 = s.dec(sk2, x); c.expect(r2[1] == shake(SSB[bits], sk2[:MSGB[bits]], x), 'rejection string', (bits, label, p) + nm, 'p%d %s: rejection value does not follow byte %d of the rejection string' % (bits, label, p), 'rejstr')
        if s.dirty: c.violation('p%d %s: call %r wrote outside its buffers or modified its inputs' % (bits, label, s.dirty[0][:2]), 'dirty', s.dirty[0])
    with cf.ThreadPoolExecutor(nsrv) as ex: list(ex.map(go, range(nsrv)))
    for s in srvs: s.close()
    log(bits, label, len(q), 'ciphertexts')
def main(c):
    refm.load(); T = c.thorough
    kinds = [(b, a) for b in SIZES for a in ('fast', 'generic')] + [(751, 'mulx'), (751, 'nomulx')] * T
    paths = dict(zip(kinds, build_all([(lambda b=b, a=a: sidh_server(b, a)) for b, a in kinds]))); log('built')
    t0 = time.time()
    for rnd in range(20 if T else 1):
        jobs = []
        for b, a in kinds:
            rng = Rng('P14', c.seed, rnd, b, a)
            allb = T or a == 'fast'
            def flips(n, rng=rng, b=b, allb=allb):
                if allb: return range(n)
                F, m = BY[b], MSGB[b]; fix = {0, n - 1, n - m, n - m - 1} | {k * F - 1 for k in range(1, 7)} | {k * F for k in range(6)}
                return sorted(fix | {rng.below(n) for _ in range({503: 40, 610: 20}.get(b, 10))})
            jobs.append(lambda b=b, a=a, rng=rng, flips=flips: run(c, b, paths[b, a], a, rng, flips, 4 if a == 'fast' else 3))
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(j) for j in jobs]: f.result()
        if time.time() - t0 > 2500: break
