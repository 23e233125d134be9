"""Curve validation: exactly the supersingular Montgomery coefficients are accepted, by prover and verifier, every time."""
from pok import *
RULE = 'an evaluation is one coefficient offered to the real prover or verifier and compared with the independent curve test; distinct = (size, build, role, coefficient)'

def neighbours(bits, A, rng):
    re_, im = dec2(bits, A); p = P[bits]
    yield 'conj', enc2(bits, re_, -im); yield 'neg', enc2(bits, -re_, -im); yield 'times i', enc2(bits, -im, re_)
    yield 'swap', enc2(bits, im, re_); yield 'real part', enc2(bits, re_, 0); yield 'imag part', enc2(bits, 0, im)
    yield '+1', enc2(bits, re_ + 1, im); yield '+2', enc2(bits, re_ + 2, im); yield '+i', enc2(bits, re_, im + 1)
    for _ in range(2):
        k = rng.below(p.bit_length() - 1); yield 'bit %d' % k, enc2(bits, re_ ^ (1 << k), im)
        k = rng.below(p.bit_length() - 1); yield 'imag bit %d' % k, enc2(bits, re_, im ^ (1 << k))
def fixed(bits):
    p = P[bits]
    for v in (2, -2): yield 'singular', enc2(bits, v)
    for v in (1, -1, 3, 4, 5, 7, 8, 10, p // 2, p // 3): yield 'small real', enc2(bits, v)
    for v in (1, -1, 2, -2, 6): yield 'imaginary', enc2(bits, 0, v)
    yield 'A=6', enc2(bits, 6); yield 'A=0', enc2(bits, 0); yield 'A=-6', enc2(bits, -6)

def run(c, bits, path, label, n, reps, seed):
    rng = Rng('P04', seed, bits, label); srv = PSrv(bits, path, timeout=120)
    cand = list(fixed(bits))
    for i in range(n):
        A = refm.mkchain(bits, rng.choice([2, 3]), rng.choice([enc2(bits, 0), enc2(bits, 6)]), 1 + rng.below(2), rng.u64() >> 8)[1][-1]
        ms = [refm.model(bits, A, k) for k in range(6)]
        cand += [('supersingular model %d' % k, m) for k, m in enumerate(ms)]
        cand += [('%s of supersingular' % nm, B) for nm, B in neighbours(bits, rng.choice(ms), rng)]
        cand += [('random', rng.fp2(bits)), ('random', rng.fp2(bits)), ('random real', enc2(bits, rng.fp(bits), 0))]
    j0 = j_zero(bits)
    if j0: cand += [('j=0', j0), ('j=0 conj', enc2(bits, *[dec2(bits, j0)[0], -dec2(bits, j0)[1]]))]
    nv = nb = 0
    for nm, A in cand:
        want = refm.curve_ok(bits, A)
        nv += want; nb += not want
        for k in range(reps if not want else 1):
            try: got = srv.gen(A) is not None
            except Crash as e: got = 'crash (%s) %s' % (e.why, e.err[-200:])
            c.expect(got == want, 'prover ' + ('valid' if want else 'invalid'), (bits, label, nm, A.hex()[:24]), 'prover %s for %s coefficient (%s) at p%d %s' % (got, 'a valid' if want else 'an invalid', nm, bits, label), key='prover', replay={'bits': bits, 'A': A})
    # verifier: statement and middle curves replaced by invalid ones
    st = Statement(bits, enc2(bits, 6), rng.u64() >> 40, n=1); h = Slot.honest(st.inst[0])
    bad = [(nm, A) for nm, A in cand if not refm.curve_ok(bits, A)]
    for nm, A in bad[:2] + [rng.choice(bad) for _ in range(n)]:
        for role in ('E0', 'E1', 'E2'):
            jA = refm.j(bits, A)
            sl = [h] * REPS[bits]
            if role == 'E0': pf = assemble(bits, A, st.E1, jA, st.j1, sl, rng)
            elif role == 'E1': pf = assemble(bits, st.E0, A, st.j0, jA, sl, rng)
            else: pf = assemble(bits, st.E0, st.E1, st.j0, st.j1, [Slot(jA, h.j3, h.left, h.bottom, h.right, A)] + sl[1:], rng, {0: BOTTOM})
            t = dump(pf)
            try: v = srv.verify(t)[1]
            except Crash as e: v = 'crash (%s) %s' % (e.why, e.err[-200:])
            c.expect(v is False, 'verifier ' + role, (bits, label, nm, A.hex()[:24]), 'verifier answers %s for a proof whose %s is invalid (%s) at p%d %s' % (v, role, nm, bits, label), key='verifier', replay={'bits': bits, 'A': A, 'proof': t.decode()})
    c.extra.setdefault('coefficients', {})['p%d %s' % (bits, label)] = {'valid': nv, 'invalid': nb}
    srv.close(); log(bits, label)

def main(c):
    refm.load(); T = c.thorough
    kinds = [(b, 'fast') for b in reversed(SIZES)] + [(434, 'generic')] + ([(b, 'generic') for b in SIZES[1:]] if T else [])
    paths = build_all([(lambda k=k: poik_server(*k)) for k in kinds]); log('built')
    for rnd in range(10 if T else 1):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(run, c, b, p, k, 40 if T else {434: 14, 503: 8, 610: 5, 751: 3}[b], 20 if T else 4, c.seed * 1000 + rnd) for (b, k), p in zip(kinds, paths)]: f.result()
        if c.elapsed() > 3000: break
    # command line: an invalid curve is reported as such
    for b in (SIZES if T else (434, 610)):
        x = cli(b, 'prove')
        for nm, A in (('singular', enc2(b, 2)), ('ordinary', enc2(b, 5)), ('random', Rng('cli', c.seed, b).fp2(b))):
            r = subprocess.run([x], input=t_fp2(b, A).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            c.expect(r.returncode not in (0,) and r.stdout == b'', 'cli', (b, nm), 'prove_%d on %s curve: exit %d, %d bytes on stdout' % (b, nm, r.returncode, len(r.stdout)), key='cli', replay={'A': A})
