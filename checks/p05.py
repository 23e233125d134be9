"""What is proved is what was asked: start curve, secret walk, end curve, and chaining of proofs."""
from pok import *
RULE = 'an evaluation is one monitored generation/proof/pipeline; distinct = (size, build, start model, monitored relation)'

def check_secret(c, bits, label, name, A, g):
    Es, Ps, raw = g; ident = (bits, label, name, Ps[0].hex()[:16])
    rep = {'bits': bits, 'start': A, 'secret': raw}
    c.expect(refm.canon(bits, Es[0]) == refm.canon(bits, A), 'start', ident, 'secret walk does not start at the given curve (p%d %s %s)' % (bits, label, name), replay=rep)
    ok = True
    for i in range(WIDTH):
        rc, B, _ = refm.isog(bits, 2, Es[i], Ps[i])
        if not c.expect(rc == 1 and B == refm.canon(bits, Es[i + 1]), 'step', ident + (i,), 'step %d of the secret walk is not a full 2^e isogeny to the next curve (p%d %s %s)' % (i, bits, label, name), replay=rep): ok = False
    if not ok: return
    xs = [Ps[0]] + [canon_x(bits, Es[i], Ps[i]) for i in range(1, WIDTH)]
    rc, pos, jj, Ae = refm.chain(bits, 2, Es[0], xs)
    c.expect(rc == 0 and jj == refm.j(bits, Es[-1]), 'walk cyclic', ident, 'secret walk is not cyclic / does not end at its end curve: rc=%d at %d (p%d %s %s)' % (rc, pos, bits, label, name), replay=rep)

def t_gen(c, bits, path, label, n, seed):
    rng = Rng('P05', seed, bits, label); s = PSrv(bits, path, timeout=120); cs = start_curves(bits, rng, 2); seen = set()
    for i in range(n):
        name, A = cs[i % len(cs)]; g = s.gen(A)
        if g is None: c.note('p%d refuses %s' % (bits, name)); continue
        check_secret(c, bits, label, name, A, g)
        e = refm.canon(bits, g[0][-1]); c.expect(e not in seen, 'end fresh', (bits, label, e.hex()[:16]), 'two independent walks ended on the same curve (p%d)' % bits, replay={'bits': bits}); seen.add(e)
    s.close(); log('gen', bits, label)
def t_prove(c, bits, path, sel, seed):
    rng = Rng('P05p', seed, bits, sel); s = PSrv(bits, path, timeout=900); name, A = start_curves(bits, rng, 1)[sel]
    g = s.gen(A); txt = s.prove(g[2]); rep = {'bits': bits, 'start': A, 'secret': g[2], 'proof': txt.decode('latin1')}
    try: p = parse(bits, txt)
    except BadText as e: c.note('format: %s' % e); return
    c.expect(p.E0 == refm.canon(bits, A), 'proof start', (bits, name), 'proof at p%d does not carry the canonical model of the given curve (%s)' % (bits, name), replay=rep)
    c.expect(p.E1 == refm.canon(bits, g[0][-1]), 'proof end', (bits, name), 'proof at p%d does not carry the canonical model of the end of the secret walk (%s)' % (bits, name), replay=rep)
    s.close(); log('prove', bits, name)
def t_models(c, bits, path, n, seed):
    """whatever model of a curve is asked for, the proof carries its canonical one and the end of its walk"""
    rng = Rng('P05m', seed, bits); s = PSrv(bits, path, timeout=300); cs = start_curves(bits, rng, 2)
    for k, A in enumerate(fp_curves(bits, rng, 2)): cs += [('prime field %d model %d' % (k, i), refm.model(bits, A, i)) for i in range(6)]
    cs += [('A6 model %d' % i, refm.model(bits, enc2(bits, 6), i)) for i in range(2, 6)]; cs = [cs[i] for i in rng.perm(len(cs))] if hasattr(rng, 'perm') else sorted(cs, key=lambda x: rng.u64())
    for name, A in cs[:n]:
        g = s.gen(A)
        if g is None: c.note('p%d refuses %s' % (bits, name)); continue
        check_secret(c, bits, 'small', name, A, g)
        txt = s.prove(g[2]); rep = {'bits': int(bits), 'start': A, 'secret': g[2], 'proof': txt.decode('latin1')}
        try: p = parse(bits, txt)
        except BadText as e: c.note('format: %s' % e); return
        c.expect(p.E0 == refm.canon(bits, A), 'proof start', (bits, name, A.hex()[:16]), 'proof at p%d does not carry the canonical model of the given curve (%s)' % (bits, name), replay=rep)
        c.expect(p.E1 == refm.canon(bits, g[0][-1]), 'proof end', (bits, name, A.hex()[:16]), 'proof at p%d does not carry the canonical model of the end of the secret walk (%s)' % (bits, name), replay=rep)
    s.close(); log('models', bits)
def lines(b): return [l for l in b.decode('latin1').split('\n')]
def t_cli(c, bits, links, start=None):
    pv, vf_ = cli(bits, 'prove'), cli(bits, 'verify')
    prev = None; inp = None
    for k in range(links):
        r = subprocess.run([pv] + (['--initial'] if inp is None and start is None else []), input=(inp if inp is not None else t_fp2(bits, start).encode() if start else b''), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        v = subprocess.run([vf_], input=r.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        L, V = lines(r.stdout), lines(v.stdout); rep = {'bits': bits, 'link': k, 'stdin': inp, 'proof': r.stdout.decode('latin1'), 'printed': v.stdout.decode('latin1')}
        c.expect(r.returncode == 0 and v.returncode == 0, 'pipeline', (bits, k), 'prove|verify pipeline failed at link %d: %d/%d' % (k, r.returncode, v.returncode), replay=rep)
        c.expect(V == L[:2] + [''], 'printed statement', (bits, k), 'verify_%d does not print exactly the two curves of the proof' % bits, replay=rep)
        if len(L) < 3: return
        if k == 0: c.expect(L[0] + '\n' == t_fp2(bits, refm.canon(bits, start or enc2(bits, 0))), 'initial curve', (bits,), 'first proof of a chain does not start at the requested curve', replay=rep)
        else: c.expect(L[0] == prev, 'chain link', (bits, k), 'the next proof of a chain does not start where the previous one ended', replay=rep)
        c.expect(L[1] != L[0], 'moved', (bits, k), 'proof for a trivial statement', replay=rep)
        prev = L[1]; inp = (V[1] + '\n').encode() if len(V) > 1 else b''
    log('cli', bits)
def main(c):
    refm.load(); T = c.thorough
    kinds = [(b, 'fast') for b in SIZES] + [(434, 'generic')] + ([(b, 'generic') for b in SIZES[1:]] if T else [])
    sm = [small(b, 4) for b in SIZES]
    paths = build_all([(lambda k=k: poik_server(*k)) for k in kinds] + [(lambda b=b: poik_server(b)) for b in sm]); log('built'); spaths = paths[len(kinds):]; paths = paths[:len(kinds)]
    for rnd in range(5 if T else 1):
        jobs = [lambda: t_cli(c, 434, 6 if T else 3), lambda: t_prove(c, 434, paths[0], 8, c.seed + rnd), lambda: t_prove(c, 503, paths[1], 4, c.seed + rnd)]
        if T: jobs += [lambda b=b, i=i, k=k: t_prove(c, b, paths[i], k, c.seed + rnd) for i, b in enumerate(SIZES) for k in (5, 7)] + [lambda b=b: t_cli(c, b, 2, enc2(b, 6)) for b in SIZES]
        if None in spaths: c.note('no build with fewer repetitions')
        else: jobs += [lambda b=b, p=p: t_models(c, b, p, 99 if T else {434: 40, 503: 30, 610: 16, 751: 10}[b], c.seed * 100 + rnd) for b, p in zip(sm, spaths)]
        jobs += [lambda b=b, k=k, p=p: t_gen(c, b, p, k, 200 if T else {434: 60, 503: 30, 610: 20, 751: 12}[b], c.seed * 100 + rnd) for (b, k), p in zip(kinds, paths)]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(j) for j in jobs]: f.result()
        if c.elapsed() > 3000: break
