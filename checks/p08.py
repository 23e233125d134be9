"""Memory safety and termination on hostile proof text: instrumented builds of the real verifier and prover."""
from pok import *
from p07 import rand_proof, malformed, extremes, line_table
RULE = 'an evaluation is one input processed to a verdict by a sanitizer-instrumented build of the real code; distinct = (size, build, kind of input, position)'

def report(e): 
    m = re.search(r'(SUMMARY: .*)', e.err); return m[1][:300] if m else (e.why + ' ' + e.err[-200:].strip())

def interesting(bits, rng, st):
    """field elements with a history of trouble: not reduced, singular curves, small order, infinity-like, subfield, twist"""
    n = BY[bits]; p = P[bits]
    v = [('0', enc2(bits, 0)), ('1', enc2(bits, 1)), ('-1', enc2(bits, -1)), ('2', enc2(bits, 2)), ('-2', enc2(bits, -2)), ('i', enc2(bits, 0, 1)), ('2i', enc2(bits, 0, 2)), ('p-1,p-1', enc2(bits, -1, -1)),
         ('p', p.to_bytes(n, 'little') * 2), ('p,0', p.to_bytes(n, 'little') + bytes(n)), ('0,p', bytes(n) + p.to_bytes(n, 'little')), ('p+2', (p + 2).to_bytes(n, 'little') + bytes(n)),
         ('ff', b'\xff' * 2 * n), ('ff,0', b'\xff' * n + bytes(n)), ('80..', bytes(n - 1) + b'\x80' + bytes(n)), ('2p', min(2 * p, 256**n - 1).to_bytes(n, 'little') + bytes(n)),
         ('random', rng.fp2(bits)), ('subfield', enc2(bits, rng.fp(bits))), ('imag', enc2(bits, 0, rng.fp(bits))), ('raw', rng.bytes(2 * n)), ('E0', st.E0), ('E1', st.E1)]
    v += [('2-torsion', refm.mul(bits, st.E0, st.xs[0], 2, E2[bits] - 1)), ('4-torsion', refm.mul(bits, st.E0, st.xs[0], 2, E2[bits] - 2)), ('3-torsion', refm.point(bits, st.E0, 3, 1, 5)), ('full', refm.point(bits, st.E0, 3, E3[bits], 6))]
    return v

def hostile(bits, base, rng, st, full):
    """(kind, identity, text): honest proof with single or multiple hostile fields; early repetitions so that a verdict comes quickly"""
    vals = interesting(bits, rng, st)
    import copy
    def mod(f): q = copy.deepcopy(base); f(q); return dump(q)
    first = {t: next(i for i, r in enumerate(base.resp) if r.tag == t) for t in (LEFT, BOTTOM, RIGHT)}
    for nm, v in vals:
        yield 'E0', nm, mod(lambda q: setattr(q, 'E0', v))
        yield 'E1', nm, mod(lambda q: setattr(q, 'E1', v))
        yield 'E2', nm, mod(lambda q: setattr(q.resp[first[BOTTOM]], 'E2', v))
        for t in (LEFT, BOTTOM, RIGHT):
            n = len(base.resp[first[t]].chain)
            for k in (range(n) if full else sorted({0, 1, n - 1, rng.below(n)})):
                def f(q): q.resp[first[t]].chain[k] = v
                yield 'kernel tag %d' % t, (nm, k), mod(f)
        def g(q):
            q.E0 = q.E1 = v
            for r in q.resp: r.chain = [v] * len(r.chain); r.E2 = v if r.E2 else None
        yield 'all', nm, mod(g)
        def h(q):
            for r in q.resp:
                if r.E2: r.E2 = v
        yield 'all E2', nm, mod(h)
    for k in range(12 if full else 4):
        yield 'random contents', k, dump(rand_proof(bits, rng, raw=k & 1))
        def f(q):
            for r in q.resp: r.chain = [rng.choice(vals)[1] for _ in r.chain]
        yield 'mixture', k, mod(f)

def t_hostile(c, bits, arch, opt, seed, full, part, nparts, nmal, threads):
    path = poik_server(bits, arch, opt); rng = Rng('P08', seed, bits, part if nparts > 1 else 0)
    if path is None: c.note('no build with fewer repetitions'); return
    k = getattr(bits, 'reps', 0)
    st = Statement(bits, enc2(bits, 6) if bits != 503 else enc2(bits, 0), rng.u64() >> 8, n=1); sl = [Slot.honest(st.inst[0])] * REPS[bits]
    base = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng, {0: LEFT, 1: BOTTOM, 2: RIGHT} if k else None); lab = '%s-%s' % (arch, opt) + (' %d repetitions' % k if k else '')
    cases = [('honest', '', dump(base))] if part == 0 else []
    cases += [x for i, x in enumerate(hostile(bits, base, rng, st, full)) if i % nparts == part]
    mal = list(malformed(bits, dump(base), rng, 2, 40)) if nmal else []; step = max(1, len(mal) // max(nmal, 1))
    cases += mal[part::step][:nmal] if nmal else []
    s = PSrv(bits, path, timeout=240, POIK_THREADS=threads); n = 0
    for kind, ident, x in cases:
        try: pok, v = s.verify(x)
        except Crash as e:
            c.violation('the verifier does not come back with a verdict on hostile input (%s %s, p%d %s): %s' % (kind, ident, bits, lab, report(e)), 'hostile', {'bits': bits, 'build': lab, 'kind': kind, 'text': x.decode('latin1'), 'stderr': e.err[:6000]}); continue
        n += 1; c.event('hostile ' + kind, (bits, lab, ident))
        if kind == 'honest' and not (pok and v): c.note('honest proof not accepted by %s (completeness is checked elsewhere)' % lab)
    # single elements and start curves
    vals = interesting(bits, rng, st)
    if part == 0:
        for nm, v in vals:
            for what, f in (('curve read', lambda: s.parse_fp2(t_fp2(bits, v).encode())), ('generate', lambda: s.gen(v))):
                try: f(); c.event(what, (bits, lab, nm))
                except Crash as e: c.violation('%s does not return on %s (p%d %s): %s' % (what, nm, bits, lab, report(e)), 'hostile', {'bits': bits, 'build': lab, 'value': v, 'stderr': e.err[:6000]})
    rc, err = s.close()
    if rc or 'ERROR: ' in err or 'WARNING: ' in err or 'runtime error' in err: c.violation('sanitizer report at exit (p%d %s): %s' % (bits, lab, err[:300]), 'hostile', {'stderr': err[:6000]})
    log('hostile', bits, lab, part, n)

def t_prove(c, bits, arch, opt):
    path = poik_server(bits, arch, opt)
    if path is None: return
    s = PSrv(bits, path, timeout=900); rng = Rng('P08p', bits)
    try:
        g = s.gen(enc2(bits, 6)); t = s.prove(g[2]); parse(bits, t); c.event('prove under sanitizer', (bits, arch, opt), REPS[bits])
        s.redump(t); c.event('proof re-read', (bits, arch, opt))
    except BadText as e: c.note('proof text: %s' % e)
    except Crash as e: c.violation('instrumented prover fails (p%d %s-%s): %s' % (bits, arch, opt, report(e)), 'prove', {'bits': bits, 'stderr': e.err[:6000]})
    s.close(); log('prove', bits, opt)

def t_cli(c, bits, arch):
    """the installed programs themselves, instrumented, on hostile streams"""
    v, p = cli(bits, 'verify', arch, 'asan'), cli(bits, 'prove', arch, 'asan'); rng = Rng('P08c', bits)
    t = dump(rand_proof(bits, rng)); ins = [b'', b'\xff' * 5000, b'0x', t[:1000], t[:-40], t, rng.bytes(100000), b'0' * 100000, b'\n' * 100000, b'-' + t, t_fp2(bits, rng.fp2(bits)).encode(), b'0x' + b'f' * 10**6]
    for i, x in enumerate(ins):
        for nm, exe in (('verify', v), ('prove', p)):
            r = subprocess.run([exe], input=x, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=600); err = r.stderr.decode('latin1')
            bad = r.returncode == 99 or r.returncode < 0 or 'Sanitizer' in err or 'runtime error' in err
            c.expect(not bad, 'program', (bits, nm, i), '%s_%d fails on hostile stream %d: exit %d %s' % (nm, bits, i, r.returncode, err[-300:]), 'program', {'bits': bits, 'input': x[:200000].decode('latin1'), 'stderr': err[:5000]})
    for a in (['--initia'], ['--initial-x'], [''], ['x' * 100000]):       # not the flag: expects a curve on stdin
        r = subprocess.run([p] + a, input=b'zz', stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=600)
        c.expect(r.returncode not in (0, 99) and r.returncode > 0 and not r.stdout, 'arguments', (bits, a[0][:20]), 'prove_%d %s: exit %d' % (bits, a[0][:20], r.returncode), 'program')
    log('programs', bits)

def main(c):
    refm.load(); T = c.thorough; jobs = []
    if not T:
        jobs += [lambda k=k: t_hostile(c, small(434, 6), 'generic', 'msan', c.seed, False, k, 8, 5, 2) for k in range(2)]
        # complete-size builds (their stack and heap objects are the largest), and builds in which a proof has six repetitions for breadth
        jobs += [lambda: t_hostile(c, 434, 'fast', 'asan', c.seed, False, c.seed % 6, 6, 25, 2), lambda: t_prove(c, 434, 'fast', 'asan'), lambda: t_hostile(c, 751, 'fast', 'asan', c.seed, False, 0, 60, 3, 8)]
        jobs += [lambda b=b, k=k: t_hostile(c, small(b, 6), 'fast', 'asan', c.seed, False, k, {434: 2, 503: 2, 610: 3, 751: 4}[b], 10, 2) for b in (751, 610, 503, 434) for k in range(2 if b == 434 else 1)]
        jobs += [lambda: t_prove(c, small(434, 6), 'generic', 'msan'), lambda: t_cli(c, 434, 'fast')]
        jobs += [lambda b=b: t_prove(c, small(b, 6), 'fast', 'asan') for b in SIZES[1:]]
    else:
        jobs += [lambda b=b, k=k: t_hostile(c, b, 'fast', 'asan', c.seed, True, k, 4, 400, 2) for b in SIZES for k in range(4)]
        jobs += [lambda b=b, k=k: t_hostile(c, b, 'generic', o, c.seed, True, k, 12, 60, 2) for b in (434, 503) for o in ('asan', 'msan') for k in range(3)]
        jobs += [lambda b=b: t_cli(c, b, 'fast') for b in SIZES] + [lambda b=b: t_prove(c, b, 'fast', 'asan') for b in SIZES] + [lambda: t_prove(c, 434, 'generic', 'asan'), lambda: t_prove(c, 434, 'generic', 'msan')]
        jobs += [lambda b=b, k=k: t_hostile(c, small(b, 6), a, o, c.seed + 1, True, k, 3, 100, 2) for b in SIZES for a, o in (('fast', 'asan'), ('generic', 'asan'), ('generic', 'msan')) for k in range(3)] + [lambda b=b, o=o: t_prove(c, small(b, 6), 'generic', o) for b in SIZES for o in ('asan', 'msan')]
    c.assumptions = ['assembly routines are not instrumented (the portable build is, and both are compared in P17)', 'MemorySanitizer watches the portable build only']
    with cf.ThreadPoolExecutor(5) as ex:
        for f in [ex.submit(j) for j in jobs]: f.result()
