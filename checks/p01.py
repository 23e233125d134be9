"""Completeness and interoperability of honest proofs."""
from pok import *
RULE = 'an execution is a full prove (or reference-built honest proof) + verification; distinct = (size, build, threads, start curve, direction)'

def one(c, mk, bits, name, A, label, cross=(), full=True):
    srv = mk()
    g = srv.gen(A)
    if not c.expect(g is not None, 'generate', (bits, label, name), 'prover refuses valid start curve %s (p%d, %s)' % (name, bits, label), replay={'A': A}): return
    txt = srv.prove(g[2])
    ident = (bits, label, name)
    rep = {'bits': bits, 'start': A, 'secret': g[2], 'proof': txt.decode('latin1')}
    for lab, v in (('self', srv),) + tuple(cross):
        ok = v.verify(txt)
        c.expect(ok == (True, True), 'verify-real', ident + (lab,), 'honest proof rejected (%s) by the %s verifier: p%d %s %s' % (ok, lab, bits, label, name), replay=rep)
    srv.close()
    try: p = parse(bits, txt)
    except BadText as e:
        c.expect(False, 'format', ident, 'honest proof text does not follow the documented format: %s' % e, replay=rep); return
    c.event('format', ident)
    if not full: return
    ok, why = ref_verify(p)
    c.expect(ok, 'verify-reference', ident, 'honest proof rejected by the independent verifier (p%d %s %s): %s' % (bits, label, name, why), replay=rep)
    log('proof', ident)

def main(c):
    refm.load(); T = c.thorough; seed = c.seed
    paths = build_all([(lambda b=b: poik_server(b)) for b in SIZES] + [lambda: poik_server(434, 'generic'), lambda: poik_server(434, 'fast', 'seq')] +
                      ([(lambda b=b: poik_server(b, 'generic')) for b in SIZES[1:]] if T else []))
    log('built')
    sk = [(b, a, o, l) for b in SIZES for a, o, l in ((('fast', 'rel', 'small'), ('generic', 'rel', 'small-generic'), ('fast', 'seq', 'small-seq')) if b == 434 or T else (('fast', 'rel', 'small'),))]
    sp = build_all([(lambda b=b, a=a, o=o: poik_server(small(b, 8), a, o)) for b, a, o, _ in sk])
    P_ = {(b, 'fast'): paths[i] for i, b in enumerate(SIZES)}; P_[434, 'generic'], P_[434, 'seq'] = paths[4], paths[5]
    if T: P_.update({(b, 'generic'): paths[6 + i] for i, b in enumerate(SIZES[1:])})
    if None in sp: c.note('no build with fewer repetitions')
    else: P_.update({(b, l): x for (b, _, _, l), x in zip(sk, sp)})
    def mk(b, kind='fast', **kw): return lambda: PSrv(b, P_[b, kind], timeout=3000, **kw)
    tasks = []
    # every valid curve must be usable as a start point (all sizes, all kinds of models)
    def t_gen(b):
        s = mk(b)(); rng = Rng('gen', seed, b)
        for name, A in start_curves(b, rng, 6 if T else 2):
            for _ in range(5 if T else 1):
                c.expect(s.gen(A) is not None, 'generate', (b, name), 'prover refuses valid start curve %s at p%d' % (name, b), replay={'A': A})
        s.close()
    # independent prover -> real verifier
    def t_ref(b, kinds, sel):
        rng = Rng('ref', seed, b, sel); cs = start_curves(b, rng, 1); name, A = cs[sel % len(cs)]
        st = Statement(b, A, rng.u64() >> 32, n=3)
        pf = assemble(b, st.E0, st.E1, st.j0, st.j1, [Slot.honest(st.inst[i % 3]) for i in range(REPS[b])], rng)
        t = dump(pf)
        for k in kinds:
            s = mk(b, k)()
            c.expect(s.verify(t) == (True, True), 'ref-prover', (b, name, k), 'proof by the independent prover rejected: p%d %s %s' % (b, name, k), replay={'bits': b, 'proof': t.decode()})
            s.close()
    def t_prove(b, kind, th, sel, cross=(), full=True):
        rng = Rng('prove', seed, b, sel); cs = start_curves(b, rng, 1); name, A = cs[sel % len(cs)]
        xs = tuple((k, mk(b, k)()) for k in cross)
        one(c, mk(b, kind, **({'POIK_THREADS': th} if th else {})), b, name, A, '%s,threads=%s' % (kind, th), xs, full or T)
        for _, x in xs: x.close()
    # many complete proofs, all start curves, libraries in which a proof has 8 repetitions
    def t_small(b, n, kinds):
        rng = Rng('small', seed, b, n); cs = start_curves(b, rng, 2) + [('prime field %d' % k, A) for k, A in enumerate(fp_curves(b, rng, 3))]
        s = PSrv(b, P_[b, 'small'], timeout=900); o = [(k, PSrv(b, P_[b, k], timeout=900)) for k in kinds if P_.get((b, k))]; prev = None
        for i in range(n):
            name, A = ('chained', prev) if prev and i % 3 == 2 else cs[rng.below(len(cs))]
            if name != 'chained' and rng.below(2): k = rng.below(6); name, A = name + ' model %d' % k, refm.model(b, A, k)
            g = s.gen(A); ident = (b, '8 repetitions', name, i)
            if not c.expect(g is not None, 'generate', ident, 'prover refuses valid start curve %s (p%d)' % (name, b), replay={'A': A}): continue
            txt = s.prove(g[2]); rep = {'bits': int(b), 'repetitions': 8, 'start': A, 'secret': g[2], 'proof': txt.decode('latin1')}
            for lab, v in [('same', s)] + o: c.expect(v.verify(txt) == (True, True), 'verify-real', ident + (lab,), 'honest proof (8 repetitions) rejected by the %s verifier: p%d %s' % (lab, b, name), replay=rep)
            try: p = parse(b, txt)
            except BadText as e: c.expect(False, 'format', ident, 'honest proof text does not follow the documented format: %s' % e, replay=rep); continue
            ok, why = ref_verify(p); c.expect(ok, 'verify-reference', ident, 'honest proof (8 repetitions) rejected by the independent verifier (p%d %s): %s' % (b, name, why), replay=rep)
            prev = p.E1
        s.close(); [x.close() for _, x in o]; log('small', b, n)
    for b in SIZES:
        b = small(b, 8)
        if (b, 'small') in P_: tasks.append(lambda b=b: t_small(b, 300 if T else {434: 24, 503: 14, 610: 8, 751: 5}[b], ('small-generic', 'small-seq')))
    # longest first
    # (the big sizes are cross-checked through the independent prover below; their own proofs by the real verifier and the format monitor)
    tasks += [lambda: t_prove(751, 'fast', None, 8, full=False)]
    if T: tasks += [lambda: t_prove(610, 'fast', 5, 7, full=False), lambda: t_prove(503, 'fast', None, 0)]
    tasks += [lambda: t_prove(434, 'fast', 3, 9, ('generic',)), lambda: t_prove(434, 'fast', 40, 5)]
    for b in SIZES: tasks += [lambda b=b: t_gen(b), lambda b=b: t_ref(b, ('fast', 'generic', 'seq') if b == 434 else ('fast',), b)]
    if T:
        tasks.append(lambda: t_prove(434, 'generic', None, 6, ('fast', 'seq')))
        for i, th in enumerate((1, 2, 4, 7, 13, 64, 200, 219, 220, 300)): tasks.append(lambda i=i, th=th: t_prove(434, 'fast', th, i))
        for b in SIZES: tasks += [lambda b=b, k=k: t_ref(b, ('fast', 'generic'), k) for k in range(10)] + [lambda b=b: t_prove(b, 'generic', None, 3, ('fast',))]
        tasks += [lambda b=b, k=k: t_prove(b, 'fast', None, k) for b in (503, 610) for k in (0, 2, 4, 5)] + [lambda k=k: t_prove(751, 'fast', None, k) for k in (0, 5)]
        tasks.append(lambda: t_prove(434, 'seq', None, 1, ('fast',)))
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(t) for t in tasks]: f.result()
