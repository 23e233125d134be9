"""Zero-knowledge hygiene: what the prover reveals is fresh, masked and never openable with revealed or guessable values."""
from pok import *
RULE = 'an evaluation is one monitored revealed value or relation between revealed values of real proofs; distinct = (size, relation, position)'

def openings(p):
    for i, r in enumerate(p.resp):
        if r.tag in (LEFT, BOTTOM): yield (i, 'r2', r.a)
        if r.tag in (RIGHT, BOTTOM): yield (i, 'r3', r.b)
def kernels(p):
    for i, r in enumerate(p.resp):
        for k, x in enumerate(r.chain): yield (i, k, x)

def hygiene(c, bits, label, p, rep):
    op = list(openings(p)); D = HIDE[bits]; ident = (bits, label)
    seen = {}
    for i, nm, r in op:
        for o in range(0, D, 8):
            b = r[o:o + 8]
            if b in seen: c.violation('hiding strings share material: repetition %d %s and %s (p%d %s)' % (i, nm, seen[b], bits, label), 'hiding', rep)
            seen[b] = (i, nm, o)
        c.event('hiding string', ident + (r.hex()[:16],))
        c.expect(len(set(r)) >= D // 3, 'hiding string bytes', ident + (i, nm), 'hiding string of repetition %d has hardly any entropy: %s' % (i, r.hex()), 'hiding', rep)
    for pos in range(D):
        n = len({r[pos] for _, _, r in op})
        c.expect(n > 50, 'hiding byte position', ident + (pos,), 'byte %d of the hiding strings takes only %d values over %d strings (p%d %s)' % (pos, n, len(op), bits, label), 'hiding', rep)
    hs = [r.b for r in p.resp if r.tag == LEFT] + [r.a for r in p.resp if r.tag == RIGHT]
    c.expect(len(set(hs)) == len(hs), 'commitments distinct', ident, 'two repetitions carry the same commitment', 'commit', rep)
    ks = [x for _, _, x in kernels(p)]
    c.expect(len(set(ks)) == len(ks), 'kernels distinct', ident, 'two revealed kernel points coincide (p%d %s)' % (bits, label), 'kernels', rep)
    es = [r.E2 for r in p.resp if r.tag == BOTTOM]
    c.expect(len(set(es)) == len(es), 'middle curves distinct', ident, 'two repetitions use the same middle curve (p%d %s)' % (bits, label), 'E2', rep)
    for i, r in enumerate(p.resp):
        if r.tag == BOTTOM: c.expect(refm.canon(bits, r.E2) == r.E2, 'middle curve canonical', ident + (i,), 'middle curve of repetition %d is not in canonical form: its model depends on the secret path' % i, 'E2canon', rep)
    # first steps of the random walks spread over all directions
    for tag, E in ((LEFT, p.E0), (RIGHT, p.E1)):
        e = E3[bits]; sub = [r.chain[0] for r in p.resp if r.tag == tag]
        c1 = set(pmap(lambda x: refm.mul(bits, E, x, 3, e - 1), sub))
        c.expect(len(sub) < 50 or len(c1 - {None}) == 4, 'directions', ident + (tag,), 'random walks (tag %d) use only %d of the 4 directions over %d repetitions (p%d %s)' % (tag, len(c1), len(sub), bits, label), 'directions', rep)

def disjoint(c, ident, p, q, rep):
    a = {r for _, _, r in openings(p)} | {x for _, _, x in kernels(p)} | {r.E2 for r in p.resp if r.E2}
    b = {r for _, _, r in openings(q)} | {x for _, _, x in kernels(q)} | {r.E2 for r in q.resp if r.E2}
    c.expect(not a & b, 'proofs disjoint', ident, 'two proofs for the same secret reveal a common value', 'disjoint', rep)

def weak_open_left(c, bits, label, p, g, reps, rep, pool):
    """the unopened commitment of LEFT repetitions must not open with a guessable string"""
    As, xs = canon_secret(bits, g)
    def one(i):
        r = p.resp[i]; s = refm.instance(bits, As, xs, 0, given=r.chain)
        if s is None: c.note('square for repetition %d not reconstructible' % i); return
        cand = [bytes(HIDE[bits]), r.a] + pool
        bad = [k for k in cand if commit(bits, k, s.j3) == r.b] or hashlib.shake_256(b'\2' + s.j3).digest(HASH[bits]) == r.b
        c.expect(not bad, 'unopened commitment', (bits, label, i), 'the unopened commitment of repetition %d opens with a guessable or revealed string (p%d %s)' % (i, bits, label), 'weak-commit', rep)
    pmap(one, reps)

def t_real(c, bits, path, seed, nproofs):
    rng = Rng('P06', seed, bits); s = PSrv(bits, path, timeout=1200)
    A = refm.mkchain(bits, 2, enc2(bits, 6), 1, rng.u64() >> 8)[1][-1]
    g = s.gen(A); ps = []
    for k in range(nproofs):
        txt = s.prove(g[2])
        try: p = parse(bits, txt)
        except BadText as e: c.note('format: %s' % e); return
        rep = {'bits': bits, 'secret': g[2], 'proof': txt.decode()}
        hygiene(c, bits, 'real%d' % k, p, rep)
        L = [i for i, r in enumerate(p.resp) if r.tag == LEFT][:4 if not c.thorough else 40]
        weak_open_left(c, bits, 'real%d' % k, p, g, L, rep, [r for _, _, r in openings(p)])
        for q in ps: disjoint(c, (bits, k), p, q, rep)
        ps.append(p)
    s.close(); log('real', bits)

def t_directions(c, bits, path, n, seed):
    """secret walks spread over all directions at every step"""
    rng = Rng('P06d', seed, bits); s = PSrv(bits, path, timeout=300); e = E2[bits]
    A = refm.mkchain(bits, 2, enc2(bits, 6), 1, rng.u64() >> 8)[1][-1]
    first, second, later = set(), set(), [set() for _ in range(WIDTH)]
    for _ in range(n):
        g = s.gen(A)
        if g is None: return
        first.add(refm.mul(bits, g[0][0], g[1][0], 2, e - 1)); second.add(refm.mul(bits, g[0][0], g[1][0], 2, e - 2))
        for i in range(1, WIDTH):
            # which of the two forward directions: compare with the other order-2 point
            E, T = g[0][i], refm.mul(bits, g[0][i], g[1][i], 2, e - 1)
            cE = refm.canon(bits, E)
            re_, im = dec2(bits, T or bytes(2 * BY[bits]))
            if T and T != bytes(2 * BY[bits]):
                inv = refm.fp2(bits, '/', enc2(bits, 1), T); later[i].add(dec2(bits, T) < dec2(bits, inv))   # roots of x^2+Ax+1 are inverse to each other
        c.event('walk direction', (bits, g[1][0].hex()[:16]))
    c.expect(len(first) == 3 and len(second) >= 4, 'first directions', (bits,), 'secret walks take only %d of 3 (%d of 6) first directions over %d runs (p%d)' % (len(first), len(second), n, bits), 'directions', {'bits': bits, 'A': A})
    for i in range(1, WIDTH): c.expect(len(later[i]) == 2 or n < 40, 'later directions', (bits, i), 'secret walks always take the same direction at step %d (p%d)' % (i, bits), 'directions', {'bits': bits})
    s.close(); log('directions', bits)

def t_masks(c, bits, path, seed, nreps):
    """three runs of the real prover on one secret with the same walks but different hiding/masking randomness:
    the same repetition is answered differently, so masked values can be compared with what they mask"""
    rng = Rng('P06m', seed, bits); fe = 8 * ((BY[bits] + 7) // 8)
    A = refm.mkchain(bits, 2, enc2(bits, 6), 1, rng.u64() >> 8)[1][-1]
    s0 = PSrv(bits, path, timeout=900); s0.call('S', struct.pack('<QQI', rng.u64(), 1, 0)); g = s0.gen(A); s0.close()
    walk = rng.u64()
    def runit(k):
        s = PSrv(bits, path, timeout=900); s.call('S', struct.pack('<QQI', walk, walk ^ (k + 1), fe)); t = s.prove(g[2]); s.close(); return t
    try: ps = [parse(bits, t) for t in pmap(runit, range(3))]
    except BadText as e: c.note('format: %s' % e); return
    log('three controlled proofs')
    same = diff = 0
    for i in range(REPS[bits]):
        for a in range(3):
            for b in range(a):
                for tag in (LEFT, RIGHT):
                    if ps[a].resp[i].tag == tag == ps[b].resp[i].tag:
                        if ps[a].resp[i].chain == ps[b].resp[i].chain: same += 1
                        else: diff += 1
    c.extra['controlled_walks'] = {'same': same, 'different': diff}
    if diff or not same:
        c.note('the walks of the controlled runs differ (randomness is drawn differently from the tree this seam was written for): masking is not monitored'); return
    As, xs = canon_secret(bits, g); rep = {'bits': bits, 'secret': g[2], 'proofs': [dump(p).decode() for p in ps]}
    pairs = [(i, a, b) for i in range(REPS[bits]) for a in range(3) for b in range(3) if ps[a].resp[i].tag == LEFT and ps[b].resp[i].tag == BOTTOM]
    pairs = list({(i, b): (i, a, b) for i, a, b in pairs}.values())     # one reading of each masked response
    masks = []
    def one(t):
        i, a, b = t; s = refm.instance(bits, As, xs, 0, given=ps[a].resp[i].chain); q = ps[b].resp[i]
        if s is None or s.E2 != q.E2: return None
        E, out = s.E2, []
        for k in range(WIDTH):
            if k: _, E, _ = refm.isog(bits, 2, E, s.bottom[k - 1])
            out.append((i, k, refm.dlog2(bits, E, s.bottom[k], q.chain[k]), q.chain[k] == s.bottom[k]))
        return out
    for o in pmap(one, pairs[:nreps]):
        if o is None: c.note('middle curve not reproduced'); continue
        for i, k, m, eq in o:
            if m is None: c.note('masked kernel outside the group (completeness is checked elsewhere)'); continue
            c.expect(not eq and m not in (1, (1 << E2[bits]) - 1), 'mask', (bits, i, k), 'middle response of repetition %d reveals the pushed secret kernel of step %d unmasked (p%d)' % (i, k, bits), 'mask', rep)
            masks.append(min(m, (1 << E2[bits]) - m))      # abscissas know the mask up to sign only
    if len(masks) >= 40:
        e = E2[bits]
        c.expect(len(set(masks)) == len(masks), 'masks distinct', (bits,), 'masks are reused between steps or repetitions', 'mask', rep)
        const = [b for b in range(3, e - 2) if len({(m >> b) & 1 for m in masks}) == 1]
        c.expect(not const, 'mask bits', (bits, len(masks)), 'bits %s of the masks are constant over %d masks' % (const[:8], len(masks)), 'mask', rep)
    # the masks must depend on fresh randomness, and openings of one run must not be implied by another
    for i in range(REPS[bits]):
        for a in range(3):
            for b in range(a):
                if ps[a].resp[i].tag == BOTTOM == ps[b].resp[i].tag:
                    eqs = [k for k in range(WIDTH) if ps[a].resp[i].chain[k] == ps[b].resp[i].chain[k]]
                    c.expect(not eqs, 'mask fresh', (bits, i, a, b), 'masked kernels of repetition %d do not depend on fresh randomness (steps %s)' % (i, eqs), 'mask', rep)
    # unopened commitment of RIGHT repetitions
    for i, a, b in [(i, a, b) for i in range(REPS[bits]) for a in range(3) for b in range(3) if ps[a].resp[i].tag == RIGHT and ps[b].resp[i].tag == LEFT][:6]:
        j2 = refm.chain(bits, 3, ps[b].E0, ps[b].resp[i].chain)[2]; r = ps[a].resp[i]
        bad = [k for k in [bytes(HIDE[bits]), r.b] + [x for _, _, x in openings(ps[a])] if commit(bits, k, j2) == r.a] or hashlib.shake_256(b'\2' + j2).digest(HASH[bits]) == r.a
        c.expect(not bad, 'unopened commitment', (bits, 'right', i), 'the unopened commitment of repetition %d opens with a guessable or revealed string' % i, 'weak-commit', rep)
    c.extra['masks_recovered'] = len(masks); log('masks', len(masks))

def main(c):
    refm.load(); T = c.thorough
    paths = build_all([(lambda b=b: poik_server(b)) for b in SIZES] + [lambda: poik_server(434, 'fast', 'seq', 'stub')] + ([lambda: poik_server(503, 'fast', 'seq', 'stub')] if T else [])); log('built')
    jobs = [lambda: t_masks(c, 434, paths[4], c.seed, 11 if not T else 40)] + [lambda i=i, b=b: t_directions(c, b, paths[i], {434: 60, 503: 60, 610: 45, 751: 45}[b], c.seed) for i, b in enumerate(SIZES)]
    jobs += [lambda: t_real(c, 434, paths[0], c.seed, 2), lambda: t_real(c, 503, paths[1], c.seed, 1)]
    if T: jobs += [lambda: t_masks(c, 503, paths[5], c.seed, 40)] + [lambda b=b, i=i, k=k: t_real(c, b, paths[i], c.seed * 100 + k, 2) for i, b in enumerate(SIZES) for k in range(1, 4)]
    with cf.ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(j) for j in jobs]: f.result()
