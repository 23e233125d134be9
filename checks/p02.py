"""Soundness of the isogeny chains: only cyclic chains of exact degree on the right curves are accepted."""
from pok import *
RULE = 'an evaluation is one cheating proof (adapted to what the verifier computes) or its honest control; distinct = (size, build, attack, response kind, repetition)'

def run(c, bits, path, label, steps_b, steps_a, reps, seed, limit=None):
    rng = Rng('P02', seed, bits, label)
    start = refm.mkchain(bits, 2, enc2(bits, 6), 1, rng.u64() >> 8)[1][-1]
    st = Statement(bits, start, rng.u64() >> 40, n=3)
    srv = PSrv(bits, path, timeout=300, POIK_THREADS=2)
    F = Forger(c, srv, st, rng, label)
    # control: the same machinery with nothing wrong is accepted, so rejections below are due to the defect
    pf = assemble(bits, st.E0, st.E1, st.j0, st.j1, F.slots(), rng)
    ctl = srv.verify(dump(pf))
    c.event('control', (bits, label))
    if ctl != (True, True):
        c.note('control proof rejected at p%d (%s): completeness is checked elsewhere; forgeries are uninformative there' % (bits, label))
    todo = []
    for tag, l, A, n, steps in ((LEFT, 3, st.E0, HEIGHT, steps_b), (RIGHT, 3, st.E1, HEIGHT, steps_b)):
        todo += [(tag, nm, xs, j, None) for nm, xs, j in bad_chains(bits, l, A, n, rng, steps)]
    E = refm.mkchain(bits, 2, enc2(bits, 6), 3, rng.u64() >> 8)[1][-1]
    todo += [(BOTTOM, nm, xs, j, E) for nm, xs, j in bad_chains(bits, 2, E, WIDTH, rng, steps_a)]
    # responses swapped between the two sides, and a middle curve that is not where the other side ends
    i0 = st.inst[0]
    todo += [(LEFT, 'right chain offered as left', i0.right, i0.j3, None), (RIGHT, 'left chain offered as right', i0.left, i0.j2, None)]
    n = 0
    for tag, nm, xs, j, E_ in todo:
        F.attack(nm, tag, xs, j, reps[n % len(reps)], E_); n += 1
    # middle curve that is no supersingular curve of the right order
    for nm, A in (('singular middle curve A=2', enc2(bits, 2)), ('singular middle curve A=-2', enc2(bits, -2)), ('ordinary middle curve', rng.fp2(bits)), ('ordinary middle curve A=5', enc2(bits, 5))):
        xs = [rng.fp2(bits) for _ in range(WIDTH)]
        F.attack(nm, BOTTOM, xs, st.j1, 0, A, j2=refm.j(bits, A)); n += 1
        F.attack(nm + ', low-order kernels', BOTTOM, [enc2(bits, 1)] + xs[1:], st.j1, 0, A, j2=refm.j(bits, A)); n += 1
    c.extra.setdefault('adaptive_rounds', {})['p%d %s' % (bits, label)] = F.learned
    c.extra.setdefault('commitment_inputs_observed', {})['p%d %s' % (bits, label)] = F.seam
    srv.close(); log(bits, label, n, 'attacks')

def main(c):
    refm.load(); T = c.thorough
    kinds = [(b, 'fast') for b in SIZES] + [(434, 'generic')] + ([(b, 'generic') for b in SIZES[1:]] if T else [])
    paths = build_all([(lambda b=b, k=k: poik_server(b, k)) for b, k in kinds])
    log('built')
    for rnd in range(6 if T else 1):
        jobs = []
        for (b, k), p in zip(kinds, paths):
            full = T or b == 434 and k == 'fast'
            sb = range(HEIGHT) if full else (1, HEIGHT - 1) if k == 'fast' and b < 751 else (HEIGHT - 1,)
            sa = range(WIDTH) if full else (1, WIDTH - 1) if k == 'fast' else (WIDTH - 1,)
            reps = (0,) * 37 + (REPS[b] - 1,) + (0,) * 38 + (REPS[b] // 2,) if full else (0,) * 60 + (REPS[b] - 1,)
            jobs.append(lambda b=b, k=k, p=p, sb=sb, sa=sa, reps=reps: run(c, b, p, k, sb, sa, reps, c.seed * 1000 + rnd))
        with cf.ThreadPoolExecutor(5) as ex:
            for f in [ex.submit(j) for j in jobs]: f.result()
        if c.elapsed() > 3000: break
