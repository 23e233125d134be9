"""Concurrency: no data races, and verdicts and proofs do not depend on the number of workers or on their scheduling."""
from pok import *
import copy
RULE = 'an evaluation is one verification/proof run under a given number of workers and schedule perturbation, or one instrumented (race detector) run; distinct = (size, workers, perturbation, workload)'

def base_proof(bits, rng, start=None):
    st = Statement(bits, start or enc2(bits, 6), rng.u64() >> 8, n=2); sl = [Slot.honest(st.inst[i % 2]) for i in range(REPS[bits])]
    return st, assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng)

def damage(bits, p, k, rng, how):
    """repetition k cannot be processed successfully / opens something else"""
    q = copy.deepcopy(p); r = q.resp[k]
    if how == 'order': r.chain[rng.below(len(r.chain))] = enc2(bits, 1)
    elif how == 'random': r.chain[rng.below(len(r.chain))] = rng.fp2(bits)
    elif how == 'hash': r.a = bytes([r.a[0] ^ 1]) + r.a[1:]
    return q

def t_verdicts(c, bits, path, seed, threads, jit, positions):
    rng = Rng('P09', seed, bits, threads, jit); st, p = base_proof(bits, rng); t = dump(p); rep = {'bits': bits, 'threads': threads, 'jitter': jit}
    s = PSrv(bits, path, timeout=600, POIK_THREADS=threads, **({'JITTER': jit} if jit else {}), **({'PROGRESS': 1} if threads % 2 else {}))
    lab = (bits, threads, jit)
    try:
        ok, v, lg = s.verify_logged(t)
        c.expect(ok and v, 'verdict', lab + ('honest',), 'valid proof refused with %d workers, jitter %d (p%d)' % (threads, jit, bits), 'schedule', dict(rep, proof=t.decode()))
        # exactly-once processing: every opening is hashed exactly once
        if lg and v:
            want = sorted([x.a for x in p.resp if x.tag != RIGHT] + [x.b for x in p.resp if x.tag != LEFT]); got = sorted(i[1:1 + HIDE[bits]] for i, _ in lg if i[:1] == b'\2')
            if want == got: c.event('exactly once', lab, len(want))
            elif len(got) < len(want): c.note('not every opening is seen at the hash seam; exactly-once processing is not monitored')
            else: c.note('openings hashed more than once')
        r = s.call('W', t); c.expect(r[2:] == t and r[1] == 1, 'purity', lab, 'verification modifies the proof object or is not repeatable (p%d, %d workers)' % (bits, threads), 'schedule', dict(rep, proof=t.decode()))
        for k in positions:
            for how in ('order', 'random', 'hash'):
                if how == 'hash' and k != positions[0] or how == 'random' and k != positions[-1]: continue
                q = damage(bits, p, k % REPS[bits], rng, how); x = dump(q)
                s.verify(t) if k == positions[0] and how == 'order' else None       # stale state of an accepted run must not help the next one
                ok, v = s.verify(x)
                c.expect(not v, 'verdict', lab + (k, how), 'proof with broken repetition %d (%s) accepted with %d workers, jitter %d (p%d)' % (k, how, threads, jit, bits), 'schedule', dict(rep, proof=x.decode(), before=t.decode()))
        if bits == 434 and threads > 1:
            r = s.call('C', bytes([4]) + t); c.expect(r == bytes([1] * 4), 'concurrent callers', lab, 'concurrent Verify/Generate calls return %s (expected all successful)' % list(r), 'schedule', dict(rep, proof=t.decode()))
            x = dump(damage(bits, p, 0, rng, 'order')); r = s.call('C', bytes([4]) + x); c.expect(r == bytes([0, 1, 0, 1]), 'concurrent callers', lab + ('bad',), 'concurrent Verify/Generate calls return %s (expected 0,1,0,1)' % list(r), 'schedule', dict(rep, proof=x.decode()))
    except Crash as e: c.violation('no verdict with %d workers, jitter %d (p%d): %s %s' % (threads, jit, bits, e.why, e.err[-300:]), 'schedule', dict(rep, stderr=e.err[:4000]))
    s.close(); log('verdicts', lab)

def t_prove(c, bits, path, threads, jit, seed):
    s = PSrv(bits, path, timeout=900, POIK_THREADS=threads, **({'JITTER': jit} if jit else {}), **({'PROGRESS': 1} if threads % 2 else {}))
    try: g = s.gen(enc2(bits, 0)); t = s.prove(g[2])
    except Crash as e: c.violation('prover fails with %d workers: %s %s' % (threads, e.why, e.err[-300:]), 'schedule', {'threads': threads}); return
    s.close()
    try: ok, why = ref_verify(parse(bits, t))
    except BadText as e: ok, why = False, 'text: %s' % e
    c.expect(ok, 'proof', (bits, threads, jit), 'proof made with %d workers, jitter %d is invalid (p%d): %s' % (threads, jit, bits, why), 'schedule', {'bits': bits, 'threads': threads, 'proof': t.decode('latin1')}); log('prove', bits, threads, jit)

RACE = re.compile(r'WARNING: ThreadSanitizer: ([^\n]*)')
def tsan_reports(c, what, err, rep):
    for m in RACE.finditer(err):
        blk = err[m.start():m.start() + 3000]; c.violation('%s: %s %s' % (what, m[1], ' | '.join(re.findall(r'#0 (\S+)', blk)[:2])), 'race', dict(rep, stderr=blk)); break

def t_tsan(c, bits, arch, prove, jit, seed, threads):
    path = poik_server(bits, arch, 'tsan')
    if path is None: c.note('no build with fewer repetitions'); return
    rng = Rng('P09t', seed, bits, jit); st, p = base_proof(bits, rng); t = dump(p); rep = {'bits': bits}
    if not jit:     # concurrent first use of the library by application threads (no progress indicator: it belongs to one thread)
        s = PSrv(bits, path, timeout=900, POIK_THREADS=threads)
        try: s.call('C', bytes([6]) + dump(damage(bits, p, 0, rng, 'order'))); c.event('race detector: concurrent callers', (bits, arch, threads), 6)
        except Crash as e: c.violation('concurrent callers: %s %s' % (e.why, e.err[-300:]), 'race', dict(rep, stderr=e.err[:4000]))
        else: tsan_reports(c, 'concurrent callers p%d' % bits, s.close()[1], rep)
    s = PSrv(bits, path, timeout=900, POIK_THREADS=threads, PROGRESS=1, **({'JITTER': jit} if jit else {}))
    lab = (bits, arch, jit, threads, REPS[bits])
    try:
        ok, v = s.verify(t); c.event('race detector: verify', lab + ('honest', v), REPS[bits])
        for k in (0, REPS[bits] // 2): s.verify(dump(damage(bits, p, k, rng, 'order'))); c.event('race detector: verify', lab + ('bad', k))
        if prove: g = s.gen(st.E1); s.prove(g[2]); c.event('race detector: prove', lab, REPS[bits])
    except Crash as e: c.violation('race-detector run does not finish (p%d): %s %s' % (bits, e.why, e.err[-400:]), 'race', dict(rep, stderr=e.err[:4000]))
    else:
        rc, err = s.close(); tsan_reports(c, 'p%d %s workers=%s' % (bits, arch, threads), err, rep)
    log('tsan', lab)

def t_torn(c, bits, threads, jit, seed):
    """race detector with delays around each single atomic access: work must still be handed out exactly once"""
    path = poik_server(bits, 'fast', 'tsan', atomjit=True) if bits is not None else None
    if path is None: c.note('no build with fewer repetitions'); return
    rng = Rng('P09a', seed, bits, jit); st, p = base_proof(bits, rng); t = dump(p); rep = {'bits': int(bits), 'threads': threads, 'delay': jit}; lab = (int(bits), threads, jit, REPS[bits])
    s = PSrv(bits, path, timeout=600, POIK_THREADS=threads, ATOMJIT=jit, **({'PROGRESS': 1} if threads % 2 else {}))
    try:
        ok, v = s.verify(t); c.expect(ok and v, 'torn atomics: verify', lab, 'valid proof refused with %d workers and delayed atomic accesses (p%d)' % (threads, bits), 'schedule', rep)
        for k in (0, REPS[bits] - 1):
            ok, v = s.verify(dump(damage(bits, p, k, rng, 'order'))); c.expect(not v, 'torn atomics: verify', lab + (k,), 'proof with broken repetition %d accepted with %d workers and delayed atomic accesses (p%d)' % (k, threads, bits), 'schedule', rep)
        g = s.gen(st.E1); q = s.prove(g[2])
        try: ok, why = ref_verify(parse(bits, q))
        except BadText as e: ok, why = False, 'text: %s' % e
        c.expect(ok, 'torn atomics: prove', lab, 'proof made with %d workers and delayed atomic accesses is invalid (p%d): %s' % (threads, bits, why), 'schedule', dict(rep, proof=q.decode('latin1')))
    except Crash as e: c.violation('run with delayed atomic accesses does not finish (p%d): %s %s' % (bits, e.why, e.err[-400:]), 'race', dict(rep, stderr=e.err[:4000]))
    else: rc, err = s.close(); tsan_reports(c, 'p%d workers=%d, delayed atomic accesses' % (bits, threads), err, rep)
    log('torn', lab)

def t_tsan_cli(c, bits):
    """the programs themselves (progress indicator active)"""
    v = cli(bits, 'verify', 'fast', 'tsan'); rng = Rng('P09c', bits); st, p = base_proof(bits, rng)
    for nm, x in (('honest', dump(p)), ('bad', dump(damage(bits, p, 30, rng, 'order')))):
        r = subprocess.run([v], input=x, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=900); tsan_reports(c, 'verify_%d' % bits, r.stderr.decode('latin1'), {'bits': bits, 'input': nm}); c.event('race detector: program', (bits, nm))
    log('tsan program')

def main(c):
    refm.load(); T = c.thorough
    paths = dict(zip(SIZES, build_all([(lambda b=b: poik_server(b)) for b in SIZES])))
    c.assumptions = ['the progress indicator is set before the library is used and by one thread only', 'assembly leaves are not instrumented by the race detector; they touch only the operands passed to them']
    jobs = []
    if not T:
        jobs += [lambda: t_tsan(c, 434, 'fast', True, 0, c.seed, 8), lambda: t_tsan_cli(c, 434)]
        jobs += [lambda b=b, r=r, th=th, jit=jit: t_tsan(c, small(b, r), 'fast', True, jit, c.seed, th) for b, r, th, jit in ((434, 6, 20, 0), (503, 12, 5, 300), (610, 8, 3, 0), (751, 6, 9, 2000))]
        jobs += [lambda b=b, r=r, th=th, jit=jit: t_torn(c, small(b, r), th, jit, c.seed) for b, r, th, jit in ((434, 12, 8, 3000), (434, 6, 5, 20000), (751, 6, 4, 5000))]
        for th, jit in ((1, 0), (2, 2000), (7, 500), (16, 0), (64, 3000), (300, 200)): jobs.append(lambda th=th, jit=jit: t_verdicts(c, 434, paths[434], c.seed, th, jit, [0, th % 219, 218]))
        jobs += [lambda: t_verdicts(c, 503, paths[503], c.seed, 3, 800, [0, 5]), lambda: t_verdicts(c, 610, paths[610], c.seed, 9, 0, [0]), lambda: t_verdicts(c, 751, paths[751], c.seed, 13, 100, [0])]
        jobs += [lambda: t_prove(c, 434, paths[434], 3, 1000, c.seed), lambda: t_prove(c, 434, paths[434], 250, 0, c.seed)]
    else:
        for b in SIZES:
            jobs += [lambda b=b: t_tsan(c, b, 'fast', True, 0, c.seed, 8), lambda b=b: t_tsan(c, b, 'fast', b <= 503, 700, c.seed, 24), lambda b=b: t_tsan_cli(c, b)]
            jobs += [lambda b=b, r=r, th=th, jit=jit: t_torn(c, small(b, r), th, jit, c.seed) for r, th, jit in ((6, 2, 1000), (6, 8, 20000), (12, 16, 3000), (48, 5, 500), (48, 32, 4000))]
            for th in (1, 2, 3, 5, 8, 16, 31, 64, 200, 500):
                for jit in (0, 200, 5000): jobs.append(lambda b=b, th=th, jit=jit: t_verdicts(c, b, paths[b], c.seed, th, jit, [0, 1, th % 219, 100, 217, 218]))
            for th in (1, 2, 5, 17, 400): jobs.append(lambda b=b, th=th: t_prove(c, b, paths[b], th, 500 * (th % 3), c.seed))
        jobs.append(lambda: t_tsan(c, 434, 'generic', True, 0, c.seed, 8))
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(j) for j in jobs]: f.result()
