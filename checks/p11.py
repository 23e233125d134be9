"""Random bytes: every requested byte comes fresh from the system source, exactly once, in order, whatever the system calls do; concurrent callers never share bytes."""
from vf import *
RULE = 'an evaluation is one request to the real random-byte function with scripted or real system calls below it; distinct = (script, seed, size)'
W = ['-Wl,--wrap=' + x for x in ('open', 'open64', 'read', 'getrandom', 'getentropy', 'sleep', 'usleep', 'nanosleep')]

def build(opt): return link('rngmon_' + opt, [(os.path.join(SRC, 'random', 'random.c'), OPT[opt] + BASE + ARCHF['fast'])], [os.path.join(HARN, 'rngmon.c')], opt, ['-DNOWRAP'] if opt == 'tsan' else [], W if opt != 'tsan' else [])

def scripted(c, exe, mode, seed):
    try: r = subprocess.run([exe, str(mode), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env())
    except subprocess.TimeoutExpired: c.violation('randombytes() hangs although the system calls deliver (script %d, seed %d)' % (mode, seed), 'hang', {'mode': mode, 'seed': seed}); return
    rep = {'mode': mode, 'seed': seed, 'output': r.stdout.decode()[:4000], 'stderr': r.stderr.decode()[:1000]}
    if r.returncode: c.violation('monitor ended with %d (script %d, seed %d): %s' % (r.returncode, mode, seed, r.stderr.decode()[-300:]), 'crash', rep); return
    calls, stream, reads = [], b'', 0
    for ln in r.stdout.decode().split('\n'):
        w = ln.split(' ')
        if w[0] == 'C': calls.append((int(w[1]), int(w[2]), int(w[3]), bytes.fromhex(w[4])))
        if w[0] == 'S': reads = int(w[2]); stream = bytes.fromhex(w[3])
        if w[0] == 'G': c.event('kept waiting for entropy', (mode, seed, w[1]))
    seam = reads > 0
    if not seam and mode != 4: c.note('the system calls below randombytes() are not the monitored ones: provenance of bytes is not checked') if mode == 0 else None
    used = []; pos = 0
    for k, (ret, n, can, out) in enumerate(calls):
        ident = (mode, seed, k, n)
        c.expect(can, 'bounds', ident, 'randombytes() writes outside the %d bytes requested (script %d)' % (n, mode), 'bounds', rep)
        if ret: c.event('reported failure', ident); continue
        if mode == 4 and seam: c.violation('randombytes() reports success for %d bytes although every read failed' % n, 'success', rep); continue
        if mode == 4 or not seam: continue
        if stream[pos:pos + n] == out: pos += n; c.event('provenance', ident); continue
        # other reading strategies are fine as long as the bytes are delivered ones and used once
        i = stream.find(out); ok = i >= 0 and all(i + n <= a or i >= b for a, b in used); 
        if n >= 8: c.expect(ok, 'provenance', ident, 'request of %d bytes returned as success is not made of fresh bytes delivered by the system (script %d, seed %d): %s' % (n, mode, seed, out.hex()[:80]), 'provenance', rep)
        if ok: used.append((i, i + n))

def main(c):
    T = c.thorough; exe, asan = build_all([lambda: build('rel'), lambda: build('asan')])
    try: tsan = build('tsan')
    except BuildError: tsan = None
    jobs = [(m, s) for m in (0, 1, 2, 3, 4, 5) for s in range(c.seed, c.seed + (2000 if T else 300))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda a: scripted(c, exe, *a), jobs)); list(ex.map(lambda a: scripted(c, asan, *a), jobs[::12]))
    log('scripted')
    for e, lab in ((exe, 'rel'), (asan, 'asan')):
        r = subprocess.run([e, '11', '0'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=120); rows = [l.split() for l in r.stdout.decode().split('\n') if l]
        c.expect(r.returncode == 0, 'device', (lab,), 'randombytes() fails on the real device: %s' % r.stderr.decode()[-300:], 'device')
        for w in rows:
            if w[0] == 'R': c.expect(w[2:] == ['0', '0', '0'], 'device', (lab, w[1]), 'randombytes(%s): return %s, outside writes %s, bytes never written %s' % tuple(w[1:]), 'device', {'row': w})
            if w[0] == 'F': c.expect(int(w[1]) <= 1, 'descriptors', (lab,), 'randombytes() leaks descriptors: %s more than before' % w[1], 'descriptors')
    for k in range(200 if T else 25):
        for e, lab in [(exe, 'rel')] + ([(tsan, 'tsan')] if tsan and k < (50 if T else 8) else []):
            r = subprocess.run([e, '10', '0'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=120); err = r.stderr.decode()
            o = re.findall(r'^O (\w+)$', r.stdout.decode(), re.M); f = re.search(r'^F (-?\d+)', r.stdout.decode(), re.M)
            c.expect('WARNING: ThreadSanitizer' not in err, 'race', (lab, k), 'data race in concurrent randombytes(): %s' % err[:400], 'race', {'stderr': err[:4000]})
            c.expect(len(o) == 3200 and len({x[i:i + 16] for x in o for i in (0, 16, 32, 48)}) == 4 * len(o), 'concurrent callers', (lab, k), 'concurrent callers received equal random bytes', 'shared', {'n': len(o)})
            if f: c.expect(int(f[1]) <= 1, 'descriptors', (lab, k, 'threads'), 'concurrent first use leaks descriptors (%s)' % f[1], 'descriptors')
    r = subprocess.run([exe, '12', '0'], stdout=subprocess.PIPE, env=env(), timeout=60); o = re.findall(rb'^O (\w+)$', r.stdout, re.M)
    c.expect(len(o) == 5 and len(set(o)) == 5, 'fork', (), 'parent and forked children receive equal random bytes', 'shared')
