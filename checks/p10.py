"""Failures are reported: a program that could not do its job never exits successfully with missing, partial or unfounded output."""
from pok import *
import resource, random
LEVEL = 'fault_enumeration'
RULE = 'an evaluation is one run of the real program with one injected fault (write cut at a byte offset, closed or full output, read error, entropy/allocation/thread failure at the n-th call); distinct = (program, size, fault, position)'

def build(bits, which, rng, arch='fast', opt='rel'):
    objs = lib_objs(bits, 'poik', arch, opt, rng=(rng == 'real'))
    h = [os.path.join(CIMPL, which + '.c'), os.path.join(HARN, 'faults.c')] + ([os.path.join(HARN, 'rng_stub.c')] if rng == 'stub' else [])
    w = ['-Wl,--wrap=' + x for x in ('Prove', 'Verify', 'malloc', 'calloc', 'pthread_create')]
    return link('flt_%s%d_%s' % (which, bits, rng), objs, h, opt, ['-I', SRC, '-D', 'POIK_BITS=%d' % bits], w)

def run1(exe, args=(), stdin=b'', stdout=None, limit=None, e=None, closed=(), timeout=600, sigpipe_ignored=False):
    """-> rc, output bytes (if to file), stderr"""
    fin = tempfile.TemporaryFile(dir=tmp()) if isinstance(stdin, bytes) else stdin
    if isinstance(stdin, bytes): fin.write(stdin); fin.seek(0)
    fout = tempfile.TemporaryFile(dir=tmp()) if stdout is None else stdout
    def pre():
        if limit is not None: signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        if sigpipe_ignored: signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        else: signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        for f in closed: os.close(f)
    p = subprocess.Popen([exe] + list(args), stdin=fin, stdout=fout, stderr=subprocess.PIPE, preexec_fn=pre, env=env(**(e or {})), restore_signals=False)
    try: _, err = p.communicate(timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired: p.kill(); p.communicate(); rc, err = 'timeout', b''
    out = b''
    if stdout is None: fout.seek(0); out = fout.read(); fout.close()
    if isinstance(stdin, bytes): fin.close()
    return rc, out, err.decode('latin1')

def closed_pipe():
    r, w = os.pipe(); os.close(r); return w

def t_output(c, bits, pexe, vexe, seed):
    """every way the output can be cut short"""
    rng = Rng('P10', seed, bits); st = Statement(bits, enc2(bits, 6), rng.u64() >> 8, n=1)
    prf = dump(assemble(bits, st.E0, st.E1, st.j0, st.j1, [Slot.honest(st.inst[0])] * REPS[bits], rng))
    pf = os.path.join(tmp(), 'ready%d.txt' % bits); open(pf, 'wb').write(prf); want_v = (t_fp2(bits, st.E0) + t_fp2(bits, st.E1)).encode()
    for prog, exe, args, inp, e, want in (('prove', pexe, ['--initial'], b'', {'FAKE_PROVE': pf}, prf), ('verify', vexe, [], prf, {'FAKE_VERIFY': 1}, want_v)):
        def verdict(fault, pos, r):
            rc, out, err = r
            complete = out == want
            c.expect(rc != 0 or complete, fault, (prog, bits, pos), '%s_%d exits 0 although its output is incomplete (%s at %s: %d of %d bytes written)' % (prog, bits, fault, pos, len(out), len(want)), 'output', {'bits': bits, 'program': prog, 'fault': fault, 'pos': pos, 'stderr': err[:500]})
            c.expect(rc != 'timeout', 'terminates', (prog, bits, fault, pos), '%s_%d hangs (%s at %s)' % (prog, bits, fault, pos), 'output')
        rc, out, err = run1(exe, args, inp, e=e)
        if rc != 0 or out != want:
            c.violation('%s_%d without any fault: exit %s, %d of %d bytes, %s' % (prog, bits, rc, len(out), len(want), err[-200:]), 'output', {'bits': bits}); return
        n = len(want)
        offs = sorted(set(range(0, n + 1)) if n < 1000 and (c.thorough or bits == 434) else {0, 1, 50, n - 1, n - 2, n - 100, n // 2, 4095, 4096, 4097, n // 4096 * 4096, n // 4096 * 4096 - 1} | {rng.below(n) for _ in range(40 if not c.thorough else 600)})
        offs = [o for o in offs if o < n]
        pmap(lambda o: verdict('output cut', o, run1(exe, args, inp, limit=o, e=e)), offs)
        with open('/dev/full', 'wb') as full: verdict('full device', '', run1(exe, args, inp, stdout=full, e=e))
        for ign in (False, True):
            w = closed_pipe(); verdict('reader gone', ign, run1(exe, args, inp, stdout=w, e=e, sigpipe_ignored=ign)); os.close(w)
        verdict('stdout closed', '', run1(exe, args, inp, stdout=subprocess.DEVNULL, e=e, closed=(1,)))
        with open(os.devnull, 'rb') as ro: verdict('stdout read-only', '', run1(exe, args, inp, stdout=ro, e=e))
    # input faults, real verification
    d = os.open(tmp(), os.O_RDONLY)
    for prog, exe, args in (('verify', vexe, []), ('prove', pexe, [])):
        for nm, kw in (('stdin is a directory', {'stdin': d}), ('stdin closed', {'stdin': subprocess.DEVNULL, 'closed': (0,)}), ('empty stdin', {})):
            rc, out, err = run1(exe, args, **kw); c.expect(rc != 0 and not out, 'input fault', (prog, bits, nm), '%s_%d exits %s with output %r when %s' % (prog, bits, rc, out[:60], nm), 'input')
    os.close(d); log('output faults', bits)

def valid_output(bits, prog, out, prf=None):
    if prog == 'verify':
        p = parse(bits, prf); return out == (t_fp2(bits, p.E0) + t_fp2(bits, p.E1)).encode()
    try: return ref_verify(parse(bits, out))[0]
    except BadText: return False

def t_resource(c, bits, pexe, vexe, seed, nth_rng, nth_thr):
    rng = Rng('P10r', seed, bits); st = Statement(bits, enc2(bits, 6), rng.u64() >> 8, n=1)
    prf = dump(assemble(bits, st.E0, st.E1, st.j0, st.j1, [Slot.honest(st.inst[0])] * REPS[bits], rng))
    jobs = []
    for k in nth_rng: jobs += [('prove', 'RNG_FAIL_AT', k), ('verify', 'RNG_FAIL_AT', k)]
    for k in nth_thr: jobs += [('prove', 'THREAD_FAIL_AT', k), ('verify', 'THREAD_FAIL_AT', k)]
    for k in (1, 2, 3): jobs += [('prove', 'MALLOC_FAIL_AT', k), ('verify', 'MALLOC_FAIL_AT', k)]
    def one(j):
        prog, what, k = j
        rc, out, err = run1(pexe if prog == 'prove' else vexe, ['--initial'] if prog == 'prove' else [], b'' if prog == 'prove' else prf, e={what: k}); hit = 'injected' in err
        if not hit: c.event('fault not reached', (prog, bits, what, k)); return
        if what == 'RNG_FAIL_AT': c.expect(rc != 0 and rc != 'timeout', 'entropy failure', (prog, bits, k), '%s_%d exits %s (%d bytes of output) although the entropy source reported failure at call %d' % (prog, bits, rc, len(out), k), 'entropy', {'bits': bits, 'k': k})
        else: c.expect(rc != 'timeout' and (rc != 0 or valid_output(bits, prog, out, prf)), 'resource failure', (prog, bits, what, k), '%s_%d exits %s with unusable output after %s=%d' % (prog, bits, rc, what, k), 'resource', {'bits': bits, 'k': k, 'what': what})
        if rc not in (0, 'timeout'): c.expect(prog == 'prove' or not out, 'no curve after failure', (prog, bits, what, k), 'verify_%d prints %r although it failed' % (bits, out[:60]), 'resource')
    with cf.ThreadPoolExecutor(3) as ex: list(ex.map(one, jobs))
    log('resource faults', bits, len(jobs))

def t_stream(c, bits, seed, n):
    """the writer itself on a stream whose k-th write fails (permanently or once): success must mean everything was handed over"""
    path = link('dumpfault%d' % bits, lib_objs(bits, 'poik', 'fast', 'rel'), [os.path.join(HARN, 'dumpfault.c')], 'rel', ['-I', SRC, '-D', 'POIK_BITS=%d' % bits])
    rng = Rng('P10s', seed, bits); from p07 import rand_proof
    t = dump(rand_proof(bits, rng)); f = os.path.join(tmp(), 'df%d.txt' % bits); open(f, 'wb').write(t)
    cuts = {0, 1, len(t) - 1}; o = 0
    for ln in t.split(b'\n')[:40]: cuts |= {o, o + len(ln)}; o += len(ln) + 1
    cuts |= {rng.below(len(t)) for _ in range(n)}
    tagpos = [m.start() for m in re.finditer(rb'(?m)^-?[01]$', t)]; cuts |= set(tagpos[:10] + tagpos[-3:])
    r = run([path, f] + [str(x) for x in sorted(cuts)])
    if r.returncode: c.note('writer harness failed: %r' % r.stderr[-200:]); return
    for ln in r.stdout.decode().split('\n'):
        w = ln.split()
        if len(w) != 6: continue
        mode, buf, cut, ok, late, got = w[0], w[1], int(w[2]), int(w[3]), int(w[4]), int(w[5])
        c.expect(not (ok and not late and got != len(t)), 'writer fault', (bits, mode, buf, cut), 'the writer reports success and the stream no error although only %d of %d bytes arrived (%s failure at byte %d, %s stream, p%d)' % (got, len(t), mode, cut, buf, bits), 'writer', {'bits': bits, 'cut': cut, 'mode': mode})
        if buf == 'unbuffered': c.expect(not (ok and got != len(t)), 'writer fault (direct)', (bits, mode, cut), 'the writer reports success although a write failed on the spot (%s failure at byte %d: %d of %d bytes, p%d)' % (mode, cut, got, len(t), bits), 'writer', {'bits': bits, 'cut': cut, 'mode': mode})
    log('stream faults', bits, len(cuts))

def main(c):
    refm.load(); T = c.thorough; sizes = SIZES if T else (434, 751)
    jobs = [(lambda b=b, w=w: build(b, w, 'real')) for b in sizes for w in ('prove', 'verify')] + [(lambda b=b, w=w: build(b, w, 'stub')) for b in ((434, 503) if T else (434,)) for w in ('prove', 'verify')]
    paths = build_all(jobs); log('built')
    for i, b in enumerate(sizes): t_output(c, b, paths[2 * i], paths[2 * i + 1], c.seed)
    base = [1, 2, 3, 5, 9, 20, 60, 150, 400, 1500, 4000] + [7000 + 150 * k for k in range(3)]
    for k, b in enumerate((434, 503) if T else (434,)):
        o = 2 * len(sizes) + 2 * k
        # call numbers reaching into every phase; the later ones sit among the response masks
        total = count_calls(paths[o]); c.extra['entropy_calls_%d' % b] = total
        late = [total - x for x in (0, 1, 7, 50, 150, 280)] if total else []
        t_resource(c, b, paths[o], paths[o + 1], c.seed, sorted(set(base[:11] + late + ([Rng('n', c.seed, i).below(max(total, 1)) + 1 for i in range(150)] if T else []))), range(1, 20) if T else (1, 2, 8, 9, 16))
    for b in sizes: t_stream(c, b, c.seed, 2000 if T else 100)

def count_calls(exe):
    """total number of entropy requests of one proof: the stub reports it at exit"""
    r = subprocess.run([exe, '--initial'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(RNG_COUNT=1))
    m = re.search(rb'RNGSTUB: calls (\d+)', r.stderr); return int(m[1]) if m else 0
