"""The Sage verifier of the repository (run from its source, on a stand-in for Sage) gives the verdict of the C verifier."""
from pok import *
from p09 import base_proof
import copy, sys
RULE = 'an evaluation is one proof text given to verify.sage (and to the C verifier); distinct = (size, workload class, detail)'
SAGE = os.path.join(REPO, 'sage-impl', 'verify.sage')
LACK, DOUBT = 97, 96

class SageSrv(Server):
    """verify.sage in the stand-in; same face as PSrv.  status None: the stand-in lacks something the file uses"""
    def __init__(s, bits, **kw): super().__init__(os.path.join(VERIF, 'sage', 'minisage.py'), timeout=600); s.bits = bits; s.lack = 0
    def start(self):
        self.errf = tempfile.NamedTemporaryFile(dir=tmp(), delete=False)
        self.p = subprocess.Popen([sys.executable, '-B', self.path, SAGE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env(MINISAGE_ACCEL=os.path.join(tmp(), 'ref.so'))); vf_procs.append(self.p)
    def run(s, text, args=None, reps=None):
        a = '\0'.join(args if args is not None else ['--p%d' % s.bits]).encode(); n = getattr(s.bits, 'reps', 0) if reps is None else reps
        r = s.call('S', struct.pack('<II', n, len(a)) + a + text); rc, ol = struct.unpack_from('<iI', r)
        lg, o = [], 8 + ol
        while o + 8 <= len(r):
            il, l2 = struct.unpack_from('<II', r, o); o += 8; lg.append((r[o:o + il], r[o + il:o + il + l2])); o += il + l2
        if rc == LACK: s.lack += 1
        return rc, r[8:8 + ol].decode(), lg
    def verify_logged(s, text): rc, out, lg = s.run(text); return True, rc == 0, lg
    def verify(s, text): return s.verify_logged(text)[:2]
import vf
vf_procs = vf._procs

def curves(bits, out):
    """the two curves printed -> list of byte strings, or None"""
    v = []
    for l in out.split('\n'):
        m = re.fullmatch(r'(0x[0-9a-f]+),(0x[0-9a-f]+)', l.strip())
        if m: v.append(enc2(bits, int(m[1], 16), int(m[2], 16)))
        elif l.strip(): return None
    return v

def valid(c, s, C, lab, p, reps=None):
    """a valid proof is accepted and its curves are printed; returns False if verify.sage cannot be judged here"""
    t = dump(p); rc, out, lg = s.run(t, reps=reps); b = s.bits
    if rc in (LACK, DOUBT): c.note('verify.sage uses something the stand-in for Sage does not have (p%d, %s): not judged' % (b, lab)); return False
    cv = C.verify(t) if C else (True, True)
    if cv != (True, True): c.note('the C verifier refuses the control proof (p%d): completeness is checked elsewhere' % b); return True
    c.expect(rc == 0, 'valid', (int(b),) + lab, 'verify.sage refuses a valid proof that the C verifier accepts (p%d, %s), exit status %d' % (b, lab, rc), 'valid', {'bits': int(b), 'proof': t.decode(), 'reps': len(p.resp)})
    if rc == 0: c.expect(curves(b, out) == [p.E0, p.E1], 'printed', (int(b),) + lab, 'verify.sage does not print the two curves of the proof (p%d): %r' % (b, out[:200]), 'printed', {'bits': int(b), 'proof': t.decode(), 'out': out})
    return True

def refused(c, s, C, lab, t, what, args=None):
    try: rc, out, lg = s.run(t, args)
    except Crash as e: c.note('no verdict on %s: %s' % (what, e.why)); return
    if rc == LACK: c.note('not judged (%s)' % what); return
    if C and C.verify(t) == (True, True): c.note('%s is accepted by the C verifier as well' % what); return
    c.expect(rc != 0, 'refused', (int(s.bits),) + lab, 'verify.sage ACCEPTS %s (p%d)' % (what, s.bits), 'refused', {'bits': int(s.bits), 'proof': t.decode('latin1'), 'case': what})
    if rc != 0: c.expect(not curves(s.bits, out), 'silent', (int(s.bits),) + lab, 'verify.sage prints curves although it refuses the proof (%s, p%d)' % (what, s.bits), 'refused', {'bits': int(s.bits), 'proof': t.decode('latin1'), 'case': what})

def tampered(bits, p, p2, rng, dense):
    """proofs that are no longer valid although single values still look right"""
    def ed(f, k):
        q = copy.deepcopy(p); f(q.resp[k]); return dump(q)
    flip = lambda b: (lambda i: b[:i] + bytes([b[i] ^ (1 << rng.below(8))]) + b[i + 1:])(rng.below(len(b)))
    for k in range(len(p.resp)):
        r = p.resp[k]
        yield ('a', k), ed(lambda r: setattr(r, 'a', flip(r.a)), k), 'a proof with one bit of the first string of repetition %d (kind %d) flipped' % (k, r.tag)
        yield ('b', k), ed(lambda r: setattr(r, 'b', flip(r.b)), k), 'a proof with one bit of the second string of repetition %d (kind %d) flipped' % (k, r.tag)
        yield ('a end', k), ed(lambda r: setattr(r, 'a', r.a[:-1] + bytes([r.a[-1] ^ 128])), k), 'a proof with the last bit of the first string of repetition %d flipped' % k
        yield ('b end', k), ed(lambda r: setattr(r, 'b', r.b[:-1] + bytes([r.b[-1] ^ 128])), k), 'a proof with the last bit of the second string of repetition %d flipped' % k
        for i in (range(len(r.chain)) if dense else (len(r.chain) - 1,)):
            def other(r, i=i): r.chain[i] = refm.point(bits, p.E0, 3, E3[bits], 7) if i == 0 else rng.fp2(bits)
            yield ('chain', k, i), ed(other, k), 'a proof with another kernel in step %d of repetition %d' % (i, k)
        if r.tag == BOTTOM: yield ('E2', k), ed(lambda r: setattr(r, 'E2', p2.E1), k), 'a proof with another middle curve in repetition %d' % k
    n = len(p.resp)
    for i, j in ((0, 1), (0, n - 1)):
        q = copy.deepcopy(p); q.resp[i], q.resp[j] = q.resp[j], q.resp[i]
        if dump(q) != dump(p): yield ('swap', i, j), dump(q), 'a proof with repetitions %d and %d exchanged' % (i, j)
    q = copy.deepcopy(p); q.E0, q.E1 = q.E1, q.E0; yield ('swap curves',), dump(q), 'a proof with its two curves exchanged'
    q = copy.deepcopy(p); q.E1 = p2.E1; yield ('E1',), dump(q), 'a proof with another end curve'
    q = copy.deepcopy(p); q.E0 = p2.E0 if p2.E0 != p.E0 else p2.E1; yield ('E0',), dump(q), 'a proof with another starting curve'
    q = copy.deepcopy(p); q.resp[n - 1] = p2.resp[n - 1]; yield ('foreign',), dump(q), 'a proof with a repetition of another proof'
    t = dump(p)
    lines = t.decode().split('\n')
    yield ('cut',), '\n'.join(lines[:-3]).encode() + b'\n', 'a proof without its last lines'
    yield ('empty',), b'', 'an empty proof'
    for d in (2, 3, -2):
        l = list(lines); l[2] = str(d); yield ('kind', d), '\n'.join(l).encode(), 'a proof with response kind %d' % d

def boundaries(bits, st, rng):
    """the same byte stream cut differently between neighbouring strings (all hashed inputs of the transcript unchanged)"""
    for want in ({0: LEFT, 1: RIGHT}, {1: LEFT, 2: RIGHT}):
        sl = [Slot.honest(st.inst[i % 2]) for i in range(REPS[bits])]; p = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng, want)
        i = min(want); H = HASH[bits]; whole = p.resp[i].b + p.resp[i + 1].a
        for cut in (H - 1, H + 1, H // 2, 2 * H - 1, 1):
            q = copy.deepcopy(p); q.resp[i].b, q.resp[i + 1].a = whole[:cut], whole[cut:]
            yield ('cut', i, cut), dump(q), 'a proof whose hashes of repetitions %d and %d have %d and %d bytes' % (i, i + 1, cut, 2 * H - cut)

def streams(c, s, C, bits, st, rng, wants):
    """challenge streams with rejected bytes and all response kinds everywhere"""
    for k, w in enumerate(wants):
        sl = [Slot.honest(st.inst[i % 2]) for i in range(REPS[bits])]; p = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng, w)
        if p is None: c.note('no proof for %r' % (w,)); continue
        if not valid(c, s, C, ('kinds', k), p): return
def grind(bits, st, rng, byte, tries=4000):
    """a proof whose challenge stream starts with this byte"""
    sl = [Slot.honest(st.inst[i % 2]) for i in range(REPS[bits])]
    for _ in range(tries):
        p = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng)
        j0, j1 = st.j0, st.j1; hs = [(commit(bits, r.a, sl[i].j2) if r.tag != RIGHT else r.a, commit(bits, r.b, sl[i].j3) if r.tag != LEFT else r.b) for i, r in enumerate(p.resp)]
        if hashlib.shake_256(b'\x01' + j0 + j1 + b''.join(a + b for a, b in hs)).digest(1)[0] == byte: return p

def derivations(bits, st, rng):
    """proofs that are consistent with a challenge or commitment derivation other than the documented one"""
    H = lambda tag, *x: hashlib.shake_256(tag + b''.join(x))
    def alt(f): return lambda b, j0, j1, hs: trits(f(b, j0, j1, hs).digest(400), REPS[b])
    flat = lambda hs: b''.join(a + b for a, b in hs)
    ch = {'without the first curve': alt(lambda b, j0, j1, hs: H(b'\1', j1, flat(hs))), 'without the second curve': alt(lambda b, j0, j1, hs: H(b'\1', j0, flat(hs))),
          'with the curves exchanged': alt(lambda b, j0, j1, hs: H(b'\1', j1, j0, flat(hs))), 'without the last repetition': alt(lambda b, j0, j1, hs: H(b'\1', j0, j1, flat(hs[:-1]))),
          'without the first repetition': alt(lambda b, j0, j1, hs: H(b'\1', j0, j1, flat(hs[1:]))), 'without the second commitments': alt(lambda b, j0, j1, hs: H(b'\1', j0, j1, b''.join(a for a, _ in hs))),
          'without the first commitments': alt(lambda b, j0, j1, hs: H(b'\1', j0, j1, b''.join(b_ for _, b_ in hs))), 'with another domain byte': alt(lambda b, j0, j1, hs: H(b'\2', j0, j1, flat(hs))),
          'constant': lambda b, j0, j1, hs: [0] * REPS[b], 'without the curves': alt(lambda b, j0, j1, hs: H(b'\1', flat(hs)))}
    sl = [Slot.honest(st.inst[i % 2]) for i in range(REPS[bits])]
    def wrong(**k):      # so few repetitions may agree with the right derivation by chance
        while True:
            q = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng, **k)
            if not ref_verify(q)[0]: return dump(q)
    for nm, f in ch.items(): yield ('challenge', nm), wrong(challenge=f), 'a proof whose challenge is derived %s' % nm
    n = HASH[bits]
    cm = {'without the hiding string': lambda b, r, j: H(b'\2', j).digest(n), 'without the curve': lambda b, r, j: H(b'\2', r).digest(n), 'with half the hiding string': lambda b, r, j: H(b'\2', r[:len(r) // 2], j).digest(n),
          'with half the j-invariant': lambda b, r, j: H(b'\2', r, j[:len(j) // 2]).digest(n), 'with another domain byte': lambda b, r, j: H(b'\1', r, j).digest(n), 'padded with zeros after 16 bytes': lambda b, r, j: H(b'\2', r, j).digest(16) + bytes(n - 16)}
    for nm, f in cm.items(): yield ('commitment', nm), wrong(commit=f), 'a proof whose commitments are derived %s' % nm

def main(c):
    refm.load(); T = c.thorough; rng = Rng('P21', c.seed)
    if not os.path.exists(SAGE): c.note('verify.sage is not where it was: nothing was judged'); return
    N = 4; sm = {b: small(b, N) for b in SIZES}
    cpath = dict(zip(SIZES, build_all([(lambda b=b: poik_server(sm[b], 'fast')) for b in SIZES])))
    Cs = {b: PSrv(sm[b], cpath[b], timeout=300, POIK_THREADS=1) if cpath[b] else None for b in SIZES}
    sts = dict(zip(SIZES, pmap(lambda b: base_proof(sm[b], Rng('P21b', c.seed, b), start=refm.mkchain(b, 2, enc2(b, 6), 1, rng.u64() >> 8)[1][-1] if b != 503 else None), SIZES)))
    log('built')
    jobs = []        # (cost, size, callable)
    judged = {}
    def chunk(b, fn):
        """fn(server) with a server of its own"""
        s = SageSrv(sm[b])
        t0 = time.time()
        try: fn(s)
        except Crash as e: c.note('verify.sage in the stand-in: %s' % e.why)
        finally:
            judged.setdefault(b, [0, 0]); judged[b][0] += s.calls; judged[b][1] += s.lack; s.close(); log(b, fn.__name__, '%.1f s' % (time.time() - t0), s.calls, 'runs')
    def prepare(b):
        st, p = sts[b]; C = Cs[b]
        def full(s, b=b, st=st):      # with the number of repetitions the file prescribes
            s.bits = b; sl = [Slot.honest(st.inst[i % 2]) for i in range(REPS[b])]; r = Rng('P21f', c.seed, b); pf = assemble(b, st.E0, st.E1, st.j0, st.j1, sl, r)
            valid(c, s, None, ('full size',), pf, reps=0)
            for n in (1, 2, REPS[b] // 2, REPS[b] - 1):
                slot = [Slot.honest(st.inst[i % 2]) for i in range(n)]; sb = small(b, n); q = assemble(sb, st.E0, st.E1, st.j0, st.j1, slot, r); rc, out, _ = s.run(dump(q), reps=0)
                if rc != LACK: c.expect(rc != 0, 'refused', (b, 'repetitions', n), 'verify.sage ACCEPTS a proof with only %d of %d repetitions (p%d)' % (n, REPS[b], b), 'refused', {'bits': b, 'proof': dump(q).decode()})
            for args in ([], ['--p434', '--p751'], ['--p999'], ['p%d' % b]):
                rc, out, _ = s.run(dump(pf), args, reps=0)
                if rc != LACK: c.expect(rc != 0 and not curves(b, out), 'arguments', (b, tuple(args)), 'verify.sage reports success when called with %r' % (args,), 'arguments', {'args': args, 'proof': dump(pf).decode()})
            o = [x for x in SIZES if x != b][b % 3]; rc, out, _ = s.run(dump(pf), ['--p%d' % o], reps=0)
            if rc != LACK: c.expect(rc != 0, 'other size', (b, o), 'verify.sage ACCEPTS a p%d proof as one of p%d' % (b, o), 'refused', {'bits': b, 'proof': dump(pf).decode()})
        jobs.append((9 * (b / 434) ** 2, b, full))
        def basic(s, b=b, st=st, p=p, C=C):
            if not valid(c, s, C, ('base',), p): return
            r = Rng('P21s', c.seed, b); streams(c, s, C, sm[b], st, r, [{0: LEFT, 1: LEFT, 2: LEFT, 3: LEFT}, {0: BOTTOM, 1: RIGHT, 2: RIGHT, 3: BOTTOM}, {i: RIGHT for i in range(N)}])
            for byte in (242, 243, 255) if b == 434 or T else (243,):
                q = grind(sm[b], st, r, byte)
                if q: valid(c, s, C, ('stream starts with', byte), q)
            if C:        # proofs made by the C prover
                for k in range(3 if T else 1):
                    g = C.gen(enc2(b, 6) if k != 1 else st.E0)
                    if g: valid(c, s, C, ('made by the C prover', k), parse(sm[b], C.prove(g[2])))
            for nm, A in start_curves(b, r)[::(1 if T else 4 if b < 751 else 9)]:
                s2, q = base_proof(sm[b], r, start=A); valid(c, s, C, ('start', nm), q)
        jobs.append((12 * (b / 434) ** 2, b, basic))
        p2 = base_proof(sm[b], Rng('P21o', c.seed, b))[1]
        cases = list(tampered(sm[b], p, p2, Rng('P21t', c.seed, b), b == 434 or T)) + list(boundaries(sm[b], st, Rng('P21c', c.seed, b))) + list(derivations(sm[b], st, Rng('P21d', c.seed, b)))
        K = 4 if b == 434 else 3
        for k in range(K):
            def tam(s, mine=cases[k::K], C=C):
                for lab, t, what in mine: refused(c, s, C, lab, t, what)
            jobs.append((len(cases) / K * .5 * (b / 434) ** 2, b, tam))
        # cheating chains whose hashes are all consistent
        r = Rng('P21a', c.seed, b); todo = []
        big = b == 434
        for tag, l, A, n, steps in ((LEFT, 3, st.E0, HEIGHT, (1, HEIGHT - 1) if big else (HEIGHT - 1,)), (RIGHT, 3, st.E1, HEIGHT, (0, HEIGHT - 1) if big else (1,))): todo += [(tag, nm, xs, j, None) for nm, xs, j in bad_chains(b, l, A, n, r, range(n) if T else steps)]
        E = refm.mkchain(b, 2, enc2(b, 6), 2, r.u64() >> 8)[1][-1]
        todo += [(BOTTOM, nm, xs, j, E) for nm, xs, j in bad_chains(b, 2, E, WIDTH, r, range(WIDTH) if T else (1, WIDTH - 1) if big else (WIDTH - 1,))]
        i0 = st.inst[0]; todo += [(LEFT, 'right chain offered as left', i0.right, i0.j3, None), (RIGHT, 'left chain offered as right', i0.left, i0.j2, None)]
        for nm, A in (('singular middle curve A=2', enc2(b, 2)), ('ordinary middle curve', r.fp2(b))): todo.append((BOTTOM, nm, [r.fp2(b) for _ in range(WIDTH)], st.j1, A))
        must = [x for x in todo if re.search(r'backtrack|dual|\(e-1\)|\*|offered|middle', x[1])]; rest = [x for x in todo if x not in must]
        if b != 434 and not T: must = must[::(2 if b < 751 else 3)]; rest = rest[::(4 if b < 751 else 8)]
        todo = must + rest; K = 10 if b == 434 else 4
        for k in range(K):
            def forge(s, mine=todo[k::K], st=st, b=b, k=k):
                st_ = copy.copy(st); st_.bits = sm[b]; F = Forger(c, s, st_, Rng('P21g', c.seed, b, k), 'verify.sage')
                for i, (tag, nm, xs, j, E_) in enumerate(mine): F.attack(nm, tag, xs, j, i % N, E_, j2=refm.j(b, E_) if E_ else None)
                c.extra.setdefault('adaptive_rounds', {}).setdefault('p%d' % b, 0); c.extra['adaptive_rounds']['p%d' % b] += F.learned
            jobs.append((len(todo) / K * 1.2 * (b / 434) ** 2, b, forge))
    pmap(prepare, SIZES[::-1])
    log('prepared')
    jobs.sort(key=lambda x: -x[0])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(chunk, b, fn) for _, b, fn in jobs]: f.result()
    for s in Cs.values(): s and s.close()
    c.extra['runs_of_verify_sage'] = {'p%d' % b: {'runs': v[0], 'not judged': v[1]} for b, v in judged.items()}
