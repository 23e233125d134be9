"""Every parameter set reaches the security level it stands for, in what the programs emit and accept."""
from pok import *
from p09 import base_proof
import math, sys
from decimal import Decimal, getcontext
RULE = 'an evaluation is one proof made by the built prover or presented to the built verifier (and each line of the parameter script); distinct = (size, build, quantity or shortened shape)'
LEVELS = {434: 128, 503: 128, 610: 192, 751: 256}
getcontext().prec = 60
def lg(x): return Decimal(x).ln() / Decimal(2).ln()
def two_dist(p, k): return -2 + lg(p - 1) / 2 + lg(Decimal(k) + Decimal(1) / 3) - Decimal(k) / 2          # walk of length k in the 2-isogeny graph
def three_dist(p, k2, k): return -2 + lg(p - 1) / 2 + lg(1 + Decimal(2) ** (Decimal(k2) / 2) * (Decimal(4) / 3).sqrt()) + lg(Decimal(k) + Decimal(1) / 2) - Decimal(k) / 2 * lg(3)   # in the graph with level structure

def need2(b): return next(k for k in range(100, 3000) if two_dist(P[b], k) < -LEVELS[b])          # length the analysis of the repository asks of the secret walk

def shape(text):
    """the text of a proof, without assuming any parameter -> (repetitions, per kind: first string, second string, chain lengths)"""
    l = text.decode().split('\n')
    if l and l[-1] == '': l.pop()
    is2 = lambda s: s.startswith('0x') and ',' in s
    if len(l) < 2 or not is2(l[0]) or not is2(l[1]): return None
    i, reps, per = 2, 0, {}
    while i < len(l):
        if l[i] not in ('-1', '0', '1') or i + 2 >= len(l): return None
        tag = int(l[i]); a, b = l[i + 1], l[i + 2]; i += 3; n = 0
        while i < len(l) and is2(l[i]): i += 1; n += 1
        per.setdefault(tag, set()).add((len(a) // 2, len(b) // 2, n)); reps += 1
    return reps, per

def judge(c, bits, build, text, who):
    lam = LEVELS[bits]; s = shape(text); p = P[bits]; lab = (bits, build, who); rp = {'bits': bits, 'build': build, 'proof': text.decode('latin1')}
    if s is None: c.note('proof text of p%d is not laid out as documented: not judged here' % bits); return
    reps, per = s
    if set(per) != {LEFT, BOTTOM, RIGHT} or any(len(v) != 1 for v in per.values()): c.expect(False, 'shape', lab, 'p%d (%s): repetitions of the same kind have different shapes: %r' % (bits, who, per), 'shape', rp); return
    (lr, lh, ln), (br2, br3, bn), (rh, rr, rn) = (next(iter(per[t])) for t in TAGS)
    q = {'soundness (bits)': (Decimal(reps) * (lg(3) - 1), lam), 'commitment length': (8 * min(lh, rh), 2 * lam), 'hiding string length': (min(lr, br2, br3, rr), 2 * max(lh, rh)),
         'mixing of the secret walk': (-two_dist(p, E2[bits] * (bn - 1)), lam),
         'mixing of the random walks': (-three_dist(p, need2(bits), E3[bits] * min(ln, rn)), lam)}
    for nm, (have, need) in q.items():
        c.expect(have >= need, 'level', lab + (nm,), 'p%d (%s, %s): %s is %.1f, the security level %d needs %d' % (bits, build, who, nm, have, lam, need), 'level', rp)
    c.extra.setdefault('measured', {})['p%d %s %s' % (bits, build, who)] = {'repetitions': reps, **{k: round(float(v[0]), 1) for k, v in q.items()}}

def short(c, bits, build, s, rng):
    """complete, self-consistent proofs of a weaker system are refused"""
    st = Statement(bits, enc2(bits, 6), rng.u64() >> 8, n=2); sl = [Slot.honest(st.inst[i % 2]) for i in range(REPS[bits])]
    def check(nm, t):
        try: ok, v = s.verify(t)
        except Crash as e: c.note('no verdict (%s): %s' % (nm, e.why)); return
        c.expect(not (ok and v), 'weaker', (bits, build, nm), 'the p%d verifier (%s) ACCEPTS a proof with %s' % (bits, build, nm), 'weaker', {'bits': bits, 'build': build, 'proof': t.decode()})
    full = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng)
    same = s.verify(dump(full)) == (True, True); c.event('control', (bits, build, same))
    for n in sorted({1, REPS[bits] // 2, REPS[bits] - 1, math.ceil(100 / math.log2(1.5))}):
        q = assemble(small(bits, n), st.E0, st.E1, st.j0, st.j1, sl[:n], rng); check('%d repetitions' % n, dump(q))
    def shorter(dh, db):
        """hash and hiding strings shortened, everything consistent with that"""
        H, D = HASH[bits] - dh, HIDE[bits] - db
        cm = lambda b, x, j: hashlib.shake_256(b'\2' + x[:D] + j).digest(H)
        q = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng, commit=cm)
        for x in q.resp:
            if x.tag != RIGHT: x.a = x.a[:D]
            if x.tag != LEFT: x.b = x.b[:D]
        return dump(q)
    for dh, db in ((1, 0), (HASH[bits] // 2, 0), (0, 1), (0, HIDE[bits] // 2), (HASH[bits] - 16, HIDE[bits] - 16)): check('hashes %d and hiding strings %d bytes shorter' % (dh, db), shorter(dh, db))
    # one step fewer: the chains of one instance with their last step dropped, commitments adapted to where they end then
    i0 = st.inst[0]; j = lambda A, l, xs: refm.chain(bits, l, A, xs)[2]
    for nm, a, b in (('walks of the left and right sides one step shorter', 1, 0), ('bottom walk one step shorter', 0, 1)):
        L, R, B = i0.left[:len(i0.left) - a], i0.right[:len(i0.right) - a], i0.bottom[:len(i0.bottom) - b]
        sh = Slot(j(st.E0, 3, L) if a else i0.j2, j(st.E1, 3, R) if a else i0.j3, L, B if b else i0.bottom, R, i0.E2)
        want = LEFT if a else BOTTOM
        if b: sh.j3 = j(i0.E2, 2, B)
        sl2 = list(sl); sl2[0] = sh; q = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl2, rng, {0: want})
        check(nm + ' in one repetition', dump(q))
    return same

def script(c):
    f = os.path.join(REPO, 'scripts', 'statistical_parameters.py')
    if not os.path.exists(f): c.note('the parameter script is not where it was'); return
    try: out = subprocess.run([sys.executable, '-B', f], capture_output=True, timeout=120, cwd=tmp(), env=env())
    except subprocess.TimeoutExpired: c.note('parameter script does not end'); return
    if out.returncode: c.note('parameter script failed: ' + out.stderr.decode()[-300:]); return
    rows = [[int(x) for x in l.split()] for l in out.stdout.decode().split('\n') if re.fullmatch(r'[\d\s]+', l) and len(l.split()) == 6]
    if len(rows) % 4 or not rows: c.note('parameter script prints something else: not judged'); return
    for k, r in enumerate(rows):
        if r[0] not in SIZES: continue
        b = r[0]; lam = LEVELS[b]; k2 = need2(b) if k >= len(rows) - 4 else b
        k3 = next(k for k in range(100, 3000) if three_dist(P[b], k2, k) < -lam); want = [b, math.ceil(lam / math.log2(1.5)), k2, k3, -(-k2 // E2[b]), -(-k3 // E3[b])]
        c.expect(r == want, 'script', (b, k // 4), 'the parameter script prints %r for p%d, the security analysis gives %r' % (r, b, want), 'script', {'row': r, 'want': want})
        if k >= len(rows) - 4: c.expect((r[1], r[4], r[5]) == (REPS[b], WIDTH, HEIGHT), 'script', (b, 'used'), 'the parameter script recommends %r for p%d, but %r is used' % ((r[1], r[4], r[5]), b, (REPS[b], WIDTH, HEIGHT)), 'script', {'row': r})

def main(c):
    refm.load(); T = c.thorough; script(c)
    kinds = [(b, 'fast') for b in SIZES] + ([(b, 'generic') for b in SIZES] if T else [(434, 'generic')])
    srv = build_all([(lambda b=b, k=k: poik_server(b, k)) for b, k in kinds]); prg = build_all([(lambda b=b: cli(b, 'prove')) for b in SIZES])
    def made(b, path):
        r = subprocess.run([path, '--initial'], capture_output=True, timeout=600, env=env(POIK_THREADS=NCPU))
        if r.returncode: c.note('prove_%d failed' % b); return
        judge(c, b, 'program', r.stdout, 'prove')
    def one(b, k, path):
        s = PSrv(b, path, timeout=300, POIK_THREADS=4); rng = Rng('P22', c.seed, b, k)
        g = s.gen(enc2(b, 6)) if T else None
        if g: judge(c, b, k, s.prove(g[2]), 'library')
        same = short(c, b, k, s, rng); s.close()
        # a verifier that accepts a proof of exactly the right shape has the right parameters; otherwise (and always at the small sizes) look at what the prover emits
        if k == 'fast' and (T or b < 610 or not same): made(b, prg[SIZES.index(b)])
    with cf.ThreadPoolExecutor(5) as ex:
        for f in [ex.submit(one, b, k, p) for (b, k), p in zip(kinds, srv)][::-1]: f.result()
