"""Independent model of the proof format: text codec, commitments, Fiat-Shamir, reference verification, forging."""
import hashlib, concurrent.futures as cf
from vf import *
import refm

LEFT, BOTTOM, RIGHT = -1, 0, 1
TAGS = (LEFT, BOTTOM, RIGHT)
class Resp:
    __slots__ = ('tag', 'a', 'b', 'E2', 'chain')
    # LEFT a=r2 b=h3 ; BOTTOM a=r2 b=r3 ; RIGHT a=h2 b=r3
    def __init__(s, tag, a, b, chain, E2=None): s.tag, s.a, s.b, s.chain, s.E2 = tag, a, b, chain, E2
class Proof:
    def __init__(s, bits, E0, E1, resp): s.bits, s.E0, s.E1, s.resp = bits, E0, E1, resp

def t_fp2(bits, b): n = BY[bits]; return '0x%s,0x%s\n' % (b[:n][::-1].hex(), b[n:2 * n][::-1].hex())
def dump(p, tagmap=None):
    o = [t_fp2(p.bits, p.E0), t_fp2(p.bits, p.E1)]
    for r in p.resp:
        o.append('%d\n' % r.tag); o.append(r.a.hex() + '\n'); o.append(r.b.hex() + '\n')
        if r.E2 is not None: o.append(t_fp2(p.bits, r.E2))
        o += [t_fp2(p.bits, x) for x in r.chain]
    return ''.join(o).encode()
class BadText(Exception): pass
def parse(bits, text):
    t = text.decode('latin1').split('\n')
    if t and t[-1] == '': t.pop()
    it = iter(t); n = BY[bits]
    def line():
        try: return next(it)
        except StopIteration: raise BadText('truncated')
    def f2():
        s = line(); m = re.fullmatch(r'0x([0-9a-f]{%d}),0x([0-9a-f]{%d})' % (2 * n, 2 * n), s)
        if not m: raise BadText('bad field element line %r' % s[:60])
        b = bytes.fromhex(m[1])[::-1] + bytes.fromhex(m[2])[::-1]
        if any(v >= P[bits] for v in dec2(bits, b)): raise BadText('element not reduced')
        return b
    def hx(k):
        s = line()
        if not re.fullmatch(r'[0-9a-f]{%d}' % (2 * k), s): raise BadText('bad hex line')
        return bytes.fromhex(s)
    E0, E1 = f2(), f2(); rs = []
    for i in range(REPS[bits]):
        s = line()
        if s not in ('-1', '0', '1'): raise BadText('bad tag %r' % s[:20])
        tag = int(s); H, D = HASH[bits], HIDE[bits]
        la, lb = {LEFT: (D, H), BOTTOM: (D, D), RIGHT: (H, D)}[tag]
        a, b = hx(la), hx(lb); e2 = f2() if tag == BOTTOM else None
        rs.append(Resp(tag, a, b, [f2() for _ in range(WIDTH if tag == BOTTOM else HEIGHT)], e2))
    if list(it): raise BadText('trailing lines')
    return Proof(bits, E0, E1, rs)

def commit(bits, r, jv): return hashlib.shake_256(b'\x02' + r + jv).digest(HASH[bits])
def trits(stream, n):
    out = []
    for v in stream:
        if v >= 243: continue
        for _ in range(5):
            if len(out) == n: return out
            out.append((0, 1, -1)[v % 3]); v //= 3
    return out if len(out) >= n else None
def challenge(bits, j0, j1, hs):
    h = hashlib.shake_256(b'\x01' + j0 + j1 + b''.join(a + b for a, b in hs)); n = REPS[bits]
    return trits(h.digest(136 * 40), n)

def pmap(f, xs, workers=NCPU):
    with cf.ThreadPoolExecutor(workers) as ex: return list(ex.map(f, xs))

def ref_resp(bits, E0, E1, r):
    """(ok, reason, h2, h3)"""
    if r.tag == LEFT:
        rc, pos, jj, _ = refm.chain(bits, 3, E0, r.chain)
        return (rc == 0, 'left chain rc=%d step=%d' % (rc, pos), commit(bits, r.a, jj), r.b)
    if r.tag == RIGHT:
        rc, pos, jj, _ = refm.chain(bits, 3, E1, r.chain)
        return (rc == 0, 'right chain rc=%d step=%d' % (rc, pos), r.a, commit(bits, r.b, jj))
    if not refm.curve_ok(bits, r.E2): return (False, 'bad middle curve', b'', b'')
    rc, pos, jj, _ = refm.chain(bits, 2, r.E2, r.chain)
    return (rc == 0, 'bottom chain rc=%d step=%d' % (rc, pos), commit(bits, r.a, refm.j(bits, r.E2)), commit(bits, r.b, jj))
def ref_verify(p, only=None):
    """full reference verification -> (ok, reason)"""
    bits = p.bits
    for n, E in (('E0', p.E0), ('E1', p.E1)):
        if not refm.curve_ok(bits, E): return False, n + ' is not a supersingular curve with (p+1)^2 points'
    rs = pmap(lambda r: ref_resp(bits, p.E0, p.E1, r), p.resp)
    for i, (ok, why, _, _) in enumerate(rs):
        if not ok: return False, 'rep %d: %s' % (i, why)
    ch = challenge(bits, refm.j(bits, p.E0), refm.j(bits, p.E1), [(h2, h3) for _, _, h2, h3 in rs])
    bad = [i for i, r in enumerate(p.resp) if ch[i] != r.tag]
    if bad: return False, 'challenge mismatch at %d positions, first %d' % (len(bad), bad[0])
    return True, 'ok'

# ------------------------------------------------------------------ reference prover (few squares, reused with fresh randomness)
class Statement:
    """a statement (E0,E1) with its secret chain, plus `n` complete squares"""
    def __init__(s, bits, A, seed, n=2, wlen=WIDTH, canonical=True):
        s.bits, s.A = bits, A
        E0 = refm.canon(bits, A) if canonical else A
        s.E0 = E0
        s.xs, s.As, _ = refm.mkchain(bits, 2, E0, WIDTH, seed)
        s.E1 = s.As[-1]
        s.inst = pmap(lambda i: refm.instance(bits, s.As, s.xs, seed * 1000 + i), range(n))
        assert all(s.inst)
        s.j0, s.j1 = refm.j(bits, s.E0), refm.j(bits, s.E1)

class Slot:
    """one repetition the forger prepares: responses it can give, and the two j-values it commits to"""
    def __init__(s, j2, j3, left=None, bottom=None, right=None, E2=None): s.j2, s.j3, s.left, s.bottom, s.right, s.E2 = j2, j3, left, bottom, right, E2
    @staticmethod
    def honest(i): return Slot(i.j2, i.j3, i.left, i.bottom, i.right, i.E2)

def assemble(bits, E0, E1, j0, j1, slots, rng, want=None, tries=4000, challenge=challenge, commit=commit):
    """Fiat-Shamir forging: slots[i] is a Slot; want {rep: tag} positions whose challenge is ground to a tag.
    Slots may miss responses (None); then that position must be ground away from it."""
    H, D = HASH[bits], HIDE[bits]; n = REPS[bits]; want = want or {}
    r2 = [rng.bytes(D) for _ in range(n)]; r3 = [rng.bytes(D) for _ in range(n)]
    h2 = [commit(bits, r2[i], slots[i].j2) for i in range(n)]; h3 = [commit(bits, r3[i], slots[i].j3) for i in range(n)]
    for t in range(tries):
        ch = challenge(bits, j0, j1, list(zip(h2, h3)))
        ok = all(ch[i] == w for i, w in want.items())
        if ok:
            for i in range(n):
                s = slots[i]
                if (ch[i] == LEFT and s.left is None) or (ch[i] == BOTTOM and s.bottom is None) or (ch[i] == RIGHT and s.right is None): ok = False; break
        if ok: break
        k = n - 1; r3[k] = rng.bytes(D); h3[k] = commit(bits, r3[k], slots[k].j3)
    else: return None
    resp = []
    for i in range(n):
        s = slots[i]
        if ch[i] == LEFT: resp.append(Resp(LEFT, r2[i], h3[i], list(s.left)))
        elif ch[i] == BOTTOM: resp.append(Resp(BOTTOM, r2[i], r3[i], list(s.bottom), s.E2))
        else: resp.append(Resp(RIGHT, h2[i], r3[i], list(s.right)))
    return Proof(bits, E0, E1, resp)

class PSrv(Server):
    """typed face of srv_poik"""
    def __init__(s, bits, path, **kw): super().__init__(path, **kw); s.bits = bits
    def gen(s, E0):
        r = s.call('G', E0); w = 2 * BY[s.bits]
        if not r[0]: return None
        f = [r[1 + w * i:1 + w * i + w] for i in range(2 * WIDTH + 1)]
        return f[:WIDTH + 1], f[WIDTH + 1:], r[1:]
    def prove(s, sec): return s.call('P', sec)
    def verify(s, text): r = s.call('V', text); return bool(r[0]), bool(r[1])
    def verify_logged(s, text):
        s.call('L', b'\1'); r = s.call('V', text); s.call('L', b'\0')
        lg, o, b = [], 2, r
        while o + 8 <= len(b):
            il, ol = struct.unpack_from('<II', b, o); o += 8; lg.append((b[o:o + il], b[o + il:o + il + ol])); o += il + ol
        return bool(r[0]), bool(r[1]), lg
    def verify_tag(s, text, rep, tag): r = s.call('T', struct.pack('<Ii', rep, tag) + text); return bool(r[0]), bool(r[1])
    def redump(s, text): r = s.call('R', text); return bool(r[0]), r[1:]
    def parse_fp2(s, text): r = s.call('F', text); return bool(r[0]), r[1:]
    def dump_fp2(s, b): return s.call('D', b)

def start_curves(bits, rng, n_rand=1):
    """named valid start curves: special j-invariants, subfield, non-canonical models, walked curves"""
    out = [('j1728', enc2(bits, 0)), ('A6', enc2(bits, 6)), ('-A6', enc2(bits, -6))]
    m = [refm.model(bits, enc2(bits, 0), i) for i in range(6)]
    out += [('j1728-model%d' % i, m[i]) for i in (2, 4)]
    j0 = j_zero(bits)
    if j0 is not None and refm.curve_ok(bits, j0): out.append(('j0', j0))
    for k in range(n_rand):
        c = refm.mkchain(bits, 2, enc2(bits, 6), 2, rng.u64())[1][-1]; out.append(('walk%d' % k, c))
        for i in (1, 2, 5): out.append(('walk%d-model%d' % (k, i), refm.model(bits, c, i)))
    return out
def j_zero(bits):
    """a Montgomery model with j=0: A^2=3"""
    return refm.sqrt(bits, enc2(bits, 3))

class Forger:
    """Runs cheating provers against a real verifier and reports any acceptance."""
    def __init__(s, c, srv, st, rng, build):
        s.c, s.srv, s.st, s.rng, s.bits, s.build = c, srv, st, rng, st.bits, build
        s.hon = [Slot.honest(i) for i in st.inst]; s.seam = False; s.learned = 0
    def slots(s): return [s.hon[i % len(s.hon)] for i in range(REPS[s.bits])]
    def attack(s, name, tag, xs, jguess, rep, E2=None, j2=None):
        """response `tag` at position rep uses chain xs; committed j is jguess, adapted to what the verifier computes"""
        bits, st = s.bits, s.st; jv = jguess or st.inst[0].j3
        for rnd in range(3):
            sl = s.slots(); b = sl[rep]
            if tag == LEFT: sl[rep] = Slot(jv, b.j3, left=xs, bottom=b.bottom, right=b.right, E2=b.E2)
            elif tag == RIGHT: sl[rep] = Slot(b.j2, jv, left=b.left, bottom=b.bottom, right=xs, E2=b.E2)
            else: sl[rep] = Slot(j2 or refm.j(bits, E2), jv, left=b.left, bottom=xs, right=b.right, E2=E2)
            pf = assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, s.rng, {rep: tag}); t = dump(pf)
            try: pok, v, lg = s.srv.verify_logged(t)
            except Crash as e:      # not an acceptance; robustness against hostile text is a property of its own
                s.c.note('verifier did not return a verdict on %s: %s' % (name, e.why)); s.c.event('no-verdict', (bits, s.build, name, tag, rep)); return
            if lg: s.seam = True
            if v:
                ref = ref_verify(pf)
                if ref[0]: # our own forgery turned out honest: do not accuse
                    s.c.note('forgery %s is valid per reference' % name); return
                s.c.expect(False, 'forgery', (bits, s.build, name, tag, rep), 'verifier ACCEPTS a cheating proof (p%d %s): %s, tag %d, repetition %d; reference: %s' % (bits, s.build, name, tag, rep, ref[1]),
                           key='forgery', replay={'bits': bits, 'attack': name, 'rep': rep, 'tag': tag, 'proof': t.decode()})
                return
            r = pf.resp[rep].a if tag == LEFT else pf.resp[rep].b
            seen = [i for i, o in lg if i[:1] == b'\x02' and i[1:1 + HIDE[bits]] == r]
            nj = seen[0][1 + HIDE[bits]:] if seen else None
            if tag == BOTTOM and seen:
                r2 = pf.resp[rep].a; q = [i for i, o in lg if i[:1] == b'\x02' and i[1:1 + HIDE[bits]] == r2]
                if q and q[0][1 + HIDE[bits]:] != (j2 or refm.j(bits, E2)): j2 = q[0][1 + HIDE[bits]:]; jv = nj; s.learned += 1; continue
            if nj is None or nj == jv or len(nj) != len(jv): break
            jv = nj; s.learned += 1    # the verifier processed the bad chain: adapt the commitment to what it computed
        s.c.event('forgery', (bits, s.build, name, tag, rep))

def full_dual(bits, l, A, n, at, seed):
    """chain whose step `at` is exactly the dual of step at-1 (walks back to the previous curve)"""
    g = refm.mkchain(bits, l, A, at, seed)
    xs, As, _ = g
    e = E2[bits] if l == 2 else E3[bits]
    cur, K = As[at - 1], xs[at - 1]
    T = refm.mul(bits, cur, K, l, e - 1)
    for k in range(200):
        Q = refm.point(bits, cur, l, e, seed + 1 + k)
        if refm.mul(bits, cur, Q, l, e - 1) != T: break
    rc, A2, img = refm.isog(bits, l, cur, K, Q)
    if rc != 1: return None
    xs = xs + [img]
    rc, A3, _ = refm.isog(bits, l, A2, img)
    if rc != 1: return None
    rest = n - at - 1; j = refm.j(bits, A3)
    if rest:
        ys, Bs, j = refm.mkchain(bits, l, A3, rest, seed + 5); xs = xs + ys
    return xs, j

def bad_chains(bits, l, A, n, rng, steps):
    """yield (name, xs, j or None) of chains that do not describe a cyclic isogeny of degree (l^e)^n from A"""
    e = E2[bits] if l == 2 else E3[bits]; f = E3[bits] if l == 2 else E2[bits]; o = 5 - l
    zero = refm.canon(bits, enc2(bits, 0))
    for i in steps:
        seed = rng.u64() >> 8
        xs, As, jj = refm.mkchain(bits, l, A, n, seed)
        cur = As[i]
        def cont(B, k):   # continue from curve B for k more steps
            if k == 0: return [], refm.j(bits, B)
            g = refm.mkchain(bits, l, refm.canon(bits, B), k, seed + 9); return g[0], g[2]
        for by in sorted({1, 2, e // 2, e - 2, e - 1}):
            low = refm.mul(bits, cur, xs[i], l, by)
            conts = [('orig', xs[i + 1:], jj)]
            if i < n - 1: conts += [('zero',) + cont(zero, n - 1 - i), ('stay',) + cont(cur, n - 1 - i)]
            for cn, tail, j2 in (conts if by in (1, e - 1) else conts[:2]):
                yield 'kernel of order %d^(e-%d) at step %d, then %s' % (l, by, i, cn), xs[:i] + [low] + tail, j2
        # order too large
        for k in range(2):
            Q = refm.point(bits, cur, o, f, seed + 100 + k)
            # random full point times o^(f-1): order l^? * o
            x = rng.fp2(bits)
            while not refm.oncurve(bits, cur, x): x = rng.fp2(bits)
            if k == 0:
                y = refm.mul(bits, cur, x, o, f - 1)
                if y: yield 'kernel of order %d^e*%d at step %d' % (l, o, i), xs[:i] + [y] + xs[i + 1:], jj
                yield 'kernel of full order at step %d' % i, xs[:i] + [x] + xs[i + 1:], jj
            yield 'kernel of order %d^f at step %d' % (o, i), xs[:i] + [Q] + xs[i + 1:], jj
        x = rng.fp2(bits)
        while refm.oncurve(bits, cur, x): x = rng.fp2(bits)
        yield 'kernel on the twist at step %d' % i, xs[:i] + [x] + xs[i + 1:], jj
        for v in (0, 1, -1): yield 'kernel x=%d at step %d' % (v, i), xs[:i] + [enc2(bits, v)] + (xs[i + 1:] if i == n - 1 else cont(zero, n - 1 - i)[0]), jj
        if i:
            for m in (1, 2, 4):
                B, y = refm.model(bits, cur, m, xs[i])
                if B != cur: yield 'kernel on non-canonical model %d at step %d' % (m, i), xs[:i] + [y] + xs[i + 1:], jj
            for k in range(2):
                g = refm.mkchain(bits, l, A, n, seed + 50 + k, back_at=i)
                yield 'backtracking at step %d (#%d)' % (i, k), g[0], g[2]
            d = full_dual(bits, l, A, n, i, seed + 70)
            if d: yield 'step %d is the full dual of step %d' % (i, i - 1), d[0], d[1]
            ys = list(xs); ys[i] = xs[i - 1]; yield 'step %d repeats the kernel of step %d' % (i, i - 1), ys, jj
    xs, As, jj = refm.mkchain(bits, l, enc2(bits, 6) if A != enc2(bits, 6) else zero, n, rng.u64() >> 8)
    yield 'chain from an unrelated curve', xs, jj
    xs, As, jj = refm.mkchain(bits, l, A, n, rng.u64() >> 8)
    yield 'chain reversed', xs[::-1], jj
    yield 'chain shifted', xs[1:] + [xs[-1]], jj

def canon_x(bits, A, x):
    """x on raw model A -> x on the canonical model"""
    cA = refm.canon(bits, A)
    for k in range(6):
        B, y = refm.model(bits, A, k, x)
        if B == cA: return y
def canon_secret(bits, g):
    """secret of the real prover -> canonical curves and kernels on them"""
    return [refm.canon(bits, e) for e in g[0]], [canon_x(bits, e, x) for e, x in zip(g[0], g[1])]

# ------------------------------------------------------------------ curves defined over the prime field
def _roots_fp(p, f, rng):
    """roots in F_p of a polynomial (list, low to high)"""
    def trim(a):
        while a and a[-1] == 0: a.pop()
        return a
    def mod(a, m):
        a = [x % p for x in a]; inv = pow(m[-1], -1, p)
        while len(a) >= len(m):
            c = a[-1] * inv % p
            for i in range(len(m)): a[len(a) - len(m) + i] = (a[len(a) - len(m) + i] - c * m[i]) % p
            a.pop()
        return trim(a)
    def mul(a, b, m):
        r = [0] * (len(a) + len(b))
        for i, x in enumerate(a):
            for k, y in enumerate(b): r[i + k] += x * y
        return mod(r, m)
    def pw(b, e, m):
        r = [1]
        while e:
            if e & 1: r = mul(r, b, m)
            b = mul(b, b, m); e >>= 1
        return r
    def gcd(a, b):
        while b: a, b = b, mod(a, b)
        return [x * pow(a[-1], -1, p) % p for x in a]
    f = trim([x % p for x in f]); h = pw([0, 1], p, f); h = h + [0] * (2 - len(h)); h[1] -= 1
    g = gcd(f, trim([x % p for x in h])); out = []
    def split(g):
        if len(g) <= 1: return
        if len(g) == 2: out.append(-g[0] * pow(g[1], -1, p) % p); return
        while True:
            h = pw([rng.below(p), 1], (p - 1) // 2, g); h = (h or [0]); h[0] -= 1; d = gcd(g, trim([x % p for x in h]))
            if 1 < len(d) < len(g): break
        q, a = [], list(g)
        while len(a) >= len(d):
            c = a[-1]; q.insert(0, c)
            for i in range(len(d)): a[len(a) - len(d) + i] = (a[len(a) - len(d) + i] - c * d[i]) % p
            a.pop()
        split(d); split(q)
    split(g); return out
def fp_curves(bits, rng, n):
    """Montgomery coefficients in F_p of supersingular curves, by a walk of 3-isogenies over F_p from y^2 = x^3 + 6x^2 + x"""
    p, A, out = P[bits], 6, []
    for _ in range(n):
        rs = _roots_fp(p, [-1, 0, 6, 4 * A, 3], rng)
        if not rs: break
        x = rng.choice(rs); A = (A * x - 6 * x * x + 6) * x % p; out.append(A)
    return [enc2(bits, a) for a in out]
