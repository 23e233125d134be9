"""Commitments, transcript and challenge binding: nothing in an accepted proof can be altered, and only the documented transcript is accepted."""
import copy
from pok import *
RULE = 'an evaluation is one tampered or wrongly derived proof offered to the real verifier; distinct = (size, build, manipulation, position)'

def clone(p): return Proof(p.bits, p.E0, p.E1, [Resp(r.tag, r.a, r.b, list(r.chain), r.E2) for r in p.resp])
def flip(b, i, m): b = bytearray(b); b[i % len(b)] ^= m; return bytes(b)
def conj(bits, b): re_, im = dec2(bits, b); return enc2(bits, re_, -im)

def alt_transcripts(bits):
    n = REPS[bits]; sh = lambda d: trits(hashlib.shake_256(d).digest(136 * 40), n)
    cat = lambda hs: b''.join(a + b for a, b in hs)
    H = HASH[bits]
    def t2(stream):
        out = []
        for v in stream:
            for _ in range(5):
                if len(out) == n: return out
                out.append((0, 1, -1)[v % 3]); v //= 3
    yield 'challenge ignores the first curve', lambda b, j0, j1, hs: sh(b'\1' + j1 + cat(hs))
    yield 'challenge ignores the second curve', lambda b, j0, j1, hs: sh(b'\1' + j0 + cat(hs))
    yield 'challenge ignores both curves', lambda b, j0, j1, hs: sh(b'\1' + cat(hs))
    yield 'challenge zeroes the second curve', lambda b, j0, j1, hs: sh(b'\1' + j0 + bytes(len(j1)) + cat(hs))
    yield 'challenge zeroes the first curve', lambda b, j0, j1, hs: sh(b'\1' + bytes(len(j1)) + j1 + cat(hs))
    yield 'challenge uses first curve twice', lambda b, j0, j1, hs: sh(b'\1' + j0 + j0 + cat(hs))
    yield 'curves swapped in challenge', lambda b, j0, j1, hs: sh(b'\1' + j1 + j0 + cat(hs))
    yield 'no domain separation', lambda b, j0, j1, hs: sh(j0 + j1 + cat(hs))
    yield 'commitment domain used for challenge', lambda b, j0, j1, hs: sh(b'\2' + j0 + j1 + cat(hs))
    yield 'challenge ignores commitments', lambda b, j0, j1, hs: sh(b'\1' + j0 + j1)
    yield 'challenge zeroes commitments', lambda b, j0, j1, hs: sh(b'\1' + j0 + j1 + bytes(2 * H * n))
    yield 'challenge ignores last commitment', lambda b, j0, j1, hs: sh(b'\1' + j0 + j1 + cat(hs[:-1]))
    yield 'challenge ignores second half of each commitment pair', lambda b, j0, j1, hs: sh(b'\1' + j0 + j1 + b''.join(a for a, _ in hs))
    yield 'challenge ignores first half of each commitment pair', lambda b, j0, j1, hs: sh(b'\1' + j0 + j1 + b''.join(a for _, a in hs))
    yield 'constant challenge 0', lambda b, j0, j1, hs: [0] * n
    yield 'constant challenge -1', lambda b, j0, j1, hs: [-1] * n
    yield 'constant challenge +1', lambda b, j0, j1, hs: [1] * n
    yield 'challenge only covers first 8 repetitions', lambda b, j0, j1, hs: challenge(b, j0, j1, hs)[:8] + [0] * (n - 8)
    yield 'challenge only covers all but last 5 repetitions', lambda b, j0, j1, hs: challenge(b, j0, j1, hs)[:-5] + [(t + 2) % 3 - 1 for t in challenge(b, j0, j1, hs)[-5:]]
    yield 'binary challenge (no bottom)', lambda b, j0, j1, hs: [t or 1 for t in challenge(b, j0, j1, hs)]
    yield 'biased sampling keeps bytes >= 243', lambda b, j0, j1, hs: t2(hashlib.shake_256(b'\1' + j0 + j1 + cat(hs)).digest(4000))
def alt_commits(bits):
    H = HASH[bits]
    yield 'commitment ignores the curve', lambda b, r, j: hashlib.shake_256(b'\2' + r).digest(H)
    yield 'commitment zeroes the curve', lambda b, r, j: hashlib.shake_256(b'\2' + r + bytes(len(j))).digest(H)
    yield 'commitment zeroes half of the curve', lambda b, r, j: hashlib.shake_256(b'\2' + r + j[:len(j) // 2] + bytes(len(j) // 2)).digest(H)
    yield 'commitment ignores the hiding string', lambda b, r, j: hashlib.shake_256(b'\2' + j).digest(H)
    yield 'commitment zeroes the hiding string', lambda b, r, j: hashlib.shake_256(b'\2' + bytes(len(r)) + j).digest(H)
    yield 'commitment without domain separation', lambda b, r, j: hashlib.shake_256(r + j).digest(H)
    yield 'commitment in challenge domain', lambda b, r, j: hashlib.shake_256(b'\1' + r + j).digest(H)
    yield 'zero commitments', lambda b, r, j: bytes(H)
    yield 'commitment truncated to 16 bytes', lambda b, r, j: hashlib.shake_256(b'\2' + r + j).digest(16) + bytes(H - 16)

def run(c, bits, path, label, level, seed):
    rng = Rng('P03', seed, bits, label); n = REPS[bits]
    srv = PSrv(bits, path, timeout=600); label += ' %d repetitions' % n if n < 40 else ''
    def must_reject(name, pos, text, control=None):
        try: r = srv.verify(text)
        except Crash as e: c.note('no verdict on %s %s: %s' % (name, pos, e.why)); return
        c.expect(r[1] is False, 'reject', (bits, label, name, pos), 'verifier ACCEPTS manipulated proof (p%d %s): %s at %s' % (bits, label, name, pos), key='accept', replay={'bits': bits, 'what': name, 'pos': pos, 'proof': text.decode('latin1')})
    st = Statement(bits, enc2(bits, 6), rng.u64() >> 40, n=3)     # subfield start curve: conjugation stays on it
    hon = [Slot.honest(i) for i in st.inst]; slots = [hon[i % 3] for i in range(n)]
    base = assemble(bits, st.E0, st.E1, st.j0, st.j1, slots, rng)
    good = srv.verify(dump(base)) == (True, True)
    c.event('control', (bits, label, good))
    if not good:
        c.note('independently built honest proof rejected at p%d: tampering a proof of the real prover instead' % bits)
        g = srv.gen(enc2(bits, 6))
        if g is None: return
        try: base = parse(bits, srv.prove(g[2]))
        except BadText: c.note('proof format changed'); return
        # the verifier refuses the documented derivation: does it accept another one?
        if srv.verify(dump(base)) == (True, True):
            ok, why = ref_verify(base)
            c.expect(ok, 'derivation', (bits, label), 'verifier accepts a proof whose challenge/commitments are not derived as documented (p%d %s): %s' % (bits, label, why), key='derivation', replay={'bits': bits, 'proof': dump(base).decode('latin1')})
    by_tag = {t: [i for i in range(n) if base.resp[i].tag == t] for t in TAGS}
    # 1. transcripts other than the documented one
    def other(name, ch):
        same = []
        def f(*a): r = list(ch(*a)); same.append(r == list(challenge(*a))); return r     # by chance the documented challenge
        pf = assemble(bits, st.E0, st.E1, st.j0, st.j1, slots, rng, challenge=f)
        if not same[-1]: must_reject('alternative transcript', name, dump(pf))
    if level >= 2:
        for name, ch in alt_transcripts(bits): other(name, ch)
        for name, cm in alt_commits(bits):
            pf = assemble(bits, st.E0, st.E1, st.j0, st.j1, slots, rng, commit=cm); must_reject('alternative commitment', name, dump(pf))
    elif level >= 1:
        for name, ch in list(alt_transcripts(bits))[2:13:5]: other(name, ch)
    # 2. a repetition answers a different challenge than the one derived (all three answers are known to the forger)
    if good:
        H = HASH[bits]
        pos = {n - 1} if level == 0 else {0, 8, n - 1, rng.below(n)} if level == 1 else {0, 1, 3, 4, 7, 8, 63, n // 2, n - 8, n - 2, n - 1, rng.below(n)}
        for k in sorted(x for x in pos if x < n):
            p = clone(base); r = p.resp[k]; s = slots[k]
            r2 = r.a if r.tag != RIGHT else rng.bytes(HIDE[bits]); r3 = r.b if r.tag != LEFT else rng.bytes(HIDE[bits])
            # needs the openings: rebuild the proof with known randomness
            r2s = [rng.bytes(HIDE[bits]) for _ in range(n)]; r3s = [rng.bytes(HIDE[bits]) for _ in range(n)]
            hs = [(commit(bits, r2s[i], slots[i].j2), commit(bits, r3s[i], slots[i].j3)) for i in range(n)]
            ch = list(challenge(bits, st.j0, st.j1, hs)); ch[k] = rng.choice([t for t in TAGS if t != ch[k]])
            rs = []
            for i, t in enumerate(ch):
                s = slots[i]
                rs.append(Resp(LEFT, r2s[i], hs[i][1], s.left) if t == LEFT else Resp(BOTTOM, r2s[i], r3s[i], s.bottom, s.E2) if t == BOTTOM else Resp(RIGHT, hs[i][0], r3s[i], s.right))
            must_reject('answers another challenge', k, dump(Proof(bits, st.E0, st.E1, rs)))
    # 2b. documented challenge sampling for every kind of byte the hash can deliver (rejected ones, the borders, the extremes)
    if good and n < 40:
        vals = list(range(256)) if c.thorough else list(range(236, 256)) + [0, 1, 2, 3, 80, 81, 127, 128, 161, 162] + [rng.below(236) for _ in range(6)]
        for v in vals if c.thorough or bits < 500 else vals[rng.below(3)::3]:
            at = rng.below(2)
            r2s = [rng.bytes(HIDE[bits]) for _ in range(n)]; r3s = [rng.bytes(HIDE[bits]) for _ in range(n)]; hs = [(commit(bits, r2s[i], slots[i].j2), commit(bits, r3s[i], slots[i].j3)) for i in range(n)]
            pre = hashlib.shake_256(b'\1' + st.j0 + st.j1 + b''.join(a + b for a, b in hs)[:-2 * HASH[bits]])
            for _ in range(6000):
                r2s[-1] = rng.bytes(HIDE[bits]); hs[-1] = (commit(bits, r2s[-1], slots[-1].j2), hs[-1][1]); x = pre.copy(); x.update(hs[-1][0] + hs[-1][1])
                if x.digest(2)[at] == v: break
            else: continue
            rs = [Resp(LEFT, r2s[i], hs[i][1], slots[i].left) if t == LEFT else Resp(BOTTOM, r2s[i], r3s[i], slots[i].bottom, slots[i].E2) if t == BOTTOM else Resp(RIGHT, hs[i][0], r3s[i], slots[i].right) for i, t in enumerate(challenge(bits, st.j0, st.j1, hs))]
            x = dump(Proof(bits, st.E0, st.E1, rs)); ok = srv.verify(x)
            c.expect(ok == (True, True), 'sampling', (bits, label, v, at), 'the challenge is not sampled as documented: proof rejected whose challenge stream has byte %d at position %d (p%d %s)' % (v, at, bits, label), key='derivation', replay={'bits': int(bits), 'repetitions': n, 'byte': v, 'proof': x.decode()})
    # 2c. every place in the list of repetitions counts
    if good and bits == 434 and n > 40 and label == 'fast-rel':
        for k in range(n) if c.thorough else sorted({1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 199, 200, n - 2} | {rng.below(n) for _ in range(6)}):
            p = clone(base); r = p.resp[k]; r.chain[rng.below(len(r.chain))] = enc2(bits, 1); must_reject('kernel without the required order', k, dump(p))
    # 3. openings and commitments altered
    reps = [n - 1] if level == 0 else [0, n - 1, rng.below(n)] if level == 1 else [0, n // 2, n - 1, rng.below(n), rng.below(n)]
    if n < 40: reps = range(n) if c.thorough or bits < 600 else sorted({0, n - 1, rng.below(n), rng.below(n), rng.below(n)})
    for k in reps:
        for fld in ('ab' if level else 'b'):
            L = len(getattr(base.resp[k], fld))
            for i in ([rng.choice([0, L - 1])] if level < 2 else [0, L - 1] if n > 40 else range(L) if c.thorough and bits < 500 else [0, L - 1, rng.below(L), L // 2] if k in (0, n - 1) else [rng.below(L)]):
                p = clone(base); setattr(p.resp[k], fld, flip(getattr(p.resp[k], fld), i, 1 << rng.below(8)))
                must_reject('byte of opening/commitment altered', (k, p.resp[k].tag, fld, i), dump(p))
    # 4. valid chains with another end point, including the conjugate (same real part of the invariant)
    if good and label != 'fast-seq':
        for tag in TAGS if level else TAGS[1:2]:
            if not by_tag[tag]: continue
            ks = [by_tag[tag][-1]] if level < 2 else [by_tag[tag][0], by_tag[tag][-1]]
            for k in ks:
                other = st.inst[(k + 1) % 3]; p = clone(base); r = p.resp[k]
                if tag == LEFT: r.chain = list(other.left)
                elif tag == RIGHT: r.chain = list(other.right)
                else: r.chain, r.E2 = list(other.bottom), other.E2
                must_reject('valid chain to another end point', (k, tag), dump(p))
                if tag == BOTTOM and level:
                    xs, _, _ = refm.mkchain(bits, 2, r.E2, WIDTH, rng.u64() >> 9); p = clone(base); p.resp[k].chain = xs
                    must_reject('middle chain to another end point', (k, tag), dump(p))
                if tag != RIGHT and level:
                    p = clone(base); r = p.resp[k]; r.chain = [conj(bits, x) for x in r.chain]
                    if r.E2: r.E2 = conj(bits, r.E2)
                    must_reject('conjugate chain', (k, tag), dump(p))
    # 5. repetitions permuted, replayed
    if level:
        for tag in TAGS:
            if len(by_tag[tag]) >= 2:
                i, j = by_tag[tag][0], by_tag[tag][-1]
                p = clone(base); p.resp[i], p.resp[j] = p.resp[j], p.resp[i]; must_reject('two repetitions swapped', (i, j, tag), dump(p))
                if level > 1: p = clone(base); p.resp[j] = p.resp[i]; must_reject('repetition replayed', (i, j, tag), dump(p))
    # 6. statement substituted
    oth = refm.mkchain(bits, 2, enc2(bits, 6), 1, rng.u64() >> 9)[1][-1]
    for nm, a, b in (('first curve replaced', oth, base.E1), ('second curve replaced', base.E0, oth), ('curves exchanged', base.E1, base.E0), ('second curve := first', base.E0, base.E0)):
        p = clone(base); p.E0, p.E1 = a, b; must_reject('statement', nm, dump(p))
    # 7. a digit anywhere in the text
    t = dump(base); hexpos = [m.start() for m in re.finditer(rb'[0-9a-f]', t)]
    for _ in range({0: 1, 1: 8, 2: 30}[level] if n > 40 else 200 if c.thorough else 40):
        i = rng.choice(hexpos); old = t[i:i + 1]; new = rng.choice([b'%x' % v for v in range(16)])
        if old == new or t[i + 1:i + 2] == b'x' : continue
        must_reject('digit altered', i, t[:i] + new + t[i + 1:])
    # 8. response selectors outside the defined set, through the struct interface
    for k, tag in [(0, base.resp[0].tag + 256)] + ([(n - 1, base.resp[n - 1].tag - 256), (5, base.resp[5].tag + 65536), (7, 2), (9, -2), (11, 3)] if level == 2 else []):
        r = srv.verify_tag(t, k, tag)
        c.expect(r[1] is False, 'tag', (bits, label, k, tag), 'verifier accepts undefined response selector %d at repetition %d (p%d)' % (tag, k, bits), key='tag', replay={'bits': bits, 'rep': k, 'tag': tag})
    srv.close(); log(bits, label, 'done')

def main(c):
    refm.load(); T = c.thorough
    kinds = [(751, 'fast', 'rel', 0), (434, 'fast', 'rel', 1), (610, 'fast', 'rel', 0), (503, 'fast', 'rel', 0), (434, 'fast', 'seq', 0)]
    if T: kinds = [(b, k, 'rel', 2) for b in reversed(SIZES) for k in ('fast', 'generic')] + [(434, 'fast', 'seq', 2)]
    # the same manipulations, densely, on libraries in which a proof has 16 repetitions
    kinds += [(small(b, 16), 'fast', 'rel', 2) for b in SIZES] + ([(small(434, 16), 'generic', 'rel', 2)] if T else [])
    paths = build_all([(lambda k=k: poik_server(*k[:3])) for k in kinds]); log('built')
    if None in paths: c.note('no build with fewer repetitions'); kinds, paths = zip(*[(k, p) for k, p in zip(kinds, paths) if p])
    for rnd in range(8 if T else 1):
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(run, c, b, p, a + '-' + o, lv, c.seed * 1000 + rnd) for (b, a, o, lv), p in zip(kinds, paths)]: f.result()
        if c.elapsed() > 3000: break
