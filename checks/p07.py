"""Textual form: reading back what was written gives the same proof, and text that is not a complete well-formed proof is refused."""
from pok import *
RULE = 'an evaluation is one text given to the real reader (and, when accepted, written again by the real writer); distinct = (size, kind of text, position, replacement)'

def rand_proof(bits, rng, raw=False, tags=None):
    n = BY[bits]; f = (lambda: rng.bytes(2 * n)) if raw else (lambda: rng.fp2(bits)); H, D = HASH[bits], HIDE[bits]; rs = []
    for i in range(REPS[bits]):
        t = tags[i % len(tags)] if tags else rng.choice((LEFT, BOTTOM, RIGHT))
        la, lb = {LEFT: (D, H), BOTTOM: (D, D), RIGHT: (H, D)}[t]
        rs.append(Resp(t, rng.bytes(la), rng.bytes(lb), [f() for _ in range(WIDTH if t == BOTTOM else HEIGHT)], f() if t == BOTTOM else None))
    return Proof(bits, f(), f(), rs)

def extremes(bits):
    n = BY[bits]
    for v in (0, 1, P[bits] - 1): yield enc2(bits, v, v)
    yield bytes(2 * n); yield b'\xff' * (2 * n); yield bytes([0x80] * (2 * n)); yield bytes(range(2 * n)); yield b'\0' * n + b'\x0a' * n

def relaxed(text, rng):
    """texts the reader documents as equivalent: white space between tokens, upper case digits"""
    t = text.decode()
    yield 'crlf', t.replace('\n', '\r\n').encode()
    yield 'blank lines', t.replace('\n', '\n\n \t\n').encode()
    yield 'upper', t.upper().replace('0X', '0x').encode()
    yield 'leading white space', b' \n\t' + text
    yield 'no final newline', text.rstrip(b'\n')
    yield 'space after comma', t.replace(',', ' , ').encode()
    yield 'single line', t.replace('\n', ' ').encode()

def line_table(text):
    """[(start, end, kind)] for every line"""
    out, o = [], 0
    for ln in text.split(b'\n')[:-1]:
        k = 'fp2' if b',' in ln else 'tag' if len(ln) <= 2 else 'hex'
        out.append((o, o + len(ln), k)); o += len(ln) + 1
    return out

BADCH = [b'g', b' ', b'-', b'\0', b'\xff', b'\n', b'x', b'G', b':', b'`', b'@', b'/', b'.', b',']
def malformed(bits, text, rng, nlines, ntrunc):
    """(kind, identity, text): none of these is a complete well-formed proof"""
    L = line_table(text); last = len(L) - 1
    tagl = [i for i, l in enumerate(L) if l[2] == 'tag']
    pick = sorted(set([0, 1, 2, 3, 4, 5, last, last - 1] + [tagl[-1] + k for k in range(4)] + [rng.below(last) for _ in range(nlines)]))
    for i in pick:
        a, b, k = L[i]
        if k == 'fp2':
            n = BY[bits]; pos = [a + 2, a + 3, a + 2 + rng.below(2 * n), a + 1 + 2 * n, a + 5 + 2 * n, a + 5 + 2 * n + rng.below(2 * n), b - 1]
            for p in (a, a + 1, a + 3 + 2 * n, a + 4 + 2 * n):
                for ch in (b'1', b'y', b'X'): yield 'prefix', (i, p - a, ch), text[:p] + ch + text[p + 1:]
            c = a + 2 + 2 * n
            for ch in (b';', b'0', b'', b'\n', b',,', b'x'): yield 'comma', (i, ch), text[:c] + ch + text[c + 1:]
            yield 'half element', (i,), text[:c] + text[b:]
        elif k == 'hex': pos = [a, a + 1, a + rng.below(b - a), b - 2, b - 1]
        else:
            for t in (b'2', b'-2', b'3', b'9', b'-10', b'10', b'a', b'', b'-', b'--1', b'1.5', b'x', b'255', b'256', b'257', b'-255', b'-256', b'-257', b'65535', b'65536', b'65537', b'-65536'): yield 'tag', (i, t), text[:a] + t + text[b:]
            continue
        for p in pos:
            for ch in BADCH: yield 'bad digit', (i, p - a, ch), text[:p] + ch + text[p + 1:]
            yield 'digit dropped', (i, p - a), text[:p] + text[p + 1:]
            if i != last: yield 'digit inserted', (i, p - a), text[:p] + b'7' + text[p:]
        yield 'line dropped', (i,), text[:a] + text[b + 1:]
        if i < last and k == 'hex' and L[i + 1][2] == 'hex' and (L[i + 1][1] - L[i + 1][0]) != b - a:
            a2, b2, _ = L[i + 1]; yield 'lines exchanged', (i,), text[:a] + text[a2:b2] + b'\n' + text[a:b] + text[b2:]
    full = len(text.rstrip())
    cuts = {0, 1, 2, full - 1, full - 2, full - BY[bits], full // 2}
    for i in list(range(0, 14)) + [last - k for k in range(10)] + [rng.below(last) for _ in range(ntrunc // 4)]: cuts |= {L[i][0], L[i][1], min(L[i][1] + 1, full - 1), (L[i][0] + L[i][1]) // 2}
    cuts |= {rng.below(full) for _ in range(ntrunc)}
    for q in sorted(cuts):
        if q < full: yield 'truncated', (q,), text[:q]
    # a repetition missing
    for r in (0, REPS[bits] // 2, REPS[bits] - 1):
        s = L[tagl[r]][0]; e = L[tagl[r + 1]][0] if r + 1 < len(tagl) else len(text); yield 'repetition missing', (r,), text[:s] + text[e:]
    yield 'empty', (), b''
    yield 'white space only', (), b' \n\t\n'
    yield 'binary', (), rng.bytes(4000)

def t_roundtrip(c, bits, path, rng, n):
    s = PSrv(bits, path, timeout=120)
    def rt(kind, ident, given, want):
        try: ok, out = s.redump(given)
        except Crash as e: c.violation('reader/writer died on a well-formed proof (%s, p%d): %s' % (kind, bits, e.why), 'roundtrip', {'bits': bits, 'text': given.decode('latin1')}); return
        c.expect(ok, 'well-formed', (bits, kind) + ident, 'a complete well-formed proof is refused (%s, p%d)' % (kind, bits), 'roundtrip', {'bits': bits, 'text': given.decode('latin1')})
        if ok and out != want:
            d = next((i for i in range(min(len(out), len(want))) if out[i] != want[i]), min(len(out), len(want)))
            c.violation('written text differs from what was read (%s, p%d) at byte %d: %r vs %r' % (kind, bits, d, out[max(0, d - 10):d + 20], want[max(0, d - 10):d + 20]), 'roundtrip', {'bits': bits, 'text': given.decode('latin1')})
    for k in range(n):
        p = rand_proof(bits, rng, raw=k & 1, tags=[None, [LEFT], [BOTTOM], [RIGHT], [RIGHT, LEFT]][k] if k < 5 else None); t = dump(p)
        if k == 0: t0 = t
        rt('random', (k,), t, t)
    for v in extremes(bits):       # every element and every byte string at an extreme value
        p = rand_proof(bits, rng); p.E0 = p.E1 = v
        for r in p.resp:
            r.chain = [v] * len(r.chain); r.E2 = v if r.E2 is not None else None; r.a = (v * 3)[:len(r.a)]; r.b = (v * 3)[:len(r.b)]
        t = dump(p); rt('extreme', (v.hex()[:20],), t, t)
    for nm, t in relaxed(t0, rng): rt(nm, (), t, t0)
    for v in list(extremes(bits)) + [rng.bytes(2 * BY[bits]) for _ in range(60)]:
        tx = s.dump_fp2(v); want = t_fp2(bits, v).encode()
        c.expect(tx == want, 'element written', (bits, v.hex()[:16]), 'element %s written as %r (p%d)' % (v.hex(), tx[:80], bits), 'roundtrip', {'bits': bits, 'v': v})
        ok, b = s.parse_fp2(want); c.expect(ok and b == v, 'element read', (bits, v.hex()[:16]), 'element text %r read as %s (p%d)' % (want[:60], b.hex(), bits), 'roundtrip', {'bits': bits, 'v': v})
    for q in range(len(want) - 1):
        ok, b = s.parse_fp2(want[:q]); c.expect(not ok, 'element truncated', (bits, q), 'a curve text cut at %d is accepted (p%d)' % (q, bits), 'malformed', {'bits': bits, 'text': want[:q].decode()})
        for ch in (b'g', b' ', b'\xff'):
            if q == 2 * BY[bits] + 2 and ch == b',': continue
            t = want[:q] + ch + want[q + 1:]
            if ch == b' ' and q in (2 * BY[bits] + 3, 0): continue
            ok, b = s.parse_fp2(t); c.expect(not ok, 'element malformed', (bits, q, ch), 'malformed curve text %r is accepted (p%d)' % (t[:60], bits), 'malformed', {'bits': bits, 'text': t.decode('latin1')})
    s.close(); log('round trip', bits)

def t_malformed(c, bits, path, rng, nlines, ntrunc, tags):
    p = rand_proof(bits, rng, tags=tags); t = dump(p); cases = list(malformed(bits, t, rng, nlines, ntrunc))
    for other in SIZES:
        if other != bits: cases.append(('other parameter size', (other,), dump(rand_proof(other, rng))))
    def one(ch):
        s = PSrv(bits, path, timeout=120)
        for kind, ident, x in ch:
            try: ok, out = s.redump(x)
            except Crash as e: c.violation('reader died on malformed text (%s %r, p%d): %s' % (kind, ident, bits, e.why), 'malformed-crash', {'bits': bits, 'text': x.decode('latin1')}); continue
            c.expect(not ok, 'malformed ' + kind, (bits,) + ident + (tuple(tags) if tags else ()), 'text that is not a complete well-formed proof is accepted by the reader (%s %r, p%d)' % (kind, ident, bits), 'malformed', {'bits': bits, 'kind': kind, 'text': x.decode('latin1')})
        s.close()
    pmap(one, [cases[i::2] for i in range(2)]); log('malformed', bits, len(cases))

def t_cli(c, bits, exe, rng, n):
    """the verification program on streams: dripped input, input ending early"""
    st = Statement(bits, enc2(bits, 6), rng.u64() >> 8, n=1); sl = [Slot.honest(st.inst[0])] * REPS[bits]
    t = dump(assemble(bits, st.E0, st.E1, st.j0, st.j1, sl, rng)); want = (t_fp2(bits, st.E0) + t_fp2(bits, st.E1)).encode()
    def feed(x, chunk):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL); vf_procs.append(p)
        def w():
            try:
                o = 0
                while o < len(x):
                    k = chunk(); p.stdin.write(x[o:o + k]); p.stdin.flush(); o += k
                p.stdin.close()
            except (BrokenPipeError, ValueError): pass
        th = threading.Thread(target=w); th.start(); out = p.stdout.read(); rc = p.wait(); th.join(); return rc, out
    cr = Rng('chunk', bits)
    for nm, ch in (('4096', lambda: 4096), ('tiny', lambda: 1 + cr.below(97)), ('odd', lambda: 1009)):
        rc, out = feed(t, ch); c.expect(rc == 0 and out == want, 'stream', (bits, nm), 'valid proof delivered in pieces (%s) not accepted by verify_%d: exit %d' % (nm, bits, rc), 'stream', {'bits': bits, 'text': t.decode()})
    full = len(t.rstrip())
    for q in sorted({0, 10, full - 1, full - 3} | {cr.below(full) for _ in range(n)}):
        rc, out = feed(t[:q], lambda: 50000); c.expect(rc != 0 and not out, 'stream cut', (bits, q), 'verify_%d accepts a proof cut after %d of %d bytes (exit %d, output %r)' % (bits, q, full, rc, out[:80]), 'malformed', {'bits': bits, 'text': t[:q].decode()})
    log('cli', bits)

import vf
vf_procs = vf._procs
def main(c):
    refm.load(); T = c.thorough
    paths = build_all([(lambda b=b: poik_server(b)) for b in SIZES] + [lambda: cli(434, 'verify'), lambda: cli(503, 'verify')]); log('built')
    jobs = []
    for i, b in enumerate(SIZES):
        for tags in (None, [RIGHT], [BOTTOM], [LEFT]):
            if tags and b != 434 and not T: continue
            jobs.append(lambda i=i, b=b, tags=tags: t_malformed(c, b, paths[i], Rng('P07m', c.seed, b, tags), 40 if T else 4, 3000 if T else 120, tags))
    for i, b in reversed(list(enumerate(SIZES))): jobs.append(lambda i=i, b=b: t_roundtrip(c, b, paths[i], Rng('P07', c.seed, b), 60 if T else 7))
    jobs.append(lambda: t_cli(c, 434, paths[4], Rng('P07c', c.seed, 434), 60 if T else 10))
    if T: jobs.append(lambda: t_cli(c, 503, paths[5], Rng('P07c', c.seed, 503), 60))
    with cf.ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(j) for j in jobs]: f.result()
