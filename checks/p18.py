"""SHAKE128/256 of the library = the standard, for all lengths, alignments and splittings of the output; nothing outside the buffers is touched."""
from vf import *
RULE = 'an evaluation is one call compared byte by byte with hashlib; distinct = (algorithm, way of calling, input length, output length or block split, placements of both buffers)'
RATE = (168, 136); HL = (hashlib.shake_128, hashlib.shake_256)
def build(tag, cc, flags, san=()):
    out = os.path.join(tmp(), 'sha_' + tag); src = [os.path.join(SRC, 'sha3', 'fips202.c'), os.path.join(HARN, 'srv_sha.c')]
    objs = [compile_obj(s, flags + list(san) + BASE + ARCHF['fast'] + ['-I', os.path.join(SRC, 'sha3')], cc) for s in src]
    import vf; vf._cc([cc] + list(san) + objs + ['-o', out]); return out
class Sha:
    def __init__(s, path): s.errf = tempfile.NamedTemporaryFile(dir=tmp(), delete=False); s.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=s.errf, env=env()); import vf; vf._procs.append(s.p)
    def rd(s, n):
        b = s.p.stdout.read(n)
        if len(b) < n: raise Crash('exit %s' % s.p.wait(), open(s.errf.name, errors='replace').read())
        return b
    def req(s, op, alg, im, om, data, outlen, sq=(), huge=0):
        try: s.p.stdin.write(struct.pack('<BBBBIIIIQ', ord(op), alg, im, om, len(data), outlen, len(sq), 0, huge) + struct.pack('<%dI' % len(sq), *sq) + data); s.p.stdin.flush()
        except BrokenPipeError: pass
        if op in 'HJ':
            f = s.rd(1)[0]; return f, (s.rd(200) if f == 0 else b'')
        f, n = struct.unpack('<BI', s.rd(5)); return f, s.rd(n)

def main(c):
    T = c.thorough
    vs = [('clang-O3', 'clang', ['-O3', '-march=native'], ()), ('clang-O0', 'clang', ['-O0'], ()), ('gcc-O3', 'gcc', ['-O3', '-march=native'], ()), ('gcc-O2', 'gcc', ['-O2'], ()),
          ('asan', 'clang', ['-O1', '-g'], ('-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all')), ('msan', 'clang', ['-O1', '-g'], ('-fsanitize=memory',))]
    exes = build_all([(lambda v=v: build(*v)) for v in vs]); log('built')
    c.assumptions.append('x86-64: the code reads and writes 64-bit words at any address, which this processor allows')
    def one(s, lab, op, alg, im, om, data, outlen, sq=(), nm=''):
        ident = (lab, alg, op, im, om, len(data), outlen, tuple(sq)); rep = {'build': lab, 'alg': 'shake%d' % (128, 256)[alg], 'data': data.hex()[:4000], 'outlen': outlen, 'blocks': list(sq), 'placement': (im, om)}
        f, o = s.req(op, alg, im, om, data, outlen, sq)
        n = outlen if op == 'O' else sum(sq) * RATE[alg]; want = HL[alg](data).digest(n)
        how = 'shake%d(%d bytes -> %d bytes%s) in the %s build' % ((128, 256)[alg], len(data), n, '' if op == 'O' else ', squeezed as %s blocks' % (list(sq),), lab)
        c.expect(o == want, 'one call' if op == 'O' else 'absorb and squeeze', ident, how + ' differs from the standard at byte %d' % next((i for i in range(n) if o[i] != want[i]), -1), 'value', dict(rep, got=o.hex()[:800], want=want.hex()[:800]))
        if f: c.violation(how + ' ' + ', '.join(t for b, t in ((1, 'writes outside the output'), (2, 'changes the input or memory around it'), (4, 'writes outside the 25-word state')) if f & b), 'bounds', rep)
    def work(i):
        lab = vs[i][0]; s = Sha(exes[i]); rng = Rng('P18', c.seed, lab); slow = lab in ('clang-O0', 'asan', 'msan')
        try:
            for alg in (0, 1):
                R = RATE[alg]
                # every input length over several blocks, flush with an inaccessible page at its end and start; output lengths cycle over everything
                span = 8 * R if T else 3 * R + 9
                for n in range(span):
                    d = rng.bytes(n)
                    one(s, lab, 'O', alg, 0, 0, d, 1 + (n * 37) % (3 * R)); one(s, lab, 'O', alg, 1, 1, d, (32, 64, R, n)[n & 3])
                    if n % (1 if T else 5) == 0 or n % R in (0, 1, 2, R - 2, R - 1): one(s, lab, 'I', alg, 0, 0, d, 0, (1,)); one(s, lab, 'I', alg, 1, 1, d, 0, (1, 2, 0, 1)); one(s, lab, 'I', alg, n % 8 + 2, 0, d, 0, (4,))
                for m in range(0, span): one(s, lab, 'O', alg, 2 + m % 8, 0, rng.bytes((m * 29) % (2 * R)), m); one(s, lab, 'O', alg, 0, 1, rng.bytes(m % 11), m)
                # all alignments of both buffers around the boundaries
                for im in range(2, 18):
                    for om in range(2, 18) if not slow or T else range(2, 18, 3):
                        for n in (0, 1, 7, 8, 9, R - 9, R - 8, R - 1, R, R + 1, R + 7, 2 * R - 1, 2 * R)[(im + om) % 3 if not T else 0::3 if not T else 1]: one(s, lab, 'O', alg, im, om, rng.bytes(n), (R - 1, R, R + 1, 2 * R, 33, 8, 1)[(n + im) % 7])
                # structured contents: all-zero, all-one, single set bits, trailing bytes that look like padding
                for n in (R - 2, R - 1, R, R + 1, 2 * R - 1, 17, 0, 8):
                    for d in (bytes(n), b'\xff' * n, bytes(max(n - 1, 0)) + b'\x1f'[:n], bytes(max(n - 1, 0)) + b'\x80'[:n], bytes(max(n - 2, 0)) + b'\x1f\x80'[:n], b'\x1f'[:n] + bytes(max(n - 1, 0))): one(s, lab, 'O', alg, 0, 0, d, 64); one(s, lab, 'I', alg, 0, 0, d, 0, (1, 1))
                for bit in range(0, 8 * R, 1 if T else 7): d = bytearray(R); d[bit // 8] = 1 << bit % 8; one(s, lab, 'O', alg, 1, 0, bytes(d), R)
                # splittings and long data
                for _ in range(400 if T else 40):
                    sq = [rng.choice((0, 1, 1, 1, 2, 3, 5, 9)) for _ in range(1 + rng.below(7))]; one(s, lab, 'I', alg, rng.below(10), rng.below(10), rng.bytes(rng.below(6 * R)), 0, sq)
                for _ in range(60 if T else 6): one(s, lab, 'O', alg, rng.below(10), rng.below(10), rng.bytes(rng.below(300000)), rng.below(300000)); one(s, lab, 'I', alg, rng.below(2), rng.below(2), rng.bytes(rng.below(300000)), 0, (rng.below(400), 1, rng.below(400)))
                for n in (65535, 65536, 65537, 1 << 20, (1 << 20) + 1): one(s, lab, 'O', alg, 0, 0, rng.bytes(n), 65537 if not slow else 200)
                one(s, lab, 'O', alg, 0, 0, b'x', 2 * 65536 + 3); one(s, lab, 'I', alg, 0, 0, b'x', 0, (300, 257))
        except Crash as e: c.violation('%s build: the hash ends the process (%s) %s' % (lab, e.why, e.err[:600]), 'crash', {'stderr': e.err[:4000]})
    # lengths beyond 32 bits
    B = 1 << 21; blk = None
    def big(alg):
        nonlocal blk
        # chunk i: i*167 + (i >> 8)*29 + (i >> 16)  (mod 256), the same pattern as in the harness
        b = bytearray(B)
        row = bytes(i * 167 & 255 for i in range(256))
        for hi in range(B >> 8): k = hi * 29 + (hi >> 8) & 255; b[hi << 8:hi + 1 << 8] = bytes((x + k) & 255 for x in row)
        b = bytes(b); L = (1 << 32) + 77; h = HL[alg]()
        for _ in range(L // B): h.update(b)
        h.update(b[:L % B]); want = h.digest(200)
        try: f, o = Sha(exes[0]).req('H', alg, 0, 0, b'', 0, (), L)
        except Crash as e: c.violation('hashing %d bytes ends the process (%s)' % (L, e.why), 'crash'); return
        if f: c.note('long input could not be mapped'); return
        c.expect(o == want, 'more than 2^32 bytes', (alg, L), 'shake%d of %d bytes differs from the standard' % ((128, 256)[alg], L), 'value', {'length': L, 'got': o.hex(), 'want': want.hex()})
    def bigout(alg):
        L = (1 << 32) + 333; want = HL[alg](b'long output').digest(L)[-200:]
        try: f, o = Sha(exes[0]).req('J', alg, 0, 0, b'', 0, (), L)
        except Crash as e: c.violation('squeezing %d bytes ends the process (%s)' % (L, e.why), 'crash'); return
        if not f: c.expect(o == want, 'more than 2^32 bytes', ('out', alg, L), 'shake%d with %d bytes of output differs from the standard' % ((128, 256)[alg], L), 'value', {'length': L})
    with cf.ThreadPoolExecutor(8) as ex: fs = [ex.submit(big, 1)] + [ex.submit(work, i) for i in range(len(vs))] + ([ex.submit(big, 0), ex.submit(bigout, 1), ex.submit(bigout, 0)] if T else []); [f.result() for f in fs]
