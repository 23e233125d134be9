"""Memory, initialisation, undefined-behaviour and race monitoring of the uncompressed SIDH/SIKE interface with exactly sized buffers and hostile bytes."""
from vf import *
import vf
RULE = 'an evaluation is one call through the public interface under a sanitizer (or memcheck, which also sees the assembly) with exactly sized heap buffers; distinct = (build, operation, input classes, bytes)'
def vg(bits, arch):
    exe = sidh_server(bits, arch, 'vg', exact=True, tag='vgx'); sh = exe + '.sh'
    open(sh, 'w').write('#!/bin/sh\nexec valgrind -q --error-exitcode=99 --exit-on-first-error=yes --num-callers=10 %s\n' % exe); os.chmod(sh, 0o755); return sh
def elements(b, rng):
    p, n = P[b], BY[b]; R = 1 << 8 * n
    two = lambda x, y: x.to_bytes(n, 'little') + y.to_bytes(n, 'little')
    return {'zero': two(0, 0), 'one': two(1, 0), 'two': two(2, 0), 'minus two': two(p - 2, 0), 'six': two(6, 0), 'i': two(0, 1), 'p': two(p, p), 'p-1': two(p - 1, p - 1), 'above p': two(p + 1, p + 2), '2p': two(2 * p % R, 2 * p % R), 'all ones': two(R - 1, R - 1), 'real': two(rng.fp(b), 0), 'imaginary': two(0, rng.fp(b)), 'random': rng.fp2(b), 'random2': rng.fp2(b), 'noise': rng.bytes(2 * n)}
def main(c):
    T = c.thorough
    spec = [(b, 'asan', a) for b in SIZES for a in ('generic', 'fast')] + [(b, 'msan', 'generic') for b in SIZES] + [(b, 'rel', 'fast') for b in SIZES] + [(751, 'rel', 'mulx'), (751, 'rel', 'nomulx')] + [(b, 'vg', 'fast') for b in SIZES] + [(b, 'tsan', a) for b in (434, 751) for a in ('generic', 'fast')]
    def mk(sp):
        b, o, a = sp
        if o == 'vg': return vg(b, a)
        return sidh_server(b, a, o, exact=o != 'rel', rng='real' if o == 'tsan' else 'tape')
    exes = dict(zip(spec, build_all([(lambda s=s: mk(s)) for s in spec]))); log('built')
    c.assumptions.append('assembly routines are watched by memcheck and guard zones instead of compiler instrumentation')
    def work(sp, rnd):
        b, o, a = sp; lab = '%d %s %s' % sp; S = SSrv(b, exes[sp], timeout=240); S.label = lab; rng = Rng('P20', c.seed, rnd, b, o, a)
        if o == 'tsan':
            for k in range(6 if T else 2):
                try: rc, out = S.op('C', bytes([8, 2 if b == 434 else 1]))
                except Crash as e: c.violation('%s: concurrent use ends the process (%s): %s' % (lab, e.why, e.err[:600]), 'race', {'stderr': e.err[:4000]}); return
                c.expect(struct.unpack('<I', out)[0] == 0, 'concurrent callers', (lab, rnd, k), '%s: concurrent callers computed different secrets on the two sides' % lab, 'race')
            rc, err = S.close(); c.expect('WARNING: ThreadSanitizer' not in err, 'race report', (lab, rnd), '%s: data race: %s' % (lab, err[:700]), 'race', {'stderr': err[:4000]}); return
        w = {'asan': 1, 'msan': 1, 'rel': 2, 'vg': .35}[o] * {434: 1.6, 503: 1.1, 610: .8, 751: .5}[b] * (3 if T else 1) * (.6 if a == 'generic' else 1)
        crashed = 0
        def call(kind, ident, what, f):
            nonlocal crashed
            try: r = f()
            except Crash as e:
                crashed += 1; c.violation('%s: %s: %s: %s' % (lab, what, 'does not return within 240 s' if e.why == 'timeout' else 'monitor report (' + e.why + ')', e.err[:800]), 'memory', {'stderr': e.err[:6000], 'case': str(ident)})
                return None
            if S.dirty: d = S.dirty.pop(); c.violation('%s: %s %s' % (lab, what, 'writes outside its buffers' if d[1] & 1 else 'modifies its input'), 'bounds', {'op': d[0], 'payload': d[2]})
            c.event(kind, (lab, ident)); return r
        El = elements(b, rng); names = list(El)
        KA, KB, PK, J, SK, PB, CT, SS = S.sz()
        S.tape(rng.bytes(1000)); sec = SK - PB
        def skey(n): return rng.choice([rng.bytes(n), bytes(n), b'\xff' * n, b'\x01' + bytes(n - 1), bytes(n - 1) + b'\x80', rng.bytes(n)])
        ska, skb = S.rnd('A')[1], S.rnd('B')[1]; pa = call('key generation', ('A', ska.hex()), 'EphemeralKeyGeneration_A', lambda: S.keygen('A', ska)); pb = call('key generation', ('B', skb.hex()), 'EphemeralKeyGeneration_B', lambda: S.keygen('B', skb))
        kp = call('KEM', ('keypair', rnd), 'crypto_kem_keypair', S.keypair)
        if not (pa and pb and kp): return
        pa, pb = pa[1], pb[1]; _, pk, sk = kp; en = call('KEM', ('enc', rnd), 'crypto_kem_enc', lambda: S.enc(pk))
        if not en: return
        ct = en[1]
        def pub(good):
            t = rng.below(8)
            if t == 0: return 'honest', good
            if t == 1: g = bytearray(good); g[rng.below(len(g))] ^= 1 << rng.below(8); return 'flipped', bytes(g)
            if t == 2: k = rng.below(3); n = rng.choice(names); g = bytearray(good); g[k * 2 * BY[b]:(k + 1) * 2 * BY[b]] = El[n]; return 'one ' + n, bytes(g)
            if t == 3: n = rng.choice(names); return 'all ' + n, El[n] * 3
            if t == 4: return 'noise', rng.bytes(PK)
            if t == 5: g = good; s = 2 * BY[b]; return 'repeated', rng.choice([g[:s] * 3, g[s:2 * s] * 3, g[:s] + g[:s] + g[2 * s:], g[s:2 * s] + g[:s] + g[2 * s:]])
            n = [rng.choice(names) for _ in range(3)]; return ' '.join(n), b''.join(El[x] for x in n)
        def loop(count, f):
            for _ in range(max(1, int(count * w))):
                if crashed > 2: return
                f()
        def kg(): k = rng.choice('AB'); key = skey(KA if k == 'A' else KB); call('key generation', (k, key.hex()), 'EphemeralKeyGeneration_%s for key %s' % (k, key.hex()), lambda: S.keygen(k, key))
        def ag(): k = rng.choice('AB'); key = rng.choice([ska if k == 'A' else skb, skey(KA if k == 'A' else KB)]); nm, q = pub(pb if k == 'A' else pa); call('agreement', (k, nm, key.hex(), q.hex()), 'EphemeralSecretAgreement_%s with a public key of kind %s' % (k, nm), lambda: S.agree(k, key, q))
        def en(): nm, q = pub(pk); call('encapsulation', (nm, q.hex()), 'crypto_kem_enc for a public key of kind %s' % nm, lambda: S.enc(q))
        def de():
            nm, q = pub(ct[:PB]); m = rng.choice([ct[PB:], rng.bytes(CT - PB), bytes(CT - PB)]); s = rng.choice([sk, sk, skey(sec) + pk, rng.bytes(SK), skey(sec) + pub(pk)[1]])
            call('decapsulation', (nm, q.hex(), s.hex()), 'crypto_kem_dec of a ciphertext of kind %s' % nm, lambda: S.dec(s, q + m))
        call('decapsulation', ('honest', rnd), 'crypto_kem_dec of an honest ciphertext', lambda: S.dec(sk, ct))
        # every special element at every position once
        for n in names:
            for k in range(3):
                if (o == 'vg' or b > 503) and not T and (names.index(n) + k + c.seed) % 3: continue
                g = bytearray(ct); g[k * 2 * BY[b]:(k + 1) * 2 * BY[b]] = El[n]; call('decapsulation', (n, k, rnd), 'crypto_kem_dec with %s as coordinate %d' % (n, k), lambda: S.dec(sk, bytes(g)))
                if crashed > 2: return
        loop(8, kg); loop(16, ag); loop(8, en); loop(24, de)
        for n in range(1, 3): S.tape(rng.bytes(600), n); call('entropy failure', ('K', n), 'crypto_kem_keypair with failing entropy', S.keypair) if o not in ('msan', 'vg') else None     # outputs stay unset by design then
        S.close(); log(lab, 'done')
    rounds = 12 if T else 1
    for r in range(rounds):
        with cf.ThreadPoolExecutor(8) as ex: [f.result() for f in [ex.submit(work, s, r) for s in sorted(spec, key=lambda s: -s[0] * {'vg': 8, 'msan': 4, 'asan': 3, 'tsan': 9, 'rel': 1}[s[1]])]]
