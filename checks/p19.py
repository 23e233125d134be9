"""Secret-independence of branches and addresses: secrets are marked undefined for memcheck, which follows every bit derived from them through the real machine code."""
from vf import *
import vf
RULE = 'an evaluation is one operation run with poisoned secrets under memcheck; distinct = (build, operation, class of public input, secret)'
def build(bits, arch, cc, opt):
    vf.OPT['ct' + opt] = [opt, '-g', '-DNDEBUG']
    exe = link('ct%d_%s_%s%s' % (bits, arch, cc, opt), lib_objs(bits, 'sidh', arch, 'ct' + opt, rng=False, cc=cc), [os.path.join(HARN, 'srv_sidh.c')], 'ct' + opt, ['-I', SRC, '-D', 'BITS=%d' % bits, '-DTAPE', '-DCT'], cc=cc)
    sh = exe + '.sh'; open(sh, 'w').write('#!/bin/sh\nexec valgrind -q --error-limit=no --num-callers=10 %s\n' % exe); os.chmod(sh, 0o755); return exe, sh
def where(err):
    """innermost frames of the last distinct reports"""
    out = []
    for blk in re.split(r'==\d+== \n', err):
        m = re.search(r'==\d+== (Cond|Use of|Syscall)[^\n]*', blk); fr = re.findall(r'(?:at|by) 0x\w+: (\S+)(?: \(([^)]*)\))?', blk)
        if m and fr: out.append(m.group(0).split('== ')[1] + ' at ' + ' < '.join('%s(%s)' % f for f in fr[:5]))
    return out
def main(c):
    T = c.thorough
    if not shutil.which('valgrind'): c.note('valgrind is not installed: nothing observed'); return
    spec = [(b, a, 'clang', '-O3') for b in SIZES for a in ('fast', 'generic')] + [(751, 'mulx', 'clang', '-O3'), (751, 'nomulx', 'clang', '-O3')]
    if T: spec += [(b, a, 'clang', o) for b in SIZES for a in ('fast', 'generic') for o in ('-O0', '-O1')]
    exes = dict(zip(spec, build_all([(lambda s=s: build(*s)) for s in spec]))); log('built')
    def work(sp):
        b, a, cc, o = sp; lab = '%d %s %s %s' % sp; exe, sh = exes[sp]; N = SSrv(b, exe, timeout=120); S = SSrv(b, sh, timeout=600); rng = Rng('P19', c.seed, b)
        seen = []
        def run(kind, ident, f, what):
            S.dirty = []
            try: r = f()
            except Crash as e: c.violation('%s build: %s ends the process (%s): %s' % (lab, what, e.why, e.err[-600:]), 'crash', {'stderr': e.err[-4000:]}); raise
            leak = any(fl & 4 for _, fl, _ in S.dirty)
            if leak:
                w = where(open(S.errf.name, errors='replace').read()); new = [x for x in w if x not in seen]; seen.extend(new)
                c.violation('%s build: %s: control flow or an address depends on secret data: %s' % (lab, what, (new or w or ['?'])[0]), 'leak', {'reports': (new or w)[:20], 'op': S.dirty[0][0], 'payload': S.dirty[0][2][:4000]})
            c.event(kind, ident); return r
        try:
            # controls: the monitor sees a leak through a branch and through an address, and none in plain arithmetic
            ctl = []
            for k in (0, 1, 2): S.dirty = []; S.op('Z', bytes([k, 0, 0])); ctl.append(any(fl & 4 for _, fl, _ in S.dirty))
            if ctl != [True, True, False]: c.note('%s: taint tracking does not work here (%s), nothing observed' % (lab, ctl)); return
            c.event('monitor control', (lab,), 3); seen.extend(where(open(S.errf.name, errors='replace').read()))
            # the same honest material, made without instrumentation
            N.tape(rng.bytes(400)); ska, skb = N.rnd('A')[1], N.rnd('B')[1]; pa, pb = N.keygen('A', ska)[1], N.keygen('B', skb)[1]; rc, pk, sk = N.keypair(); rc, ct, ss = N.enc(pk); rc, ct2, _ = N.enc(pk); rc, pk2, sk2 = N.keypair()
            PKn = len(pk); sec = len(sk) - PKn
            reps = 6 if T else 1
            for k in range(reps):
                S.tape(rng.bytes(500)); 
                run('draw key', (lab, 'A', k), lambda: S.rnd('A'), 'random_mod_order_A'); run('draw key', (lab, 'B', k), lambda: S.rnd('B'), 'random_mod_order_B')
                ka = [ska, bytes(len(ska)), b'\xff' * (len(ska) - 1) + bytes([(1 << (E2[b] % 8 or 8)) - 1])] + [N.rnd('A')[1]]; kb = [skb, bytes(len(skb))] + [N.rnd('B')[1]]
                for x in ka[:4 if T or b < 610 else 2]: run('key generation', (lab, 'A', x.hex()), lambda: S.keygen('A', x), 'EphemeralKeyGeneration_A')
                for x in kb[:3 if T or b < 610 else 2]: run('key generation', (lab, 'B', x.hex()), lambda: S.keygen('B', x), 'EphemeralKeyGeneration_B')
                for w, key, good in (('A', ska, pb), ('B', skb, pa)):
                    pubs = {'honest': good, 'other side': pa if w == 'A' else pb, 'random': b''.join(rng.fp2(b) for _ in range(3)), 'zero': bytes(PKn)}
                    for nm, q in pubs.items():
                        if nm != 'honest' and not T and b > 503: continue
                        run('agreement', (lab, w, nm, k), lambda: S.agree(w, key, q), 'EphemeralSecretAgreement_%s with a public key of kind %s' % (w, nm))
                r = run('KEM key generation', (lab, k), lambda: S.keypair(), 'crypto_kem_keypair')
                for nm, q in (('honest', pk), ('random', b''.join(rng.fp2(b) for _ in range(3)))): run('encapsulation', (lab, nm, k), lambda: S.enc(q), 'crypto_kem_enc for a public key of kind %s' % nm)
                def flip(t, i, m=1): t = bytearray(t); t[i] ^= m; return bytes(t)
                cts = {'honest': ct, 'mask part changed': flip(ct, len(ct) - 1), 'mask part from another': ct[:PKn] + ct2[PKn:], 'curve part from another': ct2[:PKn] + ct[PKn:], 'for another key': N.enc(pk2)[1], 'point changed': flip(ct, 5), 'random': rng.bytes(len(ct)), 'zero': bytes(len(ct)), 'own public key': pk + ct[PKn:]}
                for nm, q in cts.items():
                    if not T and b > 503 and nm in ('for another key', 'mask part from another'): continue
                    got = run('decapsulation', (lab, nm, k), lambda: S.dec(sk, q), 'crypto_kem_dec of a ciphertext of kind %s' % nm)
                    if nm == 'honest': c.expect(got[1] == ss, 'accepting path taken', (lab, k), '%s build under memcheck: the honest ciphertext does not decapsulate to the encapsulated secret' % lab, 'accept')
                run('decapsulation', (lab, 'edge secret', k), lambda: S.dec(bytes(sec) + pk, ct), 'crypto_kem_dec with an all-zero secret key')
        except Crash: return
        finally: S.close(); N.close()
    with cf.ThreadPoolExecutor(8) as ex: [f.result() for f in [ex.submit(work, s) for s in sorted(spec, key=lambda s: -s[0] * (3 if s[1] == 'generic' else 1))]]
