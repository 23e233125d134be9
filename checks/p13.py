"""SIKE: keys, ciphertexts and shared secrets are the prescribed ones; decapsulation agrees; entropy failures are reported."""
from sikem import *
RULE = 'an evaluation is one key pair, encapsulation or decapsulation recomputed by the model, or one injected entropy failure; distinct = (size, build, operation, data)'
def kem(c, bits, srvs, rng, n):
    pool = cf.ThreadPoolExecutor(NCPU)
    seen = {'s': [], 'b': [], 'm': []}
    def one(t):
        s, i = t; lab = s.label
        with locks[id(s)]:
            s.tape(Rng('P13tape', c.seed, bits, lab, i).bytes(4096))
            rc, pk, sk = s.keypair()
            if not c.expect(rc == 0, 'keypair status', (bits, lab, i), 'p%d %s: key generation fails with a working entropy source' % (bits, lab), 'kp'): return
            rc, ct, ss = s.enc(pk); rc2, ss2 = s.dec(sk, ct)
            rc3, ct3, ss3 = s.enc(pk)
        k = Key(bits, sk)
        c.expect(k.b >> BITS_B[bits] == 0 and k.pk == pk, 'key layout', (bits, lab, i), 'p%d %s: secret key does not consist of rejection string, in-range scalar and public key' % (bits, lab), 'layout', {'sk': sk, 'pk': pk})
        c.expect(ref_keygen(bits, 'B', k.b)[0] == pk, 'public key', (bits, lab, pk.hex()), 'p%d %s: public key does not belong to the secret scalar' % (bits, lab), 'pk', {'sk': sk, 'pk': pk})
        c.expect(rc == 0 and rc2 == 0 and ss == ss2, 'decapsulation', (bits, lab, ct.hex()), 'p%d %s: decapsulation of an honest ciphertext gives another shared secret' % (bits, lab), 'dec', {'sk': sk, 'ct': ct, 'enc': ss, 'dec': ss2})
        m = open_ct(k, ct)
        want = encaps(bits, pk, m) if m else (None, None)
        c.expect(want[0] == ct, 'ciphertext', (bits, lab, ct.hex()), 'p%d %s: ciphertext is not the encapsulation of the message it carries (ephemeral key not derived from message and public key)' % (bits, lab), 'ct', {'sk': sk, 'ct': ct, 'm': m})
        c.expect(want[1] == ss, 'shared secret', (bits, lab, ct.hex()), 'p%d %s: shared secret is not the hash of message and ciphertext' % (bits, lab), 'ss', {'sk': sk, 'ct': ct, 'ss': ss})
        m3 = open_ct(k, ct3); 
        c.expect(ct3 != ct and m3 != m and ss3 != ss, 'fresh message', (bits, lab, ct3.hex()), 'p%d %s: two encapsulations use the same message' % (bits, lab), 'fresh')
        with plock: seen['s'].append(k.s); seen['b'].append(k.b); seen['m'] += [x for x in (m, m3) if x]
    locks = {id(s): threading.Lock() for s in srvs}; plock = threading.Lock()
    list(pool.map(one, [(s, i) for i in range(n) for s in srvs]))
    # honest exchanges with model-made keys, edge secrets, and model-made ciphertexts
    def edge(t):
        i, b, m, kind = t; key = mkkey(bits, rng2.bytes(MSGB[bits]), b); ct, ss = encaps(bits, key.pk, m)
        for s in srvs:
            with locks[id(s)]: rc, got = s.dec(key.sk, ct)
            c.expect(rc == 0 and got == ss, 'decapsulation of model ciphertext', (bits, s.label, b, m.hex()), 'p%d %s: honest ciphertext made by the model (secret %#x, message %s) is not decapsulated to its shared secret' % (bits, s.label, b, m.hex()), 'decmodel', {'sk': key.sk, 'ct': ct, 'want': ss, 'got': got})
    rng2 = Rng('P13edge', c.seed, bits); eb = edge_keys(bits, 'B', rng2, 30); M = MSGB[bits]
    ms = [bytes(M), b'\xff' * M, b'\x80' + bytes(M - 1), bytes(M - 1) + b'\x01'] + [rng2.bytes(M) for _ in range(8)]
    list(pool.map(edge, [(i, eb[i % len(eb)], ms[i % len(ms)], 'edge') for i in range(n)]))
    # each byte of rejection string, scalar and message varies over the runs
    for nm, v in (('rejection string', seen['s']), ('message', seen['m'])):
        if len(v) >= 24:
            for p in range(M):
                if len({x[p] for x in v}) < 4: c.violation('p%d: byte %d of the %s takes only %d values in %d runs with fresh entropy' % (bits, p, nm, len({x[p] for x in v}), len(v)), 'entropy')
    # entropy failures
    for s in srvs:
        s.tape(); rc, pk, sk = s.keypair(); nk = s.last[0]; s.enc(pk); ne = s.last[0]
        for op, cnt in (('keypair', nk), ('encapsulation', ne)):
            c.event('entropy requests', (bits, s.label, op, cnt))
            for f in range(1, cnt + 1):
                s.tape(b'', f); rc = s.keypair()[0] if op == 'keypair' else s.enc(pk)[0]
                c.expect(rc != 0, 'entropy failure', (bits, s.label, op, f), 'p%d %s: %s reports success although entropy request %d of %d failed' % (bits, s.label, op, f, cnt), 'entropyfail')
        s.tape()
        if s.dirty: c.violation('p%d %s: call %r wrote outside its buffers or modified its inputs' % (bits, s.label, s.dirty[0][:2]), 'dirty', s.dirty[0])
def main(c):
    refm.load(); T = c.thorough
    kinds = [(b, a) for b in SIZES for a in ('fast', 'generic')] + [(751, 'mulx'), (751, 'nomulx')]
    paths = dict(zip(kinds, build_all([(lambda b=b, a=a: sidh_server(b, a)) for b, a in kinds]))); log('built')
    t0 = time.time()
    for rnd in range(30 if T else 1):
        def job(b):
            srvs = [SSrv(b, paths[k], label=k[1]) for k in kinds if k[0] == b]
            c0 = c.seed; kem(c, b, srvs, Rng('P13', c.seed, rnd, b), 40 if T else {434: 24, 503: 16, 610: 10, 751: 6}[b])
            for s in srvs: s.close()
            log(b, 'done')
        with cf.ThreadPoolExecutor(4) as ex: list(ex.map(job, SIZES))
        c.seed += 1000
        if time.time() - t0 > 2500: break
