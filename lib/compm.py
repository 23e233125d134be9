"""Independent model of compressed SIDH/SIKE as far as it is defined by isogenies and hashing (not the encoding of the torsion images)."""
from sikem import *
CGEN = None
FB = {434: 215, 503: 250, 610: 299, 751: 376}      # free bits of Bob's keys: sk_B = 3 * k, k < 2^FB
OA = SKA; OB = {434: 28, 503: 32, 610: 39, 751: 48}
def cgens(bits):
    global CGEN
    if CGEN is None: CGEN = json.load(open(os.path.join(VERIF, 'corpus', 'generators_comp.json')))
    return bytes.fromhex(CGEN[str(bits)]['A']), bytes.fromhex(CGEN[str(bits)]['B'])
def ckey(bits, w, k):
    """(public images, end curve) of the uncompressed key over the compressed scheme's generators"""
    A, B = cgens(bits)
    if w == 'A': return refm.keygen(bits, 2, k.to_bytes(SKA[bits], 'little'), BITS_A[bits], A, B)
    return refm.keygen(bits, 3, k.to_bytes(SKB[bits], 'little'), BITS_B[bits], B, A)
def cshared(bits, a, pkb_images): return refm.agree(bits, 2, a.to_bytes(SKA[bits], 'little'), BITS_A[bits], pkb_images)
def formatB(bits, h): return 3 * (int.from_bytes(h[:SKB[bits]], 'little') & ((1 << FB[bits]) - 1))
def pkA_curve(bits, pk): return pk[3 * OB[bits]:3 * OB[bits] + 2 * BY[bits]]
def pkB_curve(bits, pk): return pk[3 * OA[bits]:3 * OA[bits] + 2 * BY[bits]]
def ct_curve(bits, ct): return ct[4 * OA[bits]:4 * OA[bits] + 2 * BY[bits]]
class CKey:
    """sk = s || SK_A || pk || x(K_A)"""
    def __init__(s, bits, sk, pk): m = MSGB[bits]; s.bits, s.sk, s.pk, s.s, s.a = bits, sk, pk, sk[:m], int.from_bytes(sk[m:m + SKA[bits]], 'little')
def rare_keys(bits):
    out = []
    for line in open(os.path.join(VERIF, 'corpus', 'bob_entangled.txt')):
        b, ind, sk = line.split()
        if int(b) == bits: out.append((int(ind), int.from_bytes(bytes.fromhex(sk), 'little')))
    return out
def shrunk_tree():
    """copy of the library in which the precomputed basis tables have two entries, so that the on-line search after them is the common case; None if the tree is laid out differently"""
    d = os.path.join(tmp(), 'shrunk')
    if os.path.isdir(d): return d
    shutil.copytree(SRC, d); n = 0
    for b in SIZES:
        f = os.path.join(d, 'P%d' % b, 'P%d_internal.h' % b); s = open(f).read()
        t = re.sub(r'(#define\s+TABLE_R_LEN\s+)17\b', r'\g<1>2', s); t = re.sub(r'(#define\s+TABLE_V3_LEN\s+)20\b', r'\g<1>2', t)
        n += t != s; open(f, 'w').write(t)
    return d if n == 4 else None
