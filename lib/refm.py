"""ctypes face of the independent reference implementation (ref/ref.cpp)."""
import ctypes as C
from vf import *
L = None
def load():
    global L
    if L is None:
        L = C.CDLL(build_ref())
    return L
def _b(n): return C.create_string_buffer(n)
def curve_ok(bits, A): return bool(L.ref_curve_ok(bits, A))
def j(bits, A): o = _b(2 * BY[bits]); L.ref_j(bits, A, o); return o.raw
def canon(bits, A):
    o = _b(2 * BY[bits]); return o.raw if L.ref_canon(bits, A, o) == 1 else None
def model(bits, A, idx, x=None):
    B, xo = _b(2 * BY[bits]), _b(2 * BY[bits])
    if L.ref_model(bits, A, x, idx, B, xo) != 1: return None
    return (B.raw, xo.raw) if x else B.raw
def chain(bits, l, A, xs):
    n = len(xs); jj, Ae, pos = _b(2 * BY[bits]), _b(2 * BY[bits]), C.c_int()
    rc = L.ref_chain(bits, l, A, n, b''.join(xs), jj, Ae, C.byref(pos))
    return rc, pos.value, jj.raw, Ae.raw
def mkchain(bits, l, A, n, seed, back_at=-1, low_at=-1, low_by=0):
    w = 2 * BY[bits]; xs, As, jj = _b(w * n), _b(w * (n + 1)), _b(w)
    if L.ref_mkchain(bits, l, A, n, C.c_uint64(seed), back_at, low_at, low_by, xs, As, jj) != 1: return None
    return [xs.raw[w * i:w * i + w] for i in range(n)], [As.raw[w * i:w * i + w] for i in range(n + 1)], jj.raw
class Inst: pass
def instance(bits, As, xs, seed, left_back_at=-1, w=WIDTH, h=HEIGHT, given=None):
    n = 2 * BY[bits]; le, e2, bo, ri, j2, j3 = _b(n * h), _b(n), _b(n * w), _b(n * h), _b(n), _b(n)
    if L.ref_instance(bits, b''.join(As), b''.join(xs), w, h, C.c_uint64(seed), left_back_at, b''.join(given) if given else None, le, e2, bo, ri, j2, j3) != 1: return None
    o = Inst(); o.left = [le.raw[n * i:n * i + n] for i in range(h)]; o.bottom = [bo.raw[n * i:n * i + n] for i in range(w)]
    o.right = [ri.raw[n * i:n * i + n] for i in range(h)]; o.E2 = e2.raw; o.j2 = j2.raw; o.j3 = j3.raw
    return o
def isog(bits, l, A, x, push=None):
    n = 2 * BY[bits]; a, p = _b(n), _b(n); rc = L.ref_isog(bits, l, A, x, push, a, p)
    return (rc, a.raw, p.raw)
def mul(bits, A, x, l, k):
    o = _b(2 * BY[bits]); return o.raw if L.ref_mul(bits, A, x, l, k, o) == 1 else None
def ladder(bits, A, x, k):
    kb = k.to_bytes((k.bit_length() + 7) // 8 or 1, 'little'); o = _b(2 * BY[bits])
    return o.raw if L.ref_ladder(bits, A, x, kb, len(kb), o) == 1 else None
def point(bits, A, l, k, seed): o = _b(2 * BY[bits]); L.ref_point(bits, A, l, k, C.c_uint64(seed), o); return o.raw
def oncurve(bits, A, x): return bool(L.ref_oncurve(bits, A, x))
def fp2(bits, op, x, y=None): o = _b(2 * BY[bits]); L.ref_fp2(bits, ord(op), x, y, o); return o.raw
def sqrt(bits, x): o = _b(2 * BY[bits]); return o.raw if L.ref_sqrt(bits, x, o) == 1 else None
def keygen(bits, l, sk, nbits, own, oth):
    pk, A = _b(6 * BY[bits]), _b(2 * BY[bits]); ok = L.ref_keygen(bits, l, sk, nbits, own, oth, pk, A); return (pk.raw, A.raw) if ok == 1 else None
def agree(bits, l, sk, nbits, pk):
    o = _b(2 * BY[bits]); return o.raw if L.ref_agree(bits, l, sk, nbits, pk, o) == 1 else None
def pkvalid(bits, pk): return bool(L.ref_pkvalid(bits, pk))
def getA(bits, pk): o = _b(2 * BY[bits]); L.ref_getA(bits, pk, o); return o.raw
# order of the point with abscissa x inside the l-primary part (exponent), -1 if not l-primary
def lorder(bits, A, x, l):
    e = E2[bits] if l == 2 else E3[bits]
    for k in range(e + 1):
        if mul(bits, A, x, l, k) is None: return k
    return -1

def dlog2(bits, A, K, M):
    o = _b(64); return int.from_bytes(o.raw, 'little') if L.ref_dlog2(bits, A, K, M, o) == 1 else None
