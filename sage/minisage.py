"""A small stand-in for the part of Sage that verify.sage needs (no Sage in this sandbox): the *source of /repo* is
preparsed and executed, this module only supplies integers, GF(p^2), polynomials, Weierstrass curves, isogenies and SHAKE.
All of it follows the textbook definitions (affine group law, Velu); nothing here knows about proofs.

serve(file): requests on stdin  u8 op, u32 len, u32 reps (0: unchanged), u32 argslen, args joined by '\\0', proof text
             replies            u32 len, i32 status (exit status; 97: something this stand-in lacks, 96: an exception that may be its fault, 98: other exception), u32 outlen, stdout,
                                hash log (u32 inlen, u32 outlen, in, out)*"""
import sys, os, io, re, ast, types, hashlib, random, struct, tokenize, traceback, warnings, math, builtins
class Unsupported(Exception): pass
class SageTypeError(TypeError): pass
# heavy loops can be handed to the compiled reference arithmetic (same formulas); without it everything below runs in Python
ACC = None
if os.environ.get('MINISAGE_ACCEL'):
    import ctypes; ACC = ctypes.CDLL(os.environ['MINISAGE_ACCEL'])
_BITS = {2**a * 3**b - 1: (n, y) for n, a, b, y in ((434, 216, 137, 55), (503, 250, 159, 63), (610, 305, 192, 77), (751, 372, 239, 94))}
def _en(p, *v): y = _BITS[p][1]; return b''.join(int(x.a).to_bytes(y, 'little') + int(x.b).to_bytes(y, 'little') for x in v)
def _de(F, b):
    y = _BITS[F.p][1]; i = [int.from_bytes(b[k:k + y], 'little') for k in range(0, len(b), y)]; return [FE(F, i[k], i[k + 1]) for k in range(0, len(i), 2)]
def _kb(n): return int(n).to_bytes((int(n).bit_length() + 7) // 8, 'little')

# ---------------------------------------------------------------- integers
class Integer(int):
    def _w(f):
        def g(s, o):
            r = f(s, o)
            return r if r is NotImplemented or type(r) is not int else Integer(r)
        return g
    for _n in 'add radd sub rsub mul rmul floordiv rfloordiv mod rmod and rand or ror lshift rlshift rshift rrshift'.split(): exec('__%s__ = _w(int.__%s__)' % (_n, _n))
    def __pow__(s, o, m=None): r = int.__pow__(s, o) if m is None else int.__pow__(s, o, m); return Integer(r) if type(r) is int else r
    def __xor__(s, o): raise Unsupported('^^')
    def __neg__(s): return Integer(-int(s))
    def __truediv__(s, o):
        if isinstance(o, int): return Integer(int(s) // int(o)) if int(s) % int(o) == 0 else int.__truediv__(s, o)
        return NotImplemented
    def __divmod__(s, o): r = int.__divmod__(s, o); return r if r is NotImplemented else (Integer(r[0]), Integer(r[1]))
    def __index__(s): return int(s)
    def __hash__(s): return int.__hash__(s)
    def factor(s): return [(l, e) for l, e in _factor(int(s))]
    def prime_factors(s): return [Integer(l) for l, _ in _factor(int(s))]
    prime_divisors = prime_factors
    def valuation(s, l):
        n, k = int(s), 0
        while n % l == 0: n //= l; k += 1
        return Integer(k)
    def divides(s, o): return int(o) % int(s) == 0
    def nbits(s): return Integer(int(s).bit_length())
    def is_prime_power(s): return len(_factor(int(s))) == 1
    def is_prime(s): return _factor(int(s)) == [(int(s), 1)]
    def sqrt(s): return Integer(math.isqrt(int(s)))
def _factor(n):
    out = []
    for l in (2, 3, 5, 7, 11, 13):
        k = 0
        while n > 1 and n % l == 0: n //= l; k += 1
        if k: out.append((l, k))
    if n > 1:
        if n < 289: out.append((n, 1))
        else: raise Unsupported('factorisation')
    return out

# ---------------------------------------------------------------- GF(p), GF(p^2) = GF(p)(i)
class RingElement: pass
class Fp(Integer):
    """coefficient of a field element; arithmetic stays modulo p"""
    def __new__(c, v, p): o = Integer.__new__(c, v % p); o.p = p; return o
    def _b(f):
        def g(s, o): return Fp(f(int(s), int(o)), s.p) if isinstance(o, int) else NotImplemented
        return g
    __add__ = __radd__ = _b(lambda a, b: a + b); __sub__ = _b(lambda a, b: a - b); __rsub__ = _b(lambda a, b: b - a); __mul__ = __rmul__ = _b(lambda a, b: a * b)
    def __neg__(s): return Fp(-int(s), s.p)
    def __truediv__(s, o): return Fp(int(s) * pow(int(o), -1, s.p), s.p)
    def __pow__(s, e, m=None): return Fp(pow(int(s), int(e), s.p), s.p)
    def lift(s): return Integer(int(s))
    def is_square(s): return int(s) == 0 or pow(int(s), (s.p - 1) // 2, s.p) == 1
class Field:
    _cache = {}
    def __new__(c, p):
        if p not in c._cache: c._cache[p] = object.__new__(c); c._cache[p].p = p
        return c._cache[p]
    def gen(s, k=0): return FE(s, 0, 1)
    def gens(s): return (s.gen(),)
    def characteristic(s): return Integer(s.p)
    def order(s): return Integer(s.p ** 2)
    cardinality = order
    def degree(s): return Integer(2)
    def one(s): return FE(s, 1, 0)
    def zero(s): return FE(s, 0, 0)
    def base_ring(s): return s
    def random_element(s): return FE(s, random.randrange(s.p), random.randrange(s.p))
    def __call__(s, v=0):
        if isinstance(v, FE): return v
        if isinstance(v, int): return FE(s, int(v), 0)
        v = list(v); return FE(s, int(v[0]), int(v[1]) if len(v) > 1 else 0)
    def __getitem__(s, n): return PolynomialRing(s, n)
class FE(RingElement):
    __slots__ = ('F', 'a', 'b')
    def __init__(s, F, a, b): s.F = F; s.a = a % F.p; s.b = b % F.p
    def _c(s, o): return o if type(o) is FE else FE(s.F, int(o), 0) if isinstance(o, int) else None
    def __add__(s, o): o = s._c(o); return NotImplemented if o is None else FE(s.F, s.a + o.a, s.b + o.b)
    __radd__ = __add__
    def __sub__(s, o): o = s._c(o); return NotImplemented if o is None else FE(s.F, s.a - o.a, s.b - o.b)
    def __rsub__(s, o): return s._c(o) - s
    def __mul__(s, o): o = s._c(o); return NotImplemented if o is None else FE(s.F, s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a)
    __rmul__ = __mul__
    def inv(s):
        n = s.a * s.a + s.b * s.b
        if n % s.F.p == 0: raise ZeroDivisionError('division by zero in finite field')
        n = pow(n, -1, s.F.p); return FE(s.F, s.a * n, -s.b * n)
    __invert__ = inv
    def inverse(s): return s.inv()
    def __truediv__(s, o): o = s._c(o); return NotImplemented if o is None else s * o.inv()
    __floordiv__ = __truediv__
    def __rtruediv__(s, o): return s._c(o) * s.inv()
    def __neg__(s): return FE(s.F, -s.a, -s.b)
    def __pos__(s): return s
    def __pow__(s, e):
        e = int(e)
        if e < 0: return s.inv() ** -e
        r = FE(s.F, 1, 0); b = s
        while e:
            if e & 1: r = r * b
            b = b * b; e >>= 1
        return r
    def __eq__(s, o):
        if isinstance(o, (FE, int)): o = s._c(o); return s.a == o.a and s.b == o.b and s.F is o.F
        return NotImplemented
    def __hash__(s): return hash((s.a, s.b))
    def __bool__(s): return bool(s.a or s.b)
    def __iter__(s): return iter((Fp(s.a, s.F.p), Fp(s.b, s.F.p)))
    def __getitem__(s, k): return (Fp(s.a, s.F.p), Fp(s.b, s.F.p))[k]
    def __len__(s): return 2
    def list(s): return [s[0], s[1]]
    def __lt__(s, o): return (s.a, s.b) < (o.a, o.b)
    def __repr__(s): return '%d*i + %d' % (s.b, s.a)
    def parent(s): return s.F
    base_ring = parent
    def is_zero(s): return not s
    def is_one(s): return s == 1
    def conjugate(s): return FE(s.F, s.a, -s.b)
    frobenius = conjugate
    def norm(s): return Fp(s.a * s.a + s.b * s.b, s.F.p)
    def trace(s): return Fp(2 * s.a, s.F.p)
    def is_square(s): return s.norm().is_square()
    def sqrt(s, all=False, extend=False):
        r = _sqrt(s)
        if r is None: raise ValueError('not a square')
        return ([r, -r] if r else [r]) if all else r
    square_root = sqrt
_roots2 = {}
def _sqrt(s):
    """square root in GF(p^2), p = 3 mod 4"""
    k = (s.F.p, s.a, s.b)
    if k not in _roots2:
        if len(_roots2) > 20000: _roots2.clear()
        _roots2[k] = _sqrt_(s)
    return _roots2[k]
def _sqrt_(s):
    p = s.F.p
    if s.b == 0:
        r = pow(s.a, (p + 1) // 4, p)
        return FE(s.F, r, 0) if r * r % p == s.a else FE(s.F, 0, r)
    n = (s.a * s.a + s.b * s.b) % p; t = pow(n, (p + 1) // 4, p)
    if t * t % p != n: return None
    h = pow(2, -1, p)
    for t in (t, -t):
        u = (s.a + t) * h % p; r = pow(u, (p + 1) // 4, p)
        if r * r % p == u and r:
            y = FE(s.F, r, s.b * pow(2 * r, -1, p))
            if y * y == s: return y
    return None
def GF(q, name=None, modulus=None, **k):
    if isinstance(q, tuple): p, n = int(q[0]), int(q[1])
    else:
        p = math.isqrt(int(q)); n = 2
        if p * p != int(q): raise Unsupported('prime field')
    if n != 2 or modulus is not None and [int(v) for v in modulus] != [1, 0, 1] or p % 4 != 3: raise Unsupported('field')
    return Field(p)
FiniteField = GF
def parent(x): return x.parent() if hasattr(x, 'parent') else type(x)

# ---------------------------------------------------------------- polynomials and rational functions over GF(p^2)
class Poly:
    def __init__(s, F, c):
        while c and not c[-1]: c = c[:-1]
        s.F, s.c = F, list(c)
    def _k(s, o): return o if isinstance(o, Poly) else Poly(s.F, [s.F(o)]) if isinstance(o, (int, FE)) else None
    def degree(s): return len(s.c) - 1
    def __bool__(s): return bool(s.c)
    def __add__(s, o):
        o = s._k(o)
        if o is None: return NotImplemented
        n = max(len(s.c), len(o.c)); z = s.F.zero(); return Poly(s.F, [(s.c[i] if i < len(s.c) else z) + (o.c[i] if i < len(o.c) else z) for i in range(n)])
    __radd__ = __add__
    def __neg__(s): return Poly(s.F, [-v for v in s.c])
    def __sub__(s, o): o = s._k(o); return NotImplemented if o is None else s + -o
    def __rsub__(s, o): return s._k(o) - s
    def __mul__(s, o):
        o = s._k(o)
        if o is None: return NotImplemented
        if not s.c or not o.c: return Poly(s.F, [])
        p = s.F.p; n = len(s.c) + len(o.c) - 1; ra, rb = [0] * n, [0] * n
        for i, u in enumerate(s.c):
            for j, v in enumerate(o.c): ra[i + j] += u.a * v.a - u.b * v.b; rb[i + j] += u.a * v.b + u.b * v.a
        return Poly(s.F, [FE(s.F, a, b) for a, b in zip(ra, rb)])
    __rmul__ = __mul__
    def __pow__(s, e):
        r = Poly(s.F, [s.F.one()])
        for _ in range(int(e)): r = r * s
        return r
    def __truediv__(s, o):
        if isinstance(o, (int, FE)): return s * s.F(o).inv()
        return RatFun(s, o)
    def __rtruediv__(s, o): return RatFun(s._k(o), s)
    def divmod(s, o):
        r = list(s.c); d = len(o.c) - 1; q = [s.F.zero()] * max(0, len(r) - d); iv = o.c[-1].inv() if not o.c[-1] == 1 else None
        for i in range(len(r) - 1 - d, -1, -1):
            t = r[i + d] * iv if iv is not None else r[i + d]; q[i] = t
            if t:
                for j in range(d + 1): r[i + j] = r[i + j] - t * o.c[j]
        return Poly(s.F, q), Poly(s.F, r[:d])
    def __mod__(s, o): return s.divmod(o)[1]
    def __floordiv__(s, o): return s.divmod(o)[0]
    def monic(s): return s * s.c[-1].inv()
    def gcd(s, o):
        a, b = s, o
        while b: a, b = b, a % b
        return a.monic() if a else a
    def __call__(s, x):
        r = s.F.zero() if isinstance(x, (int, FE)) else Poly(s.F, [])
        for v in reversed(s.c): r = r * x + v
        return r
    def numerator(s): return s
    def denominator(s): return Poly(s.F, [s.F.one()])
    def list(s): return s.c
    def __eq__(s, o): o = s._k(o); return NotImplemented if o is None else s.c == o.c
    def __hash__(s): return hash(tuple(s.c))
    def powmod(s, e, f):
        p = s.F.p
        if ACC and p in _BITS and f.degree() > 0 and f.c[-1] == 1 and int(e) > 8:
            d = f.degree(); b = s % f; z = s.F.zero(); o = ctypes.create_string_buffer(2 * d * _BITS[p][1]); k = _kb(e)
            ACC.ref_ppow(_BITS[p][0], d, _en(p, *f.c[:-1]), _en(p, *(b.c + [z] * (d - len(b.c)))), k, len(k), o); return Poly(s.F, _de(s.F, o.raw))
        r = Poly(s.F, [s.F.one()]); b = s % f
        for bit in bin(e)[2:]:
            r = r * r % f
            if bit == '1': r = r * b % f
        return r
    def compmod(s, g, f):
        r = Poly(s.F, [])
        for v in reversed(s.c): r = (r * g + v) % f
        return r
    def conj(s): return Poly(s.F, [v.conjugate() for v in s.c])
    _memo = {}
    def roots(s, ring=None, multiplicities=True):
        if ring is not None: raise Unsupported('roots in another ring')
        f = s.monic(); key = (s.F.p, tuple(f.c))
        if key not in Poly._memo: Poly._memo[key] = f._roots()
        R = Poly._memo[key]
        if not multiplicities: return list(R)
        out = []
        for r in R:
            m, g = 0, f; lin = Poly(s.F, [-r, s.F.one()])
            while g and not g(r): g = g // lin; m += 1
            out.append((r, Integer(m)))
        return out
    def _roots(f):
        F, p = f.F, f.F.p; X = Poly(F, [F.zero(), F.one()])
        if f.degree() <= 0: return []
        if f.degree() == 1: return [-f.c[0]]
        if f.degree() % 2 == 0 and not any(f.c[1::2]):          # f(x) = g(x^2)
            out = []
            for y in Poly(F, f.c[::2])._roots():
                r = _sqrt(y)
                if r is not None: out += [r, -r] if r else [r]
            return out
        xp = X.powmod(p, f); xq = xp.conj().compmod(xp, f)
        todo, out = [f.gcd(xq - X)], []
        while todo:
            g = todo.pop()
            if g.degree() <= 0: continue
            if g.degree() == 1: out.append(-g.monic().c[0]); continue
            if g.degree() == 2:
                g = g.monic(); r = _sqrt(g.c[1] * g.c[1] - 4 * g.c[0]); h = F(2).inv(); out += [(-g.c[1] + r) * h, (-g.c[1] - r) * h]; continue
            xp_ = xp % g
            while True:
                t = Poly(F, [F.random_element() for _ in range(g.degree())])
                u = t.powmod((p - 1) // 2, g); u = u.conj().compmod(xp_, g) * u % g      # t^((p-1)/2*(p+1))
                h = g.gcd(u - 1)
                if 0 < h.degree() < g.degree(): todo += [h, g // h]; break
        return out
class RatFun(RingElement):
    def __init__(s, n, d):
        if not d: raise ZeroDivisionError
        g = Poly(d.F, [d.F.one()]) if n and (n.degree() == 0 or d.degree() == 0) else n.gcd(d) if n else d.monic()
        if g.degree() > 0: n, d = n // g, d // g
        s.n, s.d = n, d; s.F = n.F
    def _k(s, o): return o if isinstance(o, RatFun) else RatFun(o if isinstance(o, Poly) else Poly(s.F, [s.F(o)]), Poly(s.F, [s.F.one()])) if isinstance(o, (int, FE, Poly)) else None
    def __add__(s, o): o = s._k(o); return NotImplemented if o is None else RatFun(s.n * o.d + o.n * s.d, s.d * o.d)
    __radd__ = __add__
    def __neg__(s): return RatFun(-s.n, s.d)
    def __sub__(s, o): return s + -s._k(o)
    def __rsub__(s, o): return s._k(o) + -s
    def __mul__(s, o): o = s._k(o); return NotImplemented if o is None else RatFun(s.n * o.n, s.d * o.d)
    __rmul__ = __mul__
    def __truediv__(s, o): o = s._k(o); return RatFun(s.n * o.d, s.d * o.n)
    def __rtruediv__(s, o): return s._k(o) / s
    def __pow__(s, e): return RatFun(s.n ** e, s.d ** e)
    def __bool__(s): return bool(s.n)
    def __eq__(s, o): o = s._k(o); return NotImplemented if o is None else s.n * o.d == o.n * s.d
    def numerator(s): return s.n
    def denominator(s): return s.d
class _Ring:
    def __init__(s, F, rat): s.F, s.rat = F, rat
    def gen(s, k=0): x = Poly(s.F, [s.F.zero(), s.F.one()]); return RatFun(x, Poly(s.F, [s.F.one()])) if s.rat else x
    def gens(s): return (s.gen(),)
    def _first_ngens(s, n): return (s.gen(),)
    def __call__(s, v):
        if isinstance(v, (list, tuple)): return Poly(s.F, [s.F(x) for x in v])
        return v if isinstance(v, (Poly, RatFun)) else Poly(s.F, [s.F(v)])
def FunctionField(F, *a, **k): return _Ring(F, True)
def PolynomialRing(F, *a, **k): return _Ring(F, False)

# ---------------------------------------------------------------- curves  y^2 = x^3 + a2 x^2 + a4 x + a6
class EC:
    def __init__(s, a):
        if a[0] or a[2]: raise Unsupported('general Weierstrass form')
        s.a = tuple(a); s.a2, s.a4, s.a6 = a[1], a[3], a[4]; s._ord = None
        if not s.disc(): raise ArithmeticError('singular curve')
    def disc(s):
        b2, b4, b6 = 4 * s.a2, 2 * s.a4, 4 * s.a6; b8 = 4 * s.a2 * s.a6 - s.a4 * s.a4
        return -b2 * b2 * b8 - 8 * b4 * b4 * b4 - 27 * b6 * b6 + 9 * b2 * b4 * b6
    discriminant = disc
    def c4(s): b2 = 4 * s.a2; return b2 * b2 - 24 * (2 * s.a4)
    def c6(s): b2 = 4 * s.a2; return -b2 * b2 * b2 + 36 * b2 * (2 * s.a4) - 216 * (4 * s.a6)
    _j = {}
    def j_invariant(s):
        rf = [v for v in s.a if isinstance(v, RatFun)]
        if not rf: c = s.c4(); return c * c * c / s.disc()
        key = (rf[0].F.p,) + tuple((tuple(v.n.c), tuple(v.d.c)) if isinstance(v, RatFun) else v for v in s.a)
        if key not in EC._j: c = s.c4(); EC._j[key] = c * c * c / s.disc()
        return EC._j[key]
    def a_invariants(s): return s.a
    ainvs = a_invariants
    def base_field(s): return s.a2.F if isinstance(s.a2, (FE, RatFun)) else s.a4.F
    base_ring = base_field
    def __eq__(s, o): return isinstance(o, EC) and s.a == o.a
    def __hash__(s): return hash(s.a)
    def _key(s): return (s.a2.F.p, s.a2, s.a4, s.a6)
    def rhs(s, x): return ((x + s.a2) * x + s.a4) * x + s.a6
    def is_x_coord(s, x): return _sqrt(s.rhs(x)) is not None
    def lift_x(s, x, all=False, extend=False):
        x = s.base_field()(x); y = _sqrt(s.rhs(x))
        if y is None:
            if all: return []
            raise ValueError('No point with x-coordinate')
        return [Pt(s, x, v) for v in ((y, -y) if y else (y,))] if all else Pt(s, x, y)
    def random_point(s):
        while True:
            y = _sqrt(s.rhs(x := s.base_field().random_element()))
            if y is not None: return Pt(s, x, random.choice((y, -y)))
    random_element = random_point
    def __call__(s, *v):
        if len(v) == 1 and isinstance(v[0], int) and v[0] == 0: return Pt(s, None, None)
        if len(v) == 1: v = v[0]
        if isinstance(v, Pt): v = (v.X, v.Y) if v else (0, 1, 0)
        v = [s.base_field()(t) for t in v]
        if len(v) == 3:
            if not v[2]: return Pt(s, None, None)
            v = [v[0] / v[2], v[1] / v[2]]
        if v[1] * v[1] != s.rhs(v[0]): raise SageTypeError('Coordinates do not define a point')
        return Pt(s, v[0], v[1])
    _ordok = {}
    def set_order(s, n, num_checks=8):
        key = s._key() + (int(n),)
        if key not in EC._ordok:
            r = math.isqrt(int(n)); pts = [s.random_point() for _ in range(min(2, int(num_checks)))]
            EC._ordok[key] = not any((r * r != n or r * P) and int(n) * P for P in pts)
        if not EC._ordok[key]: raise ValueError('Value %s illegal (multiple of random point not the identity)' % n)
        s._ord = Integer(n)
    def order(s):
        if s._ord is None:
            p = s.base_field().p
            if all(not (p + 1) * s.random_point() for _ in range(4)): s._ord = Integer((p + 1) ** 2)
            else: raise Unsupported('point counting')
        return s._ord
    cardinality = order
    def is_supersingular(s, proof=True):
        p = s.base_field().p
        return all(not (p + 1) * P or not (p - 1) * P for P in [s.random_point() for _ in range(4)])
    def division_polynomial(s, l):
        F = s.base_field()
        if l == 2: return Poly(F, [4 * s.a6, 4 * s.a4, 4 * s.a2, F(4)])
        if l == 3: b2, b4, b6 = 4 * s.a2, 2 * s.a4, 4 * s.a6; return Poly(F, [4 * s.a2 * s.a6 - s.a4 * s.a4, 3 * b6, 3 * b4, b2, F(3)])
        raise Unsupported('division polynomial')
    _iso = {}
    def isogeny(s, K, codomain=None, degree=None, model=None, check=True, algorithm=None):
        if not isinstance(K, Pt): raise Unsupported('isogeny from a list')
        if K.E != s: raise ValueError('kernel not on the curve')
        key = s._key() + (K.X, K.Y)
        if key not in EC._iso:
            if len(EC._iso) > 400: EC._iso.clear()
            EC._iso[key] = _chain(s, K)
        return Isog(s, *EC._iso[key])
    def isomorphism_to(s, o):
        if s.j_invariant() != o.j_invariant(): raise ValueError('Curves are not isomorphic')
        F = s.base_field(); c4, c6, d4, d6 = s.c4(), s.c6(), o.c4(), o.c6()
        cand = []
        if c4 and c6: cand = [(c6 / d6) / (c4 / d4)]
        elif c4: r = _sqrt(c4 / d4); cand = [] if r is None else [r, -r]
        else: cand = Poly(F, [-(c6 / d6), F.zero(), F.zero(), F.one()]).roots(multiplicities=False)
        for w in cand:           # w = u^2
            u = _sqrt(w)
            if u is None: continue
            r = (w * o.a2 - s.a2) / 3
            if (s.a4 + 2 * r * s.a2 + 3 * r * r) == w * w * o.a4 and s.rhs(r) == w * w * w * o.a6: return Iso(s, o, u, r)
        raise ValueError('Curves are not isomorphic')
    def is_isomorphic(s, o):
        try: s.isomorphism_to(o); return True
        except ValueError: return False
    def montgomery_model(s, *a, **k): raise Unsupported('montgomery_model')
class Pt:
    __slots__ = ('E', 'X', 'Y'); _memo = {}
    def __init__(s, E, X, Y): s.E, s.X, s.Y = E, X, Y
    def __bool__(s): return s.X is not None
    def is_zero(s): return s.X is None
    def curve(s): return s.E
    scheme = curve
    def xy(s):
        if not s: raise ZeroDivisionError
        return s.X, s.Y
    def x(s): return s.xy()[0]
    def y(s): return s.xy()[1]
    def __getitem__(s, k): F = s.E.base_field(); return ((s.X, s.Y, F.one()) if s else (F.zero(), F.one(), F.zero()))[k]
    def __iter__(s): return iter([s[0], s[1], s[2]])
    def __eq__(s, o):
        if isinstance(o, int) and o == 0: return not s
        return isinstance(o, Pt) and s.E == o.E and s.X == o.X and s.Y == o.Y
    def __hash__(s): return hash((s.X, s.Y))
    def __neg__(s): return Pt(s.E, s.X, -s.Y) if s else s
    def __sub__(s, o): return s + -o
    def __add__(s, o):
        if isinstance(o, int) and o == 0: return s
        if not s: return o
        if not o: return s
        if s.X == o.X:
            if s.Y != o.Y or not s.Y: return Pt(s.E, None, None)
            m = (3 * s.X * s.X + 2 * s.E.a2 * s.X + s.E.a4) / (2 * s.Y)
        else: m = (o.Y - s.Y) / (o.X - s.X)
        x = m * m - s.E.a2 - s.X - o.X
        return Pt(s.E, x, m * (s.X - x) - s.Y)
    def __radd__(s, o): return s if o == 0 else NotImplemented
    def __mul__(s, n):
        if not isinstance(n, int): return NotImplemented
        n = int(n); b = s
        if n < 0: n, b = -n, -s
        if not b or not n: return Pt(s.E, None, None)
        if n < 4: return b if n == 1 else b + b if n == 2 else b + b + b
        key = b.E._key() + (b.X, b.Y, n)
        if key not in Pt._memo:
            if len(Pt._memo) > 20000: Pt._memo.clear()
            Pt._memo[key] = _jmul(b, n)
        r = Pt._memo[key]; return Pt(s.E, r.X, r.Y)
    __rmul__ = __mul__
    def order(s):
        n = int(s.E.order()); o = 1; r = math.isqrt(n)
        if r * r == n and not s * r: n = r          # exponent of a curve with p+1 | #E
        for l, e in _factor(n):
            Q = s * (n // l ** e)
            lo, hi = 0, e                    # smallest k with l^k Q = 0
            while lo < hi:
                k = (lo + hi) // 2
                if Q * l ** k: lo = k + 1
                else: hi = k
            o *= l ** lo
        return Integer(o)
    def has_order(s, n): return not s * n and all(s * (int(n) // l) for l, _ in _factor(int(n)))
    def division_points(s, l, poly_only=False):
        if s: raise Unsupported('division of a finite point')
        l = int(l); E = s.E; F = E.base_field(); out = [E(0)]
        for x in E.division_polynomial(l).roots(multiplicities=False): out += [Pt(E, x, F.zero())] if l == 2 else E.lift_x(x, all=True)
        return out
    def weil_pairing(s, Q, n, algorithm=None):
        n = int(n); E = s.E; F = E.base_field(); one = F.one()
        if s * n or Q * n: raise ValueError('points must have order dividing n')
        if not s or not Q or s == Q: return one
        while True:
            S = E.random_point()
            try: return (_miller(s, Q + S, n) / _miller(s, S, n)) / (_miller(Q, s - S, n) / _miller(Q, -S, n))
            except ZeroDivisionError: pass
def _jmul(P, n):
    """double and add in Jacobian coordinates on y^2 = x^3 + a2 x^2 + a4 x + a6, raw integers"""
    E = P.E; F = E.base_field(); p = F.p
    if ACC and p in _BITS:
        o = ctypes.create_string_buffer(4 * _BITS[p][1]); k = _kb(n)
        if not ACC.ref_wmul(_BITS[p][0], _en(p, E.a2, E.a4, E.a6, P.X, P.Y), k, len(k), o): return Pt(E, None, None)
        return Pt(E, *_de(F, o.raw))
    def mul(u, v): return ((u[0] * v[0] - u[1] * v[1]) % p, (u[0] * v[1] + u[1] * v[0]) % p)
    def sq(u): return ((u[0] + u[1]) * (u[0] - u[1]) % p, 2 * u[0] * u[1] % p)
    def add(u, v): return (u[0] + v[0], u[1] + v[1])
    def sub(u, v): return (u[0] - v[0], u[1] - v[1])
    def k(c, u): return (c * u[0], c * u[1])
    a2, a4 = (E.a2.a, E.a2.b), (E.a4.a, E.a4.b); bx, by = (P.X.a, P.X.b), (P.Y.a, P.Y.b)
    zero = lambda u: u[0] % p == 0 and u[1] % p == 0
    X, Y, Z = bx, by, (1, 0)
    def dbl(X, Y, Z):
        if zero(Z) or zero(Y): return (1, 0), (1, 0), (0, 0)
        yy = sq(Y); z2 = sq(Z); S = k(4, mul(X, yy)); M = add(add(k(3, sq(X)), k(2, mul(a2, mul(X, z2)))), mul(a4, sq(z2)))
        z3 = k(2, mul(Y, Z)); x3 = sub(sub(sq(M), mul(a2, k(4, mul(yy, z2)))), k(2, S)); x3 = (x3[0] % p, x3[1] % p)
        y3 = sub(mul(M, sub(S, x3)), k(8, sq(yy))); return x3, (y3[0] % p, y3[1] % p), (z3[0] % p, z3[1] % p)
    for bit in bin(n)[3:]:
        X, Y, Z = dbl(X, Y, Z)
        if bit == '1':
            if zero(Z): X, Y, Z = bx, by, (1, 0); continue
            z2 = sq(Z); H = sub(mul(bx, z2), X); R = sub(mul(by, mul(z2, Z)), Y)
            if zero(H):
                if zero(R): X, Y, Z = dbl(X, Y, Z)
                else: Z = (0, 0)
                continue
            z3 = mul(Z, H); h2 = sq(H); h3 = mul(H, h2); V = mul(X, h2)
            x3 = sub(sub(sub(sq(R), mul(a2, sq(z3))), h3), k(2, V)); x3 = (x3[0] % p, x3[1] % p)
            y3 = sub(mul(R, sub(V, x3)), mul(Y, h3)); X, Y, Z = x3, (y3[0] % p, y3[1] % p), z3
    if zero(Z): return Pt(E, None, None)
    i = FE(F, *Z).inv(); i2 = i * i
    return Pt(E, FE(F, *X) * i2, FE(F, *Y) * i2 * i)
def _line(P, R, Q):
    E = P.E; one = E.base_field().one()
    if not P and not R: return one
    if not P or not R: v = Q.X - (P if P else R).X
    elif P.X == R.X and (P.Y != R.Y or not P.Y): v = Q.X - P.X
    else:
        m = (3 * P.X * P.X + 2 * E.a2 * P.X + E.a4) / (2 * P.Y) if P.X == R.X else (R.Y - P.Y) / (R.X - P.X)
        v = Q.Y - P.Y - m * (Q.X - P.X)
    if not v: raise ZeroDivisionError
    return v
def _miller(P, Q, n):
    if not Q: raise ZeroDivisionError
    f = P.E.base_field().one(); V = P
    for bit in bin(n)[3:]:
        S = V + V; f = f * f * _line(V, V, Q) / _line(S, -S, Q); V = S
        if bit == '1': S = V + P; f = f * _line(V, P, Q) / _line(S, -S, Q); V = S
    return f
def _velu(E, K, l):
    """one step of prime degree l -> (codomain, evaluation)"""
    F = E.base_field(); t, w, terms = F.zero(), F.zero(), []
    if l == 2: g = 3 * K.X * K.X + 2 * E.a2 * K.X + E.a4; t = g; w = K.X * g; terms = [(K.X, g, F.zero())]
    else:
        Q = K
        for _ in range((l - 1) // 2):
            g = 2 * (3 * Q.X * Q.X + 2 * E.a2 * Q.X + E.a4); u = 4 * Q.Y * Q.Y; t += g; w += u + Q.X * g; terms.append((Q.X, g, u)); Q = Q + K
    z = F.zero(); D = EC((z, E.a2, z, E.a4 - 5 * t, E.a6 - 4 * E.a2 * t - 7 * w))
    def ev(P):
        if not P: return Pt(D, None, None)
        X, m = P.X, F.one()
        for x0, g, u in terms:
            d = P.X - x0
            if not d: return Pt(D, None, None)
            i = d.inv(); gi = g * i; ui = u * i * i; X = X + gi + ui; m = m - (gi + 2 * ui) * i
        return Pt(D, X, P.Y * m)
    return D, ev
def _chain(E, K):
    n = int(K.order()); evs = []; cur = E; F = E.base_field(); p = F.p; fac = _factor(n)
    if ACC and p in _BITS and len(fac) == 1 and fac[0][0] in (2, 3):
        l, e = fac[0]; w = 2 * _BITS[p][1]; o = ctypes.create_string_buffer(w * (2 + 3 * e))
        if ACC.ref_wchain(_BITS[p][0], _en(p, E.a2, E.a4, E.a6, K.X, K.Y), l, e, o) == 1:
            raw = o.raw; a4, a6 = _de(F, raw[:2 * w]); z = F.zero(); D = EC((z, E.a2, z, a4, a6)); steps = raw[2 * w:]; D._ord = E._ord
            def ev(P):
                if not P: return Pt(D, None, None)
                q = ctypes.create_string_buffer(2 * w)
                return Pt(D, *_de(F, q.raw)) if ACC.ref_weval(_BITS[p][0], e, steps, _en(p, P.X, P.Y), q) == 1 else Pt(D, None, None)
            return D, [ev], n
    for l, e in _factor(n):
        st = [(K * (n // l ** e), e)]; rest = K * (l ** e) if len(_factor(n)) > 1 else None
        while st:
            P, k = st[-1]
            if k == 1:
                st.pop(); D, ev = _velu(cur, P, l); evs.append(ev); cur = D; st = [(ev(Q), m - 1) for Q, m in st]
                if rest is not None: rest = ev(rest)
            else:
                m = k // 2 or 1; Q = P
                for _ in range(m): Q = Q + Q if l == 2 else Q * l
                st.append((Q, k - m))
        if rest is not None and rest: K = rest; n = n // l ** e
    cur._ord = E._ord
    return cur, evs, n
class Map:
    def __mul__(s, o): return Comp(o, s)
    def domain(s): return s.D
    def codomain(s): return s.C
class Isog(Map):
    def __init__(s, D, C, evs, n): s.D, s.C, s.evs, s.n = D, C, evs, n
    def degree(s): return Integer(s.n)
    def __call__(s, P):
        if P.E != s.D: raise SageTypeError('point not on the domain')
        for e in s.evs: P = e(P)
        return P
class Iso(Map):
    def __init__(s, D, C, u, r): s.D, s.C, s.u, s.r = D, C, u, r
    def degree(s): return Integer(1)
    def __call__(s, P):
        if P.E != s.D: raise SageTypeError('point not on the domain')
        i = s.u.inv(); i2 = i * i
        return Pt(s.C, (P.X - s.r) * i2, P.Y * i2 * i) if P else Pt(s.C, None, None)
class Comp(Map):
    def __init__(s, f, g): s.f, s.g, s.D, s.C = f, g, f.domain(), g.codomain()
    def degree(s): return s.f.degree() * s.g.degree()
    def __call__(s, P): return s.g(s.f(P))
def EllipticCurve(*a, **k):
    if 'j' in k: raise Unsupported('curve from j')
    F = None
    if len(a) == 2: F, v = a
    else: v = a[0]
    v = list(v)
    if len(v) == 2: v = [0, 0, 0] + v
    rat = [x for x in v if isinstance(x, RatFun)]; fe = [x for x in v if isinstance(x, FE)]
    if F is None: F = rat[0].F if rat else fe[0].F
    v = [F(x) if isinstance(x, int) else x for x in v]
    return EC(v)

# ---------------------------------------------------------------- the rest of the environment
LOG = []
class _Shake:
    def __init__(s, data=None): s.b = b''; s.n = 0; s.rec = None; data and s.update(data)
    def update(s, d): s.b += bytes(d); return s
    def read(s, n):
        o = hashlib.shake_256(s.b).digest(s.n + int(n))[s.n:]; s.n += int(n)
        if s.rec is None: s.rec = [s.b, b'']; LOG.append(s.rec)
        s.rec[1] += o
        return o
def _crypto():
    m = types.ModuleType('Crypto'); h = types.ModuleType('Crypto.Hash'); x = types.ModuleType('Crypto.Hash.SHAKE256')
    x.new = lambda data=None: _Shake(data); x.SHAKE256_XOF = _Shake; h.SHAKE256 = x; m.Hash = h
    sys.modules.update({'Crypto': m, 'Crypto.Hash': h, 'Crypto.Hash.SHAKE256': x})
class _Proof:
    def all(s, *a): pass
    arithmetic = elliptic_curve = all
def cached(f): return f
def parallel(*a, **k):
    def deco(f):
        def g(items):
            for it in items:
                it_ = it if isinstance(it, tuple) else (it,)
                try: r = f(*it_)
                except (SystemExit, KeyboardInterrupt): raise
                except LACK: raise
                except Exception as e: traceback.print_exc(); DIED.append(e); r = 'NO DATA'         # as Sage does when a worker dies
                yield (it_, {}), r
        return g
    return deco(a[0]) if len(a) == 1 and callable(a[0]) and not k else deco
DIED = []
def doubtful(e):
    """an exception that real Sage need not raise: not one of those raised on purpose in this file"""
    if isinstance(e, SageTypeError): return False
    fr = traceback.extract_tb(e.__traceback__); here = bool(fr) and fr[-1].filename == __file__
    if isinstance(e, TypeError): return here or re.search(r'argument|operand|must be|not iterable|callable|not supported', str(e)) is not None
    return here and not isinstance(e, (ValueError, ArithmeticError))
LACK = (Unsupported, AttributeError, NameError, ImportError, NotImplementedError)
def preparse(src):
    src = re.sub(r'^(\s*)(\w+)\.<(\w+)>\s*=\s*(.+)$', r'\1\2 = \4; \3 = \2.gen()', src, flags=re.M)
    out = []; f = False
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        ty, s = t.type, t.string
        if ty == tokenize.FSTRING_START: f += 1
        if ty == tokenize.FSTRING_END: f -= 1
        if ty == tokenize.NUMBER and re.fullmatch(r'0[xX][0-9a-fA-F_]+|0[bB][01_]+|[0-9][0-9_]*', s) and not f: out += [(tokenize.NAME, 'Integer'), (tokenize.OP, '('), (ty, s), (tokenize.OP, ')')]
        elif ty == tokenize.OP and s == '^': out.append((ty, '**'))
        elif ty == tokenize.OP and s == '^=': out.append((ty, '**='))
        else: out.append((ty, s))
    return tokenize.untokenize(out)
def namespace(path):
    import collections, itertools, functools, operator
    return dict(__name__='__main__', __file__=path, Integer=Integer, ZZ=Integer, GF=GF, FiniteField=FiniteField, EllipticCurve=EllipticCurve, FunctionField=FunctionField, PolynomialRing=PolynomialRing, parent=parent,
                RingElement=RingElement, cached_method=cached, cached_function=cached, parallel=parallel, proof=_Proof(), warnings=warnings, os=os, sys=sys, ceil=math.ceil, floor=math.floor, log=math.log, gcd=math.gcd, prod=math.prod, randrange=random.randrange, randint=random.randint, binomial=math.comb,
                factor=lambda n: Integer(n).factor(), prime_factors=lambda n: Integer(n).prime_factors(), valuation=lambda n, l: Integer(n).valuation(l))
class Program:
    def __init__(s, path):
        _crypto(); s.path = path; src = preparse(open(path).read()); tree = ast.parse(src, path); k = len(tree.body)
        for i, st in enumerate(tree.body):
            if isinstance(st, ast.If) and '__name__' in ast.dump(st.test): k = i
        s.ns = namespace(path); s.main = compile(ast.Module(tree.body[k:], []), path, 'exec')
        exec(compile(ast.Module(tree.body[:k], []), path, 'exec'), s.ns)
    def params(s):
        for v in s.ns.values():
            if isinstance(v, dict) and 'p434' in v and 'p751' in v: return v
    def run(s, args, text, reps=0):
        ns = dict(s.ns); LOG.clear(); DIED.clear(); so, si, av = sys.stdout, sys.stdin, sys.argv; P = s.params(); old = None
        if reps:
            if P is None or not all(hasattr(v, 'reps') and hasattr(v, '_replace') for v in P.values()): return 97, 'no parameter table'
            old = dict(P); P.update({k: v._replace(reps=Integer(reps)) for k, v in P.items()})
        sys.stdout, sys.stdin, sys.argv = io.StringIO(), io.TextIOWrapper(io.BytesIO(text), 'latin1', newline=None), [s.path] + args
        saved = builtins.exit if hasattr(builtins, 'exit') else None; builtins.exit = sys.exit
        g = s.ns; keep = dict(g)
        try:
            try: exec(s.main, g); rc = 0
            except SystemExit as e: rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except EOFError: rc = 98
            except LACK: traceback.print_exc(); rc = 97
            except Exception as e: traceback.print_exc(); DIED.append(e); rc = 98
            if rc and rc != 97 and any(doubtful(e) for e in DIED): rc = 96
            return rc & 0xff, sys.stdout.getvalue()
        finally:
            sys.stdout, sys.stdin, sys.argv = so, si, av; builtins.exit = saved
            for k in list(g):
                if k not in keep: del g[k]
            g.update(keep)
            if old: P.update(old)
def serve(path):
    inp, out = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb'); os.dup2(2, 1)
    try: prog = Program(path); err = None
    except Exception as e: traceback.print_exc(); prog, err = None, e
    while True:
        h = inp.read(5)
        if len(h) < 5: return
        q = inp.read(struct.unpack('<I', h[1:])[0]); reps, na = struct.unpack_from('<II', q); args = q[8:8 + na].decode().split('\0') if na else []; text = q[8 + na:]
        rc, so = prog.run(args, text, reps) if prog else (97, repr(err))
        so = so.encode(); b = struct.pack('<iI', rc, len(so)) + so + b''.join(struct.pack('<II', len(i), len(o)) + i + o for i, o in LOG)
        out.write(struct.pack('<I', len(b)) + b); out.flush()
if __name__ == '__main__': serve(sys.argv[1])
