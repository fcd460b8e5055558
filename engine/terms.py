"""Scalar values of the verifier and their operations.

A scalar is a Python int/bool/Fraction (Fraction = a float known exactly), a
z3 Int/Real/Bool term, or FN (a float that may be NaN).  Floating point is
treated as real arithmetic (recorded as an assumption in every evidence file).
"""
from fractions import Fraction
import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """The generator has no rule for this construct (never a violation)."""


class FN(object):
    """float that may be NaN: value term and NaN condition"""
    __slots__ = ('v', 'nan')

    def __init__(self, v, nan):
        self.v = v
        self.nan = nan

    def __repr__(self):
        return 'FN(%s, nan=%s)' % (self.v, self.nan)


class Opaque(object):
    """A value about which nothing is known except its identity."""
    def __init__(self, name, *args):
        self.name = name
        self.args = args

    def __repr__(self):
        return 'Opaque(%s)' % (self.name,)


NAN = FN(Fraction(0), True)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_sym_bool(x):
    return isinstance(x, z3.BoolRef)


def is_num(x):
    return isinstance(x, (int, Fraction, FN)) or (
        isinstance(x, z3.ExprRef) and x.sort() in (I, R, B))


def is_scalar(x):
    return is_num(x)


def is_intlike(x):
    if isinstance(x, bool):
        return True
    if isinstance(x, int):
        return True
    return is_z3(x) and (x.sort() == I or x.sort() == B)


def is_floatlike(x):
    return isinstance(x, (Fraction, FN)) or (is_z3(x) and x.sort() == R)


def to_z3(x):
    """z3 term (Int, Real or Bool sort) of a scalar without NaN"""
    if is_z3(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, FN):
        raise Unsupported('NaN-able value used where a plain number is needed')
    raise Unsupported('not a scalar: %r' % (x,))


def as_int(x):
    if isinstance(x, bool):
        return int(x)
    if is_z3(x) and x.sort() == B:
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def zr(x):
    """z3 Real term"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if is_z3(x):
        s = x.sort()
        if s == R:
            return x
        if s == I:
            if z3.is_int_value(x):
                return z3.RealVal(x.as_long())
            return z3.ToReal(x)
        if s == B:
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, FN):
        raise Unsupported('NaN-able value used as a real')
    raise Unsupported('not a number: %r' % (x,))


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_z3(x):
        if x.sort() == I:
            return x
        if x.sort() == B:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an integer: %r' % (x,))


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_z3(x) and x.sort() == B:
        return x
    raise Unsupported('not a bool: %r' % (x,))


def norm(x):
    """turn numerals into Python values"""
    if is_z3(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


# ---------------------------------------------------------------- booleans
def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return norm(a.arg(0))
    return z3.Not(a)


def b_and(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        x = norm(x)
        if x is True:
            continue
        if x is False:
            return False
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    seen = set()
    for x in xs:
        x = norm(x)
        if x is True:
            return True
        if x is False:
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    return a == b


# ------------------------------------------------------------- polynomials
class Poly(object):
    """polynomial over atoms (z3 terms); {((id, power),...): Fraction}"""
    atoms = {}

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c != 0 else {})

    @staticmethod
    def atom(t):
        i = t.get_id()
        Poly.atoms[i] = t           # keeps the term alive: ids stay unique
        return Poly({((i, 1),): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            n = d.get(k, 0) + v
            if n == 0:
                d.pop(k, None)
            else:
                d[k] = n
        return Poly(d)

    def scale(self, c):
        if c == 0:
            return Poly()
        return Poly({k: v * c for k, v in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        d = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                m = dict(k1)
                for a, p in k2:
                    m[a] = m.get(a, 0) + p
                k = tuple(sorted(m.items()))
                n = d.get(k, 0) + v1 * v2
                if n == 0:
                    d.pop(k, None)
                else:
                    d[k] = n
        return Poly(d)

    def is_const(self):
        return not self.d or list(self.d) == [()]

    def const_value(self):
        return self.d.get((), Fraction(0))

    def __eq__(self, o):
        return self.d == o.d

    def key(self):
        return tuple(sorted(self.d.items()))

    def div_monomial(self, k):
        """divide by the monomial k ({id: power}); None if not divisible"""
        d = {}
        for m, v in self.d.items():
            mm = dict(m)
            for a, p in k:
                if mm.get(a, 0) < p:
                    return None
                mm[a] -= p
                if mm[a] == 0:
                    del mm[a]
            d[tuple(sorted(mm.items()))] = v
        return Poly(d)

    def term(self, real):
        """rebuild a z3 term"""
        if not self.d:
            return z3.RealVal(0) if real else z3.IntVal(0)
        parts = []
        for m, c in sorted(self.d.items(), key=lambda kv: (len(kv[0]), kv[0])):
            fs = []
            for a, p in m:
                t = Poly.atoms[a]
                if real and t.sort() == I:
                    t = z3.ToReal(t)
                fs += [t] * p
            if real:
                cc = z3.RealVal(str(c))
            else:
                if c.denominator != 1:
                    raise Unsupported('non-integer coefficient')
                cc = z3.IntVal(int(c))
            if not fs:
                parts.append(cc)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                if c != 1:
                    t = cc * t
                parts.append(t)
        t = parts[0]
        for p in parts[1:]:
            t = t + p
        return t

    def all_int_atoms(self):
        return all(Poly.atoms[a].sort() == I for m in self.d for a, _ in m)

    def degree_in(self, atom_id):
        return max([dict(m).get(atom_id, 0) for m in self.d] or [0])

    def split_on(self, atom_id):
        """coefficient polys by power of the atom"""
        out = {}
        for m, c in self.d.items():
            mm = dict(m)
            p = mm.pop(atom_id, 0)
            out.setdefault(p, {})[tuple(sorted(mm.items()))] = c
        return {p: Poly(d) for p, d in out.items()}


_poly_cache = {}
_keep = []


def poly(t):
    """polynomial normal form of an Int/Real scalar"""
    if isinstance(t, bool):
        return Poly.const(int(t))
    if isinstance(t, (int, Fraction)):
        return Poly.const(t)
    if not is_z3(t):
        raise Unsupported('poly of %r' % (t,))
    i = t.get_id()
    r = _poly_cache.get(i)
    if r is None:
        r = _poly(t)
        _poly_cache[i] = r
        _keep.append(t)
    return r


def _poly(t):
    n = norm(t)
    if not is_z3(n):
        return Poly.const(n)
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = poly(t.arg(0))
            for j in range(1, t.num_args()):
                r = r + poly(t.arg(j))
            return r
        if k == z3.Z3_OP_SUB:
            r = poly(t.arg(0))
            for j in range(1, t.num_args()):
                r = r - poly(t.arg(j))
            return r
        if k == z3.Z3_OP_UMINUS:
            return poly(t.arg(0)).scale(-1)
        if k == z3.Z3_OP_MUL:
            r = poly(t.arg(0))
            for j in range(1, t.num_args()):
                r = r * poly(t.arg(j))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return poly(t.arg(0))
        if k == z3.Z3_OP_DIV:
            d = norm(t.arg(1))
            if isinstance(d, (int, Fraction)) and d != 0:
                return poly(t.arg(0)).scale(Fraction(1) / d)
    if t.sort() == B:
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return Poly.atom(t)


def rat(t, dens):
    """(numerator, denominator) polynomials; the divisors go into dens"""
    n = norm(t)
    if is_z3(n) and z3.is_app(n):
        t = n
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return rat(t.arg(0), dens)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            a, b = rat(t.arg(0), dens)
            for j in range(1, t.num_args()):
                c, d = rat(t.arg(j), dens)
                if k == z3.Z3_OP_SUB:
                    c = c.scale(-1)
                if b == d:
                    a = a + c
                else:
                    a, b = a * d + c * b, b * d
            return a, b
        if k == z3.Z3_OP_UMINUS:
            a, b = rat(t.arg(0), dens)
            return a.scale(-1), b
        if k == z3.Z3_OP_MUL:
            a, b = Poly.const(1), Poly.const(1)
            for j in range(t.num_args()):
                c, d = rat(t.arg(j), dens)
                a, b = a * c, b * d
            return a, b
        if k == z3.Z3_OP_DIV:
            a, b = rat(t.arg(0), dens)
            c, d = rat(t.arg(1), dens)
            if not c.is_const():
                dens.append(t.arg(1))
            elif c.const_value() == 0:
                raise Unsupported('division by zero')
            return a * d, b * c
    return poly(n), Poly.const(1)


def rat_eq(a, b):
    """divisors that must not be zero for a and b to be the same rational
    function, or None"""
    dens = []
    try:
        p, q = rat(a, dens)
        r, s = rat(b, dens)
        return dens if p * s == r * q else None
    except Unsupported:
        return None


def poly_eq(a, b):
    try:
        return poly(a) == poly(b)
    except Unsupported:
        return False


def int_of_real(x):
    """the Int term equal to Real x if x is syntactically integral, else None"""
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else None
    if not is_z3(x):
        return None
    p = poly(x)
    if p.all_int_atoms() and all(c.denominator == 1 for c in p.d.values()):
        return norm(p.term(False))
    return None


# ---------------------------------------------------------------- numbers
def _fn(x):
    if isinstance(x, FN):
        return x
    return FN(x, False)


def mkfn(v, nan):
    nan = norm(nan)
    if nan is False:
        return v
    return FN(v, nan)


def _lift(op):
    def f(a, b):
        if isinstance(a, FN) or isinstance(b, FN):
            a, b = _fn(a), _fn(b)
            return mkfn(op(_tof(a.v), _tof(b.v)), b_or(a.nan, b.nan))
        return op(a, b)
    return f


def _tof(x):
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    return x


def _numpair(a, b):
    """bring two non-FN numbers to a common kind"""
    a, b = norm(a), norm(b)
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if not is_z3(a) and not is_z3(b):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return Fraction(a), Fraction(b), 'c'
        return a, b, 'c'
    if is_floatlike(a) or is_floatlike(b):
        return zr(a), zr(b), 'r'
    return zi(a), zi(b), 'i'


@_lift
def add(a, b):
    a, b, k = _numpair(a, b)
    if k == 'c':
        return a + b
    if norm(a) == 0 and not is_z3(norm(a)):
        return b
    if norm(b) == 0 and not is_z3(norm(b)):
        return a
    return a + b


@_lift
def sub(a, b):
    a, b, k = _numpair(a, b)
    if k == 'c':
        return a - b
    if not is_z3(norm(b)) and norm(b) == 0:
        return a
    return a - b


@_lift
def mul(a, b):
    a, b, k = _numpair(a, b)
    if k == 'c':
        return a * b
    for x, y in ((a, b), (b, a)):
        nx = norm(x)
        if not is_z3(nx):
            if nx == 1:
                return y
            if nx == 0:
                return Fraction(0) if k == 'r' else 0
    return a * b


def neg(a):
    if isinstance(a, FN):
        return FN(neg(a.v), a.nan)
    a = norm(a)
    if isinstance(a, bool):
        a = int(a)
    if not is_z3(a):
        return -a
    if a.sort() == B:
        a = zi(a)
    if z3.is_app_of(a, z3.Z3_OP_UMINUS):
        return a.arg(0)
    return -a


@_lift
def truediv(a, b):
    """a / b, b != 0 is the caller's obligation"""
    a, b = norm(a), norm(b)
    if not is_z3(a) and not is_z3(b):
        if b == 0:
            return z3.RealVal(str(Fraction(a))) / z3.RealVal(0)
        return Fraction(a) / Fraction(b)
    if not is_z3(b):
        if b == 0:
            return zr(a) / z3.RealVal(0)
        return mul(a, Fraction(1) / Fraction(b)) if True else None
    pb = poly(b)
    pa = poly(a)
    if not pa.d:
        return Fraction(0)
    if len(pb.d) == 1:
        (m, c), = pb.d.items()
        q = pa.div_monomial(m)
        if q is not None:
            return norm(q.scale(1 / c).term(True))
    else:
        # a == k * b
        k0 = next(iter(pb.d))
        if k0 in pa.d:
            c = pa.d[k0] / pb.d[k0]
            if pa == pb.scale(c):
                return c
    return zr(a) / zr(b)


def power(a, n):
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if not isinstance(n, int) or n < 0 or n > 8:
        raise Unsupported('power')
    r = Fraction(1) if is_floatlike(a) else 1
    for _ in range(n):
        r = mul(r, a)
    return r


def _cmp(op, cop, eqv):
    def f(a, b):
        if isinstance(a, FN) or isinstance(b, FN):
            a, b = _fn(a), _fn(b)
            return b_and(b_not(a.nan), b_not(b.nan), f(_tof(a.v), _tof(b.v)))
        a, b, k = _numpair(a, b)
        if k == 'c':
            return cop(a, b)
        p = poly(a) - poly(b)
        if p.is_const():
            return cop(p.const_value(), 0)
        return norm(op(a, b))
    return f


lt = _cmp(lambda a, b: a < b, lambda a, b: a < b, False)
le = _cmp(lambda a, b: a <= b, lambda a, b: a <= b, True)
gt = _cmp(lambda a, b: a > b, lambda a, b: a > b, False)
ge = _cmp(lambda a, b: a >= b, lambda a, b: a >= b, True)
_eqn = _cmp(lambda a, b: a == b, lambda a, b: a == b, True)


def eq(a, b):
    """numeric/boolean == (IEEE: NaN is different from everything)"""
    if is_sym_bool(a) and (is_sym_bool(b) or isinstance(b, bool)):
        return b_iff(a, b)
    if is_sym_bool(b) and isinstance(a, bool):
        return b_iff(a, b)
    return _eqn(a, b)


def ne(a, b):
    return b_not(eq(a, b))


def same(a, b):
    """specification equality: equal, or both NaN"""
    if isinstance(a, FN) or isinstance(b, FN):
        a, b = _fn(a), _fn(b)
        return b_and(b_iff(a.nan, b.nan),
                     b_or(a.nan, eq(_tof(a.v), _tof(b.v))))
    return eq(a, b)


def ite(c, a, b):
    c = norm(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, FN) or isinstance(b, FN):
        a, b = _fn(a), _fn(b)
        # the value under NaN is irrelevant: avoid needless ites
        if a.nan is True:
            v = _tof(b.v)
        elif b.nan is True:
            v = _tof(a.v)
        else:
            v = ite(c, _tof(a.v), _tof(b.v))
        nan = b_or(b_and(c, a.nan), b_and(b_not(c), b.nan))
        return mkfn(v, nan)
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    if (is_sym_bool(a) or isinstance(a, bool)) and \
            (is_sym_bool(b) or isinstance(b, bool)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    a2, b2, k = _numpair(a, b)
    if k == 'c':
        if a2 == b2:
            return a2
        if isinstance(a2, Fraction):
            return z3.If(c, zr(a2), zr(b2))
        return z3.If(c, zi(a2), zi(b2))
    if a2.eq(b2):
        return a2
    return z3.If(c, a2, b2)


def smax(a, b):
    """Python max(a, b)"""
    a2, b2 = norm(a), norm(b)
    if not is_z3(a2) and not is_z3(b2) and not isinstance(a2, FN) \
            and not isinstance(b2, FN):
        return max(a2, b2)
    return ite(ge(a, b), a, b)


def smin(a, b):
    a2, b2 = norm(a), norm(b)
    if not is_z3(a2) and not is_z3(b2) and not isinstance(a2, FN) \
            and not isinstance(b2, FN):
        return min(a2, b2)
    return ite(le(a, b), a, b)


def npmax(a, b):
    """numpy.maximum (NaN propagates)"""
    if isinstance(a, FN) or isinstance(b, FN):
        a, b = _fn(a), _fn(b)
        return mkfn(smax(_tof(a.v), _tof(b.v)), b_or(a.nan, b.nan))
    return smax(a, b)


def npmin(a, b):
    if isinstance(a, FN) or isinstance(b, FN):
        a, b = _fn(a), _fn(b)
        return mkfn(smin(_tof(a.v), _tof(b.v)), b_or(a.nan, b.nan))
    return smin(a, b)


def absval(a):
    if isinstance(a, FN):
        return FN(absval(a.v), a.nan)
    a = norm(a)
    if not is_z3(a):
        return abs(a)
    return ite(ge(a, 0), a, neg(a))


def isnan(a):
    return a.nan if isinstance(a, FN) else False


def tofloat(a):
    """float(a) / astype(float)"""
    if isinstance(a, FN):
        return a
    a = norm(a)
    if isinstance(a, (bool, int)):
        return Fraction(int(a))
    if isinstance(a, Fraction):
        return a
    return zr(a)


FLOOR_HOOK = [None]    # names floors of terms over the inputs


def floor_int(a):
    """mathematical floor as an int"""
    if isinstance(a, FN):
        raise Unsupported('floor of NaN-able value to int')
    a = norm(a)
    if isinstance(a, (bool, int)):
        return int(a)
    if isinstance(a, Fraction):
        return a.numerator // a.denominator
    if a.sort() != R:
        return a
    i = int_of_real(a)
    if i is not None:
        return i
    p = poly(a)
    # pull out an integral part: floor(x + n) = floor(x) + n
    ip, rest = {}, {}
    for m, c in p.d.items():
        if c.denominator == 1 and all(Poly.atoms[x].sort() == I
                                      for x, _ in m) and m != ():
            ip[m] = c
        else:
            rest[m] = c
    if ip and rest:
        return norm(_toint(Poly(rest).term(True)) + Poly(ip).term(False))
    return _toint(p.term(True) if len(p.d) < 12 else a)


def _toint(a):
    if FLOOR_HOOK[0] is not None:
        c = FLOOR_HOOK[0](a)
        if c is not None:
            return c
    return z3.ToInt(a)


def npfloor(a):
    if isinstance(a, FN):
        return FN(npfloor(a.v), a.nan)
    return tofloat(floor_int(a))


def ceil_int(a):
    return neg(floor_int(neg(a)))


def npceil(a):
    if isinstance(a, FN):
        return FN(npceil(a.v), a.nan)
    return tofloat(ceil_int(a))


def round_int(a):
    """round half to even, as an int"""
    a = norm(a)
    if isinstance(a, Fraction):
        return round(a)
    if isinstance(a, (bool, int)):
        return int(a)
    if a.sort() != R:
        return a
    i = int_of_real(a)
    if i is not None:
        return i
    h = add(a, Fraction(1, 2))
    f = floor_int(h)
    return ite(b_and(eq(h, f), ne(smod_const(f, 2), 0)), sub(f, 1), f)


def smod_const(f, k):
    if isinstance(f, int):
        return f % k
    return zi(f) % k


def around(a):
    if isinstance(a, FN):
        return FN(around(a.v), a.nan)
    return tofloat(round_int(a))


def trunc_int(a):
    """int(a)"""
    if isinstance(a, FN):
        raise Unsupported('int() of NaN-able value')
    a = norm(a)
    if isinstance(a, (bool, int)):
        return int(a)
    if isinstance(a, Fraction):
        return int(a)
    if a.sort() == B:
        return zi(a)
    if a.sort() == I:
        return a
    i = int_of_real(a)
    if i is not None:
        return i
    return ite(ge(a, 0), floor_int(a), neg(floor_int(neg(a))))


_UF = {}


def uf(name, *sorts):
    """declared-once uninterpreted function"""
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


def rfun(name, *args):
    """transcendental function as an uninterpreted Real function"""
    if any(isinstance(a, FN) for a in args):
        fs = [_fn(a) for a in args]
        return mkfn(rfun(name, *[_tof(f.v) for f in fs]),
                    b_or(*[f.nan for f in fs]))
    return uf(name, *([R] * (len(args) + 1)))(*[zr(a) for a in args])


# second-order terms: Sum(n, lambda m. body), congruence is applied by prove
ARR = z3.ArraySort(I, R)
SUM = z3.Function('SUM', I, ARR, R)


def mksum(n, m, body):
    """sum over m = 0..n-1 of body (a Real term over the Int constant m)"""
    if isinstance(body, FN):
        raise Unsupported('sum of NaN-able values')
    n0 = norm(n)
    b = norm(body)
    if isinstance(n0, int) and n0 <= 0:
        return Fraction(0)
    if isinstance(n0, int) and n0 <= 4 and is_z3(b):
        r = Fraction(0)
        for j in range(n0):
            r = add(r, z3.substitute(zr(b), (m, z3.IntVal(j))))
        return r
    return SUM(zi(n), z3.Lambda([m], zr(body)))


def const_id(t):
    return t.get_id()


_fv_cache = {}


def consts_of(t):
    """set of ids of uninterpreted constants/functions decl names in t"""
    if not is_z3(t):
        return frozenset()
    i = t.get_id()
    r = _fv_cache.get(i)
    if r is not None:
        return r
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(x.children())
    r = frozenset(out)
    _fv_cache[i] = r
    _keep.append(t)
    return r


def subst(t, pairs):
    """substitute [(const, term)] in a scalar"""
    if isinstance(t, FN):
        return mkfn(subst(t.v, pairs), subst(t.nan, pairs))
    if not is_z3(t):
        return t
    ps = []
    for a, b in pairs:
        s = a.sort()
        b2 = zi(b) if s == I else (zr(b) if s == R else zb(b))
        ps.append((a, b2))
    return norm(z3.substitute(t, *ps))


def names_of(v):
    """decl names in a scalar"""
    if isinstance(v, FN):
        return names_of(v.v) | names_of(v.nan)
    return consts_of(v)


def conjuncts(t):
    """flatten And"""
    t = norm(t)
    if t is True:
        return []
    if is_z3(t) and z3.is_and(t):
        r = []
        for c in t.children():
            r += conjuncts(c)
        return r
    return [t]
