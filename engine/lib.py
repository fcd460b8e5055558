"""Contracts of the library functions the code under verification calls.

Each entry is a specification of a dependency (Python builtins, numpy, math,
scipy, os.path ...): assumed, not proved.  `lib_assumed` names those worth
reporting as assumptions.
"""
from fractions import Fraction
from .terms import *
from .values import *

SUM2 = z3.Function('SUM2', I, I, z3.ArraySort(I, I, R), R)
from . import prove as _prove
_prove.HO['SUM2'] = 2


def mksum2(n0, n1, i, j, body):
    return SUM2(zi(n0), zi(n1), z3.Lambda([i, j], zr(body)))


def kind_of(v):
    from .interp import kind_of as k
    return k(v)


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def mkarr(st, shape, kind, get, info=None):
    return st.new(ArrRec(shape, kind, get, info=info))


def shape_of(ip, st, v):
    if is_scalar(v):
        return (norm(v),)
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, Ref) and isinstance(st.heap[v.id], SeqRec):
        it = st.heap[v.id].concrete()
        if it is not None:
            return tuple(norm(x) for x in it)
    raise Unsupported('array shape')


DT = {'int': ('i', 'int64'), 'float': ('f', 'float64'), 'bool': ('b', 'bool'),
      'int8': ('i', 'int8'), 'int16': ('i', 'int16'),
      'int32': ('i', 'int32'), 'int64': ('i', 'int64'),
      'uint8': ('i', 'uint8'), 'float32': ('f', 'float32'),
      'float64': ('f', 'float64'), 'f': ('f', 'float32'),
      'f8': ('f', 'float64'), 'f4': ('f', 'float32'),
      'd': ('f', 'float64'), 'i': ('i', 'int32'), 'object': ('o', 'object'),
      'bool_': ('b', 'bool'), 'double': ('f', 'float64')}


def dtype_of(v):
    if v is None:
        return None
    if isinstance(v, DType):
        return v
    if isinstance(v, str):
        if v in DT:
            return DType(*DT[v])
    if isinstance(v, Native) and v.name in DT:
        return DType(*DT[v.name])
    raise Unsupported('dtype %r' % (v,))


def astype(ip, st, a, kind, check=True):
    """ArrRec converted to a kind"""
    from .interp import conv
    if a.kind == kind:
        return a
    if kind == 'i' and a.kind == 'f':
        idx = tuple(ip.fresh('ai', I) for _ in a.shape)
        v = a.get(idx)
        if isinstance(v, FN):
            s2 = st.copy()
            for i, s in zip(idx, a.shape):
                s2.assume(b_and(ge(i, 0), lt(i, s)))
            ip.obl(s2, 'NaN is not converted to an integer', b_not(v.nan))
    return ArrRec(a.shape, kind, lambda idx: conv(kind, a.get(idx)))


def need_array(ip, st, v):
    a = ip.to_array(st, v)
    if a is None:
        raise Unsupported('array expected: %r' % (v,))
    if isinstance(a.info, MaskInfo):
        raise Unsupported('function of a masked array')
    return a


def masked_array(ip, st, v):
    """(array, mask) of a masked or ordinary array"""
    a = ip.to_array(st, v)
    if a is None:
        raise Unsupported('array expected: %r' % (v,))
    if isinstance(a.info, MaskInfo):
        return a, a.info.get
    return a, (lambda idx: False)


def newcopy(st, a):
    return st.new(ArrRec(a.shape, a.kind, a.base, a.layers, a.info))


# ------------------------------------------------------------- construction
def np_array(ip, st, args, kw):
    v = args[0]
    dt = dtype_of(arg(args, kw, 1, 'dtype'))
    if isinstance(v, Opaque):
        return v
    a = need_array(ip, st, v)
    if dt is not None:
        a = astype(ip, st, a, dt.kind)
    return newcopy(st, a)


def np_asarray(ip, st, args, kw):
    if ip.is_array(st, args[0]) and isinstance(args[0], Ref) and \
            len(args) == 1 and not kw:
        return args[0]
    return np_array(ip, st, args, kw)


def filler(value, unknown=False):
    def f(ip, st, args, kw):
        shape = shape_of(ip, st, arg(args, kw, 0, 'shape'))
        for s in shape:
            if is_floatlike(s):
                ip.obl(st, 'array extent is an integer', False)
                raise Unsupported('float extent')
            if not isinstance(s, int):
                ip.obl(st, 'array extent is not negative', ge(s, 0))
        dt = dtype_of(arg(args, kw, 1, 'dtype')) or DType('f', 'float64')
        if unknown:
            # arbitrary content, NaN included
            sort = {'f': R, 'i': I, 'b': B}[dt.kind]
            fv = ip.fresh_fun('empty', *([I] * len(shape) + [sort]))
            if dt.kind == 'f':
                fnn = ip.fresh_fun('empty_nan', *([I] * len(shape) + [B]))
                get = lambda idx: FN(fv(*[zi(i) for i in idx]),
                                     fnn(*[zi(i) for i in idx]))
            else:
                get = lambda idx: fv(*[zi(i) for i in idx])
            return mkarr(st, shape, dt.kind, get, info=('dtype', dt.name))
        v = value
        if dt.kind == 'f':
            v = Fraction(v)
        if dt.kind == 'b':
            v = bool(v)
        return mkarr(st, shape, dt.kind, lambda idx: v,
                     info=('dtype', dt.name))
    return f


def np_full(ip, st, args, kw):
    from .interp import conv, kind_of
    shape = shape_of(ip, st, args[0])
    v = arg(args, kw, 1, 'fill_value')
    dt = dtype_of(arg(args, kw, 2, 'dtype'))
    k = dt.kind if dt else kind_of(v)
    return mkarr(st, shape, k, lambda idx: conv(k, v))


def like(value, unknown=False):
    def f(ip, st, args, kw):
        a = need_array(ip, st, args[0])
        dt = dtype_of(arg(args, kw, 1, 'dtype'))
        k = dt.kind if dt else a.kind
        if unknown:
            return filler(0, True)(ip, st, [a.shape, DType(k, {
                'f': 'float64', 'i': 'int64', 'b': 'bool'}[k])], {})
        v = {'f': Fraction(value), 'i': value, 'b': bool(value)}[k]
        return mkarr(st, a.shape, k, lambda idx: v)
    return f


def np_arange(ip, st, args, kw):
    args = [norm(a) for a in args]
    lo, hi, step = 0, args[0], 1
    if len(args) >= 2:
        lo, hi = args[0], args[1]
    if len(args) >= 3:
        step = args[2]
    dt = dtype_of(arg(args, kw, 3, 'dtype'))
    if any(is_floatlike(x) for x in (lo, hi, step)):
        if norm(step) == 1 and int_of_real(sub(tofloat(hi), tofloat(lo))) \
                is not None:
            n = smax(int_of_real(sub(tofloat(hi), tofloat(lo))), 0)
            return mkarr(st, (n,), 'f', lambda idx: add(tofloat(lo), idx[0]))
        raise Unsupported('arange of floats')
    if not isinstance(step, int) and ip.valid(st, gt(step, 0)):
        # one contract for range() and arange()
        r = b_range(ip, st, [lo, hi, step], {})
        k = dt.kind if dt else 'i'
        from .interp import conv
        return mkarr(st, (r.n,), k, lambda idx: conv(k, r.elem(idx[0])))
    if not isinstance(step, int) or step == 0:
        raise Unsupported('arange step')
    r = RangeV(lo, hi, step)
    k = dt.kind if dt else 'i'
    from .interp import conv
    return mkarr(st, (r.length(),), k, lambda idx: conv(k, r.elem(idx[0])))


def np_linspace(ip, st, args, kw):
    raise Unsupported('linspace')


# -------------------------------------------------------------- elementwise
def ew(fn, kind=None):
    def f(ip, st, args, kw):
        return ip.elementwise(st, lambda *xs: fn(*xs), args, kind)
    return f


def ew_kept(fn):
    """numpy's function applies to the cells under the masks as well"""
    def f(ip, st, args, kw):
        r = ip.elementwise(st, lambda *xs: fn(*xs), args)
        a = ip.av(st, r) if isinstance(r, Ref) else None
        if a is not None and isinstance(a.info, MaskInfo) and all(
                ip.to_array(st, x).info.known for x in args
                if isinstance(x, Ref) and isinstance(
                    ip.to_array(st, x).info, MaskInfo)):
            return mkarr(st, a.shape, a.kind, a.get,
                         MaskInfo(a.info.get, True))
        return r
    return f


def fsqrt(a):
    if isinstance(a, FN):
        return FN(fsqrt(a.v), a.nan)
    a = norm(a)
    if isinstance(a, (int, Fraction)) and not isinstance(a, bool):
        import math
        f = Fraction(a)
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
    return rfun('sqrt', a)


def fn1(name):
    def g(a):
        a0 = norm(a)
        if name in ('sin', 'tan', 'atan', 'arctan', 'radians', 'degrees',
                    'sinh', 'asin') and not isinstance(a0, FN) and \
                not is_z3(a0) and a0 == 0:
            return Fraction(0)
        if name in ('cos', 'exp') and not isinstance(a0, FN) and \
                not is_z3(a0) and a0 == 0:
            return Fraction(1)
        if name == 'log' and not isinstance(a0, FN) and not is_z3(a0) and \
                a0 == 1:
            return Fraction(0)
        return rfun({'arctan': 'atan', 'arcsin': 'asin',
                     'arccos': 'acos'}.get(name, name), a)
    return g


def need_pos(ip, st, a, what, strict):
    """obligation on the domain of log/sqrt"""
    if is_scalar(a):
        if isinstance(a, FN):
            g = b_or(a.nan, gt(a.v, 0) if strict else ge(a.v, 0))
        else:
            g = gt(a, 0) if strict else ge(a, 0)
        ip.obl(st, what, g, exact=False)


def m_log(ip, st, args, kw):
    need_pos(ip, st, args[0], 'logarithm of a positive number', True)
    return ip.elementwise(st, fn1('log'), args)


def m_sqrt(ip, st, args, kw):
    need_pos(ip, st, args[0], 'square root of a non-negative number', False)
    return ip.elementwise(st, fsqrt, args)


def np_where(ip, st, args, kw):
    if len(args) == 1:
        v = args[0]
        if isinstance(v, bool) or is_sym_bool(v):
            return WhereV(ArrRec((), 'b', lambda idx: v))
        a = need_array(ip, st, v)
        if a.kind != 'b':
            a0 = a
            a = ArrRec(a0.shape, 'b', lambda idx: ip.truth(st, a0.get(idx)))
        return WhereV(a)

    def f(c, x, y):
        c = ip.truth(st, c)
        return ite(c, x, y)
    from .interp import kind_of
    return ip.elementwise(st, f, args)


def np_nonzero(ip, st, args, kw):
    return np_where(ip, st, args[:1], {})


def np_transpose(ip, st, args, kw):
    a = need_array(ip, st, args[0])
    if len(args) > 1 or kw:
        raise Unsupported('transpose axes')
    nd = a.ndim
    o = args[0]
    if isinstance(o, Ref) and isinstance(st.heap[o.id], (ArrRec, ViewRec)):
        return view(ip, st, o, tuple(reversed(a.shape)),
                    lambda idx: tuple(reversed(idx)),
                    lambda idx: (True, tuple(reversed(idx))))
    return mkarr(st, tuple(reversed(a.shape)), a.kind,
                 lambda idx: a.get(tuple(reversed(idx))))


def view(ip, st, o, shape, fwd, inv):
    """a view of the array object o"""
    rec = st.heap[o.id]
    if isinstance(rec, ViewRec):
        f0, i0 = rec.fwd, rec.inv

        def f2(idx):
            return f0(fwd(idx))

        def i2(idx):
            c, k = i0(idx)
            c2, k2 = inv(k)
            return b_and(c, c2), k2
        return st.new(ViewRec(rec.ref, shape, f2, i2))
    return st.new(ViewRec(o, shape, fwd, inv))


def flip(axis):
    def f(ip, st, args, kw):
        a = need_array(ip, st, args[0])
        if a.ndim <= axis:
            ip.obl(st, 'array has enough dimensions to flip', False)
            raise Unsupported('flip')
        n = a.shape[axis]

        def g(idx):
            idx = list(idx)
            idx[axis] = sub(sub(n, 1), idx[axis])
            return tuple(idx)
        o = args[0]
        if isinstance(o, Ref) and isinstance(st.heap[o.id],
                                             (ArrRec, ViewRec)):
            return view(ip, st, o, a.shape, g, lambda idx: (True, g(idx)))
        return mkarr(st, a.shape, a.kind, lambda idx: a.get(g(idx)))
    return f


def np_rot90(ip, st, args, kw):
    a = need_array(ip, st, args[0])
    k = norm(arg(args, kw, 1, 'k', 1))
    if not isinstance(k, int) or a.ndim != 2:
        raise Unsupported('rot90')
    k %= 4
    n, m = a.shape
    if k == 0:
        return newcopy(st, a)
    if k == 2:
        return mkarr(st, (n, m), a.kind, lambda x: a.get(
            (sub(sub(n, 1), x[0]), sub(sub(m, 1), x[1]))))
    if k == 1:
        return mkarr(st, (m, n), a.kind, lambda x: a.get(
            (x[1], sub(sub(m, 1), x[0]))))
    return mkarr(st, (m, n), a.kind, lambda x: a.get(
        (sub(sub(n, 1), x[1]), x[0])))


def np_reshape(ip, st, args, kw):
    """reshape in C order"""
    v = args[0]
    sh = args[1:] if len(args) > 2 or is_scalar(args[1]) else args[1]
    if isinstance(sh, list):
        sh = tuple(sh)
    shape = shape_of(ip, st, sh)
    order = kw.get('order', 'C')
    if order != 'C':
        raise Unsupported('reshape order')
    a = need_array(ip, st, v)
    return reshape(ip, st, v, a, shape)


def reshape(ip, st, v, a, shape):
    shape = list(shape)
    tot = 1
    for s in a.shape:
        tot = mul(tot, s)
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if isinstance(s, int)
             and s == -1][0]
        rest = 1
        for i, s in enumerate(shape):
            if i != k:
                rest = mul(rest, s)
        q, r = ip.divmod_sym(st, tot, rest)
        ip.obl(st, 'reshape keeps the number of items', eq(r, 0))
        shape[k] = q
    new = 1
    for s in shape:
        new = mul(new, s)
    if not same_term(new, tot):
        ip.obl(st, 'reshape keeps the number of items', eq(new, tot))
    shape = tuple(shape)

    def flat_of(idx, sh):
        f = 0
        for i, s in zip(idx, sh):
            f = add(mul(f, s), i)
        return f

    def unflat(f, sh):
        idx = []
        for s in reversed(sh[1:]):
            q, r = ip.divmod_sym(st, f, s)
            idx.append(r)
            f = q
        idx.append(f)
        return tuple(reversed(idx))

    def fwd(idx):
        if len(shape) == len(a.shape) and all(
                same_term(x, y) for x, y in zip(shape, a.shape)):
            return tuple(idx)
        sa = [s for s in a.shape]
        if a.ndim == 1:
            return (flat_of(idx, shape),)
        return unflat(flat_of(idx, shape), sa)

    def inv(idx):
        if len(shape) == 1:
            return True, (flat_of(idx, a.shape),)
        return True, unflat(flat_of(idx, a.shape), shape)
    if isinstance(v, Ref) and isinstance(st.heap[v.id], (ArrRec, ViewRec)):
        return view(ip, st, v, shape, fwd, inv)
    return mkarr(st, shape, a.kind, lambda idx: a.get(fwd(idx)))


def np_ravel(ip, st, args, kw):
    a = need_array(ip, st, args[0])
    if kw.get('order', 'C') != 'C':
        raise Unsupported('ravel order')
    n = 1
    for s in a.shape:
        n = mul(n, s)
    return reshape(ip, st, args[0], a, (n,))


def a_flatten(ip, st, args, kw):
    r = np_ravel(ip, st, args, kw)
    return newcopy(st, ip.av(st, r))


def np_atleast_1d(ip, st, args, kw):
    v = args[0]
    if is_scalar(v):
        return mkarr(st, (1,), kind_of(v),
            lambda idx: v)
    a = need_array(ip, st, v)
    if a.ndim == 0:
        return mkarr(st, (1,), a.kind, lambda idx: a.get(()))
    return v if ip.is_array(st, v) else st.new(a)


def np_append(ip, st, args, kw):
    return np_concatenate(ip, st, [(args[0], args[1])], {})


def np_concatenate(ip, st, args, kw):
    if norm(arg(args, kw, 1, 'axis', 0)) != 0:
        raise Unsupported('concatenate axis')
    parts = []
    for v in ip.concrete_items(st, args[0]):
        if is_scalar(v):
            parts.append(ArrRec((1,), kind_of(v),
                lambda idx, v=v: v))
            continue
        a = need_array(ip, st, v)
        if a.ndim == 0:
            a0 = a
            a = ArrRec((1,), a0.kind, lambda idx, a0=a0: a0.get(()))
        if a.ndim != 1:
            raise Unsupported('concatenate of matrices')
        parts.append(a)
    k = 'f' if any(p.kind == 'f' for p in parts) else parts[0].kind
    from .interp import conv
    n = 0
    for p in parts:
        n = add(n, p.shape[0])

    def get(idx):
        i = idx[0]
        off = 0
        offs = []
        for p in parts:
            offs.append(off)
            off = add(off, p.shape[0])
        v = conv(k, parts[-1].get((sub(i, offs[-1]),)))
        for p, o in reversed(list(zip(parts[:-1], offs[:-1]))):
            if norm(p.shape[0]) == 0:
                continue
            v = ite(lt(i, add(o, p.shape[0])),
                    conv(k, p.get((sub(i, o),))), v)
        return v
    return mkarr(st, (n,), k, get, info=('concat', tuple(parts)))


def np_diff(ip, st, args, kw):
    a = need_array(ip, st, args[0])
    if a.ndim != 1 or norm(arg(args, kw, 1, 'n', 1)) != 1:
        raise Unsupported('diff')
    n = smax(sub(a.shape[0], 1), 0)
    if a.kind == 'b':
        return mkarr(st, (n,), 'b', lambda idx: b_not(b_iff(
            a.get((add(idx[0], 1),)), a.get(idx))))
    return mkarr(st, (n,), a.kind, lambda idx: sub(
        a.get((add(idx[0], 1),)), a.get(idx)))


def np_compress(ip, st, args, kw):
    from . import arrays
    c = need_array(ip, st, args[0])
    a = need_array(ip, st, args[1])
    if c.ndim != 1 or a.ndim != 1:
        raise Unsupported('compress')
    if not ip.dim_eq(st, c.shape[0], a.shape[0]):
        ip.obl(st, 'condition fits the array', le(c.shape[0], a.shape[0]))
    w = WhereV(ArrRec(c.shape, 'b', lambda idx: ip.truth(st, c.get(idx))))
    p = arrays.nonzero1(ip, st, w)
    info = p.info if a.info == 'iota' else None
    if isinstance(a.info, SetInfo):
        x, y = a.info, p.info
        info = SetInfo(lambda i: b_and(x.P(i), y.P(x.rank(zi(i)))), x.lo,
                       x.hi, y.n, lambda k: x.sel(zi(y.sel(zi(k)))),
                       lambda i: y.rank(zi(x.rank(zi(i)))))
    return mkarr(st, p.shape, a.kind, lambda idx: a.get((p.get(idx),)),
                 info=info)


def sorted_set(ip, st, a):
    """SetInfo of a strictly increasing 1-d integer array, or None"""
    return a.info if isinstance(a.info, SetInfo) else None


def np_intersect1d(ip, st, args, kw):
    from . import arrays
    a, b = need_array(ip, st, args[0]), need_array(ip, st, args[1])
    x, y = member(ip, st, a), member(ip, st, b)
    if x is None or y is None:
        raise Unsupported('intersect1d')
    Px, nx = x
    Py, ny = y
    n = smin(nx, ny)
    P = lambda i: b_and(Px(i), Py(i))

    cnt, sel, rank = arrays.index_set(ip, st, n, P, 'isect')
    return mkarr(st, (cnt,), 'i', lambda idx: sel(zi(idx[0])),
                 info=SetInfo(P, 0, n, cnt, sel, rank))


def member(ip, st, a):
    """(membership predicate over [0, n), n) of an index array"""
    if isinstance(a.info, tuple) and a.info[0] == 'row' and not a.layers:
        return member(ip, st, a.info[1])
    s = sorted_set(ip, st, a)
    if s is not None:
        return s.P, s.hi
    if isinstance(a.info, tuple) and a.info[0] == 'shift' and \
            isinstance(a.info[1], SetInfo):
        s, d = a.info[1], a.info[2]
        # {i + d}
        if isinstance(norm(d), int) and norm(d) >= 0:
            return (lambda i: b_and(ge(sub(i, d), 0),
                                    lt(sub(i, d), s.hi), s.P(sub(i, d))),
                    add(s.hi, d))
    return None


def image(ip, st, a):
    """predicate: the integer i is one of the values of the 1-d array a"""
    from .loops import Writer
    if isinstance(a.info, tuple) and a.info[0] == 'concat':
        ps = [image(ip, st, p) for p in a.info[1]
              if not (isinstance(norm(p.shape[0]), int) and
                      norm(p.shape[0]) == 0)]
        return lambda i: b_or(*[p(i) for p in ps])
    k, x = z3.Int('im!%d' % Ref().id), z3.Int('iv!%d' % Ref().id)
    s2 = st.copy()
    n = a.shape[0]
    s2.assume(b_and(ge(k, 0), lt(k, n)))
    v = a.get((k,))
    if is_floatlike(v):
        v = int_of_real(zr(v)) if is_z3(v) else norm(v)
        if v is None or isinstance(v, Fraction):
            raise Unsupported('unique of fractions')
    if not is_z3(v):
        return lambda i: b_and(gt(n, 0), eq(i, v))
    w = Writer(ip, s2, k, n, (x,), eq(v, x), 0)
    if not w.solve() or w.mode == 'named':
        raise Unsupported('unique: no inverse of the values')
    f = w.cond_fn(n)
    return lambda i: f((i,))


def np_unique(ip, st, args, kw):
    """sorted different values of an integer-valued array"""
    from . import arrays
    if kw or len(args) != 1:
        raise Unsupported('unique options')
    a = need_array(ip, st, args[0])
    if a.ndim != 1:
        raise Unsupported('unique of a matrix')
    P = image(ip, st, a)
    cnt, sel, rank = arrays.index_set(ip, st, None, P, 'uniq')
    ip.assumed.add('numpy.unique: the different values, increasing')
    from .interp import conv
    return mkarr(st, (cnt,), a.kind, lambda idx: conv(
        a.kind, sel(zi(idx[0]))), info=SetInfo(P, None, None, cnt, sel,
                                               rank))


# --------------------------------------------------------------- reductions
def reduce_minmax(name, nan_ok, is_max):
    def f(ip, st, args, kw):
        v = args[0]
        if is_scalar(v):
            return v
        if len(args) > 1 or kw:
            ax = norm(arg(args, kw, 1, 'axis'))
            a, m = masked_array(ip, st, v)
            if a.ndim == 3 and ax == 2 and isinstance(norm(a.shape[2]),
                                                      int):
                def get(idx):
                    r = a.get(tuple(idx) + (0,))
                    for k in range(1, norm(a.shape[2])):
                        r = (npmax if is_max else npmin)(
                            r, a.get(tuple(idx) + (k,)))
                    return r
                info = None
                if isinstance(a.info, MaskInfo):
                    if norm(m((z3.Int('ma!0'), z3.Int('ma!1'), 0))) \
                            is not False:
                        raise Unsupported(name + ' of masked cells')
                    info = MaskInfo(lambda idx: False)
                return mkarr(st, a.shape[:2], a.kind, get, info)
            raise Unsupported(name + ' axis')
        if isinstance(v, Sel):
            raise Unsupported(name + ' of a selection')
        a = need_array(ip, st, v)
        return extremum(ip, st, a, name, nan_ok, is_max)
    return f


def extremum(ip, st, a, name, nan_ok, is_max):
    for s in a.shape:
        ip.obl(st, '%s of a non-empty array' % name, gt(s, 0))
    ns = [norm(s) for s in a.shape]
    if a.ndim == 1 and isinstance(ns[0], int) and 0 < ns[0] <= 12 and \
            not nan_ok:
        r = a.get((0,))
        for k in range(1, ns[0]):
            r = (npmax if is_max else npmin)(r, a.get((k,)))
        return r
    nd = a.ndim
    pi = tuple(z3.Int('em!%d' % Ref().id) for _ in range(nd))
    e = a.get(pi)
    isf = a.kind == 'f'
    sort = R if isf else I
    M = ip.fresh(name, sort)
    W = [ip.fresh(name + '_at', I) for _ in range(nd)]
    trig = {M.decl().name()}
    inr = lambda ix: b_and(*[b_and(ge(i, 0), lt(i, s))
                             for i, s in zip(ix, a.shape)])
    cmp_ = le if is_max else ge
    if isinstance(e, FN):
        N = ip.fresh(name + '_nan', B)
        ew_ = a.get(tuple(W))
        if nan_ok:
            # NaN only if all are NaN
            ip.fact(st, b_implies(b_and(inr(pi), b_not(e.nan)),
                                  b_and(cmp_(e.v, M), b_not(N))),
                    pi, pats_of(e, pi), trig=trig)
            ip.fact(st, b_or(N, b_and(inr(W), b_not(ew_.nan),
                                      eq(ew_.v, M))), trig=trig)
            ip.fact(st, b_implies(N, z3.ForAll(list(pi), zb(b_implies(
                inr(pi), e.nan)))), trig=trig)
        else:
            ip.fact(st, b_implies(b_and(inr(pi), b_not(N)),
                                  b_and(cmp_(e.v, M), b_not(e.nan))),
                    pi, pats_of(e, pi), trig=trig)
            ip.fact(st, ite(N, b_and(inr(W), ew_.nan),
                            b_and(inr(W), b_not(ew_.nan), eq(ew_.v, M))),
                    trig=trig)
        return FN(M, N)
    ip.fact(st, b_implies(inr(pi), cmp_(e, M)), pi, pats_of(e, pi),
            trig=trig)
    ip.fact(st, b_and(inr(W), eq(a.get(tuple(W)), M)), trig=trig)
    return M


def pats_of(e, vs):
    from .loops import k_pattern
    t = e.v if isinstance(e, FN) else e
    if not is_z3(t):
        return None
    out = []
    stack, seen = [t], set()
    names = [v.decl().name() for v in vs]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and \
                all(n in consts_of(x) for n in names):
            return [x]
        stack.extend(x.children())
    return None


def np_argextreme(name, is_max):
    def f(ip, st, args, kw):
        a = need_array(ip, st, args[0])
        if a.ndim != 1 or kw or len(args) > 1:
            raise Unsupported(name)
        n = a.shape[0]
        ip.raise_unless(st, gt(n, 0), 'ValueError')
        k = z3.Int('am!%d' % Ref().id)
        e = a.get((k,))
        if isinstance(e, FN) or not is_scalar(e):
            raise Unsupported(name + ' of values that may be NaN')
        r = ip.fresh(name, I)
        trig = {r.decl().name()}
        best = a.get((r,))
        c, s = (le, lt) if is_max else (ge, gt)
        ip.fact(st, b_and(ge(r, 0), lt(r, n)), trig=trig)
        ip.fact(st, b_implies(b_and(ge(k, 0), lt(k, n)), b_and(
            c(e, best), b_implies(lt(k, r), s(e, best)))), (k,),
            pats_of(e, (k,)), trig=trig)
        ip.assumed.add('numpy.%s: the first index of the extreme value'
                       % name)
        return r
    return f


def np_sum(ip, st, args, kw):
    v = args[0]
    if len(args) > 1 or kw:
        raise Unsupported('sum axis')
    if isinstance(v, Sel):
        raise Unsupported('sum of a selection')
    a = need_array(ip, st, v)
    return total(ip, st, a)


def total(ip, st, a):
    if a.ndim == 1:
        n = norm(a.shape[0])
        if isinstance(n, int) and n <= 64:
            r = 0 if a.kind != 'f' else Fraction(0)
            for k in range(n):
                r = add(r, a.get((k,)))
            return r
        m = z3.Int('su!%d' % Ref().id)
        if a.kind != 'f':
            raise Unsupported('sum of integers')
        return mksum(n, m, a.get((m,)))
    if a.ndim == 2:
        i, j = z3.Int('su!%d' % Ref().id), z3.Int('su!%d' % Ref().id)
        v = a.get((i, j))
        if isinstance(v, FN):
            raise Unsupported('sum of NaN-able values')
        ip.assumed.add('lemma (proved in lemmas/Sums.lean: ext): the sum of '
                       'a matrix depends only on its cells')
        return mksum2(a.shape[0], a.shape[1], i, j, tofloat(v))
    if a.ndim == 0:
        return a.get(())
    raise Unsupported('sum')


def mean2(ip, st, a):
    """the mean of a non-empty matrix as a named number: equal matrices have
    the same mean, positive cells a positive one"""
    if not hasattr(ip, 'means'):
        ip.means = []
    idx = (z3.Int('mn!0'), z3.Int('mn!1'))
    s2 = st.copy()
    for i, m in zip(idx, a.shape):
        s2.assume(b_and(ge(i, 0), lt(i, m)))
    for sh, get, c in ip.means:
        if all(ip.valid(st, eq(x, y)) for x, y in zip(sh, a.shape)) and \
                ip.valid(s2, same(get(idx), a.get(idx))):
            break
    else:
        c = z3.Real('mean_%d' % len(ip.means))
        ip.means.append((a.shape, a.get, c))
    ip.assumed.add('lemma (proved in lemmas/Sums.lean: ext, mean_pos): the '
                   'mean of a matrix depends only on its cells and is '
                   'positive for positive cells')
    if ip.valid(s2, gt(a.get(idx), 0)):
        st.assume(gt(c, 0))
    return c


def np_mean(ip, st, args, kw):
    if len(args) > 1 or kw:
        raise Unsupported('mean axis')
    if is_scalar(args[0]):
        return tofloat(args[0])
    a = need_array(ip, st, args[0])
    n = 1
    for s in a.shape:
        n = mul(n, s)
    idx = tuple(z3.Int('mp!%d' % i) for i in range(a.ndim))
    v = a.get(idx)
    empty = eq(n, 0)
    if isinstance(v, FN):
        # NaN when any cell is NaN: only the certain cases are modelled
        raise Unsupported('mean of NaN-able values')
    fl = ArrRec(a.shape, 'f', lambda ix: tofloat(a.get(ix)))
    if a.ndim == 2 and ip.valid(st, gt(n, 0)):
        return mean2(ip, st, fl)
    t = total(ip, st, fl)
    if ip.valid(st, gt(n, 0)):
        return truediv(t, n)
    # mean of nothing is NaN
    return mkfn(truediv(t, ite(empty, 1, n)), empty)


def np_size(ip, st, args, kw):
    a = need_array(ip, st, args[0])
    if len(args) > 1:
        return a.shape[norm(args[1])]
    n = 1
    for s in a.shape:
        n = mul(n, s)
    return n


def np_anyall(is_all):
    def f(ip, st, args, kw):
        if len(args) > 1 or kw:
            raise Unsupported('any/all axis')
        v = args[0]
        if isinstance(v, bool) or is_sym_bool(v):
            return v
        a = need_array(ip, st, v)
        if a.ndim == 0:
            return ip.truth(st, a.get(()))
        ns = [norm(s) for s in a.shape]
        if a.ndim == 1 and isinstance(ns[0], int) and ns[0] <= 12:
            xs = [ip.truth(st, a.get((k,))) for k in range(ns[0])]
            return b_and(*xs) if is_all else b_or(*xs)
        idx = [z3.Int('aa!%d' % Ref().id) for _ in a.shape]
        p = ip.truth(st, a.get(tuple(idx)))
        rng = b_and(*[b_and(ge(i, 0), lt(i, s))
                      for i, s in zip(idx, a.shape)])
        if is_all:
            return z3.ForAll(idx, zb(b_implies(rng, p)))
        return z3.Exists(idx, zb(b_and(rng, p)))
    return f


def np_dstack(ip, st, args, kw):
    arrs = [masked_array(ip, st, v)[0]
            for v in ip.concrete_items(st, args[0])]
    if any(a.ndim != 2 for a in arrs):
        raise Unsupported('dstack')
    # numpy.dstack of masked arrays: a masked array without masked cells
    info = MaskInfo(lambda idx: False) if any(
        isinstance(a.info, MaskInfo) for a in arrs) else None
    for a in arrs[1:]:
        for x, y in zip(a.shape, arrs[0].shape):
            if not ip.dim_eq(st, x, y):
                ip.obl(st, 'stacked arrays have one shape', eq(x, y))
    k = 'f' if any(a.kind == 'f' for a in arrs) else arrs[0].kind

    def get(idx):
        i = norm(idx[2])
        if isinstance(i, int):
            return arrs[i].get(tuple(idx[:2]))
        v = arrs[-1].get(tuple(idx[:2]))
        for n in range(len(arrs) - 2, -1, -1):
            v = ite(eq(i, n), arrs[n].get(tuple(idx[:2])), v)
        return v
    return mkarr(st, tuple(arrs[0].shape) + (len(arrs),), k, get, info)


# ------------------------------------------------------------- numpy.ma
def ma_values(ip, st, args, kw):
    if set(kw) - {'copy'} or len(args) > 2:
        raise Unsupported('masked_values options')
    a = need_array(ip, st, args[0])
    val = tofloat(args[1])
    if a.kind == 'f':
        tol = add(Fraction(1, 10 ** 8), mul(Fraction(1, 10 ** 5),
                                            absval(val)))

        def m(idx):
            x = a.get(idx)
            y = x.v if isinstance(x, FN) else x
            return b_and(b_not(isnan(x)), le(absval(sub(y, val)), tol))
    else:
        m = lambda idx: eq(a.get(idx), args[1])
    ip.assumed.add('numpy.ma: masked cells of a result are the cells masked '
                   'in an operand')
    return mkarr(st, a.shape, a.kind, a.get, MaskInfo(m, True))


def ma_equal(ip, st, args, kw):
    a, m = masked_array(ip, st, args[0])
    return mkarr(st, a.shape, a.kind, a.get, MaskInfo(lambda idx: b_or(
        m(idx), cmp_scalar_eq(a.get(idx), args[1]))))


def cmp_scalar_eq(x, v):
    y = x.v if isinstance(x, FN) else x
    return b_and(b_not(isnan(x)), eq(y, tofloat(v)))


def ma_invalid(ip, st, args, kw):
    a, m = masked_array(ip, st, args[0])
    return mkarr(st, a.shape, a.kind, a.get, MaskInfo(lambda idx: b_or(
        m(idx), isnan(a.get(idx)))))


def ma_array(ip, st, args, kw):
    a, m = masked_array(ip, st, args[0])
    if set(kw) - {'mask', 'copy'} or len(args) > 1:
        raise Unsupported('numpy.ma.array options')
    if kw.get('mask') is not None:
        k = ip.to_array(st, kw['mask'])
        if k is None or k.ndim != a.ndim:
            raise Unsupported('mask')
        return mkarr(st, a.shape, a.kind, a.get, MaskInfo(
            lambda idx: b_or(m(idx), k.get(idx))))
    return mkarr(st, a.shape, a.kind, a.get, MaskInfo(m))


def ma_filled(ip, st, args, kw):
    a, m = masked_array(ip, st, args[0])
    v = arg(args, kw, 1, 'fill_value')
    if v is None:
        raise Unsupported('fill value')
    return mkarr(st, a.shape, a.kind, lambda idx: ite(
        m(idx), astype_scalar(a.kind, v), a.get(idx)))


def astype_scalar(kind, v):
    return tofloat(v) if kind == 'f' else v


def ma_data(ip, st, args, kw):
    """the cells under the mask hold anything"""
    a, m = masked_array(ip, st, args[0])
    if isinstance(a.info, MaskInfo) and a.info.known:
        return mkarr(st, a.shape, a.kind, a.get)
    f = ip.fresh_fun('hidden', *([I] * a.ndim + [R if a.kind == 'f' else I]))

    def get(idx):
        c = norm(m(idx))
        return a.get(idx) if c is False else ite(
            c, f(*[zi(i) for i in idx]), a.get(idx))
    return mkarr(st, a.shape, a.kind, get)


def ma_getmask(ip, st, args, kw):
    a, m = masked_array(ip, st, args[0])
    return mkarr(st, a.shape, 'b', m)


def a_astype(ip, st, args, kw):
    dt = dtype_of(arg(args, kw, 1, 'dtype'))
    v = args[0]
    if isinstance(v, Sel):
        from .interp import conv
        return Sel(v.mask, v.shape, dt.kind,
                   lambda idx: conv(dt.kind, v.get(idx)))
    a = astype(ip, st, need_array(ip, st, v), dt.kind)
    return newcopy(st, a)


def a_copy(ip, st, args, kw):
    return newcopy(st, need_array(ip, st, args[0]))


def a_fill(ip, st, args, kw):
    v = args[1]
    a = ip.av(st, args[0])
    from .arrays import nan_check
    nan_check(ip, st, a, v)
    ip.write_arr(st, args[0], lambda idx: True, lambda idx: v)


def a_item(ip, st, args, kw):
    a = ip.av(st, args[0])
    if a.ndim == 0:
        return a.get(())
    raise Unsupported('item')


def a_tolist(ip, st, args, kw):
    a = ip.av(st, args[0])
    n = norm(a.shape[0])
    if a.ndim == 1:
        if isinstance(n, int):
            return st.new(SeqRec([Items([a.get((k,)) for k in range(n)])]))
        return st.new(SeqRec([SymSeg(n, lambda k: a.get((k,)))]))
    raise Unsupported('tolist')


def np_multiply(ip, st, args, kw):
    return ip.binop('Mult', args[0], args[1], st)


def binop(name):
    def f(ip, st, args, kw):
        if kw or len(args) > 2:
            raise Unsupported('ufunc with out')
        return ip.binop(name, args[0], args[1], st)
    return f


def cmpop(name):
    def f(ip, st, args, kw):
        return ip.compare(name, args[0], args[1], st)
    return f


def np_around(ip, st, args, kw):
    dec = norm(arg(args, kw, 1, 'decimals', 0))
    if dec != 0:
        if not isinstance(dec, int):
            raise Unsupported('around decimals')
        sc = Fraction(10) ** dec
        return ip.elementwise(st, lambda a: truediv(
            around(mul(a, sc)), sc), args[:1])
    return ip.elementwise(st, around, args[:1])


def np_ogrid_item(ip, st, args, kw):
    """ogrid[a:b, c:d] with integer steps of one"""
    ix = args[1]
    out = []
    dims = ix if isinstance(ix, tuple) else (ix,)
    n = len(dims)
    for k, s in enumerate(dims):
        lo = 0 if s.start is None else s.start
        if s.step is not None:
            raise Unsupported('ogrid step')
        d = sub(s.stop, lo)
        ln = smax(d, 0)
        shape = tuple(ln if q == k else 1 for q in range(n))
        if n == 1:
            shape = (ln,)
        out.append(mkarr(st, shape, 'f' if is_floatlike(lo) else 'i',
                         lambda idx, k=k, lo=lo: add(lo, idx[k])))
    return out[0] if n == 1 and not isinstance(ix, tuple) else tuple(out)


def np_meshgrid(ip, st, args, kw):
    raise Unsupported('meshgrid')


def np_loadlike(ip, st, args, kw):
    raise Unsupported('reading a file')


# ------------------------------------------------------------ builtins
def b_len(ip, st, args, kw):
    v = args[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Choice):
        if ip.is_array(st, v):
            return ip.av(st, v).shape[0]
        raise NeedFork(v.cond)
    if isinstance(v, (RangeV, SymIter)):
        return v.length()
    if isinstance(v, WhereV):
        return v.mask.ndim
    if isinstance(v, SymStr):
        raise Unsupported('length of symbolic string')
    a = ip.av(st, v)
    if a is not None:
        return a.shape[0]
    r = st.heap[v.id]
    if isinstance(r, SeqRec):
        return ip.seq_len(r)
    if isinstance(r, InstRec):
        f = ip.inst_attr(st, v, '__len__', None)
        if f is not None:
            return ip.call(f, [], {}, st)
    if isinstance(r, DictRec) and not r.sym and r.default is None:
        return len(r.d)
    if isinstance(r, SetRec) and not r.sym:
        return len(r.items)
    if isinstance(r, TokSet):
        raise Unsupported('size of a set changed by a loop')
    if isinstance(r, SetRec):
        return ip.enumeration(r)[0]
    if isinstance(r, SetRec):
        raise Unsupported('size of symbolic set')
    if isinstance(r, InstRec):
        f = ip.inst_attr(st, v, '__len__', None)
        if f is not None:
            return ip.call(f, [], {}, st)
    raise Unsupported('len')


def b_range(ip, st, args, kw):
    for a in args:
        if is_floatlike(norm(a)):
            ip.obl(st, 'range bound is an integer', False)
            raise Unsupported('range of floats')
    args = [norm(as_int(norm(a))) for a in args]
    if len(args) == 1:
        return RangeV(0, args[0], 1)
    if len(args) == 2:
        return RangeV(args[0], args[1], 1)
    if not isinstance(args[2], int):
        if ip.valid(st, gt(args[2], 0)):
            lo, hi, s = args
            n = smax(ip.idiv(st, sub(add(sub(hi, lo), s), 1), s), 0)
            return SymIter(n, lambda k: add(lo, mul(k, s)))
        raise Unsupported('range step')
    if args[2] == 0:
        ip.obl(st, 'range step is not zero', False)
        raise Unsupported('range step 0')
    return RangeV(*args)


def b_enumerate(ip, st, args, kw):
    start = norm(arg(args, kw, 1, 'start', 0))
    it = ip.iteration(st, args[0])
    if isinstance(it, list):
        return tuple((add(k, start), v) for k, v in enumerate(it))
    return SymIter(it[0], lambda k: (add(k, start), it[1](k)))


def b_zip(ip, st, args, kw):
    its = [ip.iteration(st, a) for a in args]
    if all(isinstance(i, list) for i in its):
        return tuple(zip(*its))
    if any(isinstance(i, list) for i in its):
        # lengths decided at run time
        raise Unsupported('zip of mixed lengths')
    n = its[0][0]
    for i in its[1:]:
        if not same_term(n, i[0]):
            n = smin(n, i[0])
    return SymIter(n, lambda k: tuple(i[1](k) for i in its))


def b_map(ip, st, args, kw):
    its = ip.iteration(st, args[1])
    if isinstance(its, list):
        return st.new(SeqRec([Items([ip.call(args[0], [x], {}, st)
                                     for x in its])]))
    raise Unsupported('map')


def b_minmax(is_max):
    def f(ip, st, args, kw):
        if kw:
            raise Unsupported('min/max with key')
        if len(args) == 1:
            it = ip.iteration(st, args[0])
            if not isinstance(it, list):
                a = need_array(ip, st, args[0])
                return extremum(ip, st, a, 'max' if is_max else 'min',
                                False, is_max)
            if not it:
                ip.obl(st, 'max/min of something', False)
                raise Unsupported('max of nothing')
            args = it
        r = args[0]
        for x in args[1:]:
            if not (is_scalar(r) and is_scalar(x)):
                if isinstance(r, str) and isinstance(x, str):
                    r = max(r, x) if is_max else min(r, x)
                    continue
                raise Unsupported('max of %r' % (x,))
            # Python keeps the first of equals
            r = ip.decide(st, ite(gt(x, r), x, r) if is_max
                          else ite(lt(x, r), x, r))
        return r
    return f


def b_int(ip, st, args, kw):
    v = args[0]
    if isinstance(v, Choice):
        raise NeedFork(v.cond)
    if isinstance(v, str):
        return int(v)
    if isinstance(v, FN):
        ip.obl(st, 'int() of a number', b_not(v.nan))
        return trunc_int(v.v)
    if is_scalar(v):
        return trunc_int(v)
    a = ip.av(st, v)
    if a is not None and all(norm(s) == 1 for s in a.shape):
        return b_int(ip, st, [a.get((0,) * a.ndim)], kw)
    if isinstance(v, Opaque):
        return z3.Int('int_' + v.name)
    if isinstance(v, SymStr):
        return sym_int(ip, st, v)
    raise Unsupported('int(%r)' % (v,))


def sym_int(ip, st, v):
    if len(v.parts) == 1 and v.parts[0].name == 'stri':
        return v.parts[0].term[0]
    raise Unsupported('int of a symbolic string')


def b_float(ip, st, args, kw):
    v = args[0]
    if isinstance(v, Choice):
        raise NeedFork(v.cond)
    if isinstance(v, str):
        if v.strip().lower() == 'nan':
            return NAN
        return Fraction(v)
    if is_scalar(v):
        return tofloat(v)
    a = ip.av(st, v)
    if a is not None and all(norm(s) == 1 for s in a.shape):
        return tofloat(a.get((0,) * a.ndim))
    if isinstance(v, Opaque):
        return z3.Real('float_' + v.name)
    raise Unsupported('float(%r)' % (v,))


def b_str(ip, st, args, kw):
    if not args:
        return ''
    return ip.to_str(st, args[0])


def b_repr(ip, st, args, kw):
    v = norm(args[0])
    if isinstance(v, int):
        return repr(v)
    return ip.opaque_str()


def b_bool(ip, st, args, kw):
    return ip.truth(st, args[0]) if args else False


def b_pow(ip, st, args, kw):
    if len(args) != 2 or kw:
        raise Unsupported('pow')
    return ip.binop('Pow', args[0], args[1], st)


def b_abs(ip, st, args, kw):
    if is_scalar(args[0]):
        return ip.decide(st, absval(args[0]))
    return ip.elementwise(st, absval, args[:1])


def b_round(ip, st, args, kw):
    if len(args) > 1:
        nd = norm(args[1])
        if isinstance(nd, int):
            sc = Fraction(10) ** nd
            return truediv(around(mul(tofloat(args[0]), sc)), sc)
        raise Unsupported('round')
    if isinstance(args[0], FN):
        raise Unsupported('round of NaN-able')
    return round_int(args[0])


def b_list(ip, st, args, kw):
    if not args:
        return st.new(SeqRec([]))
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap[v.id], SeqRec):
        return st.new(SeqRec(st.heap[v.id].segs))
    it = ip.iteration(st, v)
    if isinstance(it, list):
        return st.new(SeqRec([Items(it)]))
    return st.new(SeqRec([SymSeg(it[0], it[1])]))


def b_tuple(ip, st, args, kw):
    if not args:
        return ()
    it = ip.iteration(st, args[0])
    if isinstance(it, list):
        return tuple(it)
    return st.new(SeqRec([SymSeg(it[0], it[1])], 'tuple'))


def b_dict(ip, st, args, kw):
    d = {}
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.id], DictRec):
            r = st.heap[v.id]
            return st.new(DictRec(r.d, r.default, r.sym))
        it = ip.iteration(st, v)
        if not isinstance(it, list):
            n, elem = it
            t = z3.Int('dz!%d' % Ref().id)
            k, val = ip.unpack(st, elem(t), 2)
            return st.new(DictRec({}, None,
                                  (((k, val), None, (n, t)),)))
        for x in it:
            k, val = ip.unpack(st, x, 2)
            if is_z3(k) or isinstance(k, SymStr):
                raise Unsupported('symbolic key')
            d[norm(k)] = val
    d.update(kw)
    return st.new(DictRec(d))


def b_set(ip, st, args, kw):
    if not args:
        return st.new(SetRec(()))
    it = ip.iteration(st, args[0])
    if isinstance(it, list):
        items = []
        for x in it:
            if isinstance(x, (str, int, tuple)):
                if x not in items:
                    items.append(x)
            else:
                raise Unsupported('set of symbolic items')
        return st.new(SetRec(items))
    return st.new(SetRec((), it))


def b_sorted(ip, st, args, kw):
    it = ip.iteration(st, args[0])
    if isinstance(it, list) and not kw and all(
            isinstance(x, str) for x in it):
        return st.new(SeqRec([Items(sorted(it))]))
    if isinstance(it, list) and not kw and all(
            isinstance(norm(x), (int, Fraction)) for x in it):
        return st.new(SeqRec([Items(sorted(norm(x) for x in it))]))
    if not kw and len(args) == 1 and isinstance(args[0], Ref) and \
            isinstance(st.heap[args[0].id], SetRec) and \
            not isinstance(it, list):
        # every member once, in some order: the order is not used
        return st.new(SeqRec([SymSeg(it[0], it[1])]))
    a = ip.to_array(st, args[0])
    if a is not None and not kw and isinstance(a.info, tuple) and \
            a.info[0] == 'permuted':
        o = a.info[1]
        return st.new(SeqRec([SymSeg(o.n, lambda k: o.sel(zi(k)), info=o)]))
    if a is not None and not kw and isinstance(a.info, SetInfo):
        return st.new(SeqRec([SymSeg(a.shape[0], lambda k: a.get((k,)),
                                     info=a.info)]))
    if getattr(ip, 'sort_by', None) is not None and not isinstance(it, list) \
            and len(args) == 1:
        return ip.sort_by(st, it, kw.get('key'), kw.get('reverse', False))
    raise Unsupported('sorted')


def b_reversed(ip, st, args, kw):
    it = ip.iteration(st, args[0])
    if isinstance(it, list):
        return tuple(reversed(it))
    n, elem = it
    return SymIter(n, lambda k: elem(sub(sub(n, 1), k)))


def b_divmod(ip, st, args, kw):
    ip.div_check(st, args[1])
    return ip.divmod_sym(st, args[0], args[1])


def b_isinstance(ip, st, args, kw):
    v, t = args
    ts = t if isinstance(t, tuple) else (t,)
    r = False
    for x in ts:
        r = r or inst1(ip, st, v, x)
    return r


def inst1(ip, st, v, t):
    if isinstance(v, Choice):
        raise NeedFork(v.cond)
    nm = t.name if isinstance(t, (Native, NativeClass, DType)) else None
    if isinstance(t, ClassVal):
        if isinstance(v, Ref) and isinstance(st.heap[v.id], InstRec):
            c = st.heap[v.id].cls
            while isinstance(c, ClassVal):
                if c is t or c.name == t.name:
                    return True
                c = c.bases[0] if c.bases else None
        return False
    if nm == 'str':
        return isinstance(v, (str, SymStr))
    if nm == 'int':
        return is_intlike(v) if is_scalar(v) else False
    if nm == 'float':
        return is_floatlike(v) if is_scalar(v) else False
    if nm == 'bool':
        return isinstance(v, bool) or is_sym_bool(v)
    if nm == 'tuple':
        return isinstance(v, tuple)
    if nm == 'list':
        return isinstance(v, Ref) and isinstance(st.heap[v.id], SeqRec) \
            and st.heap[v.id].kind == 'list'
    if nm == 'dict':
        return isinstance(v, Ref) and isinstance(st.heap[v.id], DictRec)
    if nm == 'ndarray':
        return ip.is_array(st, v)
    if isinstance(t, NativeClass):
        return isinstance(v, Ref) and isinstance(st.heap[v.id], InstRec) \
            and st.heap[v.id].cls is t
    raise Unsupported('isinstance %r' % (t,))


def b_type(ip, st, args, kw):
    v = args[0]
    if isinstance(v, (str, SymStr)):
        return ip.builtins['str']
    if is_scalar(v):
        if isinstance(v, bool) or is_sym_bool(v):
            return ip.builtins['bool']
        return ip.builtins['float' if is_floatlike(v) else 'int']
    if isinstance(v, tuple):
        return ip.builtins['tuple']
    if isinstance(v, Ref):
        r = st.heap[v.id]
        if isinstance(r, SeqRec):
            return ip.builtins['list']
        if isinstance(r, DictRec):
            return ip.builtins['dict']
        if isinstance(r, InstRec):
            return r.cls
    if isinstance(v, (NObj, Opaque)):
        return NativeClass(v.name)
    raise Unsupported('type()')


def b_getattr(ip, st, args, kw):
    try:
        return ip.getattr(st, args[0], args[1])
    except Unsupported:
        if len(args) > 2:
            return args[2]
        raise


def b_hasattr(ip, st, args, kw):
    v, name = args
    if isinstance(v, Ref) and isinstance(st.heap[v.id], InstRec):
        return ip.inst_attr(st, v, name, None) is not None
    raise Unsupported('hasattr')


def b_sum(ip, st, args, kw):
    it = ip.iteration(st, args[0])
    start = arg(args, kw, 1, 'start', 0)
    if isinstance(it, list):
        r = start
        for x in it:
            if is_scalar(r) and is_scalar(x):
                r = add(r, x)
            else:
                r = ip.binop('Add', r, x, st)
        return r
    n, elem = it
    m = z3.Int('su!%d' % Ref().id)
    e = elem(m)
    if is_floatlike(e) and not isinstance(e, FN):
        return add(mksum(n, m, e), start)
    raise Unsupported('sum')


def b_anyall(is_all):
    def f(ip, st, args, kw):
        it = ip.iteration(st, args[0])
        if isinstance(it, list):
            xs = [ip.truth(st, x) for x in it]
            return b_and(*xs) if is_all else b_or(*xs)
        n, elem = it
        k = z3.Int('ba!%d' % Ref().id)
        p = ip.truth(st, elem(k))
        rng = b_and(ge(k, 0), lt(k, n))
        if is_all:
            return z3.ForAll([k], zb(b_implies(rng, p)))
        return z3.Exists([k], zb(b_and(rng, p)))
    return f


def noop(ip, st, args, kw):
    return None


def b_open(ip, st, args, kw):
    raise Unsupported('open()')


def np_nan_to_num(ip, st, args, kw):
    if kw.get('posinf') is not None or kw.get('neginf') is not None or \
            len(args) > 3:
        raise Unsupported('infinities in nan_to_num')
    x = arg(args, kw, 2, 'nan', 0)
    ip.assumed.add('infinite values (nan_to_num) do not occur')
    a = ip.to_array(st, args[0])
    if arg(args, kw, 1, 'copy', True) is not True:
        raise Unsupported('nan_to_num in place')
    if a is None:
        raise Unsupported('nan_to_num')
    if a.kind != 'f':
        return ip.elementwise(st, lambda v: v, [args[0]], None)
    return ip.elementwise(st, lambda v: FN(ite(v.nan, tofloat(x), v.v), False)
                          if isinstance(v, FN) else v,
                          [args[0]], 'f')


def b_staticmethod(ip, st, args, kw):
    return ('static', args[0])


def b_classmethod(ip, st, args, kw):
    return ('class', args[0])


def b_property(ip, st, args, kw):
    return ('property', args[0])


def b_filter(ip, st, args, kw):
    raise Unsupported('filter')


# ---------------------------------------------------------------- methods
def l_append(ip, st, args, kw):
    r = st.heap[args[0].id]
    st.heap[args[0].id] = r.append(args[1])


def l_extend(ip, st, args, kw):
    ip.lib_extend(st, args[0], args[1])


def l_pop(ip, st, args, kw):
    r = st.heap[args[0].id]
    it = r.concrete()
    if it is None:
        raise Unsupported('pop from symbolic list')
    if not it:
        ip.raise_unless(st, False, 'IndexError')
    k = norm(args[1]) if len(args) > 1 else -1
    its = list(it)
    v = its.pop(k)
    st.heap[args[0].id] = SeqRec([Items(its)], r.kind)
    return v


def l_index(ip, st, args, kw):
    it = ip.concrete_items(st, args[0])
    for k, x in enumerate(it):
        if ip.equal(st, x, args[1]) is True:
            return k
    raise Unsupported('index')


def l_insert(ip, st, args, kw):
    r = st.heap[args[0].id]
    k = norm(args[1])
    if k == 0:
        st.heap[args[0].id] = SeqRec((Items((args[2],)),) + r.segs, r.kind)
        return
    raise Unsupported('insert')


def l_sort(ip, st, args, kw):
    r = st.heap[args[0].id]
    it = r.concrete()
    if it is not None and not kw and all(isinstance(x, str) for x in it):
        st.heap[args[0].id] = SeqRec([Items(sorted(it))], r.kind)
        return
    raise Unsupported('sort')


def l_remove(ip, st, args, kw):
    r = st.heap[args[0].id]
    it = r.concrete()
    if it is None:
        raise Unsupported('remove')
    its = list(it)
    for k, x in enumerate(its):
        if ip.equal(st, x, args[1]) is True:
            del its[k]
            st.heap[args[0].id] = SeqRec([Items(its)], r.kind)
            return
    raise Unsupported('remove')


def l_copy(ip, st, args, kw):
    return st.new(st.heap[args[0].id])


def d_keys(ip, st, args, kw):
    r = st.heap[args[0].id]
    if r.sym or r.default is not None:
        raise Unsupported('keys of symbolic dict')
    return tuple(r.d.keys())


def d_values(ip, st, args, kw):
    r = st.heap[args[0].id]
    if r.sym or r.default is not None:
        raise Unsupported('values of symbolic dict')
    return tuple(r.d.values())


def d_items(ip, st, args, kw):
    r = st.heap[args[0].id]
    if r.sym or r.default is not None:
        raise Unsupported('items of symbolic dict')
    return tuple(r.d.items())


def d_get(ip, st, args, kw):
    r = st.heap[args[0].id]
    k = norm(args[1])
    dflt = args[2] if len(args) > 2 else None
    if r.sym or r.default is not None:
        raise Unsupported('get')
    if isinstance(k, (str, int)) or k is None:
        if k in r.d:
            v = r.d[k]
            if isinstance(v, Choice) and (v.a is UNBOUND or
                                          v.b is UNBOUND):
                c = v.cond if v.b is UNBOUND else b_not(v.cond)
                return merge_value(c, v.a if v.b is UNBOUND else v.b, dflt)
            return v
        return dflt
    v = dflt
    for q, val in r.d.items():
        c = ip.equal(st, k, q)
        v = merge_value(c, val, v)
    return v


def d_update(ip, st, args, kw):
    r = st.heap[args[0].id]
    d = dict(r.d)
    if len(args) > 1:
        o = st.heap[args[1].id]
        if o.sym:
            raise Unsupported('update')
        d.update(o.d)
    d.update(kw)
    st.heap[args[0].id] = DictRec(d, r.default, r.sym)


def d_setdefault(ip, st, args, kw):
    r = st.heap[args[0].id]
    k = norm(args[1])
    if k in r.d and not isinstance(r.d[k], Choice):
        return r.d[k]
    if k in r.d:
        raise Unsupported('setdefault')
    d = dict(r.d)
    d[k] = args[2] if len(args) > 2 else None
    st.heap[args[0].id] = DictRec(d, r.default, r.sym)
    return d[k]


def d_haskey(ip, st, args, kw):
    return ip.dict_has(st, st.heap[args[0].id], args[1])


def d_copy(ip, st, args, kw):
    return st.new(st.heap[args[0].id])


def s_add(ip, st, args, kw):
    r = st.heap[args[0].id]
    v = args[1]
    if isinstance(r, TokSet):
        st.heap[args[0].id] = TokSet(r.tok, r.added + (v,))
        return None
    if ip.loopvars and ip.mute and not r.sym:
        # finding out what the loop changes
        st.heap[args[0].id] = SetRec(r.items + (v,))
        return None
    if r.sym or not isinstance(v, (str, int, tuple)):
        raise Unsupported('add to symbolic set')
    if v not in r.items:
        st.heap[args[0].id] = SetRec(r.items + (v,))


def set_items(ip, st, v):
    it = ip.iteration(st, v)
    if not isinstance(it, list) or not all(
            isinstance(x, (str, int, tuple)) for x in it):
        raise Unsupported('operation on a symbolic set')
    return it


def set_op(name):
    def f(ip, st, args, kw):
        a = list(set_items(ip, st, args[0]))
        others = [set_items(ip, st, x) for x in args[1:]]
        b = [x for o in others for x in o]
        if name == 'difference':
            r = [x for x in a if x not in b]
        elif name == 'intersection':
            r = [x for x in a if all(x in o for o in others)]
        elif name == 'union' or name == 'update':
            r = a
            for x in b:
                if x not in r:
                    r.append(x)
        elif name == 'issubset':
            return all(x in b for x in a)
        elif name == 'issuperset':
            return all(x in a for x in b)
        elif name == 'isdisjoint':
            return not any(x in a for x in b)
        elif name == 'copy':
            r = a
        if name == 'update':
            st.heap[args[0].id] = SetRec(r)
            return None
        return st.new(SetRec(r))
    if name in ('discard', 'remove'):
        def f(ip, st, args, kw):
            if not isinstance(args[1], (str, int, tuple)):
                raise Unsupported('removal of a symbolic item')
            a = list(set_items(ip, st, args[0]))
            if name == 'remove' and args[1] not in a:
                raise Unsupported('removal of a missing item')
            st.heap[args[0].id] = SetRec([x for x in a if x != args[1]])
    return f


def st_format(ip, st, args, kw):
    import string
    fmt = args[0]
    if not isinstance(fmt, str):
        raise Unsupported('format of symbolic string')
    out = []
    auto = 0
    for lit, field, spec, cv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[1 + auto]
            auto += 1
        elif field.isdigit():
            v = args[1 + int(field)]
        elif field in kw:
            v = kw[field]
        else:
            base = field.split('[')[0].split('.')[0]
            if field == base + '[' + field[len(base) + 1:-1] + ']':
                o = kw[base] if base in kw else args[1 + int(base)]
                k = field[len(base) + 1:-1]
                v = ip.getitem(st, o, int(k) if k.lstrip('-').isdigit()
                               else k)
            else:
                raise Unsupported('format field ' + field)
        if cv:
            raise Unsupported('format conversion')
        out.append(fmt_one(ip, st, v, spec))
    return sstr(*out)


def fmt_one(ip, st, v, spec):
    v = norm(v)
    if isinstance(v, FN):
        return ip.opaque_str()
    if not spec:
        return ip.to_str(st, v)
    if isinstance(v, (str,)):
        return format(v, spec)
    if isinstance(v, int):
        return format(v, spec)
    if isinstance(v, Fraction):
        return format(float(v), spec)
    if is_scalar(v):
        return SymStr([Atom('fmt:' + spec, '/_NSEWn', (v,))])
    if isinstance(v, SymStr) and spec == 's':
        return v
    raise Unsupported('format spec')


def lacks(p, sep):
    """the atom and its neighbours hold no part of the separator"""
    return all(ch in p.free for ch in sep) and (len(sep) == 1 or p.nonempty)


def split_parts(s, sep):
    """pieces between separators: (known first, is there an unknown middle,
    known last); without a middle all pieces are in the first list"""
    first, last, gap = [[]], None, False
    for p in str_parts(s):
        cur = last if gap else first
        if isinstance(p, str):
            ps = p.split(sep)
            if gap and last is None:
                # the text up to the next separator belongs to the middle
                if len(ps) > 1:
                    last = [[x] for x in ps[1:]]
                continue
            cur[-1].append(ps[0])
            cur.extend([x] for x in ps[1:])
        elif lacks(p, sep):
            if gap and last is None:
                continue
            cur[-1].append(p)
        else:
            if len(sep) > 1:
                raise Unsupported('split of symbolic string')
            if not gap:
                first.pop()
            gap, last = True, None
    return ([sstr(*x) for x in first], gap,
            [sstr(*x) for x in last] if last else [])


def st_split(ip, st, args, kw):
    s = args[0]
    if isinstance(s, str):
        a = [x for x in args[1:]]
        return st.new(SeqRec([Items(s.split(*a))]))
    sep = args[1] if len(args) > 1 else None
    if not isinstance(sep, str) or not sep or len(args) > 2 or kw:
        raise Unsupported('split')
    first, gap, last = split_parts(s, sep)
    if not gap:
        return st.new(SeqRec([Items(first)]))
    if not first and not last:
        raise Unsupported('split of symbolic string')

    def get(k):
        raise Unsupported('piece of a symbolic string')
    n = ip.fresh('pieces', I)
    st.assume(ge(n, 1))
    return st.new(SeqRec([Items(first), SymSeg(n, get), Items(last)]))


def st_rsplit(ip, st, args, kw):
    s = args[0]
    n = norm(kw.get('maxsplit', args[2] if len(args) > 2 else -1))
    if isinstance(s, str) and len(args) > 1:
        return st.new(SeqRec([Items(s.rsplit(args[1], n))]))
    if len(args) < 2 or not isinstance(args[1], str):
        return st_const('rsplit')(ip, st, args, kw)
    if n == -1:
        return st_split(ip, st, args[:2], {})
    r = cut_last(s, args[1])
    if n != 1:
        raise Unsupported('rsplit')
    return st.new(SeqRec([Items(r if r else [s])]))


def cut_last(s, sep):
    """(text before the last separator, after it), None without one"""
    if len(sep) != 1:
        raise Unsupported('separator')
    after = []
    for k, p in reversed(list(enumerate(str_parts(s)))):
        if isinstance(p, str):
            if sep in p:
                a, b = p.rsplit(sep, 1)
                return (sstr(*(str_parts(s)[:k] + (a,))),
                        sstr(*([b] + after)))
        elif sep not in p.free:
            raise Unsupported('last separator of a symbolic string')
        after.insert(0, p)
    return None


def cut_first(s, sep):
    if len(sep) != 1:
        raise Unsupported('separator')
    before = []
    for k, p in enumerate(str_parts(s)):
        if isinstance(p, str):
            if sep in p:
                a, b = p.split(sep, 1)
                return (sstr(*(before + [a])),
                        sstr(*((b,) + tuple(str_parts(s)[k + 1:]))))
        elif sep not in p.free:
            raise Unsupported('first separator of a symbolic string')
        before.append(p)
    return None


def st_partition(ip, st, args, kw):
    r = cut_first(args[0], args[1])
    return (args[0], '', '') if r is None else (r[0], args[1], r[1])


def st_rpartition(ip, st, args, kw):
    r = cut_last(args[0], args[1])
    return ('', '', args[0]) if r is None else (r[0], args[1], r[1])


def st_join(ip, st, args, kw):
    its = ip.concrete_items(st, args[1])
    out = []
    for k, x in enumerate(its):
        if k:
            out.append(args[0])
        out.append(x)
    return sstr(*out)


def st_startswith(ip, st, args, kw):
    s, p = args[0], args[1]
    if isinstance(s, str):
        return s.startswith(p)
    x = s.parts[0]
    if isinstance(x, str) and len(x) >= len(p):
        return x.startswith(p)
    raise Unsupported('startswith')


def st_endswith(ip, st, args, kw):
    s, p = args[0], args[1]
    if isinstance(s, str):
        return s.endswith(p)
    x = s.parts[-1]
    if isinstance(x, str) and len(x) >= len(p):
        return x.endswith(p)
    raise Unsupported('endswith')


def st_const(name):
    def f(ip, st, args, kw):
        s = args[0]
        if isinstance(s, str) and all(isinstance(a, (str, int))
                                      for a in args[1:]):
            r = getattr(s, name)(*args[1:])
            if isinstance(r, list):
                return st.new(SeqRec([Items(r)]))
            return r
        raise Unsupported('str.%s of symbolic string' % name)
    return f


def st_replace(ip, st, args, kw):
    s, a, b = args[:3]
    if isinstance(s, str):
        return s.replace(a, b)
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p.replace(a, b))
        elif any(ch in p.free for ch in a):
            out.append(p)
        else:
            raise Unsupported('replace')
    return sstr(*out)


# ------------------------------------------------------------ os.path model
def p_join(ip, st, args, kw):
    out = []
    for k, a in enumerate(args):
        if not isinstance(a, (str, SymStr)):
            raise Unsupported('join of %r' % (a,))
        if k and isinstance(a, str) and a.startswith('/'):
            out = []
            k = 0
        if out:
            last = out[-1]
            lp = str_parts(last)
            if not (lp and isinstance(lp[-1], str) and
                    lp[-1].endswith('/')) and not last == '':
                out.append('/')
        out.append(a)
    return sstr(*out)


def p_split(ip, st, args, kw):
    s = args[0]
    if isinstance(s, str):
        import posixpath
        return tuple(posixpath.split(s))
    parts = list(s.parts)
    tail = []
    while parts:
        p = parts[-1]
        if isinstance(p, str):
            i = p.rfind('/')
            if i >= 0:
                head = parts[:-1] + [p[:i]]
                return (sstr(*head), sstr(p[i + 1:], *tail))
        elif '/' not in p.free:
            raise Unsupported('path split')
        tail.insert(0, parts.pop())
    return ('', s)


def p_splitext(ip, st, args, kw):
    s = args[0]
    if isinstance(s, str):
        import posixpath
        return tuple(posixpath.splitext(s))
    p = s.parts[-1]
    if isinstance(p, str) and '.' in p and '/' not in p[p.rfind('.'):]:
        i = p.rfind('.')
        return (sstr(*(list(s.parts[:-1]) + [p[:i]])), p[i:])
    raise Unsupported('splitext')


def p_const(name):
    import posixpath

    def f(ip, st, args, kw):
        if all(isinstance(a, str) for a in args):
            return getattr(posixpath, name)(*args)
        if name in ('abspath', 'realpath', 'normpath'):
            return args[0]
        if name == 'basename':
            return p_split(ip, st, args, kw)[1]
        if name == 'dirname':
            return p_split(ip, st, args, kw)[0]
        raise Unsupported('os.path.' + name)
    return f


def x_wraps(ip, st, args, kw):
    return Native('wraps-decorator', lambda ip, st, a, k: a[0])


def environ(name):
    """os.environ: no optional variable is set"""
    def contains(ip, st, args, kw):
        ip.assumed.add('environment variables the code asks for are unset')
        return False

    def get(ip, st, args, kw):
        ip.assumed.add('environment variables the code asks for are unset')
        return args[1] if len(args) > 1 else None
    if name == '__contains__':
        return Native('os.environ in', contains)
    if name == 'get':
        return Native('os.environ.get', get)
    return None


def x_partial(ip, st, args, kw):
    f, rest = args[0], args[1:]

    def g(ip, st, a, k):
        kk = dict(kw)
        kk.update(k)
        return ip.call(f, list(rest) + list(a), kk, st)
    return Native('partial', g)


def x_reduce(ip, st, args, kw):
    its = ip.iteration(st, args[1])
    if not isinstance(its, list):
        return reduce_lists(ip, st, args[0], its, args[2:])
    if len(args) > 2:
        its = [args[2]] + its
    r = its[0]
    for x in its[1:]:
        r = ip.call(args[0], [r, x], {}, st)
    return r


def reduce_lists(ip, st, f, it, start):
    """reduce(lambda total, x: total + list made from x, symbolic, [..])"""
    n, elem = it
    if not start or not (isinstance(start[0], Ref) and isinstance(
            st.heap[start[0].id], SeqRec)):
        raise Unsupported('reduce')
    tau = z3.Int('tau!%d' % Ref().id)
    unk = z3.Int('unk!%d' % Ref().id)

    def hidden(k):
        raise Unsupported('partial result of reduce')
    tok = TokenSeg('reduced', unk, hidden)
    pc0, h0 = st.pc, dict(st.heap)
    st.assume(b_and(ge(tau, 0), lt(tau, n)))
    ip.loopvars.append(tau)
    try:
        r = ip.call(f, [st.new(SeqRec([tok])), elem(tau)], {}, st)
    finally:
        ip.loopvars.pop()
    st.pc = pc0
    for k, x in h0.items():
        if st.heap.get(k) is not x:
            raise Unsupported('reduce with effects')
    r = st.heap[r.id] if isinstance(r, Ref) else None
    if not isinstance(r, SeqRec) or not r.segs or r.segs[0] is not tok or \
            any(seg_mentions(s, {unk.decl().name()}) for s in r.segs[1:]):
        raise Unsupported('reduce')
    return st.new(SeqRec(st.heap[start[0].id].segs + (
        LoopSeg(n, tau, r.segs[1:]),)))


def x_product(ip, st, args, kw):
    its = [ip.iteration(st, a) for a in args]
    if all(isinstance(i, list) for i in its):
        import itertools
        return tuple(itertools.product(*its))
    if len(its) == 2 and all(isinstance(i, tuple) for i in its):
        (n, f), (m, g) = its

        def elem(k):
            q, r = ip.divmod_sym(st, k, m)
            return (f(q), g(r))
        return SymIter(mul(n, m), elem)
    raise Unsupported('product')


def x_deepcopy(ip, st, args, kw):
    v = args[0]
    if is_scalar(v) or isinstance(v, (str, tuple)) or v is None:
        return v
    a = ip.av(st, v)
    if a is not None:
        return newcopy(st, a)
    if isinstance(v, Ref):
        return st.new(st.heap[v.id])
    raise Unsupported('copy')


def ne_evaluate(ip, st, args, kw):
    """numexpr.evaluate(text): the expression over the caller's variables"""
    import ast
    if not isinstance(args[0], str):
        raise Unsupported('numexpr expression')
    tree = ast.parse(args[0].strip(), mode='eval')
    fr = st.frames[st.cur]
    funcs = {'where': np_where, 'sqrt': ew(fsqrt), 'arctan2': ew(
        lambda a, b: rfun('atan2', a, b)), 'sin': ew(fn1('sin')),
        'cos': ew(fn1('cos')), 'arctan': ew(fn1('atan'))}
    fid = 'ne%d' % Ref().id
    st.frames[fid] = {'#parent': st.cur, '#module': fr['#module'],
                      '#globals': set()}
    for k, f in funcs.items():
        st.frames[fid][k] = Native('ne.' + k, f)
    ld = kw.get('local_dict')
    if ld is not None:
        st.frames[fid].update(st.heap[ld.id].d)
    save = st.cur
    st.cur = fid
    try:
        v = ip.ev(tree.body, st)
    finally:
        st.cur = save
        st.frames.pop(fid)
    if is_scalar(v):
        vv = v
        return mkarr(st, (), kind_of(v),
            lambda idx: vv)
    return newcopy(st, ip.av(st, v))


def install(ip):
    N = lambda name, fn: Native(name, fn)
    ip.lib_assumed = {}
    np = {}

    def reg(names, fn, d=np, pre='numpy.'):
        for n in names.split():
            d[n] = N(pre + n, fn)
    reg('array', np_array)
    reg('asarray asanyarray ascontiguousarray', np_asarray)
    reg('zeros', filler(0))
    reg('ones', filler(1))
    reg('empty', filler(0, True))
    reg('full', np_full)
    reg('zeros_like', like(0))
    reg('ones_like', like(1))
    reg('empty_like', like(0, True))
    reg('arange', np_arange)
    reg('where', np_where)
    reg('nonzero', np_nonzero)
    reg('isnan', ew(isnan, 'b'))
    reg('nan_to_num', np_nan_to_num)
    reg('floor', ew(npfloor))
    reg('ceil', ew(npceil))
    reg('around round round_', np_around)
    reg('rint', ew(around))
    reg('maximum', ew_kept(npmax))
    reg('minimum', ew_kept(npmin))
    reg('abs absolute fabs', ew(absval))
    reg('sqrt', m_sqrt)
    reg('log', m_log)
    for f in ('sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'exp',
              'radians', 'degrees', 'deg2rad', 'rad2deg', 'log10'):
        nm = {'deg2rad': 'radians', 'rad2deg': 'degrees'}.get(f, f)
        reg(f, ew(fn1(nm)))
    reg('arctan2', ew(lambda a, b: rfun('atan2', a, b)))
    reg('hypot', ew(lambda a, b: fsqrt(add(mul(a, a), mul(b, b)))))
    reg('square', ew(lambda a: mul(a, a)))
    reg('max amax', reduce_minmax('max', False, True))
    reg('min amin', reduce_minmax('min', False, False))
    reg('nanmax', reduce_minmax('nanmax', True, True))
    reg('nanmin', reduce_minmax('nanmin', True, False))
    reg('argmax', np_argextreme('argmax', True))
    reg('argmin', np_argextreme('argmin', False))
    reg('mean', np_mean)
    reg('sum', np_sum)
    reg('size', np_size)
    reg('append', np_append)
    reg('concatenate hstack', np_concatenate)
    reg('diff', np_diff)
    reg('compress', np_compress)
    reg('intersect1d', np_intersect1d)
    reg('unique', np_unique)
    reg('flipud', flip(0))
    reg('fliplr', flip(1))
    reg('rot90', np_rot90)
    reg('transpose', np_transpose)
    reg('reshape', np_reshape)
    reg('ravel', np_ravel)
    reg('atleast_1d', np_atleast_1d)
    reg('dstack', np_dstack)
    reg('any', np_anyall(False))
    reg('all', np_anyall(True))
    reg('copy', a_copy)
    reg('multiply', binop('Mult'))
    reg('add', binop('Add'))
    reg('subtract', binop('Sub'))
    reg('divide true_divide', binop('Div'))
    reg('mod remainder', binop('Mod'))
    reg('floor_divide', binop('FloorDiv'))
    reg('greater', cmpop('Gt'))
    reg('less', cmpop('Lt'))
    reg('greater_equal', cmpop('GtE'))
    reg('less_equal', cmpop('LtE'))
    reg('equal', cmpop('Eq'))
    reg('not_equal', cmpop('NotEq'))

    def lg(fn):
        def f(ip, st, args, kw):
            return ip.elementwise(st, lambda *xs: fn(
                *[ip.truth(st, x) for x in xs]), args, 'b')
        return f
    reg('logical_and', lg(b_and))
    reg('logical_or', lg(b_or))
    reg('logical_not', lg(b_not))
    reg('set_printoptions seterr warnings', noop)
    reg('ndarray', b_open)
    for k in DT:
        np[k] = DType(*DT[k])
    np['float_'] = DType('f', 'float64')
    np['int_'] = DType('i', 'int64')
    np['float'] = DType('f', 'float64')
    np['nan'] = NAN
    np['NaN'] = NAN
    np['newaxis'] = None
    np['pi'] = PI
    np['inf'] = Opaque('inf')
    np['dtype'] = N('numpy.dtype', lambda ip, st, a, k: dtype_of(a[0]))

    np['ogrid'] = NObj('ogrid', lambda name: Bound(
        N('ogrid', np_ogrid_item), None) if name == '__getitem__' else None)
    ip.libs['numpy'] = ModuleVal('numpy', None, np)
    ma = {}
    reg('masked_values', ma_values, ma, 'numpy.ma.')
    reg('masked_equal', ma_equal, ma, 'numpy.ma.')
    reg('masked_invalid', ma_invalid, ma, 'numpy.ma.')
    reg('array masked_array asarray', ma_array, ma, 'numpy.ma.')
    reg('filled', ma_filled, ma, 'numpy.ma.')
    reg('getdata', ma_data, ma, 'numpy.ma.')
    reg('getmaskarray', ma_getmask, ma, 'numpy.ma.')
    reg('multiply', binop('Mult'), ma, 'numpy.ma.')
    ip.libs['numpy.ma'] = ModuleVal('numpy.ma', None, ma)
    np['ma'] = ip.libs['numpy.ma']

    # math
    m = {}

    def mreg(names, fn):
        reg(names, fn, m, 'math.')
    for f in ('sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp',
              'radians', 'degrees'):
        mreg(f, ew(fn1(f)))
    mreg('atan2', ew(lambda a, b: rfun('atan2', a, b)))
    mreg('sqrt', m_sqrt)
    mreg('log', m_log)

    def m_fc(fn):
        def f(ip, st, args, kw):
            v = args[0]
            if isinstance(v, FN):
                ip.obl(st, 'floor/ceil of a number', b_not(v.nan))
                v = v.v
            return fn(v)
        return f
    mreg('floor', m_fc(floor_int))
    mreg('ceil', m_fc(ceil_int))
    mreg('fabs', ew(lambda a: tofloat(absval(a))))
    mreg('hypot', np['hypot'].fn)
    mreg('isnan', ew(isnan))
    mreg('pow', lambda ip, st, a, k: tofloat(power(a[0], norm(a[1]))))
    m['pi'] = PI
    ip.libs['math'] = ModuleVal('math', None, m)

    # os, sys, logging, functools ...
    pth = {}
    reg('join', p_join, pth, 'os.path.')
    reg('split', p_split, pth, 'os.path.')
    reg('splitext', p_splitext, pth, 'os.path.')
    for f in ('basename', 'dirname', 'abspath', 'realpath', 'normpath'):
        reg(f, p_const(f), pth, 'os.path.')
    pth['sep'] = '/'
    pth['pardir'] = '..'
    ospath = ModuleVal('os.path', None, pth)
    osm = {'path': ospath, 'sep': '/', 'pardir': '..', 'curdir': '.',
           'environ': NObj('os.environ', environ)}
    ip.libs['inspect'] = ModuleVal('inspect', None, {
        'getcallargs': N('inspect.getcallargs', lambda ip, st, a, k:
                         b_dict(ip, st, [], {}))})
    ip.libs['os'] = ModuleVal('os', None, osm)
    ip.libs['os.path'] = ospath
    for k, v in pth.items():
        pass
    sysm = {'version': '3.12', 'path': NObj('sys.path', lambda n: N('sys.path.' + n, noop)),
            'argv': Opaque('argv')}
    sysp = {}
    ip.libs['sys'] = ModuleVal('sys', None, sysm)
    logger = NObj('logger', lambda name: N('logger.' + name, noop))
    lgm = {'getLogger': N('logging.getLogger',
                          lambda ip, st, a, k: logger)}
    for f in ('debug', 'info', 'warning', 'error', 'critical', 'exception',
              'warn', 'log', 'basicConfig', 'StreamHandler', 'FileHandler',
              'Formatter', 'NullHandler', 'captureWarnings'):
        lgm[f] = N('logging.' + f, noop)
    for f in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
        lgm[f] = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40,
                  'CRITICAL': 50}[f]
    ip.libs['logging'] = ModuleVal('logging', None, lgm)
    ip.libs['functools'] = ModuleVal('functools', None, {
        'wraps': N('functools.wraps', x_wraps),
        'partial': N('functools.partial', x_partial),
        'reduce': N('functools.reduce', x_reduce)})
    ip.libs['itertools'] = ModuleVal('itertools', None, {
        'product': N('itertools.product', x_product)})

    def x_defaultdict(ip, st, args, kw):
        """lookups do not enter the key (enumeration is not supported)"""
        if len(args) != 1 or kw:
            raise Unsupported('defaultdict with contents')
        if args[0] is None:
            return st.new(DictRec({}))
        d = ip.call(args[0], [], {}, st)
        if not (is_scalar(d) or isinstance(d, str) or d is None):
            raise Unsupported('default value of a dictionary')
        return st.new(DictRec({}, (d,)))
    ip.libs['collections'] = ModuleVal('collections', None, {
        'defaultdict': N('collections.defaultdict', x_defaultdict)})
    ip.libs['copy'] = ModuleVal('copy', None, {
        'copy': N('copy.copy', x_deepcopy),
        'deepcopy': N('copy.deepcopy', x_deepcopy)})
    ip.libs['numexpr'] = ModuleVal('numexpr', None, {
        'evaluate': N('numexpr.evaluate', ne_evaluate)})
    ip.libs['__future__'] = ModuleVal('__future__', None, {
        k: None for k in ('print_function', 'division', 'absolute_import',
                          'unicode_literals')})
    ip.libs['warnings'] = ModuleVal('warnings', None, {
        'warn': N('warnings.warn', noop),
        'filterwarnings': N('warnings.filterwarnings', noop),
        'simplefilter': N('warnings.simplefilter', noop)})
    ip.libs['time'] = ModuleVal('time', None, {
        k: N('time.' + k, lambda ip, st, a, kw: Opaque('time'))
        for k in ('strftime', 'localtime')})

    def a_time(ip, st, a, kw):
        ip.assumed.add('time.time returns some real number')
        return z3.FreshReal('time')
    for k in ('time', 'perf_counter', 'monotonic'):
        ip.libs['time'].attrs[k] = N('time.' + k, a_time)
    ip.libs['time'].attrs['sleep'] = N('time.sleep', noop)

    b = {}
    breg = lambda n, f: b.__setitem__(n, N(n, f))
    for n, f in (('len', b_len), ('range', b_range), ('xrange', b_range),
                 ('enumerate', b_enumerate), ('zip', b_zip), ('map', b_map),
                 ('max', b_minmax(True)), ('min', b_minmax(False)),
                 ('int', b_int), ('float', b_float), ('str', b_str),
                 ('bool', b_bool), ('abs', b_abs), ('round', b_round),
                 ('pow', b_pow),
                 ('list', b_list), ('tuple', b_tuple), ('dict', b_dict),
                 ('set', b_set), ('sorted', b_sorted),
                 ('reversed', b_reversed), ('divmod', b_divmod),
                 ('isinstance', b_isinstance), ('repr', b_repr), ('type', b_type),
                 ('getattr', b_getattr), ('hasattr', b_hasattr),
                 ('sum', b_sum), ('any', b_anyall(False)),
                 ('all', b_anyall(True)), ('print', noop),
                 ('open', b_open), ('property', b_property),
                 ('staticmethod', b_staticmethod),
                 ('classmethod', b_classmethod),
                 ('filter', b_filter), ('frozenset', b_set)):
        breg(n, f)
    for e in ExcClass.tree:
        b[e] = ExcClass(e)
    b['object'] = NativeClass('object')
    b['True'], b['False'], b['None'] = True, False, None
    b['__name__'] = 'verif'
    b['NotImplemented'] = Opaque('NotImplemented')
    ip.builtins = b

    M = {}
    for n, f in (('append', l_append), ('extend', l_extend), ('pop', l_pop),
                 ('index', l_index), ('insert', l_insert),
                 ('sort', l_sort), ('remove', l_remove), ('copy', l_copy)):
        M[('list', n)] = f
    for n, f in (('keys', d_keys), ('values', d_values), ('items', d_items),
                 ('iteritems', d_items), ('get', d_get),
                 ('update', d_update), ('setdefault', d_setdefault),
                 ('has_key', d_haskey), ('copy', d_copy)):
        M[('dict', n)] = f
    M[('set', 'add')] = s_add
    for x in ('difference intersection union update issubset issuperset '
              'isdisjoint discard remove copy').split():
        M[('set', x)] = set_op(x)
    for n, f in (('format', st_format), ('split', st_split),
                 ('join', st_join), ('startswith', st_startswith),
                 ('endswith', st_endswith), ('replace', st_replace),
                 ('rsplit', st_rsplit), ('partition', st_partition),
                 ('rpartition', st_rpartition)):
        M[('str', n)] = f
    for n in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'title',
              'zfill', 'rjust', 'ljust', 'find', 'rfind', 'count',
              'splitlines', 'isdigit'):
        M[('str', n)] = st_const(n)

    def t_index(ip, st, args, kw):
        for k, x in enumerate(args[0]):
            if ip.equal(st, x, args[1]) is True:
                return k
        raise Unsupported('tuple.index')
    M[('tuple', 'index')] = t_index
    for n, f in (('astype', a_astype), ('copy', a_copy), ('fill', a_fill),
                 ('flatten', a_flatten), ('ravel', np_ravel),
                 ('reshape', np_reshape), ('transpose', np_transpose),
                 ('max', reduce_minmax('max', False, True)),
                 ('min', reduce_minmax('min', False, False)),
                 ('mean', np_mean), ('sum', np_sum), ('item', a_item),
                 ('tolist', a_tolist), ('nonzero', np_nonzero),
                 ('any', np_anyall(False)), ('all', np_anyall(True)),
                 ('filled', ma_filled), ('round', np_around)):
        M[('array', n)] = f

    def num_round(ip, st, args, kw):
        return np_around(ip, st, args, kw)
    M[('num', 'round')] = num_round
    M[('num', 'item')] = lambda ip, st, a, k: a[0]
    M[('num', 'copy')] = lambda ip, st, a, k: a[0]
    M[('num', 'is_integer')] = lambda ip, st, a, k: eq(
        a[0], npfloor(tofloat(a[0])))

    def num_astype(ip, st, args, kw):
        from .interp import conv
        return conv(dtype_of(args[1]).kind, args[0])
    M[('num', 'astype')] = num_astype
    ip.methods = M
    from . import ext
    ext.install(ip)


PI = z3.Real('pi')
