"""C13: mh_calc() and escarpment_factor() against the hill-shape formula."""
from engine.vc import *

REG = Registry('C13')
F = 'topographic/mh.py:'


def hill(v):
    """a line and one hill of it"""
    n = v.int('n', 1)
    p, gp = v.arr('profile', (n,))
    r, va = v.int('ridge', 0), v.int('valley', 0)
    v.pre(lt(r, n))
    v.pre(lt(va, r))
    v.pre(gt(gp(r), gp(va)))
    ds = v.real('spacing')
    v.pre(gt(ds, 0))
    return n, p, gp, r, va, ds


def params(gp, r, va, ds):
    H = sub(gp(r), gp(va))
    lu = truediv(mul(sub(r, va), ds), 2)
    slope = truediv(H, mul(2, lu))
    l1 = smax(mul(Fraction(36, 100), lu), mul(Fraction(4, 10), H))
    return H, lu, slope, l1, mul(4, l1)


def escarpment(n, gp, r, va, ds):
    H, lu, slope, l1, l2 = params(gp, r, va, ds)
    beta = smin(sub(n, 1), add(r, sub(r, va)))
    dist = mul(sub(beta, r), ds)
    raw = sub(Fraction(5, 2), mul(Fraction(3, 2), truediv(truediv(
        sub(gp(r), gp(beta)), ite(gt(dist, 0), dist, 1)), slope)))
    lim = ite(lt(raw, Fraction(1, 2)), Fraction(1, 2),
              ite(gt(raw, 3), Fraction(3), raw))
    return ite(gt(dist, 0), lim, Fraction(1))


def mh(gp, r, va, ds, E, k):
    """multiplier at point k; E the escarpment factor"""
    H, lu, slope, l1, l2 = params(gp, r, va, ds)
    x = mul(sub(r, k), ds)
    none = b_or(lt(H, 10), lt(slope, Fraction(5, 100)), lt(lu, ds))
    cap = Fraction(171, 100)
    base = truediv(H, mul(Fraction(7, 2), add(10, l1)))
    up = smin(cap, add(1, mul(base, sub(1, truediv(x, l2)))))
    el2 = mul(E, l2)
    down = smin(cap, add(1, mul(base, sub(1, truediv(neg(x), el2)))))
    sep = add(1, mul(Fraction(71, 100), sub(1, truediv(neg(x), el2))))
    near = b_and(gt(slope, Fraction(45, 100)), lt(x, 0),
                 gt(x, truediv(neg(H), 4)),
                 lt(absval(sub(E, 1)), Fraction(2, 10)))
    inside = ite(ge(x, 0), ite(lt(x, l2), up, Fraction(1)),
                 ite(near, sep, ite(gt(x, neg(el2)), down, Fraction(1))))
    return ite(none, Fraction(1), inside)


@REG.task('escarpment_factor', [F + 'escarpment_factor'])
def esc(v):
    f = v.fn('topographic.mh', 'escarpment_factor')
    n, p, gp, r, va, ds = hill(v)
    st, res = v.call1(f, p, r, va, ds)
    v.ensure(st, 'between 0.5 and 3', b_and(ge(res, Fraction(1, 2)),
                                            le(res, 3)))
    v.ensure(st, 'the documented factor', eq(res, escarpment(
        n, gp, r, va, ds)))
    v.ensure_cells(st, 'the line is unchanged', p, (n,), gp)


@REG.task('mh_calc', [F + 'mh_calc'], timeout=20.0,
          params=['no hill', 'windward', 'lee'])
def calc(v, part):
    f = v.fn('topographic.mh', 'mh_calc')
    n, p, gp, r, va, ds = hill(v)
    E = v.real('escarpment', Fraction(1, 2), 3)

    def c(ip, st, profile, ridge, valley, spacing):
        ip.obl(st, 'escarpment_factor gets the hill', b_and(
            profile is p, eq(ridge, r), eq(valley, va), eq(spacing, ds)))
        return E
    v.ip.contracts[F + 'escarpment_factor'] = Contract(c)
    st, res = v.call1(f, p, r, va, ds)
    H, lu, slope, l1, l2 = params(gp, r, va, ds)
    k = z3.Int('cell!0')
    for dist, ext in ((sub(r, k), l2), (sub(k, r), mul(E, l2))):
        lem = b_iff(lt(mul(dist, ds), ext), lt(dist, truediv(ext, ds)))
        v.ensure(st, 'dividing by the spacing keeps the order', lem)
        st.assume(lem)
    none = b_or(lt(H, 10), lt(slope, Fraction(5, 100)), lt(lu, ds))
    where = {'no hill': lambda k, z: none,
             'windward': lambda k, z: b_and(b_not(none), le(k, r)),
             'lee': lambda k, z: b_and(b_not(none), gt(k, r))}[part]
    v.ensure_cells(st, 'hill-shape multiplier, ' + part, res, (n, 1),
                   lambda k, z: mh(gp, r, va, ds, E, k), where=where)
    v.ensure_cells(st, 'the line is unchanged', p, (n,), gp)


@REG.task('bounds')
def bounds(v):
    """the specified multiplier is between 1 and 1.71, and 1 outside the
    zone; stated over H, Lu, spacing, the offset x and the factor E"""
    H, lu, E, x = v.real('H'), v.real('Lu'), v.real('E', Fraction(1, 2), 3), \
        v.real('x')
    l1 = v.real('L1')
    v.pre(b_and(gt(H, 0), gt(lu, 0)))
    v.pre(b_and(ge(l1, mul(Fraction(36, 100), lu)),
                ge(l1, mul(Fraction(4, 10), H))))
    st, l2 = v.st, mul(4, l1)
    u = v.real('u')          # |x| / L2 or |x| / (E L2)
    v.pre(b_and(ge(u, 0), lt(u, 1)))
    b = v.real('b')
    v.pre(eq(mul(b, mul(Fraction(7, 2), add(10, l1))), H))
    val = smin(Fraction(171, 100), add(1, mul(b, sub(1, u))))
    v.ensure(st, 'base is not negative', ge(b, 0))
    s = st.copy()
    s.assume(ge(b, 0))
    v.ensure(s, 'capped formula in [1, 1.71]', b_and(
        ge(val, 1), le(val, Fraction(171, 100))))
    s = st.copy()
    s.assume(b_and(lt(x, 0), gt(mul(4, x), neg(H)), gt(E, Fraction(8, 10))))
    v.ensure(s, 'the separation zone lies inside the hill zone',
             gt(x, neg(mul(E, l2))))
    v.ensure(st, 'separation formula in [1, 1.71]', b_and(
        ge(add(1, mul(Fraction(71, 100), sub(1, u))), 1),
        le(add(1, mul(Fraction(71, 100), sub(1, u))), Fraction(171, 100))))
