"""C28: vinc_dist is Vincenty's inverse formula.

The quantities of the formula are named constants; whatever expression of the
code equals one of their definitions (as a polynomial over the earlier ones)
is replaced by the constant."""
import ast
from engine.vc import *
from engine.values import *
from engine.interp import assigned_names
from engine.invariants import NORMAL
from contracts.gis import nat

REG = Registry('C28')
F_ = 'utilities/vincenty.py:vinc_dist'
E9 = Fraction(1, 10 ** 9)


def pw(x, n):
    r = x
    for _ in range(n - 1):
        r = mul(r, x)
    return r


def total(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r


def prod(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = mul(r, x)
    return r


# the formula: name, definition over the earlier quantities (Vincenty 1975,
# in the order of the GDA manual); su1 ... cl are sines and cosines of the
# reduced latitudes and of the difference in longitude on the sphere
FORMULA = [
    ('sin2_sigma', lambda q: add(pw(mul(q.cu2, q.sl), 2), pw(sub(
        mul(q.cu1, q.su2), prod(q.su1, q.cu2, q.cl)), 2))),
    ('cos_sigma', lambda q: add(mul(q.su1, q.su2),
                                prod(q.cu1, q.cu2, q.cl))),
    ('sin_alpha', lambda q: truediv(prod(q.cu1, q.cu2, q.sl), q.sin_sigma)),
    ('cos2_alpha', lambda q: sub(1, pw(q.sin_alpha, 2))),
    ('cos_2sigma_m', lambda q: sub(q.cos_sigma, truediv(
        prod(2, q.su1, q.su2), q.cos2_alpha))),
    ('C', lambda q: prod(q.f, Fraction(1, 16), q.cos2_alpha, add(4, mul(
        q.f, sub(4, mul(3, q.cos2_alpha)))))),
    ('lambda_next', lambda q: add(q.omega, prod(
        sub(1, q.C), q.f, q.sin_alpha, add(q.sigma, prod(
            q.C, q.sin_sigma, add(q.cos_2sigma_m, prod(
                q.C, q.cos_sigma, add(-1, mul(2, pw(
                    q.cos_2sigma_m, 2)))))))))),
    ('u2', lambda q: truediv(mul(q.cos2_alpha, sub(pw(q.a, 2), pw(
        q.b, 2))), pw(q.b, 2))),
    ('A', lambda q: add(1, prod(q.u2, Fraction(1, 16384), add(4096, mul(
        q.u2, add(-768, mul(q.u2, sub(320, mul(175, q.u2))))))))),
    ('B', lambda q: prod(q.u2, Fraction(1, 1024), add(256, mul(
        q.u2, add(-128, mul(q.u2, sub(74, mul(47, q.u2)))))))),
    ('delta_sigma', lambda q: prod(q.B, q.sin_sigma, add(
        q.cos_2sigma_m, prod(q.B, Fraction(1, 4), sub(
            mul(q.cos_sigma, add(-1, mul(2, pw(q.cos_2sigma_m, 2)))),
            prod(q.B, Fraction(1, 6), q.cos_2sigma_m, add(-3, mul(
                4, q.sin2_sigma)), add(-3, mul(4, pw(
                    q.cos_2sigma_m, 2))))))))),
    ('s', lambda q: prod(q.b, q.A, sub(q.sigma, q.delta_sigma)))]
BASE = ('f', 'a', 'b', 'omega', 'su1', 'cu1', 'su2', 'cu2', 'sl', 'cl',
        'sin_sigma', 'sigma', 'cos_alpha')


class Q(object):
    def __init__(self):
        for n in BASE + tuple(n for n, _ in FORMULA):
            setattr(self, n, z3.Real('vincenty_' + n))
        self.defs = [(n, norm(fn(self))) for n, fn in FORMULA]


def circle(s, c):
    return eq(add(pw(s, 2), pw(c, 2)), 1)


def sphere(st, q):
    """the reduced latitudes and the longitude difference are angles"""
    for s, c in ((q.su1, q.cu1), (q.su2, q.cu2), (q.sl, q.cl)):
        st.assume(circle(s, c))


def lemmas(v, q):
    """facts about the quantities used to rewrite the code: proved here"""
    st = v.st.copy()
    sphere(st, q)
    d = dict(q.defs)
    u = st.copy()
    u.assume(eq(q.sin2_sigma, d['sin2_sigma']))
    u.assume(eq(q.cos_sigma, d['cos_sigma']))
    v.ensure(u, 'squared sine and cosine of sigma add up to one', eq(
        add(d['sin2_sigma'], pw(d['cos_sigma'], 2)), 1))
    v.ensure(u, 'the squared sine of sigma is not negative',
             ge(d['sin2_sigma'], 0))
    x, y, z, n = [v.real(k) for k in 'xyzn']
    s1 = v.st.copy()
    s1.assume(circle(q.su1, q.cu1))
    v.ensure(s1, 'a squared cosine is at most one', le(pw(q.cu1, 2), 1))
    v.ensure(v.st, 'a squared product', eq(
        pw(prod(q.cu1, q.cu2, q.sl), 2),
        mul(pw(q.cu1, 2), pw(mul(q.cu2, q.sl), 2))))
    s2 = v.st.copy()
    s2.assume(b_and(le(x, 1), ge(x, 0), ge(y, 0), ge(z, 0)))
    v.ensure(s2, 'its bound', le(mul(x, y), add(y, z)))
    s3 = v.st.copy()
    s3.assume(b_and(gt(y, 0), le(pw(n, 2), pw(y, 2))))
    s3.assume(eq(mul(x, y), n))
    v.ensure(s3, 'the sine of alpha lies between -1 and 1', b_and(
        le(x, 1), ge(x, -1)))


@REG.task('lemmas', timeout=30.0)
def lemma_task(v):
    lemmas(v, Q())


def way_out(s):
    """the condition of a statement that only leaves the loop"""
    if not isinstance(s, ast.If) or s.orelse or len(s.body) != 1:
        return None
    if isinstance(s.body[0], ast.Break):
        return s.test
    c = way_out(s.body[0])
    return c and ast.BoolOp(op=ast.And(), values=[s.test, c])


def head_test(node):
    """(loop, whether its first round is unconditional) with the condition of
    an endless loop's way out at its top or its bottom as the loop's own"""
    if not isinstance(node.test, ast.Constant) or not node.test.value:
        return node, False
    for k in (0, -1):
        c = way_out(node.body[k])
        if c is None:
            continue
        rest = node.body[1:] if k == 0 else node.body[:-1]
        new = ast.While(test=ast.UnaryOp(op=ast.Not(), operand=c),
                        body=rest, orelse=[])
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new), k == -1
    return node, False


class Code(object):
    """evaluation of vinc_dist with the quantities of the formula named"""

    def __init__(self, v, q, tan, angles):
        self.v, self.q, self.ip = v, q, v.ip
        self.angles = angles
        self.lam = None
        self.consts = [(c, norm(d)) for c, d in [
            (q.b, mul(q.a, sub(1, q.f))), (q.omega, angles[1])]]
        self.keys = {}
        ip = self.ip
        ev = ip.ev

        def named(node, st):
            x = ev(node, st)
            if isinstance(node, (ast.BinOp, ast.Call, ast.Name, ast.UnaryOp,
                                 ast.IfExp)):
                return self.name(st, x)
            return x
        ip.ev = named
        for n, fn in (('sin', self.sin), ('cos', self.cos),
                      ('atan2', self.atan2), ('asin', self.asin),
                      ('sqrt', self.sqrt)):
            ip.libs['math'].attrs[n] = nat('math.' + n, fn)

    def name(self, st, x):
        if not is_scalar(x) or not is_z3(x) or x.sort() != R or \
                z3.is_const(x):
            return x
        q = self.q
        t = norm(x)
        if not is_z3(t):
            return t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            # rounding guards: the sine clamped to [-1, 1]
            if self.ip.valid(st, eq(t, q.sin_alpha)):
                return q.sin_alpha
            return t
        for c, d in self.consts + [(getattr(q, n), d) for n, d in q.defs]:
            if eq(t, d) is True:
                return c
        for c, d in ((q.sin2_sigma, pw(q.sin_sigma, 2)),
                     (q.cos2_alpha, pw(q.cos_alpha, 2))):
            if eq(t, d) is True:
                return c
        return t

    def is_(self, x, y):
        return is_z3(y) and eq(x, y) is True

    def trig(self, st, x, which):
        q = self.q
        x = norm(x)
        for angle, s, c in ((self.angles[0][0], q.su1, q.cu1),
                            (self.angles[0][1], q.su2, q.cu2),
                            (q.sigma, q.sin_sigma, q.cos_sigma),
                            (self.alpha, q.sin_alpha, q.cos_alpha)):
            if self.is_(x, angle):
                return (s, c)[which]
        if self.carried and is_z3(x) and self.lam is None and any(
                x.eq(c) for c in self.carried.values()):
            self.lam = x
        if self.lam is not None and self.is_(x, self.lam):
            return (q.sl, q.cl)[which]
        return rfun(('sin', 'cos')[which], x)
    alpha = z3.Real('vincenty_alpha')
    carried = None

    def sin(self, ip, st, a, k):
        return self.trig(st, a[0], 0)

    def cos(self, ip, st, a, k):
        return self.trig(st, a[0], 1)

    def sqrt(self, ip, st, a, k):
        x = norm(a[0])
        if self.is_(x, self.q.sin2_sigma):
            return self.q.sin_sigma
        raise Unsupported('square root')

    def atan2(self, ip, st, a, k):
        q = self.q
        if self.is_(a[0], q.sin_sigma) and self.is_(a[1], q.cos_sigma):
            return q.sigma
        return rfun('atan2', *a)

    def asin(self, ip, st, a, k):
        ip.obl(st, 'asin of a number between -1 and 1', b_and(
            le(a[0], 1), ge(a[0], -1)), exact=False)
        if self.is_(a[0], self.q.sin_alpha):
            return self.alpha
        return rfun('asin', a[0])

    def loop(self, ip, node, st, *rest):
        if rest or self.carried is not None:
            raise Unsupported('loop')
        v, q = self.v, self.q
        node, least = head_test(node)
        names = sorted(set(assigned_names(node.body)))
        first = least or norm(ip.truth(st, ip.ev(node.test, st)))
        v.ensure(st, 'at least one iteration', first, exact=False)
        s = st.copy()
        f = s.frames[s.cur] = dict(s.frames[s.cur])
        self.carried, self.start = {}, {}
        for x in names:
            if x in f and f[x] is not UNBOUND:
                if not is_scalar(norm(f[x])):
                    raise Unsupported('loop variable')
                self.start[x] = norm(f[x])
                f[x] = self.carried[x] = ip.fresh('any_' + x, R)
        if not least:
            s.assume(norm(ip.truth(s, ip.ev(node.test, s))))
        for c in self.carried.values():
            # a longitude difference, far from the value of 'no previous one'
            s.assume(b_and(gt(c, -4000001), lt(c, 4000001)))
        base = {k: r for k, r in s.heap.items()}
        res = ip.exec_block(node.body, s)
        if len(res) != 1 or res[0][1][0] not in ('normal', 'continue'):
            raise Unsupported('ways out of the loop')
        t = res[0][0]
        if any(t.heap.get(k) is not r for k, r in base.items()):
            raise Unsupported('loop changes an object')
        if self.lam is None:
            raise Unsupported('no longitude on the sphere')
        (lam,) = [x for x, c in self.carried.items() if c.eq(self.lam)]
        g = t.frames[t.cur]
        if not self.is_(g[lam], q.lambda_next):
            raise Unsupported('next longitude on the sphere')
        for x, c in self.carried.items():
            if x != lam and not self.is_(norm(g[x]), self.lam):
                raise Unsupported('loop variable ' + x)
        t.assume(b_and(gt(self.lam, -3000000), lt(self.lam, 3000000)))
        again = norm(ip.truth(t, ip.ev(node.test, t)))
        nxt = q.lambda_next
        v.ensure(t, 'the iteration ends exactly when the longitude changes '
                 'by no more than one part in 10^9', eq(again, b_and(
                     b_not(eq(nxt, 0)), gt(absval(sub(self.lam, nxt)), mul(
                         E9, absval(nxt))))), exact=False)
        v.ensure(st, 'the iteration starts at the difference of the '
                 'longitudes', eq(self.start[lam], q.omega), exact=False)
        t.assume(b_not(again))
        return [(t, NORMAL)]
    loop.early = True


def inputs(v):
    q = Q()
    p1, l1, p2, l2 = [v.real(n) for n in ('phi1', 'lembda1', 'phi2',
                                          'lembda2')]
    v.pre(b_and(ge(q.f, 0), lt(q.f, 1), gt(q.a, 0)))
    near = b_and(lt(absval(sub(p2, p1)), Fraction(1, 10 ** 8)),
                 lt(absval(sub(l2, l1)), Fraction(1, 10 ** 8)))
    return q, p1, l1, p2, l2, near


@REG.task('coincident', [F_])
def coincident(v):
    """points closer than 1e-8 radians (6 cm) in both coordinates"""
    q, p1, l1, p2, l2, near = inputs(v)
    v.pre(near)
    st, r = v.call1(v.fn('utilities.vincenty', 'vinc_dist'), q.f, q.a, p1,
                    l1, p2, l2)
    r = v.ip.concrete_items(st, r)
    v.ensure(st, 'no distance between coinciding points', eq(r[0], 0))


@REG.task('formula', [F_], timeout=20.0)
def formula(v):
    q, p1, l1, p2, l2, near = inputs(v)
    v.pre(b_not(near))
    ip = v.ip
    v.fn('utilities.vincenty', 'vinc_dist')
    tan = [mul(sub(1, q.f), rfun('tan', p)) for p in (p1, p2)]
    c = Code(v, q, tan, ([rfun('atan', t) for t in tan], sub(l2, l1)))
    ip.invariants[(F_, 'while')] = c.loop
    st = v.st
    st.assume(b_and(eq(q.omega, sub(l2, l1)), eq(q.b, mul(q.a, sub(
        1, q.f)))))
    st.assume(b_and(gt(q.b, 0), gt(q.sin_sigma, 0)))
    st.assume(b_and(ge(q.sin_alpha, -1), le(q.sin_alpha, 1)))
    st.assume(b_not(eq(q.cos2_alpha, 0)))
    v.trust('sine, cosine, tangent and their inverses are those of '
            'mathematics; the cosine of a double is never exactly 0')
    v.trust('the two points differ, are not antipodal and are less than '
            '3 000 000 radians apart in longitude (precondition)')
    st, r = v.call1(v.fn('utilities.vincenty', 'vinc_dist'), q.f, q.a, p1,
                    l1, p2, l2)
    if c.carried is None:
        raise Unsupported('no iteration')
    r = ip.concrete_items(st, r)
    v.ensure(st, "distance by Vincenty's formula", eq(r[0], q.s),
             exact=False)


@REG.task('symmetric', timeout=20.0)
def symmetric(v):
    """lemma: with the points exchanged every iteration, and the test that
    ends them, sees the opposite longitude and the distance is the same"""
    q, r = Q(), Q()
    for n in ('f', 'a', 'b'):
        setattr(r, n, getattr(q, n))
    for n, m in (('su1', 'su2'), ('su2', 'su1'), ('cu1', 'cu2'),
                 ('cu2', 'cu1'), ('cl', 'cl'), ('sin_sigma', 'sin_sigma'),
                 ('sigma', 'sigma')):
        setattr(r, n, getattr(q, m))
    for n in ('omega', 'sl'):
        setattr(r, n, norm(neg(getattr(q, n))))
    st = v.st.copy()
    sphere(st, q)
    for n, fn in FORMULA:
        want = getattr(q, n)
        if n in ('sin_alpha', 'lambda_next'):
            want = norm(neg(want))
        here = norm(dict(q.defs)[n])
        there = norm(fn(r))
        if n in ('sin_alpha', 'lambda_next'):
            here = norm(neg(here))
        u = st.copy() if n == 'sin2_sigma' else v.st.copy()
        u.assume(b_and(gt(q.sin_sigma, 0), b_not(eq(q.cos2_alpha, 0)),
                       gt(q.b, 0)))
        if n == 'sin2_sigma':
            v.ensure(u, 'the same squared sine of sigma', eq(here, there))
        else:
            v.ensure(u, '%s with the points exchanged' % n,
                     eq(here, there))
        setattr(r, n, want)
    x, y = v.real('lambda'), v.real('next')
    v.ensure(v.st, 'the iteration ends at the same time', eq(
        gt(absval(sub(x, y)), mul(E9, absval(y))),
        gt(absval(sub(neg(x), neg(y))), mul(E9, absval(neg(y))))))
