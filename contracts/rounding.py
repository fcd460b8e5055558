"""Floating point arithmetic with rounding.

Under `Rounding` the result of every +, -, *, / on floats is its exact value
plus an error of at most 2^-53 of its size (round to nearest in double
precision; no overflow, and no result so small that it is subnormal but not
exact).  So that the errors stay linear, each is written d * s with a scale s
out of a list (the cell sizes, 1): |r| <= BOUND * s is proved, and
|d| <= 2^-53 * BOUND is what is used (d = error(r), an unknown function)."""
from engine.vc import *
from engine.terms import *
from engine.values import *

FAR = 10 ** 8
BOUND = 4 * 10 ** 8
UNIT = Fraction(1, 2 ** 53)


class Rounding(object):
    def __init__(self, v, scales):
        self.v, self.scales, self.n = v, list(scales) + [Fraction(1)], 0
        v.ip.rounding = self
        self.errors = []
        x = z3.Real('exact')
        e = UNIT * BOUND
        for i in range(len(self.scales)):
            f = z3.Function('rounding_%d' % i, R, R)
            v.fact(z3.ForAll([x], zb(b_and(le(-e, f(x)), le(f(x), e))),
                             patterns=[f(x)]), {'rounding_%d' % i})
            self.errors.append(f)

    def __call__(self, st, op, r):
        ip = self.v.ip
        if isinstance(r, FN) or st is None:
            raise Unsupported('rounding of arrays')
        if not is_floatlike(r):
            return r
        if isinstance(norm(r), Fraction):
            if Fraction(float(r)) != norm(r):
                raise Unsupported('rounding of a constant')
            return r
        for s, f in zip(self.scales, self.errors):
            b = mul(Fraction(BOUND), s)
            if ip.valid(st, b_and(le(neg(b), r), le(r, b))):
                break
        else:
            raise Unsupported('size of the result of ' + op)
        # rounding is a function of the exact result
        d = f(zr(r))
        self.n += 1
        return add(r, mul(d, s))


def close(v, o, p, n):
    """n cells of size p from o on: within FAR cells of the origin"""
    v.pre(b_and(le(n, FAR), le(mul(Fraction(-FAR), p), o),
                le(o, mul(Fraction(FAR), p))))


def product_law(v, st, n, p, bound):
    """0 <= n <= bound, p > 0: 0 <= n p <= bound p"""
    a, b = z3.Real('law_n'), z3.Real('law_p')
    v.ensure(v.only(st), 'lemma: a product is at most the bound times the '
             'factor', b_implies(
                 b_and(le(0, a), le(a, bound), gt(b, 0)),
                 b_and(le(0, mul(a, b)), le(mul(a, b), mul(bound, b)))))
    st.assume(b_and(le(0, mul(n, p)), le(mul(n, p), mul(bound, p))))
