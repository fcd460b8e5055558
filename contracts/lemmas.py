"""Lemmas about finite sums over rectangles (proved in lemmas/Sums.lean).

Each instance first generates the obligation of the lemma's hypotheses and
then adds its conclusion to the state."""
from engine.vc import *
from engine.lib import mksum2
from engine.terms import *
from engine.values import *

_k = [0]
PROVED = ('lemma (proved in lemmas/Sums.lean: scale, member, mono, ext, zero, '
          'flip_rows, flip_cols, transpose): sums of rectangles')


def binders():
    _k[0] += 1
    return z3.Int('sa!%d' % _k[0]), z3.Int('sb!%d' % _k[0])


def sum2(n0, n1, f):
    i, j = binders()
    return mksum2(n0, n1, i, j, tofloat(f(i, j)))


class Total(object):
    """the sum of f over an n0 x n1 rectangle, as a named number"""
    def __init__(self, n0, n1, f, value=None):
        self.n0, self.n1, self.f = n0, n1, f
        if value is None:
            _k[0] += 1
            value = z3.Real('total_%d' % _k[0])
        self.value = value


def _all(v, st, t, name, prop):
    i, j = z3.Int('li'), z3.Int('lj')
    s = st.copy()
    for x, n in ((i, t.n0), (j, t.n1)):
        s.assume(b_and(ge(x, 0), lt(x, n)))
    v.ensure(s, 'lemma: ' + name, prop(i, j))


def scale(v, st, t, c):
    """SUM(c * f) = c * SUM(f)"""
    v.trust(PROVED)
    return Total(t.n0, t.n1, lambda i, j: mul(c, t.f(i, j)),
                 mul(c, t.value))


def member(v, st, t, i, j):
    """f >= 0: SUM(f) >= f(i, j)"""
    v.trust(PROVED)
    _all(v, st, t, 'the summands are not negative',
         lambda a, b: ge(t.f(a, b), 0))
    v.ensure(st, 'lemma: the member is inside', b_and(
        ge(i, 0), lt(i, t.n0), ge(j, 0), lt(j, t.n1)))
    st.assume(ge(t.value, t.f(i, j)))


def mono(v, st, t, u):
    """f <= g: SUM(f) <= SUM(g)"""
    v.trust(PROVED)
    _all(v, st, t, 'every summand is at most the other',
         lambda a, b: le(t.f(a, b), u.f(a, b)))
    st.assume(le(t.value, u.value))


def ext(v, st, t, f):
    """f = g on the rectangle: same sum"""
    v.trust(PROVED)
    _all(v, st, t, 'equal summands',
         lambda a, b: same(t.f(a, b), f(a, b)))
    return Total(t.n0, t.n1, f, t.value)


def zero(n0, n1):
    return Total(n0, n1, lambda i, j: Fraction(0), Fraction(0))


def flip(v, st, t, rows, cols, transpose=False):
    """the sum does not change when axes are reversed or exchanged"""
    v.trust(PROVED)
    if transpose:
        v.ensure(st, 'lemma: square', eq(t.n0, t.n1))

    def g(i, j):
        if transpose:
            i, j = j, i
        return t.f(sub(sub(t.n0, 1), i) if rows else i,
                   sub(sub(t.n1, 1), j) if cols else j)
    return Total(t.n0, t.n1, g, t.value)
