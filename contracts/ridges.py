"""Specification of ridges, valleys and hills of an elevation line, shared by
C12 (which proves it) and C14 (which uses it as callee contract)."""
from engine.vc import *
from engine.values import *

F = 'topographic/findpeaks.py:'


def top(y, n, i):
    """i is the top of a strictly rising run"""
    return b_and(ge(i, 1), lt(i, n), gt(y(i), y(sub(i, 1))),
                 b_or(eq(i, sub(n, 1)), le(y(add(i, 1)), y(i))))


def foot(y, n, i):
    return b_and(ge(i, 0), lt(i, sub(n, 1)), lt(y(i), y(add(i, 1))),
                 b_or(eq(i, 0), ge(y(sub(i, 1)), y(i))))


def rising(y, n, i):
    return b_and(ge(i, 0), lt(i, sub(n, 1)), gt(y(add(i, 1)), y(i)))


class Listing(object):
    """the first cnt values of g, increasing: all i in [0, n) with member(i),
    and possibly `free`"""
    def __init__(self, cnt, g, rank):
        self.cnt, self.g, self.rank = cnt, g, rank


def listing_facts(L, n, member, free, k, j, i):
    """(clause about place k, about places k < j, about member i)"""
    e = L.g(k)
    r = L.rank(i)
    return (
        b_implies(b_and(ge(k, 0), lt(k, L.cnt)), b_and(
            ge(e, 0), lt(e, n), b_or(member(e), eq(e, free)))),
        b_implies(b_and(ge(k, 0), lt(k, j), lt(j, L.cnt)),
                  lt(L.g(k), L.g(j))),
        b_implies(b_and(member(i), ne(i, free)), b_and(
            ge(r, 0), lt(r, L.cnt), eq(L.g(r), i))))


def assume_listing(v, L, n, member, free, names, st=None):
    """the listing facts as callee postcondition"""
    k, j, i = z3.Ints('k!L j!L i!L')
    a, b, c = listing_facts(L, n, member, free, k, j, i)
    t = lambda x, vs, ps: z3.ForAll(vs, zb(x), patterns=ps)
    fs = [z3.And(L.cnt >= 0, zb(le(L.cnt, n))),
          t(a, [k], [L.g(k)]),
          t(b, [k, j], [z3.MultiPattern(L.g(k), L.g(j))]),
          t(c, [i], [L.rank(i)])]
    for f in fs:
        v.ip.prover.add_fact(f, names)
    v.ip.prover.add_fact(fs[0], {L.cnt.decl().name()})


def run_witnesses(v, y, n):
    """a(i), b(i): first and last point of the rising run through i, i+1;
    they exist because a run is a non-empty finite set of indices"""
    a = z3.Function('run_lo', I, I)
    b = z3.Function('run_hi', I, I)
    i, j = z3.Ints('i!w j!w')
    R_ = lambda x: zb(rising(y, n, x))
    fs = [z3.ForAll([i], z3.Implies(R_(i), z3.And(
        0 <= a(i), a(i) <= i, R_(a(i)),
        z3.Or(a(i) == 0, z3.Not(R_(a(i) - 1))))), patterns=[a(i)]),
        z3.ForAll([i, j], z3.Implies(z3.And(R_(i), a(i) <= j, j <= i),
                                     R_(j)),
                  patterns=[z3.MultiPattern(a(i), y(j))]),
        z3.ForAll([i], z3.Implies(R_(i), z3.And(
            i < b(i), b(i) <= n - 1, R_(b(i) - 1),
            z3.Not(R_(b(i))))), patterns=[b(i)]),
        z3.ForAll([i, j], z3.Implies(z3.And(R_(i), i <= j, j < b(i)),
                                     R_(j)),
                  patterns=[z3.MultiPattern(b(i), y(j))])]
    for f in fs:
        v.ip.prover.add_fact(f, {'run_lo'} if f is fs[0] or f is fs[1]
                             else {'run_hi'})
    return a, b


def fresh_listing(ip, st, what):
    cnt = ip.fresh(what + '_n', I)
    g = ip.fresh_fun(what, I, I)
    rank = ip.fresh_fun(what + '_rank', I, I)
    return Listing(cnt, g, rank), {g.decl.name()}


def line_of(ip, st, y):
    a = ip.to_array(st, y)
    if a is None or a.ndim != 1:
        raise Unsupported('line is not a 1-d array')
    return a.shape[0], (lambda i: a.get((i,)))


def feet_count(L, n):
    """number of feet in a list of valleys"""
    last = b_and(gt(L.cnt, 0), eq(L.g(sub(L.cnt, 1)), sub(n, 1)))
    return sub(L.cnt, ite(last, 1, 0))


def pairing_fact(ip, R, V, n, y, run_hi, names):
    """conclusion of C12's pairing lemma for the two lists of one line"""
    o = ite(b_and(gt(R.cnt, 0), eq(R.g(0), 0)), 1, 0)
    nT = sub(R.cnt, o)
    k = z3.Int('k!P')
    ip.prover.add_fact(eq(nT, feet_count(V, n)), names)
    for at, ps in ((k, V.g(k)), (sub(k, o), R.g(k))):
        body = z3.Implies(zb(b_and(ge(at, 0), lt(at, nT))), zb(b_and(
            rising(y, n, V.g(zi(at))),
            eq(R.g(zi(add(at, o))), run_hi(V.g(zi(at)))))))
        ip.prover.add_fact(z3.ForAll([k], body, patterns=[ps]), names)


class _V(object):
    def __init__(self, ip):
        self.ip = ip


def peaks_contract(made=None):
    """contract of findpeaks(y)"""
    def c(ip, st, y):
        n, gy = line_of(ip, st, y)
        L, nm = fresh_listing(ip, st, 'ridge')
        assume_listing(_V(ip), L, n, lambda i: top(gy, n, i), 0, nm)
        if made is not None:
            made.append((L, n, gy, nm))
        return st.new(ArrRec((L.cnt,), 'i', lambda ix: L.g(zi(ix[0]))))
    return Contract(c)


def valleys_contract(made=None):
    """contract of findvalleys(y)"""
    def c(ip, st, y):
        n, gy = line_of(ip, st, y)
        L, nm = fresh_listing(ip, st, 'valley')
        assume_listing(_V(ip), L, n, lambda i: foot(gy, n, i), sub(n, 1), nm)
        if made is not None:
            made.append((L, n, gy, nm))
        return st.new(ArrRec((L.cnt,), 'i', lambda ix: L.g(zi(ix[0]))))
    return Contract(c)
