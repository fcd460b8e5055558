"""C12: findpeaks()/findvalleys() enumerate the tops and feet of the maximal
strictly rising runs, and the i-th top belongs to the i-th foot."""
from engine.vc import *
from engine.values import SetInfo, ArrRec
from contracts.ridges import *

REG = Registry('C12')


def num(e):
    """an index value, as an integer"""
    e = norm(e)
    if isinstance(e, Fraction):
        return int(e)
    return e if isinstance(e, int) or e.sort() == I else z3.ToInt(e)


def enumerates(v, st, res, n, member, free, what, rank=None):
    """res lists in increasing order exactly the i with member(i), apart
    from the index `free`, which may or may not be listed"""
    a = v.ip.to_array(st, res)
    if a is None or a.ndim != 1:
        v.ensure(st, what + ': is a list of indices', False)
        return
    c = norm(a.shape[0])
    g = lambda k: num(a.get((k,)))
    k, j, i = z3.Ints('k j i')
    if not (isinstance(c, int) and c == 0):
        s = st.copy()
        s.assume(b_and(ge(k, 0), lt(k, c)))
        v.ensure(s, what + ': only members', b_and(
            ge(g(k), 0), lt(g(k), n), b_or(member(g(k)), eq(g(k), free))))
    if not (isinstance(c, int) and c < 2):
        s = st.copy()
        s.assume(b_and(ge(k, 0), lt(k, j), lt(j, c)))
        v.ensure(s, what + ': in increasing order', lt(g(k), g(j)))
    s = st.copy()
    s.assume(b_and(member(i), ne(i, free)))
    if isinstance(c, int):
        goal = b_or(*[eq(g(q), i) for q in range(c)])
    elif rank is not None or isinstance(a.info, SetInfo):
        r = norm((rank or a.info.rank)(i))
        goal = b_and(ge(r, 0), lt(r, c), eq(g(r), i))
    else:
        raise Unsupported('no enumeration of the result')
    v.ensure(s, what + ': every member', goal)


@REG.task('findpeaks', [F + 'findpeaks'],
          params=['empty', 'point', 'flat', 'up', 'down'])
def peaks(v, case):
    """n = 0; n = 1; a flat line; a line whose first change is up / down"""
    f = v.fn('topographic.findpeaks', 'findpeaks')
    n = v.int('n', 0)
    y, gy = v.arr('y', (n,))
    i, L, w = z3.Int('i'), z3.Int('last'), z3.Int('first')
    d = lambda q: sub(gy(add(q, 1)), gy(q))
    if case in ('empty', 'point'):
        v.pre(eq(n, 0 if case == 'empty' else 1))
    elif case == 'flat':
        v.pre(ge(n, 2))
        v.pre(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n - 1),
                                        gy(i + 1) == gy(i)),
                        patterns=[gy(i)]))
    else:
        # first: first index with a change; last: last rising index, if any
        v.pre(ge(n, 2))
        v.pre(b_and(ge(w, 0), lt(w, sub(n, 1)), ne(d(w), 0)))
        v.pre(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w),
                                        gy(i + 1) == gy(i)),
                        patterns=[gy(i)]))
        v.pre(gt(d(w), 0) if case == 'up' else lt(d(w), 0))
        if case == 'up':
            v.pre(b_and(ge(L, w), lt(L, sub(n, 1)), gt(d(L), 0)))
            v.pre(z3.ForAll([i], z3.Implies(z3.And(L < i, i < n - 1),
                                            gy(i + 1) <= gy(i)),
                            patterns=[gy(i)]))
            v.ip.set_hints = [0, w, L, add(L, 1)]
        else:
            v.ip.set_hints = [0, w]
    for st, res in v.outcomes(f, y):
        enumerates(v, st, res, n, lambda q: top(gy, n, q), 0, 'ridges')
        if case == 'flat':
            v.ensure(st, 'a flat line has no ridge',
                     eq(v.ip.to_array(st, res).shape[0], 0))
        v.ensure_cells(st, 'the line is unchanged', y, (n,), gy)


@REG.task('findvalleys', [F + 'findvalleys'])
def valleys(v):
    f = v.fn('topographic.findpeaks', 'findvalleys')
    n = v.int('n', 1)
    y, gy = v.arr('y', (n,))
    made = []
    v.ip.contracts[F + 'findpeaks'] = peaks_contract(made)
    for st, res in v.outcomes(f, y):
        a = v.ip.to_array(st, res)
        if len(made) != 1 or a is None or a.ndim != 1:
            raise Unsupported('one use of findpeaks')
        L = made[0][0]
        c = a.shape[0]
        enumerates(v, st, res, n, lambda q: foot(gy, n, q), sub(n, 1),
                   'valleys', lambda i: sub(sub(c, 1), L.rank(zi(sub(sub(
                       n, 1), i)))))
        v.ensure_cells(st, 'the line is unchanged', y, (n,), gy)


@REG.task('pairing', params=['first', 'next', 'no more tops',
                              'no more feet'])
def pairing(v, part):
    """the k-th top is the top of the run starting at the k-th foot, by
    induction over k; there are as many tops as feet"""
    n = v.int('n', 1)
    y, gy = v.arr('y', (n,))
    st = v.st
    a, b = run_witnesses(v, gy, n)
    T, nT = fresh_listing(v.ip, st, 'tops')
    Fe, nF = fresh_listing(v.ip, st, 'feet')
    assume_listing(v, T, n, lambda i: top(gy, n, i), -1, nT)
    assume_listing(v, Fe, n, lambda i: foot(gy, n, i), -1, nF)
    k, j = z3.Ints('k j')

    def paired(k):
        """foot k .. top k rises strictly and the run ends there"""
        return z3.And(zb(rising(gy, n, Fe.g(k))), T.g(k) == b(Fe.g(k)))

    def hints(*ts):
        for t in ts:
            for q in (T.rank(t), Fe.rank(t), gy(t), a(t), b(t)):
                z = z3.Const('h!%d' % Ref().id, q.sort())
                st.assume(z == q)
    def steps(lem):
        for name, c in lem:
            v.ensure(st, name, c)
            st.assume(c)

    def listed(L, q):
        r = L.rank(q)
        return z3.And(r >= 0, r < L.cnt, L.g(r) == q)
    if part in ('no more tops', 'no more feet'):
        m = z3.Int('m')
        x, o = (T, Fe) if part == 'no more tops' else (Fe, T)
        st.assume(z3.And(x.cnt > o.cnt, m == o.cnt))
        st.assume(z3.Implies(m > 0, paired(m - 1)))
        t, f, t0, f0 = T.g(m), Fe.g(m), T.g(m - 1), Fe.g(m - 1)
        if x is T:
            q = a(t - 1)
            hints(t, t - 1, q, q - 1, f0, f0 - 1, t0)
            steps([('the run of the top starts at a foot',
                    foot(gy, n, q)), ('that foot is listed', listed(Fe, q)),
                   ('not beyond the last foot', z3.And(m > 0, q <= f0)),
                   ('the last foot is below its top', z3.And(
                       f0 < t0, t0 < t)),
                   ('it is that foot', f0 == q)])
        else:
            q = b(f)
            hints(f, f - 1, q, q - 1, f0, f0 - 1, t0)
            steps([('the run of the foot ends at a top', top(gy, n, q)),
                   ('that top is listed', listed(T, q)),
                   ('not beyond the last top', z3.And(m > 0, q <= t0)),
                   ('the foot is beyond the last but one', f0 < f),
                   ('and not inside its run', f > t0)])
        v.ensure(st, 'as many tops as feet', False)
        return
    if part == 'first':
        st.assume(z3.And(k == 0, T.cnt > 0, Fe.cnt > 0))
    else:
        st.assume(z3.And(k >= 1, k < T.cnt, k < Fe.cnt, paired(k - 1)))
        hints(T.g(k - 1), Fe.g(k - 1), T.g(k - 1) - 1)
    t, f = T.g(k), Fe.g(k)
    hints(t, f, t - 1, a(t - 1), b(f), f - 1, b(f) - 1)
    if part == 'next':
        t0, f0 = T.g(k - 1), Fe.g(k - 1)
        q = a(t - 1)
        r = Fe.rank(q)
        lem = [('the next foot is not inside the previous run', f >= t0),
               ('the run of foot k ends at a later top', b(f) > t0),
               ('which is a top', top(gy, n, b(f))),
               ('that is listed', listed(T, b(f))),
               ('after top k - 1', T.rank(b(f)) > k - 1),
               ('top k is not beyond that', t <= b(f)),
               ('the run of top k starts at a later foot', z3.And(
                   zb(foot(gy, n, a(t - 1))), a(t - 1) > f0)),
               ('that foot is listed', z3.And(r >= 0, r < Fe.cnt,
                                              Fe.g(r) == q)),
               ('after foot k - 1', r > k - 1),
               ('foot k is not beyond that', f <= q)]
    else:
        lem = [('the run of foot 0 ends at a top', z3.And(
            zb(top(gy, n, b(f))), t <= b(f))),
            ('the run of top 0 starts at a foot', z3.And(
                zb(foot(gy, n, a(t - 1))), f <= a(t - 1)))]
    for name, c in lem + [('foot before top', f < t),
                          ('top before the end of the run or at it',
                           z3.Not(z3.And(t < b(f), f <= t)))]:
        v.ensure(st, name, c)
        st.assume(c)
    v.ensure(st, 'top and foot number k belong to one run', paired(k))


@REG.task('hills', params=['R 0', 'R 1', 'V'])
def drop(v, part):
    """from the contracts of findpeaks/findvalleys: the ridges without a
    leading 0 are the tops, the valleys without a final n-1 the feet"""
    n = v.int('n', 1)
    y, gy = v.arr('y', (n,))
    st = v.st
    L, nm = fresh_listing(v.ip, st, 'list')
    k, j, i = z3.Ints('k j i')
    if part == 'V':
        mem = lambda q: foot(gy, n, q)
        assume_listing(v, L, n, mem, sub(n, 1), nm)
        o, cnt = 0, feet_count(L, n)
    else:
        mem = lambda q: top(gy, n, q)
        assume_listing(v, L, n, mem, 0, nm)
        o = int(part[-1])
        st.assume(b_or(eq(L.cnt, 0), b_iff(eq(L.g(0), 0), o == 1)))
        if o:
            st.assume(gt(L.cnt, 0))
        cnt = sub(L.cnt, o)
    T = Listing(cnt, lambda k: L.g(zi(add(k, o))),
                lambda i: sub(L.rank(i), o))
    v.ensure(st, 'the count is not negative', ge(cnt, 0))
    # the neighbours of any place, and the ends
    for q in (L.g(k), L.g(k + 1), L.g(0), L.g(L.cnt - 1), L.rank(i)):
        st.assume(z3.Const('h!%d' % Ref().id, I) == q)
    for name, c in zip(('only members', 'in order', 'every member'),
                       listing_facts(T, n, mem, -1, k, j, i)):
        v.ensure(st, name, c)
