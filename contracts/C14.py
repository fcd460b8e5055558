"""C14: multiplier_calc() takes, at each point, the largest hill-shape
multiplier of all hills of the floored line, at least 1."""
from engine.vc import *
from engine.values import *
from contracts.ridges import *

REG = Registry('C14')
# the contracts of called functions proved with it
USES = {'C12': None, 'C13': None}
M = 'topographic/multiplier_calc.py:'


@REG.task('multiplier_calc', [M + 'multiplier_calc'], timeout=20.0,
          params=['not below any hill', 'attained'])
def calc(v, part):
    f = v.fn('topographic.multiplier_calc', 'multiplier_calc')
    n = v.int('n', 1)
    y, gy = v.arr('line', (n,))
    ds = v.real('spacing')
    v.pre(gt(ds, 0))
    ip = v.ip
    fl = z3.Function('metre', I, R)
    i = z3.Int('i!f')
    v.pre(z3.ForAll([i], fl(i) == zr(npfloor(gy(i))), patterns=[fl(i)]))
    MH = z3.Function('MH', I, I, I, R)      # ridge, valley, point
    lo, hi = run_witnesses(v, fl, n)
    mp, mv = [], []

    def use(make, want, other):
        def c(ip, st, line):
            m, g = line_of(ip, st, line)
            q = z3.Int('q!l')
            s = st.copy()
            s.assume(b_and(ge(q, 0), lt(q, n)))
            s.assume(fl(q) == zr(npfloor(gy(q))))
            ip.obl(st, 'ridges and valleys of the whole line', eq(m, n))
            ip.obl(s, 'of the line floored to the metre', eq(g(q), fl(q)))
            line = st.new(ArrRec((n,), 'f', lambda ix: fl(zi(ix[0]))))
            res = make(want).fn(ip, st, line)
            if mp and mv:
                pairing_fact(ip, mp[-1][0], mv[-1][0], n, fl, hi,
                             mp[-1][3])
            return res
        return Contract(c)
    ip.contracts[F + 'findpeaks'] = use(peaks_contract, mp, mv)
    ip.contracts[F + 'findvalleys'] = use(valleys_contract, mv, mp)

    def mh(ip, st, prof, r, va, spacing):
        m, g = line_of(ip, st, prof)
        q = z3.Int('q!mh')
        s = st.copy()
        ip.obl(st, 'mh_calc gets the whole line', eq(m, n))
        s.assume(b_and(ge(q, 0), lt(q, n)))
        ip.obl(s, 'mh_calc gets the line floored to the metre',
               eq(g(q), npfloor(gy(q))))
        ip.obl(st, 'mh_calc gets the spacing', eq(spacing, ds))
        ip.obl(st, 'mh_calc gets the top and the foot of one run', b_and(
            rising(fl, n, va), eq(r, hi(zi(va)))))
        return st.new(ArrRec((n, 1), 'f', lambda ix: MH(
            zi(r), zi(va), zi(ix[0]))))
    ip.contracts['topographic/mh.py:mh_calc'] = Contract(mh)
    st, res = v.call1(f, y, ds)
    if len(mp) != 1 or len(mv) != 1:
        raise Unsupported('ridges and valleys are not taken once')
    Rg, Va = mp[0][0], mv[0][0]
    a = ip.to_array(st, res)
    if a is None:
        v.ensure(st, 'the result is an array', False)
        return
    if a.ndim not in (1, 2):
        raise Unsupported('result shape')
    v.ensure(st, 'one multiplier per point', b_and(
        eq(a.shape[0], n), a.ndim == 1 or eq(a.shape[1], 1)))
    p, k = z3.Ints('point k')
    cell = a.get((p,) if a.ndim == 1 else (p, 0))
    st.assume(b_and(ge(p, 0), lt(p, n)))
    v.ensure(st, 'at least 1', ge(cell, 1))
    for o in (0, 1):
        s = st.copy()
        has0 = b_and(gt(Rg.cnt, 0), eq(Rg.g(0), 0))
        s.assume(b_iff(has0, o == 1))
        nT = sub(Rg.cnt, o)
        M_ = lambda w: MH(Rg.g(zi(add(w, o))), Va.g(zi(w)), p)
        if part == 'attained':
            cand = [add(W(p, z3.IntVal(0), zi(add(Rg.cnt, d))), e)
                    for (_, W, _, ixs, _, _) in getattr(ip, 'folds', [])
                    for d in (0, -1, 1) for e in (-1, 0, 1)
                    if len(ixs) == 2]
            v.ensure(s, '1 or the multiplier of one hill', b_or(
                eq(cell, 1), *[b_and(ge(w, 0), lt(w, nT), eq(cell, M_(w)))
                               for w in cand]))
        else:
            s.assume(b_and(ge(k, 0), lt(k, nT)))
            v.ensure(s, 'not below the multiplier of any hill',
                     ge(cell, M_(k)))
