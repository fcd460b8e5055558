"""C15: make_path() steps from its start in the direction the wind blows
until the raster ends; the lines started by topomult() visit every cell of
the raster exactly once."""
from engine.vc import *
from engine.values import *
from contracts.paths import *
from contracts.lines import *

REG = Registry('C15')


@REG.task('make_path', [P + 'make_path'], params=DIRS)
def path(v, d):
    f = v.fn('topographic.make_path', 'make_path')
    nr, nc = v.int('nr', 1), v.int('nc', 1)
    i0, j0 = v.int('row', 0), v.int('col', 0)
    v.pre(b_and(lt(i0, nr), lt(j0, nc)))
    n = add(i0, mul(j0, nr))
    st, res = v.call1(f, nr, nc, n, d)
    a = v.ip.to_array(st, res)
    di, dj = STEP[d]
    cnt = steps(d, i0, j0, nr, nc)
    k = z3.Int('k')
    v.ensure(st, 'as many points as cells up to the edge',
             eq(a.shape[0], cnt))
    s = st.copy()
    s.assume(b_and(ge(k, 0), lt(k, cnt)))
    v.ensure(s, 'the k-th point is k cells further', eq(
        a.get((k,)), add(add(i0, mul(di, k)),
                         mul(add(j0, mul(dj, k)), nr))))
    v.ensure(s, 'inside the raster', b_and(
        ge(add(i0, mul(di, k)), 0), lt(add(i0, mul(di, k)), nr),
        ge(add(j0, mul(dj, k)), 0), lt(add(j0, mul(dj, k)), nc)))
    e = b_and(ge(add(i0, mul(di, cnt)), 0), lt(add(i0, mul(di, cnt)), nr),
              ge(add(j0, mul(dj, cnt)), 0), lt(add(j0, mul(dj, cnt)), nc))
    v.ensure(st, 'the next point is outside', b_not(e))


def pos(d, i, j, nr, nc):
    """number of steps from the upwind edge to (i, j)"""
    di, dj = STEP[d]
    out = []
    if di:
        out.append(i if di > 0 else sub(sub(nr, 1), i))
    if dj:
        out.append(j if dj > 0 else sub(sub(nc, 1), j))
    return out[0] if len(out) == 1 else smin(*out)


@REG.task('lines', params=DIRS)
def lines(v, d):
    """lemmas: the lines from the upwind edge visit every cell once (the
    facts contracts/lines.py states over cell indices)"""
    nr, nc = v.int('nr', 1), v.int('nc', 1)
    di, dj = STEP[d]
    i, j, k = v.int('i', 0), v.int('j', 0), v.int('k', 0)
    s = v.st.copy()
    s.assume(b_and(lt(i, nr), lt(j, nc)))
    t = pos(d, i, j, nr, nc)
    a, b = sub(i, mul(di, t)), sub(j, mul(dj, t))
    v.ensure(s, 'every cell is on a line from the upwind edge', b_and(
        edge(d, a, b, nr, nc), ge(t, 0), lt(t, steps(d, a, b, nr, nc))))
    c = add(i, mul(j, nr))
    q, r = v.ip.divmod_sym(s, c, nr)
    v.ensure(s, 'the index of a cell is in the raster', b_and(
        ge(c, 0), lt(c, mul(nr, nc))))
    v.ensure(s, 'different cells have different indices', b_and(
        eq(q, j), eq(r, i)))
    s = v.st.copy()
    s.assume(edge(d, i, j, nr, nc))
    n = steps(d, i, j, nr, nc)
    v.ensure(s, 'a line has a cell', ge(n, 1))
    s.assume(lt(k, n))
    a, b = add(i, mul(di, k)), add(j, mul(dj, k))
    v.ensure(s, 'a line stays in the raster', b_and(
        ge(a, 0), lt(a, nr), ge(b, 0), lt(b, nc)))
    t = pos(d, a, b, nr, nc)
    v.ensure(s, 'a cell is on one line, at one place', b_and(
        eq(t, k), eq(sub(a, mul(di, t)), i), eq(sub(b, mul(dj, t)), j)))


@REG.task('topomult', [F + 'topomult'], timeout=20.0)
def starts(v):
    """the lines start at every cell of the upwind edge and at no other
    cell, and every cell gets the value of its place on its line"""
    L = Topo(v, 'f', False, False, True, True)
    for st, res in v.outcomes(L.f, L.path, v.list(list(L.t.extent))):
        v.ensure(st, 'all directions have lines', len(set(
            d for d, _ in L.done)) == 8)
