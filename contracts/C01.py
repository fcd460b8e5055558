"""C01: the tiles without buffer partition the raster."""
from engine.vc import *
from contracts.tilegrid import *

REG = Registry('C01')


def window(g, k):
    ip = g.v.ip
    st, r = g.method('get_gridlimit', k)
    r = ip.concrete_items(st, r)
    if r is None or len(r) != 4:
        raise Unsupported('limits of a tile')
    return r


def facts(g, st):
    """step sizes and numbers of tiles, as multiplications"""
    v = g.v
    v.lemma(st, 'at least one cell per tile', b_and(ge(g.xs, 1),
                                                    ge(g.ys, 1)))
    for n, s, d in ((g.N, g.xs, g.nx), (g.M, g.ys, g.ny)):
        v.lemma(st, 'the last tile starts inside the raster',
                lt(mul(sub(n, 1), s), d))
        v.lemma(st, 'the last tile reaches the raster edge',
                ge(mul(n, s), d))
        v.lemma(st, 'at least one tile', ge(n, 1))


def column_row(g, st, k):
    """k = i * M + j"""
    v = g.v
    i, j = v.ip.divmod_sym(st, k, g.M)
    v.lemma(st, 'row of tiles', b_and(ge(j, 0), lt(j, g.M)))
    v.lemma(st, 'column of tiles is not negative', ge(i, 0))
    v.lemma(st, 'column of tiles', lt(i, g.N))
    return i, j


def grow(v, st, name, a, b, s):
    """a < b -> (a + 1) * s <= b * s"""
    v.lemma(st, name, b_implies(lt(a, b), le(mul(add(a, 1), s),
                                             mul(b, s))))


@REG.task('windows', GRID, timeout=20.0)
def windows(v):
    g = Grid(v)
    st = v.st = g.st
    facts(g, st)
    n = g.num()
    v.ensure(st, 'number of tiles', eq(n, mul(g.N, g.M)))
    k = v.int('k')
    st.assume(b_and(ge(k, 0), lt(k, n)))
    i, j = column_row(g, st, k)
    grow(v, st, 'columns up to the last one', i, sub(g.N, 1), g.xs)
    grow(v, st, 'rows up to the last one', j, sub(g.M, 1), g.ys)
    x1, x2, y1, y2 = window(g, k)
    v.ensure(st, 'window starts inside the raster', b_and(ge(x1, 0),
                                                          ge(y1, 0)))
    v.ensure(st, 'window is not empty', b_and(lt(x1, x2), lt(y1, y2)))
    v.ensure(st, 'window ends inside the raster', b_and(le(x2, g.nx),
                                                        le(y2, g.ny)))


@REG.task('coverage', GRID, timeout=20.0)
def coverage(v):
    """every cell is in the tile of its column and row of tiles"""
    g = Grid(v)
    st = v.st = g.st
    facts(g, st)
    r, c = v.int('row', 0), v.int('col', 0)
    st.assume(b_and(lt(r, g.ny), lt(c, g.nx)))
    i, ri = v.ip.divmod_sym(st, c, g.xs)
    j, rj = v.ip.divmod_sym(st, r, g.ys)
    k = add(mul(i, g.M), j)
    for a, b, n, s in ((i, ri, g.N, g.xs), (j, rj, g.M, g.ys)):
        v.lemma(st, 'cell inside its step', b_and(ge(b, 0), lt(b, s)))
        v.lemma(st, 'tile index is not negative', ge(a, 0))
        grow(v, st, 'tiles before the cell', sub(n, 1), a, s)
        v.lemma(st, 'tile index is small enough', lt(a, n))
    v.lemma(st, 'whole columns of tiles', le(mul(add(i, 1), g.M),
                                             mul(g.N, g.M)))
    v.lemma(st, 'tile number is not negative', ge(mul(i, g.M), 0))
    v.ensure(st, 'the tile exists', b_and(ge(k, 0), lt(k, g.num())))
    i2, j2 = column_row(g, st, k)
    v.lemma(st, 'quotient', eq(i2, i))
    v.lemma(st, 'remainder', eq(j2, j))
    x1, x2, y1, y2 = window(g, k)
    for a, b, m, z, w in ((x1, x2, c, i, g.xs), (y1, y2, r, j, g.ys)):
        v.lemma(st, 'cell of the step', b_and(
            le(mul(z, w), m), lt(m, mul(add(z, 1), w))))
        s = v.only(st, le(mul(z, w), m), lt(m, mul(add(z, 1), w)),
                   lt(r, g.ny), lt(c, g.nx))
        v.ensure(s, 'the window starts before the cell', le(a, m))
        v.ensure(s, 'the window ends after the cell', lt(m, b))


@REG.task('no overlap', GRID, timeout=20.0)
def overlap(v):
    g = Grid(v)
    st = v.st = g.st
    facts(g, st)
    k, l = v.int('k'), v.int('l')
    n = g.num()
    st.assume(b_and(ge(k, 0), lt(k, n), ge(l, 0), lt(l, n), ne(k, l)))
    i, j = column_row(g, st, k)
    p, q = column_row(g, st, l)
    v.lemma(st, 'different columns or rows', b_or(ne(i, p), ne(j, q)))
    for a, b, s in ((i, p, g.xs), (p, i, g.xs), (j, q, g.ys),
                    (q, j, g.ys)):
        grow(v, st, 'order of tiles', a, b, s)
    x1, x2, y1, y2 = window(g, k)
    u1, u2, w1, w2 = window(g, l)
    v.ensure(st, 'windows are disjoint', b_or(
        le(x2, u1), le(u2, x1), le(y2, w1), le(w2, y1)))
