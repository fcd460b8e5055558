"""C02: working windows, extents and the work list."""
from engine.vc import *
from engine.values import *
from contracts.tilegrid import *
from contracts.rounding import Rounding, FAR, close, product_law
from contracts.C01 import window, facts, column_row, grow

REG = Registry('C02')
T = A + 'TileGrid.'


def items(v, st, r, n):
    r = v.ip.concrete_items(st, r)
    if r is None or len(r) != n:
        raise Unsupported('result with %d parts' % n)
    return r


def wide(g, k):
    st, r = g.method('get_gridlimit_buffer', k)
    return items(g.v, st, r, 4)


def tile_number(v, g):
    st = v.st = g.st
    facts(g, st)
    k = v.int('k')
    st.assume(b_and(ge(k, 0), lt(k, g.num())))
    i, j = column_row(g, st, k)
    return st, k, i, j


@REG.task('buffered windows', GRID, timeout=20.0)
def buffered(v):
    g = Grid(v)
    st, k, i, j = tile_number(v, g)
    x1, x2, y1, y2 = window(g, k)
    u1, u2, w1, w2 = wide(g, k)
    v.lemma(st, 'whole cells of the upwind length', b_and(ge(g.bx, 0),
                                                          ge(g.by, 0)))
    for a, z, s, n, d in ((x1, i, g.xs, g.N, g.nx), (y1, j, g.ys, g.M,
                                                     g.ny)):
        v.lemma(st, 'start of the own window', eq(a, mul(z, s)))
    grow(v, st, 'columns up to the last one', i, sub(g.N, 1), g.xs)
    grow(v, st, 'rows up to the last one', j, sub(g.M, 1), g.ys)
    v.ensure(st, 'west side', eq(u1, smax(0, sub(x1, g.bx))))
    v.ensure(st, 'north side', eq(w1, smax(0, sub(y1, g.by))))
    v.ensure(st, 'east side', eq(u2, smin(g.nx, add(x2, g.bx))))
    v.ensure(st, 'south side', eq(w2, smin(g.ny, add(y2, g.by))))


def edges(v, st, g, e, win, what):
    x1, x2, y1, y2 = win
    for got, want, side in zip(e, (
            add(g.x, mul(x1, g.pw)), sub(g.y, mul(y1, g.ph)),
            add(g.x, mul(x2, g.pw)), sub(g.y, mul(y2, g.ph))),
            ('west', 'north', 'east', 'south')):
        v.ensure(st, '%s: %s edge' % (what, side), eq(got, want))


@REG.task('extents', GRID + [T + 'get_tile_extent',
                             T + 'get_tile_extent_buffer'], timeout=20.0)
def extents(v):
    g = Grid(v)
    st, k, i, j = tile_number(v, g)
    s, e = g.method('get_tile_extent', k)
    edges(v, st, g, items(v, s, e, 4), window(g, k), 'extent')
    s, e = g.method('get_tile_extent_buffer', k)
    edges(v, st, g, items(v, s, e, 4), wide(g, k), 'buffered extent')


@REG.task('extents, computed in floating point', [
    T + 'get_tile_extent', T + 'get_tile_extent_buffer'], timeout=20.0,
    params=['', '_buffer'])
def rounded(v, which):
    """for windows inside the raster (proved above) and a raster within 10^8
    cells of the origin, the computed corners are within a hundredth of a
    cell of the edges of the window, whatever the cell size"""
    g = Grid(v)
    st = v.st = g.st
    far = Fraction(FAR)
    for n, o, p in ((g.nx, g.x, g.pw), (g.ny, g.y, g.ph)):
        close(v, o, p, n)
    win = [v.ip.fresh('limit', I) for q in range(4)]
    for q, w in enumerate(win):
        n, p = ((g.nx, g.pw), (g.ny, g.ph))[q // 2]
        st.assume(b_and(le(0, w), le(w, n)))
        product_law(v, st, w, p, far)
    v.ip.contracts[T + 'get_gridlimit' + which] = Contract(
        lambda ip, st, self, k: tuple(win))
    r = Rounding(v, [g.pw, g.ph])
    v.st = st
    s, e = g.method('get_tile_extent' + which, v.int('k', 0))
    e = items(v, s, e, 4)
    if not r.n:
        raise Unsupported('no rounded operation')
    for got, want, p, side in zip(e, (
            add(g.x, mul(win[0], g.pw)), sub(g.y, mul(win[2], g.ph)),
            add(g.x, mul(win[1], g.pw)), sub(g.y, mul(win[3], g.ph))),
            (g.pw, g.ph, g.pw, g.ph), ('west', 'north', 'east', 'south')):
        d = mul(Fraction(1, 100), p)
        v.ensure(s, 'the %s edge within a hundredth of a cell' % side,
                 b_and(le(sub(want, d), got), le(got, add(want, d))))


@REG.task('work list', GRID + [A + 'get_tiles', A + 'get_tileinfo'],
          timeout=20.0)
def work(v):
    """entry k of the work list is made by the three methods under contract
    for tile k, and there is one entry per tile"""
    g = Grid(v)
    ip = v.ip
    fs = {n: [z3.Function('%s_%d' % (n, q), I, R) for q in range(4)]
          for n in ('own', 'wide')}

    def four(n):
        return Contract(lambda ip, st, self, k: tuple(
            f(zi(k)) for f in fs[n]))
    ip.contracts[T + 'get_tile_extent'] = four('own')
    ip.contracts[T + 'get_tile_extent_buffer'] = four('wide')
    ip.contracts[T + 'get_tilename'] = Contract(
        lambda ip, st, self, k: SymStr([Atom('name', '', (zi(k),))]))
    st = v.st = g.st
    n = g.num()
    st, r = v.call1(v.fn('all_multipliers', 'get_tiles'), g.tg)
    v.ensure(st, 'one entry per tile', eq(
        st.heap[r.id].length(), n))
    k = v.int('k')
    st.assume(b_and(ge(k, 0), lt(k, n)))
    e = items(v, st, ip.getitem(st, r, k), 3)
    v.ensure(st, 'the name of the tile', str_eq(e[0], SymStr([Atom(
        'name', '', (zi(k),))])))
    for x, f in ((e[1], fs['wide']), (e[2], fs['own'])):
        x = items(v, st, x, 4)
        for q in range(4):
            v.ensure(st, 'extents of the tile', eq(x[q], f[q](zi(k))))
