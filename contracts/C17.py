"""C17: results stay registered to the input grid."""
from engine.vc import *
from engine.values import *
from contracts.gis import *
from contracts.tilegrid import Grid, GRID, A
from contracts.C01 import window
from contracts.rounding import Rounding, FAR, close, product_law
from contracts.C02 import tile_number, items, wide

REG = Registry('C17')
F = 'utilities/nctools.py:'


@REG.task('clip_array', [F + 'clip_array'], timeout=20.0)
def clip(v):
    t = Tile(v)
    data, get = v.arr('data', (t.ny, t.nx), nan=True)
    f = v.fn('utilities.nctools', 'clip_array')
    st, r = v.call1(f, data, t.x, neg(t.y), t.pw, t.ph,
                    v.list(list(t.extent)))
    v.ensure_cells(st, 'the cells of the extent', r, (t.h, t.w),
                   lambda i, j: get(add(i, t.oy), add(j, t.ox)))


@REG.task('get_lat_lon', [F + 'get_lat_lon'], timeout=20.0)
def latlon(v):
    t = Tile(v)
    f = v.fn('utilities.nctools', 'get_lat_lon')
    st, r = v.call1(f, v.list(list(t.extent)), t.pw, t.ph)
    lon, lat = items(v, st, r, 2)
    half = Fraction(1, 2)
    q = v.int('q', 0)
    for what, s, n, spec in (
            ('longitude', lon, t.w, add(t.x, mul(add(add(t.ox, q), half),
                                                 t.pw))),
            ('latitude', lat, t.h, sub(t.y, mul(add(add(t.oy, q), half),
                                                t.ph)))):
        a = v.ip.to_array(st, s)
        v.ensure(st, 'one %s per cell' % what, eq(a.shape[0], n))
        s2 = st.copy()
        s2.assume(lt(q, n))
        v.ensure(s2, 'the %s is the centre of the cell' % what,
                 eq(a.get((q,)), spec))


def near(v, t):
    """an extent of whole cells whose edges were rounded, by less than an
    eighth of a cell"""
    d = []
    for n in ('west', 'north', 'east', 'south'):
        x = v.real('rounding_' + n)
        v.pre(b_and(le(Fraction(-1, 8), x), le(x, Fraction(1, 8))))
        d.append(x)
    return d, [add(e, mul(x, p)) for e, x, p in zip(
        t.extent, d, (t.pw, t.ph, t.pw, t.ph))]


def computed(v, t):
    """the function computes with rounding; the raster is within 10^8 cells
    of the origin"""
    st = v.st
    close(v, t.x, t.pw, t.nx)
    close(v, t.y, t.ph, t.ny)
    for n, p in ((t.ox, t.pw), (t.w, t.pw), (t.oy, t.ph), (t.h, t.ph)):
        product_law(v, st, n, p, Fraction(FAR))
    return Rounding(v, [t.pw, t.ph])


@REG.task('clip_array, rounded extents', [F + 'clip_array'], timeout=20.0)
def clip_rounded(v):
    t = Tile(v)
    d, e = near(v, t)
    computed(v, t)
    data, get = v.arr('data', (t.ny, t.nx), nan=True)
    f = v.fn('utilities.nctools', 'clip_array')
    st, r = v.call1(f, data, t.x, neg(t.y), t.pw, t.ph, v.list(e))
    v.ensure_cells(st, 'the cells of the extent', r, (t.h, t.w),
                   lambda i, j: get(add(i, t.oy), add(j, t.ox)))


@REG.task('get_lat_lon, rounded extents', [F + 'get_lat_lon'], timeout=20.0)
def latlon_rounded(v):
    """one value per cell; each within a seventh of a cell of the centre
    (each is looked at for itself: the rounding of one says nothing about
    that of another)"""
    t = Tile(v)
    d, e = near(v, t)
    computed(v, t)
    f = v.fn('utilities.nctools', 'get_lat_lon')
    st, r = v.call1(f, v.list(e), t.pw, t.ph)
    lon, lat = items(v, st, r, 2)
    q = v.int('q', 0)
    half = Fraction(1, 2)
    for what, s, n, spec, p in (
            ('longitude', lon, t.w, add(t.x, mul(add(add(t.ox, q), half),
                                                 t.pw)), t.pw),
            ('latitude', lat, t.h, sub(t.y, mul(add(add(t.oy, q), half),
                                                t.ph)), t.ph)):
        a = v.ip.to_array(st, s)
        v.ensure(st, 'one %s per cell' % what, eq(a.shape[0], n))
        s2 = st.copy()
        s2.assume(lt(q, n))
        w = mul(Fraction(1, 7), p)
        x = a.get((q,))
        v.ensure(s2, 'the %s is about the centre of the cell' % what,
                 b_and(le(sub(spec, w), x), le(x, add(spec, w))))


@REG.task('tiles on the grid', GRID + [
    A + 'TileGrid.get_tile_extent', A + 'TileGrid.get_tile_extent_buffer',
    A + 'Multipliers.clip_dataset'], timeout=20.0)
def tiles(v):
    """the working raster of a tile has the cells of the buffered window,
    and the extent of the tile is a block of these cells: the precondition
    of the two functions above"""
    g = Grid(v)
    W, ip = g.W, v.ip
    st, k, i, j = tile_number(v, g)
    s, e = g.method('get_tile_extent', k)
    e = items(v, s, e, 4)
    s, b = g.method('get_tile_extent_buffer', k)
    b = items(v, s, b, 4)
    x1, x2, y1, y2 = window(g, k)
    u1, u2, w1, w2 = wide(g, k)
    v.ensure(st, 'own window inside the buffered one', b_and(
        le(u1, x1), le(w1, y1), le(x2, u2), le(y2, w2)))
    for q, w, sgn, n in ((0, sub(x1, u1), 1, g.pw), (1, sub(y1, w1), -1,
                                                     g.ph),
                         (2, sub(x2, u1), 1, g.pw), (3, sub(y2, w1), -1,
                                                     g.ph)):
        v.ensure(st, 'edge %d of the tile is a cell edge' % q, eq(
            e[q], add(b[q % 2], mul(mul(sgn, w), n))))
    # the working raster
    v.st = st
    cls = v.fn('all_multipliers', 'Multipliers')
    st, m = v.call1(cls, 'landcover', 'dem')
    for n, x in (('dem_type', 'int32'), ('pixelwidth', g.pw),
                 ('pixelheight', g.ph), ('dem_proj', 'proj'),
                 ('dem_ds', W.dataset('dem', g.nx, g.ny, (
                     g.x, g.pw, g.y, g.ph)))):
        ip.setattr(st, m, n, x)
    v.st = st
    st, _ = v.call1(ip.getattr(st, m, 'clip_dataset'), v.list(b), 'out')
    ev = W.events(st, 'create')
    v.ensure(st, 'one raster', len(ev) == 1)
    v.ensure(st, 'columns of the window', eq(ev[0].args[2], sub(u2, u1)))
    v.ensure(st, 'rows of the window', eq(ev[0].args[3], sub(w2, w1)))
    ev = [x for x in W.events(st, 'geotransform')]
    v.ensure(st, 'one georeference', len(ev) == 1)
    t = ip.concrete_items(st, ev[0].args[1])
    for x, y in zip(t, (b[0], g.pw, 0, b[1], 0, neg(g.ph))):
        v.ensure(st, 'georeference of the window', eq(x, y))
