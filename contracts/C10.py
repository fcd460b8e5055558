"""C10: reclassify_aspect() sorts angles into compass sectors;
get_slope_aspect() takes the Sobel gradient over the metric cell sizes."""
from engine.vc import *
from engine.values import *
from contracts.gis import *

REG = Registry('C10')
# the contracts of called functions proved with it
USES = {'C22': ['get_pixel_size_grids', 'get_pixel_size']}
F = 'shielding/shield_mult.py:'
BEARING = {'n': 0, 'ne': 45, 'e': 90, 'se': 135, 's': 180, 'sw': 225,
           'w': 270, 'nw': 315}


def sector(a):
    """class 1 (north, around 0 and 360) to 8, 9 for an undefined angle"""
    x = a.v if isinstance(a, FN) else a
    r = 9
    for k in range(8, 1, -1):
        lo = Fraction(45 * (k - 1)) - Fraction(45, 2)
        r = ite(b_and(le(lo, x), lt(x, lo + 45)), k, r)
    r = ite(b_or(b_and(le(0, x), lt(x, Fraction(45, 2))), b_and(
        le(Fraction(675, 2), x), le(x, 360))), 1, r)
    return ite(isnan(a), 9, r)


@REG.task('reclassify_aspect', [F + 'reclassify_aspect'])
def reclass(v):
    f = v.fn('shielding.shield_mult', 'reclassify_aspect')
    rows, cols = v.int('rows', 0), v.int('cols', 0)
    data, g = v.arr('angle', (rows, cols), 'f', nan=True)
    st, res = v.call1(f, data)
    v.ensure_cells(st, 'class of the sector', res, (rows, cols),
                   lambda i, j: sector(g(i, j)))
    v.ensure_cells(st, 'angles unchanged', data, (rows, cols), g)


@REG.task('sectors')
def sectors(v):
    """the sectors cover all angles, and are centred on the bearings"""
    a = v.real('angle', 0, 360)
    for c in range(1, 9):
        b = 45 * (c - 1)
        d = ite(gt(absval(sub(a, b)), 180),
                sub(360, absval(sub(a, b))), absval(sub(a, b)))
        s = v.st.copy()
        s.assume(lt(d, Fraction(45, 2)))
        v.ensure(s, 'angles near %d have class %d' % (b, c),
                 eq(sector(a), c))
    v.ensure(v.st, 'a defined angle has a sector', ne(sector(a), 9))


@REG.task('DIRE_ASPECT', ['utilities/value_lookup.py:DIRE_ASPECT'],
          params=sorted(BEARING))
def classes(v, d):
    m = v.module('utilities.value_lookup')
    tab = v.ip.getattr(v.st, m, 'DIRE_ASPECT')
    got = v.ip.getitem(v.st, tab, d)
    v.ensure(v.st, 'class of the bearing',
             eq(got, sector(Fraction(BEARING[d]))))


def sobel(g, ny, nx, i, j, axis):
    """3x3 gradient; cells beyond the edge repeat the edge cell"""
    def c(a, b):
        y, x = add(i, a), add(j, b)
        y = ite(lt(y, 0), 0, ite(ge(y, ny), sub(ny, 1), y))
        x = ite(lt(x, 0), 0, ite(ge(x, nx), sub(nx, 1), x))
        return g(y, x)
    t = Fraction(0)
    for w, k in ((1, -1), (2, 0), (1, 1)):
        hi = c(k, 1) if axis == 1 else c(1, k)
        lo = c(k, -1) if axis == 1 else c(-1, k)
        t = add(t, mul(Fraction(w), sub(hi, lo)))
    return t


@REG.task('get_slope_aspect', [F + 'get_slope_aspect'], timeout=20.0,
          params=['no-data value', 'no no-data value'])
def slope_aspect(v, mode):
    W = World(v)
    W.install()
    t = Tile(v)
    z = z3.Function('elevation', I, I, R)
    nd = v.real('nodata') if mode == 'no-data value' else None
    fx, fy = pixel_contract(W, t)
    path = 'dem_tile'
    W.dataset('dem', t.nx, t.ny, t.gt, lambda i, j: z(zi(i), zi(j)),
              nodata=nd, path=path)
    f = v.fn('shielding.shield_mult', 'get_slope_aspect')
    seen = {}

    def rc(ip, st, data):
        a = ip.to_array(st, data)
        seen['angle'] = a
        i, j = z3.Ints('i!rc j!rc')
        ip.obl(st, 'the whole aspect grid is classified', b_and(
            eq(a.shape[0], t.ny), eq(a.shape[1], t.nx)))
        return st.new(ArrRec(a.shape, 'i', lambda ix: sector(a.get(ix))))
    v.ip.contracts[F + 'reclassify_aspect'] = Contract(rc)
    st, res = v.call1(f, path)
    slope, asp = v.ip.concrete_items(st, res)

    def elev(i, j):
        e = z(zi(i), zi(j))
        return mkfn(e, eq(e, nd)) if nd is not None else e

    def grad(i, j):
        gx = truediv(sobel(elev, t.ny, t.nx, i, j, 1), mul(8, fx(i, j)))
        gy = truediv(sobel(elev, t.ny, t.nx, i, j, 0), mul(8, fy(i, j)))
        return gx, gy
    from engine.lib import fsqrt, fn1
    rad = v.ip.getattr(st, v.module('utilities.get_pixel_size_grid'),
                       'RADIANS_PER_DEGREE')
    one = Fraction('0.0174532925199432957692369076848861')
    v.ensure(st, 'radians per degree', b_and(
        lt(absval(sub(rad, one)), Fraction(1, 10 ** 16))))

    def want_slope(i, j):
        gx, gy = grad(i, j)
        h = fsqrt(add(mul(gx, gx), mul(gy, gy)))
        a = truediv(fn1('atan')(h), rad)
        n = isnan(elev(i, j))
        return mkfn(a.v, b_or(n, a.nan)) if isinstance(a, FN) else \
            mkfn(a, n)
    v.ensure_cells(st, 'slope', slope, (t.ny, t.nx), want_slope)

    def bearing(i, j):
        """compass direction the ground falls to: 90 degrees less the
        counter-clockwise angle of the vector (-gx east, gy north)"""
        gx, gy = grad(i, j)
        w = rfun('atan2', gy, neg(gx))
        return smodr(sub(450, truediv(w, rad)), 360)
    v.ensure_cells(st, 'aspect class', asp, (t.ny, t.nx),
                   lambda i, j: sector(bearing(i, j)),
                   where=lambda i, j: b_not(isnan(elev(i, j))))


def smodr(a, k):
    """a modulo k as the interpreter does for floats"""
    n = isnan(a)
    x = a.v if isinstance(a, FN) else a
    return mkfn(sub(x, mul(k, z3.ToInt(zr(truediv(x, k))))), n)
