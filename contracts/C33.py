"""C33: terrain and shielding averages do not depend on how the raster is cut
into tiles: computed on the buffered window of a tile and on the whole raster,
they are the same for the cells of the tile."""
from engine.vc import *
from engine.values import *
from contracts.lemmas import *
from contracts.gis import *
from contracts.C06 import DIRS

REG = Registry('C33')
# the windows of the tiles
USES = {'C02': ['buffered windows']}
# which averages the files hold
SUPPORT = {'C01': ['windows'], 'C06': ['terrain'], 'C08': ['window'],
           'C10': ['reclassify_aspect'], 'C11': ['convo_combine']}
S = 'shielding/shield_mult.py:'
T = 'terrain/terrain_mult.py:'
PARTS = [T + 'convo', 'utilities/value_lookup.py:ALL_NEIGHB',
         'utilities/value_lookup.py:POINT_R',
         'utilities/value_lookup.py:POINT_C']


class Cut(object):
    """a raster of nx columns and ny rows, the own window of a tile and the
    buffered one (C01, C02: what TileGrid gives)"""

    def __init__(self, v):
        self.v = v
        self.nx, self.ny = v.int('nx', 1), v.int('ny', 1)
        self.x1, self.x2 = v.int('x1', 0), v.int('x2', 1)
        self.y1, self.y2 = v.int('y1', 0), v.int('y2', 1)
        v.pre(b_and(lt(self.x1, self.x2), le(self.x2, self.nx)))
        v.pre(b_and(lt(self.y1, self.y2), le(self.y2, self.ny)))
        self.bx, self.by = v.int('x_buffer', 0), v.int('y_buffer', 0)
        # as names, so that the terms stay small
        self.u1, self.u2 = v.int('u1'), v.int('u2')
        self.w1, self.w2 = v.int('w1'), v.int('w2')
        v.pre(b_and(eq(self.u1, smax(0, sub(self.x1, self.bx))),
                    eq(self.u2, smin(self.nx, add(self.x2, self.bx))),
                    eq(self.w1, smax(0, sub(self.y1, self.by))),
                    eq(self.w2, smin(self.ny, add(self.y2, self.by)))))
        self.shape = sub(self.w2, self.w1), sub(self.u2, self.u1)

    def part(self, get, kind='f'):
        """the cells of the buffered window"""
        return self.v.st.new(ArrRec(self.shape, kind, lambda ix: get(
            add(self.w1, ix[0]), add(self.u1, ix[1]))))

    def own(self, st):
        """a cell of the tile (row, column of the raster)"""
        i, j = self.v.int('row'), self.v.int('col')
        s = st.copy()
        s.assume(b_and(le(self.y1, i), lt(i, self.y2), le(self.x1, j),
                       lt(j, self.x2)))
        return s, i, j

    def same(self, st, name, whole, part, shape=None):
        v = self.v
        s, i, j = self.own(st)
        a = v.cell(s, whole, i, j)
        b = v.cell(s, part, sub(i, self.w1), sub(j, self.u1))
        v.ensure(s, name, same(a, b))


def same(a, b):
    return b_and(eq(isnan(a), isnan(b)), b_or(isnan(b), eq(
        real_of(a), real_of(b))))


@REG.task('terrain', PARTS, timeout=20.0, params=sorted(DIRS))
def terrain(v, d):
    c = Cut(v)
    avg, lag = v.int('avg', 0), v.int('lag', 0)
    v.pre(b_and(ge(c.bx, add(avg, lag)), ge(c.by, add(avg, lag))))
    f = v.fn('terrain.terrain_mult', 'convo')
    data, get = v.arr('data', (c.ny, c.nx))
    part = c.part(get)
    st, whole = v.call1(f, d, data, avg, lag)
    v.st = st
    st, res = v.call1(f, d, part, avg, lag)
    c.same(st, 'the same average on the window and on the raster', whole,
           res)


@REG.task('shielding', [S + 'blur_image'], timeout=20.0)
def shielding(v):
    """for any window of that size (C08: those of the directions)"""
    c = Cut(v)
    size = v.int('size', 1)
    v.pre(b_and(ge(c.bx, size), ge(c.by, size)))
    n = add(mul(2, size), 1)
    f = v.fn('shielding.shield_mult', 'blur_image')
    im, get = v.arr('im', (c.ny, c.nx))
    k, gk = v.arr('kernel', (n, n))
    part = c.part(get)
    st, whole = v.call1(f, im, k)
    v.st = st
    st, res = v.call1(f, part, k)
    c.same(st, 'the same average on the window and on the raster', whole,
           res)


@REG.task('slope', [S + 'get_slope_aspect'], timeout=20.0,
          params=['no-data value', 'no no-data value'])
def slope(v, mode):
    """given the metric sizes of the cells, and a buffer of a cell"""
    c = Cut(v)
    v.pre(b_and(ge(c.bx, 1), ge(c.by, 1)))
    W = World(v)
    W.install()
    ip = v.ip
    z = z3.Function('elevation', I, I, R)
    nd = v.real('nodata') if mode == 'no-data value' else None
    fx = z3.Function('cell_width_m', I, I, R)
    fy = z3.Function('cell_height_m', I, I, R)
    i, j = z3.Ints('i!px j!px')
    for f in (fx, fy):
        v.fact(z3.ForAll([i, j], f(i, j) > 0, patterns=[f(i, j)]),
               {f.name()})
    g = [v.real(x) for x in ('left', 'width', 'top', 'height')]
    v.pre(b_and(gt(g[1], 0), gt(g[3], 0)))
    at = {'raster': (0, 0), 'window': (c.w1, c.u1)}
    for name, (ny, nx) in (('raster', (c.ny, c.nx)), ('window', c.shape)):
        r0, c0 = at[name]
        W.dataset(name, nx, ny, tuple(g), lambda i, j, r0=r0, c0=c0: z(
            zi(add(r0, i)), zi(add(c0, j))), nodata=nd, path=name)

    def sizes(ip, st, ds):
        name = 'raster' if ds.d['nx'] is c.nx else 'window'
        r0, c0 = at[name]
        return tuple(st.new(ArrRec((ds.d['ny'], ds.d['nx']), 'f', lambda ix,
                                   f=f: f(zi(add(r0, ix[0])), zi(add(
                                       c0, ix[1]))))) for f in (fx, fy))
    ip.contracts[PX + 'get_pixel_size_grids'] = Contract(sizes)
    # the class depends on the angle of the cell only (C10)
    cls = z3.Function('class', R, I)

    def classes(ip, st, a):
        b = ip.to_array(st, a)
        return st.new(ArrRec(b.shape, 'i', lambda ix: ite(isnan(b.get(
            ix)), 9, cls(zr(real_of(b.get(ix)))))))
    ip.contracts[S + 'reclassify_aspect'] = Contract(classes)
    f = v.fn('shielding.shield_mult', 'get_slope_aspect')
    out = {}
    for name in ('raster', 'window'):
        st, res = v.call1(f, name)
        v.st = st
        out[name] = ip.concrete_items(st, res)
        if out[name] is None or len(out[name]) != 2:
            raise Unsupported('result of get_slope_aspect')
    s, i, j = c.own(v.st)
    inside = lambda x, n: ite(lt(x, 0), 0, ite(ge(x, n), sub(n, 1), x))
    for x, o, n, m in ((i, c.w1, c.ny, c.shape[0]), (j, c.u1, c.nx,
                                                     c.shape[1])):
        for k in (-1, 0, 1):
            v.lemma(s, 'the neighbour is the same cell', eq(
                inside(add(x, k), n), add(o, inside(add(sub(x, o), k), m))))
    v.st = s
    for q, what in enumerate(('slope', 'aspect class')):
        c.same(v.st, 'the same %s on the window and on the raster' % what,
               out['raster'][q], out['window'][q])


@REG.task('default buffer')
def default(v):
    """the upwind length of the shipped configuration is at least as long as
    the averages reach, between 45 degrees south and north, for square cells
    of at most a thousandth of a degree"""
    from configparser import RawConfigParser
    import os
    c = RawConfigParser()
    c.read(os.path.join(v.ip.repo, 'multiplier_conf.cfg'))
    up = Fraction(c.get('inputValues', 'upwind_length'))
    p = v.real('cell_degrees')
    lat, lon = v.real('metres_per_degree_latitude'), v.real(
        'metres_per_degree_longitude')
    v.pre(b_and(gt(p, 0), le(p, Fraction(1, 1000))))
    v.pre(b_and(ge(lat, 110500), ge(lon, 78800)))
    v.trust('a degree of latitude is longer than 110.5 km, one of longitude '
            'within 45 degrees of the equator than 78.8 km')
    gw = v.real('gridwidth')
    v.pre(eq(gw, mul(Fraction(1, 2), mul(p, add(lat, lon)))))
    n = trunc_int(truediv(up, p))
    v.lemma(v.st, 'size of a cell', ge(gw, mul(p, 94650)))
    # 1/gw <= 1/(94650 p)
    x, y = truediv(1, gw), truediv(1, p)
    v.lemma(v.st, 'inverse', le(mul(x, 94650), y))
    v.lemma(v.st, 'cells per degree', ge(y, 1000))
    for what, reach in (
            ('straight', add(round_int(truediv(500, gw)), round_int(
                truediv(200, gw)))),
            ('diagonal', add(trunc_int(truediv(500, mul(gw, Fraction(
                1414, 1000)))), trunc_int(truediv(200, mul(gw, Fraction(
                    1414, 1000)))))),
            ('window', trunc_int(truediv(100, gw)))):
        v.ensure(v.st, 'the buffer holds the %s average' % what,
                 ge(n, reach))
