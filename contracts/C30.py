"""C30: the elevation cut-out of a tile holds the DEM's own cells."""
from engine.vc import *
from engine.values import *
from contracts.tilegrid import *
from contracts.rounding import Rounding, FAR, close, product_law

REG = Registry('C30')
# name of the working file and extents of the tiles
USES = {'C23': ['cut_dem'], 'C17': ['tiles on the grid']}
FLOAT = ('GDT_Float32', 'GDT_Float64')
TYPES = {'int32': ('GDT_Int32', 'GDT_Float64'),
         'uint8': FLOAT + ('GDT_Int32',), 'int16': FLOAT + ('GDT_Int32',),
         'uint16': FLOAT + ('GDT_Int32',), 'float32': FLOAT,
         'float64': FLOAT}


def model(v, kind):
    """a DEM of the given data type"""
    W = World(v)
    W.install()
    nx, ny = v.int('nx', 1), v.int('ny', 1)
    g = tuple(v.real(n) for n in ('x', 'pw', 'y', 'ph'))
    v.pre(b_and(gt(g[1], 0), gt(g[3], 0)))
    get = z3.Function('elevation', I, I, R)
    dem = W.dataset('dem', nx, ny, g, get=get, proj='dem projection',
                    path='dem.img')
    W.exist = [('dem.img', True)]
    old = dem.attr
    array = NObj('array', {'dtype': kind}.get)
    r = nat('ReadAsArray', lambda ip, st, a, k: array)
    band = NObj('Band', {'ReadAsArray': r,
                         'DataType': Opaque('type ' + kind)}.get)
    dem.attr = lambda n: nat('GetRasterBand', lambda ip, st, a, k: band) \
        if n == 'GetRasterBand' else old(n)
    return W, dem, nx, ny, g


@REG.task('cut-out', [A + 'Multipliers.__init__', A + 'Multipliers.open_dem',
                      A + 'Multipliers.clip_dataset'],
          params=sorted(TYPES), timeout=20.0)
def cutout(v, kind):
    W, dem, nx, ny, g = model(v, kind)
    ip = v.ip
    x, pw, y, ph = g
    col, row = v.int('col', 0), v.int('row', 0)
    w, h = v.int('w', 1), v.int('h', 1)
    v.pre(le(add(col, w), nx))
    v.pre(le(add(row, h), ny))
    x0, y0 = add(x, mul(col, pw)), sub(y, mul(row, ph))
    x1, y1 = add(x0, mul(w, pw)), sub(y0, mul(h, ph))
    st, m = v.call1(v.fn('all_multipliers', 'Multipliers'), 'landcover',
                    'dem.img')
    v.st = st
    st, _ = v.call1(ip.getattr(st, m, 'open_dem'))
    v.st = st
    close(v, x, pw, nx)
    close(v, y, ph, ny)
    for n, p in ((col, pw), (w, pw), (row, ph), (h, ph)):
        product_law(v, st, n, p, Fraction(FAR))
    Rounding(v, [pw, ph])
    for st, _ in v.outcomes(v.fn(
            'all_multipliers', 'Multipliers.clip_dataset'), m, v.list(
                [x0, y0, x1, y1]), 'out.img'):
        ev = [e for e in W.events(st) if e.name != 'open']
        by = {e.name: e for e in ev}
        if sorted(by) != ['create', 'geotransform', 'projection',
                          'reproject'] or len(ev) != 4:
            raise Unsupported('calls %r' % (sorted(by),))
        c = by['create'].args
        v.ensure(st, 'a new file', c[1] == 'out.img')
        v.ensure(st, 'the columns of the window', eq(c[2], w))
        v.ensure(st, 'the rows of the window', eq(c[3], h))
        t = c[5] if len(c) > 5 else Opaque('GDT_Byte')
        if not isinstance(t, Opaque):
            raise Unsupported('type')
        v.ensure(st, 'the type holds the elevations', t.name in TYPES[kind])
        q = ip.concrete_items(st, by['geotransform'].args[1])
        v.ensure(st, 'georeference of the window', b_and(*[
            eq(a, b) for a, b in zip(q, (x0, pw, 0, y0, 0, neg(ph)))]))
        v.ensure(st, 'projection of the model',
                 by['projection'].args[1] == 'dem projection')
        r = by['reproject'].args
        if len(r) < 4:
            raise Unsupported('ReprojectImage')
        v.ensure(st, 'the model into the new file', r[0] == 'dem' and
                 r[1] == 'out.img')
        v.ensure(st, 'the same projection on both sides', r[2] == r[3] ==
                 'dem projection')
        v.ensure(st, 'cells are not blended', len(r) < 5 or isinstance(
            r[4], Opaque) and r[4].name == 'GRA_NearestNeighbour')
    ip.assumed.add('gdal.ReprojectImage (nearest neighbour) between rasters '
                   'of the same projection whose cells coincide copies the '
                   'cells, no-data cells excepted')


@REG.task('cut-out, rounded extents', [A + 'Multipliers.clip_dataset'],
          timeout=20.0)
def rounded(v):
    """edges of the window that are off by an eighth of a cell at most make
    the same cut-out: every cell of it has its centre in its DEM cell"""
    W, dem, nx, ny, g = model(v, 'float32')
    ip = v.ip
    x, pw, y, ph = g
    col, row = v.int('col', 0), v.int('row', 0)
    w, h = v.int('w', 1), v.int('h', 1)
    v.pre(le(add(col, w), nx))
    v.pre(le(add(row, h), ny))
    eighth = Fraction(1, 8)
    d = [v.real('rounding_' + n) for n in ('west', 'north', 'east', 'south')]
    for q in d:
        v.pre(b_and(le(neg(eighth), q), le(q, eighth)))
    x0 = add(x, mul(add(col, d[0]), pw))
    y0 = sub(y, mul(add(row, d[1]), ph))
    x1 = add(x, mul(add(add(col, w), d[2]), pw))
    y1 = sub(y, mul(add(add(row, h), d[3]), ph))
    st, m = v.call1(v.fn('all_multipliers', 'Multipliers'), 'landcover',
                    'dem.img')
    v.st = st
    st, _ = v.call1(ip.getattr(st, m, 'open_dem'))
    v.st = st
    close(v, x, pw, nx)
    close(v, y, ph, ny)
    for n, p in ((col, pw), (w, pw), (row, ph), (h, ph)):
        product_law(v, st, n, p, Fraction(FAR))
    Rounding(v, [pw, ph])
    for st, _ in v.outcomes(v.fn(
            'all_multipliers', 'Multipliers.clip_dataset'), m, v.list(
                [x0, y0, x1, y1]), 'out.img'):
        by = {e.name: e for e in W.events(st)}
        if 'create' not in by or 'geotransform' not in by:
            raise Unsupported('the new raster')
        c = by['create'].args
        v.ensure(st, 'the columns of the window', eq(c[2], w))
        v.ensure(st, 'the rows of the window', eq(c[3], h))
        q = ip.concrete_items(st, by['geotransform'].args[1])
        # the shift against the DEM, in cells, at both ends
        for what, a, b, n, p, o, k in (
                ('columns', q[0], q[1], w, pw, x, col),
                ('rows', neg(q[3]), neg(q[5]), h, ph, neg(y), row)):
            for at in (0, n):
                shift = sub(add(truediv(sub(a, o), p), mul(at, truediv(
                    b, p))), add(k, at))
                v.ensure(st, what + ' lie on those of the model', b_and(
                    lt(Fraction(-1, 2), shift), lt(shift, Fraction(1, 2))))


@REG.task('no model', [A + 'Multipliers.open_dem'], params=[
    'missing', 'unreadable'])
def absent(v, how):
    """without an elevation model nothing is made"""
    W = World(v)
    W.install()
    W.exist = [('dem.img', how != 'missing')]
    W.files['dem.img'] = None
    st, m = v.call1(v.fn('all_multipliers', 'Multipliers'), 'landcover',
                    'dem.img')
    v.st = st
    for st, o in v.call(v.ip.getattr(st, m, 'open_dem')):
        v.ensure(st, 'open_dem fails', o[0] == 'raise')
