"""C22: the metric cell-size grids are bilinear between exact values at the
corners of four quadrants."""
from engine.vc import *
from engine.values import *
from engine.lib import arg
from contracts.gis import *

REG = Registry('C22')
# the distance between two points
USES = {'C28': None}
B_ = 'utilities/blrb.py:'
G = 'utilities/get_pixel_size_grid.py:'


def share(a, m):
    """how far line a is along m lines"""
    return truediv(tofloat(a), ite(le(m, 1), 1, sub(m, 1)))


def bil(a, b, m, n, ul, ur, lr, ll):
    """bilinear value at row a, column b of an (m, n) block"""
    s, t = share(a, m), share(b, n)
    one = Fraction(1)
    return add(mul(s, add(mul(t, lr), mul(sub(one, t), ll))),
               mul(sub(one, s), add(mul(t, ur), mul(sub(one, t), ul))))


def single(m, n, ul, ur, lr, ll):
    """the corners of a single row or column are the same cells"""
    return b_and(b_or(gt(m, 1), b_and(eq(ul, ll), eq(ur, lr))),
                 b_or(gt(n, 1), b_and(eq(ul, ur), eq(ll, lr))))


@REG.task('bilinear', [B_ + 'bilinear'], timeout=20.0)
def bilinear(v):
    f = v.fn('utilities.blrb', 'bilinear')
    m, n = v.int('rows', 1), v.int('cols', 1)
    ul, ur, lr, ll = [v.real(x) for x in ('ul', 'ur', 'lr', 'll')]
    v.pre(single(m, n, ul, ur, lr, ll))
    st, r = v.call1(f, (m, n), ul, ur, lr, ll)
    v.ensure_cells(st, 'bilinear between the corners', r, (m, n),
                   lambda a, b: bil(a, b, m, n, ul, ur, lr, ll))


@REG.task('between', timeout=20.0)
def between(v):
    """lemma: a bilinear value is one of the corner values at the corners
    and lies between the smallest and the largest one elsewhere"""
    m, n = v.int('rows', 1), v.int('cols', 1)
    a, b = v.int('a', 0), v.int('b', 0)
    c = [v.real(x) for x in ('ul', 'ur', 'lr', 'll')]
    st = v.st
    st.assume(b_and(lt(a, m), lt(b, n)))
    st.assume(single(m, n, *c))
    e, f = sub(m, 1), sub(n, 1)
    for (i, j), x in zip(((0, 0), (0, f), (e, f), (e, 0)), c):
        v.ensure(st, 'exact at the corner', eq(bil(i, j, m, n, *c), x))
    s, t, lo, hi = [v.real(x) for x in ('s', 't', 'lo', 'hi')]
    w = v.st.copy()
    w.pc = ()
    w.assume(b_and(ge(s, 0), le(s, 1), ge(t, 0), le(t, 1)))
    for x in c:
        w.assume(b_and(le(lo, x), le(x, hi)))
    ul, ur, lr, ll = c
    top = add(mul(t, ur), mul(sub(1, t), ul))
    bot = add(mul(t, lr), mul(sub(1, t), ll))
    v.lemma(w, 'top row', b_and(le(lo, top), le(top, hi)))
    v.lemma(w, 'bottom row', b_and(le(lo, bot), le(bot, hi)))
    x, y = v.real('top'), v.real('bottom')
    z = v.st.copy()
    z.pc = ()
    z.assume(b_and(ge(s, 0), le(s, 1), le(lo, x), le(x, hi), le(lo, y),
                   le(y, hi)))
    m_ = add(mul(s, y), mul(sub(1, s), x))
    v.ensure(z, 'between the smallest and the largest corner', b_and(
        le(lo, m_), le(m_, hi)))
    q = v.st.copy()
    v.ensure(q, 'fraction of the block', b_and(
        ge(share(a, m), 0), le(share(a, m), 1)))


@REG.task('interpolate_grid', [B_ + x for x in (
    'interpolate_grid', 'interpolate_block', 'subdivide', 'indices')],
    timeout=20.0)
def grid(v):
    f = v.fn('utilities.blrb', 'interpolate_grid')
    nr, nc = v.int('nr', 1), v.int('nc', 1)
    F = z3.Function('size', I, I, R)
    ip = v.ip
    g, _ = v.arr('grid', (nr, nc))

    def ev(ip, st, args, kw):
        i, j = args
        i, j = [x if is_z3(x) and x.sort() == I or isinstance(x, int) else
                int_of(x) for x in (i, j)]
        ip.obl(st, 'exact sizes are taken inside the raster', b_and(
            ge(i, 0), lt(i, nr), ge(j, 0), lt(j, nc)))
        return F(zi(i), zi(j))

    def block(ip, st, shape, ul, ur, lr, ll, *rest):
        m, n = ip.concrete_items(st, shape)
        ip.obl(st, 'a block has cells', b_and(ge(m, 1), ge(n, 1)))
        ip.obl(st, 'corners of single lines', single(m, n, ul, ur, lr, ll))
        return st.new(ArrRec((m, n), 'f', lambda ix: bil(
            ix[0], ix[1], m, n, ul, ur, lr, ll)))
    ip.contracts[B_ + 'bilinear'] = Contract(block)
    st, r = v.call1(f, depth=1, shape=(nr, nc), eval_func=Native(
        'size', ev), grid=g)
    ic, jc = int_div2(nr), int_div2(nc)
    for what, (a, b), (c, d) in (
            ('upper left', (0, ic), (0, jc)),
            ('lower left', (ic, sub(nr, 1)), (0, jc)),
            ('upper right', (0, ic), (jc, sub(nc, 1))),
            ('lower right', (ic, sub(nr, 1)), (jc, sub(nc, 1)))):
        v.ensure_cells(st, what + ' quadrant', g, (nr, nc), lambda i, j: bil(
            sub(i, a), sub(j, c), add(sub(b, a), 1), add(sub(d, c), 1),
            F(zi(a), zi(c)), F(zi(a), zi(d)), F(zi(b), zi(d)),
            F(zi(b), zi(c))), where=lambda i, j: b_and(
                ge(i, a), le(i, b), ge(j, c), le(j, d)))


def int_div2(n):
    return zi(n) / 2


def int_of(x):
    return int_of_real(zr(x))


@REG.task('get_pixel_size_grids', [G + 'get_pixel_size_grids'])
def grids(v):
    """the two grids are interpolated from the width and the height of the
    cell at that row and column"""
    W = World(v)
    W.install()
    ip = v.ip
    nx, ny = v.int('nx', 1), v.int('ny', 1)
    gt_ = tuple(v.real(x) for x in ('x0', 'pw', 'y0', 'ph'))
    ds = W.dataset('dem', nx, ny, gt_)
    fs = [z3.Function(n, I, I, R) for n in ('width', 'height')]

    def size(ip, st, d, xy):
        x, y = ip.concrete_items(st, xy)
        ip.obl(st, 'the cell of the raster', d is ds)
        return tuple(f(zi(y), zi(x)) for f in fs)
    ip.contracts[G + 'get_pixel_size'] = Contract(size)
    made = []

    def interp(ip, st, depth, origin, shape, func, grid):
        a = ip.to_array(st, grid)
        if a is None or a.ndim != 2:
            raise Unsupported('grid')
        m, n = ip.concrete_items(st, shape)
        o, p = ip.concrete_items(st, origin)
        ip.obl(st, 'the whole raster in four quadrants', b_and(
            eq(depth, 1), eq(o, 0), eq(p, 0), eq(m, ny), eq(n, nx),
            eq(a.shape[0], ny), eq(a.shape[1], nx)))
        i, j = z3.Ints('row col')
        x = ip.call(func, [i, j], {}, st)
        q = [k for k in (0, 1) if eq(x, fs[k](i, j)) is True or ip.valid(
            st, eq(x, fs[k](i, j)))]
        if not q:
            raise Unsupported('size function')
        h = z3.Function('grid_%d' % q[0], I, I, R)
        st.heap[grid.id] = ArrRec((ny, nx), 'f', lambda ix: h(
            zi(ix[0]), zi(ix[1])))
    ip.contracts[B_ + 'interpolate_grid'] = Contract(interp)
    st, r = v.call1(v.fn('utilities.get_pixel_size_grid',
                         'get_pixel_size_grids'), ds)
    r = ip.concrete_items(st, r)
    v.ensure(st, 'two grids', len(r) == 2)
    for k, n in ((0, 'widths'), (1, 'heights')):
        h = z3.Function('grid_%d' % k, I, I, R)
        v.ensure_cells(st, 'grid of the ' + n, r[k], (ny, nx),
                       lambda i, j: h(zi(i), zi(j)))


@REG.task('get_pixel_size', [G + 'get_pixel_size'])
def size(v):
    """the exact size of a cell: the distances between the midpoints of its
    opposite edges, in longitude and latitude, whatever the projection of
    the raster and the axis order its authority gives it"""
    W = World(v)
    W.install()
    ip = v.ip
    nx, ny = v.int('nx', 1), v.int('ny', 1)
    x0, pw, y0, ph = gt_ = tuple(v.real(n) for n in (
        'x_left', 'pixel_width', 'y_top', 'pixel_height'))
    v.pre(gt(pw, 0))
    v.pre(gt(ph, 0))
    ds = W.dataset('dem', nx, ny, gt_)
    col, row = v.int('col', 0), v.int('row', 0)
    v.pre(lt(col, nx))
    v.pre(lt(row, ny))
    geographic = v.bool('geographic')
    yx = {'ref': v.bool('authority_yx'), 'geog': v.bool('authority_lat_lon')}
    v.pre(b_or(b_not(geographic), eq(yx['ref'], yx['geog'])))
    lon, lat = [z3.Function(n, R, R, R) for n in ('longitude', 'latitude')]
    src = []
    order = {}

    def wkt(ip, st, a, k):
        src.append(a[0] == 'proj')
        order.pop('ref', None)

    def degrees(x, y):
        x, y = zr(tofloat(x)), zr(tofloat(y))
        return ite(geographic, x, lon(x, y)), ite(geographic, y, lat(x, y))

    def strategy(who):
        def f(ip, st, a, k):
            if a[0] not in (0, 1):
                raise Unsupported('axis mapping')
            order[who] = a[0]
        return f

    def clone(ip, st, a, k):
        order.pop('geog', None)
        if 'ref' in order:
            order['geog'] = order['ref']
        return geog

    def reference(who, more):
        d = dict(more, SetAxisMappingStrategy=strategy(who))
        return NObj(who, lambda n: nat(n, d[n]) if n in d else None)
    geog = reference('geog', {})
    ref = reference('ref', {'ImportFromWkt': wkt, 'CloneGeogCS': clone})

    def transform(ip, st, a, k):
        if not (len(a) == 2 and a[0] is ref and a[1] is geog):
            raise Unsupported('transformation')
        ip.assumed.add('osr: TransformPoint gives longitude and latitude, in '
                       'this order under OAMS_TRADITIONAL_GIS_ORDER, and in '
                       'the order of the authority otherwise')
        now = dict(order)

        def swap(who, x, y):
            if now.get(who) == 0:
                return x, y
            return ite(yx[who], y, x), ite(yx[who], x, y)

        def point(ip, st, a, k):
            x, y = swap('geog', *degrees(*swap('ref', a[0], a[1])))
            return (x, y, v.real('height'))
        return NObj('Transformation', lambda n: nat(n, point)
                    if n == 'TransformPoint' else None)
    osr = ModuleVal('osgeo.osr', None, {
        'SpatialReference': nat('osr.SpatialReference',
                                lambda ip, st, a, k: ref),
        'OAMS_TRADITIONAL_GIS_ORDER': 0,
        'OAMS_AUTHORITY_COMPLIANT': 1,
        'CoordinateTransformation': nat('osr.CoordinateTransformation',
                                        transform)})
    ip.libs['osgeo.osr'] = osr
    ip.libs['osgeo'].attrs['osr'] = osr
    D = [z3.Function(n, *[R] * 7) for n in ('distance', 'forward', 'back')]

    def vinc(ip, st, *a):
        a = [zr(tofloat(x)) for x in a]
        return tuple(f(*a) for f in D)
    ip.contracts['utilities/vincenty.py:vinc_dist'] = Contract(vinc)
    st, r = v.call1(v.fn('utilities.get_pixel_size_grid', 'get_pixel_size'),
                    ds, (col, row))
    r = ip.concrete_items(st, r)
    v.ensure(st, 'coordinates of the raster', src == [True])
    A = Fraction(6378137)
    F = (A - Fraction('6356752.3142')) / A
    deg = Fraction(repr(0.01745329251994329576923690768489))
    half = Fraction(1, 2)
    xs = [add(x0, mul(add(col, k), pw)) for k in (0, half, 1)]
    ys = [sub(y0, mul(add(row, k), ph)) for k in (0, half, 1)]

    def at(i, j):
        return degrees(xs[i], ys[j])

    def dist(p, q):
        return D[0](*[zr(x) for x in (F, A) + tuple(
            mul(deg, c) for c in p[::-1] + q[::-1])])
    for k, what, p, q in (
            (0, 'width: distance between the midpoints of the west and the '
             'east edge', at(0, 1), at(2, 1)),
            (1, 'height: distance between the midpoints of the north and '
             'the south edge', at(1, 0), at(1, 2))):
        v.ensure(st, what, b_or(eq(r[k], dist(p, q)), eq(r[k], dist(q, p))),
                 exact=False)
