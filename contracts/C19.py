"""C19: the combined rasters hold, band by band, the product of the three
multipliers of a direction, and the largest of the bands."""
from engine.vc import *
from engine.values import *
from contracts.gis import nat, noop, statistics

REG = Registry('C19')
F = 'utilities/convert.py:'
DIRS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
TYPES = [('shielding', 'ms'), ('terrain', 'mz'), ('topographic', 'mt')]
NONE = -9999


class Rasters(object):
    """GDAL data sets whose bands live in the heap of the verified code"""

    def __init__(self, v):
        self.v, self.ip, self.stored = v, v.ip, []
        ip = v.ip
        self.trace = v.st.new(SeqRec([]))
        self.n = 0

        def srs(ip, st, a, k):
            tab = {'ImportFromEPSG': nat('ImportFromEPSG', epsg),
                   'ExportToWkt': nat('ExportToWkt', lambda ip, st, a, k:
                                      self.wkt)}
            return NObj('SpatialReference', tab.get)
        self.wkt = None

        def epsg(ip, st, a, k):
            self.wkt = 'EPSG:%s' % a[0]
        osr = ModuleVal('osgeo.osr', None, {
            'SpatialReference': nat('osr.SpatialReference', srs)})

        def gopen(ip, st, a, k):
            ip.assumed.add('gdal.Open of a missing file raises RuntimeError '
                           '(gdal.UseExceptions), of another one gives the '
                           'raster stored in it')
            for path, ds, missing in self.stored:
                if str_eq(path, a[0]) is True:
                    if missing is not False:
                        ip.raise_unless(st, b_not(missing), 'RuntimeError')
                    return ds
            raise Unsupported('gdal.Open of %r' % (a[0],))

        def driver(ip, st, a, k):
            ok = a[0] == 'MEM'

            def create(ip, st, a, k):
                if not ok:
                    raise Unsupported('driver')
                return self.create(st, *a[1:])
            return NObj('Driver', lambda n: nat('Create', create)
                        if n == 'Create' else None)

        def translate(ip, st, a, k):
            o = k.get('options')
            if set(k) - {'options'} or len(a) != 2 or not (
                    o is None or isinstance(o, str) and all(
                        w == '-co' or '=' in w for w in o.split())):
                raise Unsupported('gdal.Translate options %r' % (k,))
            ip.assumed.add('gdal.Translate with creation options copies the '
                           'raster')
            d = st.heap[a[1].ref.id]
            self.log(st, 'translate', a[0], a[1], tuple(d.d.items()))
            return Opaque('tif')
        gdal = ModuleVal('osgeo.gdal', None, {
            'UseExceptions': nat('UseExceptions', noop),
            'SetConfigOption': nat('SetConfigOption', noop),
            'GDT_Float32': 'Float32', 'GDT_Float64': 'Float64',
            'Open': nat('gdal.Open', gopen),
            'GetDriverByName': nat('GetDriverByName', driver),
            'ParseCommandLine': nat('ParseCommandLine',
                                    lambda ip, st, a, k: a[0]),
            'TranslateOptions': nat('TranslateOptions', options),
            'Translate': nat('gdal.Translate', translate)})

        def read(ip, st, a, k):
            if len(a) > 1 or k:
                raise Unsupported('part of a band')
            return a[0].read(st)
        ip.libs['osgeo.gdal'], ip.libs['osgeo.osr'] = gdal, osr
        ip.libs['osgeo.gdal_array'] = ModuleVal('osgeo.gdal_array', None, {
            'BandReadAsArray': nat('BandReadAsArray', read)})
        ip.libs['osgeo'] = ModuleVal('osgeo', None, {
            'gdal': gdal, 'osr': osr,
            'gdal_array': ip.libs['osgeo.gdal_array']})

    def log(self, st, name, *a):
        st.heap[self.trace.id] = st.heap[self.trace.id].append(
            Event(name, *a))

    def events(self, st):
        return st.heap[self.trace.id].concrete()

    def create(self, st, nx, ny, bands=1, kind='Byte'):
        """new raster, zero everywhere"""
        d = {'bands': bands, 'nx': nx, 'ny': ny}
        for b in range(1, bands + 1):
            d[('type', b)] = kind
            d[('data', b)] = ArrRec((ny, nx), 'f', lambda ix: Fraction(0))
        return Raster(self, st.new(DictRec(d)), nx, ny)


def options(ip, st, a, k):
    if k or len(a) != 1:
        raise Unsupported('TranslateOptions')
    return a[0]


class Raster(NObj):
    def __init__(self, world, ref, nx, ny):
        self.ref, self.w, self.name = ref, world, 'Dataset'
        self.attr = self.get
        self.nx, self.ny = nx, ny
        self.bands = {}

    def put(self, st, k, x):
        r = st.heap[self.ref.id]
        st.heap[self.ref.id] = DictRec(dict(r.d, **{}) | {k: x}, None)

    def d(self, st):
        return st.heap[self.ref.id].d

    def band(self, b):
        b = norm(b)
        if not isinstance(b, int):
            raise Unsupported('band number')
        if b not in self.bands:
            self.bands[b] = Band(self, b)
        return self.bands[b]

    def get(self, name):
        if name == 'RasterXSize':
            return self.nx
        if name == 'RasterYSize':
            return self.ny

        def addband(ip, st, a, k):
            n = self.d(st)['bands'] + 1
            self.put(st, 'bands', n)
            self.put(st, ('type', n), a[0] if a else 'Byte')
            self.put(st, ('data', n), ArrRec((self.ny, self.nx), 'f',
                                             lambda ix: Fraction(0)))

        def getband(ip, st, a, k):
            n = self.d(st)['bands']
            if not isinstance(norm(a[0]), int):
                raise Unsupported('band number')
            ip.obl(st, 'the band exists', 1 <= norm(a[0]) <= n)
            return self.band(a[0])
        tab = {'AddBand': addband, 'GetRasterBand': getband,
               'GetGeoTransform': lambda ip, st, a, k: self.d(st).get(
                   'gt', 'no georeference'),
               'GetProjection': lambda ip, st, a, k: self.d(st).get(
                   'proj', ''),
               'SetGeoTransform': lambda ip, st, a, k: self.put(
                   st, 'gt', a[0]),
               'SetProjection': lambda ip, st, a, k: self.put(
                   st, 'proj', a[0]),
               'FlushCache': noop}
        if name == 'RasterCount':
            raise Unsupported('RasterCount')
        return nat(name, tab[name]) if name in tab else None


class Band(NObj):
    def __init__(self, ds, b):
        self.ds, self.b, self.name = ds, b, 'Band'
        self.attr = self.get

    def read(self, st):
        a = self.ds.d(st)[('data', self.b)]
        if not isinstance(a, ArrRec):
            a = self.ds.w.ip.to_array(st, a)
        return st.new(ArrRec(a.shape, a.kind, a.get))

    def get(self, name):
        ds, b = self.ds, self.b

        def write(ip, st, a, k):
            if len(a) > 1 or k:
                raise Unsupported('WriteArray')
            x = ip.to_array(st, a[0])
            if x is None or x.ndim != 2 or isinstance(x.info, MaskInfo):
                raise Unsupported('WriteArray')
            ip.obl(st, 'the values have the shape of the raster', b_and(
                eq(x.shape[0], ds.ny), eq(x.shape[1], ds.nx)))
            snap = ArrRec(x.shape, x.kind, lambda ix: x.get(ix))
            ds.put(st, ('data', b), snap)

        def put(key):
            return lambda ip, st, a, k: ds.put(st, (key, b), a[0])

        def stat(ip, st, a, k):
            # the values read are never NaN, so all of them are valid
            # until a missing value is set
            ip.assumed.add('the statistics of a GDAL band change no cell; '
                           'the netCDF driver of GDAL reads NaN as the '
                           'missing value')
            if ('nodata', b) in ds.d(st):
                statistics(ip, st, a, k)
        tab = {'WriteArray': write, 'SetDescription': put('name'),
               'SetNoDataValue': put('nodata'), 'ComputeStatistics': stat,
               'FlushCache': noop, 'GetStatistics': stat,
               'ReadAsArray': lambda ip, st, a, k: read_(self, st, a, k)}
        return nat(name, tab[name]) if name in tab else None


def read_(band, st, a, k):
    if a or k:
        raise Unsupported('part of a band')
    return band.read(st)


def shape(v):
    nx, ny = v.int('nx', 1), v.int('ny', 1)
    g = tuple(v.real(n) for n in ('x', 'pw', 'rx', 'y', 'ry', 'ph'))
    return nx, ny, g


def missing_value(x):
    return b_or(isnan(x), eq(x.v if isinstance(x, FN) else x, NONE))


def stored(v, R_, path, nx, ny, g, bands, missing=False):
    """a raster on disk: multipliers, missing values as -9999 or NaN"""
    ds = R_.create(v.st, nx, ny, len(bands), 'Float32')
    ds.put(v.st, 'gt', g)
    gets = []
    for k, n in enumerate(bands):
        _, get = v.arr(n, (ny, nx), nan=True)
        i, j = z3.Ints('i!m j!m')
        x = get(i, j).v
        v.fact(z3.ForAll([i, j], z3.Or(x == NONE, x >= 0), patterns=[x]),
               {x.decl().name()})
        ds.put(v.st, ('data', k + 1), ArrRec(
            (ny, nx), 'f', lambda ix, get=get: get(*ix)))
        gets.append(get)
    R_.stored.append((path, ds, missing))
    return ds, gets


def tile_name():
    return SymStr([Atom('tile', '/._')])


def path(*parts):
    return sstr(SymStr([Atom('folder')]), *parts)


def converter(v):
    st, c = v.call1(v.fn('utilities.convert', 'Converter'),
                    v.list([tile_name()]), path())
    v.st = st
    return c


def inputs(v, w):
    """the 24 files of a tile, not all of them missing"""
    nx, ny, g = shape(v)
    t = tile_name()
    files = {}
    gone = []
    for folder, unit in TYPES:
        for d in DIRS:
            m = v.bool('missing_%s_%s' % (unit, d))
            gone.append(m)
            _, (get,) = stored(v, w, path('/', folder, '/', t, '_', unit,
                                          '_', d, '.nc'), nx, ny, g,
                               ['%s_%s' % (unit, d)], m)
            files[folder, d] = (m, get)
    v.pre(b_not(b_and(*gone)))
    return nx, ny, g, t, files


@REG.task('open_any', [F + 'Converter.open_any'])
def any_file(v):
    w = Rasters(v)
    nx, ny, g, t, files = inputs(v, w)
    c = converter(v)
    n = 0
    for st, o in v.call(v.fn('utilities.convert', 'Converter.open_any'), c,
                        t):
        n += 1
        v.ensure(st, 'a file of the tile that exists', o[0] == 'return')
        if o[0] != 'return':
            continue
        for ds, cond in choices(o[1]):
            v.ensure(st, 'size of the tile', ds.nx is nx and ds.ny is ny and
                     ds.d(st).get('gt') == g)
    v.ensure(v.st, 'an outcome', n > 0)


def choices(x, c=True):
    if isinstance(x, Choice):
        return choices(x.a, b_and(c, x.cond)) + choices(x.b, b_and(
            c, b_not(x.cond)))
    return [(x, c)]


@REG.task('process_tile', [F + 'Converter.process_tile'], timeout=20.0)
def tile(v):
    w = Rasters(v)
    nx, ny, g, t, files = inputs(v, w)
    c = converter(v)
    n = 0
    some = w.create(v.st, nx, ny, 1, 'Float32')
    some.put(v.st, 'gt', g)

    def any_(ip, st, c, tile):
        ip.obl(st, 'a file of this tile', str_eq(tile, t) is True)
        return some
    v.ip.contracts[F + 'Converter.open_any'] = Contract(any_)
    for st, _ in v.outcomes(v.fn('utilities.convert',
                                'Converter.process_tile'), c, t):
        n += 1
        ev = [e for e in w.events(st)]
        v.ensure(st, 'one raster is stored', len(ev) == 1)
        name, ds, d = ev[0].args
        d = dict(d)
        v.ensure(st, 'under the name of the tile', str_eq(name, path(
            '/M3/', t, '.tif')) is True)
        v.ensure(st, 'size of the tile', b_and(eq(ds.nx, nx),
                                               eq(ds.ny, ny)))
        whole(v, st, d, g, w)
        v.ensure(st, 'eight bands', d['bands'] == 8)
        for b, dr in enumerate(DIRS, 1):
            v.ensure(st, 'band %d is labelled %s' % (b, dr),
                     d.get(('name', b)) == dr)
            v.ensure(st, 'missing value of band %d' % b, eq(
                d.get(('nodata', b), 0), NONE))
            v.ensure(st, 'band %d holds any product' % b,
                     d[('type', b)] in ('Float32', 'Float64'))
            fs = [files[f, dr] for f, _ in TYPES]

            def ok(x, i, j):
                q = [ite(m, Fraction(1), get(i, j)) for m, get in fs]
                lost = b_or(*[missing_value(y) for y in q])
                p = Fraction(1)
                for y in q:
                    p = mul(p, y.v if isinstance(y, FN) else y)
                return ite(lost, missing_value(x), b_and(
                    b_not(isnan(x)), eq(x.v if isinstance(x, FN) else x,
                                        p)))
            cells(v, st, 'band %s' % dr, d[('data', b)], ny, nx, ok)
        files_ = v.ip.concrete_items(st, v.ip.getattr(st, c, 'tile_files'))
        v.ensure(st, 'the raster is listed', len(files_) == 1 and str_eq(
            files_[0], name) is True)
    v.ensure(v.st, 'an outcome', n > 0)


def whole(v, st, d, g, w):
    t = d.get('gt')
    v.ensure(st, 'georeference of the tile', t is not None and b_and(
        *[eq(a, b) for a, b in zip(v.ip.concrete_items(st, t), g)]))
    v.ensure(st, 'projection of the multipliers', d.get('proj') ==
             'EPSG:4326')


def cells(v, st, name, a, ny, nx, ok):
    a = a if isinstance(a, ArrRec) else v.ip.to_array(st, a)
    v.ensure(st, name + ': shape', b_and(eq(a.shape[0], ny),
                                         eq(a.shape[1], nx)))
    i, j = z3.Ints('row column')
    s = st.copy()
    s.assume(b_and(ge(i, 0), lt(i, ny), ge(j, 0), lt(j, nx)))
    v.ensure(s, name + ': every cell', ok(a.get((i, j)), i, j))


@REG.task('process_max_tile', [F + 'Converter.process_max_tile'],
          timeout=20.0)
def maximum(v):
    w = Rasters(v)
    nx, ny, g = shape(v)
    t = tile_name()
    _, gets = stored(v, w, path('/M3/', t, '.tif'), nx, ny, g,
                     ['band_' + d for d in DIRS])
    c = converter(v)
    for st, _ in v.outcomes(v.fn('utilities.convert',
                                'Converter.process_max_tile'), c, t):
        ev = w.events(st)
        v.ensure(st, 'one raster is stored', len(ev) == 1)
        name, ds, d = ev[0].args
        d = dict(d)
        v.ensure(st, 'under the name of the tile', str_eq(name, path(
            '/M3_max/', t, '.tif')) is True)
        v.ensure(st, 'size of the tile', b_and(eq(ds.nx, nx),
                                               eq(ds.ny, ny)))
        whole(v, st, d, g, w)
        v.ensure(st, 'a single band', d['bands'] == 1)
        v.ensure(st, 'missing value', eq(d.get(('nodata', 1), 0), NONE))
        v.ensure(st, 'holds any product',
                 d[('type', 1)] in ('Float32', 'Float64'))

        def ok(x, i, j):
            q = [get(i, j) for get in gets]
            m = q[0].v
            for y in q[1:]:
                m = smax(m, y.v)
            return ite(b_or(*[isnan(y) for y in q]), True, b_and(
                b_not(isnan(x)), eq(x.v if isinstance(x, FN) else x, m)))
        cells(v, st, 'largest band', d[('data', 1)], ny, nx, ok)
        files_ = v.ip.concrete_items(st, v.ip.getattr(st, c,
                                                      'max_tile_files'))
        v.ensure(st, 'the raster is listed', len(files_) == 1 and str_eq(
            files_[0], name) is True)


@REG.task('run', [F + 'Converter.run', F + 'Converter.__init__'])
def run(v):
    """every tile is combined, then its maximum taken, once, in order"""
    w = Rasters(v)
    ip = v.ip
    n = v.int('tiles', 0)
    name = z3.Function('tile_name', I, I)
    tiles = v.st.new(SeqRec([SymSeg(n, lambda k: ObjV(name(zi(k))))]))
    st, c = v.call1(v.fn('utilities.convert', 'Converter'), tiles, path())
    v.st = st
    ip.setattr(st, c, 'combined', None)

    def process(ip, st, c, tile):
        ip.call(ip.getattr(st, ip.getattr(st, c, 'tile_files'), 'append'),
                [tile], {}, st)
        ip.setattr(st, c, 'combined', tile)

    def maximum(ip, st, c, tile):
        ip.obl(st, 'the combined raster of the tile is there', ip.equal(
            st, ip.getattr(st, c, 'combined'), tile))
        ip.call(ip.getattr(st, ip.getattr(st, c, 'max_tile_files'),
                           'append'), [tile], {}, st)
    ip.contracts[F + 'Converter.process_tile'] = Contract(process)
    ip.contracts[F + 'Converter.process_max_tile'] = Contract(maximum)
    st, r = v.call1(v.fn('utilities.convert', 'Converter.run'), c)
    r = ip.concrete_items(st, r)
    v.ensure(st, 'two lists', len(r) == 2)
    k = v.int('k', 0)
    s = st.copy()
    s.assume(lt(k, n))
    for what, x in zip(('combined', 'largest'), r):
        q = st.heap[x.id]
        v.ensure(st, what + ': one raster per tile', eq(q.length(), n))
        v.ensure(s, what + ': rasters in order', ip.equal(
            s, q.get(k), ObjV(name(k))))
