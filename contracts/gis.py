"""Assumed contracts of GDAL, netCDF files and the operating system, and the
contracts the tile-level functions use for the functions they call."""
from engine.vc import *
from engine.values import *
from engine.terms import *
from engine.lib import mkarr, arg


def nat(name, fn):
    return Native(name, fn)


def noop(ip, st, args, kw):
    return None


def statistics(ip, st, args, kw):
    """a band without a valid cell has no statistics"""
    ip.assumed.add('the statistics calls of a GDAL band change no cell and '
                   'raise RuntimeError when no cell is valid')
    ip.statistics = getattr(ip, 'statistics', 0) + 1
    ip.raise_unless(st, z3.Bool('any_valid!%d' % ip.statistics),
                    'RuntimeError')


class World(object):
    """records the effects of the verified code as a sequence of events"""

    def __init__(self, v):
        self.v, self.ip = v, v.ip
        self.trace = v.st.new(SeqRec([]))
        self.files = {}            # path -> data set (or None)
        self.exist = []            # (path, condition)
        self.created = 0

    # ------------------------------------------------------------ events
    def snap(self, st, x):
        a = self.ip.av(st, x) if isinstance(x, Ref) else None
        if isinstance(x, Choice) and self.ip.is_array(st, x):
            a = self.ip.to_array(st, x)
        if a is not None:
            return ArrRec(a.shape, a.kind, (lambda ix, a=a: a.get(ix)),
                          info=a.info)
        return self.ip.freeze(st, x)

    def log(self, st, name, *args):
        r = st.heap[self.trace.id]
        st.heap[self.trace.id] = r.append(Event(
            name, *[self.snap(st, a) for a in args]))

    def events(self, st, *names):
        """the recorded events as a list, or None if their number is not
        the same on all paths"""
        its = st.heap[self.trace.id].concrete()
        if its is None:
            return None
        return [e for e in its if not names or e.name in names]

    # ------------------------------------------------------------ raster
    def find(self, path):
        for k, d in self.files.items():
            r = str_eq(k, path) if isinstance(
                path, (str, SymStr)) else False
            if r is True:
                return d
        return UNBOUND

    def band(self, ds):
        me = self

        def read(ip, st, args, kw):
            d = ds.d
            if len(args) >= 4:
                ip.obl(st, 'the whole raster is read', b_and(
                    eq(args[0], 0), eq(args[1], 0), eq(args[2], d['nx']),
                    eq(args[3], d['ny'])))
            elif args or kw:
                raise Unsupported('ReadAsArray')
            ip.assumed.add('gdal Band.ReadAsArray returns the rows and '
                           'columns of the raster, in a new array')
            get = d['get']
            r = st.new(ArrRec((d['ny'], d['nx']), d['kind'],
                              lambda ix: get(*ix)))
            return r

        def write(ip, st, args, kw):
            me.log(st, 'write', ds.d['name'], args[0], *args[1:])

        def setnd(ip, st, args, kw):
            me.log(st, 'nodata', ds.d['name'], args[0])
        tab = {'ReadAsArray': nat('ReadAsArray', read),
               'WriteArray': nat('WriteArray', write),
               'SetNoDataValue': nat('SetNoDataValue', setnd),
               'FlushCache': nat('FlushCache', noop),
               'GetStatistics': nat('GetStatistics', statistics),
               'ComputeStatistics': nat('ComputeStatistics', statistics),
               'SetDescription': nat(
                   'SetDescription', lambda ip, st, a, k: me.log(
                       st, 'describe', ds.d['name'], a[0])),
               'GetNoDataValue': nat(
                   'GetNoDataValue', lambda ip, st, a, k: ds.d['nodata']),
               'Checksum': nat('Checksum',
                               lambda ip, st, a, k: ds.d['checksum'])}
        return NObj('Band', lambda a: tab.get(a))

    def dataset(self, name, nx, ny, gt, get=None, kind='f', nodata=None,
                checksum=None, proj='proj', path=None):
        """gt = (x_left, pixel width, y_top, pixel height > 0)"""
        me = self
        d = {'name': name, 'nx': nx, 'ny': ny, 'get': get, 'kind': kind,
             'nodata': nodata, 'checksum': checksum, 'gt': gt}
        holder = NObj('Dataset', None)
        holder = _DS('Dataset', None)
        holder.d = d
        bands = {}

        def getband(ip, st, args, kw):
            b = args[0]
            if isinstance(norm(b), int):
                if norm(b) not in bands:
                    bands[norm(b)] = me.band(holder) if norm(b) == 1 else \
                        me.band(_alias(holder, (name, norm(b))))
                return bands[norm(b)]
            return me.band(_alias(holder, (name, b)))
        x, pw, y, ph = gt
        tab = {'RasterXSize': nx, 'RasterYSize': ny, 'RasterCount': 1,
               'GetGeoTransform': nat('GetGeoTransform', lambda ip, st, a,
                                      k: (x, pw, 0, y, 0, neg(ph))),
               'GetProjection': nat('GetProjection',
                                    lambda ip, st, a, k: proj),
               'GetRasterBand': nat('GetRasterBand', getband),
               'FlushCache': nat('FlushCache', noop),
               'GetDriver': nat('GetDriver', lambda ip, st, a, k: NObj(
                   'Driver', lambda n: Opaque('driver.' + n)
                   if n in ('ShortName', 'LongName') else None)),
               'SetGeoTransform': nat(
                   'SetGeoTransform', lambda ip, st, a, k: me.log(
                       st, 'geotransform', name, a[0])),
               'SetProjection': nat(
                   'SetProjection', lambda ip, st, a, k: me.log(
                       st, 'projection', name, a[0]))}
        holder.attr = lambda a: tab.get(a)
        if path is not None:
            self.files[path] = holder
        return holder

    def install(self):
        """osgeo, netCDF4 and os functions used by the code"""
        ip, me = self.ip, self
        const = {k: Opaque(k) for k in (
            'GA_ReadOnly', 'GRA_NearestNeighbour', 'GDT_Float32',
            'GDT_Float64', 'GDT_Int32', 'GDT_Byte', 'GRA_Bilinear')}

        def gopen(ip, st, args, kw):
            d = me.find(args[0])
            if d is UNBOUND:
                raise Unsupported('gdal.Open of %r' % (args[0],))
            ip.assumed.add('gdal.Open gives the raster stored under the '
                           'path')
            me.log(st, 'open', args[0])
            return d

        def getdrv(ip, st, args, kw):
            def create(ip, st, a, k):
                me.log(st, 'create', args[0], *a)
                d = me.dataset(a[0], a[1], a[2], (0, 0, 0, 0))
                return d
            return NObj('Driver', lambda n: nat('Create', create)
                        if n == 'Create' else None)

        def reproj(ip, st, args, kw):
            names = ['src_ds', 'dst_ds', 'src_wkt', 'dst_wkt',
                     'eResampleAlg']
            args = list(args)
            while len(args) < 5 and names[len(args)] in kw:
                args.append(kw[names[len(args)]])
            if len(args) > 5 or set(kw) - set(names):
                raise Unsupported('ReprojectImage')
            me.log(st, 'reproject', *[a.d['name'] if isinstance(a, _DS)
                                      else a for a in args])
        gd = dict(const)
        gd.update({'Open': nat('gdal.Open', gopen),
                   'AllRegister': nat('gdal.AllRegister', noop),
                   'UseExceptions': nat('gdal.UseExceptions', noop),
                   'PushErrorHandler': nat('gdal.PushErrorHandler', noop),
                   'GetDriverByName': nat('gdal.GetDriverByName', getdrv),
                   'ReprojectImage': nat('gdal.ReprojectImage', reproj)})
        gdal = ModuleVal('osgeo.gdal', None, gd)
        ip.libs['osgeo.gdal'] = gdal
        ip.libs['osgeo.gdalconst'] = ModuleVal('osgeo.gdalconst', None,
                                               const)
        ip.libs['osgeo'] = ModuleVal('osgeo', None, {
            'gdal': gdal, 'gdalconst': ip.libs['osgeo.gdalconst']})
        osm = ip.libs['os'].attrs

        def effect(name, value=None):
            def f(ip, st, args, kw):
                me.log(st, name, *args)
                return value
            return nat('os.' + name, f)

        def exists(ip, st, args, kw):
            for p, c in me.exist:
                if str_eq(p, args[0]) is True:
                    return c(st) if callable(c) else c
            raise Unsupported('os.path.exists(%r)' % (args[0],))
        osm['path'].attrs['exists'] = nat('os.path.exists', exists)
        for n in ('remove', 'makedirs', 'mkdir', 'chdir', 'unlink',
                  'rename'):
            osm[n] = effect(n)
        osm['getcwd'] = nat('os.getcwd', lambda ip, st, a, k: '/cwd')
        ip.libs['shutil'] = ModuleVal('shutil', None, {
            n: effect(n) for n in ('rmtree', 'copy', 'move')})
        ip.libs['glob'] = ModuleVal('glob', None, {
            'glob': nat('glob.glob', lambda ip, st, a, k: me.glob(st, a[0]))})

    def glob(self, st, pattern):
        raise Unsupported('glob')


class _DS(NObj):
    d = None


def _alias(ds, name):
    h = _DS('Dataset', None)
    h.d = dict(ds.d, name=name)
    return h


# ------------------------------------------------- contracts of the callees
class Tile(object):
    """a working tile: raster of nx columns and ny rows, and the extent of
    the part without buffer: w columns from column ox, h rows from row oy"""

    def __init__(self, v):
        self.nx, self.ny = v.int('nx', 1), v.int('ny', 1)
        self.pw, self.ph = v.real('pixel_width'), v.real('pixel_height')
        v.pre(gt(self.pw, 0))
        v.pre(gt(self.ph, 0))
        self.x, self.y = v.real('x_left'), v.real('y_top')
        self.ox, self.oy = v.int('ox', 0), v.int('oy', 0)
        self.w, self.h = v.int('w', 1), v.int('h', 1)
        v.pre(le(add(self.ox, self.w), self.nx))
        v.pre(le(add(self.oy, self.h), self.ny))
        self.gt = (self.x, self.pw, self.y, self.ph)
        x0 = add(self.x, mul(self.ox, self.pw))
        y0 = sub(self.y, mul(self.oy, self.ph))
        self.extent = (x0, y0, add(x0, mul(self.w, self.pw)),
                       sub(y0, mul(self.h, self.ph)))


N = 'utilities/nctools.py:'
PX = 'utilities/get_pixel_size_grid.py:'


def nc_contracts(W, tile):
    """clip_array, get_lat_lon (proved in C17), save_multiplier (C18)"""
    ip = W.ip
    t = tile

    def same_extent(ip, st, e):
        its = ip.concrete_items(st, e)
        return b_and(*[eq(a, b) for a, b in zip(its, t.extent)])

    def clip(ip, st, data, x_left, y_upper, pw, ph, extent):
        a = ip.to_array(st, data)
        ip.obl(st, 'clip_array gets the whole working tile', a is not None
               and a.ndim == 2 and b_and(eq(a.shape[0], t.ny),
                                         eq(a.shape[1], t.nx)))
        ip.obl(st, 'clip_array gets the georeference of the working tile',
               b_and(eq(x_left, t.x), eq(y_upper, neg(t.y)),
                     eq(pw, t.pw), eq(ph, t.ph)))
        ip.obl(st, 'clip_array gets the extent without buffer',
               same_extent(ip, st, extent))
        snap = W.snap(st, data)
        return st.new(ArrRec((t.h, t.w), a.kind, lambda ix: snap.get(
            (add(ix[0], t.oy), add(ix[1], t.ox))), info=('clip', snap)))

    def latlon(ip, st, extent, pw, ph):
        ip.obl(st, 'get_lat_lon gets the extent without buffer',
               same_extent(ip, st, extent))
        ip.obl(st, 'get_lat_lon gets the pixel size',
               b_and(eq(pw, t.pw), eq(ph, t.ph)))
        return (Opaque('lon'), Opaque('lat'))

    def save(ip, st, name, values, lat, lon, path):
        ip.obl(st, 'save_multiplier gets latitudes and longitudes',
               b_and(isinstance(lat, Opaque) and lat.name == 'lat',
                     isinstance(lon, Opaque) and lon.name == 'lon'))
        W.log(st, 'save', name, values, path)
    ip.contracts[N + 'clip_array'] = Contract(clip)
    ip.contracts[N + 'get_lat_lon'] = Contract(latlon)
    ip.contracts[N + 'save_multiplier'] = Contract(save)


def mean_cell_size(v, t, fx, fy):
    """half the sum of the mean cell width and the mean cell height"""
    from engine.lib import mean2
    m = [mean2(v.ip, v.st, ArrRec((t.ny, t.nx), 'f', lambda ix, f=f: f(
        zi(ix[0]), zi(ix[1])))) for f in (fx, fy)]
    return mul(Fraction(1, 2), add(*m))


def pixel_contract(W, tile, ds=None):
    """get_pixel_size_grids: positive metric sizes of every cell (C22)"""
    ip, t = W.ip, tile
    fx = z3.Function('cell_width_m', I, I, R)
    fy = z3.Function('cell_height_m', I, I, R)
    i, j = z3.Ints('i!px j!px')
    for f in (fx, fy):
        ip.prover.add_fact(z3.ForAll([i, j], f(i, j) > 0,
                                     patterns=[f(i, j)]), {f.name()})

    def c(ip, st, dataset):
        ip.obl(st, 'get_pixel_size_grids gets the working tile', b_and(
            isinstance(dataset, _DS) and dataset.d['nx'] is t.nx and
            dataset.d['ny'] is t.ny))
        return tuple(st.new(ArrRec((t.ny, t.nx), 'f', lambda ix, f=f: f(
            zi(ix[0]), zi(ix[1])))) for f in (fx, fy))
    ip.contracts[PX + 'get_pixel_size_grids'] = Contract(c)
    return fx, fy


def real_of(a):
    """the number in a value known not to be NaN"""
    return a.v if isinstance(a, FN) else a


def command_line(v, words):
    """argparse with the options (name, text or True for a flag) of the
    command line"""
    ip = v.ip

    def parser(ip, st, a, k):
        seen = {}
        order = []

        def add(ip, st, a, k):
            if not a or set(k) - {'type', 'help', 'required', 'action',
                                  'default', 'dest', 'metavar'} or \
                    not all(isinstance(x, str) for x in a):
                raise Unsupported('add_argument')
            if not all(x.startswith('-') for x in a):
                raise Unsupported('positional argument')
            act = k.get('action', 'store')
            if act not in ('store', 'store_true') or act != 'store' and \
                    'type' in k:
                raise Unsupported('action')
            if 'type' in k and not (k['type'] is
                                    ip.builtins['str']):
                raise Unsupported('type of an argument')
            long_ = [x for x in a if x.startswith('--')] or list(a)
            dest = k.get('dest') or long_[0].lstrip('-').replace('-', '_')
            o = dict(dest=dest, flag=act == 'store_true', default=k.get(
                'default', False if act == 'store_true' else None),
                required=k.get('required', False))
            order.append(o)
            for x in a:
                seen[x] = o

        def parse(ip, st, a, k):
            if a and a[0] is not None or k:
                raise Unsupported('parse_args')
            out = {o['dest']: o['default'] for o in order}
            given = set()
            for n, t in words:
                o = seen.get(n)
                ip.raise_unless(st, o is not None and o['flag'] == (
                    t is True), 'SystemExit')
                out[o['dest']] = t
                given.add(o['dest'])
            for o in order:
                ip.raise_unless(st, not o['required'] or o['dest'] in given,
                                'SystemExit')
            return st.new(InstRec(None, out))
        return NObj('parser', {'add_argument': nat('add_argument', add),
                               'parse_args': nat('parse_args', parse)}.get)
    ip.libs['argparse'] = ModuleVal('argparse', None, {
        'ArgumentParser': nat('ArgumentParser', parser)})
    ip.assumed.add('argparse: an option of the command line has its text, a '
                   'flag is True, others have their defaults; unknown or '
                   'missing required options end the run')


def configuration(get, **attrs):
    """a parser with the options of get(ip, st, (section, option), {})"""
    def section(ip, st, a, k):
        name = a[0]

        def one(ip, st, b, k):
            if len(b) != 1 or k:
                raise Unsupported('option with a default')
            return get(ip, st, (name, b[0]), {})
        return NObj('section', {'get': nat('get', one),
                                '__getitem__': nat('[]', one)}.get)
    return NObj('config', dict(attrs, get=nat('get', get), **{
        '__getitem__': nat('[]', section)}).get)
