"""C31: the land-use raster has the grid of the elevation model and the codes
of the polygons."""
from engine.vc import *
from engine.values import *
from contracts.gis import *

REG = Registry('C31')
# codes up to 511
TYPES = ('GDT_UInt16', 'GDT_Int16', 'GDT_UInt32', 'GDT_Int32', 'GDT_Float32',
         'GDT_Float64')


def layers(W):
    """the ogr module and gdal.RasterizeLayer"""
    ip = W.ip
    g = ip.libs['osgeo.gdal'].attrs
    for n in TYPES + ('GDT_Byte', 'GDT_Int16', 'GDT_UInt32'):
        g[n] = Opaque(n)

    def ropen(ip, st, a, k):
        if len(a) + len(k) > 2 or not a:
            raise Unsupported('ogr.Open')
        path = a[0]

        def layer(ip, st, a, k):
            if k or a and norm(a[0]) != 0:
                raise Unsupported('another layer')
            return NObj('Layer', {'path': path}.get)
        n = nat('GetLayer', layer)
        return NObj('DataSource', {'GetLayer': n, 'GetLayerByIndex': n}.get)
    ogr = ModuleVal('osgeo.ogr', None, {'Open': nat('ogr.Open', ropen)})
    ip.libs['osgeo.ogr'] = ogr
    ip.libs['osgeo'].attrs['ogr'] = ogr

    def burn(ip, st, a, k):
        names = ['dataset', 'bands', 'layer']
        a = list(a)
        while len(a) < 3 and names[len(a)] in k:
            a.append(k.pop(names[len(a)]))
        if len(a) != 3 or set(k) - {'options'} or not isinstance(
                a[0], NObj) or not isinstance(a[2], NObj):
            raise Unsupported('RasterizeLayer')
        W.log(st, 'burn', a[0].d['name'], tuple(ip.concrete_items(
            st, a[1])), a[2].attr('path'), tuple(ip.concrete_items(
                st, k['options'])) if 'options' in k else ())
        return 0
    g['RasterizeLayer'] = nat('gdal.RasterizeLayer', burn)
    ip.assumed.add('gdal.RasterizeLayer with the option ATTRIBUTE=CAT gives '
                   'every cell whose centre is in a polygon the value of '
                   'the attribute CAT of such a polygon and leaves the '
                   'other cells; a new GeoTIFF is zero everywhere and is '
                   'written when the data set is released')


@REG.task('rasterize', ['pre_process.py:rasterize'])
def grid(v):
    W = World(v)
    W.install()
    layers(W)
    ip = v.ip
    nx, ny = v.int('nx', 1), v.int('ny', 1)
    g = tuple(v.real(n) for n in ('x', 'pw', 'y', 'ph'))
    v.pre(b_and(gt(g[1], 0), gt(g[3], 0)))
    W.dataset('dem', nx, ny, g, proj='dem projection', path='dem.img')
    for st, o in v.call(v.fn('pre_process', 'rasterize'), 'use.shp',
                        'out.tif', 'dem.img', None):
        if o[0] == 'raise':
            v.ensure(st, 'no error', False)
            continue
        ev = [e for e in W.events(st) if e.name not in ('open', 'describe')]
        by = {e.name: e for e in ev}
        if sorted(by) != ['burn', 'create', 'geotransform', 'nodata',
                          'projection'] or len(ev) != 5:
            raise Unsupported('calls %r' % ([e.name for e in ev],))
        v.ensure(st, 'the polygons come last', ev[-1].name == 'burn')
        c = by['create'].args
        v.ensure(st, 'the raster file', c[1] == 'out.tif')
        v.ensure(st, 'the columns of the model', eq(c[2], nx))
        v.ensure(st, 'the rows of the model', eq(c[3], ny))
        v.ensure(st, 'one band', eq(c[4] if len(c) > 4 else 1, 1))
        t = c[5] if len(c) > 5 else Opaque('GDT_Byte')
        if not isinstance(t, Opaque):
            raise Unsupported('type')
        v.ensure(st, 'the type holds the codes', t.name in TYPES)
        q = ip.concrete_items(st, by['geotransform'].args[1])
        v.ensure(st, 'georeference of the model', b_and(*[
            eq(a, b) for a, b in zip(q, (g[0], g[1], 0, g[2], 0,
                                         neg(g[3])))]))
        v.ensure(st, 'projection of the model',
                 by['projection'].args[1] == 'dem projection')
        v.ensure(st, 'no data is zero', eq(by['nodata'].args[1], 0))
        b = by['burn'].args
        v.ensure(st, 'all on the new raster', all(
            by[n].args[0] == 'out.tif' for n in (
                'burn', 'geotransform', 'nodata', 'projection')))
        v.ensure(st, 'into the one band', len(b[1]) == 1 and eq(b[1][0], 1))
        v.ensure(st, 'polygons of the land use', b[2] == 'use.shp')
        if not all(isinstance(x, str) for x in b[3]):
            raise Unsupported('options')
        opts = {x.replace(' ', '').upper() for x in b[3]}
        v.ensure(st, 'the codes', 'ATTRIBUTE=CAT' in opts)
        v.ensure(st, 'cells by their centre', opts <= {
            'ATTRIBUTE=CAT', 'ALL_TOUCHED=FALSE', 'ALL_TOUCHED=NO',
            'MERGE_ALG=REPLACE'})
