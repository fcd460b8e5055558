from common import *
import os
import shutil
import tempfile
import fiona
from osgeo import gdal, osr
from shapely.geometry import Point, Polygon, box, mapping
with quiet():
    import pre_process as pp
for _h in list(pp.logger.handlers):
    if not isinstance(_h, logging.FileHandler):
        pp.logger.removeHandler(_h)
gdal.UseExceptions()
ROOT = tempfile.mkdtemp(prefix='grid_', dir=os.getcwd())


def layer(path, polys, codes):
    with fiona.open(path, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon', 'properties': {
                        'ID': 'int', 'CAT': 'int', 'SIZE': 'int'}}) as o:
        for i, (p, c) in enumerate(zip(polys, codes)):
            o.write({'geometry': mapping(p), 'properties': {
                'ID': i + 600, 'CAT': c, 'SIZE': 5}})


def model(path, nx, ny, g, r, fmt):
    d = gdal.GetDriverByName(fmt).Create(path, nx, ny, 1, gdal.GDT_Float32)
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    d.SetProjection(s.ExportToWkt())
    d.SetGeoTransform(g)
    d.GetRasterBand(1).WriteArray(r.uniform(-5, 900, (ny, nx)))
    d = None


def grids(h):
    r = h.rng
    for n in range(200 if h.thorough else 50):
        if not h.more():
            return
        d = os.path.join(ROOT, 'g%d' % n)
        os.makedirs(d)
        try:
            nx, ny = int(r.randint(1, 30)), int(r.randint(1, 30))
            g = (float(r.uniform(112, 150)), float(r.choice([
                .1, .01, .0025, 1 / 3600.])), 0, float(r.uniform(-44, -10)),
                0, -float(r.choice([.1, .01, .002])))
            w, t = nx * g[1], -ny * g[5]
            top = g[3]
            if n % 9 == 7:
                # from south to north
                g = g[:3] + (g[3] - t, 0, -g[5])
            polys, codes = [], []
            for _ in range(int(r.randint(0, 15))):
                x = g[0] + r.uniform(-.2, 1) * w
                y = top - r.uniform(0, 1.2) * t
                if r.rand() < .6:
                    p = box(x, y, x + r.uniform(.02, .6) * w,
                            y + r.uniform(.02, .6) * t)
                else:
                    p = Polygon([(x, y), (x + .4 * w, y + .1 * t),
                                 (x + .1 * w, y + .5 * t)])
                polys.append(p)
                codes.append(int(r.choice([0, 5, 111, 255, 256, 308, 411,
                                           511])))
            model(d + '/dem.img', nx, ny, g, r, 'HFA')
            layer(d + '/use.shp', polys, codes)
            inp = dict(rows=ny, columns=nx, geotransform=g, codes=codes,
                       polygons=[p.wkt for p in polys][:4])
            h.case(inp)
            out = d + '/use.tif'
            _, err = h.call(pp.rasterize, d + '/use.shp', out,
                            d + '/dem.img', None)
            if err:
                return h.fail('rasterize raises ' + err, inp)
            ds = gdal.Open(out)
            a, q, nd = ds.ReadAsArray(), ds.GetGeoTransform(), \
                ds.GetRasterBand(1).GetNoDataValue()
            wkt = ds.GetProjection()
            s = osr.SpatialReference(wkt)
            ds = None
            if a.shape != (ny, nx):
                return h.fail('another number of cells', dict(
                    inp, shape=a.shape))
            if not np.allclose(q, g, rtol=0, atol=1e-9):
                return h.fail('another georeference', dict(inp, got=q))
            if s.GetAuthorityCode(None) != '4326':
                return h.fail('another projection', dict(inp, got=wkt[:80]))
            if nd != 0:
                return h.fail('no data is not zero', dict(inp, got=nd))
            eps = 1e-6 * g[1]
            for i in range(ny):
                for j in range(nx):
                    c = Point(g[0] + (j + .5) * g[1], g[3] + (i + .5) * g[5])
                    near = [k for k, p in enumerate(polys)
                            if p.distance(c) <= eps]
                    if any(polys[k].boundary.distance(c) <= eps
                           for k in near):
                        continue
                    if int(a[i, j]) not in (
                            [codes[k] for k in near] or [0]):
                        return h.fail('another code', dict(
                            inp, row=i, column=j, got=int(a[i, j]),
                            expected=[codes[k] for k in near] or [0]))
        finally:
            shutil.rmtree(d, ignore_errors=True)


h_rule = 'random elevation grids and random land-use polygons, codes 0 to 511'
try:
    main(grids)
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
