from common import *
import os
import tiles
from tiles import Tile
from osgeo import gdal
from shielding import shield_mult as sm


def run(h):
    r = h.rng
    h.rule = 'random land-cover tiles and tables, with and without no-data'
    for n in range(500 if h.thorough else 120):
        if not h.more():
            return
        ny, nx = int(r.randint(1, 8)), int(r.randint(1, 8))
        t = Tile(ny, nx, .001, .0015, 140. + n, -17.5)
        kind = 'iifd'[n % 4]
        cats = [int(c) for c in r.choice(np.arange(1, 30), 6, False)]
        rows = [(c, float(r.choice([0., 45., 62.5, 85., 100., 10.,
                                    110.])), .02)
                for c in cats[:r.randint(1, 6)]]
        if n % 3 == 0:
            # codes of settlement and land use, up to 511
            cats = [int(c) for c in r.choice(np.arange(100, 512), 6, False)]
            rows = [(c,) + q[1:] for c, q in zip(cats, rows)]
        # codes with the same last byte or decimals, or one beside
        near = [c + int(r.choice([256, 512, 1, -1, 100, 65536]))
                for c in cats]
        if n % 3 == 0:
            near += [c % 256 for c in cats] + [c % 100 for c in cats]
        cls = r.choice(cats + [0, 77] + near[::1 + n % 2], (ny, nx))
        if n % 4 != 2 and n % 7 == 2:
            # codes below zero, with and without a row
            neg = [-1, -5, -98, -100, -128]
            cls = np.where(r.uniform(size=cls.shape) < .3,
                           r.choice(neg, cls.shape), cls)
            rows = rows + [(-5, 40., .02)]
        nodata = (None, -9999, 0, 255, cats[0])[n % 5]
        nod = np.zeros(cls.shape, bool)
        if nodata is not None:
            cls = np.where(r.uniform(size=cls.shape) < .2, nodata, cls)
            nod = cls == nodata
        inp = dict(t.desc, classes=cls, kind=kind, nodata=nodata, table=rows)
        h.case(inp)
        d = tiles.folder()
        img = tiles.raster(d + '/e1.s2.img', t, cls, kind, nodata)
        tiles.table(d + '/t.csv', rows)
        out, err = h.call(sm.terrain_class2ms_orig, img)
        if err:
            return h.fail('terrain_class2ms_orig raises ' + err, inp)
        want = np.ones(cls.shape)
        for c, s, z in rows:
            want[cls == c] = s / 100.
        want[nod] = np.nan
        if os.path.abspath(out) != os.path.abspath(
                d + '/shielding/e1.s2_ms.img'):
            return h.fail('file name ' + out, inp)
        ds = gdal.Open(out)
        got = ds.ReadAsArray()
        if not close(got, want, 1e-6):
            return h.fail('initial factors', dict(inp, got=got, want=want))
        if not np.allclose(ds.GetGeoTransform(),
                           (t.x, t.pw, 0, t.y, 0, -t.ph)):
            return h.fail('georeference', dict(
                inp, got=ds.GetGeoTransform()))
        a, b = tiles.osr.SpatialReference(), tiles.osr.SpatialReference()
        a.ImportFromWkt(ds.GetProjection() or tiles.WKT)
        b.ImportFromWkt(gdal.Open(img).GetProjection())
        if not ds.GetProjection() or not a.IsSame(b):
            return h.fail('projection', dict(inp, got=ds.GetProjection()))
        back = gdal.Open(img).ReadAsArray()
        if not np.array_equal(back, cls.astype(back.dtype)):
            return h.fail('the land-cover raster is changed', inp)
        ds = None
        tiles.drop(d)


main(run)
