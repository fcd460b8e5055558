from common import *
import os
import tiles
from tiles import Tile
import all_multipliers as am
from osgeo import gdal

DT = {'b': np.uint8, 'h': np.int16, 'i': np.int32, 'f': np.float32,
      'd': np.float64}


def elevations(r, kind, ny, nx):
    if kind == 'b':
        a = r.randint(1, 256, (ny, nx))
    elif kind == 'h':
        a = r.randint(-400, 9000, (ny, nx))
    elif kind == 'i':
        a = r.randint(-2 ** 30, 2 ** 30, (ny, nx))
        if r.rand() < .5:
            a = a // 2 ** 18
    else:
        a = r.uniform(-40, 2300, (ny, nx))
    return np.asarray(a, DT[kind])


def cut(h):
    r = h.rng
    for n in range(600 if h.thorough else 150):
        if not h.more():
            return
        kind = 'fihdb'[n % 5]
        pw, ph = [float(r.choice([.3, .25, .1, 1 / 3600., .00027777778,
                                  .0025])) for _ in 'xy']
        nx, ny = int(r.randint(1, 40)), int(r.randint(1, 40))
        w, hh = int(r.randint(1, nx + 1)), int(r.randint(1, ny + 1))
        ox, oy = int(r.randint(0, nx - w + 1)), int(r.randint(
            0, ny - hh + 1))
        t = Tile(ny, nx, pw, ph, float(r.choice([112., 139.9987, -3.2])),
                 float(r.choice([-9.5, -44.123, 11.])), (oy, ox, hh, w))
        data = elevations(r, kind, ny, nx)
        nodata = None
        if n % 3 == 0:
            nodata = {'b': 255, 'h': -999, 'i': -9999}.get(kind, -9999.)
            data[r.uniform(size=data.shape) < .2] = nodata
        inp = dict(t.desc, type=str(data.dtype), nodata=nodata)
        h.case(inp)
        d = tiles.folder()
        try:
            dem = tiles.raster(d + '/dem.img', t, data, kind, nodata)
            am.output_folder = d
            m = am.Multipliers(dem, dem)
            _, err = h.call(m.open_dem)
            if err:
                return h.fail('open_dem raises ' + err, inp)
            out = d + '/cut.img'
            _, err = h.call(m.clip_dataset, list(t.extent), out)
            if err:
                return h.fail('clip_dataset raises ' + err, inp)
            ds = gdal.Open(out)
            a, g, p = ds.ReadAsArray(), ds.GetGeoTransform(), \
                ds.GetProjection()
            src = gdal.Open(dem)
            q = src.GetProjection()
            ds = src = None
            want = t.cut(data)
            if a.shape != want.shape:
                return h.fail('another number of cells', dict(
                    inp, shape=a.shape, expected=want.shape))
            keep = want.astype(np.int64 if kind in 'bhi' else np.float32)
            known = np.ones(want.shape, bool) if nodata is None else \
                want != nodata
            bad = known & (a != keep)
            if bad.any():
                i, j = np.argwhere(bad)[0]
                return h.fail('another elevation', dict(
                    inp, row=i, column=j, got=a[i, j], expected=keep[i, j]))
            if not np.allclose(g, (t.extent[0], pw, 0, t.extent[1], 0, -ph),
                               rtol=0, atol=1e-9):
                return h.fail('another georeference', dict(inp, got=g))
            if p != q:
                return h.fail('another projection', dict(inp, got=p))
        finally:
            tiles.drop(d)


h_rule = 'random windows of random elevation models of five data types'
main(cut)
