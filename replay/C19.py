from common import *
import os
import shutil
import tiles
from osgeo import gdal
from utilities.convert import Converter
from utilities.nctools import save_multiplier

ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
TYPES = [('shielding', 'Ms'), ('terrain', 'Mz'), ('topographic', 'Mt')]
NONE = -9999


def missing(a):
    return np.isnan(a) | (np.abs(a - NONE) < .5)


def make(r, d, name, ny, nx, k):
    """files of a tile; the expected product of every direction"""
    lat = -20. - .01 * (np.arange(ny) + .5)
    lon = 140. + .01 * (np.arange(nx) + .5)
    out, lost, gone = {}, {}, []
    files = [(f, u, dr) for f, u in TYPES for dr in ORDER]
    if k % 3 == 0:
        drop = {files[i] for i in r.permutation(24)[:r.randint(1, 24)]}
    elif k % 6 == 1:
        drop = {('shielding', 'Ms', x) for x in ORDER[:k % 8 + 1]}
    else:
        drop = set()
    for f, u, dr in files:
        a = r.uniform(.5, 1.7 if k % 5 else 4., (ny, nx)).astype(
            np.float32)
        if k % 2:
            a[r.rand(ny, nx) < .2] = 1.
        if k % 4 == 1:
            a[r.rand(ny, nx) < .15] = NONE
        if k % 4 == 2:
            a[r.rand(ny, nx) < .15] = np.nan
        if k % 8 == 3:
            a[0] = NONE
        if k % 5 == 2:
            a[r.rand(ny, nx) < .1] = 0.
        if k % 6 == 4 and u == 'Mz' and (k % 12 == 4 or dr == 'n'):
            # no valid cell at all, as over unclassified land cover
            a[:] = NONE if k % 24 == 16 else np.nan
        if (f, u, dr) in drop:
            gone.append('%s_%s' % (u.lower(), dr))
            a = np.ones((ny, nx), np.float32)
        else:
            with quiet():
                save_multiplier(u, a, lat, lon, os.path.join(
                    d, f, '%s_%s_%s.nc' % (name, u.lower(), dr)))
        out[dr] = out.get(dr, 1.) * np.where(missing(a), 1, a).astype(float)
        lost[dr] = lost.get(dr, False) | missing(a)
    return out, lost, gone


def georef(h, ds, ny, nx, desc):
    if (ds.RasterYSize, ds.RasterXSize) != (ny, nx):
        return h.fail('size %dx%d' % (ds.RasterYSize, ds.RasterXSize), desc)
    if not close(ds.GetGeoTransform(), (140., .01, 0, -20., 0, -.01), 1e-7):
        return h.fail('georeference', dict(desc, got=ds.GetGeoTransform()))
    if '4326' not in ds.GetProjection():
        return h.fail('projection', desc)


def combined(h):
    r = h.rng
    for k in range(200 if h.thorough else 24):
        if not h.more():
            return
        d = tiles.folder()
        want = {}
        for t in range(1 + k % 2):
            ny, nx = (int(r.randint(2, 9)), int(r.randint(2, 9)))
            if k % 4 == 2:
                nx = ny
            name = ['e140.0s20.0', 'x1'][t]
            want[name] = (ny, nx) + make(r, d, name, ny, nx, k)
        desc = {'tiles': {n: dict(rows=w[0], columns=w[1], missing=w[4])
                          for n, w in want.items()}, 'case': k}
        h.case(desc)
        c, err = h.call(Converter, list(want), d)
        res = None
        if not err:
            res, err = h.call(c.run)
        if err:
            return h.fail('conversion raises ' + err, desc)
        for q, sub in zip(res, ('M3', 'M3_max')):
            if list(q) != [os.path.join(d, sub, n + '.tif') for n in want]:
                return h.fail('files returned', dict(desc, got=list(q)))
        for name, (ny, nx, out, lost, gone) in want.items():
            ds = gdal.Open(os.path.join(d, 'M3', name + '.tif'))
            georef(h, ds, ny, nx, desc)
            if ds.RasterCount != 8:
                return h.fail('%d bands' % ds.RasterCount, desc)
            bands = []
            for b, dr in enumerate(ORDER, 1):
                band = ds.GetRasterBand(b)
                a = band.ReadAsArray()
                bands.append(a)
                if band.GetDescription() != dr:
                    return h.fail('band %d is labelled %r' % (
                        b, band.GetDescription()), desc)
                nd = band.GetNoDataValue()
                bad = missing(a) | (a == nd if nd is not None else False)
                if not np.array_equal(bad, lost[dr]):
                    i, j = np.argwhere(bad != lost[dr])[0]
                    return h.fail('direction %s: missing values' % dr, dict(
                        desc, tile=name, row=i, column=j, value=a[i, j],
                        expected='missing' if lost[dr][i, j] else
                        out[dr][i, j]))
                e = np.where(lost[dr], 0, np.where(bad, 0, a) - out[dr])
                e = np.abs(e) > 1e-6 * np.maximum(1, np.abs(out[dr]))
                if e.any():
                    i, j = np.argwhere(e)[0]
                    return h.fail('direction %s: not the product' % dr, dict(
                        desc, tile=name, row=i, column=j, value=a[i, j],
                        expected=out[dr][i, j]))
            m = gdal.Open(os.path.join(d, 'M3_max', name + '.tif'))
            georef(h, m, ny, nx, desc)
            if m.RasterCount != 1:
                return h.fail('the maximum raster has %d bands' %
                              m.RasterCount, desc)
            a = m.GetRasterBand(1).ReadAsArray()
            s = np.array(bands)
            nan = np.isnan(s).any(axis=0)
            e = s.max(axis=0)
            bad = ~nan & ~(np.abs(a - e) < 1e-6 * np.maximum(
                1, np.abs(e)))
            if bad.any():
                i, j = np.argwhere(bad)[0]
                return h.fail('not the largest of the bands', dict(
                    desc, tile=name, row=i, column=j, value=a[i, j],
                    bands=s[:, i, j]))
            ds = m = None
        tiles.drop(d)


try:
    main(combined)
finally:
    shutil.rmtree(tiles.ROOT, ignore_errors=True)
