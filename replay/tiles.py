"""Working tiles on disk and the multiplier files computed from them."""
import glob
import os
import shutil
import subprocess
import tempfile
import numpy as np
from osgeo import gdal, osr
from netCDF4 import Dataset
from common import HarnessError, quiet

gdal.UseExceptions()
gdal.PushErrorHandler('CPLQuietErrorHandler')
_real = subprocess.check_output


def _stub(cmd, *a, **k):
    if list(cmd)[:1] == ['git']:
        return b'v0'
    return _real(cmd, *a, **k)


subprocess.check_output = _stub
from utilities.config import configparser as config
from utilities.get_pixel_size_grid import get_pixel_size_grids
ROOT = tempfile.mkdtemp(prefix='tile_', dir=os.getcwd())
DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']
GT = {'b': gdal.GDT_Byte, 'i': gdal.GDT_Int32, 'h': gdal.GDT_Int16,
      'f': gdal.GDT_Float32, 'd': gdal.GDT_Float64}
_srs = osr.SpatialReference()
_srs.ImportFromEPSG(4326)
WKT = _srs.ExportToWkt()
_n = [0]


class Tile(object):
    """a raster with the window of it that is the tile itself"""

    def __init__(self, ny, nx, pw, ph, x=145.0, y=-17.0, win=None):
        self.ny, self.nx, self.pw, self.ph = ny, nx, pw, ph
        self.x, self.y = x, y
        oy, ox, h, w = win or (0, 0, ny, nx)
        self.win = (oy, ox, h, w)
        self.extent = (x + ox * pw, y - oy * ph, x + (ox + w) * pw,
                       y - (oy + h) * ph)
        self.desc = {'rows': ny, 'cols': nx, 'pixel': [pw, ph],
                     'origin': [x, y], 'window': [oy, ox, h, w]}

    def cut(self, a):
        oy, ox, h, w = self.win
        return a[oy:oy + h, ox:ox + w]

    def lat(self):
        oy, ox, h, w = self.win
        return self.y - (oy + np.arange(h) + .5) * self.ph

    def lon(self):
        oy, ox, h, w = self.win
        return self.x + (ox + np.arange(w) + .5) * self.pw


def folder():
    """fresh output folder"""
    _n[0] += 1
    d = os.path.join(ROOT, 'o%d' % _n[0])
    for s in ('terrain', 'shielding', 'topographic', 'M3', 'M3_max'):
        os.makedirs(os.path.join(d, s))
    return d


def drop(d):
    shutil.rmtree(d, ignore_errors=True)


def raster(path, t, data, kind='f', nodata=None, fmt='HFA'):
    data = np.asarray(data)
    ds = gdal.GetDriverByName(fmt).Create(path, t.nx, t.ny, 1, GT[kind])
    ds.SetGeoTransform((t.x, t.pw, 0, t.y, 0, -t.ph))
    ds.SetProjection(WKT)
    ds.GetRasterBand(1).WriteArray(data)
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(nodata)
    ds = None
    return path


def cell_size(path):
    ds = gdal.Open(path)
    with quiet():
        x, y = get_pixel_size_grids(ds)
    return 0.5 * (np.mean(x) + np.mean(y)), x, y


def tuned(g, ny, nx, ratio=1., y=-17., win=None):
    """a tile with this mean cell size, to a millionth"""
    d, pw = folder(), g / 1.1e5
    for k in range(6):
        t = Tile(ny, nx, pw, pw * ratio, 145., y, win)
        got = cell_size(raster(d + '/t%d.img' % k, t, np.ones((ny, nx))))[0]
        if abs(got / g - 1) < 1e-6:
            break
        pw *= g / got
    else:
        raise HarnessError('no tile of cell size %r' % g)
    drop(d)
    return t


def table(path, rows):
    """terrain table: rows of (category, shielding per cent, roughness)"""
    with open(path, 'w') as f:
        f.write('# terrain classes\n')
        f.write('CATEGORY,DESCRIPTION,SHIELDING,ROUGHNESS_LENGTH_m\n')
        for c, s, z in rows:
            f.write('%d,class %d,%r,%r\n' % (c, c, s, z))
    config.set('inputValues', 'terrain_table', path)


def outputs(d, sub):
    """{file name: (name of the multiplier, values, lat, lon)}"""
    res = {}
    for f in sorted(glob.glob(os.path.join(d, sub, '**'), recursive=True)):
        if os.path.isdir(f):
            continue
        if not f.endswith('.nc'):
            res[os.path.relpath(f, os.path.join(d, sub))] = None
            continue
        nc = Dataset(f)
        names = [n for n in nc.variables if n not in ('lat', 'lon', 'crs')]
        v = nc.variables[names[0]][:]
        res[os.path.relpath(f, os.path.join(d, sub))] = (
            names[0], np.ma.filled(v.astype(float), np.nan),
            np.asarray(nc.variables['lat'][:]),
            np.asarray(nc.variables['lon'][:]))
        nc.close()
    return res


def compare(h, t, d, sub, want, inp, what, tol=2e-5, weak=None):
    """the files below sub are exactly want: {file: (name, full array)}"""
    got = outputs(d, sub)
    if sorted(got) != sorted(want):
        return h.fail('%s: files %s instead of %s' % (
            what, sorted(got), sorted(want)), inp)
    for f, (name, full) in want.items():
        n, v, lat, lon = got[f]
        w = t.cut(full)
        if n != name:
            return h.fail('%s: variable %s' % (what, n), dict(inp, file=f))
        if not (len(lat) == w.shape[0] and len(lon) == w.shape[1] and
                np.allclose(lat, t.lat(), atol=t.ph * .01) and
                np.allclose(lon, t.lon(), atol=t.pw * .01)):
            return h.fail('%s: coordinates' % what,
                          dict(inp, file=f, lat=lat, lon=lon))
        if v.shape != w.shape:
            return h.fail('%s: shape %s' % (what, v.shape),
                          dict(inp, file=f))
        ok = (np.isnan(v) & np.isnan(w)) | (
            np.abs(v - w) <= tol * np.maximum(1, np.abs(w)))
        if weak is not None:
            ok = ok | t.cut(weak(f))
        if not ok.all():
            i, j = [int(x[0]) for x in np.where(~ok)]
            return h.fail('%s: cell (%d, %d) of the tile holds %r instead '
                          'of %r' % (what, i, j, float(v[i, j]),
                                     float(w[i, j])), dict(inp, file=f))
    return None
