"""Rasters of many sizes and the tile grids the code makes of them."""
import os
import numpy as np
from osgeo import gdal
import tiles                                    # noqa: F401
import all_multipliers as am
from common import HarnessError

_n = [0]


def make(nx, ny, pw, ph, x, y):
    _n[0] += 1
    p = os.path.abspath('grid%d.tif' % _n[0])
    ds = gdal.GetDriverByName('GTiff').Create(
        p, nx, ny, 1, gdal.GDT_Byte, options=['SPARSE_OK=TRUE'])
    ds.SetGeoTransform((x, pw, 0, y, 0, -ph))
    ds.SetProjection(tiles.WKT)
    ds = None
    return p


class Case(object):
    def __init__(self, h, nx, ny, pw, ph, x, y, up):
        self.nx, self.ny, self.pw, self.ph = nx, ny, pw, ph
        self.x, self.y, self.up = x, y, up
        self.inp = {'cols': nx, 'rows': ny, 'pixel': [pw, ph],
                    'origin': [x, y], 'upwind': up}
        h.case(self.inp)
        p = make(nx, ny, pw, ph, x, y)
        self.tg, self.err = h.call(am.TileGrid, up, p)
        os.remove(p)
        if self.err:
            h.fail('TileGrid raises ' + self.err, self.inp)
            return
        for a in ('num_tiles', 'get_gridlimit', 'get_gridlimit_buffer'):
            if not hasattr(self.tg, a):
                raise HarnessError('TileGrid.%s is gone' % a)
        self.num = int(self.tg.num_tiles)

    def own(self, h):
        """the windows without buffer, as integers"""
        res = []
        for k in range(self.num):
            r, err = h.call(self.tg.get_gridlimit, k)
            if err:
                h.fail('get_gridlimit raises ' + err,
                       dict(self.inp, tile=k))
                return None
            res.append(tuple(int(a) for a in r))
        return res


def cases(h):
    r = h.rng
    px = [1.0, 0.5, 0.3, 0.25, 0.1, 0.2999, 1.7, 2.0, 1 / 3., 0.7,
          0.0333333333, 1.0 / 12]
    for n in range(400 if h.thorough else 110):
        if not h.more():
            return
        pw, ph = float(r.choice(px)), float(r.choice(px))
        if n % 3 == 0:
            ph = pw
        nx = int(r.choice([1, 2, 3, int(r.randint(1, 60)), 37, 12, 10, 9]))
        ny = int(r.choice([1, 2, 3, int(r.randint(1, 60)), 36, 20, 30, 7]))
        x = float(r.choice([112., 140.75, -3.5, 0.0, 95.123456789, -179.5]))
        y = float(r.choice([-8., -10.25, -23.987654321, -0.5, 3.0]))
        up = float(r.choice([0., 0.01, 0.05, 0.26, 1.0, 3.3, 100.,
                             float(r.uniform(0, 2))]))
        if n % 8 == 5:
            # a little less than a whole number of cells
            up = (1 + n % 4) * (pw if n % 16 == 5 else ph) - \
                float(r.choice([1e-3, 3e-3, 1e-2])) * min(pw, ph)
        yield nx, ny, pw, ph, x, y, up
    for nx, ny, pw in ((7200, 5400, 1 / 3600.), (12345, 3601, 0.0002777777),
                       (4001, 8000, 0.0005), (20000, 3, 0.0083333),
                       (3601, 3600, 1 / 3600.), (3, 24002, 1 / 24000.),
                       (30011, 2, 1 / 30000.), (16800001, 1, 1e-5),
                       (2, 40003, 1 / 24000.)):
        if h.more():
            yield nx, ny, pw, pw, 112.0001388, -9.9998611, 0.005
            yield nx, ny, pw, pw, 140.0, -10.0, 0.0111
