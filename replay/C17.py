from common import *
import os
import tiles
from tiles import Tile
import grids
import all_multipliers as am
from osgeo import gdal
from utilities.nctools import clip_array, get_lat_lon


def direct(h):
    r = h.rng
    for n in range(1500 if h.thorough else 400):
        if not h.more():
            return
        ny, nx = int(r.randint(1, 40)), int(r.randint(1, 40))
        if n % 7 == 0:
            ny, nx = int(r.randint(1, 6000)), int(r.randint(1, 6000))
        hh, w = int(r.randint(1, ny + 1)), int(r.randint(1, nx + 1))
        oy, ox = int(r.randint(0, ny - hh + 1)), int(r.randint(
            0, nx - w + 1))
        pw, ph = [float(r.choice([.00027777778, 1 / 3600., .001, .1, 1 / 3.,
                                  1., .0025, r.uniform(1e-4, 2)]))
                  for _ in 'xy']
        t = Tile(ny, nx, pw, ph, float(r.choice(
            [112.0, -3.25, 0., 140.12345678, r.uniform(-180, 180)])),
            float(r.choice([-8., -44.5, 12., r.uniform(-80, 80)])),
            (oy, ox, hh, w))
        h.case(t.desc)
        # row and column number of every cell
        data = np.add.outer(np.arange(ny) * 10000., np.arange(nx))
        c, err = h.call(clip_array, data, t.x, -t.y, pw, ph, t.extent)
        if err:
            return h.fail('clip_array raises ' + err, t.desc)
        want = t.cut(data)
        if np.shape(c) != want.shape or not np.array_equal(c, want):
            return h.fail('clip_array returns other cells', dict(
                t.desc, shape=np.shape(c), first=np.ravel(c)[:3]))
        res, err = h.call(get_lat_lon, t.extent, pw, ph)
        if err:
            return h.fail('get_lat_lon raises ' + err, t.desc)
        lon, lat = res
        if len(lon) != w or len(lat) != hh:
            return h.fail('%d longitudes, %d latitudes' % (
                len(lon), len(lat)), t.desc)
        if not (np.allclose(lon, t.lon(), rtol=0, atol=1e-3 * pw) and
                np.allclose(lat, t.lat(), rtol=0, atol=1e-3 * ph)):
            return h.fail('coordinates are not cell centres', dict(
                t.desc, lon=lon[:4], lat=lat[:4]))


def whole(h):
    """tile grid, cut-out and clipping together"""
    r = h.rng
    for n in range(40 if h.thorough else 12):
        if not h.more():
            return
        pw, ph = [float(r.choice([.3, .25, .1, .7, .2999])) for _ in 'xy']
        nx, ny = int(r.randint(2, 26)), int(r.randint(2, 26))
        t = Tile(ny, nx, pw, ph, float(r.choice([112., 139.9987])), -9.5)
        up = float(r.choice([0., .3, .75, 1.2]))
        kind = 'if'[n % 2]
        inp = dict(t.desc, upwind=up, kind=kind)
        h.case(inp)
        d = tiles.folder()
        data = 1 + np.add.outer(np.arange(ny) * 100., np.arange(nx))
        dem = tiles.raster(d + '/dem.img', t, data, kind)
        tg, err = h.call(am.TileGrid, up, dem)
        if err:
            return h.fail('TileGrid raises ' + err, inp)
        work, err = h.call(am.get_tiles, tg)
        am.output_folder = d
        m = am.Multipliers(dem, dem)
        _, err = h.call(m.open_dem)
        if err:
            return h.fail('open_dem raises ' + err, inp)
        for k, info in enumerate(work):
            x1, x2, y1, y2 = [int(a) for a in tg.get_gridlimit(k)]
            f, err = h.call(m.cut_dem, info)
            inp2 = dict(inp, tile=k, info=info)
            if err:
                return h.fail('cut_dem raises ' + err, inp2)
            ds = gdal.Open(f)
            a = ds.ReadAsArray()
            g = ds.GetGeoTransform()
            ds = None
            c, err = h.call(clip_array, a, g[0], -g[3], g[1], -g[5],
                            info[2])
            want = data[y1:y2, x1:x2]
            if err or np.shape(c) != want.shape or \
                    not np.array_equal(c, want):
                return h.fail('the clipped cut-out is not the tile', dict(
                    inp2, error=err, got=c, want=want))
            lon, lat = get_lat_lon(info[2], g[1], -g[5])
            if not (np.allclose(lon, t.x + (np.arange(x1, x2) + .5) * pw) and
                    np.allclose(lat, t.y - (np.arange(y1, y2) + .5) * ph)):
                return h.fail('coordinates of the tile', inp2)
        tiles.drop(d)


def run(h):
    h.rule = 'random windows of random rasters; tile grids cut and clipped ' \
             'again'
    direct(h)
    whole(h)


main(run)
