from common import *
import os
import grids
import tiles
from tiles import Tile, DIRS
from terrain import terrain_mult as tm
from shielding import shield_mult as sm

_real = tm.get_pixel_size_grids


class sizes(object):
    """every cell is m metres wide and high"""

    def __init__(self, m):
        self.m = m

    def __call__(self, ds):
        shape = ds.RasterYSize, ds.RasterXSize
        return np.full(shape, self.m), np.full(shape, self.m)

    def __enter__(self):
        tm.get_pixel_size_grids = sm.get_pixel_size_grids = self

    def __exit__(self, *a):
        tm.get_pixel_size_grids = sm.get_pixel_size_grids = _real


def computed(h, t, cls, dem, nodata):
    """{file: values} for the tile, or an error"""
    d = tiles.folder()
    cwd = os.getcwd()
    try:
        img = tiles.raster(d + '/t.img', t, cls, 'i', 0)
        el = tiles.raster(d + '/t_dem.img', t, dem, 'f', nodata)
        _, err = h.call(tm.terrain, img, t.extent)
        if not err:
            _, err = h.call(sm.shield, img, el, t.extent)
        if err:
            return None, err
        out = {}
        for sub in ('terrain', 'shielding'):
            for f, x in tiles.outputs(d, sub).items():
                if x is not None:
                    out[sub + '/' + f] = x[1]
        return out, None
    finally:
        os.chdir(cwd)
        tiles.drop(d)


def one(h, nx, ny, pw, ph, m, up, few, nodata):
    r = h.rng
    g = grids.Case(h, nx, ny, pw, ph, 145., -17., up)
    if g.err:
        return
    cls = r.choice([1, 2, 5, 9, 7] if few else [1, 2, 5, 9], (ny, nx))
    if r.uniform() < .6:    # land of one class over several tiles
        q = int(r.randint(3, 14))
        big = r.choice([1, 2, 5, 9, 7] if few else [1, 2, 9, 9],
                       (ny // q + 1, nx // q + 1))
        cls = np.kron(big, np.ones((q, q), int))[:ny, :nx]
        cls[r.randint(ny), r.randint(nx)] = 5
    dem = r.uniform(0, m * .3, (ny, nx))
    if r.uniform() < .5:
        dem = dem * .1 + np.add.outer(np.arange(ny), np.arange(nx)) * m * .1
    dem = dem.astype(np.float32)
    if nodata is not None:
        dem[r.uniform(size=dem.shape) < .05] = nodata
    inp = dict(g.inp, metres=m, classes=cls, dem=dem, nodata=nodata)
    with sizes(float(m)):
        whole, err = computed(h, Tile(ny, nx, pw, ph), cls, dem, nodata)
        if err:
            return h.fail('the whole raster: ' + err, inp)
        for k in range(g.num):
            own, e1 = h.call(g.tg.get_gridlimit, k)
            wide, e2 = h.call(g.tg.get_gridlimit_buffer, k)
            if e1 or e2:
                return h.fail('limits of a tile: %s' % (e1 or e2), inp)
            x1, x2, y1, y2 = [int(q) for q in own]
            u1, u2, w1, w2 = [int(q) for q in wide]
            t = Tile(w2 - w1, u2 - u1, pw, ph, 145. + u1 * pw, -17. - w1 *
                     ph, (y1 - w1, x1 - u1, y2 - y1, x2 - x1))
            if (cls[w1:w2, u1:u2] == 7).all():
                continue
            part, err = computed(h, t, cls[w1:w2, u1:u2],
                                 dem[w1:w2, u1:u2], nodata)
            what = dict(inp, tile=k, window=[x1, x2, y1, y2],
                        buffered=[u1, u2, w1, w2])
            if err:
                return h.fail('a tile: ' + err, what)
            if sorted(part) != sorted(whole):
                return h.fail('other files: %s' % sorted(part), what)
            for f in whole:
                a, b = whole[f][y1:y2, x1:x2], part[f]
                ok = a.shape == b.shape and ((np.isnan(a) & np.isnan(b)) | (
                    np.abs(a - b) <= 2e-5))
                if not np.all(ok):
                    return h.fail('%s differs between the tile and the whole '
                                  'raster' % f, dict(what, whole=a, tile=b))


def run(h):
    h.rule = 'terrain and shielding files of a whole raster and of its ' \
             'tiles with buffer, in metric cells of 20 to 400 m'
    r = h.rng
    rows = [(1, 10., 2.), (2, 50., .2), (5, 100., .002), (9, 80., .02)]
    d = tiles.folder()
    tiles.table(d + '/table.csv', rows)
    for n in range(200 if h.thorough else 24):
        if not h.more():
            break
        m = int(r.choice([20, 45, 60, 90, 100, 140, 250, 400]))
        step = int(r.randint(3, 9))         # cells of a tile
        # the reach of the averages in whole cells
        b = max(int(np.around(500. / m)) + int(np.around(200. / m)),
                100 // m, 1) + int(r.choice([0, 0, 1, 3]))
        ph = pw = 1. / (step - .5)
        if n % 3 == 2:
            ph = 1. / (step + 1.5)
        nx, ny = [int(r.randint(1, 4 * step)) for _ in 'xy']
        if nx * ny < 2:
            continue
        one(h, nx, ny, pw, ph, m, (b + .5) * max(pw, ph), n % 2,
            (None, -9999.)[n % 2])
    tiles.drop(d)


main(run)
