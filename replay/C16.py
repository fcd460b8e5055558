from common import *
import tiles
from tiles import Tile, DIRS
from C15x import want_lines
from topographic import topo_mult as tm
from topographic import multiplier_calc


def reduce_(m):
    return np.where(m >= 1.4, m * .9, np.where(
        m > 1, m * (1.25 - .25 * m), m))


def expected(t, z, nod, cell, d):
    """full-tile field of one direction, and cells too close to a threshold
    for single precision"""
    ny, nx = z.shape
    zz = np.where(nod, 0., z)
    m = np.ones((ny, nx))
    for line in want_lines(ny, nx, d):
        rr, cc = zip(*line)
        v = multiplier_calc.multiplier_calc(
            zz[list(rr), list(cc)], cell * (2 ** .5 if len(d) == 2 else 1))
        m[list(rr), list(cc)] = np.asarray(v, float).reshape(-1)
    m = reduce_(m)
    if t.x > 143.0 and t.y < -40.0:
        m = np.where(~nod & (z > 500), m * (1 + .00015 * z), m)
    p = np.pad(m, 1)
    w = np.pad(np.ones((ny, nx)), 1)
    s = sum(p[a:a + ny, b:b + nx] for a in range(3) for b in range(3))
    k = sum(w[a:a + ny, b:b + nx] for a in range(3) for b in range(3))
    return np.where(nod, np.nan, s / k)


def tile(h, t, z, nod, kind, nodata):
    inp = dict(t.desc, dem=z, kind=kind, nodata=nodata, tile='topo')
    h.case(inp)
    d = tiles.folder()
    try:
        data = np.where(nod, nodata if nodata is not None else 0, z)
        dem = tiles.raster(d + '/e145.s17.0_dem.img', t, data, kind, nodata)
        _, err = h.call(tm.topomult, dem, t.extent)
        if err:
            return h.fail('topomult raises ' + err, inp)
        cell = tiles.cell_size(dem)[0]
        with quiet():
            want = {'e145.s17.0_mt_%s.nc' % x: (
                'Mt', expected(t, z, nod, cell, x)) for x in DIRS}
        if tiles.compare(h, t, d, 'topographic', want, inp,
                         'topographic output'):
            return
        for f, (n, v, _, _) in tiles.outputs(d, 'topographic').items():
            if (v < 1 - 1e-6).any():
                return h.fail('a value below 1', dict(inp, file=f))
    finally:
        tiles.drop(d)


def whole(h):
    r = h.rng
    h.rule = 'whole tiles (integer, float; with and without no-data; inside '\
             'and outside Tasmania) written to disk and read back'
    places = [(145., -41.), (145., -39.5), (142.5, -41.), (143., -42.),
              (144., -40.), (143.5, -40.1),
              (150.5, -41.), (147.2, -43.6), (113., -41.), (179., -52.)]
    for n in range(400 if h.thorough else 60):
        if not h.more():
            return
        ny, nx = int(r.randint(3, 11)), int(r.randint(3, 11))
        pw = float(r.choice([.0005, .001, .0002]))
        oy, ox = int(r.randint(0, ny - 1)), int(r.randint(0, nx - 1))
        win = (oy, ox, int(r.randint(1, ny - oy + 1)),
               int(r.randint(1, nx - ox + 1)))
        x, y = places[n % len(places)]
        t = Tile(ny, nx, pw, pw * (1 if n % 3 else 1.5), x, y,
                 win if n % 4 else None)
        kind = 'fihd'[n % 4]
        z = r.uniform(0, 900, (ny, nx))
        if n % 5 == 1:
            z = np.add.outer(np.arange(ny) * 40., np.arange(nx) * 37.) % 700
        if n % 5 == 2:
            z[:] = 60.
        if n % 7 in (3, 6):
            # about the level of the sea, and high mountains
            z += (-450, 1500)[n % 2]
        z = np.floor(z) if kind in 'ih' else z.astype(np.float32)
        z = z.astype(float)
        nodata = (None, -9999, -32768, 0)[n % 4 if n % 7 else 1]
        nod = np.zeros(z.shape, bool)
        if nodata is not None:
            nod = r.uniform(size=z.shape) < .15
            if nodata == 0:
                nod |= z == 0
        tile(h, t, z, nod, kind, nodata)


def parts(h):
    """the helpers on their own, if they are still there"""
    if hasattr(tm, 'remove_conservatism'):
        for n in range(40):
            m = h.rng.choice([1., 1.2, 1.39, 1.4, 1.41, 1.71, 1.0001], (4, 5))
            m = m if n % 2 else h.rng.uniform(1, 1.8, (4, 5))
            h.case({'m': m})
            got, err = h.call(tm.remove_conservatism, m.copy())
            if err or not close(got, reduce_(m), 1e-9):
                return h.fail('remove_conservatism', {'m': m, 'error': err})
    if hasattr(tm, 'tasmania'):
        for n in range(40):
            m = h.rng.uniform(1, 1.8, (4, 5))
            z = h.rng.choice([0., 499.9, 500., 500.1, 1200.,
                              2900., np.nan], (4, 5))
            h.case({'m': m, 'z': z})
            got, err = h.call(tm.tasmania, m.copy(), z)
            with np.errstate(all='ignore'):
                w = np.where(z > 500, m * (1 + .00015 * z), m)
            if err or not close(got, w, 1e-9):
                return h.fail('tasmania', {'m': m, 'z': z, 'error': err})


main(whole, parts)
