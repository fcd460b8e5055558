from common import *
import tiles
from tiles import Tile, DIRS
from terrain import terrain_mult as tm

UP = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
      'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}


def mz(z0):
    return -0.2827 * np.log(0.4554 * np.log(z0) + 3.734) + 1.0762


def average(m, d, avg, lag):
    dr, dc = UP[d]
    ny, nx = m.shape
    out = m.copy()
    for i in range(ny):
        for j in range(nx):
            v = []
            for k in range(lag + 1, lag + avg + 1):
                a, b = i + dr * k, j + dc * k
                if 0 <= a < ny and 0 <= b < nx:
                    v.append(m[a, b])
            if v:
                out[i, j] = np.mean(v)
    return out


def one(h, t, cls, rows, nodata=None):
    inp = dict(t.desc, classes=cls, table=rows)
    h.case(inp)
    d = tiles.folder()
    try:
        img = tiles.raster(d + '/e145.s17.0.img', t, cls, 'i', nodata)
        tiles.table(d + '/table.csv', rows)
        _, err = h.call(tm.terrain, img, t.extent)
        if err:
            return h.fail('terrain raises ' + err, inp)
        m = np.full(cls.shape, np.nan)
        for c, s, z in rows:
            m[cls == c] = mz(z)
        want = {}
        if not np.isnan(m).all():
            g = tiles.cell_size(img)[0]
            none = np.isnan(m)
            full = np.where(none, 1., m)
            for x in DIRS:
                if len(x) == 1:
                    a, b = int(np.around(500. / g)), int(np.around(200. / g))
                else:
                    a, b = int(500. / (g * 1.414)), int(200. / (g * 1.414))
                o = average(full, x, a, b)
                o[none] = np.nan
                want['e145.s17.0_mz_%s.nc' % x] = ('Mz', o)
        tiles.compare(h, t, d, 'terrain', want, inp, 'terrain output')
    finally:
        tiles.drop(d)


def run(h):
    r = h.rng
    h.rule = 'whole land-cover tiles written to disk and read back'
    rows = [(1, 10., 2.), (2, 50., .2), (5, 100., .002), (9, 80., .02)]
    for n in range(300 if h.thorough else 45):
        if not h.more():
            return
        ny, nx = int(r.randint(3, 14)), int(r.randint(3, 14))
        pw = float(r.choice([.0005, .001, .002, .0004, .0008, .0013]))
        oy, ox = int(r.randint(0, ny - 1)), int(r.randint(0, nx - 1))
        win = (oy, ox, int(r.randint(1, ny - oy + 1)),
               int(r.randint(1, nx - ox + 1)))
        t = Tile(ny, nx, pw, pw * (1 if n % 3 else 1.4), 145., -17.,
                 win if n % 4 else None)
        pick = [[1, 2, 5, 9, 7, 0], [1, 2, 5, 9], [0, 7], [2, 0],
                [1, 9]][n % 5]
        cls = r.choice(pick, (ny, nx))
        if n % 9 == 5:
            # a single cell with a class
            i, j = int(r.randint(ny)), int(r.randint(nx))
            cls[:] = 7
            cls[i, j] = int(r.choice([1, 2, 5, 9]))
        one(h, t, cls, rows if n % 2 else rows[::-1])


def close_calls(h):
    """distances of just under or over a number of cells"""
    r = h.rng
    rows = [(1, 10., 2.), (2, 50., .2), (5, 100., .002), (9, 80., .02)]
    for n in range(120 if h.thorough else 24):
        if not h.more():
            return
        near = 1 + (-1) ** n * float(r.choice([2e-5, 6e-5]))
        dist = 500. if n % 4 < 2 else 200.
        if n % 3:
            g = dist / ((int(r.randint(2, 9)) + .5) * near)
        else:
            g = dist / (1.414 * int(r.randint(2, 9)) * near)
        if g < 42:
            g = dist / ((4.5 if dist == 500. else 2.5) * near)
        ny, nx = [(14, 13), (5, 16), (16, 5)][n % 3]
        t = tiles.tuned(g, ny, nx, (1, 1.5, .7)[n // 2 % 3],
                        (-17., -43., 12.)[n % 3])
        one(h, t, r.choice([1, 2, 5, 9, 1, 7][:5 + n % 2], (ny, nx)), rows)


main(run, close_calls)
