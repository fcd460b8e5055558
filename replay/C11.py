from common import *
import os
import tiles
from tiles import Tile, DIRS
from shielding import shield_mult as sm

CLASS = {'n': 1, 'ne': 2, 'e': 3, 'se': 4, 's': 5, 'sw': 6, 'w': 7, 'nw': 8}


def sector_cells(d, k):
    """offsets (row, column) of the upwind sector: k cells straight upwind
    with their neighbours on both sides from the second on, or the triangle between the two axes of a diagonal"""
    up = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1)}
    if len(d) == 1:
        a, b = up[d]
        return [(a * i + b * e, b * i + a * e) for i in range(1, k + 1)
                for e in ((0,) if i == 1 else (-1, 0, 1))]
    a, b = up[d[0]][0], up[d[1]][1]
    return [(a * i, b * j) for i in range(1, k + 1)
            for j in range(1, k + 1) if i + j <= k + 1]


def average(m, cells):
    ny, nx = m.shape
    out = np.zeros(m.shape)
    for i in range(ny):
        for j in range(nx):
            v = [m[i + a, j + b] if 0 <= i + a < ny and 0 <= j + b < nx
                 else 1. for a, b in cells]
            out[i, j] = np.mean(v)
    return out


def final(m, slope, asp, d):
    f = asp == CLASS[d]
    with np.errstate(all='ignore'):
        x = np.where(f & (slope >= 12.30), 1., np.where(
            f & (slope > 3.27), m + (1 - m) * (slope - 3.27) /
            (12.30 - 3.27), m))
        # an all-NaN slope leaves the factor alone
        return np.where(np.isnan(m), np.nan,
                        np.where(x < .9, x * .9, x * x)), x


def one(h, t, m, slope, asp, size, relative=False):
    inp = dict(t.desc, factor=m, slope=slope, aspect=asp, relative=relative)
    h.case(inp)
    d = tiles.folder()
    cwd = os.getcwd()
    try:
        img = tiles.raster(d + '/shielding/e1.s2_ms.img', t, m, 'f', -99)
        g = tiles.cell_size(img)[0]
        k = int(100. / g)
        s0, a0 = slope.copy(), asp.copy()
        own = [os.path.join(x, 'own.xml') for x in (cwd, d, d + '/terrain')]
        for f in own:
            open(f, 'w').close()
        _, err = h.call(sm.convo_combine, os.path.relpath(img) if relative
                        else img, slope, asp, t.extent)
        if err:
            return h.fail('convo_combine raises ' + err, inp)
        if os.getcwd() != cwd:
            return h.fail('the process is left in another folder', inp)
        if not all(os.path.exists(f) for f in own):
            return h.fail('other files are removed', inp)
        want, near = {}, {}
        for x in DIRS:
            v = average(m, sector_cells(x, k)) if k else m
            r, pre = final(v, s0, a0, x)
            f = 'e1.s2_ms_%s.nc' % x
            want[f] = ('Ms', r)
            near[f] = np.abs(pre - .9) < 1e-6
        tiles.compare(h, t, d, 'shielding', want, dict(inp, window=k),
                      'shielding output', weak=lambda f: near[f])
        if not (np.array_equal(s0, slope, equal_nan=True) and
                np.array_equal(a0, asp)):
            h.fail('slope or aspect is changed', inp)
    finally:
        os.chdir(cwd)
        tiles.drop(d)


def run(h):
    r = h.rng
    h.rule = 'whole tiles written to disk and read back, with and without ' \
             'averaging window'
    for n in range(300 if h.thorough else 60):
        if not h.more():
            return
        ny, nx = int(r.randint(3, 11)), int(r.randint(3, 11))
        pw = float(r.choice([.0002, .0003, .00045, .0007, .0009, .002]))
        if n % 9 == 4:
            # fine grids: windows of 9 to 35 cells, reaching into the tile
            pw = float(r.choice([.00003, .00004, .00006, .00008, .0001]))
            k = int(100. / (pw * 106400.))
            ny, nx = int(r.randint(3, 9)), int(r.randint(3, 6)) + k // 2
            if r.randint(2):
                ny, nx = nx, ny
        oy, ox = int(r.randint(0, ny - 1)), int(r.randint(0, nx - 1))
        win = (oy, ox, int(r.randint(1, ny - oy + 1)),
               int(r.randint(1, nx - ox + 1)))
        t = Tile(ny, nx, pw, pw * (1 if n % 3 else 1.3), 145., -17.,
                 win if n % 4 else None)
        if n % 10 == 7:
            # 100 m are just over or under a number of cells
            t = tiles.tuned(100. / ((1 + n // 10 % 4) * float(r.choice(
                [1 - 2e-5, 1 + 2e-5]))), ny, nx, (1, 1.4)[n // 10 % 2],
                (-17., -43., 12.)[n % 3], win)
        m = r.choice([1., .45, .85, .6, .1], (ny, nx)).astype(np.float32)
        m = m.astype(float)
        if n % 6 == 1:
            m[r.uniform(size=m.shape) < .1] = np.nan
        slope = r.choice([0., 3.27, 3.3, 8., 12.29, 12.3, 40., np.nan],
                         (ny, nx))
        asp = r.randint(1, 10, (ny, nx))
        one(h, t, m, slope, asp, None, n % 3 == 2)


def whole(h):
    """shield(): the steps, one after the other"""
    r = h.rng
    for n in range(60 if h.thorough else 14):
        if not h.more():
            return
        ny, nx = int(r.randint(4, 9)), int(r.randint(4, 9))
        pw = float(r.choice([.0003, .0007, .002]))
        win = (1, 1, ny - 2, nx - 2)
        t = Tile(ny, nx, pw, pw, 145., -17., win if n % 2 else None)
        cats = [int(c) for c in r.choice(np.arange(1, 30), 5, False)]
        rows = [(c, float(r.choice([0., 45., 85., 100., 10.])), .02)
                for c in cats[:-1]]
        cls = r.choice(cats, (ny, nx))
        z = r.uniform(0, 60, (ny, nx)).astype(np.float32)
        inp = dict(t.desc, classes=cls, dem=z, table=rows)
        h.case(inp)
        d, e = tiles.folder(), tiles.folder()
        cwd = os.getcwd()
        try:
            img = [tiles.raster(x + '/e1.s2.img', t, cls, 'i', 0)
                   for x in (d, e)]
            dem = [tiles.raster(x + '/e1.s2_dem.img', t, z)
                   for x in (d, e)]
            tiles.table(d + '/t.csv', rows)
            got, err = h.call(sm.get_slope_aspect, dem[0])
            path, err = h.call(sm.terrain_class2ms_orig, img[0]) \
                if not err else (None, err)
            if err or not os.path.exists(path):
                h.fail('a step raises %s' % err, inp)
                continue
            slope, asp = [np.array(x) for x in got]
            m = tiles.gdal.Open(path).ReadAsArray().astype(float)
            g = tiles.cell_size(img[0])[0]
            k = int(100. / g)
            _, err = h.call(sm.shield, img[1], dem[1], t.extent)
            if err:
                h.fail('shield raises ' + err, inp)
                continue
            want, near = {}, {}
            for x in DIRS:
                v = average(m, sector_cells(x, k)) if k else m
                w, pre = final(v, slope, asp, x)
                f = 'e1.s2_ms_%s.nc' % x
                want[f] = ('Ms', w)
                near[f] = np.abs(pre - .9) < 1e-6
            tiles.compare(h, t, e, 'shielding', want, dict(inp, window=k),
                          'shield', weak=lambda f: near[f])
        finally:
            os.chdir(cwd)
            tiles.drop(d)
            tiles.drop(e)


main(run, whole)
