from common import *
import tiles
from tiles import Tile, DIRS
from topographic import make_path as mp
from topographic import topo_mult, multiplier_calc

STEP = {d: ((1 if 'n' in d else -1 if 's' in d else 0),
            (1 if 'w' in d else -1 if 'e' in d else 0)) for d in DIRS}


def want(nr, nc, i, j, d):
    out = []
    di, dj = STEP[d]
    while 0 <= i < nr and 0 <= j < nc:
        out.append(i + j * nr)
        i, j = i + di, j + dj
    return out


def paths(h):
    """every start of every small raster"""
    h.rule = 'all starts of rasters up to 5x5, starts of random rasters, ' \
             'lines of whole tiles with distinct elevations'
    m = 8 if h.thorough else 5
    shapes = [(a, b) for a in range(1, m + 1) for b in range(1, m + 1)]
    shapes += [(int(a), int(b)) for a, b in h.rng.randint(1, 40, (30, 2))]
    for nr, nc in shapes:
        for d in DIRS:
            for n in (range(nr * nc) if nr * nc < 70 else
                      h.rng.randint(0, nr * nc, 6)):
                for kind in (int, float):
                    if not h.more():
                        return
                    inp = {'nr': nr, 'nc': nc, 'n': int(n), 'dire': d}
                    h.case(inp)
                    got, err = h.call(mp.make_path, nr, nc, kind(n), d)
                    w = want(nr, nc, int(n) % nr, int(n) // nr, d)
                    if err:
                        return h.fail('make_path raises ' + err, inp)
                    if [int(x) for x in got] != w:
                        return h.fail('make_path', dict(
                            inp, got=list(got), want=w))


def columns(h):
    """heights of a raster: the lines from the top of each column, and of
    the cells next to it"""
    nc = 12
    for nr in range(6, 700 if h.thorough else 200):
        for k in range(nc):
            for i in (0, nr - 1):
                d = DIRS[(nr + k + i) % 8]
                if not h.more():
                    return
                n = k * nr + i
                inp = {'nr': nr, 'nc': nc, 'n': n, 'dire': d}
                w = want(nr, nc, i, k, d)
                h.case(inp)
                got, err = h.call(mp.make_path, nr, nc, float(n), d)
                if err:
                    return h.fail('make_path raises ' + err, inp)
                if [int(x) for x in got] != w:
                    return h.fail('make_path', dict(inp, got=list(got)[:20],
                                                    want=w[:20]))


def large(h):
    """lines of tiles of millions of cells"""
    for nr, nc in ((4200, 4100), (200, 70000), (5001, 4)):
        for d in DIRS:
            for n in (0, nr - 1, nr * nc - 1, (nc - 1) * nr, nr * nc - 2,
                      nr * (nc // 2), nr * (nc // 2) + nr - 1):
                if not h.more():
                    return
                inp = {'nr': nr, 'nc': nc, 'n': n, 'dire': d}
                w = want(nr, nc, n % nr, n // nr, d)
                if len(w) > 6000:
                    continue
                h.case(inp)
                got, err = h.call(mp.make_path, nr, nc, float(n), d)
                if err:
                    return h.fail('make_path raises ' + err, inp)
                if [int(x) for x in got] != w:
                    k = [int(x) for x in got] + [None]
                    i = [a == b for a, b in zip(k, w + [-1])].index(False)
                    return h.fail('make_path', dict(
                        inp, cell=i, got=k[i], want=(w + [None])[i]))


def lines(h):
    """lines given to multiplier_calc by topomult, on distinct elevations"""
    real = multiplier_calc.multiplier_calc
    for nr, nc in [(3, 3), (5, 4), (4, 7), (9, 3), (3, 10), (6, 6), (190, 180)]:
        if not h.more():
            return
        t = Tile(nr, nc, .001, .001)
        z = np.arange(1, nr * nc + 1).reshape(nr, nc).astype(float)
        d = tiles.folder()
        dem = tiles.raster(d + '/t_dem.img', t, z)
        rec = []

        def calc(line, ds, *a, **k):
            rec.append([int(round(float(x))) - 1 for x in
                        np.asarray(line).reshape(-1)])
            return real(line, ds, *a, **k)
        multiplier_calc.multiplier_calc = calc
        try:
            _, err = h.call(topo_mult.topomult, dem, t.extent)
        finally:
            multiplier_calc.multiplier_calc = real
        inp = {'rows': nr, 'cols': nc}
        h.case(inp)
        tiles.drop(d)
        if err:
            return h.fail('topomult raises ' + err, inp)
        if not rec:
            raise HarnessError('multiplier_calc is not called')
        # every direction partitions the raster into its wind lines
        want_all = {}
        for x in DIRS:
            di, dj = STEP[x]
            want_all[x] = sorted(
                tuple((c % nr) * nc + c // nr
                      for c in want(nr, nc, i, j, x))
                for i in range(nr) for j in range(nc)
                if not (0 <= i - di < nr and 0 <= j - dj < nc))
        every = sorted(sum(want_all.values(), []))
        got = sorted(tuple(r) for r in rec)
        if got != every:
            extra = [g for g in got if got.count(g) != every.count(g)]
            miss = [w for w in every if got.count(w) != every.count(w)]
            return h.fail('lines of the raster', dict(
                inp, wrong=extra[:5], missing=miss[:5]))


main(paths, columns, large, lines)
