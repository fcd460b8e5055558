from common import *
import grids
from osgeo import gdal, osr
from utilities import blrb
from utilities import get_pixel_size_grid as g


def expect(nr, nc, f):
    """cell-wise value, independent of the code: quadrants split at n // 2"""
    out = np.full((nr, nc), np.nan)
    ic, jc = nr // 2, nc // 2
    for a, b in ((0, ic), (ic, nr - 1)):
        for c, d in ((0, jc), (jc, nc - 1)):
            ul, ur, lr, ll = f(a, c), f(a, d), f(b, d), f(b, c)
            for i in range(a, b + 1):
                for j in range(c, d + 1):
                    s, t = [x / max(y, 1) for x, y in (
                        (i - a, b - a), (j - c, d - c))]
                    out[i, j] = (1 - s) * ((1 - t) * ul + t * ur) + s * (
                        (1 - t) * ll + t * lr)
    return out


def check(h, what, got, nr, nc, f, desc, tol):
    """corners exact, others between, whatever the splitting"""
    if np.shape(got) != (nr, nc):
        return h.fail(what + ': another shape', dict(
            desc, shape=np.shape(got)))
    if not np.all(np.isfinite(got)):
        i, j = np.argwhere(~np.isfinite(got))[0]
        return h.fail(what + ': undefined cell', dict(desc, row=i, column=j))
    want = expect(nr, nc, f)
    bad = np.abs(got - want) > tol * np.maximum(1, np.abs(want))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        return h.fail(what + ': not the interpolated size', dict(
            desc, row=i, column=j, value=got[i, j], expected=want[i, j]))


def shapes(h):
    for nr, nc in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 9), (9, 1), (2, 8),
                   (8, 2), (3, 3), (3, 4), (4, 3), (5, 3), (3, 5), (4, 4),
                   (5, 5), (6, 7), (7, 6), (3, 30), (30, 3)):
        yield nr, nc
    while True:
        yield int(h.rng.randint(1, 40)), int(h.rng.randint(1, 40))


def interpolate(h):
    r = h.rng
    n = 0
    for nr, nc in shapes(h):
        n += 1
        if not h.more() or n > (2000 if h.thorough else 200):
            return
        vals = r.uniform(-5, 50, (nr, nc)).round(2)
        desc = {'rows': nr, 'columns': nc}
        h.case(desc)
        seen = []

        def f(i, j):
            if not (0 <= i < nr and 0 <= j < nc):
                seen.append((i, j))
                return 0.
            return float(vals[int(i), int(j)])
        grid = np.full((nr, nc), np.nan)
        _, err = h.call(blrb.interpolate_grid, depth=1, shape=(nr, nc),
                        eval_func=f, grid=grid)
        if err:
            return h.fail('interpolate_grid raises ' + err, desc)
        if seen:
            return h.fail('size taken outside the raster', dict(
                desc, at=seen[0]))
        check(h, 'interpolate_grid', grid, nr, nc, f, desc, 1e-9)


def corners(h):
    r = h.rng
    for n in range(200):
        if not h.more():
            return
        m, k = int(r.randint(1, 9)), int(r.randint(1, 9))
        c = [float(x) for x in r.uniform(1, 100, 4).round(3)]
        # the corners of a single row or column are the same cells
        if m == 1:
            c[2], c[3] = c[1], c[0]
        if k == 1:
            c[1], c[2] = c[0], c[3]
        desc = {'shape': (m, k), 'corners (ul, ur, lr, ll)': c}
        h.case(desc)
        b, err = h.call(blrb.bilinear, (m, k), *c)
        if err:
            return h.fail('bilinear raises ' + err, desc)
        got = [b[0, 0], b[0, -1], b[-1, -1], b[-1, 0]]
        if not close(got, c, 1e-9):
            return h.fail('bilinear is not exact at the corners', dict(
                desc, got=got))
        if b.min() < min(c) - 1e-9 or b.max() > max(c) + 1e-9:
            return h.fail('bilinear leaves the range of the corners', dict(
                desc, range=(b.min(), b.max())))


def raster(nr, nc, lon, lat, pw, ph, epsg=4326):
    ds = gdal.GetDriverByName('MEM').Create('', nc, nr, 1, gdal.GDT_Float32)
    ds.SetGeoTransform((lon, pw, 0, lat, 0, -ph))
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    ds.SetProjection(s.ExportToWkt())
    return ds


def edges(lon, lat, pw, ph, col, row):
    """arguments of the distances across and down a cell, in degrees"""
    x, y = lon + col * pw, lat - row * ph
    return ((y - ph / 2, x, y - ph / 2, x + pw),
            (y, x + pw / 2, y - ph, x + pw / 2))


def real(h):
    r = h.rng
    n = 0
    A, F = 6378137., (6378137. - 6356752.3142) / 6378137.
    for nr, nc in shapes(h):
        n += 1
        if not h.more() or n > (300 if h.thorough else 40):
            return
        lon, lat = float(r.uniform(-170, 170)), float(r.uniform(-60, 60))
        pw, ph = [float(r.choice([.00027, .001, .01, .05])) for _ in 'xy']
        desc = {'rows': nr, 'columns': nc, 'longitude': lon,
                'latitude': lat, 'cell': (pw, ph)}
        h.case(desc)
        ds = raster(nr, nc, lon, lat, pw, ph)
        if n % 4 == 0:
            # as large as the one before, somewhere else
            h.call(g.get_pixel_size_grids, raster(
                nr, nc, lon / 2, lat / 2 - 9, pw, ph))
        res, err = h.call(g.get_pixel_size_grids, ds)
        if err:
            return h.fail('get_pixel_size_grids raises ' + err, desc)
        for k, what in ((0, 'widths'), (1, 'heights')):
            def size(i, j, k=k):
                e = edges(lon, lat, pw, ph, j, i)[k]
                return g.vinc_dist(F, A, *[np.radians(q) for q in e])[0]
            check(h, what, np.asarray(res[k], float), nr, nc, size, desc,
                  2e-5)


def projected(h):
    """a cell of a projected raster: edges taken to degrees by hand"""
    r = h.rng
    A, F = 6378137., (6378137. - 6356752.3142) / 6378137.
    for n in range(60):
        if not h.more():
            return
        epsg = int(r.choice([4283, 7844, 4326, 32756, 28355, 3577, 2193]))
        if epsg in (4283, 7844, 4326):
            x, y, p = r.uniform(115, 150), r.uniform(-42, -12), .001
        elif epsg == 2193:
            x, y, p = r.uniform(1.2e6, 1.9e6), r.uniform(5e6, 6e6), 25.
        elif epsg == 3577:
            x, y, p = r.uniform(-1e6, 1e6), r.uniform(-4.5e6, -2e6), 30.
        else:
            x, y, p = r.uniform(2e5, 8e5), r.uniform(58e5, 75e5), 30.
        wide = n % 2 and p > 1
        x, y, p = float(x), float(y), float(p * (1000 if wide else 1))
        most = 3 if wide else 40
        col, row = int(r.randint(0, most)), int(r.randint(0, most))
        desc = {'EPSG': epsg, 'left': x, 'top': y, 'cell': p, 'column': col,
                'row': row}
        h.case(desc)
        ds = raster(41, 41, x, y, p, p, epsg)
        s = osr.SpatialReference()
        s.ImportFromEPSG(epsg)
        t = s.CloneGeogCS()
        for q in (s, t):
            q.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        tr = osr.CoordinateTransformation(s, t)

        def at(i, j):
            lo, la, _ = tr.TransformPoint(x + i * p, y - j * p, 0)
            return np.radians(la), np.radians(lo)
        got, err = h.call(g.get_pixel_size, ds, (col, row))
        if err:
            return h.fail('get_pixel_size raises ' + err, desc)
        want = [g.vinc_dist(F, A, *(at(*a) + at(*b)))[0] for a, b in (
            ((col, row + .5), (col + 1, row + .5)),
            ((col + .5, row), (col + .5, row + 1)))]
        if not close(list(got), want, 1e-8 if wide else 1e-6):
            return h.fail('not the exact size of the cell', dict(
                desc, got=list(got), expected=want))


def wide(h):
    """projected rasters so wide and high that all cells differ"""
    r = h.rng
    for n in range(12):
        if not h.more():
            return
        nr, nc = int(r.randint(2, 14)), int(r.randint(2, 14))
        p = float(r.choice([2e4, 5e4]))
        x, y = float(r.uniform(2e5, 5e5)), float(r.uniform(58e5, 75e5))
        desc = {'EPSG': 32756, 'rows': nr, 'columns': nc, 'cell': p,
                'left': x, 'top': y}
        h.case(desc)
        if n % 2:
            # as large and as far south, somewhere else
            h.call(g.get_pixel_size_grids, raster(
                nr, nc, x + 3e6, y, p, p, 3577 if n % 4 == 1 else 32756))
        ds = raster(nr, nc, x, y, p, p, 32756)
        res, err = h.call(g.get_pixel_size_grids, ds)
        if err:
            return h.fail('get_pixel_size_grids raises ' + err, desc)
        for k, what in ((0, 'widths'), (1, 'heights')):
            check(h, what + ' (projected)', np.asarray(res[k], float), nr,
                  nc, lambda i, j, k=k: g.get_pixel_size(ds, (j, i))[k],
                  desc, 1e-6)


h_rule = ('raster shapes from 1x1 to 40x40 (odd, even, narrow), random cell '
          'values as sizes; random geographic and projected rasters')
main(interpolate, corners, projected, wide, real)
