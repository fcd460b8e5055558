from common import *
import tiles
from tiles import Tile
from shielding import shield_mult as sm
from utilities import value_lookup as vl

BEARING = {'n': 0, 'ne': 45, 'e': 90, 'se': 135, 's': 180, 'sw': 225,
           'w': 270, 'nw': 315}


def sector(a):
    if not 0 <= a <= 360:       # NaN included
        return 9
    return int(np.searchsorted(22.5 + 45 * np.arange(8), a, 'right')) % 8 + 1


def sectors(h):
    h.rule = 'every angle 0..360 in steps of 0.25 and next to the limits; ' \
             'random elevation models'
    a = np.arange(0, 360.01, .25)
    lim = 22.5 + 45 * np.arange(8)
    a = np.concatenate([a, np.nextafter(lim, -1), np.nextafter(lim, 999),
                        [np.nan, 360., np.nextafter(360., 0), -9999., -1e-9,
                         -45., 360.01, 405., np.inf, -np.inf]])
    for shape in [(a.size,), (1, a.size), (a.size, 1)]:
        x = a.reshape(shape)
        h.case({'angles': shape})
        ref = x.copy()
        got, err = h.call(sm.reclassify_aspect, x)
        if err:
            return h.fail('reclassify_aspect raises ' + err,
                          {'shape': shape})
        w = np.array([sector(v) for v in a]).reshape(shape)
        if got.shape != w.shape or (got != w).any():
            k = np.argmax(np.asarray(got).reshape(-1) != w.reshape(-1))
            return h.fail('class of an angle', {
                'angle': a[k], 'got': np.asarray(got).reshape(-1)[k],
                'want': w.reshape(-1)[k]})
        if not np.array_equal(x, ref, equal_nan=True):
            return h.fail('the angles are changed', {'shape': shape})
    for d, b in BEARING.items():
        h.case({'direction': d})
        if vl.DIRE_ASPECT[d] != sector(b):
            return h.fail('class of a direction', {
                'direction': d, 'got': vl.DIRE_ASPECT[d]})


def sobel(z, axis):
    p = np.pad(z, 1, mode='symmetric')
    ny, nx = z.shape
    c = lambda a, b: p[1 + a:1 + a + ny, 1 + b:1 + b + nx]
    if axis == 1:
        return (c(-1, 1) + 2 * c(0, 1) + c(1, 1) -
                c(-1, -1) - 2 * c(0, -1) - c(1, -1))
    return (c(1, -1) + 2 * c(1, 0) + c(1, 1) -
            c(-1, -1) - 2 * c(-1, 0) - c(-1, 1))


def cells(a, b):
    return (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-6)


def models(h):
    r = h.rng
    for n in range(400 if h.thorough else 90):
        if not h.more():
            return
        ny, nx = int(r.randint(3, 9)), int(r.randint(3, 9))
        pw = float(r.choice([.0005, .001, .0002]))
        t = Tile(ny, nx, pw, pw * (1 if n % 3 else 1.5), 145.,
                 (-17., -41., 10., 59.)[n % 4])
        kind = 'fidh'[n % 4]
        z = r.uniform(0, 60, (ny, nx))
        if n % 3 == 1:
            z = r.uniform(-3, 3) * np.arange(nx)[None, :] + \
                r.uniform(-3, 3) * np.arange(ny)[:, None] + 100
        if n % 11 == 5:
            z[:] = 7.
        if n % 5 == 4:
            # the sea floor, and high mountains
            z += (-3000, 8000)[n % 2]
        z = np.floor(z) if kind in 'ih' else z.astype(np.float32)
        z = z.astype(float)
        nodata = (None, -9999., -1.)[n % 3]
        nod = np.zeros(z.shape, bool)
        if nodata is not None:
            nod = r.uniform(size=z.shape) < .1
        d = tiles.folder()
        inp = dict(t.desc, dem=z, nodata=nodata, missing=nod, kind=kind)
        h.case(inp)
        dem = tiles.raster(d + '/x_dem.img', t, np.where(
            nod, nodata if nodata is not None else 0, z), kind, nodata)
        got, err = h.call(sm.get_slope_aspect, dem)
        if err:
            return h.fail('get_slope_aspect raises ' + err, inp)
        slope, asp = got
        _, xm, ym = tiles.cell_size(dem)
        tiles.drop(d)
        zz = np.where(nod, np.nan, z)
        gx, gy = sobel(zz, 1) / 8 / xm, sobel(zz, 0) / 8 / ym
        ws = np.degrees(np.arctan(np.hypot(gx, gy)))
        ws[nod] = np.nan
        wa = (450 - np.degrees(np.arctan2(gy, -gx))) % 360
        if not close(slope, ws, 1e-6):
            bad = [int(x[0]) for x in np.where(~cells(slope, ws))]
            return h.fail('slope', dict(inp, cell=bad, got=slope[
                tuple(bad)], want=ws[tuple(bad)]))
        cls = np.array([sector(v) for v in wa.reshape(-1)]).reshape(z.shape)
        near = np.abs((wa - 22.5 + 1e-6) % 45) < 2e-6
        flat = (gx == 0) & (gy == 0)
        ok = (asp == cls) | near | flat | nod
        if asp.shape != cls.shape or not ok.all():
            return h.fail('aspect', dict(inp, got=asp, want=cls))


main(sectors, models)
