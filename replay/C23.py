from common import *
import os
import shutil
import tiles
from tiles import Tile
import all_multipliers as am
from osgeo import gdal

JOBS = [('terrain', am.terrain.terrain_mult, 'terrain'),
        ('shield', am.shielding.shield_mult, 'shield'),
        ('topomult', am.topographic.topo_mult, 'topomult')]
REAL = [getattr(m, n) for _, m, n in JOBS]


class Recorded(object):
    """the three calculations, noting the files as they find them"""

    def __init__(self):
        self.calls = []

    def __enter__(self):
        self.names = []
        for (name, mod, attr), real in zip(JOBS, REAL):
            f = self.note(name)
            for m in (mod, am):
                for k, x in list(vars(m).items()):
                    if x is real:
                        self.names.append((m, k, real))
                        setattr(m, k, f)
        return self

    def __exit__(self, *a):
        for m, k, x in self.names:
            setattr(m, k, x)

    def note(self, name):
        def f(*a, **k):
            seen = []
            for x in list(a) + list(k.values()):
                if isinstance(x, str):
                    ds = gdal.Open(x) if os.path.exists(x) else None
                    seen.append(None if ds is None else (
                        ds.RasterXSize, ds.RasterYSize,
                        ds.GetGeoTransform(), ds.ReadAsArray()))
                else:
                    seen.append(tuple(x))
            self.calls.append((name, seen))
        return f


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as g:
                out[os.path.relpath(q, d)] = g.read()
    return out


def same_grid(t, w, got):
    oy, ox, hh, ww = w
    return got is not None and got[0] == ww and got[1] == hh and \
        np.allclose(got[2], (t.x + ox * t.pw, t.pw, 0, t.y - oy * t.ph, 0,
                             -t.ph), rtol=0, atol=1e-6)


def jobs(h):
    r = h.rng
    for n in range(120 if h.thorough else 30):
        if not h.more():
            return
        d = tiles.folder()
        try:
            one(h, r, d, n)
        finally:
            tiles.drop(d)


def one(h, r, d, n):
    ny, nx = int(r.randint(6, 20)), int(r.randint(6, 20))
    if n == 5:
        # files of a megabyte
        ny, nx = 700, 640
    t = Tile(ny, nx, .01, .01 if n % 3 else .0125)
    kind = 'ifd'[n % 3]
    dem = r.randint(1, 900, (ny, nx)).astype('d')
    # two windows: one with elevations, one that may be empty
    oy, ox = int(r.randint(0, ny - 5)), int(r.randint(0, nx - 5))
    hh, ww = int(r.randint(3, ny - oy + 1)), int(r.randint(3, nx - ox + 1))
    if n == 5:
        oy, ox, hh, ww = 60, 40, 600, 570
    empty = n % 4 == 3
    if empty:
        dem[oy:oy + hh, ox:ox + ww] = 0
        if n % 8 == 3:
            dem[:] = 0
    elif n % 4 == 1:
        dem[oy:oy + hh, ox:ox + ww] = 0
        dem[oy + hh - 1, ox + ww - 1] = r.choice([1, 5, 120])
    elif n % 4 == 2:
        dem = dem - 450
        dem[oy, ox] = 7
        if n % 8 == 6:
            # all of it below the sea, or at it
            dem = np.where(dem > 0, -dem, dem)
            dem[oy, ox + 1] = 0
    path = os.path.join(d, '..', 'dem%d.img' % n)
    tiles.raster(path, t, dem, kind)
    # the land cover: another origin, extent and cell size
    k = int(r.randint(1, 4))
    lt = Tile(ny * k + 4 * k, nx * k + 4 * k, t.pw / k, t.ph / k,
              t.x - 2 * t.pw, t.y + 2 * t.ph)
    codes = [1, 2, 5, 9, 13, 104, 211, 502, 507, 40000, 66000][
        : int(r.randint(2, 12))]
    lkind = 'ibhf'[n % 4]
    if lkind in 'bh':
        codes = [c for c in codes if c < (256 if lkind == 'b' else 32768)]
    cover = r.choice(codes, (lt.ny, lt.nx))
    lpath = os.path.join(d, '..', 'cover%d.img' % n)
    tiles.raster(lpath, lt, cover, lkind)
    # the tile and its neighbours
    name = ['e145.01s17.2', 'e145.00s17.00', 'e14s1'][n % 3]
    for f in (name + '1.img', name + '1_dem.img', 'x' + name + '.img',
              name + '_dem.txt', 'dem.img', 'terrain/' + name + '.img',
              'M3/' + name + '_dem.img', name + '_m3.img'):
        with open(os.path.join(d, f), 'w') as g:
            g.write(f)
    b = [max(0, oy - 0), max(0, ox - 0), hh, ww]
    wide = (t.x + ox * t.pw, t.y - oy * t.ph, t.x + (ox + ww) * t.pw,
            t.y - (oy + hh) * t.ph)
    own = (wide[0] + t.pw, wide[1] - t.ph, wide[2] - t.pw, wide[3] - t.ph)
    info = [name, wide, own]
    desc = dict(t.desc, window=b, type=kind, empty=empty, cover=lkind,
                factor=k, tile=name)
    h.case(desc)
    before = tree(d)
    am.output_folder = d
    m = am.Multipliers(lpath, path)
    with quiet():
        m.open_dem()
    with Recorded() as rec:
        cut, err = h.call(m.cut_dem, info)
        if err:
            return h.fail('cut_dem raises ' + err, desc)
        mid = tree(d)
        if os.path.dirname(os.path.abspath(cut)) != os.path.abspath(d) or \
                not os.path.exists(cut):
            return h.fail('cut-out at ' + str(cut), desc)
        _, err = h.call(m.multipliers_calculate, cut, info)
        if err:
            return h.fail('multipliers_calculate raises ' + err, desc)
    after = tree(d)
    lost = sorted(f for f in before if after.get(f) != before[f])
    if lost:
        return h.fail('files removed or changed: %s' % lost, desc)
    extra = sorted(f for f in after if f not in before)
    if extra:
        return h.fail('working files are left: %s' % extra, desc)
    if any(mid.get(f) != before[f] for f in before):
        return h.fail('cut_dem changes other files', desc)
    names = sorted(c[0] for c in rec.calls)
    if empty:
        if names:
            return h.fail('an empty tile is computed: %s' % names, desc)
        return
    if names != ['shield', 'terrain', 'topomult']:
        return h.fail('calculations: %s' % names, desc)
    want = dem[oy:oy + hh, ox:ox + ww]
    # class at the centre of every cell, if no cell boundary is there
    ij = [(2 + np.arange(o, o + c)) * k + k // 2 for o, c in (
        (oy, hh), (ox, ww))]
    near = cover[np.ix_(*ij)]
    for name, seen in rec.calls:
        if seen[-1] != tuple(own):
            return h.fail('%s for the extent %s' % (name, seen[-1]), desc)
        rasters = seen[:-1]
        parts = {'terrain': 'c', 'shield': 'ce', 'topomult': 'e'}[name]
        if len(rasters) != len(parts):
            return h.fail('arguments of ' + name, desc)
        for p, got in zip(parts, rasters):
            if not same_grid(t, (oy, ox, hh, ww), got):
                return h.fail('%s: grid of the %s' % (name, {
                    'c': 'land cover', 'e': 'elevation'}[p]), dict(
                        desc, grid=got and got[:3]))
            if p == 'e' and not np.array_equal(got[3], want):
                return h.fail(name + ': elevation of other cells', desc)
            if p == 'c' and not set(np.unique(got[3])) <= set(codes):
                return h.fail(name + ': codes that are not in the land '
                              'cover', dict(desc, codes=sorted(
                                  set(np.unique(got[3])) - set(codes))[:4]))
            if p == 'c' and k % 2 and not np.array_equal(got[3], near):
                return h.fail(name + ': land cover of other cells', desc)


try:
    main(jobs)
finally:
    shutil.rmtree(tiles.ROOT, ignore_errors=True)
