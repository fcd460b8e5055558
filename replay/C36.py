from common import *
import os
import shutil
import sys
import fiona
import mpi
import tiles
from osgeo import gdal, osr
from shapely.geometry import box, mapping
from utilities.nctools import save_multiplier
import utilities.parallel
try:
    import parallel
except ImportError:
    parallel = None
gdal.UseExceptions()
SET = {'Major CBD': 1, 'City': 2, 'Urban': 3, 'Large Town': 4,
       'Small Town': 5, 'Rural': 0}
USE = {'Parkland': 1, 'Primary Production': 2, 'Education': 4,
       'Residential': 5, 'Water': 6, 'Other': 7, 'Commercial': 8,
       'Industrial': 9, 'Hospital/Medical': 10, 'Transport': 11}
ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
TYPES = [('shielding', 'ms', 'Ms'), ('terrain', 'mz', 'Mz'),
         ('topographic', 'mt', 'Mt')]


def script(rel, words):
    """run a file of the repository as a script"""
    path = os.path.join(REPO, rel)
    with open(path) as f:
        code = compile(f.read(), path, 'exec')
    exec(code, {'__name__': '__main__', '__file__': path})


def quietly():
    log = logging.getLogger('shapefile converter')
    for x in list(log.handlers):
        log.removeHandler(x)


def layer(path, polys, rows, fields):
    with fiona.open(path, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon', 'properties': fields}
                    ) as o:
        for p, a in zip(polys, rows):
            o.write({'geometry': mapping(p), 'properties': a})


def model(path, nx, ny, g):
    d = gdal.GetDriverByName('HFA').Create(path, nx, ny, 1, gdal.GDT_Float32)
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    d.SetProjection(s.ExportToWkt())
    d.SetGeoTransform(g)
    d.GetRasterBand(1).WriteArray(np.ones((ny, nx)))
    d = None


def preprocessing(h):
    r = h.rng
    home = os.getcwd()
    for n in range(30 if h.thorough else 10):
        if not h.more():
            return
        d = tiles.folder()
        argv = sys.argv
        try:
            os.chdir(d)
            one(h, r, d, n)
        finally:
            sys.argv = argv
            os.chdir(home)
            tiles.drop(d)


def one(h, r, d, n):
    rel = n % 2 == 1
    # stripes of settlement types, one or more blocks in each
    types = [list(SET)[int(q)] for q in r.permutation(len(SET))]
    names = [('SETTLEMENT', 'MB_CAT16'), ('TYPE', 'USE')][n // 2 % 2]
    layer('settle.shp', [box(4. * k, 0, 4. * k + 4, 12)
                         for k in range(len(types))],
          [{names[0]: t} for t in types], {names[0]: 'str:40'})
    blocks, uses, codes = [], [], []
    for k, t in enumerate(types):
        for q in range(3):
            if r.rand() < .2:
                continue
            blocks.append(box(4. * k + 1, 4. * q + 1, 4. * k + 3,
                              4. * q + 3))
            uses.append(list(USE)[int(r.randint(0, len(USE)))])
            codes.append(100 * SET[t] + USE[uses[-1]])
    layer('use.shp', blocks, [{names[1]: u} for u in uses],
          {names[1]: 'str:40'})
    layer('mask.shp', [box(0, 0, 12, 12)], [{'ID': 0}], {'ID': 'int'})
    # two elevation rasters with other grids
    grids = {}
    for f in ('dem.img', 'other.img'):
        s = float(r.choice([.5, 1., .4]))
        nx, ny = int(r.randint(8, 26)), int(r.randint(8, 14))
        g = (float(r.randint(-2, 8)) + .03, s, 0, 11.97, 0, -s)
        model(f, nx, ny, g)
        grids[f] = nx, ny, g
    if n % 3 == 1:
        # a raster of that name is none of the settings
        model('True', 5, 6, (1.03, .7, 0, 9.97, 0, -.7))
    p = (lambda x: x) if rel else (lambda x: os.path.join(d, x))
    topo = [True, False][n // 3 % 2]
    masked = n % 3 == 2
    cfg = {'settlement_data': p('settle.shp'), 'settlement_cat': names[0],
           'land_use_data': p('use.shp'), 'land_use_cat': names[1],
           'crop_mask': p('mask.shp') if masked else 'None',
           'input_topo': 'True' if topo else p('other.img'),
           'topo_crop': ['True', 'False'][n % 2],
           'output_shapefile': p('out%d.shp' % n),
           'output_rasterized': p('out%d.tif' % n)}
    gone = not topo and n % 5 == 3
    if gone:
        cfg['input_topo'] = p('missing.img')
    keys = sorted(cfg)
    r.shuffle(keys)
    with open('some.cfg', 'w') as f:
        f.write('[Preprocessing]\n' + ''.join(
            '%s = %s\n' % (k, cfg[k]) for k in keys) +
            '[inputValues]\ndem_data = %s\n' % p('dem.img'))
    desc = {'options': {k: cfg[k].replace(d, '') for k in cfg}, 'n': n,
            'grids': grids, 'codes': codes}
    h.case(desc)
    sys.argv = ['pre_process.py', ['-c', '--config_file'][n % 2],
                p('some.cfg')] + (['-v'] if n % 5 == 4 else [])
    quietly()
    _, err = h.call(script, 'pre_process.py', sys.argv)
    quietly()
    if gone:
        if os.path.exists(cfg['output_rasterized']):
            h.fail('rasterized although the named raster is missing', desc)
        return
    if err:
        return h.fail('pre_process.py: ' + err, desc)
    for f in (cfg['output_shapefile'], cfg['output_rasterized']):
        if not os.path.exists(f):
            return h.fail('%s is not written' % f, desc)
    want = [(b, c) for b, c in zip(blocks, codes)
            if not masked or b.bounds[0] < 12]
    with fiona.open(cfg['output_shapefile']) as f:
        got = [x['properties']['CAT'] for x in f]
    if got != [c for _, c in want]:
        return h.fail('codes of the polygons', dict(desc, got=got))
    nx, ny, g = grids['dem.img' if topo else 'other.img']
    ds = gdal.Open(cfg['output_rasterized'])
    a, q = ds.ReadAsArray(), ds.GetGeoTransform()
    ds = None
    if a.shape != (ny, nx) or not np.allclose(q, g, rtol=0, atol=1e-9):
        return h.fail('another grid', dict(desc, shape=a.shape, got=q))
    x = g[0] + (np.arange(nx) + .5) * g[1]
    y = g[3] + (np.arange(ny) + .5) * g[5]
    e = np.zeros((ny, nx), int)
    for b, c in want:
        w, s, o, t = b.bounds
        e[np.ix_((y > s) & (y < t), (x > w) & (x < o))] = c
    if not (a == e).all():
        return h.fail('codes of the cells', dict(desc, cells=int(
            (a != e).sum())))


class Parallel(object):
    def __init__(self, w):
        self.w = w

    COMM_WORLD = property(lambda self: self.w.comm)

    def Finalize(self):
        pass

    def Wtime(self):
        return 0.


def conversion(h):
    r = h.rng
    home = os.getcwd()
    mods = [m for m in (utilities.parallel, parallel) if m]
    for n in range(30 if h.thorough else 12):
        if not h.more():
            return
        d = tiles.folder()
        old = [(m, m.attempt_parallel) for m in mods]
        argv = sys.argv
        try:
            shutil.rmtree(os.path.join(d, 'M3'), ignore_errors=True)
            if n % 2:
                shutil.rmtree(os.path.join(d, 'M3_max'), ignore_errors=True)
            if n % 4 == 3:
                os.makedirs(os.path.join(d, 'M3'))
            k = int(r.randint(1, 4))
            names = ['e%.4fs%.4f' % (140 + .03 * q, 20.) for q in range(k)]
            want = {}
            for q, x in enumerate(names):
                lat = -20. - .01 * (np.arange(3) + .5)
                lon = 140 + .03 * q + .01 * (np.arange(3) + .5)
                for f, t, u in TYPES:
                    for dr in ORDER:
                        a = r.uniform(.5, 1.5, (3, 3)).astype(np.float32)
                        with quiet():
                            save_multiplier(u, a, lat, lon, os.path.join(
                                d, f, '%s_%s_%s.nc' % (x, t, dr)))
                        want[x, dr] = want.get((x, dr), 1.) * a.astype(float)
            size = [1, 3, 2, 4][n % 4]
            w = mpi.World(size, int(r.randint(1 << 30)), bool(n % 2),
                          [None, 0, size - 1][n // 2 % 3])
            for m in mods:
                m.attempt_parallel = lambda: Parallel(w)
            rel = n % 2 == 0
            os.chdir(os.path.dirname(d))
            path = os.path.basename(d) if rel else d
            desc = {'processes': size, 'tiles': names, 'relative': rel,
                    'n': n}
            h.case(desc)
            sys.argv = ['mpi_runner.py', '-p', path]
            with quiet():
                out = w.run(lambda: script('utilities/mpi_runner.py',
                                           sys.argv))
            for q, (_, e) in enumerate(out):
                if e is not None:
                    return h.fail('process %d: %s: %s' % (
                        q, type(e).__name__, e), desc)
            ds = [gdal.Open(f) if os.path.exists(f) else None for f in [
                os.path.join(d, s, 'wind-multipliers.vrt')
                for s in ('M3', 'M3_max')]]
            if None in ds:
                return h.fail('no mosaic', desc)
            both = [x.ReadAsArray().reshape(-1, 3, 3 * k) for x in ds]
            ds = None
            cube = np.array([np.hstack([want[x, dr] for x in names])
                             for dr in ORDER])
            got = np.sort(both[0], 0)
            if both[0].shape != cube.shape or not close(
                    got, np.sort(cube, 0), 1e-5):
                return h.fail('the products', desc)
            if not close(both[1][0], cube.max(0), 1e-5):
                return h.fail('the maximum', desc)
        finally:
            for m, f in old:
                m.attempt_parallel = f
            sys.argv = argv
            os.chdir(home)
            tiles.drop(d)


main(preprocessing, conversion)
