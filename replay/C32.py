"""Whole runs: with all steps on small rasters, and with several simulated
processes. Files are only touched inside a scratch folder."""
from common import *
from guard import Escape, Guard
import glob
import os
import shutil
import sys
import tempfile
import mpi
import tiles
from tiles import Tile
import all_multipliers as am
import utilities.parallel as par
from osgeo import gdal
from netCDF4 import Dataset

ROOT = os.path.realpath(tempfile.mkdtemp(prefix='run_', dir=os.getcwd()))
drop = shutil.rmtree
DIRS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
REAL = {n: getattr(am, n) for n in (
    'do_output_directory_creation', 'attempt_parallel', 'fl_start_log')}
CONVERT = am.mpi_runner.parallelise_convert_on_tiles
CALC = {n: am.Multipliers.__dict__[n] for n in (
    'cut_dem', 'multipliers_calculate')}
CFG = '''[inputValues]
root = %(d)s/%(p)sroot
upwind_length = %(up)r
terrain_data = %(d)s/%(p)scover.tif
terrain_table = %(d)s/%(p)stable.csv
dem_data = %(d)s/%(p)sdem.tif
[Output]
output_dir = %(d)s/%(p)sout
[Logging]
LogFile = %(d)s/%(p)slog/run.log
LogLevel = INFO
Verbose = False
'''


def table(path, rows):
    with open(path, 'w') as f:
        f.write('# terrain classes\n')
        f.write('CATEGORY,DESCRIPTION,SHIELDING,ROUGHNESS_LENGTH_m\n')
        for c, s, z in rows:
            f.write('%d,class %d,%r,%r\n' % (c, c, s, z))


def old_files(out):
    for n in ('M3/e1s1.tif', 'shielding/e9.0s9.0_ms_n.nc',
              'terrain/e9.0s9.0_mz_n.nc', 'topographic/x.nc', 'note.txt'):
        p = os.path.join(out, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('old')


def settings(h, d, p, t, dem, cover, rows, up, relative=False):
    tiles.raster('%s/%sdem.tif' % (d, p), t, dem, 'f', fmt='GTiff')
    tiles.raster('%s/%scover.tif' % (d, p), t, cover, 'i', fmt='GTiff')
    table('%s/%stable.csv' % (d, p), rows)
    path = '%s/%srun.cfg' % (d, p)
    with open(path, 'w') as f:
        text = CFG % dict(d=d, p=p, up=up)
        # paths from the folder the run is started in
        f.write(text.replace(d + '/', '') if relative else text)
    return path


def m3(a):
    return -.2827 * np.log(.4554 * np.log(a) + 3.734) + 1.0762


def whole(h):
    """all steps; a level plain of one land cover has one known value"""
    r = h.rng
    for n in range(36 if h.thorough else 9):
        if not h.more():
            return
        d = os.path.join(ROOT, 'w%d' % n)
        os.makedirs(d)
        try:
            one(h, r, d, n)
        finally:
            drop(d, ignore_errors=True)


def one(h, r, d, n):
    cell = float(r.choice([.3, .25, .2]))
    sea = [0, 0, 0, .75, 0, 1][n % 6]
    step = int(np.ceil(1 / cell))
    if n == 2:
        # a last tile of a single row
        ny, nx = step + 1, 3
    else:
        ny, nx = [int(r.choice([x for x in range(2, 9) if x % step != 1]))
                  for _ in 'yx']
    if sea == .75:
        nx = 2 * step
    hills = n % 6 == 1
    if hills:
        # cells of half a kilometre
        cell = .005
        step = 200
        ny, nx = int(r.randint(4, 9)), int(r.randint(203, 206))
    t = Tile(ny, nx, cell, cell, 146., -17.)
    level = n % 2 == 0
    rows = [(1, float(r.choice([60., 85.])), .4), (2, 100., .02),
            (3, 90., .1)]
    cover = np.full((t.ny, t.nx), 1) if level else r.choice(
        [1, 2, 3], (t.ny, t.nx))
    dem = np.full((t.ny, t.nx), 40.) if level else r.uniform(
        0, 900 if hills else 300, (t.ny, t.nx))
    if sea:
        dem[:, :int(sea * t.nx)] = 0
    relative = n % 4 == 3
    cfg = settings(h, d, '', t, dem, cover, rows, cell * 1.2, relative)
    if n % 3 == 1:
        old_files(d + '/out')
    inp = dict(t.desc, level=level, table=rows, sea=sea,
               old=n % 3 == 1, relative=relative)
    h.case(inp)
    argv, sys.argv = sys.argv, ['all_multipliers.py', '-c', cfg]
    cwd = os.getcwd()
    if relative:
        os.chdir(d)
    am.fl_start_log = lambda *a, **k: None
    try:
        with Guard(d) as g:
            g.allow_libraries = True
            try:
                _, err = h.call(am.run)
            except Escape:
                err = None
            except SystemExit as e:
                err = 'SystemExit %s' % e
    finally:
        sys.argv = argv
        os.chdir(cwd)
        am.fl_start_log = REAL['fl_start_log']
    if g.escaped:
        return h.fail('touches ' + g.escaped[0], inp)
    if err:
        return h.fail('run raises ' + err, inp)
    got = {}
    for f in glob.glob(d + '/out/M3/e*.tif'):
        ds = gdal.Open(f)
        g = ds.GetGeoTransform()
        k = (int(round((t.y - g[3]) / cell)), int(round((g[0] - t.x) / cell)),
             ds.RasterYSize, ds.RasterXSize)
        got[k] = os.path.basename(f)[:-4]
        if n != 2 and not close(g, (
                t.x + k[1] * cell, cell, 0, t.y - k[0] * cell, 0, -cell),
                1e-6):
            return h.fail('a tile is not on the grid of the model', dict(
                inp, got=g))
    all_, land = [], []
    for y in range(0, t.ny, step):
        for x in range(0, t.nx, step):
            k = (y, x, min(step, t.ny - y), min(step, t.nx - x))
            all_.append(k)
            # one cell of buffer
            if dem[max(y - 1, 0):y + step + 1,
                   max(x - 1, 0):x + step + 1].any():
                land.append(k)
    if n != 2 and sorted(got) != land or len(got) != len(land):
        return h.fail('tiles', dict(inp, got=sorted(got), expected=land))
    names = sorted(got.values())
    for sub, u in (('terrain', 'mz'), ('shielding', 'ms'),
                   ('topographic', 'mt')):
        files = sorted(os.path.basename(x) for x in glob.glob(
            '%s/out/%s/*' % (d, sub)) if os.path.isfile(x))
        if files != sorted('%s_%s_%s.nc' % (x, u, y)
                           for x in names for y in DIRS):
            return h.fail('files below ' + sub, dict(inp, got=files[:9]))
    vrt = d + '/out/%s/wind-multipliers.vrt'
    if not names:
        if os.path.exists(vrt % 'M3'):
            return h.fail('a mosaic of nothing', inp)
        return
    ds = gdal.Open(vrt % 'M3')
    top = min(k[0] for k in land)
    left = min(k[1] for k in land)
    size = (max(k[0] + k[2] for k in land) - top,
            max(k[1] + k[3] for k in land) - left)
    corner = (t.x + left * cell, cell, 0, t.y - top * cell, 0, -cell)
    if ds is None or (ds.RasterYSize, ds.RasterXSize) != size or \
            not close(ds.GetGeoTransform(), corner, 1e-6):
        return h.fail('the mosaic is not on the grid of the model', dict(
            inp, got=ds and ds.GetGeoTransform()),
            key='single-line-tile' if n == 2 else None)
    a = ds.ReadAsArray()
    ds = gdal.Open(vrt % 'M3_max')
    if (ds.RasterYSize, ds.RasterXSize) != size or not close(
            ds.GetGeoTransform(), corner, 1e-6):
        return h.fail('the mosaic of the maxima', inp)
    most = ds.GetRasterBand(1).ReadAsArray()
    ds = None
    want = np.full((8, t.ny, t.nx), np.nan)
    if level:
        s = rows[0][1] / 100.
        s = s * .9 if s < .9 else s * s
        # averages reach no other cell, and there is no slope
        want[:] = s * m3(.4)
    else:
        for k, x in got.items():
            for b, y in enumerate(DIRS):
                v = 1.
                for sub, u in (('terrain', 'mz'), ('shielding', 'ms'),
                               ('topographic', 'mt')):
                    nc = Dataset('%s/out/%s/%s_%s_%s.nc' % (d, sub, x, u,
                                                            y))
                    q = [q for q in nc.variables if q not in (
                        'lat', 'lon', 'crs')][0]
                    v = v * np.ma.filled(nc.variables[q][:].astype(float),
                                         np.nan)
                    nc.close()
                want[b, k[0]:k[0] + k[2], k[1]:k[1] + k[3]] = v
    for k in land:
        part = slice(k[0], k[0] + k[2]), slice(k[1], k[1] + k[3])
        own = slice(k[0] - top, k[0] + k[2] - top), slice(
            k[1] - left, k[1] + k[3] - left)
        w, g, m = want[:, part[0], part[1]], a[:, own[0], own[1]], most[own]
        bad = ~(np.abs(g - w) < 1e-4)
        if bad.any():
            b, i, j = np.argwhere(bad)[0]
            return h.fail('another multiplier', dict(
                inp, band=DIRS[b], row=k[0] + i, column=k[1] + j,
                got=g[b, i, j], expected=w[b, i, j]))
        if (np.abs(m - w.max(axis=0)) >= 1e-4).any():
            return h.fail('another largest multiplier', dict(inp, tile=k))


def together(h):
    """several processes"""
    r = h.rng
    for n in range(400 if h.thorough else 60):
        if not h.more():
            return
        d = os.path.join(ROOT, 'p%d' % n)
        os.makedirs(d)
        try:
            several(h, r, d, n)
        finally:
            for k, f in REAL.items():
                setattr(am, k, f)
            am.mpi_runner.parallelise_convert_on_tiles = CONVERT
            for k, f in CALC.items():
                setattr(am.Multipliers, k, f)
            drop(d, ignore_errors=True)


def several(h, r, d, n):
    size = 1 + n % 5
    up = float(r.choice([.1, .35, 1.]))
    t = Tile(int(r.randint(3, 11)), int(r.randint(3, 11)), .3, .3,
             *[(140., -20.), (99.4, 1.2), (-.9, -.6), (178.9, -43.1)][n % 4])
    if n == 7:
        # a continent
        t = Tile(33, 34, 1., 1., 113., -10.)
    o = Tile(5, 12, .3, .3, 120., -30.)
    z = np.ones((t.ny, t.nx))
    cfg = settings(h, d, '', t, z, z, [(1, 85., .4)], up)
    # another configuration, selected before
    other = settings(h, d, 'x', o, np.ones((5, 12)), np.ones((5, 12)),
                     [(1, 85., .4)], 2.)
    out = d + '/out'
    if n % 2:
        old_files(out)
    if n % 3 == 0:
        am.config.set_config_file(other)
    seed = int(r.randint(1 << 30))
    inp = dict(processes=size, rows=t.ny, columns=t.nx, upwind=up,
               old=bool(n % 2), order=seed)
    h.case(inp)
    w = mpi.World(size, seed, bool(n % 3), [None, 0, size - 1][n % 3])
    log, logs, bad = [], {}, []
    ready = lambda: os.path.isdir(out + '/shielding') and os.path.isdir(
        out + '/M3_max') and not os.path.exists(out + '/note.txt')

    def parallel():
        par.MPI = w
        return w

    def cut(self, tile):
        log.append(('cut', tile[0]))
        return 'cut of ' + tile[0]

    def calc(self, dem, tile):
        w.wait(lambda: True)
        if not ready():
            bad.append('tiles are computed before the folders are there')
        log.append(('tile', tile[0], tuple(map(tuple, tile[1:])),
                    os.path.realpath(am.output_folder),
                    {x for x in vars(self).values() if isinstance(
                        x, str)}))

    def convert(path, comm, *a):
        if sum(e[0] == 'tile' for e in log) < len(want):
            bad.append('conversion starts before all tiles are computed')
        if not ready():
            bad.append('conversion before the folders are there')
        log.append(('convert', os.path.realpath(path), comm is w.comm))
        w.wait(lambda: True)

    def start(f, *a, **k):
        logs[w.comm.rank] = os.path.realpath(f)

    def create(p):
        w.wait(lambda: True)
        REAL['do_output_directory_creation'](p)
    am.attempt_parallel = parallel
    am.fl_start_log = start
    am.do_output_directory_creation = create
    am.mpi_runner.parallelise_convert_on_tiles = convert
    am.Multipliers.cut_dem = cut
    am.Multipliers.multipliers_calculate = calc
    with quiet():
        want = [[x[0], tuple(x[1]), tuple(x[2])] for x in am.get_tiles(
            am.TileGrid(up, d + '/dem.tif'))]
    argv, sys.argv = sys.argv, ['all_multipliers.py', '-c', cfg]
    try:
        with quiet(), Guard(d) as g:
            res = w.run(am.run)
    finally:
        sys.argv = argv
    if g.escaped:
        return h.fail('touches ' + g.escaped[0], inp)
    for q, (_, e) in enumerate(res):
        if e is not None:
            return h.fail('process %d: %s: %s' % (q, type(e).__name__, e),
                          inp)
    if bad:
        return h.fail(bad[0], inp)
    done = [e for e in log if e[0] == 'tile']
    if sorted(e[1] for e in done) != sorted(x[0] for x in want):
        return h.fail('other tiles', dict(inp, got=[e[1] for e in done]))
    for e in done:
        k = [x for x in want if x[0] == e[1]][0]
        if list(e[2]) != k[1:]:
            return h.fail('other windows of the tile', dict(inp, tile=e[1]))
        if e[3] != out:
            return h.fail('another output folder', dict(inp, got=e[3]))
        if not e[4] >= {d + '/dem.tif', d + '/cover.tif'}:
            return h.fail('other rasters', dict(inp, got=sorted(e[4])))
    conv = [e for e in log if e[0] == 'convert']
    if len(conv) != size or any(e[1:] != (out, True) for e in conv):
        return h.fail('conversion', dict(inp, got=conv))
    if len(set(logs.values())) != len(logs):
        return h.fail('processes share a log file', inp)


h_rule = ('whole runs on small rasters, level and rough; runs of 1 to 5 '
          'simulated processes in random orders')
try:
    main(together, whole)
finally:
    drop(ROOT, ignore_errors=True)
