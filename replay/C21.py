from common import *
import os
import shutil
import sys
import xml.etree.ElementTree as ET
import mpi
import tiles
from osgeo import gdal
import utilities.convert
import utilities.mpi_runner as runner

DIRS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
t3 = tiles.Tile(3, 3, .5, .5)


def sources(path):
    if not os.path.exists(path):
        return None
    e = ET.parse(path).iter('SourceFilename')
    d = os.path.dirname(path)
    return sorted(os.path.realpath(os.path.join(d, x.text) if x.get(
        'relativeToVRT') == '1' else x.text) for x in set(e))


def run(h):
    r = h.rng
    mods = [m for m in (sys.modules.get('convert'), utilities.convert,
                        runner) if m is not None and hasattr(m, 'Converter')]
    classes = {m.Converter for m in mods}
    jobs = []

    def init(self, tiles_, path, *a, **k):
        self.given = (list(tiles_), path)

    def convert(self):
        jobs.append((w.comm.rank, self.given[0], self.given[1]))
        return tuple([make(tile, sub) for tile in self.given[0]]
                     for sub in ('M3', 'M3_max'))

    def make(tile, sub):
        f = os.path.join(d, sub, tile + '.tif')
        t = tiles.Tile(3, 3, .5, .5, 100 + 1.5 * names.index(tile))
        tiles.raster(f, t, np.ones((3, 3)), 'f', fmt='GTiff')
        return f
    for c in classes:
        if not hasattr(c, 'run'):
            raise HarnessError('converter')
        c.__init__, c.run = init, convert
    for k in range(400 if h.thorough else 80):
        if not h.more():
            return
        size = 1 + k % 6 if k < 60 else int(r.randint(1, 12))
        n = int(r.randint(1, 9)) if k % 5 else 1 + (k // 5) % 3
        n = 0 if k % 9 == 4 else n
        if k % 16 == 7:
            n = int(r.randint(9, 24))
        names = ['e%.4fs%.3f' % (100 + 1.5 * j, -2.5 - (j % 3))
                 for j in range(n)]
        if k % 7 == 3:
            names = [x.replace('e', 'e-') for x in names]
        if k % 7 == 5:
            # whole degrees
            names = ['e%.1fs%.1f' % (100 + j, -2. - j % 3)
                     for j in range(n)]
        d = tiles.folder()
        drop = {}
        for x in names:
            ds = [q for q in DIRS if r.rand() < .8] or ['e']
            for q in ds:
                open(os.path.join(d, 'shielding', '%s_ms_%s.nc' % (x, q)),
                     'w').close()
        desc = {'processes': size, 'tiles': n, 'names': names, 'case': k}
        h.case(desc)
        del jobs[:]
        w = mpi.World(size, int(r.randint(1 << 30)), bool(k % 2))
        with quiet():
            out = w.run(lambda: runner.parallelise_convert_on_tiles(
                d, w.comm))
        for q, (_, e) in enumerate(out):
            if e is not None:
                return h.fail('process %d: %s: %s' % (q, type(
                    e).__name__, e), desc)
        did = sorted(x for _, ts, _ in jobs for x in ts)
        if did != sorted(names) or any(p != d for _, _, p in jobs):
            return h.fail('tiles converted', dict(desc, jobs=list(jobs)))
        for sub in ('M3', 'M3_max'):
            got = sources(os.path.join(d, sub, 'wind-multipliers.vrt'))
            want = sorted(os.path.realpath(os.path.join(
                d, sub, x + '.tif')) for x in names) or None
            if got != want:
                return h.fail('mosaic %s' % sub, dict(desc, got=got))
        tiles.drop(d)


def single(h):
    """the stand-in for MPI"""
    from utilities.parallel import DummyCommWorld
    c = DummyCommWorld()
    x = ['a']
    h.case({'stand-in': 1})
    if not (c.rank == 0 and c.size == 1 and c.scatter([x], root=0) == x and
            c.gather(x, root=0) == [x]):
        return h.fail('stand-in communicator', {})


try:
    main(run, single)
finally:
    shutil.rmtree(tiles.ROOT, ignore_errors=True)
