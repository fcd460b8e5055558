from common import *
import os
import mpi
import all_multipliers as am
from utilities.parallel import DummyCommWorld


def work(log, rank):
    class M(am.Multipliers):
        def open_dem(self):
            self.dem_ds = 'dem'

        def cut_dem(self, tile):
            log.append(('cut', rank(), tile[0]))
            if not self.dem_ds:
                raise RuntimeError('elevation model not opened')
            return 'cut of ' + tile[0]

        def multipliers_calculate(self, dem, tile):
            log.append(('computed', rank(), tile[0], dem, tuple(tile)))
    return M


def tiles(n):
    # names whose order is not that of the tiles
    return [['tile%d' % (k * 37 % 101 + 5), (k, k, k + 1, k - 1), (k, -k, k + 2, k - 2)]
            for k in range(n)]


def check(h, log, ts, desc, world=None):
    names = [t[0] for t in ts]
    cut = [e[2] for e in log if e[0] == 'cut']
    done = [e for e in log if e[0] == 'computed']
    if sorted(cut) != sorted(names):
        return h.fail('tiles cut: %s' % cut, desc)
    if sorted(e[2] for e in done) != sorted(names):
        return h.fail('tiles computed: %s' % [e[2] for e in done], desc)
    for e in done:
        if e[3] != 'cut of ' + e[2] or e[4] != tuple(ts[names.index(
                e[2])]):
            return h.fail('computed with %r' % (e,), desc)
        if log.index(('cut', 0, e[2])) > log.index(e):
            return h.fail('computed before it is cut', desc)
    if world is None:
        if [e[2] for e in done] != names:
            return h.fail('order of a serial run', desc)
        return
    if any(e[1] != 0 for e in log if e[0] == 'cut') or \
            any(e[1] == 0 for e in done):
        return h.fail('roles', dict(desc, log=log))
    for d in range(1, world.size):
        k = [m for m in world.sent if m[1] == d]
        if len([m for m in k if m[3] is None]) != 1 or k[-1][3] is not None:
            return h.fail('worker %d is not told to stop once' % d, desc)
    if world.left():
        return h.fail('%d messages are not received' % len(world.left()),
                      desc)


def parallel(h):
    r = h.rng
    todo = [(s, n) for s in range(2, 6) for n in range(0, 7)]
    k = 0
    while h.more() and k < (3000 if h.thorough else 400):
        size, n = todo[k % len(todo)] if k < 4 * len(todo) else (
            int(r.randint(2, 12)), int(r.randint(0, 30)))
        seed = int(r.randint(1 << 30))
        favour = [None, 0, 1, size - 1][k % 4]
        desc = {'processes': size, 'tiles': n, 'order': seed,
                'slow process': favour, 'buffered': bool(k % 3),
                'callback': k % 5 == 4}
        h.case(desc)
        log = []
        w = mpi.World(size, seed, bool(k % 3), favour)
        am.MPI, am.comm = w, w.comm
        M = work(log, lambda: w.comm.rank)
        ts = tiles(n)
        args = [ts] + ([lambda i: None] if k % 5 == 4 else [])
        with quiet():
            out = w.run(lambda: M('landcover', 'dem').parallelise_on_tiles(
                *args))
        for q, (_, e) in enumerate(out):
            if e is not None:
                return h.fail('process %d: %s: %s' % (q, type(
                    e).__name__, e), desc)
        check(h, log, ts, desc, w)
        k += 1


def serial(h):
    for n in range(0, 6):
        for cb in (None, lambda i: None):
            log = []
            am.MPI, am.comm = mpi.World(1), DummyCommWorld()
            desc = {'processes': 1, 'tiles': n, 'callback': cb is not None}
            h.case(desc)
            m = work(log, lambda: 0)('landcover', 'dem')
            _, e = h.call(m.parallelise_on_tiles, tiles(n), cb)
            if e:
                return h.fail('raises ' + e, desc)
            check(h, log, tiles(n), desc)


main(serial, parallel)
