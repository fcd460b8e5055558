"""Effects of the changed code are kept inside a scratch folder: every call
that removes, creates or renames files is refused, and reported, for a path
outside it."""
from common import *
from guard import Escape, Guard
import os
import shutil
import tempfile
from types import SimpleNamespace
import all_multipliers as am
import utilities.parallel as par

SUBS = ['terrain', 'shielding', 'topographic', 'M3', 'M3_max']
ROOT = os.path.realpath(tempfile.mkdtemp(prefix='out_', dir=os.getcwd()))
drop = shutil.rmtree


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        r = os.path.relpath(p, d)
        for x in ds:
            out[os.path.normpath(os.path.join(r, x))] = None
        for x in fs:
            with open(os.path.join(p, x)) as f:
                out[os.path.normpath(os.path.join(r, x))] = f.read()
    return out


def fill(d, names):
    for n in names:
        p = os.path.join(d, n)
        if n.endswith('/'):
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('was ' + n)


OLD = ['M3/', 'M3/e1s1_m3_n.tif', 'terrain/deep/er/x.nc', 'shielding/',
       'terrain/e1s1_mz.nc', 'M3_max/old.vrt', 'other/keep.txt', 'log.txt',
       'topographic/raster/a.img', '.hidden', 'M3.txt', 'terrain_old/',
       'e1s1_dem.img']
ASIDE = ['output2/terrain/a.nc', 'outpu/b.txt', 'terrain/c.nc',
         'M3_max/d.tif', 'input/dem.img', 'x/output/terrain/e.nc', 'f.cfg']


def world(rank, size):
    c = SimpleNamespace(rank=rank, size=size, Get_rank=lambda: rank,
                        Get_size=lambda: size, barrier=lambda: None,
                        Barrier=lambda: None)
    return SimpleNamespace(COMM_WORLD=c, ANY_SOURCE=-1)


def creation(h):
    r = h.rng
    for n in range(400 if h.thorough else 120):
        if not h.more():
            return
        d = os.path.join(ROOT, 'c%d' % n)
        os.makedirs(d)
        fill(d, ASIDE)
        rel = ['output', 'output', 'new/output', 'x/output', 'output/'][
            n % 5]
        old = [f for f in OLD if r.rand() < .5] if n % 3 else []
        if n % 3 == 2:
            old = list(OLD)
        if n % 7 == 6:
            fill(d, ['output/'])
        fill(os.path.join(d, rel), old)
        out = rel if n % 2 else os.path.join(d, rel)
        size = int(r.choice([1, 1, 2, 5]))
        rank = int(r.randint(1, size)) if size > 1 and n % 4 == 1 else 0
        single = size == 1 and n % 8 < 4
        desc = {'output': rel, 'relative': n % 2, 'old': old,
                'rank': rank, 'size': size}
        h.case(desc)
        before = tree(d)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            par.MPI = am.MPI = world(rank, size)
            am.comm = am.MPI.COMM_WORLD
            if single:
                am.MPI = par.attempt_parallel()
                am.comm = am.MPI.COMM_WORLD
            with Guard(d) as g:
                try:
                    _, err = h.call(am.do_output_directory_creation, out)
                except Escape:
                    err = None
        finally:
            os.chdir(cwd)
        after = tree(d)
        if g.escaped:
            return h.fail('touches %s' % g.escaped[0], desc)
        if err:
            return h.fail('raises ' + err, desc)
        if rank:
            if after != before or g.n:
                return h.fail('a worker changes the output', dict(
                    desc, lost=sorted(set(before) - set(after))[:3]))
            continue
        o = os.path.normpath(rel)
        want = {k: x for k, x in before.items() if not k.startswith(
            o + os.sep)}
        for k in [o] + [os.path.join(o, s) for s in SUBS]:
            while k:
                want[k] = None
                k = os.path.dirname(k)
        if after != want:
            lost = sorted(set(want) - set(after))
            left = sorted(set(after) - set(want))
            return h.fail('not the folder and its five sub-folders', dict(
                desc, missing=lost[:5], left=left[:5]))
        drop(d)


try:
    main(creation)
finally:
    drop(ROOT, ignore_errors=True)
