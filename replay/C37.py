"""The log files of simulated processes; every step of the run says something
at each level. Files are only touched inside a scratch folder."""
from common import *
from guard import Escape, Guard
import io
import locale
import logging
import os
import shutil
import sys
import tempfile
from types import SimpleNamespace
import tiles
from tiles import Tile
import all_multipliers as am
import utilities.parallel as par
from utilities import files

ROOT = os.path.realpath(tempfile.mkdtemp(prefix='log_', dir=os.getcwd()))
drop = shutil.rmtree
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
REAL = {n: getattr(am, n) for n in (
    'attempt_parallel', 'get_tiles', 'do_output_directory_creation')}
CONVERT = am.mpi_runner.parallelise_convert_on_tiles
WORK = am.Multipliers.__dict__['parallelise_on_tiles']
MKDIR = os.mkdir
CFG = '''[inputValues]
root = %(d)s/root
upwind_length = 0.4
terrain_data = %(d)s/cover.tif
terrain_table = %(d)s/table.csv
dem_data = %(d)s/dem.tif
[Output]
output_dir = %(d)s/out
[Logging]
LogFile = %(log)s
LogLevel = %(level)s
Verbose = %(verbose)s
'''


class Screen(io.StringIO):
    def __init__(self, tty):
        io.StringIO.__init__(self)
        self.tty = tty

    def isatty(self):
        return self.tty


class Process(object):
    """a fresh process: no handlers, its own terminal and folder"""

    def __init__(self, cwd, tty, argv):
        self.cwd, self.argv = cwd, argv
        self.screen = Screen(tty)

    def __enter__(self):
        r = logging.getLogger()
        self.old = r.handlers[:], r.level, sys.stdout, sys.stderr, \
            sys.argv, os.getcwd()
        r.handlers[:] = []
        r.setLevel(logging.WARNING)
        logging.disable(logging.NOTSET)
        sys.stdout = sys.stderr = self.screen
        sys.argv = self.argv
        os.chdir(self.cwd)
        return self

    def __exit__(self, *a):
        logging.disable(logging.CRITICAL)
        r = logging.getLogger()
        for x in r.handlers[:]:
            try:
                x.close()
            except Exception:
                pass
        r.handlers[:], level, sys.stdout, sys.stderr, sys.argv, d = self.old
        r.setLevel(level)
        os.chdir(d)


# names of files and folders are logged, in any script
LETTERS = '\xe9\u6f22' if locale.getpreferredencoding(
    False).lower() in ('utf-8', 'utf8') else ''


def mark(step):
    for x in LEVELS:
        logging.log(getattr(logging, x), 'mark %s%s %s' % (LETTERS, step, x))


def marks(text):
    return [x[x.index('mark '):] for x in text.splitlines() if 'mark ' in x]


def expected(level, steps):
    return ['mark %s%s %s' % (LETTERS, s, x) for s in steps for x in LEVELS[
        LEVELS.index(level):]]


def read(path):
    if not os.path.isfile(path):
        return None
    with open(path, errors='replace') as f:
        return f.read()


def rival(folder):
    """another process makes the folder just before this one"""
    def mkdir(p, *a, **k):
        if os.path.realpath(p) == folder and not os.path.exists(folder):
            MKDIR(p, *a, **k)
        return MKDIR(p, *a, **k)
    return mkdir


# the place of the log file and what is in its way
PLACES = ['missing', 'there', 'deep', 'rival', 'blocked', 'a file', 'bare',
          'relative', 'old', 'fallback old']


def place(d, kind):
    """the configured name, where it is, and the fallback, if needed"""
    cwd = d + '/start'
    os.makedirs(cwd)
    if kind == 'bare':
        return 'run.log', cwd + '/run.log'
    if kind == 'relative':
        return 'logs/run.log', cwd + '/logs/run.log'
    f = d + '/logs/run.log'
    if kind == 'deep':
        f = d + '/a/b/c/run.log'
    if kind in ('there', 'old'):
        os.makedirs(d + '/logs')
    if kind in ('blocked', 'fallback old'):
        with open(d + '/logs', 'w') as g:
            g.write('a file\n')
        f = d + '/logs/deep/run.log'
    if kind == 'a file':
        with open(d + '/logs', 'w') as g:
            g.write('a file\n')
    return f, f


def lost(kind):
    return kind in ('blocked', 'a file', 'fallback old')


def alone(h):
    """fl_start_log by itself"""
    r = h.rng
    h.rule = 'starts of logs, and runs of 1 to 4 processes: levels, ' \
        'folders, terminals'
    for n in range(400 if h.thorough else 80):
        if not h.more():
            return
        d = os.path.join(ROOT, 's%d' % n)
        os.makedirs(d)
        try:
            begin(h, r, d, n)
        finally:
            os.mkdir = MKDIR
            drop(d, ignore_errors=True)


def begin(h, r, d, n):
    kind = PLACES[n % len(PLACES)]
    level = LEVELS[int(r.randint(5))]
    verbose, tty, new = [bool(r.randint(2)) for _ in 'vtn']
    name, path = place(d, kind)
    if lost(kind):
        path = d + '/start/run.log'
    before = ''
    if kind in ('old', 'fallback old'):
        before = 'mark old INFO\n'
        with open(path, 'w') as f:
            f.write(before)
    if kind == 'rival':
        os.mkdir = rival(d + '/logs')
    inp = dict(start=kind, level=level, verbose=verbose, terminal=tty,
               new=new)
    h.case(inp)
    p = Process(d + '/start', tty, ['program'])
    err = None
    with Guard(d) as g, p:
        try:
            files.fl_start_log(name, level, verbose=verbose, newlog=new)
            mark('a')
            mark('b')
        except Escape:
            pass
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
    os.mkdir = MKDIR
    if g.escaped:
        return h.fail('touches ' + g.escaped[0], inp)
    if err:
        return h.fail('fl_start_log raises ' + err, inp)
    got = read(path)
    if got is None:
        return h.fail('no log file', inp)
    want = ([] if new else marks(before)) + expected(level, 'ab')
    if marks(got) != want:
        return h.fail('another log', dict(inp, got=marks(got)[:12]))
    want = expected(level, 'ab') if verbose and tty else []
    if marks(p.screen.getvalue()) != want:
        return h.fail('on the terminal', dict(
            inp, got=marks(p.screen.getvalue())[:12]))


def runs(h):
    r = h.rng
    for n in range(300 if h.thorough else 60):
        if not h.more():
            return
        d = os.path.join(ROOT, 'r%d' % n)
        os.makedirs(d)
        try:
            several(h, r, d, n)
        finally:
            os.mkdir = MKDIR
            restore()
            drop(d, ignore_errors=True)


def restore():
    for k, f in REAL.items():
        setattr(am, k, f)
    am.mpi_runner.parallelise_convert_on_tiles = CONVERT
    am.Multipliers.parallelise_on_tiles = WORK


def several(h, r, d, n):
    kind = PLACES[n % len(PLACES)]
    size = 1 + (n // 2) % 4
    level = LEVELS[int(r.randint(5))]
    setting, option, tty = [bool(r.randint(2)) for _ in 'vot']
    name, path = place(d, kind)
    if lost(kind):
        path = d + '/start/multipliers.log'
    inputs(d, name, level, setting)
    names = [path] + ['%s_%d' % (path, q) for q in range(1, size)]
    old = kind in ('old', 'fallback old')
    for x in names if old else []:
        with open(x, 'w') as f:
            f.write('mark old INFO\n')
    inp = dict(run=kind, level=level, verbose=[setting, option],
               terminal=tty, processes=size)
    h.case(inp)
    says = {}
    for rank in range(size):
        if kind == 'rival':
            os.mkdir = rival(d + '/logs')
            if os.path.isdir(d + '/logs') and rank == 1:
                # found missing by this process, too
                drop(d + '/logs')
                says.clear()
        comm = SimpleNamespace(
            rank=rank, size=size, name='c', barrier=lambda: None,
            Barrier=lambda: None, Get_rank=lambda rank=rank: rank,
            Get_size=lambda size=size: size)
        world = SimpleNamespace(COMM_WORLD=comm, Finalize=lambda: None,
                                Init=lambda: None)

        def parallel():
            REAL['attempt_parallel']()
            par.MPI = world
            return world
        am.attempt_parallel = parallel

        def make(p):
            mark('folders%d' % rank)

        def grid(t):
            mark('tiles%d' % rank)
            return []

        def work(self, t, callback=None):
            mark('work%d' % rank)

        def convert(p, c, *a):
            mark('convert%d' % rank)
        am.do_output_directory_creation = make
        am.get_tiles = grid
        am.Multipliers.parallelise_on_tiles = work
        am.mpi_runner.parallelise_convert_on_tiles = convert
        argv = ['all_multipliers.py', '-c', d + '/run.cfg'] + (
            ['-v'] if option else [])
        p = Process(d + '/start', tty, argv)
        err = None
        with Guard(d) as g, p:
            try:
                am.run()
                mark('end%d' % rank)
            except Escape:
                pass
            except BaseException as e:
                err = '%s: %s' % (type(e).__name__, e)
        os.mkdir = MKDIR
        restore()
        if g.escaped:
            return h.fail('touches ' + g.escaped[0], inp)
        if err:
            return h.fail('process %d raises %s' % (rank, err), inp)
        steps = ['%s%d' % (s, rank) for s in (
            'folders', 'tiles', 'work', 'convert', 'end')]
        says[names[rank]] = expected(level, steps)
        echo = expected(level, steps) if tty and not rank and (
            setting or option) else []
        got = marks(p.screen.getvalue())
        if got != echo:
            return h.fail('on the terminal of process %d' % rank, dict(
                inp, got=got[:12]))
        for x in names:
            if x not in says:
                continue
            got = read(x)
            if got is None:
                return h.fail('no log of process %d' % names.index(x), inp)
            if marks(got) != says[x]:
                return h.fail('another log of process %d' % names.index(x),
                              dict(inp, got=marks(got)[:12]))
    if kind != 'rival':
        found = sorted(os.listdir(os.path.dirname(path)))
        if found != sorted(os.path.basename(x) for x in names):
            return h.fail('log files', dict(inp, got=found))


def inputs(d, name, level, verbose):
    t = Tile(4, 5, .25, .25, 140., -20.)
    z = np.ones((t.ny, t.nx))
    tiles.raster(d + '/dem.tif', t, z * 40, 'f', fmt='GTiff')
    tiles.raster(d + '/cover.tif', t, z, 'i', fmt='GTiff')
    with open(d + '/table.csv', 'w') as f:
        f.write('# terrain classes\n')
        f.write('CATEGORY,DESCRIPTION,SHIELDING,ROUGHNESS_LENGTH_m\n')
        f.write('1,class 1,85.0,0.4\n')
    with open(d + '/run.cfg', 'w') as f:
        f.write(CFG % dict(d=d, log=name, level=level, verbose=verbose))


def whole(h):
    """the steps leave the log as it is"""
    for level in ('DEBUG', 'ERROR') if not h.thorough else LEVELS:
        d = os.path.join(ROOT, 'w' + level)
        os.makedirs(d)
        name, path = place(d, 'missing')
        inputs(d, name, level, False)
        inp = dict(whole=level)
        h.case(inp)
        p = Process(d + '/start', False, [
            'all_multipliers.py', '-c', d + '/run.cfg'])
        err = None
        try:
            with Guard(d) as g, p:
                g.allow_libraries = True
                try:
                    am.run()
                    mark('end')
                except Escape:
                    pass
                except BaseException as e:
                    err = '%s: %s' % (type(e).__name__, e)
            if g.escaped:
                return h.fail('touches ' + g.escaped[0], inp)
            if err:
                return h.fail('run raises ' + err, inp)
            got = read(path)
            if got is None:
                return h.fail('no log', inp)
            if marks(got) != expected(level, ['end']):
                return h.fail('the steps change the log', dict(
                    inp, got=marks(got)))
            if marks(p.screen.getvalue()):
                return h.fail('the steps change the terminal', inp)
        finally:
            drop(d, ignore_errors=True)


try:
    main(alone, runs, whole)
finally:
    drop(ROOT, ignore_errors=True)
