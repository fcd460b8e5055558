"""C32: a run does the steps with the settings of its configuration file, in
an order that is safe for several processes."""
from engine.vc import *
from engine.values import *
from engine.lib import arg
from contracts.gis import World, nat, noop, command_line, \
    configuration

REG = Registry('C32')
A = 'all_multipliers.py:'
# the steps
USES = {'C26': None, 'C27': None}
OPTIONS = {('inputValues', o): o for o in (
    'root', 'upwind_length', 'terrain_data', 'terrain_table', 'dem_data')}
OPTIONS.update({('Output', 'output_dir'): 'output_dir',
                ('Logging', 'LogFile'): 'LogFile',
                ('Logging', 'LogLevel'): 'LogLevel',
                ('Logging', 'Verbose'): 'Verbose'})


class Run(object):
    def __init__(self, v, given, verbose):
        self.v, ip = v, v.ip
        W = self.W = World(v)
        W.install()
        size, rank = v.int('size', 1), v.int('rank', 0)
        v.pre(lt(rank, size))
        self.size, self.rank, self.given = size, rank, given
        self.file = SymStr([Atom('config_file')])
        self.value = {o: SymStr([Atom(o)]) for o in OPTIONS.values()}
        self.value['upwind_length'] = Opaque('upwind_length')
        self.tiles, self.number = [ObjV(z3.Int(n)) for n in (
            'tiles', 'number')], v.int('number_of_tiles', 0)
        self.steps = v.st.new(SeqRec([]))
        command_line(v, ([('-c', self.file)] if given else []) + (
            [('-v', True)] if verbose else []))
        osm = ip.libs['os'].attrs
        place = sstr('/', SymStr([Atom('place')]))
        for n in ('realpath', 'abspath'):
            osm['path'].attrs[n] = nat(n, lambda ip, st, a, k: place)
        osm['path'].attrs['split'] = nat('split', lambda ip, st, a, k: (
            place, 'file'))
        osm['path'].attrs['dirname'] = nat('dirname', lambda ip, st, a, k:
                                           sstr('/', SymStr([Atom('d')])))
        osm['path'].attrs['isdir'] = nat(
            'isdir', lambda ip, st, a, k: self.fresh('isdir'))

        def makedirs(ip, st, a, k):
            ip.raise_unless(st, self.fresh('writable'), 'OSError')
        osm['makedirs'] = nat('makedirs', makedirs)
        ip.libs['inspect'] = ModuleVal('inspect', None, {
            'getfile': nat('getfile', lambda ip, st, a, k: 'file'),
            'currentframe': nat('currentframe', noop)})
        ip.libs['sys'].attrs['path'] = NObj('sys.path', {
            'insert': nat('insert', noop), 'append': nat('append', noop),
            '__contains__': nat('in', lambda ip, st, a, k: self.fresh(
                'in'))}.get)
        ip.libs['atexit'] = ModuleVal('atexit', None, {
            'register': nat('register', noop)})

        def get(ip, st, a, k):
            o = OPTIONS.get(tuple(a[:2]))
            if o is None or k or len(a) > 2:
                raise Unsupported('option %r' % (a,))
            st.heap[self.seen.id] = InstRec(None, {'read': True})
            return self.value[o] if o != 'Verbose' else v.bool(
                'configured_verbose')
        self.seen = v.st.new(InstRec(None, {'read': False}))

        def select(ip, st, a, k):
            ip.obl(st, 'the file is selected before anything is read', b_not(
                st.heap[self.seen.id].attrs['read']))
            self.log(st, 'select', a[0])
        config = configuration(
            get, getboolean=nat('getboolean', get),
            set_config_file=nat('set_config_file', select))
        self.comm = NObj('Comm', {
            'rank': rank, 'size': size, 'barrier': nat(
                'barrier', lambda ip, st, a, k: self.log(st, 'barrier')),
            'Barrier': nat('Barrier', lambda ip, st, a, k: self.log(
                st, 'barrier')),
            'Get_rank': nat('Get_rank', lambda ip, st, a, k: rank),
            'Get_size': nat('Get_size', lambda ip, st, a, k: size)}.get)
        self.mpi = NObj('MPI', {'COMM_WORLD': self.comm, 'Finalize': nat(
            'Finalize', noop)}.get)
        self.prepare()
        c = ip.contracts
        frame = v.module('utilities.parallel').frame

        def parallel(ip, st):
            st.frames[frame]['MPI'] = self.mpi
            return self.mpi
        c['utilities/parallel.py:attempt_parallel'] = Contract(parallel)
        c['utilities/files.py:fl_start_log'] = Contract(
            lambda ip, st, f, level, verbose=False, *r: self.log(
                st, 'start log', f, level, verbose))
        c[A + 'do_output_directory_creation'] = Contract(
            lambda ip, st, out: self.log(st, 'create', out))
        self.grid = {}

        def grid(ip, st, o, length, dem):
            self.log(st, 'grid', length, dem)
            ip.setattr(st, o, 'made', True)
        c[A + 'TileGrid.__init__'] = Contract(grid)
        seq = v.st.new(SeqRec([SymSeg(self.number, lambda k: ObjV(
            z3.Function('tile', I, I)(zi(k))))]))
        self.seq = seq

        def tiles(ip, st, g):
            self.log(st, 'tiles', ip.getattr(st, g, 'made'))
            return seq
        c[A + 'get_tiles'] = Contract(tiles)

        def init(ip, st, m, terrain, dem):
            self.log(st, 'multipliers', terrain, dem)
        c[A + 'Multipliers.__init__'] = Contract(init)

        def work(ip, st, m, t, callback=None):
            if callback is not None:
                raise Unsupported('progress')
            fr = st.frames[v.module('all_multipliers').frame]
            self.log(st, 'compute', isinstance(t, Ref) and t.id == seq.id,
                     fr.get('output_folder'), fr.get('comm') is self.comm,
                     fr.get('MPI') is self.mpi)
        c[A + 'Multipliers.parallelise_on_tiles'] = Contract(work)
        c['utilities/mpi_runner.py:parallelise_convert_on_tiles'] = \
            Contract(lambda ip, st, out, comm: self.log(
                st, 'convert', out, comm is self.comm))
        v.setmod('all_multipliers', 'config', config)

    def prepare(self):
        pass

    def fresh(self, n):
        self.k = getattr(self, 'k', 0) + 1
        return z3.Bool('%s!%d' % (n, self.k))

    def log(self, st, *x):
        r = st.heap[self.steps.id]
        st.heap[self.steps.id] = r.append(Event(*x))


@REG.task('run', [A + 'run', 'utilities/parallel.py:disable_on_workers'],
          params=['default configuration', 'configuration file',
                  'configuration file, verbose'])
def run(v, how):
    R = Run(v, how.startswith('configuration file'), 'verbose' in how)
    ip = v.ip
    waits = {}
    f = v.fn('all_multipliers', 'run')
    outs = []
    for role in (eq(R.size, 1), b_and(gt(R.size, 1), eq(R.rank, 0)),
                 gt(R.rank, 0)):
        s = v.st.copy()
        s.assume(role)
        outs += v.call(f, _st=s)
    for st, o in outs:
        if o[0] == 'raise':
            v.ensure(st, 'no error', False)
            continue
        ev = flat(ip, st, st.heap[R.steps.id].segs)
        by = {}
        for i, e in enumerate(ev):
            by.setdefault(e.name, []).append(i)
        same = lambda a, b: known(str_eq(a, b))
        n = by.get('select', [])
        v.ensure(st, 'the given file is selected, none otherwise', len(n) ==
                 bool(R.given) and all(same(ev[i].args[0], R.file)
                                       for i in n))
        v.ensure(st, 'the first process makes the folders, once', b_or(
            gt(R.rank, 0), len(by.get('create', [])) == 1))
        v.ensure(st, 'the others do not', b_or(
            eq(R.rank, 0), 'create' not in by))
        for s in ('grid', 'tiles', 'multipliers', 'compute',
                  'convert', 'start log'):
            v.ensure(st, 'once: ' + s, len(by.get(s, [])) == 1)
            if len(by.get(s, [])) != 1:
                return
        at = {s: by[s][0] for s in by}
        x = lambda s: ev[at[s]].args
        val = R.value
        v.ensure(st, 'the grid of the elevation model', same(
            x('grid')[1], val['dem_data']))
        v.ensure(st, 'with the upwind length', eq(x('grid')[0], z3.Real(
            'float_upwind_length')))
        v.ensure(st, 'the tiles of this grid', x('tiles')[0] is True)
        v.ensure(st, 'land cover and elevation model', same(x('multipliers')[
            0], val['terrain_data']) and same(x('multipliers')[1], val[
                'dem_data']))
        c = x('compute')
        v.ensure(st, 'these tiles are computed', c[0] is True)
        v.ensure(st, 'into the output folder', same(c[1], val['output_dir']))
        v.ensure(st, 'by the processes of the run', c[2] and c[3])
        v.ensure(st, 'the output folder is converted', same(
            x('convert')[0], val['output_dir']))
        v.ensure(st, 'by all processes', x('convert')[1] is True)
        v.ensure(st, 'tiles, then conversion', at['compute'] < at['convert'])
        b = by.get('barrier', [])
        if 'create' in at:
            v.ensure(st, 'the output folder of the configuration', same(
                x('create')[0], val['output_dir']))
            v.ensure(st, 'nobody computes before the folders are there', any(
                at['create'] < i < at['compute'] for i in b), exact=False)
        v.ensure(st, 'nobody converts before all tiles are computed', any(
            at['compute'] < i < at['convert'] for i in b), exact=False)
        waits[tuple(sum(i < at[s] for i in b) for s in (
            'compute', 'convert')) + (len(b),)] = st
        log = x('start log')
        v.ensure(st, 'workers keep quiet', b_or(eq(R.rank, 0), b_not(
            ip.truth(st, log[2]))))
        p = log[0]
        while isinstance(p, Choice):
            p = p.a if ip.feasible(st, p.cond) else p.b
        own = str_eq(p, val['LogFile']) is not True
        if own and ip.feasible(st, gt(R.rank, 0)) and not (isinstance(
                p, SymStr) and str(R.rank) in repr(
                    [getattr(a, '__dict__', None) or [getattr(
                        a, n, '') for n in getattr(a, '__slots__', ())]
                     for a in p.parts])):
            raise Unsupported('log file')
        v.ensure(st, 'a log file for each process', b_or(eq(R.rank, 0), own))
    for st in waits.values():
        v.ensure(st, 'all processes wait at the same places',
                 len(waits) == 1)


def flat(ip, st, segs):
    """the steps of one process; its branches are decided by its role"""
    out = []
    for g in segs:
        if isinstance(g, Items):
            out += g.items
            continue
        if not isinstance(g, CondSeg):
            raise Unsupported('the steps: %s' % g.cond)
        can = [ip.feasible(st, g.cond), ip.feasible(st, b_not(g.cond))]
        if can[0] and can[1]:
            raise Unsupported('the steps: %s' % g.cond)
        out += flat(ip, st, g.a if can[0] else g.b)
    return out


def known(x):
    if x is None:
        raise Unsupported('a name')
    return x is True


@REG.task('script', [A + '<script>'])
def script(v):
    """all_multipliers.py as a script is one run"""
    W = World(v)
    W.install()
    ref = v.st.new(SeqRec([]))

    def run(ip, st):
        st.heap[ref.id] = st.heap[ref.id].append(Event('run'))
    v.ip.contracts[A + 'run'] = Contract(run)
    for st, _ in v.outcomes(v.script('all_multipliers')):
        n = st.heap[ref.id].concrete()
        if n is None:
            raise Unsupported('runs')
        v.ensure(st, 'one run', len(list(n)) == 1)
