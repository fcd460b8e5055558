"""C36: the scripts do their steps on what they are given: pre_process.py on
the layers of the configuration file of its command line, mpi_runner.py on the
folder of its command line."""
from engine.vc import *
from engine.values import *
from contracts.gis import World, nat, noop, command_line, \
    configuration

REG = Registry('C36')
P = 'pre_process.py:'
M = 'utilities/mpi_runner.py:'
F = 'utilities/convert.py:'
# what the steps do, and that the given file decides
USES = {'C24': None, 'C31': None, 'C27': None}
OPTIONS = ('settlement_data', 'settlement_cat', 'land_use_data',
           'land_use_cat', 'crop_mask', 'output_shapefile',
           'output_rasterized', 'input_topo', 'topo_crop')


class Steps(object):
    def __init__(self, v):
        self.v = v
        self.ref = v.st.new(SeqRec([]))

    def log(self, st, *x):
        r = st.heap[self.ref.id]
        st.heap[self.ref.id] = r.append(Event(*x))

    def all(self, st):
        its = st.heap[self.ref.id].concrete()
        if its is None:
            raise Unsupported('steps depend on the path')
        return list(its)


def names(s):
    return {p.name for p in str_parts(s) if isinstance(p, Atom)}


def same(a, b):
    """equal texts or objects"""
    if not isinstance(a, (str, SymStr)):
        return a is b
    r = str_eq(a, b)
    if r is None and names(a) != names(b):
        # the texts differ for some values
        return False
    if r is None or not isinstance(norm(r), bool):
        raise Unsupported('text %r' % (a,))
    return norm(r)


KINDS = {'True': lambda n: 'True',
         'a file': lambda n: SymStr([
             '/', Atom(n)]),
         'a relative file': lambda n: SymStr([Atom(n), '.img'])}


@REG.task('pre_process.py', [P + '<script>', P + 'cmd_line'],
          params=[t + ', ' + m + o for t in KINDS for m in (
              'mask', 'no mask') for o in ('', ', -v')])
def script(v, how):
    """the settings, the polygons, then their raster"""
    topo, mask = how.split(', ')[:2]
    W = World(v)
    W.install()
    ip = v.ip
    S = Steps(v)
    given = SymStr([Atom('config_file')])
    command_line(v, [('-v', True), ('--config_file', given)]
                 if how.endswith('-v') else [('-c', given)])
    value = {('Preprocessing', o): SymStr([Atom(o)]) for o in OPTIONS}
    value['inputValues', 'dem_data'] = SymStr([Atom('dem_data')])
    value['Preprocessing', 'input_topo'] = KINDS[topo]('input_topo')
    value['Preprocessing', 'topo_crop'] = 'True'
    if mask == 'no mask':
        value['Preprocessing', 'crop_mask'] = 'None'

    def get(ip, st, a, k):
        x = value.get(tuple(a))
        if x is None or k:
            raise Unsupported('option %r' % (a,))
        S.log(st, 'read', a[1])
        return x

    def flag(ip, st, a, k):
        x = get(ip, st, a, k)
        if not isinstance(x, str):
            raise Unsupported('a text as truth value')
        ip.raise_unless(st, x in ('True', 'False'), 'ValueError')
        return x == 'True'
    config = configuration(
        get, getboolean=nat('getboolean', flag), set_config_file=nat(
            'set_config_file', lambda ip, st, a, k: S.log(st, 'select', *a)))
    v.module('utilities.config')
    v.setmod('utilities.config', 'configparser', config)
    c = ip.contracts
    c[P + 'pre_process'] = Contract(
        lambda ip, st, settlment_file, settlment_cat, landuse_file,
        landuse_cat, crop_mask_file, output_shapefile: S.log(
            st, 'polygons', settlment_file, settlment_cat, landuse_file,
            landuse_cat, crop_mask_file, output_shapefile))
    c[P + 'rasterize'] = Contract(
        lambda ip, st, input, output, input_topo, crop_topo=None: S.log(
            st, 'raster', input, output, input_topo))
    opt = lambda o: value['Preprocessing', o]
    for st, _ in v.outcomes(v.script('pre_process')):
        ev = S.all(st)
        names = [e.name for e in ev]
        v.ensure(st, 'the given file is selected', 'select' in names and all(
            same(e.args[0], given) for e in ev if e.name == 'select'))
        v.ensure(st, 'before any option is read', 'read' not in names or
                 'select' in names and
                 names.index('select') < names.index('read'))
        v.ensure(st, 'the polygons are made once', names.count(
            'polygons') == 1)
        v.ensure(st, 'one raster is made', names.count('raster') == 1)
        if names.count('polygons') != 1 or names.count('raster') != 1:
            continue
        i, j = names.index('polygons'), names.index('raster')
        v.ensure(st, 'the polygons, then their raster', i < j)
        for a, o in zip(ev[i].args, OPTIONS):
            v.ensure(st, 'polygons: ' + o, same(a, opt(o)))
        r = ev[j].args
        v.ensure(st, 'raster: the saved polygons', same(
            r[0], opt('output_shapefile')))
        v.ensure(st, 'raster: output_rasterized', same(
            r[1], opt('output_rasterized')))
        v.ensure(st, 'raster: on the configured elevation raster', same(
            r[2], value['inputValues', 'dem_data'] if topo == 'True'
            else opt('input_topo')))


@REG.task('mpi_runner.py', [M + '<script>'],
          params=['one process', 'master', 'worker'])
def runner(v, who):
    """the folders of the result, then the conversion by all processes"""
    W = World(v)
    W.install()
    ip = v.ip
    S = Steps(v)
    path = SymStr([Atom('path')])
    command_line(v, [('-p', path)])
    size, rank = v.int('size', 1), v.int('rank', 0)
    v.pre(lt(rank, size))
    v.pre({'one process': eq(size, 1), 'master': b_and(
        gt(size, 1), eq(rank, 0)), 'worker': gt(rank, 0)}[who])
    comm = NObj('Comm', {
        'rank': rank, 'size': size,
        'barrier': nat('barrier', noop), 'Barrier': nat('Barrier', noop),
        'Get_rank': nat('Get_rank', lambda ip, st, a, k: rank),
        'Get_size': nat('Get_size', lambda ip, st, a, k: size)}.get)
    mpi = NObj('MPI', {'COMM_WORLD': comm,
                       'Finalize': nat('Finalize', noop)}.get)
    c = ip.contracts
    c['utilities/parallel.py:attempt_parallel'] = Contract(
        lambda ip, st: mpi)
    c[F + 'create_sub_dirs_for_convert'] = Contract(
        lambda ip, st, data_path: S.log(st, 'folders', data_path))
    c[M + 'parallelise_convert_on_tiles'] = Contract(
        lambda ip, st, data_path, comm_: S.log(
            st, 'convert', data_path, comm_ is comm))
    for st, _ in v.outcomes(v.script('utilities.mpi_runner')):
        ev = S.all(st)
        names = [e.name for e in ev]
        v.ensure(st, 'every process takes part in one conversion',
                 names.count('convert') == 1)
        if 'convert' not in names:
            continue
        k = names.index('convert')
        v.ensure(st, 'of the given folder', same(ev[k].args[0], path))
        v.ensure(st, 'by the processes of the run', ev[k].args[1])
        v.ensure(st, 'the first process makes the folders before', who ==
                 'worker' or 'folders' in names[:k])
        v.ensure(st, 'the folders are below the given one', all(same(
            e.args[0], path) for e in ev if e.name == 'folders'))


@REG.task('result folders', [F + 'create_sub_dirs_for_convert'],
          params=['none there', 'M3 there', 'M3_max there', 'both there'])
def folders(v, how):
    """M3 and M3_max exist afterwards, nothing else is made, whether they
    existed or not"""
    W = World(v)
    W.install()
    ip = v.ip
    path = SymStr([Atom('path')])
    made = Steps(v)
    have = {'n': (), 'b': ('M3', 'M3_max')}.get(how[0], (how.split()[0],))

    def makedirs(ip, st, a, k):
        ok = a[2] if len(a) > 2 else k.get('exist_ok', False)
        if set(k) - {'exist_ok'}:
            raise Unsupported('makedirs')
        ip.raise_unless(st, ok or not there(st, a[0]), 'OSError')
        made.log(st, 'make', a[0])

    def there(st, x):
        for q in ('M3', 'M3_max'):
            if same(x, sstr(path, '/', q)):
                return q in have or any(same(e.args[0], x)
                                        for e in made.all(st))
        raise Unsupported('another folder')
    osm = ip.libs['os'].attrs
    osm['makedirs'] = nat('makedirs', makedirs)
    for n in ('exists', 'isdir'):
        osm['path'].attrs[n] = nat(n, lambda ip, st, a, k: there(st, a[0]))
    want = [sstr(path, '/', q) for q in ('M3', 'M3_max')]
    for st, _ in v.outcomes(v.fn('utilities.convert',
                                 'create_sub_dirs_for_convert'), path):
        ev = made.all(st)
        v.ensure(st, 'both folders', all(there(st, w) for w in want))
        v.ensure(st, 'no other folder', all(any(same(
            e.args[0], w) for w in want) for e in ev))
