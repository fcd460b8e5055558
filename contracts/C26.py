"""C26: the output folders are recreated empty, by the master only."""
from engine.vc import *
from engine.values import *
from contracts.gis import nat, noop

REG = Registry('C26')
A = 'all_multipliers.py:'
P = 'utilities/parallel.py:'
SUBS = ['terrain', 'shielding', 'topographic', 'M3', 'M3_max']


class Disk(object):
    """the output folder and what is below it; `old`: something that was
    there before may still be there"""

    def __init__(self, v):
        self.v, ip = v, v.ip
        self.root = SymStr([Atom('output')])
        self.paths = {s: sstr(self.root, '/' + s) for s in SUBS}
        there = v.bool('output_exists')
        d = {'root': there, 'old': there, 'touched': False}
        for s in SUBS:
            d[s] = b_and(there, v.bool('exists_' + s))
        self.ref = v.st.new(InstRec(None, d))

        def effect(fn):
            def f(ip, st, a, k):
                ip.assumed.add('os and shutil: exists, isdir, makedirs, '
                               'mkdir and rmtree work on the named folder '
                               'as documented, and nothing else changes the '
                               'output folder meanwhile')
                w = self.which(a[0])
                if w is None:
                    ip.obl(st, 'nothing but the output folder is touched',
                           False)
                    raise Unsupported('another path')
                return fn(ip, st, w, a[1:], k)
            return f

        def exists(ip, st, w, a, k):
            return self.get(st, w)

        def make(ip, st, w, a, k):
            ok = ip.truth(st, k.get('exist_ok', a[1] if len(a) > 1 else
                                    False))
            ip.raise_unless(st, b_or(ok, b_not(self.get(st, w))),
                            'FileExistsError')
            self.put(st, **{w: True, 'root': True, 'touched': True})

        def mkdir(ip, st, w, a, k):
            ip.raise_unless(st, b_not(self.get(st, w)), 'FileExistsError')
            if w != 'root':
                ip.raise_unless(st, self.get(st, 'root'),
                                'FileNotFoundError')
            self.put(st, **{w: True, 'touched': True})

        def rmtree(ip, st, w, a, k):
            if w == 'root':
                if not (k.get('ignore_errors') or a and a[0]):
                    ip.raise_unless(st, self.get(st, 'root'),
                                    'FileNotFoundError')
                self.put(st, root=False, old=False, touched=True,
                         **{s: False for s in SUBS})
            else:
                if not (k.get('ignore_errors') or a and a[0]):
                    ip.raise_unless(st, self.get(st, w),
                                    'FileNotFoundError')
                self.put(st, touched=True, **{w: False})
        osm = ip.libs['os'].attrs
        for n in ('exists', 'isdir', 'lexists'):
            osm['path'].attrs[n] = nat('os.path.' + n, effect(exists))
        osm['makedirs'] = nat('os.makedirs', effect(make))
        osm['mkdir'] = nat('os.mkdir', effect(mkdir))
        ip.libs['shutil'] = ModuleVal('shutil', None, {
            'rmtree': nat('shutil.rmtree', effect(rmtree))})

    def which(self, p):
        for w, q in [('root', self.root)] + list(self.paths.items()):
            r = str_eq(p, q)
            if r is True:
                return w
        if isinstance(p, str) or all(str_eq(p, q) is False for q in [
                self.root] + list(self.paths.values())):
            return None
        raise Unsupported('path %r' % (p,))

    def get(self, st, n):
        return st.heap[self.ref.id].attrs[n]

    def put(self, st, **kw):
        a = dict(st.heap[self.ref.id].attrs)
        a.update(kw)
        st.heap[self.ref.id] = InstRec(None, a)


@REG.task('creation', [A + 'do_output_directory_creation',
                       P + 'disable_on_workers'], params=['master',
                                                          'worker'])
def creation(v, who):
    size, rank = v.int('size', 1), v.int('rank', 0)
    v.pre(lt(rank, size))
    v.pre(eq(rank, 0) if who == 'master' else gt(rank, 0))
    d = Disk(v)
    comm = NObj('Comm', {
        'size': size, 'rank': rank,
        'Get_rank': nat('Get_rank', lambda ip, st, a, k: rank),
        'Get_size': nat('Get_size', lambda ip, st, a, k: size)}.get)
    mpi = NObj('MPI', {'COMM_WORLD': comm}.get)
    v.setmod('utilities.parallel', 'MPI', mpi)
    v.setmod('all_multipliers', 'MPI', mpi)
    v.setmod('all_multipliers', 'comm', comm)
    before = dict(v.st.heap[d.ref.id].attrs)
    for st, _ in v.outcomes(v.fn('all_multipliers',
                                 'do_output_directory_creation'), d.root):
        if who == 'worker':
            v.ensure(st, 'a worker changes nothing', b_not(
                d.get(st, 'touched')))
            for n, x in before.items():
                v.ensure(st, 'unchanged: ' + n, eq(d.get(st, n), x)
                         if norm(x) is not norm(d.get(st, n)) else True)
            continue
        v.ensure(st, 'the output folder is there', d.get(st, 'root'))
        v.ensure(st, 'nothing old is left', b_not(d.get(st, 'old')))
        for s in SUBS:
            v.ensure(st, 'folder %s is there' % s, d.get(st, s))
