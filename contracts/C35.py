"""C35: the system runs as one process without MPI, and the wrappers around
its steps change nothing about them."""
from engine.vc import *
from engine.values import *
from contracts.gis import World, nat, noop

REG = Registry('C35')
P, A, M = 'utilities/parallel.py:', 'all_multipliers.py:', \
    'utilities/meta.py:'
USES = {'C20': ['serial'], 'C21': ['single process']}


def same(ip, st, a, b):
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return eq(a.term, b.term)
    r = ip.equal(st, a, b)
    if r is None:
        raise Unsupported('not the same kind')
    return r


@REG.task('no MPI', [
    P + 'attempt_parallel', P + 'attempt_parallel.DummyMPI.__init__',
    P + 'attempt_parallel.DummyMPI.Init',
    P + 'attempt_parallel.DummyMPI.Finalize',
    P + 'DummyCommWorld.__init__', P + 'DummyCommWorld.rank',
    P + 'DummyCommWorld.size', P + 'DummyCommWorld.name',
    P + 'DummyCommWorld.Get_rank', P + 'DummyCommWorld.Get_size',
    P + 'DummyCommWorld.barrier', P + 'DummyCommWorld.finalize',
    P + 'DummyCommWorld.scatter', P + 'DummyCommWorld.gather',
    P + 'DummyStatus.__init__'], params=['once', 'again'])
def alone(v, how):
    ip = v.ip
    v.keeps.add('MPI')
    f = v.fn('utilities.parallel', 'attempt_parallel')
    if how == 'again':
        st, _ = v.call1(f)
        v.st = st
    st, m = v.call1(f)
    frame = st.frames[v.module('utilities.parallel').frame]
    g = frame.get('MPI')
    v.ensure(st, 'the rest of the system sees the same object',
             isinstance(g, Ref) and isinstance(m, Ref) and g.id == m.id)
    c = ip.getattr(st, m, 'COMM_WORLD')
    v.ensure(st, 'rank', eq(ip.getattr(st, c, 'rank'), 0))
    v.ensure(st, 'size', eq(ip.getattr(st, c, 'size'), 1))

    def do(o, n, *a, **k):
        st, r = v.call1(ip.getattr(v.st, o, n), *a, **k)
        v.st = st
        return st, r
    v.st = st
    st, r = do(c, 'Get_rank')
    v.ensure(st, 'Get_rank', eq(r, 0))
    st, r = do(c, 'Get_size')
    v.ensure(st, 'Get_size', eq(r, 1))
    do(c, 'barrier')
    do(m, 'Finalize')
    x, y = ObjV(z3.Int('part')), ObjV(z3.Int('result'))
    for kw in ({}, {'root': 0}):
        st, r = do(c, 'scatter', v.list([x]), **kw)
        v.ensure(st, 'the only part', same(ip, st, r, x))
        st, r = do(c, 'gather', y, **kw)
        r = ip.concrete_items(st, r)
        v.ensure(st, 'the only result', len(r) == 1 and same(
            ip, st, r[0], y))
    v.ensure(st, 'the rank stays', eq(ip.getattr(st, c, 'rank'), 0))
    v.ensure(st, 'the size stays', eq(ip.getattr(st, c, 'size'), 1))


@REG.task('with MPI', [P + 'attempt_parallel'])
def together(v):
    real = NObj('mpi4py.MPI', {'COMM_WORLD': Opaque('world')}.get)
    v.ip.no_mpi = False
    v.ip.libs['mpi4py'] = ModuleVal('mpi4py', None, {'MPI': real})
    st, m = v.call1(v.fn('utilities.parallel', 'attempt_parallel'))
    frame = st.frames[v.module('utilities.parallel').frame]
    v.ensure(st, 'the result is the MPI of the system', m is real)
    v.ensure(st, 'the rest of the system sees it',
             frame.get('MPI') is real)


class Step(object):
    """any function: it may return anything or raise anything"""

    def __init__(self, v, raises):
        self.v, self.raises = v, raises
        self.args = [ObjV(z3.Int('a')), ObjV(z3.Int('b'))]
        self.key = ObjV(z3.Int('c'))
        self.value = ObjV(z3.Int('value'))
        self.calls = v.st.new(InstRec(None, {'calls': ()}))

        def call(ip, st, a, k):
            n = st.heap[self.calls.id].attrs['calls']
            st.heap[self.calls.id] = InstRec(None, {
                'calls': n + ((tuple(a), dict(k)),)})
            if raises:
                ip.raise_unless(st, False, 'RuntimeError')
            return self.value
        self.fn = nat('step', call)

    def made(self, st):
        return st.heap[self.calls.id].attrs['calls']

    def run(self, wrapper, st=None):
        """the outcomes of the wrapped function"""
        return self.v.call(wrapper, *self.args, key=self.key,
                           _st=(st or self.v.st).copy())

    def once(self, outs, n=1):
        v = self.v
        if not outs:
            raise Unsupported('no outcome')
        for st, o in outs:
            calls = self.made(st)
            v.ensure(st, 'called once' if n == 1 else
                     'called once each time', len(calls) == n)
            if len(calls) == n:
                for a, k in calls:
                    v.ensure(st, 'with its arguments', len(a) == 2 and all(
                        x is y for x, y in zip(a, self.args)) and
                        set(k) == {'key'} and k['key'] is self.key)
            if self.raises:
                v.ensure(st, 'its exception passes', o[0] == 'raise' and
                         o[1].cls == 'RuntimeError')
            elif o[0] == 'raise':
                v.ensure(st, 'no exception', False)
            else:
                v.ensure(st, 'its result passes', o[1] is self.value)

    def never(self, outs):
        v = self.v
        for st, o in outs:
            v.ensure(st, 'not called', not self.made(st))
            v.ensure(st, 'no exception', o[0] == 'return')


def wrapped(v, module, name, f, *outer):
    d = v.fn(module, name)
    if outer:
        st, d = v.call1(d, *outer)
        v.st = st
    st, w = v.call1(d, f)
    v.st = st
    return w


ENDS = ['returns', 'raises']


@REG.task('master only', [P + 'disable_on_workers',
                          P + 'disable_on_workers.wrap'],
          params=['%s, %s' % (w, e) for w in ('master', 'worker', 'alone',
                                              'first master',
                                              'first worker')
                  for e in ENDS])
def master(v, what):
    who, ends = what.split(', ')
    s = Step(v, ends == 'raises')
    size, rank = v.int('size', 1), v.int('rank', 0)
    v.pre(lt(rank, size))
    if who == 'alone':
        st, m = v.call1(v.fn('utilities.parallel', 'attempt_parallel'))
        v.st = st
    else:
        v.pre(eq(rank, 0) if 'master' in who else gt(rank, 0))
        comm = NObj('Comm', {
            'size': size, 'rank': rank,
            'Get_rank': nat('Get_rank', lambda ip, st, a, k: rank),
            'Get_size': nat('Get_size', lambda ip, st, a, k: size)}.get)
        v.setmod('utilities.parallel', 'MPI', NObj('MPI', {
            'COMM_WORLD': comm}.get))
    w = wrapped(v, 'utilities.parallel', 'disable_on_workers', s.fn)
    if who.startswith('first'):
        # one call, then one on the master and on a worker
        for st, o in s.run(w):
            n = len(s.made(st))
            for after, r in (('master', 0), ('worker', 1)):
                c = NObj('Comm', {'size': 2, 'rank': r, 'Get_rank': nat(
                    'Get_rank', lambda ip, st, a, k, r=r: r), 'Get_size':
                    nat('Get_size', lambda ip, st, a, k: 2)}.get)
                t = st.copy()
                v.st = t
                v.setmod('utilities.parallel', 'MPI', NObj('MPI', {
                    'COMM_WORLD': c}.get))
                for t2, o2 in s.run(w):
                    v.ensure(t2, 'the %s decides at each call' % after,
                             len(s.made(t2)) == n + (r == 0))
        return
    outs = s.run(w)
    if who == 'worker':
        s.never(outs)
        return
    s.once(outs)
    if len(outs) == 1:
        s.once(s.run(w, outs[0][0]), 2)


@REG.task('timer', [A + 'timer', A + 'timer.wrap'], params=ENDS)
def timed(v, ends):
    W = World(v)
    W.install()
    s = Step(v, ends == 'raises')
    t = [0]

    def now(ip, st, a, k):
        t[0] += 1
        return z3.Real('time_%d' % t[0])
    v.ip.libs['time'] = ModuleVal('time', None, {
        'time': nat('time', now), 'perf_counter': nat('pc', now)})
    s.once(s.run(wrapped(v, 'all_multipliers', 'timer', s.fn)))


@REG.task('call logging', [M + 'print_call', M + 'print_call.wrap',
                           M + 'print_call.wrap.wrapper'],
          params=['%s, %s' % (w, e) for w in ('logged', 'not logged')
                  for e in ENDS])
def logged(v, what):
    w, ends = what.split(', ')
    s = Step(v, ends == 'raises')
    v.ip.contracts[M + 'create_arg_string'] = Contract(
        lambda ip, st, f, *a, **k: SymStr([Atom('arguments')]))
    logger = nat('logger', noop) if w == 'logged' else None
    s.once(s.run(wrapped(v, 'utilities.meta', 'print_call', s.fn, logger)))
