"""C21: every tile is converted by exactly one process, and the mosaics list
the rasters of all processes."""
from engine.vc import *
from engine.values import *
from contracts.gis import nat, noop

REG = Registry('C21')
# the contracts of called functions proved with it
USES = {'C19': ['run', 'process_tile']}
M = 'utilities/mpi_runner.py:'
F = 'utilities/convert.py:'
P = 'utilities/parallel.py:'
MPI = ('mpi4py: scatter gives rank r item r of the list of the root, gather '
       'gives the root the list of the objects of all ranks in rank order')


class Log(object):
    def __init__(self, v):
        self.ref = v.st.new(SeqRec([]))

    def put(self, st, name, *a):
        st.heap[self.ref.id] = st.heap[self.ref.id].append(Event(name, *a))

    def each(self, ip, st):
        """the calls, by case where they depend on a condition"""
        segs = list(st.heap[self.ref.id].segs)
        for i, g in enumerate(segs):
            if isinstance(g, CondSeg):
                out = []
                for c, b in ((g.cond, g.a), (b_not(g.cond), g.b)):
                    s = st.copy()
                    s.assume(c)
                    if ip.feasible(st, c):
                        s.heap[self.ref.id] = SeqRec(
                            segs[:i] + list(b) + segs[i + 1:])
                        out += self.each(ip, s)
                return out
        return [(st, self.all(st))]

    def all(self, st):
        its = st.heap[self.ref.id].concrete()
        if its is None:
            raise Unsupported('calls depend on the path')
        return list(its)


def arg(a, k, i, name, default):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


class Run(object):
    """parallelise_convert_on_tiles on one rank"""

    def __init__(self, v):
        self.v, ip = v, v.ip
        self.log = log = Log(v)
        self.size = size = v.int('size', 1)
        self.rank = rank = v.int('rank', 0)
        v.pre(lt(rank, size))
        self.n = v.int('files', 0)
        self.tile = z3.Function('tile_of_file', I, I)
        self.dir = z3.Function('direction_of_file', I, I)
        self.path = SymStr([Atom('folder')])
        self.folder = sstr(self.path, '/shielding')

        def listdir(ip, st, a, k):
            ip.assumed.add('os.listdir names every file of the folder once; '
                           'a shielding file is called <tile>_ms_<direction>'
                           '.nc and the name of a tile has no underscore '
                           '(C03, C16)')
            if str_eq(a[0], self.folder) is not True:
                raise Unsupported('listing of %r' % (a[0],))
            return st.new(SeqRec([SymSeg(self.n, lambda j: SymStr([
                self.name(self.tile(zi(j))), '_ms_', Atom(
                    'direction', '/._', self.dir(zi(j))), '.nc']))]))
        os_ = ip.libs['os'].attrs
        os_['listdir'] = nat('os.listdir', listdir)

        def scatter(ip, st, a, k):
            ip.assumed.add(MPI)
            log.put(st, 'scatter', a[0] if a else k['sendobj'])
            if norm(arg(a, k, 1, 'root', 0)) != 0:
                raise Unsupported('another root')
            x = a[0] if a else k['sendobj']
            if isinstance(x, Ref):
                r = st.heap[x.id]
                ip.obl(st, 'scatter: one part for every rank', eq(
                    r.length(), size))
                part = r.get(0)
                if not isinstance(part, SeqRec):
                    raise Unsupported('part %r' % (part,))
            else:
                n = ip.fresh('part_length', I)
                f = ip.fresh_fun('part', I, I)
                ip.fact(st, n >= 0, patterns=[n])
                part = SeqRec([SymSeg(n, lambda j: SymStr([self.name(
                    f(zi(j)))]))])
            part = st.new(part)
            log.put(st, 'received', part)
            return part

        def gather(ip, st, a, k):
            ip.assumed.add(MPI)
            if norm(arg(a, k, 1, 'root', 0)) != 0:
                raise Unsupported('another root')
            log.put(st, 'gather', a[0] if a else k['sendobj'])
            t = norm(eq(rank, 0))
            if ip.valid(st, t):
                return st.new(SeqRec([SymSeg(size, self.result)]))
            if ip.valid(st, b_not(t)):
                return None
            raise NeedFork(t)
        tab = {'rank': rank, 'size': size, 'scatter': nat('scatter', scatter),
               'gather': nat('gather', gather),
               'Get_rank': nat('Get_rank', lambda ip, st, a, k: rank),
               'Get_size': nat('Get_size', lambda ip, st, a, k: size),
               'barrier': nat('barrier', noop),
               'Barrier': nat('Barrier', noop)}
        self.comm = NObj('Comm', tab.get)
        # one of each for a tile (C19)
        self.count = [z3.Function('rasters', I, I)] * 2
        self.file = [z3.Function('raster_%d' % q, I, I, I) for q in (0, 1)]

        def init(ip, st, self_, tiles, path, *a):
            log.put(st, 'Converter', self_, tiles, path)
            ip.setattr(st, self_, 'tiles', tiles)

        def run(ip, st, self_):
            r = self.result(rank)
            r = (st.new(r[0]), st.new(r[1]))
            log.put(st, 'run', self_, r)
            return r
        ip.contracts[F + 'Converter.__init__'] = Contract(init)
        ip.contracts[F + 'Converter.run'] = Contract(run)

        def vrt(ip, st, a, k):
            if len(a) != 2 or k:
                raise Unsupported('BuildVRT')
            ip.obl(st, 'a mosaic has rasters', ip.truth(st, a[1]))
            ip.assumed.add('gdal.BuildVRT makes a mosaic of the listed '
                           'files')
            log.put(st, 'vrt', a[0], st.heap[a[1].id])
            return Opaque('vrt')
        ip.libs['osgeo.gdal'] = ModuleVal('osgeo.gdal', None, {
            'BuildVRT': nat('BuildVRT', vrt),
            'UseExceptions': nat('UseExceptions', noop),
            'SetConfigOption': nat('SetConfigOption', noop)})
        ip.libs['osgeo'] = ModuleVal('osgeo', None, {
            'gdal': ip.libs['osgeo.gdal'], 'osr': Opaque('osr'),
            'gdal_array': Opaque('gdal_array')})

    def name(self, t):
        return Atom('tile', '/._', t)

    def result(self, j):
        """what Converter.run gives on rank j: two lists of files (C19)"""
        out = []
        for q in (0, 1):
            f = lambda k, q=q: ObjV(self.file[q](zi(j), zi(k)))
            out.append(SeqRec([SymSeg(smax(self.count[q](zi(j)), 0), f)]))
        return tuple(out)

    def go(self, root):
        v = self.v
        v.st = v.st.copy()
        v.st.assume(eq(self.rank, 0) if root else gt(self.rank, 0))
        return v.outcomes(v.fn('utilities.mpi_runner',
                               'parallelise_convert_on_tiles'), self.path,
                          self.comm)


@REG.task('one rank', [M + 'parallelise_convert_on_tiles'], timeout=20.0,
          params=['master', 'worker'])
def one(v, who):
    """any rank: what is scattered, converted and gathered"""
    R_ = Run(v)
    n = 0
    root = who == 'master'
    for st, ev in [x for st, _ in R_.go(root)
                   for x in R_.log.each(v.ip, st)]:
        names = [e.name for e in ev]
        n += 1
        if names[:5] != ['scatter', 'received', 'Converter', 'run', 'gather']:
            raise Unsupported('calls %r' % (names,))
        sc, rec, new, run, ga = ev[:5]
        v.ensure(st, 'the received part is converted', new.args[1] is
                 rec.args[0])
        v.ensure(st, 'in the given folder', is_path(new.args[2], R_.path))
        v.ensure(st, 'the converter runs once', run.args[0] is new.args[0])
        v.ensure(st, 'its result is gathered', ga.args[0] is run.args[1])
        if not root:
            v.ensure(st, 'only the master builds mosaics', len(ev) == 5)
            continue
        mosaics(v, R_, st, ev[5:])
        parts(v, R_, st, v.st.heap.get(sc.args[0].id) or
              st.heap[sc.args[0].id])
    v.ensure(v.st, 'an outcome', n > 0)


def is_path(a, b):
    r = str_eq(a, b)
    if r is None:
        raise Unsupported('path %r' % (a,))
    return norm(r) is True


def mosaics(v, R_, st, ev):
    if not ev:
        j = z3.Int('process')
        s = st.copy()
        s.assume(b_and(ge(j, 0), lt(j, R_.size)))
        for q in (0, 1):
            v.ensure(s, 'no mosaic if there are no rasters', eq(
                R_.result(j)[q].length(), 0))
        return
    if [e.name for e in ev] != ['vrt', 'vrt']:
        raise Unsupported('calls after gather')
    for q, folder in enumerate(('M3', 'M3_max')):
        path = sstr(R_.path, '/', folder, '/wind-multipliers.vrt')
        e = [x for x in ev if is_path(x.args[0], path)]
        v.ensure(st, 'one mosaic of ' + folder, len(e) == 1)
        segs = e[0].args[1].segs
        if len(segs) != 1 or not isinstance(segs[0], LoopSeg) or \
                len(segs[0].body) != 1:
            raise Unsupported('list of the mosaic')
        loop = segs[0]
        v.ensure(st, folder + ': the rasters of every process', eq(
            loop.n, R_.size))
        j, k = z3.Ints('process raster')
        s = st.copy()
        s.assume(b_and(ge(j, 0), lt(j, R_.size)))
        body = SeqRec([subst_seg(b, [(loop.tau, j)]) for b in loop.body])
        want = R_.result(j)[q]
        v.ensure(s, folder + ': as many as there are', eq(
            body.length(), want.length()))
        s = s.copy()
        s.assume(b_and(ge(k, 0), lt(k, want.length())))
        v.ensure(s, folder + ': these rasters', v.ip.equal(
            s, body.get(k), want.get(k)))


def parts(v, R_, st, r):
    """the parts hold every tile of the folder, once"""
    ip = v.ip
    if not isinstance(r, SeqRec):
        raise Unsupported('parts')
    if len(ip.enums) != 1:
        raise Unsupported('set of tiles')
    (_, (m, elem), rank), = ip.enums.values()
    size = R_.size

    def key(x):
        p = str_parts(x)
        if len(p) != 1 or not isinstance(p[0], Atom) or \
                p[0].name != 'tile':
            raise Unsupported('tile %r' % (x,))
        return p[0].term
    i, a, b, c, d = [z3.Int(x) for x in (
        'file', 'process', 'tile', 'other_process', 'other_tile')]
    n_, p_, q_, t_, u_ = z3.Ints('n p q t u')
    mono = law(v, 'products keep the order', (n_, p_, q_), z3.Implies(
        z3.And(n_ >= 1, p_ < q_), n_ * p_ + n_ <= n_ * q_))
    same_ = law(v, 'quotient and remainder are unique', (n_, p_, t_, q_, u_),
                z3.Implies(z3.And(n_ >= 1, 0 <= t_, t_ < n_, 0 <= u_,
                                  u_ < n_, t_ + p_ * n_ == u_ + q_ * n_),
                           z3.And(p_ == q_, t_ == u_)))
    # somewhere
    s = st.copy()
    s.assume(b_and(ge(i, 0), lt(i, R_.n)))
    t = rank(R_.tile(i))
    q, o = z3.Ints('quotient remainder')
    s.assume(b_and(eq(t, add(o, mul(q, size))), ge(o, 0), lt(o, size)))
    s.assume(mono(size, q, 0))
    v.lemma(s, 'quotient', ge(q, 0))
    part = r.get(o)
    if not isinstance(part, SeqRec):
        raise Unsupported('part')
    n = length(s, part)
    s.assume(mono(size, n[1], q))
    s.assume(mono(size, n[1], add(q, 1)))
    v.ensure(s, 'it is in the part of the process', lt(q, n[0]),
             exact=False)
    v.ensure(s, 'the part holds the tile', eq(key(part.get(q)),
                                              R_.tile(i)), exact=False)
    # once
    s = st.copy()
    pa, pc = r.get(a), r.get(c)
    na, nc = length(s, pa), length(s, pc)
    s.assume(b_and(ge(a, 0), lt(a, size), ge(c, 0), lt(c, size), ge(b, 0),
                   lt(b, na[0]), ge(d, 0), lt(d, nc[0])))
    x, y = add(a, mul(b, size)), add(c, mul(d, size))
    for z, w in ((b, na), (d, nc)):
        s.assume(mono(size, -1, z))
        s.assume(mono(size, z, w[1]))
    v.lemma(s, 'positions', b_and(ge(x, 0), lt(x, m), ge(y, 0), lt(y, m)))
    v.ensure(s, 'only tiles of the folder', eq(key(pa.get(b)), key(elem(
        x))), exact=False)
    s.assume(eq(key(pa.get(b)), key(pc.get(d))))
    v.lemma(s, 'same position', eq(x, y))
    s.assume(same_(size, b, a, d, c))
    v.ensure(s, 'no tile twice', b_and(eq(a, c), eq(b, d)), exact=False)


def length(s, part):
    """length of a part and the quotient it is made of, as a name for any
    number with the defining property of the quotient"""
    t = zi(part.length())
    todo = [t]
    while todo:
        x = todo.pop()
        if x.decl().name() == 'idiv':
            a, b = x.children()
            d = z3.Int('quotient!%d' % Ref().id)
            s.assume(z3.Implies(b > 0, z3.And(0 <= a - b * d,
                                              a - b * d < b)))
            return z3.substitute(t, (x, d)), d
        todo += x.children()
    return t, t


def law(v, name, vs, f):
    """a statement about all integers, proved once and used by instances"""
    v.oblig(v.only(v.st), 'lemma: ' + name, f, 'lemma')
    return lambda *xs: z3.substitute(f, *[(a, zi(b)) for a, b in zip(vs,
                                                                     xs)])


@REG.task('single process', [P + 'DummyCommWorld.scatter',
                             P + 'DummyCommWorld.gather',
                             P + 'DummyCommWorld.rank',
                             P + 'DummyCommWorld.size'])
def dummy(v):
    """without MPI the stand-in behaves as one process"""
    st, c = v.call1(v.fn('utilities.parallel', 'DummyCommWorld'))
    ip = v.ip
    v.ensure(st, 'rank', eq(ip.getattr(st, c, 'rank'), 0))
    v.ensure(st, 'size', eq(ip.getattr(st, c, 'size'), 1))
    x, y = ObjV(z3.Int('part')), ObjV(z3.Int('result'))
    v.st = st
    st, r = v.call1(ip.getattr(st, c, 'scatter'), v.list([x]), root=0)
    v.ensure(st, 'the only part', ip.equal(st, r, x))
    v.st = st
    st, r = v.call1(ip.getattr(st, c, 'gather'), y, root=0)
    r = ip.concrete_items(st, r)
    v.ensure(st, 'the only result', len(r) == 1 and ip.equal(st, r[0], y))
