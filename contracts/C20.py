"""C20: every tile is computed exactly once, whatever the number of workers
and the order of their answers."""
import itertools
from engine.vc import *
from engine.values import *
from engine import invariants
from contracts.gis import nat, noop

REG = Registry('C20')
A = 'all_multipliers.py:'
FREE, BUSY, ENDED = 0, 1, 2
MPI = ('mpi4py: send delivers a message to its destination, recv returns a '
       'matching one in the order of its sender; a message is pending as '
       'long as it is not received')


class Job(object):
    """parallelise_on_tiles on a rank, over any number of tiles"""

    def __init__(self, v, rank, size, callback=None, **ghost):
        self.v, ip = v, v.ip
        self.rank, self.size = rank, size
        self.n = v.int('tiles', 0)
        tile = z3.Function('tile', I, I)
        self.tile = lambda k: ObjV(tile(zi(k)))
        cut = z3.Function('cut_of', I, I)
        self.cut = lambda t: ObjV(cut(t.term))
        self.tiles = v.st.new(SeqRec([SymSeg(self.n, self.tile)]))
        self.phase = v.st.new(ArrRec((size,), 'i', lambda ix: FREE))
        self.g = v.st.new(InstRec(None, dict(ghost)))
        cls = v.fn('all_multipliers', 'Multipliers')
        st, self.m = v.call1(cls, 'landcover', 'dem')
        v.st = st

        def open_dem(ip, st, m):
            ip.setattr(st, m, 'dem_ds', Opaque('dem'))
        ip.contracts[A + 'Multipliers.open_dem'] = Contract(open_dem)
        ip.contracts[A + 'Multipliers.cut_dem'] = Contract(self.cut_dem)
        ip.contracts[A + 'Multipliers.multipliers_calculate'] = Contract(
            self.calculate)

        def status(ip, st, a, k):
            return st.new(InstRec(None, {'source': -1, 'tag': -1}))
        self.mpi = NObj('MPI', {'Status': nat('Status', status),
                                'ANY_SOURCE': -1, 'ANY_TAG': -1}.get)
        tab = {'rank': rank, 'size': size, 'send': nat('send', self.send),
               'recv': nat('recv', self.recv),
               'Get_rank': nat('Get_rank', lambda ip, st, a, k: rank),
               'Get_size': nat('Get_size', lambda ip, st, a, k: size)}
        v.setmod('all_multipliers', 'comm', NObj('Comm', tab.get))
        v.setmod('all_multipliers', 'MPI', self.mpi)
        self.tags = {}
        self.callback = callback

    def get(self, st, n):
        return st.heap[self.g.id].attrs[n]

    def put(self, st, **kw):
        r = st.heap[self.g.id]
        a = dict(r.attrs)
        a.update(kw)
        st.heap[self.g.id] = InstRec(None, a)

    def tag(self, what, t):
        t = norm(t)
        if not isinstance(t, int) or self.tags.setdefault(what, t) != t:
            raise Unsupported('several tags')

    def same(self, st, a, b):
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return eq(a.term, b.term)
        raise Unsupported('not a tile: %r' % (a,))

    def go(self):
        ip = self.v.ip
        cb = {} if self.callback is None else {
            'progress_callback': nat('callback', noop)}
        return self.v.outcomes(self.v.fn('all_multipliers',
                                         'Multipliers.parallelise_on_tiles'),
                               self.m, self.tiles, **cb)

    def unsupported(self, *a):
        raise Unsupported('communication of this rank')
    cut_dem = calculate = send = recv = unsupported


def option(a, k, i, name, default):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


class Master(Job):
    def cut_dem(self, ip, st, m, tile):
        n = self.get(st, 'cut')
        ip.obl(st, 'the next tile is cut, once', b_and(lt(n, self.n), self.
               same(st, tile, self.tile(n))), exact=False)
        self.put(st, cut=add(n, 1))
        return self.cut(tile)

    def send(self, ip, st, a, k):
        ip.assumed.add(MPI)
        obj, d = a[0], option(a, k, 1, 'dest', None)
        self.tag('work', option(a, k, 2, 'tag', 0))
        ip.obl(st, 'the message goes to a worker', b_and(ge(d, 1), lt(
            d, self.size)))
        ph = st.heap[self.phase.id]
        ip.obl(st, 'the worker waits for a message', eq(ph.get((d,)), FREE))
        if obj is None:
            self.put(st, stop=add(self.get(st, 'stop'), 1))
            to = ENDED
        else:
            it = ip.concrete_items(st, obj)
            if len(it) != 2:
                raise Unsupported('message')
            n = self.get(st, 'sent')
            ip.obl(st, 'the next tile is sent, once', b_and(lt(n, self.n),
                   self.same(st, it[1], self.tile(n))), exact=False)
            ip.obl(st, 'with its own cut-out', self.same(
                st, it[0], self.cut(self.tile(n))), exact=False)
            self.put(st, sent=add(n, 1), busy=add(self.get(st, 'busy'), 1))
            to = BUSY
        st.heap[self.phase.id] = ArrRec(ph.shape, 'i', lambda ix: ite(
            eq(ix[0], d), to, ph.get(ix)))

    def recv(self, ip, st, a, k):
        """the answer of some worker, any of those that compute"""
        if norm(option(a, k, 1, 'source', -1)) != -1 or len(a) > 3:
            raise Unsupported('recv from one source')
        self.tag('result', option(a, k, 2, 'tag', -1))
        busy = self.get(st, 'busy')
        ip.obl(st, 'an answer is to come', gt(busy, 0))
        d = ip.fresh('answering', I)
        ph = st.heap[self.phase.id]
        st.assume(b_and(ge(d, 1), lt(d, self.size), eq(ph.get((d,)), BUSY)))
        st.heap[self.phase.id] = ArrRec(ph.shape, 'i', lambda ix: ite(
            eq(ix[0], d), FREE, ph.get(ix)))
        self.put(st, busy=sub(busy, 1))
        s = k.get('status')
        if s is not None:
            ip.setattr(st, s, 'source', d)
        return Opaque('answer')


@REG.task('master', [A + 'Multipliers.parallelise_on_tiles'], timeout=15.0,
          params=['quiet', 'with progress'])
def master(v, how):
    run_master(v, v.int('size', 2), how)


def run_master(v, size, how):
    m = Master(v, 0, size, None if how == 'quiet' else True, sent=0, stop=0,
               busy=0, cut=0)
    m.put(v.st, phase=m.phase)
    n = m.n

    def cands(names):
        out = []
        ints = [x for x in names if x != '.phase']
        local = [x for x in ints if x[0] != '.']

        def c(text, f):
            out.append((text, f))
        for g in ('.sent', '.stop', '.busy', '.cut'):
            c('0 <= ' + g, lambda e, s, k, g=g: ge(s[g], 0))
        c('.sent <= tiles', lambda e, s, k: le(s['.sent'], n))
        c('.cut = .sent', lambda e, s, k: eq(s['.cut'], s['.sent']))
        for x in local:
            for g in ('.sent', '.stop', '.busy', '.cut'):
                c('%s grows with %s' % (x, g), lambda e, s, k, x=x, g=g: eq(
                    sub(s[x], e[x]), sub(s[g], e[g])))
                c('%s = %s' % (x, g), lambda e, s, k, x=x, g=g: eq(
                    s[x], s[g]))
            c(x + ' before the first stop', lambda e, s, k, x=x: b_implies(
                eq(s['.stop'], 0), eq(s[x], e[x])))
            c(x + ' after the first stop', lambda e, s, k, x=x: b_implies(
                gt(s['.stop'], 0), eq(s[x], s['.sent'])))
            c(x + ' unchanged', lambda e, s, k, x=x: eq(s[x], e[x]))
        c('.busy + .stop constant', lambda e, s, k: eq(
            add(s['.busy'], s['.stop']), add(e['.busy'], e['.stop'])))
        c('one message a turn', lambda e, s, k: eq(add(
            s['.sent'], s['.stop']), k) if k is not None else True)
        c('.busy = .sent', lambda e, s, k: eq(s['.busy'], s['.sent']))
        c('no stop before all tiles are sent', lambda e, s, k: b_implies(
            gt(s['.stop'], 0), eq(s['.sent'], n)))
        c('no further stop before all tiles are sent', lambda e, s, k:
          b_implies(gt(s['.stop'], e['.stop']), eq(s['.sent'], n)))
        q = z3.Int('worker!q')
        c('the rest has not been addressed', lambda e, s, k: z3.ForAll(
            [q], z3.Implies(z3.And(q > zi(k), q < size),
                            zi(s['.phase'](q)) == FREE))
          if k is not None else True)
        return out
    invariants.install(v.ip, A + 'Multipliers.parallelise_on_tiles',
                       invariants.Spec(m.g, cands, lambda e, s: sub(
                           add(n, size), add(s['.sent'], s['.stop']))))
    res = m.go()
    for st, _ in res:
        v.ensure(st, 'every tile is sent', eq(m.get(st, 'sent'), n),
                 exact=False)
        v.ensure(st, 'every tile is cut once', eq(m.get(st, 'cut'), n),
                 exact=False)
        v.ensure(st, 'all answers are back', eq(m.get(st, 'busy'), 0),
                 exact=False)
        v.ensure(st, 'every worker is told to stop, once', eq(
            m.get(st, 'stop'), sub(size, 1)), exact=False)
    v.trust('lemma (proved in lemmas/Sums.lean: count_enter, count_leave, '
            'count_other, count_zero, all_of_count): the numbers of computing and of stopped workers are '
            'those of the workers in these states, which every message '
            'changes together; when as many are stopped as there are, all '
            'are')
    return m.tags


class Worker(Job):
    """message k is for a tile if k < N; message N says stop"""

    def prepare(self):
        v = self.v
        self.N = v.int('messages', 0)
        dem = z3.Function('message_dem', I, I)
        tile = z3.Function('message_tile', I, I)
        self.dem = lambda k: ObjV(dem(zi(k)))
        self.job = lambda k: ObjV(tile(zi(k)))

    def recv(self, ip, st, a, k):
        ip.assumed.add(MPI)
        if norm(option(a, k, 1, 'source', -1)) not in (0, -1):
            raise Unsupported('source')
        self.tag('work', option(a, k, 2, 'tag', -1))
        n = self.get(st, 'got')
        ip.obl(st, 'a message is to come', le(n, self.N))
        ip.obl(st, 'the last result has been sent', b_and(
            eq(self.get(st, 'done'), n), eq(self.get(st, 'answers'), n)))
        self.put(st, got=add(n, 1))
        return self.message(n)

    def message(self, n):
        m, c = (self.dem(n), self.job(n)), norm(eq(n, self.N))
        if isinstance(c, bool):
            return None if c else m
        return merge_value(c, None, m)

    def calculate(self, ip, st, m, dem, tile):
        n = self.get(st, 'done')
        ip.obl(st, 'the last message is not computed yet', eq(add(
            n, 1), self.get(st, 'got')))
        ip.obl(st, 'the tile of the message is computed', b_and(
            self.same(st, dem, self.dem(n)), self.same(
                st, tile, self.job(n))), exact=False)
        self.put(st, done=add(n, 1))
        return None

    def send(self, ip, st, a, k):
        if norm(option(a, k, 1, 'dest', None)) != 0:
            raise Unsupported('answer to another process')
        self.tag('result', option(a, k, 2, 'tag', 0))
        n = self.get(st, 'answers')
        ip.obl(st, 'one answer for every tile, after it is computed', eq(
            add(n, 1), self.get(st, 'done')))
        self.put(st, answers=add(n, 1))


@REG.task('worker', [A + 'Multipliers.parallelise_on_tiles'])
def worker(v):
    run_worker(v, v.int('size', 2))


def run_worker(v, size):
    rank = v.int('rank', 1)
    v.pre(lt(rank, size))
    w = Worker(v, rank, size, got=0, done=0, answers=0)
    w.prepare()

    def cands(names):
        out = []
        for x, y in itertools.combinations(('.got', '.done', '.answers'), 2):
            out.append(('%s = %s' % (x, y), lambda e, s, k, x=x, y=y: eq(
                s[x], s[y])))
        for x in ('.done', '.answers'):
            # a loop that begins with a message at hand
            out.append(('.got = %s + 1' % x, lambda e, s, k, x=x: eq(
                s['.got'], add(s[x], 1))))
        out.append(('1 <= .got <= messages + 1', lambda e, s, k: b_and(
            ge(s['.got'], 1), le(s['.got'], add(w.N, 1)))))
        for x in ('.got', '.done', '.answers'):
            out.append(('0 <= %s <= messages' % x, lambda e, s, k, x=x:
                        b_and(ge(s[x], 0), le(s[x], w.N))))
        return out
    invariants.install(v.ip, A + 'Multipliers.parallelise_on_tiles',
                       invariants.Spec(w.g, cands, lambda e, s: sub(
                           add(w.N, 1), s['.got']), [(
                               'the last message', lambda s: w.message(sub(
                                   s['.got'], 1)))]))
    for st, _ in w.go():
        v.ensure(st, 'all messages are received', eq(
            w.get(st, 'got'), add(w.N, 1)), exact=False)
        v.ensure(st, 'every tile received is computed once', eq(
            w.get(st, 'done'), w.N), exact=False)
        v.ensure(st, 'every tile is answered', eq(
            w.get(st, 'answers'), w.N), exact=False)
    return w.tags


@REG.task('both ends', [A + 'Multipliers.parallelise_on_tiles'])
def ends(v):
    size = v.int('size', 2)
    a = run_master(v, size, 'quiet')
    b = run_worker(v, size)
    for what, x, y in (('work', a, b), ('result', b, a)):
        v.ensure(v.st, what + ': the receiver waits for the tag of the '
                 'sender', what in x and what in y and
                 y[what] in (x[what], -1))


class Serial(Job):
    def cut_dem(self, ip, st, m, tile):
        n = self.get(st, 'cut')
        ip.obl(st, 'the next tile is cut, once', b_and(lt(n, self.n), self.
               same(st, tile, self.tile(n))), exact=False)
        self.put(st, cut=add(n, 1))
        return self.cut(tile)

    def calculate(self, ip, st, m, dem, tile):
        n = self.get(st, 'done')
        ip.obl(st, 'the next tile is computed, once', b_and(
            lt(n, self.n), self.same(st, tile, self.tile(n)), self.same(
                st, dem, self.cut(self.tile(n)))), exact=False)
        self.put(st, done=add(n, 1))
        return None


@REG.task('serial', [A + 'Multipliers.parallelise_on_tiles'])
def serial(v):
    s = Serial(v, 0, 1, cut=0, done=0)

    def cands(names):
        out = []
        for x in ('.cut', '.done'):
            out.append((x + ' counts the turns', lambda e, s, k, x=x: eq(
                s[x], k) if k is not None else True))
        return out
    invariants.install(v.ip, A + 'Multipliers.parallelise_on_tiles',
                       invariants.Spec(s.g, cands))
    for st, _ in s.go():
        v.ensure(st, 'every tile is computed', eq(s.get(st, 'done'), s.n),
                 exact=False)
        v.ensure(st, 'every tile is cut', eq(s.get(st, 'cut'), s.n),
                 exact=False)
