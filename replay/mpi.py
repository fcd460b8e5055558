"""MPI processes as threads, one running at a time in a chosen order."""
import copy
import pickle
import random
import threading


class Deadlock(Exception):
    pass


class Status(object):
    def __init__(self):
        self.source = self.tag = -1
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Comm(object):
    def __init__(self, world):
        self.w = world
        self.name = 'scheduled'

    @property
    def rank(self):
        return getattr(self.w.local, 'rank', 0)

    @property
    def size(self):
        return self.w.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        self.collect(None)
    Barrier = barrier

    def send(self, obj, dest, tag=0):
        w = self.w
        if not 0 <= dest < w.size:
            raise ValueError('rank %r' % (dest,))
        m = {'from': self.rank, 'to': dest, 'tag': tag, 'taken': False,
             'obj': pickle.dumps(obj)}
        w.messages.append(m)
        w.sent.append((self.rank, dest, tag, pickle.loads(m['obj'])))
        w.wait(lambda: True if w.buffered else m['taken'])
    ssend = send

    def isend(self, obj, dest, tag=0):
        b, self.w.buffered = self.w.buffered, True
        try:
            self.send(obj, dest, tag)
        finally:
            self.w.buffered = b
        return Request()

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w, me = self.w, self.rank

        def match():
            first = {}
            for m in w.messages:
                if m['to'] == me and not m['taken'] and \
                        source in (-1, m['from']) and tag in (-1, m['tag']):
                    first.setdefault(m['from'], m)
            return list(first.values())
        w.wait(lambda: bool(match()))
        c = match()
        m = c[w.random.randrange(len(c))]
        m['taken'] = True
        if status is not None:
            status.source, status.tag = m['from'], m['tag']
        return pickle.loads(m['obj'])

    def collect(self, obj, need=None):
        """objects of the ranks, once the needed ones (all) are there; a
        process need not wait for those whose objects it does not need"""
        w = self.w
        if need is None or not w.buffered:
            need = range(w.size)
        k = w.local.count = getattr(w.local, 'count', -1) + 1
        while len(w.rounds) <= k:
            w.rounds.append({})
        w.rounds[k][self.rank] = pickle.dumps(obj)
        w.wait(lambda: all(r in w.rounds[k] for r in need))
        return [pickle.loads(w.rounds[k][r]) if r in w.rounds[k] else None
                for r in range(w.size)]

    def bcast(self, obj, root=0):
        return self.collect(obj, [root])[root]

    def scatter(self, sendobj, root=0):
        parts = self.collect(sendobj if self.rank == root else None,
                             [root])[root]
        if len(parts) != self.size:
            raise ValueError('expecting %d items, got %d' % (
                self.size, len(parts)))
        return parts[self.rank]

    def gather(self, sendobj, root=0):
        r = self.collect(sendobj, None if self.rank == root else [])
        return r if self.rank == root else None

    def allgather(self, sendobj):
        return self.collect(sendobj)

    def Abort(self, code=0):
        raise Deadlock('Abort')


class Request(object):
    def wait(self, status=None):
        return None

    def test(self, status=None):
        return (True, None)


class World(object):
    """size processes; seed chooses the order in which they go on"""

    def __init__(self, size, seed=0, buffered=True, favour=None):
        self.size, self.buffered = size, buffered
        self.random = random.Random(seed)
        self.favour = favour          # rank that waits whenever it can
        self.local = threading.local()
        self.cond = threading.Condition()
        self.turn = None
        self.waiting = {}
        self.done = set()
        self.dead = False
        self.messages, self.sent, self.rounds = [], [], []
        self.comm = Comm(self)
        self.ANY_SOURCE = self.ANY_TAG = -1
        self.COMM_WORLD = self.comm
        self.Status = Status

    def Finalize(self):
        pass

    def Init(self):
        pass

    # all of the following with the lock held
    def choose(self):
        ready = [r for r in range(self.size) if r not in self.done and
                 r in self.waiting and self.waiting[r]()]
        slow = [r for r in ready if r != self.favour]
        ready = slow or ready
        if ready:
            self.turn = ready[self.random.randrange(len(ready))]
        elif len(self.done) < self.size:
            self.dead = True
        self.cond.notify_all()

    def wait(self, pred):
        """let another process go on, come back once pred holds"""
        r = self.local.rank
        self.waiting[r] = pred
        self.turn = None
        self.choose()
        while self.turn != r:
            if self.dead:
                raise Deadlock('process %d waits for ever' % r)
            self.cond.wait()
        del self.waiting[r]

    def run(self, f):
        """[(result, exception)] of f() on every rank"""
        out = [(None, None)] * self.size
        for r in range(self.size):
            self.waiting[r] = lambda: True

        def body(r):
            self.local.rank = r
            with self.cond:
                while self.turn != r:
                    if self.dead:
                        break
                    self.cond.wait()
                self.waiting.pop(r, None)
                try:
                    if self.dead:
                        raise Deadlock('process %d never starts' % r)
                    out[r] = (f(), None)
                except BaseException as e:
                    out[r] = (None, e)
                self.done.add(r)
                self.waiting.pop(r, None)
                self.turn = None
                self.choose()
        ts = [threading.Thread(target=body, args=(r,), daemon=True)
              for r in range(self.size)]
        for t in ts:
            t.start()
        with self.cond:
            self.choose()
        for t in ts:
            t.join(60)
        return out

    def left(self):
        """messages nobody received"""
        return [m for m in self.messages if not m['taken']]
