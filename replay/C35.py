from common import *
import sys
import types
from types import SimpleNamespace
import all_multipliers as am
import utilities.parallel as par
from utilities import meta


def alone(h):
    h.rule = 'the stand-in for MPI and the wrappers, over random values'
    r = h.rng
    for n in range(20):
        h.case({'attempt': n})
        m, err = h.call(par.attempt_parallel)
        if err:
            return h.fail('attempt_parallel raises ' + err, {'attempt': n})
        if par.MPI is not m:
            return h.fail('the system does not see the stand-in',
                          {'attempt': n})
        c = m.COMM_WORLD
        for k in range(3):
            x = [None, 5, [1, 2], [], ['a'], {'b': 1}][int(r.randint(6))]
            inp = {'attempt': n, 'value': x}
            h.case(inp)
            if not (c.rank == c.Get_rank() == 0 and
                    c.size == c.Get_size() == 1):
                return h.fail('not one process', inp)
            try:
                got = c.scatter([x], root=0), c.gather(x, root=0), \
                    c.scatter([x]), c.gather(x), c.barrier(), \
                    m.Init(), m.Finalize()
            except Exception as e:
                return h.fail('raises %r' % (e,), inp)
            if got[0] is not x or got[2] is not x or got[1] != [x] or \
                    got[3] != [x]:
                return h.fail('scatter or gather', dict(inp, got=got))


def together(h):
    """with an mpi4py"""
    real = SimpleNamespace(COMM_WORLD=SimpleNamespace(rank=0, size=1),
                           Finalize=lambda: None)
    pkg = types.ModuleType('mpi4py')
    pkg.MPI = real
    save = sys.modules.get('mpi4py')
    for n in range(3):
        inp = {'mpi4py': 'installed', 'attempt': n}
        h.case(inp)
        sys.modules['mpi4py'] = pkg
        try:
            m, err = h.call(par.attempt_parallel)
        finally:
            del sys.modules['mpi4py']
            if save is not None:
                sys.modules['mpi4py'] = save
        if err:
            return h.fail('attempt_parallel raises ' + err, inp)
        if m is not real or par.MPI is not real:
            return h.fail('MPI is not used although it is there', inp)
        par.attempt_parallel()


class Boom(Exception):
    pass


def wrappers(h):
    r = h.rng
    texts = []
    for n in range(300 if h.thorough else 100):
        if not h.more():
            return
        which = ['master only', 'timer', 'call logging'][n % 3]
        size = int(r.choice([1, 1, 2, 3, 8]))
        rank = int(r.randint(0, size)) if which == 'master only' else 0
        raises = [None, Boom, ValueError, KeyError, SystemExit][
            int(r.randint(5)) if r.rand() < .5 else 0]
        value = [None, 0, 1, '', [], (1, 2), False, {'x': 1}][
            int(r.randint(8))]
        calls = []

        def step(a, b=2, *rest, **more):
            """a step"""
            calls.append((a, b, rest, more))
            if raises:
                raise raises('step')
            return value
        if which == 'master only':
            if size == 1 and n % 2:
                par.attempt_parallel()
            else:
                par.MPI = SimpleNamespace(COMM_WORLD=SimpleNamespace(
                    rank=rank, size=size, Get_rank=lambda: rank,
                    Get_size=lambda: size))
            deco = par.disable_on_workers
        elif which == 'timer':
            deco = am.timer
        else:
            deco = meta.print_call(texts.append if r.rand() < .7 else None)
        a, kw = [((1,), {}), ((1, 3), {}), ((1, 3, 4), {'z': 5}),
                 ((), {'a': 7, 'b': 8}), ((np.arange(3),), {'b': None})][
            int(r.randint(5))]
        want_call = (a[0] if a else 7, a[1] if len(a) > 1 else
                     kw.get('b', 2), a[2:],
                     {k: x for k, x in kw.items() if k not in 'ab'})
        inp = {'wrapper': which, 'rank': rank, 'size': size, 'args': a,
               'kwargs': kw, 'raises': raises and raises.__name__,
               'returns': value}
        h.case(inp)
        try:
            f = deco(step)
        except Exception as e:
            return h.fail('cannot be wrapped: %r' % (e,), inp)
        for turn in (1, 2):
            got = err = None
            try:
                with quiet():
                    got = f(*a, **kw)
            except BaseException as e:
                err = e
            if rank:
                if calls or err is not None:
                    return h.fail('a worker runs a step of the master', inp)
                continue
            if len(calls) != turn:
                return h.fail('the step runs %d times' % len(calls), inp)
            if not all(x is y or x == y for x, y in zip(
                    calls[-1], want_call)):
                return h.fail('other arguments: %r' % (calls[-1],), inp)
            if raises and (err is None or type(err) is not raises):
                return h.fail('the exception becomes %r' % (err,), inp)
            if not raises and (err is not None or got is not value):
                return h.fail('result %r, exception %r' % (got, err), inp)
            if turn == 1 and which == 'master only' and size > 1:
                # the ranks are looked up when the step is called
                par.MPI.COMM_WORLD.rank = rank
    par.attempt_parallel()


main(alone, together, wrappers)
