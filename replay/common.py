"""Running the real code against the executable form of a specification.

Executed by /opt/venv/bin/python in a scratch directory."""
import argparse
import contextlib
import faulthandler
import io
import json
import logging
import os
import resource
import signal
import sys
import threading
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


class Stop(Exception):
    pass


class HarnessError(Exception):
    pass


class NoReturn(Exception):
    pass


LIMIT = 60


def ring(*a):
    raise NoReturn('no answer within %d s' % LIMIT)


class Harness(object):
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument('--seed', type=int, default=1)
        ap.add_argument('--tier', default='quick')
        ap.add_argument('--out', default='replay.json')
        ap.add_argument('--hints')
        ap.add_argument('--budget', type=float, default=40)
        a = ap.parse_args()
        self.seed, self.tier, self.out = a.seed, a.tier, a.out
        self.thorough = a.tier == 'thorough'
        self.rng = np.random.RandomState(a.seed)
        self.hints = []
        if a.hints:
            with open(a.hints) as f:
                self.hints = json.load(f)
        self.t_end = time.time() + a.budget
        self.tried = 0
        self.keys = set()
        self.samples = []
        self.failures = []
        self.rule = ''
        self.errors = []

    def more(self):
        """time left, and no failure yet?"""
        return time.time() < self.t_end and len(self.failures) < 3

    def case(self, desc, key=None):
        self.tried += 1
        k = key if key is not None else json.dumps(desc, default=str,
                                                   sort_keys=True)
        self.keys.add(k)
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(desc, default=str)))

    def fail(self, what, inp, key=None):
        f = {'what': what, 'input': json.loads(json.dumps(
            inp, default=plain))}
        if key:
            f['key'] = key
        self.failures.append(f)
        if len(self.failures) >= 3:
            raise Stop()

    def hint_ints(self, *names):
        """integer values the verifier suggests, as dictionaries"""
        out = []
        for h in self.hints:
            d = {}
            for n in names:
                try:
                    v = h.get(n)
                    if v is None:
                        continue
                    d[n] = int(v)
                except ValueError:
                    try:
                        p, q = v.split('/')
                        d[n] = float(p) / float(q)
                    except ValueError:
                        pass
            if d:
                out.append(d)
        return out

    def call(self, f, *args, **kw):
        """(result, None) or (None, exception text)"""
        watch = threading.current_thread() is threading.main_thread()
        try:
            if watch:
                signal.signal(signal.SIGALRM, ring)
                signal.setitimer(signal.ITIMER_REAL, LIMIT, 5)
            try:
                with quiet():
                    return f(*args, **kw), None
            finally:
                if watch:
                    signal.setitimer(signal.ITIMER_REAL, 0)
        except Stop:
            raise
        except (Exception, SystemExit) as e:
            # a changed signature is not a failure of the property
            if isinstance(e, TypeError) and \
                    e.__traceback__.tb_next is None:
                raise HarnessError('signature changed: %s' % e)
            if isinstance(e, (NoReturn, MemoryError)):
                self.t_end = 0
            return None, '%s: %s' % (type(e).__name__, e)

    def section(self, fn):
        """run one part of the harness; its own errors are not failures"""
        try:
            fn(self)
        except Stop:
            raise
        except (Exception, SystemExit):
            self.errors.append('%s: %s' % (fn.__name__,
                                           traceback.format_exc()[-1200:]))


class quiet(object):
    def __enter__(self):
        self.out = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.out


def plain(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return str(o)


def close(a, b, tol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.isnan(a) & np.isnan(b)) |
                       (np.abs(a - b) <= tol * np.maximum(
                           1, np.abs(b)))))


def main(*sections):
    logging.disable(logging.CRITICAL)
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    h = Harness()
    try:
        for s in sections:
            h.section(s)
    except Stop:
        pass
    with open(h.out, 'w') as f:
        json.dump({'tried': h.tried, 'distinct': len(h.keys),
                   'samples': h.samples, 'failures': h.failures,
                   'rule': h.rule,
                   'error': '\n'.join(h.errors) or None}, f)
