"""Keeping the effects of the code under test inside a scratch folder:
every call that removes, creates or renames files is refused, and reported,
for a path outside it."""
import builtins
import os
import shutil
import subprocess


class Escape(BaseException):
    pass


class Guard(object):
    NAMES = [(os, n) for n in (
        'remove', 'unlink', 'rmdir', 'removedirs', 'mkdir', 'makedirs',
        'rename', 'renames', 'replace', 'truncate', 'symlink', 'link',
        'chmod')] + [(shutil, n) for n in ('rmtree', 'move', 'copytree',
                                           'copyfile', 'copy', 'copy2')]
    NEVER = [(os, 'system'), (os, 'popen'), (subprocess, 'Popen'),
             (os, 'execv'), (os, 'fork')]

    def __init__(self, root):
        self.root, self.escaped, self.n = root, [], 0

    def __enter__(self):
        self.old = []
        for m, n in self.NAMES + self.NEVER + [(builtins, 'open')]:
            self.old.append((m, n, getattr(m, n)))
            setattr(m, n, self.wrap(getattr(m, n), n, (m, n)
                                    in self.NEVER))
        return self

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)

    def inside(self, p):
        q = os.path.realpath(os.path.join(os.path.realpath(os.path.dirname(
            os.path.abspath(p))), os.path.basename(os.path.abspath(p))))
        return os.path.abspath(q).startswith(self.root + os.sep)

    def wrap(self, f, name, never):
        def g(*a, **k):
            if name == 'open':
                mode = k.get('mode', a[1] if len(a) > 1 else 'r')
                if not set(mode) & set('wax+'):
                    return f(*a, **k)
            if k.get('dir_fd') is None:
                n = 2 if name in ('rename', 'renames', 'replace', 'move',
                                  'copytree', 'copyfile', 'copy', 'copy2',
                                  'symlink', 'link') else 1
                for p in a[:n]:
                    if never or isinstance(p, int) or not self.inside(
                            os.fspath(p)):
                        self.escaped.append('%s(%r)' % (name, p))
                        raise Escape(name)
            self.n += 1
            return f(*a, **k)
        return g
