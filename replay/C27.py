from common import *
import locale
import os
import shutil
import tempfile
from utilities import config as module

ROOT = tempfile.mkdtemp(prefix='cfg_', dir=os.getcwd())
SIGNS = ['', '.img', ' a', '%', ' # 2', '/é']
try:
    SIGNS[-1].encode(locale.getpreferredencoding(False))
except UnicodeError:
    SIGNS[-1] = ''
KEYS = [('inputValues', 'upwind_length'), ('inputValues', 'dem_data'),
        ('Output', 'output_dir'), ('Logging', 'LogLevel'),
        ('Extra', 'thing'), ('Extra', 'dem_data')]


def write(name, values, r):
    path = os.path.join(ROOT, name)
    secs = {}
    for (s, k), x in values.items():
        secs.setdefault(s, []).append((k, x))
    with open(path, 'w') as f:
        f.write('# a configuration\n')
        for s, kv in secs.items():
            f.write('[%s]\n' % s)
            for k, x in kv:
                f.write('%s %s %s\n' % (k, '=' if r.rand() < .7 else ':',
                                        x))
            f.write('\n')
    return path


def histories(h):
    r = h.rng
    for n in range(600 if h.thorough else 150):
        if not h.more():
            return
        shared = n % 2 == 0
        c = module.configparser if shared else type(module.configparser)()
        files, steps = [], []
        for k in range(int(r.randint(1, 4))):
            vals = {q: 'v%d_%d_%d%s' % (n, k, i, SIGNS[(n + i) % 6])
                    for i, q in enumerate(KEYS)
                    if r.rand() < .7}
            files.append((write('f%d.cfg' % (k if n % 3 else n * 10 + k),
                                vals, r), vals))
        for _ in range(int(r.randint(1, 6))):
            k = int(r.randint(0, len(files)))
            steps.append(k)
        desc = {'files': [sorted('.'.join(q) for q in x)
                          for _, x in files], 'selected': steps,
                'shared': shared, 'relative': n % 5 == 4}
        h.case(desc)
        for i, k in enumerate(steps):
            path, vals = files[k]
            if n % 7 == 3:
                # another file of the same name in the working directory
                with open(os.path.basename(path), 'w') as f:
                    for s in ('inputValues', 'Output', 'Logging', 'Extra'):
                        f.write('[%s]\n' % s + ''.join(
                            '%s = decoy\n' % o for q, o in KEYS if q == s))
            if n % 5 == 4:
                path = os.path.relpath(path)
            if r.rand() < .3:
                for s in ('inputValues', 'Extra'):
                    if not c.has_section(s):
                        c.add_section(s)
                    c.set(s, 'dem_data', 'set before')
            _, err = h.call(c.set_config_file, path)
            if err:
                return h.fail('set_config_file raises ' + err, desc)
            if r.rand() < .3:
                c.has_option('Extra', 'thing')
            for (s, o), x in vals.items():
                got, err = h.call(c.get, s, o)
                if err or got != x:
                    return h.fail('%s.%s is %r, the file says %r' % (
                        s, o, err or got, x), dict(desc, step=i))
        # edited between two selections
        path, vals = files[steps[-1]]
        vals = {q: 'new' for q in vals}
        write(os.path.basename(path), vals, r)
        _, err = h.call(c.set_config_file, path)
        for (s, o), x in vals.items():
            got, err = h.call(c.get, s, o)
            if err or got != x:
                return h.fail('%s.%s is %r after the file is selected again'
                              % (s, o, err or got), desc)


try:
    main(histories)
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
