from common import *
import os
import shutil
import tempfile
import tiles as T
import terrain.terrain_mult as tm
import shielding.shield_mult as sm
from utilities.config import configparser as config

ROOT = tempfile.mkdtemp(prefix='tab_', dir=os.getcwd())
WORDS = ['City buildings', 'Forest', 'High density metropolitan', 'Grass',
         'Centre of town', 'Water', 'Roads']


def mz(z0):
    return -0.2827 * np.log(0.4554 * np.log(z0) + 3.734) + 1.0762


def write(path, rows, r, loose):
    """rows: category -> (roughness, shielding)"""
    cols = ['CATEGORY', 'DESCRIPTION', 'ROUGHNESS_LENGTH_m', 'SHIELDING']
    if loose:
        cols = cols + ['NOTE', 'VEGETATION'][:int(r.randint(0, 3))]
        cols = [cols[i] for i in r.permutation(len(cols))]
    lines = []

    def remark():
        if loose and r.rand() < .4:
            lines.append('# 1,2,3, a remark of the editor')
        if loose and r.rand() < .15:
            lines.append('')
    remark()
    lines.append(','.join(cols))
    tail = ',' if loose and r.rand() < .4 else ''
    for c in rows:
        remark()
        z, s = rows[c]
        val = {'CATEGORY': c, 'DESCRIPTION': WORDS[int(r.randint(0, 7))],
               'ROUGHNESS_LENGTH_m': repr(z), 'SHIELDING': s,
               'NOTE': 'x', 'VEGETATION': int(r.randint(0, 9))}
        lines.append(','.join(str(val[k]) for k in cols) + tail +
                     ('  # sic' if loose and r.rand() < .3 else ''))
    remark()
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return '\n'.join(lines)


def name(path):
    if not config.has_section('inputValues'):
        config.add_section('inputValues')
    config.set('inputValues', 'terrain_table', path)


def values(r):
    # up to the codes of all settlements and land uses
    n = int(r.randint(1, 8)) if r.rand() < .8 else int(
        r.randint(40, 60))
    if r.rand() < .1:
        # one class for every code of a large legend
        n = int(r.randint(200, 1500))
    whole = r.rand() < .7
    cats = r.permutation(max(60, n + 9))[:n].tolist()
    return {int(c): (float(np.exp(r.uniform(-6, .6))),
                     int(r.randint(50, 101)) if whole else round(
                         float(r.uniform(1, 100)), 2)) for c in cats}


def look(df, rows):
    try:
        got = {int(df['CATEGORY'].iloc[i]): (
            float(df['ROUGHNESS_LENGTH_m'].iloc[i]),
            float(df['SHIELDING'].iloc[i])) for i in range(len(df))}
    except Exception as e:
        return 'a table that cannot be read: %r' % (e,)
    if set(got) != set(rows) or len(df) != len(rows) or not all(
            np.allclose(got[c], rows[c], rtol=1e-9) for c in rows):
        return 'other classes: %s' % (got,)


def again(h):
    """a table changed in place: as long as before, at the same time"""
    r = h.rng
    for n in range(12):
        p = os.path.join(ROOT, 'again%d.csv' % n)
        name(p)
        log = []
        for k in range(3):
            rows = {c: (int(r.randint(1, 9)) / 10., int(r.randint(10, 99)))
                    for c in range(1, 6)}
            with open(p, 'w') as f:
                f.write('# classes\nCATEGORY,DESCRIPTION,'
                        'ROUGHNESS_LENGTH_m,SHIELDING\n' + ''.join(
                            '%d,x,%.1f,%d\n' % ((c,) + rows[c])
                            for c in rows))
            os.utime(p, (1e9, 1e9))
            log.append(rows)
            inp = {'tables': log}
            h.case(inp)
            for w, f in (('terrain', tm.get_terrain_table),
                         ('shielding', sm.get_shielding_table)):
                df, err = h.call(f)
                if err:
                    return h.fail('%s table: raises %s' % (w, err), inp)
                bad = look(df, rows)
                if bad:
                    return h.fail('%s table: %s' % (w, bad), inp)


def stopped(f, *a):
    try:
        f(*a)
    except BaseException as e:
        return type(e).__name__
    return None


def histories(h):
    r = h.rng
    h.rule = 'histories of tables: files rewritten, exchanged, missing; ' \
             'comments, further columns, any column order'
    for n in range(300 if h.thorough else 80):
        if not h.more():
            return
        names = [os.path.join(ROOT, 't%d_%d.csv' % (n, k))
                 for k in range(2)]
        log = []
        for k in range(int(r.randint(2, 6))):
            rows = values(r)
            p = names[int(r.randint(0, 2))]
            gone = r.rand() < .15
            if gone:
                p = os.path.join(ROOT, 'none_%d_%d.csv' % (n, k))
                text = None
            else:
                text = write(p, rows, r, n % 3 > 0)
                # the same time stamp and, often, the same size
                os.utime(p, (1e9, 1e9))
            if r.rand() < .3 and not gone:
                # selected by a configuration file
                cf = os.path.join(ROOT, 'c%d_%d.cfg' % (n, k))
                with open(cf, 'w') as f:
                    f.write('[inputValues]\nterrain_table = %s\n' % p)
                config.set_config_file(cf)
            else:
                name(p)
            log.append({'file': os.path.basename(p), 'content': text})
            inp = {'history': log}
            h.case(inp)
            both = [('terrain', tm.get_terrain_table),
                    ('shielding', sm.get_shielding_table)]
            for w, f in both if r.rand() < .5 else both[::-1]:
                if gone:
                    if stopped(f) is None:
                        return h.fail('a missing %s table is passed over'
                                      % w, inp)
                    continue
                df, err = h.call(f)
                if err:
                    return h.fail('%s table: raises %s' % (w, err), inp)
                bad = look(df, rows)
                if bad:
                    return h.fail('%s table: %s' % (w, bad), inp)
                # a caller that works on its table
                if r.rand() < .3:
                    df['SHIELDING'] = 7
                    df['ROUGHNESS_LENGTH_m'] = 1.


def cells(h):
    """multipliers of tiles under changing tables"""
    r = h.rng
    for n in range(60 if h.thorough else 16):
        if not h.more():
            return
        d = T.folder()
        try:
            if not tile_history(h, r, n, d):
                return
        finally:
            T.drop(d)


def tile_history(h, r, n, d):
    log = []
    for k in range(3):
        rows = values(r)
        p = os.path.join(ROOT, 'cells%d.csv' % (n if k < 2 else -n - 1))
        log.append(write(p, rows, r, True))
        name(p)
        # cells so wide that nothing is averaged
        t = T.Tile(int(r.randint(2, 6)), int(r.randint(2, 6)), .05, .05)
        pool = np.array(list(rows) + [61, 62])
        cls = pool[r.randint(0, len(pool), (t.ny, t.nx))]
        cls[0, 0] = list(rows)[0]
        inp = {'tables': list(log), 'cells': cls}
        h.case(inp)
        img = T.raster(d + '/k%d.img' % k, t, cls, 'i', None)
        _, err = h.call(tm.terrain, img, t.extent)
        if err:
            h.fail('terrain raises ' + err, inp)
            return False
        want = np.full(cls.shape, np.nan)
        for c, (z, s) in rows.items():
            want[cls == c] = mz(z)
        for f, x in T.outputs(d, 'terrain').items():
            if f.startswith('k%d_' % k) and (
                    x is None or not close(x[1], want, 3e-5)):
                h.fail('terrain multipliers of another table',
                       dict(inp, file=f, got=x and x[1], want=want))
                return False
        out, err = h.call(sm.terrain_class2ms_orig, img)
        if err:
            h.fail('shielding raises ' + err, inp)
            return False
        ds = T.gdal.Open(out)
        got = ds.ReadAsArray()
        ds = None
        want = np.ones(cls.shape)
        for c, (z, s) in rows.items():
            want[cls == c] = s / 100.
        if not close(got, want, 3e-6):
            h.fail('shielding factors of another table',
                   dict(inp, got=got, want=want))
            return False
    return True


try:
    main(again, histories, cells)
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
