from common import *
import logging
import os
import shutil
import tempfile
import fiona
from shapely.geometry import Polygon, box, mapping, shape
from shapely.ops import unary_union
with quiet():
    import pre_process as pp
for _h in list(pp.logger.handlers):
    if not isinstance(_h, logging.FileHandler):
        pp.logger.removeHandler(_h)

ROOT = tempfile.mkdtemp(prefix='use_', dir=os.getcwd())
SET = {'Major CBD': 1, 'City': 2, 'Urban': 3, 'Large Town': 4,
       'Small Town': 5}
USE = {'Parkland': 1, 'Primary Production': 2, 'Education': 4,
       'Residential': 5, 'Water': 6, 'Other': 7, 'Commercial': 8,
       'Industrial': 9, 'Hospital/Medical': 10, 'Transport': 11}
TYPES = list(SET) + ['Rural', 'Remote', 'urban', 'Town']
USES = list(USE) + ['Antarctica', 'SHIPPING', 'parkland', '',
                    'Primary  Production', 'Resident']


def write(path, polys, rows, fields):
    with fiona.open(path, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon', 'properties': fields}
                    ) as o:
        for p, a in zip(polys, rows):
            o.write({'geometry': mapping(p), 'properties': a})


def runs(h):
    r = h.rng
    for n in range(80 if h.thorough else 22):
        if not h.more():
            return
        d = os.path.join(ROOT, 'r%d' % n)
        os.makedirs(d)
        try:
            one(h, r, d, n)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(h, r, d, n):
    names = [('SETTLEMENT', 'MB_CAT16'), ('TYPE', 'USE')][n % 2]
    path = lambda x: os.path.join(d, x + '.shp')
    # settlements: columns of a map, some of them several polygons
    cuts = np.sort(r.uniform(0, 20, int(r.randint(1, 12))))
    cuts = np.concatenate([[0], cuts, [20]])
    zones = [box(a, 0, b, 20) for a, b in zip(cuts, cuts[1:])
             if b - a > 1e-3]
    if n % 3 == 0:
        zones = [z for z in zones if r.rand() < .7] or zones[:1]
    types = [TYPES[int(r.randint(0, len(TYPES)))] for _ in zones]
    if n % 4 == 2:
        types = [t if r.rand() < .8 else None for t in types]
    if n % 5 == 0:
        # every type once
        zones = [box(k * 2, 0, k * 2 + 2, 20) for k in range(len(TYPES))]
        types = list(TYPES)
    if n % 4 == 3:
        # narrow columns of two types in turn, one of them wider
        pick = [list(SET)[int(q)] for q in r.permutation(len(SET))[:2]]
        zones, types, x = [], [], 0.
        while x < 20:
            w = r.uniform(.5, 1) * (1 + .8 * (len(types) % 2))
            zones.append(box(x, 0, x + w, 20))
            types.append(pick[len(types) % 2] if r.rand() < .9 else None)
            x += w
    free = [t for t in SET if t not in types]
    bow = None
    if n % 4 != 1 and free:
        # the one outline of its type crosses itself (and is no valid polygon)
        bow = r.uniform(0, 14)
        zones.append(Polygon([(21, bow), (24, bow + 3), (24, bow),
                              (21, bow + 3)]))
        types.append(free[int(r.randint(0, len(free)))])
    write(path('settlement'), zones, [{names[0]: t, 'ID': i}
                                      for i, t in enumerate(types)],
          {names[0]: 'str:40', 'ID': 'int'})
    k = int(r.randint(1, 40))
    blocks, uses = [], []
    for i in range(k):
        x, y = r.uniform(0, 19, 2)
        blocks.append(box(x, y, x + r.uniform(.1, 4), y + r.uniform(.1, 3)))
        uses.append(USES[int(r.randint(0, len(USES)))])
    if n % 4 == 3:
        for i in range(25):
            x, y = r.uniform(0, 16, 2)
            blocks.append(box(x, y, x + r.uniform(1, 8), y + 2))
            uses.append(USES[int(r.randint(0, len(USES)))])
    if n % 5 == 0:
        # every pair of a settlement and a use
        for q, t in enumerate(TYPES):
            for p, u in enumerate(USES):
                blocks.append(box(2 * q + .5, p, 2 * q + 1.5, p + .9))
                uses.append(u)
    if bow is not None:
        for i in range(6):
            x, y = r.uniform(20, 23.5), bow + r.uniform(-1, 2.9)
            blocks.append(box(x, y, x + r.uniform(.1, 2), y + 1))
            uses.append(USES[int(r.randint(0, len(USES)))])
        blocks.append(box(20.5, bow - .5, 24.5, bow + 3.5))
        uses.append('Residential')
    if n % 6 == 1:
        blocks.append(box(25, 25, 26, 26))
        uses.append('Residential')
    write(path('use'), blocks, [{names[1]: u, 'MB': i}
                                for i, u in enumerate(uses)],
          {names[1]: 'str:40', 'MB': 'int'})
    mask = None
    if n % 3 == 1:
        a, b = r.uniform(0, 6, 2)
        mask = box(a, b, a + r.uniform(5, 12), b + r.uniform(5, 12))
        write(path('mask'), [mask], [{'ID': 0}], {'ID': 'int'})
    desc = {'settlements': [str(t) for t in types], 'polygons': len(blocks),
            'mask': mask and mask.wkt, 'names': names, 'n': n}
    h.case(desc)
    with quiet():
        _, err = h.call(pp.pre_process, path('settlement'), names[0],
                        path('use'), names[1], path('mask') if mask
                        else 'None', path('out'))
    if err:
        return h.fail('pre_process raises ' + err, desc)
    groups = {}
    for z, t in zip(zones, types):
        groups.setdefault(t if t in SET else None, []).append(z)
    groups = {t: unary_union(z) for t, z in groups.items()}
    groups = {t: z if z.is_valid else z.buffer(0)
              for t, z in groups.items()}
    want = []
    for i, (b, u) in enumerate(zip(blocks, uses)):
        if mask is not None:
            b = b.intersection(mask)
            if not b.area:
                continue
        share = {}
        for t, z in groups.items():
            if mask is not None:
                z = z.intersection(mask)
                if not z.area:
                    continue
            if b.intersects(z):
                share[t] = b.intersection(z).area
        best = max(share.values()) if share else 0
        ok = {t for t, x in share.items() if x >= best - 1e-9 * (
            1 + best)} or {None}
        want.append((i, u, b, ok))
    with fiona.open(path('out')) as f:
        got = [(shape(p['geometry']), dict(p['properties'])) for p in f]
    if len(got) != len(want):
        return h.fail('%d polygons are saved instead of %d' % (
            len(got), len(want)), desc)
    for (i, u, b, ok), (g, a) in zip(want, got):
        inp = dict(desc, polygon=i, use=u, settlement=sorted(map(str, ok)),
                   saved=a)
        if a.get('MB') != i or (a.get(names[1]) or '') != u:
            return h.fail('order or attributes of the polygons', inp)
        if not g.equals(b) and g.symmetric_difference(b).area > 1e-9:
            return h.fail('another polygon', inp)
        if a.get('CAT') not in {100 * SET.get(t, 0) + USE.get(u, 0)
                                for t in ok}:
            return h.fail('code %r' % (a.get('CAT'),), inp)
        if a.get(names[0]) not in ok:
            return h.fail('settlement %r' % (a.get(names[0]),), inp)
        if a['CAT'] // 100 != SET.get(a[names[0]], 0):
            return h.fail('code and settlement do not agree', inp)


try:
    main(runs)
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
