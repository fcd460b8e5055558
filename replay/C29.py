from common import *
import os
import shutil
import tempfile
import fiona
from shapely.geometry import Point, Polygon, box, mapping, shape
from shapely.ops import unary_union
from utilities.shapefiles import shp_file

ROOT = tempfile.mkdtemp(prefix='layers_', dir=os.getcwd())
FIELDS = {'TYPE': 'str:40', 'ID': 'int', 'SIZE': 'float'}
NAMES = ['City', 'Urban', 'Rural', 'city', 'Large Town', None, 'None', '',
         'Z', 'a']


def write(path, rows):
    with fiona.open(path, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon', 'properties': FIELDS}
                    ) as o:
        for p, a in rows:
            o.write({'geometry': None if p is None else mapping(p),
                     'properties': a})


def attrs(a):
    try:
        d = dict(a)
    except (TypeError, ValueError):
        # no attributes at all
        return {'no attributes': repr(a)[:80]}
    return {k: (None if d.get(k) == '' else d.get(k)) for k in d}


def polygon(r):
    x, y = [float(q) for q in r.uniform(0, 20, 2)]
    k = r.randint(6)
    if k == 3:
        # a city block, in degrees
        return box(x, y, x + float(r.uniform(2e-4, 2e-3)),
                   y + float(r.uniform(2e-4, 2e-3)))
    if k == 4:
        # several parts
        w, q = [float(v) for v in r.uniform(.2, 3, 2)]
        return unary_union([box(x, y, x + w, y + q), box(
            x + 2 * w, y + 1, x + 3 * w, y + 1 + q)])
    if k == 5:
        # with a hole
        w = float(r.uniform(.5, 6))
        return box(x, y, x + w, y + w).difference(box(
            x + .2 * w, y + .3 * w, x + .6 * w, y + .7 * w))
    if k == 0:
        return box(x, y, x + float(r.uniform(.2, 6)),
                   y + float(r.uniform(.2, 6)))
    if k == 1:
        return Point(x, y).buffer(float(r.uniform(.2, 4)), 4)
    return Polygon([(x, y), (x + float(r.uniform(.5, 5)), y),
                    (x, y + float(r.uniform(.5, 5)))])


def features(r, n, missing=True):
    out = []
    for i in range(n):
        p = None if missing and r.rand() < .2 else polygon(r)
        out.append((p, {'TYPE': NAMES[int(r.randint(len(NAMES)))], 'ID': i,
                        'SIZE': float(np.round(r.uniform(0, 9), 3))}))
    return out


def same(a, b):
    return a.equals(b) or a.symmetric_difference(b).area < 1e-9


def compare(h, what, got_geom, got_attr, want, desc):
    if len(got_geom) != len(want) or len(got_attr) != len(want):
        return h.fail(what + ': another number of polygons', dict(
            desc, polygons=len(got_geom), attributes=len(got_attr),
            expected=len(want)))
    for k, (g, a, (p, w)) in enumerate(zip(got_geom, got_attr, want)):
        if not same(g, p):
            return h.fail(what + ': another polygon', dict(
                desc, number=k, got=g.wkt[:200], expected=p.wkt[:200]))
        if attrs(a) != attrs(w):
            return h.fail(what + ': attributes of another polygon', dict(
                desc, number=k, got=attrs(a), expected=attrs(w)))


class Plain(object):
    geom = attribute = None


def new(h, desc):
    s, err = h.call(shp_file)
    if err:
        h.fail('a new layer raises ' + err, desc)
        return Plain()
    for n in ('geom', 'attribute'):
        if not isinstance(getattr(s, n, None), list):
            h.fail('a new layer has no list ' + n, desc)
    return s


def layer(rows):
    s = shp_file()
    s.meta = {'driver': 'ESRI Shapefile', 'crs': 'EPSG:4326',
              'schema': {'geometry': 'Polygon', 'properties': dict(FIELDS)}}
    s.geom = [p for p, _ in rows]
    s.attribute = [dict(a) for _, a in rows]
    return s


def files(h):
    r = h.rng
    for n in range(60 if h.thorough else 16):
        if not h.more():
            return
        d = os.path.join(ROOT, 'f%d' % n)
        os.makedirs(d)
        try:
            rows = features(r, int(r.randint(0, 25)) if n else 0)
            desc = {'polygons': len(rows), 'without geometry': [
                i for i, (p, _) in enumerate(rows) if p is None]}
            h.case(desc)
            a, b = [os.path.join(d, x + '.shp') for x in 'ab']
            write(a, rows)
            s = new(h, desc)
            _, err = h.call(s.read, a)
            if err:
                h.fail('read raises ' + err, desc)
                continue
            want = [(p, x) for p, x in rows if p is not None]
            if compare(h, 'read', s.geom, s.attribute, want, desc):
                continue
            t = new(h, desc)
            if t.geom or t.attribute:
                h.fail('a new layer has polygons', desc)
            _, err = h.call(s.save, b)
            if err:
                h.fail('save raises ' + err, desc)
                continue
            with fiona.open(b) as f:
                got = [(shape(x['geometry']), x['properties']) for x in f]
                fields = dict(f.schema['properties'])
            compare(h, 'saved file', [g for g, _ in got],
                    [x for _, x in got], want, desc)
            if set(fields) != set(FIELDS):
                h.fail('saved file: other attributes', dict(
                    desc, fields=fields))
        finally:
            shutil.rmtree(d, ignore_errors=True)


def only(q):
    if q.geom_type == 'GeometryCollection':
        return unary_union([p for p in q.geoms if p.area])
    return q


def crop(h):
    r = h.rng
    for n in range(400 if h.thorough else 120):
        if not h.more():
            return
        rows = features(r, int(r.randint(0, 12)), False)
        mask = polygon(r)
        if n % 3 == 0:
            # neighbours that only touch the crop area
            x0, y0, x1, y1 = [float(q) for q in mask.bounds]
            rows += [(box(x1, y0, x1 + 1, y1), {
                'TYPE': 'touch', 'ID': 90, 'SIZE': 0.}), (
                    box(x0, y1, x1, y1 + 2), {
                        'TYPE': 'touch', 'ID': 91, 'SIZE': 0.})]
            r.shuffle(rows)
        if n % 4 == 0:
            # close to a corner of the box only
            x0, y0, x1, y1 = [float(q) for q in mask.bounds]
            rows.append((Polygon([(x1 + .01, y1 + .01), (
                x1 - .001, y1 + .01), (x1 + .01, y1 - .001 * 9)]), {
                    'TYPE': 'corner', 'ID': 92, 'SIZE': 1.}))
        if n % 5 == 0:
            # one arm ends at an edge of the box, another overlaps it
            x0, y0, x1, y1 = [float(q) for q in mask.bounds]
            w = (x1 - x0) / 4
            e, g = [(y1 - y0) * q for q in (.2, .6)]
            turn = unary_union([
                box(x1 - w, y0 + e / 2, x1 + 2 * w, y0 + e),
                box(x1, y0 + g, x1 + 2 * w, y0 + g + e),
                box(x1 + w, y0 + e / 2, x1 + 2 * w, y0 + g + e)])
            rows.append((turn, {'TYPE': 'arms', 'ID': 93, 'SIZE': 2.}))
            r.shuffle(rows)
        desc = {'mask': mask.wkt[:200], 'polygons': [
            p.wkt[:120] for p, _ in rows][:6], 'number': len(rows)}
        h.case(desc)
        s = layer(rows)
        _, err = h.call(s.crop, mask)
        if err:
            return h.fail('crop raises ' + err, desc)
        b = box(*mask.bounds)
        want = []
        for p, a in rows:
            q = p.intersection(b)
            if q.area:
                want.append((only(q), a))
        compare(h, 'crop', s.geom, s.attribute, want, desc)
        kinds = sorted(set(g.geom_type for g in s.geom))
        if not set(kinds) <= {'Polygon', 'MultiPolygon'}:
            return h.fail('crop: not polygons', dict(desc, kinds=kinds))
        if n % 5 == 0:
            _, err = h.call(s.save, os.path.join(ROOT, 'crop.shp'))
            if err:
                return h.fail('save of a cropped layer raises ' + err, desc)


def dissolve(h):
    r = h.rng
    for n in range(300 if h.thorough else 80):
        if not h.more():
            return
        rows = features(r, int(r.randint(0, 14)), False)
        field = 'TYPE' if n % 3 else 'ID'
        if field == 'ID':
            for k, (_, a) in enumerate(rows):
                a['ID'] = 'n%d' % r.randint(0, 4)
        desc = {'values': [str(a[field]) for _, a in rows], 'field': field}
        h.case(desc)
        s = layer(rows)
        _, err = h.call(s.dissolve, field)
        if err:
            return h.fail('dissolve raises ' + err, desc)
        want = {}
        for p, a in rows:
            want.setdefault(a[field] or 'None', []).append(p)
        if len(s.geom) != len(s.attribute):
            return h.fail('dissolve: lists of another length', desc)
        seen = {}
        for g, a in zip(s.geom, s.attribute):
            k = attrs(a).get(field) or 'None'
            if k in seen:
                return h.fail('dissolve: two polygons of one value', dict(
                    desc, value=k))
            seen[k] = g
        if set(seen) != set(want):
            return h.fail('dissolve: other values', dict(desc, got=list(
                seen)))
        for k, g in seen.items():
            if not same(g, unary_union(want[k])):
                return h.fail('dissolve: not the union of the polygons of '
                              'the value', dict(desc, value=k))


h_rule = ('random layers of boxes, discs and triangles (some without '
          'geometry), crop masks of any shape, touching neighbours, text '
          'attributes with missing and empty values')
try:
    main(files, crop, dissolve)
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
