from common import *
import copy
from shapely.geometry import Polygon, MultiPolygon, box
from utilities.shapefiles import shp_file


def shape(r, kind, size):
    x, y = r.uniform(0, 10, 2)
    if kind == 'grid':
        x, y = float(r.randint(0, 10)), float(r.randint(0, 10))
        return box(x, y, x + r.randint(1, 4), y + r.randint(1, 4))
    a = np.sort(r.uniform(0, 2 * np.pi, int(r.randint(3, 8))))
    if np.max(np.diff(np.append(a, a[0] + 2 * np.pi))) > 3:
        a = np.arange(5) * 2 * np.pi / 5
    p = Polygon([(x + size * np.cos(t), y + size * np.sin(t)) for t in a])
    if kind == 'multi':
        return MultiPolygon([p, box(x + 3 * size, y, x + 3.5 * size,
                                    y + size)])
    return p


def layer(polys, rows):
    s = shp_file()
    s.geom, s.attribute = list(polys), rows
    return s


def joins(h):
    r = h.rng
    for n in range(900 if h.thorough else 160):
        if not h.more():
            return
        kind = ['free', 'grid', 'multi', 'cover'][n % 4]
        k, m = int(r.randint(0, 25)), int(r.randint(0, 12))
        if n % 23 == 5:
            k, m = 150, 40
        mine = [shape(r, 'grid' if kind == 'cover' else kind,
                      r.uniform(.2, 2)) for _ in range(k)]
        if kind == 'cover':
            # pieces side by side, the last one around them all
            cuts = np.sort(np.concatenate([[-1, 15], r.uniform(0, 13, 4)]))
            theirs = [box(a, -1, b, 15) for a, b in zip(cuts, cuts[1:])]
            if n % 8 == 3:
                theirs.append(box(-1, 4.2, 15, 9.1))
        else:
            theirs = [shape(r, kind, r.uniform(.2, 4)) for _ in range(m)]
        if mine and theirs and n % 3 == 0:
            theirs[-1] = theirs[-1].union(mine[0].centroid.buffer(.05))
        r.shuffle(theirs)
        if n % 5 == 0:
            theirs.sort(key=lambda p: p.area * (-1) ** (n % 2))
        var = ['SETTLEMENT', 'v', 'CAT'][n % 3]
        names = ['City', 'Urban', None, 'Town', 'Major CBD']
        other = layer(theirs, [{var: '%s%d' % (names[i % 5], i) if
                                names[i % 5] else None, 'id': i}
                               for i in range(len(theirs))])
        me = layer(mine, [dict([('id', i), ('use', 'u%d' % i)] + (
            [(var, 'before')] if n % 2 else [])) for i in range(k)])
        desc = {'kind': kind, 'polygons': k, 'other': len(theirs),
                'n': n}
        h.case(desc)
        g1, g2 = list(me.geom), list(other.geom)
        w1, w2 = [p.wkb for p in g1], [p.wkb for p in g2]
        a1, a2 = copy.deepcopy(me.attribute), copy.deepcopy(other.attribute)
        _, err = h.call(me.spatial_join, other, var)
        if err:
            return h.fail('spatial_join raises ' + err, desc)
        if [p.wkb for p in me.geom] != w1 or [p.wkb for p in
                                              other.geom] != w2:
            return h.fail('polygons are changed', desc)
        if [dict(a) for a in other.attribute] != a2:
            return h.fail('the other layer is changed', desc)
        if len(me.attribute) != k:
            return h.fail('%d attribute tables' % len(me.attribute), desc)
        for i in range(k):
            got = dict(me.attribute[i])
            val = got.pop(var, 'missing')
            old = dict(a1[i])
            old.pop(var, None)
            p = g1[i]
            share = {j: p.intersection(q).area for j, q in enumerate(g2)
                     if p.intersects(q)}
            best = max(share.values()) if share else 0
            ok = {a2[j][var] for j, x in share.items()
                  if x >= best * (1 - 1e-9)} or {None}
            if got != old:
                return h.fail('other attributes are changed', dict(
                    desc, polygon=i, before=old, after=got))
            if val not in ok:
                return h.fail('polygon %d gets %r' % (i, val), dict(
                    desc, polygon=p.wkt[:300], expected=sorted(
                        map(str, ok)), shares={
                            a2[j]['id']: x for j, x in share.items()}))


main(joins)
