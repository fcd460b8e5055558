"""Layers of polygons: shapely geometries and attribute tables as functions of
the polygon number."""
from engine.vc import *
from engine.values import *
from contracts.gis import nat, noop

F = 'utilities/shapefiles.py:'


def key_text(k):
    return k if isinstance(k, str) else k


def same_text(a, b):
    r = str_eq(a, b) if isinstance(a, (str, SymStr)) and isinstance(
        b, (str, SymStr)) else None
    if r is None:
        raise Unsupported('name of an attribute')
    return norm(r) is True


def entries(ip, st, d):
    """(key, value) pairs of a dictionary given to update()"""
    r = st.heap[d.id] if isinstance(d, Ref) else None
    if not isinstance(r, DictRec):
        raise Unsupported('argument of update')
    return list(r.d.items()) + [(k, x) for k, x, _ in r.sym]


def code(x):
    if isinstance(x, Choice):
        return ite(x.cond, code(x.a), code(x.b))
    if isinstance(x, ObjV):
        return x.term
    if x is None or isinstance(x, str):
        return code_of(x)
    raise Unsupported('attribute value %r' % (x,))


class Table(object):
    """attribute tables of n polygons; columns: [(name, kind)] of values that
    are texts or None ('o') or integers ('i'); writes to another column are
    not allowed"""

    def __init__(self, v, st, n, columns, tag):
        self.v, self.ip, self.n = v, v.ip, n
        self.cols = []
        for j, (name, kind) in enumerate(columns):
            f = z3.Function('%s_%d' % (tag, j), I, I)
            ref = st.new(ArrRec((n,), 'i', lambda ix, f=f: f(zi(ix[0]))))
            self.cols.append((name, kind, ref, f))
        self.list = st.new(SeqRec([SymSeg(n, self.row)]))

    def col(self, name):
        for c in self.cols:
            if same_text(c[0], name):
                return c
        return None

    def put(self, ip, st, i, k, x):
        c = self.col(k)
        ip.obl(st, 'no other attribute is changed', c is not None)
        if c is None:
            raise Unsupported('attribute %r' % (k,))
        if c[1] == 'o':
            x = code(x)
        elif not is_scalar(x):
            raise Unsupported('value %r' % (x,))
        ip.setitem(st, c[2], (i,), x)

    def get(self, ip, st, i, k):
        c = self.col(k)
        if c is None:
            raise Unsupported('attribute %r' % (k,))
        x = ip.getitem(st, c[2], (i,))
        return ObjV(x) if c[1] == 'o' else x

    def row(self, i):
        me = self

        def update(ip, st, a, k):
            for q, x in (entries(ip, st, a[0]) if a else []) + list(
                    k.items()):
                me.put(ip, st, i, q, x)
        return NObj('attributes', {
            '__getitem__': nat('[]', lambda ip, st, a, k: me.get(
                ip, st, i, a[0])),
            'get': nat('get', lambda ip, st, a, k: me.get(ip, st, i, a[0])),
            '__setitem__': nat('[]=', lambda ip, st, a, k: me.put(
                ip, st, i, a[0], a[1])),
            'update': nat('update', update)}.get)

    def now(self, st, name, i):
        return self.ip.getitem(st, self.col(name)[2], (i,))


class Layer(object):
    """polygons 0..n-1 of a layer"""

    def __init__(self, v, st, n, tag):
        self.v, self.n, self.tag = v, n, tag
        self.area = z3.Function(tag + '_area', I, R)
        self.geom = st.new(SeqRec([SymSeg(n, self.polygon)]))
        self.relations = {}

    def relate(self, other):
        """intersects, shared area and overlapping boxes with other layer"""
        t = '%s_%s_' % (self.tag, other.tag)
        self.relations[id(other)] = (
            z3.Function(t + 'intersects', I, I, B),
            z3.Function(t + 'shared', I, I, R),
            z3.Function(t + 'boxes', I, I, B))
        return self.relations[id(other)]

    def polygon(self, i):
        me = self
        i = norm(i)

        def pair(q):
            if not (isinstance(q, NObj) and hasattr(q, 'of')):
                raise Unsupported('polygon %r' % (q,))
            if id(q.of[0]) in me.relations:
                return me.relations[id(q.of[0])], i, q.of[1]
            if id(me) in q.of[0].relations:
                return q.of[0].relations[id(me)], q.of[1], i
            raise Unsupported('two polygons of a layer')

        def intersects(ip, st, a, k):
            f, x, y = pair(a[0])
            return norm(f[0](zi(x), zi(y)))

        def intersection(ip, st, a, k):
            f, x, y = pair(a[0])
            return NObj('part', {'area': f[1](zi(x), zi(y)),
                                 'is_empty': b_not(norm(f[0](
                                     zi(x), zi(y))))}.get)
        o = NObj('polygon', {
            'area': me.area(zi(i)), 'is_valid': True, 'is_empty': False,
            'intersects': nat('intersects', intersects),
            'intersection': nat('intersection', intersection)}.get)
        o.of = (me, i)
        return o
