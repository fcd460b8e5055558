"""C29: polygon layers keep every polygon together with its attributes."""
from engine.vc import *
from engine.values import *
from contracts.gis import nat, noop
from engine.lib import arg
from contracts.polygons import F, code, same_text, entries

REG = Registry('C29')


class Many(object):
    """objects 0..n-1 of one kind, told apart by their number"""

    def __init__(self, kind, attrs=lambda i: {}):
        self.kind, self.attrs = kind, attrs

    def at(self, i):
        i = norm(i)
        o = NObj(self.kind, self.attrs(i).get,
                 lambda pairs: self.at(subst(i, pairs)))
        o.of = (self, i)
        return o

    def seq(self, n):
        return SeqRec([SymSeg(n, self.at)])

    def index(self, x):
        if not (isinstance(x, NObj) and getattr(x, 'of', (0,))[0] is self):
            raise Unsupported('%s %r' % (self.kind, x))
        return x.of[1]


def settled(ip, st, x):
    """a value that depends on a condition the path decides"""
    while isinstance(x, Choice):
        if ip.valid(st, x.cond):
            x = x.a
        elif ip.valid(st, b_not(x.cond)):
            x = x.b
        else:
            raise NeedFork(x.cond)
    return x


class Files(object):
    """a shape file of n features, and a layer of n polygons"""

    def __init__(self, v):
        self.v, ip = v, v.ip
        st = v.st
        self.n = v.int('n', 0)
        self.missing = z3.Function('no_geometry', I, B)
        self.key = z3.Function('key', I, I)
        self.shared = z3.Function('area_in_box', I, R)
        self.name = SymStr([Atom('attribute')])
        self.path = SymStr([Atom('in', ''), '.shp'])
        self.out = SymStr([Atom('out', ''), '.shp'])
        i = z3.Int('i')
        v.fact(z3.ForAll([i], self.shared(i) >= 0,
                         patterns=[self.shared(i)]), {self.shared.name()})
        v.trust('shapely: area of an intersection is not negative')
        self.raw = Many('geometry of the file')
        self.parts = Many('part of the box', lambda i: {
            'area': self.shared(zi(i))})
        self.geom = Many('polygon', lambda i: {
            'intersection': nat('intersection', lambda ip, st, a, k:
                                self.part(ip, st, i, a[0]))})
        self.attr = Many('attributes', lambda i: {
            '__getitem__': nat('[]', lambda ip, st, a, k: self.value(
                ip, i, a[0])),
            'get': nat('get', lambda ip, st, a, k: self.value(ip, i, a[0]))})
        self.shape = Many('GeoJSON')
        self.feature = Many('feature', lambda i: {
            '__getitem__': nat('[]', lambda ip, st, a, k: self.field(
                i, a[0])),
            'geometry': self.field(i, 'geometry'),
            'properties': self.field(i, 'properties')})
        self.meta = st.new(DictRec({'driver': 'ESRI Shapefile',
                                    'schema': Opaque('schema'),
                                    'crs': Opaque('crs')}))
        self.written = st.new(SeqRec([]))
        self.opened = st.new(InstRec(None, {'log': ()}))
        ip.libs['fiona'] = ModuleVal('fiona', None, {
            'open': nat('fiona.open', self.open)})
        ip.libs['shapely.geometry'] = ModuleVal('shapely.geometry', None, {
            'shape': nat('shape', lambda ip, st, a, k: self.geom.at(
                self.raw.index(settled(ip, st, a[0])))),
            'mapping': nat('mapping', lambda ip, st, a, k: self.shape.at(
                self.geom.index(a[0]))),
            'Point': nat('Point', self.point),
            'Polygon': nat('Polygon', self.polygon),
            'box': nat('box', self.box)})
        v.trust('fiona: reading gives the features of the file in order, '
                'write() adds one feature; shapely shape() and mapping() '
                'convert a geometry to and from GeoJSON')
        self.cls = v.fn('utilities.shapefiles', 'shp_file')

    def layer(self, st):
        return st.new(InstRec(self.cls, {
            'meta': self.meta, 'geom': st.new(self.geom.seq(self.n)),
            'attribute': st.new(self.attr.seq(self.n))}))

    def field(self, i, k):
        if k == 'geometry':
            return Choice(norm(self.missing(zi(i))), None, self.raw.at(i))
        if k == 'properties':
            return self.attr.at(i)
        raise Unsupported('field %r of a feature' % (k,))

    def value(self, ip, i, k):
        if not same_text(k, self.name):
            raise Unsupported('another attribute')
        return ObjV(self.key(zi(i)))

    # -------------------------------------------------------------- files
    def note(self, st, *x):
        a = st.heap[self.opened.id].attrs
        st.heap[self.opened.id] = InstRec(None, {'log': a['log'] + (x,)})

    def log(self, st):
        return st.heap[self.opened.id].attrs['log']

    def open(self, ip, st, a, k):
        mode = a[1] if len(a) > 1 else k.pop('mode', 'r')
        k = dict(k)
        if mode == 'r' and not k:
            self.note(st, 'read', a[0])
            o = self.feature.seq(self.n)
            d = {'meta': self.meta, '__iter__': nat(
                '__iter__', lambda ip, st, a, k: st.new(o)),
                '__len__': nat('__len__', lambda ip, st, a, k: self.n)}
        elif mode == 'w':
            self.note(st, 'write', a[0], tuple(sorted(k.items())))

            def write(ip, st, a, k):
                e = dict(entries(ip, st, a[0]))
                if set(e) != {'geometry', 'properties'}:
                    raise Unsupported('feature written')
                ip.call(ip.getattr(st, self.written, 'append'), [
                    (settled(ip, st, e['geometry']),
                     settled(ip, st, e['properties']))], {}, st)
            d = {'write': nat('write', write)}
        else:
            raise Unsupported('fiona.open')
        f = NObj('collection', d.get)
        d['__enter__'] = nat('__enter__', lambda ip, st, a, k: f)
        d['__exit__'] = nat('__exit__', lambda ip, st, a, k: self.note(
            st, 'close'))
        d['close'] = nat('close', lambda ip, st, a, k: self.note(
            st, 'close'))
        return f

    # ----------------------------------------------------------- geometry
    def point(self, ip, st, a, k):
        return NObj('Point', {'x': a[0], 'y': a[1]}.get)

    def polygon(self, ip, st, a, k):
        p = []
        for q in ip.concrete_items(st, a[0]):
            if isinstance(q, NObj) and q.name == 'Point':
                p.append((q.attr('x'), q.attr('y')))
            else:
                p.append(tuple(ip.concrete_items(st, q)))
        return self.ring(ip, st, p)

    def box(self, ip, st, a, k):
        x0, y0, x1, y1 = [arg(a, k, j, n) for j, n in enumerate(
            ('minx', 'miny', 'maxx', 'maxy'))]
        return self.ring(ip, st, [(x0, y0), (x0, y1), (x1, y1), (x1, y0)])

    def ring(self, ip, st, p):
        """the rectangle of the bounds, corners in any order around it"""
        if len(p) == 5:
            ip.obl(st, 'closed ring', b_and(eq(p[0][0], p[4][0]),
                                            eq(p[0][1], p[4][1])))
            p = p[:4]
        if len(p) != 4:
            raise Unsupported('polygon')
        w, s, e, n = self.bounds
        want = [(w, s), (w, n), (e, n), (e, s)]
        ok = False
        for turn in (want, want[::-1]):
            for j in range(4):
                t = turn[j:] + turn[:j]
                ok = b_or(ok, b_and(*[b_and(eq(x[0], y[0]), eq(x[1], y[1]))
                                      for x, y in zip(p, t)]))
        ip.obl(st, 'the bounding box of the crop polygon', ok)
        o = NObj('box', {'intersection': nat(
            'intersection', lambda ip, st, a, k: self.parts.at(
                self.geom.index(a[0])))}.get)
        o.box = True
        return o

    def part(self, ip, st, i, q):
        if not getattr(q, 'box', False):
            raise Unsupported('intersection')
        return self.parts.at(i)


def parallel(v, st, d, me, keep, geom, rank):
    """geom and attribute hold, in order, the polygons keep() selects"""
    ip = v.ip
    g = st.heap[st.heap[me.id].attrs['geom'].id]
    a = st.heap[st.heap[me.id].attrs['attribute'].id]
    if not (isinstance(g, SeqRec) and isinstance(a, SeqRec)):
        raise Unsupported('lists of the layer')
    v.ensure(st, 'as many polygons as attributes', eq(g.length(),
                                                      a.length()))
    k, j, i = z3.Int('k'), z3.Int('j'), z3.Int('i')
    s = st.copy()
    s.assume(b_and(ge(k, 0), lt(k, g.length()), lt(k, a.length())))
    x, y = geom.index(g.get(k)), d.attr.index(a.get(k))
    v.ensure(s, 'each polygon with its own attributes', eq(x, y))
    v.ensure(s, 'only such polygons', b_and(ge(x, 0), lt(x, d.n), keep(x)))
    t = s.copy()
    t.assume(b_and(ge(j, 0), lt(j, k)))
    v.ensure(t, 'in order, each once', lt(geom.index(g.get(j)), x))
    w = st.copy()
    w.assume(b_and(ge(i, 0), lt(i, d.n), keep(i)))
    segs = [q for q in g.segs if isinstance(q, SymSeg)]
    if len(segs) != 1 or not isinstance(segs[0].info, SetInfo) or \
            len(g.segs) != 1 and not eq(g.length(), segs[0].n) is True:
        raise Unsupported('how the polygons are selected')
    r = segs[0].info.rank(i)
    v.ensure(w, 'every such polygon', b_and(
        ge(r, 0), lt(r, g.length()), eq(geom.index(g.get(r)), i)))


@REG.task('read', [F + 'shp_file.read', F + 'shp_file.__init__'],
          timeout=20.0)
def read(v):
    d = Files(v)
    st, me = v.call1(d.cls)
    v.st = st
    for st, r in v.outcomes(v.fn('utilities.shapefiles', 'shp_file.read'),
                            me, d.path):
        log = d.log(st)
        v.ensure(st, 'the file is read once and closed', len(log) == 2 and
                 log[0][0] == 'read' and same_text(log[0][1], d.path) and
                 log[1] == ('close',))
        m = st.heap[me.id].attrs['meta']
        v.ensure(st, 'description of the file is kept',
                 isinstance(m, Ref) and m.id == d.meta.id)
        parallel(v, st, d, me, lambda i: b_not(norm(d.missing(zi(i)))),
                 d.geom, None)


TYPES = ('Polygon', 'MultiPolygon', 'GeometryCollection')


@REG.task('polygonal', [F + 'polygonal'], timeout=20.0, params=TYPES)
def polygonal(v, kind):
    """a geometry with area: its polygons, without lines and points"""
    ip, st = v.ip, v.st
    n = v.int('pieces', 0)
    area = z3.Function('area_of_piece', I, R)
    i = z3.Int('i')
    v.fact(z3.ForAll([i], area(i) >= 0, patterns=[area(i)]), {area.name()})
    v.trust('shapely: the type of a geometry with area is Polygon, '
            'MultiPolygon or GeometryCollection')
    pieces = Many('piece', lambda i: {'area': area(zi(i))})
    union = []

    def unite(ip, st, a, k):
        r = st.heap[a[0].id] if len(a) == 1 and isinstance(a[0], Ref) \
            else None
        if k or not isinstance(r, SeqRec):
            raise Unsupported('unary_union')
        union.append(r)
        return NObj('union', {}.get)
    ip.libs['shapely.ops'] = ModuleVal('shapely.ops', None, {
        'unary_union': nat('unary_union', unite)})
    g = NObj('geometry', {'geom_type': kind,
                          'geoms': st.new(pieces.seq(n))}.get)
    for st, r in v.outcomes(v.fn('utilities.shapefiles', 'polygonal'), g):
        if kind != 'GeometryCollection':
            v.ensure(st, 'polygons are kept as they are', r is g)
            continue
        if not (isinstance(r, NObj) and r.name == 'union' and len(
                union) == 1):
            raise Unsupported('polygons of a collection')
        q = union[0]
        k, j = z3.Int('k'), z3.Int('j')
        s = st.copy()
        s.assume(b_and(ge(k, 0), lt(k, q.length())))
        x = pieces.index(q.get(k))
        v.ensure(s, 'only pieces with area', b_and(
            ge(x, 0), lt(x, n), gt(area(zi(x)), 0)))
        w = st.copy()
        w.assume(b_and(ge(j, 0), lt(j, n), gt(area(j), 0)))
        if len(q.segs) != 1 or not isinstance(q.segs[0], SymSeg) or \
                not isinstance(q.segs[0].info, SetInfo):
            raise Unsupported('how the pieces are selected')
        t = q.segs[0].info.rank(j)
        v.ensure(w, 'every piece with area', b_and(
            ge(t, 0), lt(t, q.length()), eq(pieces.index(q.get(t)), j)))


@REG.task('crop', [F + 'shp_file.crop'], timeout=20.0)
def crop(v):
    d = Files(v)
    only = Many('polygons of a part')
    v.ip.contracts[F + 'polygonal'] = Contract(
        lambda ip, st, g: only.at(d.parts.index(g)))
    d.bounds = tuple(v.real(x) for x in ('west', 'south', 'east', 'north'))
    me = d.layer(v.st)
    mask = NObj('mask', {'bounds': d.bounds}.get)
    for st, r in v.outcomes(v.fn('utilities.shapefiles', 'shp_file.crop'),
                            me, mask):
        parallel(v, st, d, me, lambda i: gt(d.shared(zi(i)), 0), only,
                 None)


@REG.task('save', [F + 'shp_file.save'], timeout=20.0)
def save(v):
    d = Files(v)
    me = d.layer(v.st)
    for st, r in v.outcomes(v.fn('utilities.shapefiles', 'shp_file.save'),
                            me, d.out):
        log = d.log(st)
        v.ensure(st, 'one file is written and closed', len(log) == 2 and
                 log[0][0] == 'write' and same_text(log[0][1], d.out) and
                 log[1] == ('close',))
        m = dict(log[0][2])
        want = st.heap[d.meta.id].d
        v.ensure(st, 'with the description of the layer', set(m) == set(
            want) and all(m[q] is want[q] or m[q] == want[q] for q in m))
        w = st.heap[d.written.id]
        v.ensure(st, 'one feature per polygon', eq(w.length(), d.n))
        k = z3.Int('k')
        s = st.copy()
        s.assume(b_and(ge(k, 0), lt(k, d.n), lt(k, w.length())))
        x, y = w.get(k)
        v.ensure(s, 'polygons in order', eq(d.shape.index(x), k))
        v.ensure(s, 'each with its own attributes', eq(d.attr.index(y), k))


class Grouping(object):
    """sorted() by a key and itertools.groupby() of n items: a permutation
    that puts equal keys side by side, and its maximal runs of equal keys"""

    def __init__(self, v):
        self.v = v
        ip = v.ip
        ip.sort_by = self.sort
        ip.libs['itertools'] = ModuleVal('itertools', None, {
            'groupby': nat('groupby', self.group)})
        self.sorts, self.groups = [], []
        self.v.trust('sorted() with a key gives a permutation in the order '
                     'of the keys (texts, totally ordered)')
        self.v.trust('itertools.groupby() gives the maximal runs of equal '
                     'keys, in order')

    def keys(self, st, f, elem):
        def K(i):
            x = self.v.ip.call(f, [elem(i)], {}, st)
            if isinstance(x, bool) or z3.is_bool(x):
                return zi(ite(x, 1, 0))
            return zi(code(x))
        return K

    def sort(self, st, it, key, reverse):
        ip = self.v.ip
        n, elem = it
        if key is None or ip.loopvars:
            raise Unsupported('sorted')
        ip.truth(st, reverse)
        K = self.keys(st, key, elem)
        p, q = ip.fresh_fun('sorted', I, I), ip.fresh_fun('place', I, I)
        i, j, k = z3.Ints('so!i so!j so!k')
        trig = {p.decl.name()}
        ok = lambda *t: z3.And(*[z3.And(0 <= x, x < zi(n)) for x in t])
        ip.fact(st, z3.Implies(ok(k), z3.And(
            ok(p(k)), q(p(k)) == k)), [k], [p(k)], trig=trig)
        ip.fact(st, z3.Implies(ok(i), z3.And(
            ok(q(i)), p(q(i)) == i)), [i], [q(i)], trig=trig)
        ip.fact(st, z3.Implies(z3.And(
            ok(i, j, k), i < j, j < k, K(p(i)) == K(p(k))),
            K(p(j)) == K(p(i))), [i, j, k], [p(i), p(j), p(k)], trig=trig)
        self.sorts.append((n, p, q))
        return st.new(SeqRec([SymSeg(n, lambda k: subst_value(
            elem(T), [(T, p(zi(k)))]))]))

    def group(self, ip, st, a, k):
        it = ip.iteration(st, a[0])
        key = arg(a, k, 1, 'key', None)
        if key is None or isinstance(it, list) or ip.loopvars:
            raise Unsupported('groupby')
        n, elem = it
        K = self.keys(st, key, elem)
        m = ip.fresh('groups', I)
        b, g = ip.fresh_fun('first', I, I), ip.fresh_fun('group_of', I, I)
        i, k, h = z3.Ints('gr!i gr!k gr!h')
        trig = {b.decl.name()}
        inn = z3.And(0 <= k, k < zi(n))
        ing = z3.And(0 <= i, i < m)
        ip.fact(st, z3.And(m >= 0, m <= zi(n), b(0) == 0, b(m) == zi(n)),
                trig={m.decl().name()})
        ip.fact(st, z3.Implies(inn, z3.And(
            0 <= g(k), g(k) < m, b(g(k)) <= k, k < b(g(k) + 1),
            K(k) == K(b(g(k))))), [k], [g(k)], trig=trig)
        ip.fact(st, z3.Implies(ing, z3.And(
            0 <= b(i), b(i) < b(i + 1), b(i + 1) <= zi(n), g(b(i)) == i)),
            [i], [b(i)], trig=trig)
        ip.fact(st, z3.Implies(z3.And(ing, i < h, h <= m), b(i + 1) <= b(h)),
                [i, h], [b(i), b(h)], trig=trig)
        ip.fact(st, z3.Implies(z3.And(ing, i + 1 < m), K(b(i)) !=
                               K(b(i + 1))), [i], [b(i)], trig=trig)
        # members of a run
        ip.fact(st, z3.Implies(z3.And(ing, b(i) <= k, k < b(i + 1)),
                               z3.And(g(k) == i, K(k) == K(b(i)))),
                [i, k], [b(i), g(k)], trig=trig)
        self.groups.append((m, b, g))

        def member(j):
            return (ObjV(K(b(zi(j)))), SymIter(sub(b(zi(j) + 1), b(zi(j))),
                                               lambda x: elem(add(b(zi(j)),
                                                                  x))))
        return SymIter(m, member)


T = z3.Int('so!t')


def union(d, ip, st, a):
    def one(n, elem):
        o = NObj('union', {}.get, lambda pairs: one(
            subst(n, pairs), lambda k: subst_value(
                elem(T), pairs + [(T, k)])))
        o.members = (n, elem)
        return o
    n, elem = ip.iteration(st, a[0])
    d.geom.index(elem(T))
    return one(n, elem)


@REG.task('dissolve', [F + 'shp_file.dissolve'], timeout=20.0)
def dissolve(v):
    ip = v.ip
    w = Grouping(v)
    ip.libs['shapely.ops'] = ModuleVal('shapely.ops', None, {
        'unary_union': nat('unary_union', lambda ip, st, a, k: union(
            d, ip, st, a))})
    d = Files(v)
    v.trust('shapely unary_union() of polygons is their union')
    me = d.layer(v.st)
    none = code_of(None)

    def key(i):
        """missing values (and empty text) count as one value, 'None'"""
        c = d.key(zi(i))
        return ite(b_or(eq(c, none), eq(c, code_of(''))), code_of('None'), c)
    for st, r in v.outcomes(v.fn('utilities.shapefiles',
                                 'shp_file.dissolve'), me, d.name):
        g = st.heap[st.heap[me.id].attrs['geom'].id]
        a = st.heap[st.heap[me.id].attrs['attribute'].id]
        v.ensure(st, 'as many polygons as attributes', eq(g.length(),
                                                          a.length()))
        if len(w.sorts) != 1 or len(w.groups) != 1:
            raise Unsupported('how polygons are grouped')
        (_, p, q), (m, b, of) = w.sorts[0], w.groups[0]
        x, y, i, k = z3.Ints('x y i k')
        s = st.copy()
        s.assume(b_and(ge(x, 0), lt(x, g.length()), lt(x, a.length())))
        n, elem = g.get(x).members
        kx = key(d.attr.index(a.get(x)))
        t = s.copy()
        t.assume(b_and(ge(k, 0), lt(k, n)))
        v.ensure(t, 'only polygons with this value are united', eq(
            key(d.geom.index(elem(k))), kx))
        v.ensure(s, 'of one polygon or more', ge(n, 1))
        u = s.copy()
        u.assume(b_and(ge(y, 0), lt(y, x)))
        ky = key(d.attr.index(a.get(y)))
        v.ensure(u, 'one polygon per value', ne(kx, ky))
        z = st.copy()
        z.assume(b_and(ge(i, 0), lt(i, d.n)))
        j = of(q(i))
        c = sub(q(i), b(j))
        n, elem = g.get(j).members
        v.ensure(z, 'every polygon is united with those of its value', b_and(
            ge(j, 0), lt(j, g.length()), ge(c, 0), lt(c, n),
            eq(d.geom.index(elem(c)), i)))
