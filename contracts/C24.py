"""C24: land-use codes."""
from engine.vc import *
from engine.values import *
from engine.lib import arg
from contracts.polygons import *

REG = Registry('C24')
# the contracts of called functions proved with it
USES = {'C25': None, 'C29': None}
P = 'pre_process.py:'
SETTLEMENT = {'Major CBD': 1, 'City': 2, 'Urban': 3, 'Large Town': 4,
              'Small Town': 5}
USE = {'Parkland': 1, 'Primary Production': 2, 'Education': 4,
       'Residential': 5, 'Water': 6, 'Other': 7, 'Commercial': 8,
       'Industrial': 9, 'Hospital/Medical': 10, 'Transport': 11}


VALID = z3.Function('is_valid', I, B)
REPAIRED = z3.Function('buffer_0', I, I)
AREA = z3.Function('area', I, R)


def lookup(table, term):
    r = 0
    for k, x in table.items():
        r = ite(eq(term, code_of(k)), x, r)
    return r


class Layers(object):
    """shp_file by contract; `steps` records what is done to the layers"""

    def __init__(self, v):
        self.v, ip = v, v.ip
        self.files = {k: sstr(k + ': ', SymStr([Atom(k)])) for k in (
            'settlements', 'landuse', 'mask', 'output')}
        # three different names of attributes
        self.cat = sstr('S', SymStr([Atom('settlement_name')]))
        self.use = sstr('U', SymStr([Atom('use_name')]))
        self.tables = []
        self.log = v.st.new(InstRec(None, {'steps': ()}))
        def of(o, st):
            return st.heap[o.id].attrs

        def put(ip, st, a, k):
            d = of(a[0], st)
            i = norm(a[1])
            if d['what'] != 'settlements' or not is_scalar(i) or \
                    not isinstance(a[2], NObj) or a[2].attr(
                        'shape') is None:
                raise Unsupported('polygons are replaced')
            ip.obl(st, 'polygons of the layer are replaced', b_and(
                ge(i, 0), lt(i, d['number'])))
            ip.setitem(st, d['shapes'], i, a[2].attr('shape'))

        def it(ip, st, a, k):
            d = of(a[0], st)
            return SymIter(d['number'], lambda i: ip.call(
                d['polygon'], [i], {}, st))
        self.polys = NativeClass('polygons', extra={
            '__setitem__': nat('[]=', put), '__iter__': nat('iter', it),
            '__getitem__': nat('[]', lambda ip, st, a, k: ip.getitem(
                st, it(ip, st, a, k), a[1])),
            '__len__': nat('len', lambda ip, st, a, k: of(a[0], st)[
                'number'])})
        c = ip.contracts
        for name in ('__init__', 'read', 'dissolve', 'crop', 'spatial_join',
                     'save'):
            c[F + 'shp_file.' + name] = Contract(getattr(
                self, name.strip('_')))

    def step(self, st, *x):
        r = st.heap[self.log.id].attrs['steps']
        st.heap[self.log.id] = InstRec(None, {'steps': r + (x,)})

    def steps(self, st):
        return st.heap[self.log.id].attrs['steps']

    def fill(self, st, o, what):
        """arbitrary contents"""
        n = self.v.ip.fresh('number', I)
        st.assume(ge(n, 0))
        tag = '%s%d' % (what, len(self.tables))
        cols = [(self.cat, 'o')] if what == 'settlements' else [
            (self.cat, 'o'), (self.use, 'o'), ('CAT', 'i')]
        t = Table(self.v, st, n, cols, tag)
        self.tables.append(t)
        # outlines are numbers; VALID and REPAIRED are their properties
        shape = z3.Function(tag + '_shape', I, I)
        shapes = st.new(ArrRec((n,), 'i', lambda ix: shape(zi(ix[0]))))
        me = self

        def outline(c):
            def buffer(ip, st, a, k):
                if len(a) + len(k) != 1 or norm(arg(
                        a, k, 0, 'distance')) != 0:
                    raise Unsupported('buffer')
                return outline(REPAIRED(zi(c)))
            return NObj('polygon', {
                'shape': c, 'is_valid': norm(VALID(zi(c))),
                'area': AREA(zi(c)),
                'buffer': nat('buffer', buffer)}.get)

        def poly(ip, st, a, k):
            return outline(norm(ip.av(st, shapes).get((a[0],))))

        def props(ip, st, a, k):
            for q, x in entries(ip, st, a[0]):
                me.step(st, 'schema', o.id, q, x)
        p = NObj('properties', {'update': nat('update', props)}.get)
        s = NObj('schema', {'__getitem__': nat(
            '[]', lambda ip, st, a, k: p if a[0] == 'properties'
            else Opaque('schema'))}.get)
        m = NObj('meta', {'__getitem__': nat(
            '[]', lambda ip, st, a, k: s if a[0] == 'schema'
            else Opaque('meta'))}.get)
        st.heap[o.id] = InstRec(st.heap[o.id].cls, {
            'meta': m, 'attribute': t.list,
            'geom': st.new(InstRec(self.polys, {
                'number': n, 'polygon': nat('polygon', poly),
                'what': what, 'shapes': shapes, 'shape': shape}))})

    def table(self, st, o):
        a = st.heap[o.id].attrs.get('attribute')
        for t in self.tables:
            if isinstance(a, Ref) and a.id == t.list.id and \
                    st.heap[a.id] is self.v.st.heap.get(
                        a.id, st.heap[a.id]):
                return t
        raise Unsupported('attribute tables of the layer')

    def sound(self, st, o):
        """outlines that are not valid are repaired, where that works"""
        d = st.heap[st.heap[o.id].attrs['geom'].id].attrs
        i = z3.Int('i')
        s = st.copy()
        s.assume(b_and(ge(i, 0), lt(i, d['number'])))
        c = d['shape'](i)
        want = c
        if self.kind(o, st) == 'settlements':
            want = ite(b_or(norm(VALID(c)), b_not(norm(VALID(REPAIRED(
                c))))), c, REPAIRED(c))
        self.v.ensure(s, 'outlines are kept, repaired where they are not '
                      'valid', eq(self.v.ip.av(st, d['shapes']).get((i,)),
                                  want))

    def kind(self, o, st):
        for s in self.steps(st):
            if s[0] == 'read' and s[1] == o.id:
                return s[2]
        raise Unsupported('a layer that is not read')

    # ---------------------------------------------------------- contracts
    def init(self, ip, st, o):
        st.heap[o.id] = InstRec(st.heap[o.id].cls, {
            'meta': None, 'geom': st.new(SeqRec([])),
            'attribute': st.new(SeqRec([]))})

    def read(self, ip, st, o, fname):
        w = [k for k, x in self.files.items() if same_text(x, fname)]
        if not w:
            raise Unsupported('another file')
        self.step(st, 'read', o.id, w[0])
        self.fill(st, o, w[0])
        if w[0] == 'mask':
            g = st.heap[o.id].attrs['geom']
            st.assume(gt(st.heap[g.id].attrs['number'], 0))

    def dissolve(self, ip, st, o, name):
        if not same_text(name, self.cat):
            raise Unsupported('dissolved by another attribute')
        t = self.table(st, o)
        i = z3.Int('i')
        s = st.copy()
        s.assume(b_and(ge(i, 0), lt(i, t.n)))
        old = t.cols[0][3](i)
        self.v.ensure(s, 'the five settlement types are kept and others '
                      'removed before the settlements are dissolved', eq(
                          t.now(s, self.cat, i), ite(b_or(*[
                              eq(old, code_of(k)) for k in SETTLEMENT]),
                              old, code_of(None))))
        self.step(st, 'dissolve', o.id)
        self.fill(st, o, self.kind(o, st))

    def crop(self, ip, st, o, polygon):
        if not any(x[0] == 'crop' and x[1] == o.id
                   for x in self.steps(st)):
            self.sound(st, o)
        self.step(st, 'crop', o.id)
        self.fill(st, o, self.kind(o, st))

    def spatial_join(self, ip, st, o, other, var):
        for x in (o, other):
            if not any(y[0] == 'crop' and y[1] == x.id
                       for y in self.steps(st)):
                self.sound(st, x)
        self.step(st, 'join', o.id, other.id, var)
        t = self.table(st, o)
        c = t.col(var)
        if c is None:
            raise Unsupported('joined attribute')
        f = ip.fresh_fun('joined', I, I)
        st.heap[c[2].id] = ArrRec((t.n,), 'i', lambda ix: f(zi(ix[0])))
        self.step(st, 'result', (t, f))

    def save(self, ip, st, o, fname):
        t = self.table(st, o)
        a = ip.av(st, t.col('CAT')[2]) if t.col('CAT') else None
        self.step(st, 'save', o.id, fname, t, [
            ip.av(st, c[2]) for c in t.cols])


@REG.task('codes', [P + 'pre_process'], params=['mask', 'no mask'],
          timeout=20.0)
def codes(v, how):
    d = Layers(v)
    f = d.files
    outs = v.outcomes(v.fn('pre_process', 'pre_process'), f['settlements'],
                      d.cat, f['landuse'], d.use, f['mask'] if how == 'mask'
                      else 'None', f['output'])
    i = z3.Int('i')
    for st, _ in outs:
        steps = d.steps(st)
        by = {}
        for s in steps:
            by.setdefault(s[0], []).append(s)
        kind = {s[1]: s[2] for s in by.get('read', ())}
        name = lambda o: kind.get(o)
        v.ensure(st, 'the land use is saved once, last', len(by.get(
            'save', ())) == 1 and steps[-1][0] == 'save' and
            name(steps[-1][1]) == 'landuse')
        if len(by.get('save', ())) != 1 or len(by.get('join', ())) != 1:
            raise Unsupported('steps %r' % ([s[0] for s in steps],))
        _, o, fname, t, cols = by['save'][0]
        v.ensure(st, 'under the given name', same_text(fname, f['output']))
        j = by['join'][0]
        v.ensure(st, 'land use is joined with the settlements', name(
            j[1]) == 'landuse' and name(j[2]) == 'settlements' and
            same_text(j[3], d.cat))
        v.ensure(st, 'the polygons saved are the joined ones', j[1] == o
                 and by['result'][0][1][0] is t)
        k = [s[0] for s in steps]
        w = [q for q, s in enumerate(steps) if s[0] == 'dissolve' and
             name(s[1]) == 'settlements']
        v.ensure(st, 'the settlements are dissolved before', len(w) == 1 and
                 w[0] < k.index('join'))
        v.ensure(st, 'no polygons are dropped afterwards', all(
            q < k.index('join') for q, x in enumerate(k)
            if x in ('crop', 'read', 'dissolve')))
        v.ensure(st, 'both layers are cropped alike', sorted(
            name(s[1]) for s in by.get('crop', ())) == (
                ['landuse', 'settlements'] if how == 'mask' else []))
        fields = [(q, x) for _, oo, q, x in by.get('schema', ())
                  if oo == o]
        v.ensure(st, 'CAT is an integer attribute of the file', any(
            same_text(q, 'CAT') and isinstance(x, str) and
            x.split(':')[0] in ('int', 'int32', 'int64')
            for q, x in fields))
        v.ensure(st, 'the settlement is a text attribute of the file', any(
            same_text(q, d.cat) and isinstance(x, str) and
            x.split(':')[0] == 'str' for q, x in fields))
        s = st.copy()
        s.assume(b_and(ge(i, 0), lt(i, t.n)))
        joined = by['result'][0][1][1]
        use = t.cols[1][3]
        v.ensure(s, 'the joined settlement is saved', eq(
            cols[0].get((i,)), joined(i)))
        v.ensure(s, 'the land use is unchanged', eq(cols[1].get((i,)),
                                                    use(i)))
        v.ensure(s, 'code of the polygon', eq(cols[2].get((i,)), add(mul(
            100, lookup(SETTLEMENT, joined(i))), lookup(USE, use(i)))))


@REG.task('distinct codes')
def distinct(v):
    a, b, c, d = [v.int(x, 0) for x in 'abcd']
    for x, t in ((a, SETTLEMENT), (c, SETTLEMENT), (b, USE), (d, USE)):
        v.pre(b_or(eq(x, 0), *[eq(x, k) for k in t.values()]))
    v.pre(eq(add(mul(100, a), b), add(mul(100, c), d)))
    v.ensure(v.st, 'equal codes, equal pairs', b_and(eq(a, c), eq(b, d)))
