"""C25: the spatial join gives every polygon the attribute of the polygon of
the other layer that covers most of it."""
from engine.vc import *
from engine.values import *
from contracts.polygons import *
from contracts import polygons

REG = Registry('C25')


class Join(object):
    def __init__(self, v):
        self.v, ip = v, v.ip
        st = v.st
        self.n, self.m = v.int('n', 0), v.int('m', 0)
        self.var = SymStr([Atom('var')])
        self.mine = Layer(v, st, self.n, 'mine')
        self.theirs = Layer(v, st, self.m, 'theirs')
        self.meet, self.shared, self.boxes = self.mine.relate(self.theirs)
        self.tab = Table(v, st, self.n, [(self.var, 'o')], 'old')
        self.src = Table(v, st, self.m, [(self.var, 'o')], 'value')
        i, j = z3.Ints('i j')
        v.fact(z3.ForAll([i], self.mine.area(i) > 0,
                         patterns=[self.mine.area(i)]),
               {self.mine.area.name()})
        v.fact(z3.ForAll([i, j], z3.Implies(
            self.meet(i, j), self.boxes(i, j)), patterns=[self.meet(i, j)]),
            {self.meet.name()})
        v.trust('polygons have a positive area; shapely intersects(), '
                'intersection() and area are the geometric ones')
        ip.libs['shapely.strtree'] = ModuleVal('shapely.strtree', None, {
            'STRtree': nat('STRtree', self.tree)})

        def pool(ip, st, a, k):
            o = NObj('executor', {}.get)
            d = {'map': nat('map', self.map),
                 '__enter__': nat('__enter__', lambda ip, st, a, k: o),
                 '__exit__': nat('__exit__', noop)}
            o.attr = d.get
            return o
        ip.libs['concurrent.futures'] = ModuleVal('concurrent.futures', None,
                                                  {'ThreadPoolExecutor':
                                                   nat('pool', pool)})
        self.results = []
        cls = v.fn('utilities.shapefiles', 'shp_file')
        self.me = st.new(InstRec(cls, {
            'meta': Opaque('meta'), 'geom': self.mine.geom,
            'attribute': self.tab.list}))
        self.other = st.new(InstRec(cls, {
            'meta': Opaque('meta'), 'geom': self.theirs.geom,
            'attribute': self.src.list}))

    def tree(self, ip, st, a, k):
        if not (isinstance(a[0], Ref) and a[0].id == self.theirs.geom.id):
            raise Unsupported('tree of other polygons')
        ip.assumed.add('STRtree(polygons).query(p): the numbers, each once '
                       'and in any order, of the polygons whose bounding box '
                       'meets that of p')
        from engine import arrays

        def query(ip, st, a, k):
            if k or len(a) != 1 or not hasattr(a[0], 'of') or \
                    a[0].of[0] is not self.mine:
                raise Unsupported('query')
            i = a[0].of[1]
            c, sel, rank = arrays.index_set(
                ip, st, self.m, lambda j: norm(self.boxes(zi(i), zi(j))),
                'found')
            # the order is arbitrary
            pos = ip.fresh_fun('place', I, I)
            at = ip.fresh_fun('placed', I, I)
            k_ = z3.Int('k')
            ok = z3.And(0 <= k_, k_ < zi(c))
            ip.fact(st, z3.Implies(ok, z3.And(
                0 <= pos(k_), pos(k_) < zi(c), at(pos(k_)) == k_)), [k_],
                [pos(k_)], trig={pos.decl.name()})
            ip.fact(st, z3.Implies(ok, z3.And(
                0 <= at(k_), at(k_) < zi(c), pos(at(k_)) == k_)), [k_],
                [at(k_)], trig={pos.decl.name()})
            info = SetInfo(lambda j: norm(self.boxes(zi(i), zi(j))), 0,
                           self.m, c, sel, rank)
            return st.new(ArrRec((c,), 'i', lambda ix: sel(pos(zi(ix[0]))),
                                 info=('permuted', info)))
        return NObj('STRtree', {'query': nat('query', query)}.get)

    def best(self, i, r):
        """clauses of: r (-1 for None) is right for polygon i"""
        j = z3.Int('j')
        return [('None if nothing intersects', b_implies(
            lt(r, 0), b_implies(b_and(ge(j, 0), lt(j, self.m)),
                                b_not(self.meet(zi(i), j))))),
            ('one of the intersecting polygons', b_implies(ge(r, 0), b_and(
                lt(r, self.m), norm(self.meet(zi(i), zi(r)))))),
            ('the one that covers most', b_implies(b_and(
                ge(r, 0), ge(j, 0), lt(j, self.m),
                norm(self.meet(zi(i), j))), ge(self.shared(zi(i), zi(r)),
                                         self.shared(zi(i), j))))]

    def number(self, x):
        if isinstance(x, Choice):
            return ite(x.cond, self.number(x.a), self.number(x.b))
        if x is None:
            return -1
        if not is_intlike(norm(x)):
            raise Unsupported('result of a task')
        return x

    def map(self, ip, st, a, k):
        """executor.map(f, range(n)): f is verified for an arbitrary index
        and used by what that establishes"""
        v = self.v
        it = ip.iteration(st, a[1])
        if isinstance(it, list) or len(a) != 2 or k:
            raise Unsupported('map of the executor')
        n, elem = it
        i = ip.fresh('task', I)
        if norm(elem(i)) is not i and not ip.valid(st, eq(elem(i), i)):
            raise Unsupported('numbers of the tasks')
        ip.assumed.add('ThreadPoolExecutor.map: the results in order; the '
                       'function is run once per index')
        v.ensure(st, 'every polygon is looked up', eq(n, self.n))
        s = st.copy()
        s.assume(b_and(ge(i, 0), lt(i, n)))
        before = dict(s.heap)
        keep, v.st = v.st, s
        outs = v.outcomes(a[0], i)
        v.st = keep
        for s2, x in outs:
            for q, r in before.items():
                v.ensure(s2, 'the look-up changes nothing shared',
                         s2.heap.get(q) is r)
            if x is not None and isinstance(x, int) and x < 0:
                raise Unsupported('result of a task')
            r = self.number(x)
            for name, c in self.best(i, r):
                v.ensure(s2, name, c)
        got = z3.Function('joined', I, I)
        q = z3.Int('q')
        j = z3.Int('j')
        v.ip.prover.add_fact(z3.ForAll([q], z3.Implies(z3.And(
            0 <= q, q < zi(n)), zb(b_and(ge(got(q), -1), self.best(
                q, got(q))[1][1]))), patterns=[got(q)]), {'joined'})
        for _, c in self.best(q, got(q))[::2]:
            v.ip.prover.add_fact(z3.ForAll([q, j], z3.Implies(z3.And(
                0 <= q, q < zi(n)), zb(c)), patterns=[
                    z3.MultiPattern(got(q), self.meet(q, j))]), {'joined'})
        self.results.append(got)
        return SymIter(n, lambda q: Choice(ge(got(zi(q)), 0), got(zi(q)),
                                           None))


@REG.task('spatial_join', [F + 'shp_file.spatial_join'], timeout=20.0)
def join(v):
    d = Join(v)
    i = z3.Int('i')
    for st, _ in v.outcomes(v.fn('utilities.shapefiles',
                                 'shp_file.spatial_join'), d.me, d.other,
                            d.var):
        for o, lay, t in ((d.me, d.mine, d.tab), (d.other, d.theirs,
                                                  d.src)):
            at = st.heap[o.id].attrs
            v.ensure(st, 'the polygons stay', at['geom'] is lay.geom and
                     st.heap[lay.geom.id] is v.st.heap[lay.geom.id])
            v.ensure(st, 'one attribute table per polygon, in order',
                     at['attribute'] is t.list and
                     st.heap[t.list.id] is v.st.heap[t.list.id])
        v.ensure_cells(st, 'the other layer is unchanged', d.src.cols[0][2],
                       (d.m,), d.src.cols[0][3])
        if len(d.results) != 1:
            raise Unsupported('results')
        got = d.results[0]
        s = st.copy()
        s.assume(b_and(ge(i, 0), lt(i, d.n)))
        r = got(i)
        val = d.src.cols[0][3]
        v.ensure(s, 'the attribute of that polygon', eq(d.tab.now(
            s, d.var, i), ite(ge(r, 0), val(r), code_of(None))))
