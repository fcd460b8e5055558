"""topomult() under contract: wind lines, their multipliers, the output."""
from engine.vc import *
from engine.values import *
from engine import lib
from contracts.gis import *
from contracts.paths import *
from contracts.C11 import nanfn, same, cells

F = 'topographic/topo_mult.py:'
MC = 'topographic/multiplier_calc.py:'


def edge(d, i, j, nr, nc):
    """(i, j) is on an upwind edge of the raster"""
    di, dj = STEP[d]
    out = []
    if di:
        out.append(eq(i, 0 if di > 0 else sub(nr, 1)))
    if dj:
        out.append(eq(j, 0 if dj > 0 else sub(nc, 1)))
    return b_and(ge(i, 0), lt(i, nr), ge(j, 0), lt(j, nc), b_or(*out))


class Lines(object):
    """the lines of one direction as uninterpreted functions of cell
    indices; C15 proves the facts for the lines make_path() returns"""

    def __init__(self, ip, d, nr, nc):
        self.d, self.nr, self.nc = d, nr, nc
        n = mul(nr, nc)
        self.START = E = z3.Function('start_' + d, I, B)
        self.LEN = LN = z3.Function('len_' + d, I, I)
        self.PATH = PT = z3.Function('path_' + d, I, I, I)
        self.OWN = OW = z3.Function('own_' + d, I, I)
        self.POS = PO = z3.Function('pos_' + d, I, I)
        s, k, c = z3.Ints('s!ln k!ln c!ln')
        ip.prover.add_fact(z3.ForAll([s, k], z3.Implies(
            z3.And(E(s), 0 <= k, k < LN(s)), zb(b_and(
                ge(PT(s, k), 0), lt(PT(s, k), n), eq(OW(PT(s, k)), s),
                eq(PO(PT(s, k)), k)))), patterns=[PT(s, k)]),
            {'path_' + d})
        ip.prover.add_fact(z3.ForAll([s], z3.Implies(
            E(s), LN(s) >= 1), patterns=[LN(s)]), {'len_' + d})
        for pat in (OW(c), PO(c)):
            ip.prover.add_fact(z3.ForAll([c], z3.Implies(
                zb(b_and(ge(c, 0), lt(c, n))), z3.And(
                    E(OW(c)), 0 <= PO(c), PO(c) < LN(OW(c)),
                    PT(OW(c), PO(c)) == c)), patterns=[pat]),
                {'own_' + d, 'pos_' + d})


def lem(ip, st, name, goal):
    """an obligation that later obligations may use"""
    ip.obl(st, 'lemma: ' + name, goal, 'lemma', True)
    st.assume(goal)


def grow_(ip, s, a, b, k):
    """a <= b -> a * k <= b * k"""
    lem(ip, s, 'product grows', b_implies(le(a, b), le(mul(a, k), mul(
        b, k))))


def divisions(t):
    """the quotients in a formula"""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() == 'idiv':
            out.append(x)
        stack.extend(x.children())
    return out


def divide(ip, st, t):
    """the formula with quotients worked out where that is possible"""
    for _ in range(4):
        sub_ = []
        for x in divisions(t):
            y = zi(ip.divmod_sym(st, x.arg(0), x.arg(1))[0])
            if not y.eq(x):
                sub_.append((x, y))
        if not sub_:
            break
        t = z3.substitute(t, *sub_)
    return t


class Topo(object):
    def __init__(self, v, kind, nodata, tas, lines_only=False,
                 starts_too=False):
        self.starts_too = starts_too
        self.lines_only = lines_only
        self.v = v
        W = self.W = World(v)
        W.install()
        t = self.t = Tile(v)
        ip = v.ip
        self.folder, self.name = SymStr([Atom('folder')]), SymStr(
            [Atom('tile', '/.')])
        self.path = sstr(self.folder, '/', self.name, '_dem.img')
        z = z3.Function('elevation', I, I, R if kind == 'f' else I)
        nd = None
        if nodata:
            nd = v.real('nodata') if kind == 'f' else v.int('nodata')
        W.dataset('dem', t.nx, t.ny, t.gt, lambda i, j: z(zi(i), zi(j)),
                  kind=kind, nodata=nd, path=self.path)

        def elev(i, j):
            e = z(zi(i), zi(j))
            return mkfn(zr(e), eq(e, nd)) if nodata else zr(e)
        self.elev = elev
        fx, fy = pixel_contract(W, t)
        self.cell = mean_cell_size(v, t, fx, fy)
        nc_contracts(W, t)
        self.tas = tas
        c = b_and(gt(t.x, 143), gt(neg(t.y), 40))
        v.pre(c if tas else b_not(c))
        self.lines = {d: Lines(ip, d, t.ny, t.nx) for d in DIRS}
        self.LM = {d: z3.Function('mult_' + d, I, I, R) for d in DIRS}
        for d in DIRS:
            s, k = z3.Ints('s!lm k!lm')
            v.fact(z3.ForAll([s, k], self.LM[d](s, k) >= 1,
                             patterns=[self.LM[d](s, k)]), {'mult_' + d})
        self.sets = []
        self.cur = None
        self.done, self.known = set(), set()

        def unique(ip, st, args, kw):
            """numpy.unique with a name for "is one of the values" """
            if kw or len(args) != 1:
                raise Unsupported('unique options')
            a = lib.need_array(ip, st, args[0])
            raw = lib.image(ip, st, a)
            name = ip.fresh_fun('taken', I, B)
            from engine.arrays import index_set
            cnt, sel, rank = index_set(ip, st, None,
                                       lambda i: name(zi(i)), 'uniq')
            ip.assumed.add('numpy.unique: the different values, increasing')
            from engine.interp import conv
            self.sets.append((raw, name, sel, rank))
            return lib.mkarr(st, (cnt,), a.kind, lambda ix: conv(
                a.kind, sel(zi(ix[0]))))
        ip.libs['numpy'].attrs['unique'] = nat('numpy.unique', unique)
        self.RC = {d: z3.Function('reduced_' + d, I, I, R) for d in DIRS}
        self.TS = {d: z3.Function('raised_' + d, I, I, R) for d in DIRS}
        for f in list(self.RC.values()) + list(self.TS.values()):
            i, j = z3.Ints('i!rc j!rc')
            v.fact(z3.ForAll([i, j], f(i, j) >= 1, patterns=[f(i, j)]),
                   {f.name()})
        ip.contracts[F + 'remove_conservatism'] = Contract(self.reduce)
        ip.contracts[F + 'tasmania'] = Contract(self.raise_)
        ip.contracts[P + 'make_path'] = Contract(self.make_path)
        ip.contracts[MC + 'multiplier_calc'] = Contract(self.calc)
        self.f = v.fn('topographic.topo_mult', 'topomult')

        def hint(w):
            if self.cur is None or len(w.ixs) != 1 or not self.sets:
                return []
            ln, c = self.lines[self.cur[0]], w.ixs[0]
            if w.tau.decl().name().startswith('sc!'):
                return [ln.POS(c)]
            if w.tau.decl().name().startswith('tau!'):
                return [self.sets[-1][3](ln.OWN(c))]
            return []
        ip.writer_hints.append(hint)

    def starts(self, ip, st, d):
        """the set of line starts is the upwind edge"""
        raw, name = self.sets[-1][:2]
        if ip.mute or (d, id(name)) in self.done or \
                not self.starts_too:
            # (muted: a first pass over a loop, obligations are not kept)
            if (d, id(name)) not in self.known:
                self.link(ip, d, name)
            return
        self.done.add((d, id(name)))
        t, v = self.t, self.v
        k, c = z3.Ints('place!s c!s')
        nr, nc = t.ny, t.nx
        n = mul(nr, nc)
        base = [ge(nr, 1), ge(nc, 1)]
        di, dj = STEP[d]
        sides = []
        if di:
            sides.append((0 if di > 0 else sub(nr, 1), k, nc))
        if dj:
            sides.append((k, 0 if dj > 0 else sub(nc, 1), nr))
        for i, j, m in sides:
            s = v.only(st, *base)
            s.assume(b_and(ge(k, 0), lt(k, m)))
            g = divide(ip, s, raw(add(i, mul(j, nr))))
            grow_(ip, s, j, sub(nc, 1), nr)
            ip.obl(s, 'a line starts at every cell of the upwind edge', g)
        s = v.only(st, *base)
        g = divide(ip, s, raw(c))
        s.assume(g)
        q, r = ip.divmod_sym(s, c, nr)
        for x in divisions(g) + [z3.IntVal(0), zi(sub(nc, 1))]:
            lem(ip, s, 'quotient', b_implies(b_and(
                le(mul(x, nr), c), lt(c, add(mul(x, nr), nr))), eq(q, x)))
            grow_(ip, s, x, sub(nc, 1), nr)
            lem(ip, s, 'sign of a product', b_implies(ge(x, 0), ge(mul(
                x, nr), 0)))
        ip.obl(s, 'lines start in the raster', b_and(ge(c, 0), lt(c, n)))
        ip.obl(s, 'lines start on the upwind edge', edge(d, r, q, nr, nc))
        if (d, id(name)) not in self.known:
            self.link(ip, d, name)

    def link(self, ip, d, name):
        """what the obligations of starts() say"""
        self.known.add((d, id(name)))
        c, ln = z3.Int('c!s'), self.lines[d]
        for p in (name(c), ln.START(c)):
            ip.prover.add_fact(z3.ForAll([c], name(c) == ln.START(c),
                                         patterns=[p]),
                               {name.decl.name(), 'start_' + d})

    def make_path(self, ip, st, nr, nc, n, d):
        if d not in DIRS or not self.sets:
            raise Unsupported('arguments of make_path')
        t = self.t
        if not (is_z3(n) and n.sort() == I):
            n = lib.int_of_real(zr(n))
        if n is None:
            raise Unsupported('start of a line')
        ip.obl(st, 'make_path gets the size of the tile', b_and(
            eq(nr, t.ny), eq(nc, t.nx)))
        self.starts(ip, st, d)
        ln = self.lines[d]
        ip.obl(st, 'a line starts at a cell of the set',
               self.sets[-1][1](n))
        st.assume(ln.START(n))
        self.cur = (d, n)
        return st.new(SeqRec([SymSeg(ln.LEN(n), lambda k: ln.PATH(
            n, zi(k)))]))

    def calc(self, ip, st, line, spacing):
        d, n = self.cur
        ln, t = self.lines[d], self.t
        a = ip.to_array(st, line)
        if a is None or a.ndim != 1:
            raise Unsupported('line')
        ip.obl(st, 'the multiplier of the whole line', eq(
            a.shape[0], ln.LEN(n)))
        k = z3.Int('k!mc')
        s = st.copy()
        s.assume(b_and(ge(k, 0), lt(k, ln.LEN(n))))
        f = self.LM[d]
        res = ArrRec((ln.LEN(n), 1), 'f', lambda ix: f(zi(n), zi(ix[0])))
        if self.lines_only:
            return st.new(res)
        q, r = ip.divmod_sym(s, ln.PATH(n, k), t.ny)
        e = self.elev(r, q)
        ip.obl(s, 'the elevations of the line, no data as 0', same(
            a.get((k,)), ite(isnan(e), Fraction(0), real_of(e))))
        ip.obl(st, 'the spacing of the points', eq(spacing, mul(
            self.cell, lib.fsqrt(2)) if len(d) == 2 else self.cell))
        return st.new(res)

    def multiplier(self, d):
        """the line multiplier of a cell"""
        ln = self.lines[d]

        def f(i, j):
            c = zi(add(i, mul(j, self.t.ny)))
            return self.LM[d](ln.OWN(c), ln.POS(c))
        return f

    def replace(self, st, m, f):
        """the result overwrites the first argument and is the same array
        (proved for both functions in C16)"""
        if not isinstance(m, Ref):
            raise Unsupported('array to overwrite')
        t = self.t
        st.heap[m.id] = ArrRec((t.ny, t.nx), 'f', lambda ix: f(
            zi(ix[0]), zi(ix[1])))
        return m

    def reduce(self, ip, st, m):
        if self.cur is None:
            raise Unsupported('no line yet')
        d = self.cur[0]
        cells(ip, st, self.t, 'line multipliers of the cells', m,
              self.multiplier(d))
        return self.replace(st, m, self.RC[d])

    def raise_(self, ip, st, m, dem):
        d = self.cur[0]
        if self.lines_only:
            return m
        ip.obl(st, 'raised in Tasmania only', b_and(
            gt(self.t.x, 143), gt(neg(self.t.y), 40)))
        cells(ip, st, self.t, 'reduced multipliers', m, self.RC[d])
        cells(ip, st, self.t, 'raised by the elevation', dem, self.elev)
        return self.replace(st, m, self.TS[d])

    def files(self, st, d):
        v, t = self.v, self.t
        ev = self.W.events(st, 'save')
        if ev is None:
            raise Unsupported('the files written')
        v.ensure(st, 'eight files', len(ev) == 8)
        got = [e for e in ev if str_eq(e.args[2], sstr(
            self.folder, '/topographic/', self.name, '_mt_%s.nc' % d))
            is True]
        v.ensure(st, 'one file for the direction', len(got) == 1)
        if len(got) != 1:
            return
        v.ensure(st, 'multiplier name', got[0].args[0] == 'Mt')
        arr = got[0].args[1]
        v.ensure(st, 'clipped to the tile', arr.info is not None and
                 arr.info[0] == 'clip')
        g = (self.TS if self.tas else self.RC)[d]

        def mean(i, j):
            i, j = add(i, t.oy), add(j, t.ox)
            s, n = Fraction(0), Fraction(0)
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    y, x = add(i, a), add(j, b)
                    ins = b_and(ge(y, 0), lt(y, t.ny), ge(x, 0),
                                lt(x, t.nx))
                    s = add(s, ite(ins, g(zi(y), zi(x)), Fraction(0)))
                    n = add(n, ite(ins, Fraction(1), Fraction(0)))
            return truediv(s, n)
        v.ensure_cells(st, 'mean of the 3x3 neighbours in the tile', st.new(
            arr), (t.h, t.w), lambda i, j: mkfn(mean(i, j), isnan(
                self.elev(add(i, t.oy), add(j, t.ox)))))
        a, b = z3.Ints('i!o j!o')
        s = st.copy()
        s.assume(b_and(ge(a, 0), lt(a, t.h), ge(b, 0), lt(b, t.w)))
        x = arr.get((a, b))
        v.ensure(s, 'no value below 1', b_or(isnan(x), ge(real_of(x), 1)))
