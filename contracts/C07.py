"""C07: terrain_class2ms_orig() writes the initial shielding factors of a
land-cover tile, with the georeference and size of that tile."""
from engine.vc import *
from engine.values import *
from contracts.gis import *
from contracts.models import table

REG = Registry('C07')
F = 'shielding/shield_mult.py:'


@REG.task('terrain_class2ms_orig', [F + 'terrain_class2ms_orig'],
          params=['int', 'float', 'int, no no-data value',
                  'float, no no-data value'])
def orig(v, mode):
    kind = mode[0]
    W = World(v)
    W.install()
    t = Tile(v)
    n = v.int('n', 0)
    S = I if kind == 'i' else R
    cls = z3.Function('class', I, I, S)
    nd = None if ',' in mode else v.int('nodata') if kind == 'i' else \
        v.real('nodata')
    cat = z3.Function('category', I, S)
    shl = z3.Function('shielding_per_cent', I, R)
    a, b = z3.Ints('a b')
    v.fact(z3.ForAll([a, b], z3.Implies(z3.And(
        0 <= a, a < b, b < n), cat(a) != cat(b)),
        patterns=[z3.MultiPattern(cat(a), cat(b))]), {'category'})
    # the marker of no-data cells is neither a category nor a class
    v.fact(z3.ForAll([a, b], cls(a, b) != -99, patterns=[cls(a, b)]),
           {'class'})
    v.fact(z3.ForAll([a], cat(a) != -99, patterns=[cat(a)]), {'category'})
    if nd is not None:
        v.trust('no land-cover class is -99 (precondition)')
    tab = table(n, {'CATEGORY': lambda k: cat(zi(k)),
                    'SHIELDING': lambda k: shl(zi(k))})
    v.ip.contracts[F + 'get_shielding_table'] = Contract(
        lambda ip, st: tab)
    folder = SymStr([Atom('folder')])
    name = SymStr([Atom('tile', '/')])
    path = sstr(folder, '/', name, '.img')
    W.dataset('landcover', t.nx, t.ny, t.gt,
              lambda i, j: cls(zi(i), zi(j)), kind=kind, nodata=nd,
              path=path)
    f = v.fn('shielding.shield_mult', 'terrain_class2ms_orig')
    st, res = v.call1(f, path)
    out = sstr(folder, '/shielding/', name, '_ms.img')
    v.ensure(st, 'the name of the file', str_eq(res, out))
    ev = W.events(st, 'create', 'write', 'geotransform', 'projection',
                  'nodata', 'remove')
    if ev is None:
        raise Unsupported('effects')
    by = {}
    for e in ev:
        by.setdefault(e.name, []).append(e.args)
    v.ensure(st, 'one raster is created', len(by.get('create', ())) == 1)
    c = by['create'][0]
    v.ensure(st, 'it is that file', str_eq(c[1], out))
    v.ensure(st, 'it has the size of the tile', b_and(
        eq(c[2], t.nx), eq(c[3], t.ny), eq(c[4], 1)))
    v.ensure(st, 'its cells are floating point', isinstance(
        c[5], Opaque) and c[5].name in ('GDT_Float32', 'GDT_Float64'))
    for w, want in (('geotransform', (t.x, t.pw, 0, t.y, 0, neg(t.ph))),
                    ('projection', 'proj')):
        g = by.get(w, ())
        v.ensure(st, 'one ' + w, len(g) == 1)
        got = g[0][1]
        v.ensure(st, 'the %s of the tile' % w, b_and(*[
            eq(x, y) for x, y in zip(v.ip.concrete_items(st, got), want)])
            if w == 'geotransform' else got == want)
    g = by.get('write', ())
    v.ensure(st, 'written once', len(g) == 1 and len(g[0]) == 2)
    arr = g[0][1]
    i, j, k = z3.Int('cell!0'), z3.Int('cell!1'), z3.Int('k')
    v.ensure(st, 'the size of the factors', b_and(
        eq(arr.shape[0], t.ny), eq(arr.shape[1], t.nx)))
    s = st.copy()
    for x, y in ((i, t.ny), (j, t.nx), (k, n)):
        s.assume(z3.And(x >= 0, x < y))
    r = arr.get((i, j))
    if nd is not None:
        s1 = s.copy()
        s1.assume(eq(cls(i, j), nd))
        v.ensure(s1, 'a no-data cell is NaN', isnan(r))
        s.assume(ne(cls(i, j), nd))
    s2 = s.copy()
    s2.assume(eq(cls(i, j), cat(k)))
    v.ensure(s2, 'a cell of category k has the percentage of row k',
             same(r, truediv(shl(k), 100)))
    s3 = s.copy()
    s3.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n),
                                        cat(a) != cls(i, j)),
                        patterns=[cat(a)]))
    v.ensure(s3, 'a cell of no category is 1', same(r, Fraction(1)))
