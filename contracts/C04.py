"""C04: terrain_class2mz_orig maps every category of the table by the
roughness formula and everything else to 0."""
from engine.vc import *
from contracts.models import table

REG = Registry('C04')
FUNCS = ['terrain/terrain_mult.py:terrain_class2mz_orig']


def mz(z0):
    return add(mul(Fraction(-2827, 10000), rfun('log', add(mul(
        Fraction(4554, 10000), rfun('log', z0)), Fraction(3734, 1000)))),
        Fraction(10762, 10000))


def body(v, kind):
    f = v.fn('terrain.terrain_mult', 'terrain_class2mz_orig')
    rows, cols = v.int('rows', 0), v.int('cols', 0)
    n = v.int('n', 0)
    data, get = v.arr('data', (rows, cols), kind)
    cat = z3.Function('category', I, I if kind == 'i' else R)
    z0 = z3.Function('roughness', I, R)
    a, b = z3.Ints('a b')
    v.fact(z3.ForAll([a, b], z3.Implies(z3.And(
        0 <= a, a < b, b < n), cat(a) != cat(b)),
        patterns=[z3.MultiPattern(cat(a), cat(b))]), {'category'})
    v.fact(z3.ForAll([a], z3.And(z0(a) > 0, zr(add(mul(
        Fraction(4554, 10000), rfun('log', z0(a))),
        Fraction(3734, 1000))) > 0), patterns=[z0(a)]), {'roughness'})
    t = table(n, {'CATEGORY': lambda k: cat(zi(k)),
                  'ROUGHNESS_LENGTH_m': lambda k: z0(zi(k))})
    v.trust('the terrain table has one row per category and roughness '
            'lengths above 0.275 mm (precondition)')
    st, res = v.call1(f, data, t)
    i, j, k = z3.Int('cell!0'), z3.Int('cell!1'), z3.Int('k')
    s = st.copy()
    for x, y in ((i, rows), (j, cols), (k, n)):
        s.assume(z3.And(x >= 0, x < y))
    r = v.cell(s, res, i, j)
    v.ensure(st, 'the shape is kept', b_and(
        eq(v.ip.av(st, res).shape[0], rows),
        eq(v.ip.av(st, res).shape[1], cols)))
    v.ensure(st, 'the result is floating point',
             v.ip.av(st, res).kind == 'f')
    s2 = s.copy()
    s2.assume(eq(get(i, j), cat(k)))
    v.ensure(s2, 'a cell of category k has the multiplier of row k',
             same(r, mz(z0(k))))
    s3 = st.copy()
    for x, y in ((i, rows), (j, cols)):
        s3.assume(z3.And(x >= 0, x < y))
    s3.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n),
                                        cat(a) != get(i, j)),
                        patterns=[cat(a)]))
    v.ensure(s3, 'a cell of no category is 0', same(r, Fraction(0)))
    v.ensure_cells(st, 'the raster is unchanged', data, (rows, cols), get)


@REG.task('terrain_class2mz_orig', FUNCS, params=['int', 'float'])
def orig(v, p):
    body(v, p[0])
