"""C09: combine() computes each cell from its own factor, slope and aspect."""
from engine.vc import *

REG = Registry('C09')
F = 'shielding/shield_mult.py:'
DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']
# aspect class of a direction: the compass sector it comes from (see C10)
CLASS = {'n': 1, 'ne': 2, 'e': 3, 'se': 4, 's': 5, 'sw': 6, 'w': 7, 'nw': 8}
LOW, UP, CONS = Fraction(327, 100), Fraction(1230, 100), Fraction(9, 10)


def spec(ms, slope, aspect, cls):
    """final factor of one cell; ms and slope may be NaN"""
    m = ms.v if isinstance(ms, FN) else ms
    faces = eq(aspect, cls)
    steep = b_and(ge(slope, UP), faces)
    mid = b_and(gt(slope, LOW), lt(slope, UP), faces)
    s = slope.v if isinstance(slope, FN) else slope
    lin = add(m, mul(sub(Fraction(1), m),
                     truediv(sub(s, LOW), sub(UP, LOW))))
    x = ite(steep, Fraction(1), ite(mid, lin, m))
    r = ite(lt(x, CONS), mul(x, CONS), mul(x, x))
    return mkfn(r, isnan(ms))


@REG.task('combine', [F + 'combine', 'utilities/value_lookup.py:DIRE_ASPECT'],
          params=DIRS)
def combine(v, d):
    f = v.fn('shielding.shield_mult', 'combine')
    rows, cols = v.int('rows', 0), v.int('cols', 0)
    ms, gm = v.arr('ms', (rows, cols), 'f', nan=True)
    slope, gs = v.arr('slope', (rows, cols), 'f', nan=True)
    asp, ga = v.arr('aspect', (rows, cols), 'i')
    st, res = v.call1(f, ms, slope, asp, d)
    v.ensure_cells(st, 'slope and conservatism', res, (rows, cols),
                   lambda i, j: spec(gm(i, j), gs(i, j), ga(i, j),
                                     CLASS[d]))
    v.ensure_cells(st, 'slope is unchanged', slope, (rows, cols), gs)
    v.ensure_cells(st, 'aspect is unchanged', asp, (rows, cols), ga)


@REG.task('lemmas')
def lemmas(v):
    """the factor of a sheltered slope lies between the factor and 1"""
    m = v.real('m', 0, 1)
    s = v.real('s')
    faces = v.bool('faces')
    x = ite(b_and(ge(s, UP), faces), Fraction(1), ite(
        b_and(gt(s, LOW), lt(s, UP), faces), add(m, mul(
            sub(Fraction(1), m), truediv(sub(s, LOW), sub(UP, LOW)))), m))
    v.ensure(v.st, 'never below the factor', ge(x, m))
    v.ensure(v.st, 'never above one', le(x, 1))
