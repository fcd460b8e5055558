"""C16: topomult() writes, for each direction, the multipliers of the wind
lines, reduced, raised in Tasmania, smoothed and clipped to the tile."""
from engine.vc import *
from engine.values import *
from contracts.gis import *
from contracts.lines import *

REG = Registry('C16')
# the contracts of called functions proved with it
USES = {'C17': ['clip_array', 'get_lat_lon']}
F = 'topographic/topo_mult.py:'
MC = 'topographic/multiplier_calc.py:'


@REG.task('remove_conservatism', [F + 'remove_conservatism'])
def conservatism(v):
    f = v.fn('topographic.topo_mult', 'remove_conservatism')
    ny, nx = v.int('rows', 0), v.int('cols', 0)
    m, g = v.arr('m', (ny, nx))
    st, res = v.call1(f, m)
    v.ensure_cells(st, 'reduced multiplier', res, (ny, nx),
                   lambda i, j: reduced(g(i, j)))
    x = v.real('x', 1)
    v.ensure(v.st, 'not below 1', ge(reduced(x), 1))


def reduced(x):
    return ite(ge(x, Fraction(14, 10)), mul(Fraction(9, 10), x), ite(
        gt(x, 1), mul(x, sub(Fraction(5, 4), mul(Fraction(1, 4), x))), x))


def raised(m, e):
    """e may be NaN: no data"""
    z = real_of(e)
    return ite(b_and(b_not(isnan(e)), gt(z, 500)),
               mul(m, add(1, mul(Fraction(15, 100000), z))), m)


@REG.task('tasmania', [F + 'tasmania'])
def tas(v):
    f = v.fn('topographic.topo_mult', 'tasmania')
    ny, nx = v.int('rows', 0), v.int('cols', 0)
    m, g = v.arr('m', (ny, nx))
    e, ge_ = v.arr('dem', (ny, nx), nan=True)
    st, res = v.call1(f, m, e)
    v.ensure_cells(st, 'raised above 500 m', res, (ny, nx),
                   lambda i, j: raised(g(i, j), ge_(i, j)))
    v.ensure_cells(st, 'the elevation is unchanged', e, (ny, nx), ge_)


# elevations, no-data value, Tasmania
CASES = ['float elevations with no-data in Tasmania',
         'integer elevations with no-data elsewhere',
         'float elevations elsewhere', 'integer elevations in Tasmania']


@REG.task('topomult', [F + 'topomult'], timeout=20.0, params=CASES)
def output(v, case):
    L = Topo(v, 'f' if 'float' in case else 'i', 'no-data' in case,
             'in Tasmania' in case)
    for st, res in v.outcomes(L.f, L.path, v.list(list(L.t.extent))):
        for d in DIRS:
            L.files(st, d)
