"""C05: convo() and the neighbour tables against the upwind-mean spec."""
from engine.vc import *

REG = Registry('C05')
FUNCS = ['terrain/terrain_mult.py:convo',
         'utilities/value_lookup.py:ALL_NEIGHB',
         'utilities/value_lookup.py:POINT_R',
         'utilities/value_lookup.py:POINT_C']

# unit vector (row, column) pointing upwind: wind named d blows FROM d
UPWIND = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
          'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}


def upwind_room(d, i, j, rows, cols):
    """number of cells straight upwind of (i, j) inside the raster"""
    dr, dc = UPWIND[d]
    r = None
    for x in ((i if dr == -1 else sub(sub(rows, 1), i)) if dr else None,
              (j if dc == -1 else sub(sub(cols, 1), j)) if dc else None):
        if x is not None:
            r = x if r is None else smin(r, x)
    return r


def upwind_mean(d, get, i, j, rows, cols, avg, lag):
    """mean of the cells lag+1 .. lag+n upwind, n = min(avg, room - lag)"""
    dr, dc = UPWIND[d]
    n = smin(avg, sub(upwind_room(d, i, j, rows, cols), lag))
    m = z3.Int('spec!m')
    k = add(add(lag, m), 1)
    cell = get(add(i, mul(dr, k)), add(j, mul(dc, k)))
    total = mksum(n, m, cell)
    return ite(gt(n, 0), truediv(total, ite(gt(n, 0), n, 1)), get(i, j))


@REG.task('convo', FUNCS, params=sorted(UPWIND))
def convo(v, d):
    f = v.fn('terrain.terrain_mult', 'convo')
    rows, cols = v.int('rows', 0), v.int('cols', 0)
    avg, lag = v.int('avg', 0), v.int('lag', 0)
    data, get = v.arr('data', (rows, cols))
    st, res = v.call1(f, d, data, avg, lag)
    v.ensure_cells(st, 'result is the upwind mean', res, (rows, cols),
                   lambda i, j: upwind_mean(d, get, i, j, rows, cols, avg,
                                            lag))
    v.ensure_cells(st, 'input unchanged', data, (rows, cols), get)
