"""C06: terrain() writes, for each direction, the upwind average of the
initial multipliers of a working tile, clipped to the tile."""
from engine.vc import *
from engine.values import *
from contracts.gis import *
from contracts.C05 import upwind_mean, UPWIND

REG = Registry('C06')
# the contracts of called functions proved with it
USES = {'C05': None, 'C17': ['clip_array', 'get_lat_lon']}
F = 'terrain/terrain_mult.py:'
DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']


@REG.task('terrain', [F + 'terrain'], timeout=20.0, params=DIRS)
def tile(v, d):
    W = World(v)
    W.install()
    t = Tile(v)
    ip = v.ip
    folder, name = SymStr([Atom('folder')]), SymStr([Atom('tile', '/.')])
    path = sstr(folder, '/', name, '.img')
    cls = z3.Function('class', I, I, I)
    W.dataset('landcover', t.nx, t.ny, t.gt,
              lambda i, j: cls(zi(i), zi(j)), kind='i', path=path)
    fx, fy = pixel_contract(W, t)
    nc_contracts(W, t)
    table = Opaque('terrain table')
    ip.contracts[F + 'get_terrain_table'] = Contract(lambda ip, st: table)
    # multipliers of the table are positive, 0 marks no class (C04)
    mz = z3.Function('mz', I, I, R)
    a, b = z3.Ints('a!mz b!mz')
    v.fact(z3.ForAll([a, b], mz(a, b) >= 0, patterns=[mz(a, b)]), {'mz'})
    v.trust('the multipliers of the terrain table are positive '
            '(precondition: roughness lengths below 1e12 m)')

    def classes(ip, st, data, tab):
        arr = ip.to_array(st, data)
        i, j = z3.Ints('i!tc j!tc')
        s = st.copy()
        s.assume(b_and(ge(i, 0), lt(i, t.ny), ge(j, 0), lt(j, t.nx)))
        ip.obl(st, 'classification of the whole working tile', b_and(
            eq(arr.shape[0], t.ny), eq(arr.shape[1], t.nx)))
        ip.obl(s, 'classification of the land-cover classes',
               eq(arr.get((i, j)), cls(i, j)))
        ip.obl(st, 'classification by the terrain table', tab is table)
        return st.new(ArrRec((t.ny, t.nx), 'f', lambda ix: mz(
            zi(ix[0]), zi(ix[1]))))
    ip.contracts[F + 'terrain_class2mz_orig'] = Contract(classes)

    def convo(ip, st, one, data, avg, lag):
        arr = ip.to_array(st, data)
        snap = W.snap(st, data)
        ip.obl(st, 'averaging of the whole working tile', b_and(
            eq(arr.shape[0], t.ny), eq(arr.shape[1], t.nx)))
        ip.obl(st, 'widths are not negative', b_and(ge(avg, 0), ge(lag, 0)))
        i, j = z3.Ints('i!cv j!cv')
        s = st.copy()
        s.assume(b_and(ge(i, 0), lt(i, t.ny), ge(j, 0), lt(j, t.nx)))
        ip.obl(s, 'no cell to average is NaN',
               b_not(isnan(snap.get((i, j)))))
        return st.new(ArrRec((t.ny, t.nx), 'f', lambda ix: upwind_mean(
            one, lambda i, j: real_of(snap.get((i, j))), ix[0], ix[1], t.ny,
            t.nx, avg, lag)))
    ip.contracts[F + 'convo'] = Contract(convo)
    f = v.fn('terrain.terrain_mult', 'terrain')
    p, q = z3.Ints('p!g q!g')
    gw = mean_cell_size(v, t, fx, fy)
    if len(d) == 1:
        avg, lag = [round_int(truediv(x, gw)) for x in (500, 200)]
    else:
        avg, lag = [trunc_int(truediv(x, mul(gw, Fraction(1414, 1000))))
                    for x in (500, 200)]
    full = lambda i, j: ite(eq(mz(zi(i), zi(j)), 0), Fraction(1),
                            mz(zi(i), zi(j)))
    for st, res in v.outcomes(f, path, v.list(list(t.extent))):
        ev = W.events(st, 'save')
        if ev is None:
            raise Unsupported('the files written')
        if not ev:
            s = st.copy()
            s.assume(b_and(ge(p, 0), lt(p, t.ny), ge(q, 0), lt(q, t.nx)))
            v.ensure(s, 'without files no cell is classified',
                     eq(mz(p, q), 0))
            continue
        v.ensure(st, 'with files some cell is classified', some(
            v, st, mz, t))
        names = ['_mz_%s.nc' % x for x in DIRS]
        got = [e for e in ev if str_eq(e.args[2], sstr(
            folder, '/terrain/', name, '_mz_%s.nc' % d)) is True]
        v.ensure(st, 'eight files', len(ev) == 8)
        v.ensure(st, 'one file for the direction', len(got) == 1)
        if len(got) != 1:
            continue
        v.ensure(st, 'multiplier name', got[0].args[0] == 'Mz')
        arr = got[0].args[1]
        v.ensure(st, 'clipped to the tile', arr.info is not None and
                 arr.info[0] == 'clip')
        v.ensure_cells(st, 'upwind average', st.new(arr), (t.h, t.w),
                       lambda i, j: mkfn(upwind_mean(
                           d, full, add(i, t.oy), add(j, t.ox), t.ny, t.nx,
                           avg, lag), eq(mz(zi(add(i, t.oy)),
                                            zi(add(j, t.ox))), 0)))


def some(v, st, mz, t):
    """a witness of a classified cell"""
    i, j = z3.Ints('i!s j!s')
    return z3.Exists([i, j], z3.And(0 <= i, i < t.ny, 0 <= j, j < t.nx,
                                    mz(i, j) != 0))
