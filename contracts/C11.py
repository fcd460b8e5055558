"""C11: convo_combine() writes, for each direction, the windowed average of
the initial factors, combined with slope and aspect, clipped to the tile."""
from engine.vc import *
from engine.values import *
from contracts.gis import *

REG = Registry('C11')
# the contracts of called functions proved with it
USES = {'C08': None, 'C09': None, 'C17': ['clip_array', 'get_lat_lon']}
F = 'shielding/shield_mult.py:'
DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']


def cells(ip, st, t, what, got, want):
    """obligation: got is the (ny, nx) array of cells want(i, j)"""
    a = ip.to_array(st, got)
    if a is None or a.ndim != 2:
        raise Unsupported(what)
    ip.obl(st, what + ': size', b_and(eq(a.shape[0], t.ny),
                                      eq(a.shape[1], t.nx)))
    i, j = z3.Ints('i!cell j!cell')
    s = st.copy()
    s.assume(b_and(ge(i, 0), lt(i, t.ny), ge(j, 0), lt(j, t.nx)))
    ip.obl(s, what, same(a.get((i, j)), want(i, j)))


def same(a, b):
    return b_and(eq(isnan(a), isnan(b)), b_or(isnan(b), eq(
        real_of(a), real_of(b))))


def nanfn(name):
    f, m = z3.Function(name, I, I, R), z3.Function(name + '?', I, I, B)
    return lambda i, j: mkfn(f(zi(i), zi(j)), m(zi(i), zi(j)))


@REG.task('convo_combine', [F + 'convo_combine'], timeout=20.0,
          params=[True, False])
def output(v, averaging):
    W = World(v)
    W.install()
    t = Tile(v)
    ip = v.ip
    folder, name = SymStr([Atom('folder')]), SymStr([Atom('tile', '/.')])
    path = sstr(folder, '/', name, '_ms.img')
    ms = nanfn('factor')
    W.dataset('ms_orig', t.nx, t.ny, t.gt, ms, path=path)
    fx, fy = pixel_contract(W, t)
    nc_contracts(W, t)
    size = trunc_int(truediv(100, mean_cell_size(v, t, fx, fy)))
    v.pre(ge(size, 1) if averaging else lt(size, 1))
    avg = {d: nanfn('average_' + d) for d in DIRS}
    comb = {d: nanfn('combined_' + d) for d in DIRS}
    slope, gs = v.arr('slope', (t.ny, t.nx), 'f', nan=True)
    asp, ga = v.arr('aspect', (t.ny, t.nx), 'i')

    def window(d):
        def c(ip, st, k):
            ip.obl(st, 'the window has the cells of 100 m', eq(k, size))
            ip.obl(st, 'the window has a cell', ge(k, 1))
            n = add(mul(2, k), 1)
            w = z3.Function('window_' + d, I, I, R)
            return st.new(ArrRec((n, n), 'f', lambda ix: w(
                *[zi(x) for x in ix]), info=('window', d)))
        return Contract(c)
    for d in DIRS:
        ip.contracts[F + 'kern_' + d] = window(d)

    def blur(ip, st, im, k, mode):
        ip.obl(st, 'the default edge handling', mode == 'constant')
        cells(ip, st, t, 'the initial factors are averaged', im, ms)
        a = ip.to_array(st, k)
        if a.info is None or a.info[0] != 'window':
            raise Unsupported('the window')
        g = avg[a.info[1]]
        return st.new(ArrRec((t.ny, t.nx), 'f', lambda ix: g(*ix)))
    ip.contracts[F + 'blur_image'] = Contract(blur)

    def combine(ip, st, m, sl, ap, d):
        if d not in DIRS or not isinstance(m, Ref):
            raise Unsupported('arguments of combine')
        cells(ip, st, t, 'the factors of the direction', m,
              avg[d] if averaging else ms)
        cells(ip, st, t, 'the slope', sl, lambda i, j: gs(i, j))
        cells(ip, st, t, 'the aspect', ap, lambda i, j: ga(i, j))
        g = comb[d]
        # the result overwrites the first argument and is the same array
        # (C09: no other array changes)
        st.heap[m.id] = ArrRec((t.ny, t.nx), 'f', lambda ix: g(*ix))
        return m
    ip.contracts[F + 'combine'] = Contract(combine)

    def glob(st, pattern):
        k = [str_eq(pattern, sstr(folder, '/*.xml')), str_eq(
            pattern, '*.xml')]
        if True not in k:
            raise Unsupported('glob')
        # names are relative to the folder the pattern is relative to
        if k[1] is True:
            wd = W.events(st, 'chdir')
            ip.obl(st, 'temporary files are looked for in the folder of the '
                   'output', bool(wd) and str_eq(
                       wd[-1].args[0], folder) is True)
            pre = []
        else:
            pre = [folder, '/']
        n = z3.Int('xml_files')
        st.assume(ge(n, 0))
        return st.new(SeqRec([SymSeg(n, lambda k: sstr(*pre, SymStr(
            [Atom('xml', '/', (zi(k),)), '.xml'])))]))
    W.glob = glob
    ip.libs['glob'].attrs['escape'] = nat('glob.escape', lambda ip, st, a,
                                          k: a[0])

    def remove(ip, st, args, kw):
        p = args[0]
        xml = [x for x in getattr(p, 'parts', ()) if isinstance(x, Atom) and
               x.name == 'xml']
        ok = str_eq(p, path) is True or len(xml) == 1 and str_eq(
            p, sstr(folder, '/', SymStr(xml + ['.xml']))) is True or \
            len(xml) == 1 and str_eq(p, SymStr(xml + ['.xml'])) is True
        ip.obl(st, 'only temporary files are removed', ok)
    ip.libs['os'].attrs['remove'] = nat('os.remove', remove)
    f = v.fn('shielding.shield_mult', 'convo_combine')
    for st, res in v.outcomes(f, path, slope, asp, v.list(list(t.extent))):
        ev = W.events(st, 'save')
        if ev is None:
            raise Unsupported('the files written')
        v.ensure(st, 'eight files', len(ev) == 8)
        wd = W.events(st, 'chdir')
        if wd is None:
            raise Unsupported('the working directory')
        v.ensure(st, 'the working directory is left or restored', not wd or
                 wd[-1].args[0] == '/cwd')
        for d in DIRS:
            got = [e for e in ev if str_eq(e.args[2], sstr(
                folder, '/', name, '_ms_%s.nc' % d)) is True]
            v.ensure(st, 'one file for direction ' + d, len(got) == 1)
            if len(got) != 1:
                continue
            v.ensure(st, 'multiplier name', got[0].args[0] == 'Ms')
            arr = got[0].args[1]
            v.ensure(st, 'clipped to the tile', arr.info is not None and
                     arr.info[0] == 'clip')
            v.ensure_cells(st, 'combined factors of ' + d, st.new(arr),
                           (t.h, t.w), lambda i, j: comb[d](
                               add(i, t.oy), add(j, t.ox)))


@REG.task('shield', [F + 'shield'])
def whole(v):
    """each step gets the results of the step before"""
    ip = v.ip
    log = []
    dem, cover, ext = [Opaque(x) for x in ('dem', 'landcover', 'extent')]
    out = {x: Opaque(x) for x in ('slope', 'aspect', 'factors')}

    def is_(x, y):
        return x is y

    def slope(ip, st, d):
        ip.obl(st, 'slope and aspect of the elevation', is_(d, dem))
        return (out['slope'], out['aspect'])

    def factors(ip, st, d):
        ip.obl(st, 'factors of the land cover', is_(d, cover))
        return out['factors']
    r = v.st.new(SeqRec([]))

    def conv(ip, st, m, s, a, e):
        ip.obl(st, 'the factors are averaged', is_(m, out['factors']))
        ip.obl(st, 'with the slope of the tile', is_(s, out['slope']))
        ip.obl(st, 'with the aspect of the tile', is_(a, out['aspect']))
        ip.obl(st, 'for the extent of the tile', is_(e, ext))
        st.heap[r.id] = st.heap[r.id].append(1)
    ip.contracts[F + 'get_slope_aspect'] = Contract(slope)
    ip.contracts[F + 'terrain_class2ms_orig'] = Contract(factors)
    ip.contracts[F + 'convo_combine'] = Contract(conv)
    f = v.fn('shielding.shield_mult', 'shield')
    for st, res in v.outcomes(f, cover, dem, ext):
        v.ensure(st, 'the output is made once', eq(
            st.heap[r.id].length(), 1))
