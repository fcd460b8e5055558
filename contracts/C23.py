"""C23: what is computed for a tile, and the working files it leaves."""
from engine.vc import *
from engine.values import *
from contracts.gis import *

REG = Registry('C23')
A = 'all_multipliers.py:'


class Place(object):
    """one tile of a run"""

    def __init__(self, v):
        self.v = v
        self.W = W = World(v)
        W.install()
        self.folder = SymStr([Atom('folder')])
        self.tile = SymStr([Atom('tile', '/._')])
        self.dem = sstr(self.folder, '/', self.tile, '_dem.img')
        self.lcv = sstr(self.folder, '/', self.tile, '.img')
        v.setmod('all_multipliers', 'output_folder', self.folder)
        cls = v.fn('all_multipliers', 'Multipliers')
        st, self.m = v.call1(cls, 'landcover', 'elevation')
        v.st = st
        self.wide = tuple(v.real('wide_%d' % k) for k in range(4))
        self.own = tuple(v.real('own_%d' % k) for k in range(4))
        self.info = v.list([self.tile, self.wide, self.own])

    def same(self, st, a, b):
        a = self.v.ip.concrete_items(st, a)
        return b_and(len(a) == len(b), *[eq(x, y) for x, y in zip(a, b)])


def is_path(a, b):
    r = str_eq(a, b) if isinstance(a, (str, SymStr)) else None
    if r is None:
        raise Unsupported('path %r' % (a,))
    return norm(r) is True


@REG.task('cut_dem', [A + 'Multipliers.cut_dem'])
def cut(v):
    p = Place(v)

    def clip(ip, st, m, extent, path):
        p.W.log(st, 'clip', extent, path)
    v.ip.contracts[A + 'Multipliers.clip_dataset'] = Contract(clip)
    for st, r in v.outcomes(v.fn('all_multipliers', 'Multipliers.cut_dem'),
                            p.m, p.info):
        ev = p.W.events(st)
        v.ensure(st, 'one cut-out is made', [e.name for e in ev] == ['clip'])
        v.ensure(st, 'of the buffered extent of the tile', p.same(
            st, ev[0].args[0], p.wide))
        v.ensure(st, 'it is the file returned', is_path(r, ev[0].args[1]))
        v.ensure(st, 'under the name of the tile', is_path(r, p.dem))


@REG.task('multipliers_calculate', [A + 'Multipliers.multipliers_calculate',
                                    A + 'timer'],
          params=['data', 'empty'])
def calculate(v, what):
    p = Place(v)
    W, ip = p.W, v.ip
    chk = v.int('checksum', 0)
    v.pre(gt(chk, 0) if what == 'data' else eq(chk, 0))
    nx, ny = v.int('nx', 1), v.int('ny', 1)
    gt_ = tuple(v.real(n) for n in ('x', 'pw', 'y', 'ph'))
    ds = W.dataset('cut-out', nx, ny, gt_, checksum=chk, path=p.dem)
    left = v.st.new(SeqRec([]))

    def gone(st, path):
        return any(e.name == 'remove' and is_path(e.args[0], path)
                   for e in W.events(st))

    def made(st, path):
        return any(e.name == 'match' and is_path(e.args[2], path)
                   for e in W.events(st))
    W.exist = [(p.dem, lambda st: not gone(st, p.dem)),
               (p.lcv, lambda st: made(st, p.lcv) and not gone(st, p.lcv))]

    def match(ip, st, src, grid, dst, *a, **k):
        if len([x for x in a if x is not None]) > 1 or k:
            raise Unsupported('options of reproject_dataset')
        W.log(st, 'match', src, grid if isinstance(grid, (str, SymStr))
              else p.dem if grid is ds else 'another raster', dst)
    ip.contracts[A + 'reproject_dataset'] = Contract(match)
    mult = {}

    def job(name):
        def f(ip, st, *a):
            W.log(st, name, *a)
        return Contract(f)
    ip.contracts['terrain/terrain_mult.py:terrain'] = job('terrain')
    ip.contracts['shielding/shield_mult.py:shield'] = job('shield')
    ip.contracts['topographic/topo_mult.py:topomult'] = job('topomult')

    def raising(ip, st, a, k):
        path = a[0]
        mine = [q for q in (p.dem, p.lcv) if is_path(path, q)]
        ip.obl(st, 'only working files of the tile are removed',
               len(mine) == 1)
        ip.obl(st, 'the file removed is there', not gone(st, path) and (
            mine[0] is p.dem or made(st, path)))
        W.log(st, 'remove', path)
    ip.libs['os'].attrs['remove'] = nat('os.remove', raising)
    ip.libs['os'].attrs['unlink'] = nat('os.unlink', raising)
    f = v.fn('all_multipliers', 'Multipliers.multipliers_calculate')
    n = 0
    for st, _ in v.outcomes(f, p.m, p.dem, p.info):
        n += 1
        ev = [e for e in W.events(st) if e.name != 'open']
        names = [e.name for e in ev]
        by = {e.name: e for e in ev}
        v.ensure(st, 'the cut-out is removed, once', len(
            [e for e in ev if e.name == 'remove' and is_path(
                e.args[0], p.dem)]) == 1)
        if what == 'empty':
            v.ensure(st, 'nothing is computed', set(names) == {'remove'})
            v.ensure(st, 'nothing else is removed', len(names) == 1)
            continue
        rest = [x for x in names if x != 'remove']
        v.ensure(st, 'every calculation is done once, after the land cover '
                 'is matched', rest[0] == 'match' and sorted(rest[1:]) ==
                 ['shield', 'terrain', 'topomult'])
        v.ensure(st, 'the files are removed at the end, and no others',
                 names[4:] == ['remove', 'remove'])
        v.ensure(st, 'the matched land cover is removed', len(
            [e for e in ev if e.name == 'remove' and is_path(
                e.args[0], p.lcv)]) == 1)
        e = by['match']
        v.ensure(st, 'the land cover is matched', e.args[0] == 'landcover')
        v.ensure(st, 'to the cut-out of the tile', is_path(
            e.args[1], p.dem))
        v.ensure(st, 'into the working file of the tile', is_path(
            e.args[2], p.lcv))
        for name, args in (('terrain', [p.lcv]),
                           ('shield', [p.lcv, p.dem]),
                           ('topomult', [p.dem])):
            a = by[name].args
            if len(a) != len(args) + 1:
                raise Unsupported('arguments of ' + name)
            for x, y in zip(a, args):
                v.ensure(st, name + ' works on the files of the tile',
                         is_path(x, y))
            v.ensure(st, name + ' keeps the extent without buffer', p.same(
                st, a[-1], p.own))
    v.ensure(v.st, 'an outcome', n > 0)


@REG.task('reproject_dataset', [A + 'reproject_dataset'],
          params=['int32', 'uint8', 'float32'])
def reproject(v, kind):
    """the matched land cover has the grid of the cut-out and class codes of
    the land cover"""
    W = World(v)
    W.install()
    p = v.ip
    src = W.dataset('landcover', v.int('sx', 1), v.int('sy', 1), tuple(
        v.real(n) for n in ('a', 'b', 'c', 'd')), get=z3.Function(
            'class', I, I, I), kind='i', proj='land cover projection',
        path='landcover.img')
    W.exist = [('landcover.img', True)]
    nx, ny = v.int('nx', 1), v.int('ny', 1)
    g = tuple(v.real(n) for n in ('x', 'pw', 'y', 'ph'))
    grid = W.dataset('cut-out', nx, ny, g, proj='tile projection')
    read = src.attr('GetRasterBand')

    def band(ip, st, a, k):
        r = nat('ReadAsArray', lambda ip, st, a, k: NObj(
            'array', {'dtype': kind}.get))
        return NObj('Band', {'ReadAsArray': r, 'DataType': Opaque(
            'type ' + kind)}.get)
    old = src.attr
    src.attr = lambda n: nat('GetRasterBand', band) \
        if n == 'GetRasterBand' else old(n)
    for st, _ in v.outcomes(v.fn('all_multipliers', 'reproject_dataset'),
                            'landcover.img', grid, 'out.img'):
        ev = [e for e in W.events(st) if e.name != 'open']
        by = {e.name: e for e in ev}
        if sorted(by) != ['create', 'geotransform', 'projection',
                          'reproject'] or len(ev) != 4:
            raise Unsupported('calls %r' % (sorted(by),))
        c = by['create'].args
        v.ensure(st, 'a new file', c[1] == 'out.img')
        v.ensure(st, 'grid of the cut-out', b_and(eq(c[2], nx),
                                                  eq(c[3], ny)))
        t = c[5] if len(c) > 5 else Opaque('GDT_Byte')
        if not isinstance(t, Opaque):
            raise Unsupported('type')
        v.ensure(st, 'the type holds all codes', t.name in (
            ['GDT_Int32', 'GDT_Float64'] if kind == 'int32' else
            ['GDT_Float32', 'GDT_Float64', 'GDT_Int32']
            if kind == 'uint8' else ['GDT_Float32', 'GDT_Float64']))
        q = p.concrete_items(st, by['geotransform'].args[1])
        v.ensure(st, 'georeference of the cut-out', b_and(*[
            eq(a, b) for a, b in zip(q, (g[0], g[1], 0, g[2], 0,
                                         neg(g[3])))]))
        v.ensure(st, 'projection of the cut-out',
                 by['projection'].args[1] == 'tile projection')
        r = by['reproject'].args
        if len(r) < 4:
            raise Unsupported('ReprojectImage')
        v.ensure(st, 'land cover into the new file', r[0] == 'landcover' and
                 r[1] == 'out.img')
        v.ensure(st, 'projections of both', r[2] == 'land cover projection'
                 and r[3] == 'tile projection')
        v.ensure(st, 'class codes are not averaged', len(r) < 5 or
                 isinstance(r[4], Opaque) and r[4].name ==
                 'GRA_NearestNeighbour')
