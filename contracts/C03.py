"""C03: names of tiles."""
from engine.vc import *
from engine.values import *
from contracts.tilegrid import *
from contracts.C01 import window, facts, column_row, grow
from contracts.C02 import tile_number, items

REG = Registry('C03')
NAME = GRID + [A + 'TileGrid.get_tilename', A + 'TileGrid.get_startcord']


def corner(g, w):
    """longitude and southern latitude of the north-west corner"""
    return (add(g.x, mul(w[0], g.pw)),
            add(neg(g.y), mul(w[2], g.ph)))


@REG.task('name', NAME, timeout=20.0)
def name(v):
    g = Grid(v)
    st, k, i, j = tile_number(v, g)
    lon, lat = corner(g, window(g, k))
    st, n = g.method('get_tilename', k)
    v.ensure(st, 'the name is a text', isinstance(n, (str, SymStr)))
    p = list(str_parts(n))
    ok = len(p) == 4 and p[0] == 'e' and p[2] == 's' and \
        isinstance(p[1], Atom) and isinstance(p[3], Atom)
    if not ok or not p[1].name.startswith('strf[:') or \
            not p[3].name.startswith('strf[:'):
        raise Unsupported('form of the name')
    if ok:
        for q, x, what, w in ((p[1], lon, 'longitude', 8),
                              (p[3], lat, 'southern latitude', 7)):
            v.ensure(st, 'text of a number cut to %d characters' % w,
                     q.name == 'strf[:%d]' % w)
            v.ensure(st, 'the number is the %s of the corner' % what,
                     eq(q.term[0], x))


@REG.task('different names', NAME, timeout=20.0)
def different(v):
    """the corners of two tiles are at least one degree apart in longitude
    or in latitude, so their texts differ before the decimal point"""
    v.trust('str() of a float below 1000 in magnitude writes its integer '
            'part and the decimal point within the first 5 characters '
            '(coordinates are 0 or at least 1e-4), so equal cut texts '
            'belong to numbers less than 1 apart; the text contains no s')
    g = Grid(v)
    st, k, i, j = tile_number(v, g)
    l = v.int('l')
    st.assume(b_and(ge(l, 0), lt(l, g.num()), ne(k, l)))
    p, q = column_row(g, st, l)
    v.lemma(st, 'different columns or rows', b_or(ne(i, p), ne(j, q)))
    a, b = corner(g, window(g, k)), corner(g, window(g, l))
    gap = []
    for s, w, z, y, c, d in ((g.xs, g.pw, i, p, a[0], b[0]),
                             (g.ys, g.ph, j, q, a[1], b[1])):
        v.lemma(st, 'a tile spans at least one degree',
                ge(mul(s, w), 1))
        for m, n, e, f in ((z, y, c, d), (y, z, d, c)):
            grow(v, st, 'order of tiles', m, n, s)
            h = v.only(st, gt(w, 0), ge(mul(s, w), 1), b_implies(
                lt(m, n), le(mul(add(m, 1), s), mul(n, s))))
            fact = b_implies(lt(m, n), ge(sub(f, e), 1))
            v.lemma(h, 'tiles in order are a degree apart', fact)
            st.assume(fact)
        gap.append(b_or(ge(sub(c, d), 1), ge(sub(d, c), 1)))
    v.ensure(st, 'corners a degree apart', b_or(*gap))
