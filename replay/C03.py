from common import *
import grids
import all_multipliers as am
import re


def part(text, value, width):
    """text is the decimal text of value, cut to the width"""
    if len(text) > width:
        return False
    try:
        got = float(text)
    except ValueError:
        return False
    if len(text) < width:
        return abs(got - value) < 1e-9 and text == str(got)
    dec = len(text.split('.')[1]) if '.' in text else 0
    return abs(got - value) <= 10. ** -dec * (1 + 1e-6)


def run(h):
    h.rule = 'as C01'
    for c in grids.cases(h):
        g = grids.Case(h, *c)
        if g.err:
            continue
        win = g.own(h)
        if win is None:
            continue
        names = {}
        for k in range(g.num):
            inp = dict(g.inp, tile=k)
            n, err = h.call(g.tg.get_tilename, k)
            if err:
                h.fail('get_tilename raises ' + err, inp)
                break
            inp['name'] = n
            lon = g.x + win[k][0] * g.pw
            lat = -g.y + win[k][2] * g.ph
            m = re.match(r'^e(-?[0-9.e-]+)s(-?[0-9.e-]+)$', n)
            if not m or not part(m.group(1), lon, 8) or \
                    not part(m.group(2), lat, 7):
                h.fail('the name is not that of %r E, %r S' % (lon, lat),
                       inp)
                break
            if n in names:
                h.fail('the name is also that of tile %d' % names[n], inp)
                break
            names[n] = k


main(run)
