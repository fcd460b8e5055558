from common import *
import grids
import all_multipliers as am


def whole(h, up, size):
    """possible numbers of whole cells (rounding at exact multiples)"""
    q = up / size
    s = {int(q)}
    if abs(q - round(q)) < 1e-9 * max(1, q):
        s |= {int(round(q)), max(0, int(round(q)) - 1)}
    return s


def run(h):
    h.rule = 'as C01, and the work list of get_tiles'
    for c in grids.cases(h):
        g = grids.Case(h, *c)
        if g.err:
            continue
        win = g.own(h)
        if win is None:
            continue
        tl, err = h.call(am.get_tiles, g.tg)
        if err:
            h.fail('get_tiles raises ' + err, g.inp)
            continue
        tl = list(tl)
        if len(tl) != g.num:
            h.fail('%d entries in the work list for %d tiles' % (
                len(tl), g.num), g.inp)
            continue
        bxs, bys = whole(h, g.up, g.pw), whole(h, g.up, g.ph)
        seen = set()
        for k in range(g.num):
            inp = dict(g.inp, tile=k, window=win[k])
            x1, x2, y1, y2 = win[k]
            b, err = h.call(g.tg.get_gridlimit_buffer, k)
            if err:
                h.fail('get_gridlimit_buffer raises ' + err, inp)
                break
            b = tuple(int(a) for a in b)
            if not any(b == (max(0, x1 - p), min(g.nx, x2 + p),
                             max(0, y1 - q), min(g.ny, y2 + q))
                       for p in bxs for q in bys):
                h.fail('buffered window %r, buffer %r x %r cells' % (
                    b, sorted(bxs), sorted(bys)), inp)
                break
            e = [g.x + x1 * g.pw, g.y - y1 * g.ph,
                 g.x + x2 * g.pw, g.y - y2 * g.ph]
            f = [g.x + b[0] * g.pw, g.y - b[2] * g.ph,
                 g.x + b[1] * g.pw, g.y - b[3] * g.ph]
            ok = True
            for got, want, what in (
                    (h.call(g.tg.get_tile_extent, k)[0], e, 'extent'),
                    (h.call(g.tg.get_tile_extent_buffer, k)[0], f,
                     'extent with buffer'),
                    (tl[k][2], e, 'extent in the work list'),
                    (tl[k][1], f, 'extent with buffer in the work list')):
                if got is None or not np.allclose(got, want, rtol=0,
                                                  atol=1e-7 * g.pw):
                    h.fail('%s is %r, not %r' % (what, got, want), inp)
                    ok = False
                    break
            if not ok:
                break
            if tl[k][0] != h.call(g.tg.get_tilename, k)[0]:
                h.fail('name in the work list', inp)
                break


main(run)
