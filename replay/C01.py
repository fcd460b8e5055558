from common import *
import grids


def run(h):
    h.rule = 'rasters of 1 to 20000 columns and rows, pixel sizes 1/3600 ' \
             'to 2 degrees, upwind lengths 0 to 100 degrees'
    for c in grids.cases(h):
        g = grids.Case(h, *c)
        if g.err:
            continue
        win = g.own(h)
        if win is None:
            continue
        cells = 0
        for k, (x1, x2, y1, y2) in enumerate(win):
            inp = dict(g.inp, tile=k, window=[x1, x2, y1, y2])
            if not (0 <= x1 < x2 <= g.nx and 0 <= y1 < y2 <= g.ny):
                h.fail('window is empty or outside the raster', inp)
                break
            cells += (x2 - x1) * (y2 - y1)
            for a, b, end, size in ((x1, x2, g.nx, g.pw), (y1, y2, g.ny,
                                                           g.ph)):
                if (b - a - 1) * size > 1 + 1e-9 or (
                        b < end and (b - a) * size < 1 - 1e-9):
                    h.fail('tile of %d cells of %r' % (b - a, size), inp)
        xs = sorted({a for w in win for a in w[:2]} | {0, g.nx})
        ys = sorted({a for w in win for a in w[2:]} | {0, g.ny})
        count = np.zeros((len(xs) - 1, len(ys) - 1), int)
        for x1, x2, y1, y2 in win:
            count[xs.index(x1):xs.index(x2), ys.index(y1):ys.index(y2)] += 1
        if (count != 1).any():
            i, j = [int(q[0]) for q in np.where(count != 1)]
            h.fail('column %d, row %d is in %d tiles' % (
                xs[i], ys[j], count[i, j]), dict(g.inp, windows=win[:20]))


main(run)
