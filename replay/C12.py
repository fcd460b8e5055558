from common import *
import lines
from topographic import findpeaks as fp


def one(h, p):
    inp = {'line': p}
    h.case(inp)
    ref = p.copy()
    r, err = h.call(fp.findpeaks, p)
    if err:
        return h.fail('findpeaks raises ' + err, inp)
    v, err = h.call(fp.findvalleys, p)
    if err:
        return h.fail('findvalleys raises ' + err, inp)
    if not np.array_equal(p, ref):
        return h.fail('the line is changed', inp)
    r = [int(x) for x in np.atleast_1d(r).reshape(-1)]
    v = [int(x) for x in np.atleast_1d(v).reshape(-1)]
    inp = dict(inp, ridges=r, valleys=v)
    want = lines.runs(p)
    hills = [x for x in r if x != 0]
    if hills != [b for a, b in want]:
        return h.fail('ridges are not the tops of the rising runs %r' %
                      (want,), inp)
    if len(set(p.tolist())) == 1 and len(p) > 1 and r:
        return h.fail('a flat line has a ridge', inp)
    if want and v[:len(want)] != [a for a, b in want]:
        return h.fail('valleys are not paired with the ridges %r' % (want,),
                      inp)


def run(h):
    h.rule = 'all lines over 3 heights up to 7 points (8 thorough), over 5 ' \
             'heights up to 4, and random lines up to 80 points'
    for p in lines.small(3, 8 if h.thorough else 7):
        if not h.more():
            return
        one(h, p)
    for p in lines.small(5, 4):
        one(h, p)
    for p in lines.random_lines(h.rng, 2000 if h.thorough else 400):
        one(h, p)
        one(h, -p * 7.5)
        one(h, p * 1e-9)
        one(h, 1 + p * 2. ** -40)
    for p in lines.long_lines(h.rng):
        one(h, p)


main(run)
