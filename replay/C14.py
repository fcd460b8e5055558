from common import *
import lines
from hill import spec
from topographic import multiplier_calc as mc


def want_of(p, ds):
    f = np.floor(p)
    m = np.ones(len(p))
    soft = np.zeros(len(p), bool)
    for a, b in lines.runs(f):
        x, _, s, thr = spec(f, b, a, ds)
        m = np.maximum(m, x)
        soft |= s | thr
    return m, soft


def one(h, p, ds):
    inp = {'line': p, 'spacing': ds}
    h.case(inp)
    ref = p.copy()
    got, err = h.call(mc.multiplier_calc, p, ds)
    if err:
        return h.fail('multiplier_calc raises ' + err, inp)
    got = np.asarray(got, float)
    if got.size != len(p):
        return h.fail('%d values for %d points' % (got.size, len(p)), inp)
    got = got.reshape(-1)
    want, soft = want_of(p, ds)
    if not np.array_equal(p, ref):
        return h.fail('the line is changed', inp)
    if not close(np.where(soft, want, got), want, 1e-9):
        return h.fail('multipliers differ', dict(inp, got=got, want=want))
    if not (got >= 1).all():
        h.fail('a multiplier below 1', dict(inp, got=got))


def run(h):
    h.rule = 'scaled lines over 3 heights up to 6 points, random lines up ' \
             'to 80 points'
    for n, p in enumerate(lines.small(3, 7 if h.thorough else 6)):
        if not h.more():
            return
        one(h, p * 25. + (n % 4) * .3, (10., 25., 3.)[n % 3])
    for p in lines.long_lines(h.rng):
        one(h, p, 90.)
    for p in lines.random_lines(h.rng, 3000 if h.thorough else 500):
        if not h.more():
            return
        one(h, p, float(h.rng.choice([5., 25., 90.])))
        one(h, p * 13.7, float(h.rng.choice([5., 25., 90.])))


main(run)
