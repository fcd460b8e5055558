from common import *
from topographic import mh
from hill import spec


def one(h, p, r, v, ds):
    p = np.asarray(p, float)
    inp = {'profile': p, 'ridge': r, 'valley': v, 'spacing': ds}
    h.case(inp)
    want, E, soft, thr = spec(p, r, v, ds)
    ref = p.copy()
    got, err = h.call(mh.escarpment_factor, p, np.int64(r), np.int64(v), ds)
    if err:
        return h.fail('escarpment_factor raises ' + err, inp)
    if not close(got, E, 1e-9):
        return h.fail('escarpment factor is %r, not %r' % (got, E), inp)
    got, err = h.call(mh.mh_calc, p, np.int64(r), np.int64(v), ds)
    if err:
        return h.fail('mh_calc raises ' + err, inp)
    got = np.asarray(got)
    if got.size != len(p):
        return h.fail('mh_calc result has shape %r' % (got.shape,), inp)
    got = got.reshape(-1)
    if not thr and not close(np.where(soft, want, got), want, 1e-9):
        return h.fail('hill-shape multiplier differs', dict(
            inp, got=got, want=want))
    if got.min() < 1 or got.max() > 1.71 + 1e-12:
        return h.fail('outside [1, 1.71]', dict(inp, got=got))
    if not np.array_equal(p, ref):
        h.fail('mh_calc changes the line', inp)


def hills(h, p, ds):
    n = len(p)
    i = 0
    while i < n - 1 and h.more():
        if p[i + 1] > p[i]:
            j = i
            while j < n - 1 and p[j + 1] > p[j]:
                j += 1
            one(h, p, j, i, ds)
            i = j
        i += 1


def run(h):
    h.rule = 'every hill of systematic triangular lines (length 3..40, all ' \
             'crest positions, heights around the thresholds) and random ' \
             'lines'
    rng = h.rng
    for ds in (25., 90., 10.):
        for up in (1, 2, 3, 6, 10):
            for down in (0, 1, 2, 5, 12):
                for H in (1., 9., 10., 11., 30., 200., 600.):
                    for pre, post in ((0, 0), (3, 0), (30, 20), (0, 9)):
                        p = [0.] * pre + list(np.linspace(0, H, up + 1)) + \
                            list(np.linspace(H, 0, down + 1)[1:]) + \
                            [0. if down else H] * post
                        if not h.more():
                            return
                        if h.rng.rand() < (1 if h.thorough else .5):
                            hills(h, np.floor(np.array(p)), ds)
    # the end of the separation zone at a cell
    for ds, up, m in ((25., 4, 1), (25., 8, 1), (10., 7, 2), (30., 17, 2),
                      (90., 5, 1), (25., 20, 3), (10., 40, 7)):
        H = 4 * m * ds
        top = [H * (1 + k) // up for k in range(up)]
        p = np.array([0] * 5 + top + [H - H * min(k, up) // up
                                      for k in range(1, 4 * up)], float)
        if h.more():
            one(h, p, up + 4, 4, ds)
    # long hills: hundreds of points in the zone of influence
    for up, H, ds in ((40, 300, 25.), (113, 900, 25.), (300, 1500, 30.),
                      (150, 40, 5.), (500, 1999, 25.), (60, 1999, 10.)):
        if not h.more():
            return
        L = int(1.5 * max(.36 * up * ds / 2, .4 * H) * 4 / ds) + 20
        top = [H * (1 + k) // up for k in range(up)]
        for post in ([H - 1] * 3 * L, [H - H * min(k, up) // up
                                       for k in range(1, 3 * L)]):
            p = np.array([0] * L + top + post, float)
            one(h, p, L + up - 1, L - 1, ds)
    # mountains: the bound of the multiplier is met
    for up, H, ds in ((9, 4500, 25.), (40, 5000, 90.), (60, 8800, 25.),
                      (30, 8999, 10.), (3, 6000, 1000.)):
        top = [H * (1 + k) // up for k in range(up)]
        for post in ([], [H - 1], [H - 1, H - 2], [H - H * k // 9
                                                   for k in range(1, 10)]):
            one(h, [0.] * 4 + top + post, up + 3, 3, ds)
    for _ in range(600 if h.thorough else 120):
        n = rng.randint(2, 60)
        p = np.floor(np.cumsum(rng.normal(0, rng.choice([3, 20, 60]), n)))
        hills(h, p, float(rng.choice([10., 25., 30.7, 90.])))


main(run)
