from common import *
from shielding.shield_mult import combine

CLASS = {'n': 1, 'ne': 2, 'e': 3, 'se': 4, 's': 5, 'sw': 6, 'w': 7, 'nw': 8}


def spec(m, s, a, c):
    if np.isnan(m):
        return np.nan
    x = m
    if a == c and s >= 12.30:
        x = 1.
    elif a == c and 3.27 < s < 12.30:
        x = m + (1 - m) * (s - 3.27) / (12.30 - 3.27)
    return x * .9 if x < .9 else x * x


def one(h, d, ms, sl, asp):
    inp = {'direction': d, 'factor': ms, 'slope': sl, 'aspect': asp}
    h.case(inp)
    s0, a0 = sl.copy(), asp.copy()
    want = np.array([[spec(float(ms[i, j]), float(sl[i, j]), asp[i, j],
                           CLASS[d]) for j in range(ms.shape[1])]
                     for i in range(ms.shape[0])]).reshape(ms.shape)
    got, err = h.call(combine, ms.copy(), sl, asp, d)
    if err:
        return h.fail('combine raises ' + err, inp)
    if not close(got, want, 2e-6):
        return h.fail('shielding multiplier differs from the rule',
                      dict(inp, got=got, want=want))
    if not (np.array_equal(s0, sl, equal_nan=True) and
            np.array_equal(a0, asp)):
        h.fail('combine changes slope or aspect', inp)


def run(h):
    h.rule = 'all directions; factors, slopes at and around the limits, ' \
             'NaN, all aspect classes'
    rng = h.rng
    fs = np.array([np.nan, 0, .3, .5, .85, .8999, .9, .9001, .95, 1.,
                   .88, .7], np.float32)
    ss = np.array([np.nan, 0, 1, 3.26, 3.27, 3.28, 5, 7.785, 12.29, 12.30,
                   12.31, 30, 89])
    for d in sorted(CLASS):
        A, B = np.meshgrid(fs, ss)
        for c in range(1, 10):
            one(h, d, A.copy(), B.copy(), np.full(A.shape, c))
    for _ in range(200 if h.thorough else 20):
        shape = (rng.randint(1, 12), rng.randint(1, 12))
        # (a percentage above 100 gives a factor above 1)
        ms = rng.uniform(0, 1.3 if _ % 4 == 3 else 1,
                         shape).astype(np.float32)
        ms[rng.rand(*shape) < .1] = np.nan
        sl = rng.uniform(0, 20, shape)
        sl[rng.rand(*shape) < .1] = np.nan
        one(h, sorted(CLASS)[rng.randint(8)], ms, sl,
            rng.randint(1, 10, shape))


main(run)
