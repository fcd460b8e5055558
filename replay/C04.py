from common import *
import pandas as pd
from terrain.terrain_mult import terrain_class2mz_orig


def mz(z0):
    return -0.2827 * np.log(0.4554 * np.log(z0) + 3.734) + 1.0762


def one(h, data, cats, z0s, extra=None):
    t = pd.DataFrame({'CATEGORY': cats, 'ROUGHNESS_LENGTH_m': z0s,
                      'DESCRIPTION': ['x'] * len(cats),
                      'SHIELDING': [100] * len(cats)},
                     index=extra)
    if len(cats) == 0:
        t = t.astype({'CATEGORY': int, 'ROUGHNESS_LENGTH_m': float})
    before, tb = data.copy(), t.copy()
    inp = {'data': data, 'dtype': str(data.dtype), 'categories': cats,
           'roughness': z0s}
    h.case(inp)
    got, err = h.call(terrain_class2mz_orig, data, t)
    if err:
        return h.fail('terrain_class2mz_orig raises ' + err, inp)
    want = np.zeros(data.shape)
    for i in np.ndindex(*data.shape):
        for c, z in zip(cats, z0s):
            if before[i] == c:
                want[i] = mz(z)
    if got.shape != data.shape or got.dtype.kind != 'f' or \
            not close(got, want, 3e-6):
        return h.fail('initial multipliers differ from the formula',
                      dict(inp, got=got, want=want))
    if not np.array_equal(data, before) or data.dtype != before.dtype:
        return h.fail('the raster is changed', inp)
    if not t.equals(tb):
        h.fail('the table is changed', inp)


def run(h):
    h.rule = 'random tables (0..20 rows, unsorted and sparse categories) ' \
             'and rasters of integer and float dtypes'
    rng = h.rng
    one(h, np.arange(12).reshape(3, 4), [1, 3, 7, 0], [2., .1, .02, .004])
    one(h, np.array([[1, 2], [3, 4]], np.uint8), [], [])
    # the smallest roughness lengths the formula has a value for
    one(h, np.arange(8).reshape(2, 4), [1, 2, 3, 4, 5, 6, 7],
        [2.76e-4, 2.8e-4, 2.9e-4, 3e-4, 3.01e-4, 4e-4, 9.])
    for k in range(300 if h.thorough else 60):
        if not h.more():
            return
        dt = [np.uint8, np.int16, np.int32, np.float32, np.int64,
              np.float64][k % 6]
        n = rng.randint(1, 20)
        cats = rng.permutation(120)[:n].tolist()
        if dt not in (np.uint8,):
            cats = [c - 20 for c in cats]
        z0s = np.exp(rng.uniform(-7.5, 1.5, n)).tolist()
        shape = (rng.randint(1, 9), rng.randint(1, 9))
        pool = np.array(cats + [99, 100, 5, 6, 119 if dt == np.uint8
                                else -9])
        if dt != np.uint8:
            # codes with the same last byte or digits
            pool = np.append(pool, [c + int(rng.choice([
                256, 512, 100, 1000])) for c in cats])
        if dt in (np.float32, np.float64):
            pool = np.append(pool, [c + .25 for c in cats])
        data = pool[rng.randint(0, len(pool), shape)].astype(dt)
        one(h, data, cats, z0s,
            None if k % 3 else rng.permutation(n).tolist())


main(run)
