from common import *
from shielding import shield_mult as sm

DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']
UP = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
      'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}


def sector(d, size):
    """upwind offsets of the window"""
    ur, uc = UP[d]
    out = []
    for r in range(-size, size + 1):
        for c in range(-size, size + 1):
            if ur and uc:
                a, b = ur * r, uc * c
                ok = a >= 1 and b >= 1 and a + b <= size + 1
            else:
                a, x = (ur * r, c) if ur else (uc * c, r)
                ok = 1 <= a <= size and (x == 0 or (a >= 2 and abs(x) == 1))
            if ok:
                out.append((r, c))
    return out


def window(h, d, size):
    inp = {'direction': d, 'size': size}
    h.case(inp)
    k, err = h.call(getattr(sm, 'kern_' + d), size)
    if err:
        return h.fail('kern_%s raises %s' % (d, err), inp)
    want = np.zeros((2 * size + 1, 2 * size + 1))
    s = sector(d, size)
    for r, c in s:
        want[size - r, size - c] = 1. / len(s)
    if not close(k, want, 1e-12):
        h.fail('window is not the mean of the upwind sector',
               dict(inp, got=k, want=want))


def blur(h, d, size, shape, rng):
    im = rng.uniform(0, 1, shape).astype(np.float32)
    ref = im.copy()
    inp = {'direction': d, 'size': size, 'image': im}
    h.case({'direction': d, 'size': size, 'shape': shape,
            'first': float(im[0, 0])})
    k, err = h.call(getattr(sm, 'kern_' + d), size)
    if err:
        return h.fail('kern_%s raises %s' % (d, err), inp)
    got, err = h.call(sm.blur_image, im, k)
    if err:
        return h.fail('blur_image raises ' + err, inp)
    s = sector(d, size)
    want = np.zeros(shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            t = 0.
            for r, c in s:
                x, y = i + r, j + c
                t += float(ref[x, y]) if 0 <= x < shape[0] and \
                    0 <= y < shape[1] else 1.
            want[i, j] = t / len(s)
    if not close(got, want, 1e-5):
        return h.fail('blurred factor is not the upwind average',
                      dict(inp, got=got, want=want))
    if got.min() < -1e-6 or got.max() > 1 + 1e-6:
        return h.fail('average outside [0, 1]', dict(inp, got=got))
    if not np.array_equal(im, ref):
        h.fail('blur_image changes its input', inp)


def run(h):
    h.rule = 'all directions x window sizes 1..12 (24 thorough); blurring ' \
             'of random images'
    for x in h.hint_ints('size'):
        if 1 <= x['size'] <= 60:
            for d in DIRS:
                window(h, d, x['size'])
    for size in range(1, 25 if h.thorough else 13):
        for d in DIRS:
            window(h, d, size)
    for size in (1, 2, 3, 4, 6):
        for shape in ((1, 1), (4, 7), (9, 5), (13, 13)):
            for d in DIRS:
                if h.more():
                    blur(h, d, size, shape, h.rng)
    for d in DIRS:
        window(h, d, 40)


main(run)
