"""The hill-shape multiplier of one hill."""
import numpy as np


def spec(p, r, v, ds):
    n = len(p)
    H = p[r] - p[v]
    lu = (r - v) * ds / 2.
    slope = H / (2 * lu)
    l1 = max(.36 * lu, .4 * H)
    l2 = 4 * l1
    beta = min(n - 1, 2 * r - v)
    E = 1.
    if beta > r:
        E = 2.5 - 1.5 * ((p[r] - p[beta]) / ((beta - r) * ds)) / slope
        E = min(3., max(.5, E))
    m = np.ones(n)
    soft = np.zeros(n, bool)      # on a threshold: rounding decides
    if H >= 10 and slope >= .05 and lu >= ds:
        for k in range(n):
            x = (r - k) * ds
            cap = lambda t: min(1.71, t)
            b = H / (3.5 * (10 + l1))
            if x >= 0:
                if x < l2:
                    m[k] = cap(1 + b * (1 - x / l2))
            elif slope > .45 and x > -H / 4. and abs(E - 1) < .2:
                m[k] = 1 + .71 * (1 + x / (E * l2))
            elif x > -E * l2:
                m[k] = cap(1 + b * (1 + x / (E * l2)))
            # (whole numbers are not rounded)
            edge = abs(x + H / 4.) < 1e-6 * H and not (
                ds % 1 == H % 1 == 0 and x == -H / 4.)
            if x < 0 and (edge or
                          abs(abs(E - 1) - .2) < 1e-9 or
                          abs(slope - .45) < 1e-9):
                soft[k] = True
    thr = min(abs(slope - .05), abs(H - 10) / 10) < 1e-9 and H != 10
    return m, E, soft, thr
