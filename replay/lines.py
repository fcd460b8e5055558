"""Elevation lines for the ridge and topographic checks."""
import itertools
import numpy as np


def runs(p):
    """maximal strictly rising runs as (foot, top)"""
    out, i, n = [], 0, len(p)
    while i < n - 1:
        if p[i + 1] > p[i]:
            j = i
            while j < n - 1 and p[j + 1] > p[j]:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def small(levels=3, upto=6):
    for n in range(1, upto + 1):
        for t in itertools.product(range(levels), repeat=n):
            yield np.array(t, float)


def long_lines(rng, n=4500):
    """lines across a large tile: many small hills, one wide hill"""
    yield np.where(np.arange(n) % 2, 60., 0.) + rng.randint(0, 9, n)
    yield np.round(900 * np.sin(np.arange(n) * np.pi / n), 2)


def random_lines(rng, count):
    for _ in range(count):
        n = rng.randint(1, 80)
        kind = rng.randint(7)
        if kind == 0:
            p = rng.randint(0, 4, n)
        elif kind == 1:
            p = np.cumsum(rng.randint(-1, 2, n))
        elif kind == 2:
            p = np.cumsum(rng.normal(0, 15, n))
        elif kind == 3:
            p = np.repeat(rng.randint(0, 60, n), rng.randint(1, 5))[:n]
        elif kind == 4:       # very gentle steps
            p = 3 + np.cumsum(rng.choice([-1, 0, 1], n) *
                              10. ** rng.randint(-9, 3, n))
        elif kind == 5:       # far away from zero
            p = rng.choice([-30., 2000.]) + np.cumsum(
                rng.choice([-.25, 0, .25], n))
        else:
            p = np.round(200 * np.sin(np.arange(n) / rng.uniform(1, 9)), 1)
        yield np.asarray(p, float)
