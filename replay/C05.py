from common import *
from terrain.terrain_mult import convo

UP = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
      'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}


def spec(d, data, avg, lag):
    rows, cols = data.shape
    out = np.zeros((rows, cols))
    dr, dc = UP[d]
    for i in range(rows):
        for j in range(cols):
            vals = []
            for k in range(lag + 1, lag + avg + 1):
                r, c = i + dr * k, j + dc * k
                if not (0 <= r < rows and 0 <= c < cols):
                    break
                vals.append(float(data[r, c]))
            out[i, j] = np.mean(vals) if vals else data[i, j]
    return out


def one(h, d, rows, cols, avg, lag, values=None):
    data = h.rng.uniform(0.7, 1.3, (rows, cols)).astype(np.float32)
    if values is not None:
        # classes without a row in the table, negative and undefined values
        where = h.rng.rand(rows, cols) < .3
        data[where] = h.rng.choice(values, where.sum())
    ref = data.copy()
    h.case({'d': d, 'rows': rows, 'cols': cols, 'avg': avg, 'lag': lag})
    inp = {'direction': d, 'data': data, 'avg_width': avg,
           'lag_width': lag}
    got, err = h.call(convo, d, data, avg, lag)
    if err:
        return h.fail('convo raises ' + err, inp)
    if not close(got, spec(d, ref, avg, lag), 2e-6):
        return h.fail('convo is not the mean of the upwind cells',
                      dict(inp, got=got, want=spec(d, ref, avg, lag)))
    if not np.array_equal(data, ref):
        h.fail('convo changes its input', inp)


def run(h):
    h.rule = 'all directions x raster sizes 1..9 (non-square) x averaging ' \
             '0..6 x lag 0..4, distinct random cell values'
    for x in h.hint_ints('rows', 'cols', 'avg', 'lag'):
        if len(x) == 4 and max(x.values()) <= 60:
            for d in UP:
                one(h, d, max(1, x['rows']), max(1, x['cols']), x['avg'],
                    x['lag'])
    sizes = [(1, 1), (1, 6), (6, 1), (5, 7), (7, 5), (9, 9), (4, 4)]
    for avg in range(0, 7):
        for lag in range(0, 5):
            for rows, cols in sizes:
                for d in UP:
                    if not h.more():
                        return
                    one(h, d, rows, cols, avg, lag)
    for rows, cols in sizes[3:]:
        for d in UP:
            one(h, d, rows, cols, 3, 1, [0., 0., -1.5, 1e-30])
            one(h, d, rows, cols, 2, 0, [0., 1e4, -.25])
    one(h, 'n', 30, 25, 12, 5)
    n = 400 if h.thorough else 20
    for _ in range(n):
        if not h.more():
            return
        one(h, sorted(UP)[h.rng.randint(8)], h.rng.randint(1, 25),
            h.rng.randint(1, 25), h.rng.randint(0, 26), h.rng.randint(0, 12))


main(run)
