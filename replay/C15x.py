"""Wind lines of a raster as lists of (row, column)."""
DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']
STEP = {d: ((1 if 'n' in d else -1 if 's' in d else 0),
            (1 if 'w' in d else -1 if 'e' in d else 0)) for d in DIRS}


def want_lines(nr, nc, d):
    di, dj = STEP[d]
    out = []
    for i in range(nr):
        for j in range(nc):
            if 0 <= i - di < nr and 0 <= j - dj < nc:
                continue
            line, a, b = [], i, j
            while 0 <= a < nr and 0 <= b < nc:
                line.append((a, b))
                a, b = a + di, b + dj
            out.append(line)
    return out
