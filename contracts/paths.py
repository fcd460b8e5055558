"""Wind lines through a raster of nr rows and nc columns; the cell (row i,
column j) has the index i + j*nr."""
from engine.vc import *

P = 'topographic/make_path.py:'
DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']
# the wind of direction d comes from d: rows grow towards the south,
# columns towards the east
STEP = {d: ((1 if 'n' in d else -1 if 's' in d else 0),
            (1 if 'w' in d else -1 if 'e' in d else 0)) for d in DIRS}


def steps(d, i0, j0, nr, nc):
    """number of cells from (i0, j0) to the edge, this one included"""
    di, dj = STEP[d]
    out = []
    if di:
        out.append(sub(nr, i0) if di > 0 else add(i0, 1))
    if dj:
        out.append(sub(nc, j0) if dj > 0 else add(j0, 1))
    return out[0] if len(out) == 1 else smin(*out)
