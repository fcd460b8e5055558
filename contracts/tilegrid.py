"""TileGrid under contract: a grid built from an arbitrary raster."""
from engine.vc import *
from engine.values import *
from contracts.gis import *

A = 'all_multipliers.py:'
GRID = [A + 'TileGrid.__init__', A + 'TileGrid.tile_grid',
        A + 'TileGrid.get_gridlimit', A + 'TileGrid.get_gridlimit_buffer']


class Grid(object):
    """a symbolic raster and the TileGrid the code builds from it"""

    def __init__(self, v):
        self.v = v
        W = self.W = World(v)
        W.install()
        self.nx, self.ny = v.int('x_dim', 1), v.int('y_dim', 1)
        self.pw, self.ph = v.real('pixelwidth'), v.real('pixelheight')
        v.pre(gt(self.pw, 0))
        v.pre(gt(self.ph, 0))
        self.x, self.y = v.real('x_left'), v.real('y_top')
        self.up = v.real('upwind_length', 0)
        v.name_floors(['x_dim', 'y_dim', 'pixelwidth', 'pixelheight',
                       'upwind_length'])
        W.dataset('raster', self.nx, self.ny, (self.x, self.pw, self.y,
                                               self.ph), path='raster')
        W.exist.append(('raster', True))
        self.mod = v.module('all_multipliers')
        cls = v.fn('all_multipliers', 'TileGrid')
        st, self.tg = v.call1(cls, self.up, 'raster')
        self.st = st
        v.st = st
        # the spec: cells of a tile, whole cells of the upwind length
        self.xs = ceil_int(truediv(1, self.pw))
        self.ys = ceil_int(truediv(1, self.ph))
        self.bx = trunc_int(truediv(self.up, self.pw))
        self.by = trunc_int(truediv(self.up, self.ph))
        self.N = ceil_int(truediv(self.nx, self.xs))
        self.M = ceil_int(truediv(self.ny, self.ys))

    def num(self):
        return self.v.ip.getattr(self.st, self.tg, 'num_tiles')

    def method(self, name, *args):
        ip = self.v.ip
        st, r = self.v.call1(ip.getattr(self.st, self.tg, name), *args)
        return st, r

