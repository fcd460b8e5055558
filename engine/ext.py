"""Contracts of scipy filters and other libraries (assumed)."""
from fractions import Fraction
from .terms import *
from .values import *
from .lib import arg, mkarr, need_array, mksum2


def inside(idx, shape):
    c = True
    for i, n in zip(idx, shape):
        c = b_and(c, ge(i, 0), lt(i, n))
    return c


def nd_convolve(ip, st, args, kw):
    """ndimage.convolve: out[x] = sum_k w[k] im[x + c - k], c = n // 2"""
    im = need_array(ip, st, args[0])
    w = need_array(ip, st, args[1])
    out = arg(args, kw, 2, 'output')
    mode = arg(args, kw, 3, 'mode', 'reflect')
    cval = arg(args, kw, 4, 'cval', Fraction(0))
    if im.ndim != 2 or w.ndim != 2 or out is not None or mode != 'constant':
        raise Unsupported('ndimage.convolve variant')
    if set(kw) - {'mode', 'cval', 'weights'} or im.kind != 'f':
        raise Unsupported('ndimage.convolve options')
    n0, n1 = w.shape
    c0, c1 = ip.idiv(st, n0, 2), ip.idiv(st, n1, 2)
    nan_cells = isinstance(im.get((z3.Int('nz!0'), z3.Int('nz!1'))), FN)

    def cell(x, y):
        v = im.get((x, y))
        v = ite(inside((x, y), im.shape), v, tofloat(cval))
        return v

    def get(ix):
        i, j = ix
        a, b = z3.Int('cv!%d' % Ref().id), z3.Int('cv!%d' % Ref().id)
        x, y = sub(add(i, c0), a), sub(add(j, c1), b)
        v = cell(x, y)
        val = v.v if isinstance(v, FN) else v
        s = mksum2(n0, n1, a, b, mul(w.get((a, b)), val))
        if not nan_cells:
            return s
        bad = mksum2(n0, n1, a, b, ite(isnan(v), Fraction(1), Fraction(0)))
        return FN(s, gt(bad, 0))
    ip.assumed.add('scipy.ndimage.convolve (mode constant): weighted sum '
                   'over the flipped window, cval outside; NaN wherever the '
                   'window meets NaN')
    return mkarr(st, im.shape, 'f', get)


def nd_sobel(ip, st, args, kw):
    im = need_array(ip, st, args[0])
    axis = norm(arg(args, kw, 1, 'axis', -1))
    mode = arg(args, kw, 3, 'mode', 'reflect')
    if im.ndim != 2 or im.kind != 'f' or mode not in (
            'reflect', 'nearest') or set(kw) - {'axis', 'mode'}:
        raise Unsupported('ndimage.sobel variant')
    if axis == -1:
        axis = 1
    ip.assumed.add('scipy.ndimage.sobel: [-1 0 1] along the axis, [1 2 1] '
                   'across it, edge cells mirrored; NaN if any of the nine '
                   'cells is NaN')

    def clip(i, n):
        return ite(lt(i, 0), 0, ite(ge(i, n), sub(n, 1), i))

    def get(ix):
        i, j = ix
        r, nan = Fraction(0), False
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                v = im.get((clip(add(i, a), im.shape[0]),
                            clip(add(j, b), im.shape[1])))
                nan = b_or(nan, isnan(v))
                v = v.v if isinstance(v, FN) else v
                d, o = (a, b) if axis == 0 else (b, a)
                r = add(r, mul(Fraction(d * (2 if o == 0 else 1)), v))
        return mkfn(r, nan)
    return mkarr(st, im.shape, 'f', get)


def sg_convolve(ip, st, args, kw):
    """signal.convolve(a, g, mode='same') with a small fixed window"""
    a = need_array(ip, st, args[0])
    g = need_array(ip, st, args[1])
    mode = arg(args, kw, 2, 'mode', 'full')
    ks = [norm(n) for n in g.shape]
    if mode != 'same' or a.ndim != len(ks) or a.ndim > 2 or not all(
            isinstance(n, int) and 0 < n <= 7 for n in ks):
        raise Unsupported('signal.convolve variant')
    ip.assumed.add('scipy.signal.convolve (mode same): sum over the flipped '
                   'window, zero outside, NaN wherever the window meets NaN')
    import itertools as it

    def get(ix):
        r, nan = Fraction(0), False
        for p in it.product(*[range(n) for n in ks]):
            q = tuple(sub(add(i, (n - 1) // 2), k)
                      for i, k, n in zip(ix, p, ks))
            v = a.get(q)
            ins = inside(q, a.shape)
            nan = b_or(nan, b_and(ins, isnan(v)))
            v = tofloat(v.v if isinstance(v, FN) else v)
            r = add(r, mul(g.get(p), ite(ins, v, Fraction(0))))
        return mkfn(r, nan)
    return mkarr(st, a.shape, 'f', get)


def b_globals(ip, st, args, kw):
    fr = st.frames[st.cur]
    while fr.get('#parent') is not None:
        fr = st.frames[fr['#parent']]
    return st.new(DictRec({k: v for k, v in fr.items() if k[0] != '#'}))


def install(ip):
    nd = ModuleVal('scipy.ndimage', None, {
        'convolve': Native('scipy.ndimage.convolve', nd_convolve),
        'sobel': Native('scipy.ndimage.sobel', nd_sobel)})
    sg = ModuleVal('scipy.signal', None, {
        'convolve': Native('scipy.signal.convolve', sg_convolve)})
    ip.libs['scipy.ndimage'] = nd
    ip.libs['scipy.signal'] = sg
    ip.libs['scipy'] = ModuleVal('scipy', None, {'ndimage': nd,
                                                 'signal': sg})
    ip.builtins['globals'] = Native('globals', b_globals)
