"""Assumed contract of netCDF4.Dataset: calls are recorded in the order they
are made, a closed file holds what the calls put there."""
from engine.vc import *
from engine.values import *
from contracts.gis import nat

# attributes which change how the stored numbers are read
READING = ('scale_factor', 'add_offset', 'valid_min', 'valid_max',
           'valid_range', 'missing_value', '_FillValue', '_Unsigned')
WIDE = {'lat': ('d', 'f8', 'float64'), 'lon': ('d', 'f8', 'float64')}
FLOAT = ('f', 'f4', 'float32', 'd', 'f8', 'float64')


def install(W):
    """netCDF4.Dataset with its effects in the trace of W"""
    ip = W.ip

    def entries(st, d):
        r = st.heap[d.id] if isinstance(d, Ref) else None
        if not isinstance(r, DictRec):
            raise Unsupported('attributes')
        return tuple(r.d.items())

    def var(st, name, dtype):
        def store(ip, st, a, k):
            W.log(st, 'data', name, a[-2], a[-1])

        def atts(ip, st, a, k):
            W.log(st, 'atts', name, entries(st, a[0]))

        def att(ip, st, a, k):
            W.log(st, 'atts', name, ((a[0], a[1]),))
        tab = {'__setitem__': nat('Variable[]=', store),
               'setncatts': nat('setncatts', atts),
               'setncattr': nat('setncattr', att)}
        return NObj('Variable', lambda n: tab.get(n))

    def dataset(ip, st, args, kw):
        mode = kw.get('mode', args[1] if len(args) > 1 else 'r')
        ip.assumed.add('netCDF4: a closed file holds the dimensions, '
                       'variables, values and attributes it was given')
        if W.unwritable is not None:
            ip.raise_unless(st, b_not(W.unwritable), 'OSError')
        W.log(st, 'file', args[0], mode)

        def dim(ip, st, a, k):
            W.log(st, 'dim', a[0], k.get('size', a[1] if len(a) > 1
                                         else None))

        def variable(ip, st, a, k):
            a = list(a)
            dims = k.get('dimensions', a[2] if len(a) > 2 else ())
            if len(a) > 3:
                raise Unsupported('createVariable')
            W.log(st, 'var', a[0], a[1] if len(a) > 1 else k['datatype'],
                  tuple(ip.concrete_items(st, dims)),
                  k.get('fill_value'), k.get('least_significant_digit'))
            return var(st, a[0], a[1])

        def atts(ip, st, a, k):
            W.log(st, 'gatts', entries(st, a[0]))

        def att(ip, st, a, k):
            W.log(st, 'gatts', ((a[0], a[1]),))

        def close(ip, st, a, k):
            W.log(st, 'close')
        tab = {'createDimension': nat('createDimension', dim),
               'createVariable': nat('createVariable', variable),
               'setncatts': nat('setncatts', atts),
               'setncattr': nat('setncattr', att),
               'sync': nat('sync', lambda ip, st, a, k: None),
               'close': nat('close', close)}
        return NObj('Dataset', lambda n: tab.get(n))
    ip.libs['netCDF4'] = ModuleVal('netCDF4', None, {
        'Dataset': nat('netCDF4.Dataset', dataset)})
    W.unwritable = None
    return nat('Dataset', dataset)


class Var(object):
    def __init__(self, dtype, dims, fill, lsd):
        self.dtype, self.dims, self.fill, self.lsd = dtype, dims, fill, lsd
        self.data, self.atts = None, {}


class Content(object):
    """what a recorded file holds"""

    def __init__(self, W, v, st):
        self.dims, self.vars, self.gatts, self.order = {}, {}, {}, []
        self.files, self.closed = [], 0
        ev = W.events(st, 'file', 'dim', 'var', 'data', 'atts', 'gatts',
                      'close')
        if ev is None:
            raise Unsupported('number of calls differs between paths')
        for e in ev:
            a = e.args
            if self.closed:
                raise Unsupported('%s after closing' % e.name)
            if e.name == 'file':
                self.files.append(a)
            elif e.name == 'dim':
                self.dims[a[0]] = a[1]
            elif e.name == 'var':
                ok = all(d in self.dims for d in a[2])
                v.ensure(st, 'dimensions exist before their variables', ok)
                self.vars[a[0]] = Var(*a[1:])
            elif e.name == 'data':
                if not whole(a[1]):
                    raise Unsupported('part of a variable')
                self.vars[a[0]].data = a[2]
            elif e.name == 'atts':
                self.vars[a[0]].atts.update(dict(a[1]))
            elif e.name == 'gatts':
                self.gatts.update(dict(a[0]))
            else:
                self.closed += 1


def whole(ix):
    if ix is Ellipsis:
        return True
    if isinstance(ix, tuple):
        return all(whole(i) for i in ix)
    return isinstance(ix, slice) and ix == slice(None, None, None)


def dtype_ok(name, t):
    """can the type hold the values"""
    t = t if isinstance(t, str) else getattr(t, 'name', None)
    if t is None:
        raise Unsupported('type of a variable')
    return t in WIDE.get(name, FLOAT)
