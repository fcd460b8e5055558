"""C18: a saved multiplier file holds what it was given."""
import re
from engine.vc import *
from engine.values import *
from contracts.gis import *
from contracts.C11 import same
from contracts import netcdf

REG = Registry('C18')
N_ = 'utilities/nctools.py:'
DIRS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
LONG = {'Mz': 'terrain', 'Ms': 'shielding', 'Mt': 'topographic'}


def world(v):
    W = World(v)
    W.install()
    make = netcdf.install(W)
    return W, make


def series(v, name, n):
    f = z3.Function(name, I, R)
    return v.st.new(SeqRec([SymSeg(n, lambda k: f(zi(k)))])), \
        (lambda k: f(zi(k)))


def coordinate(v, st, c, name, n, get):
    v.ensure(st, 'dimension %s' % name, name in c.dims and
             b_and(eq(c.dims[name], n)))
    x = c.vars.get(name)
    v.ensure(st, 'variable of the dimension %s' % name,
             x is not None and x.dims == (name,) and
             netcdf.dtype_ok(name, x.dtype) and x.lsd is None)
    if x is None:
        return
    k = v.int('k_' + name, 0)
    s = st.copy()
    s.assume(lt(k, n))
    a = x.data
    v.ensure(st, 'values of %s' % name, a is not None and a.ndim == 1 and
             eq(a.shape[0], n))
    v.ensure(s, 'values of %s in order' % name,
             same(a.get((k,)), get(k)))
    readable(v, st, x)


def readable(v, st, x):
    v.ensure(st, 'no attribute changes how the values are read',
             not [a for a in x.atts if a in netcdf.READING])
    f = x.fill
    v.ensure(st, 'no possible value stands for missing', True
             if f is None else lt(f, 0))
    v.ensure(st, 'no digit of the values is dropped', x.lsd is None)


@REG.task('nc_create_dim', [N_ + 'nc_create_dim', N_ + 'nc_create_var'])
def create_dim(v):
    W, make = world(v)
    ip, st = v.ip, v.st
    nc = ip.call(make, ['file', 'w'], {}, st)
    n = v.int('n', 1)
    for name, arr in (('lat', False), ('lon', True)):
        vals, get = series(v, name + '_values', n)
        if arr:
            vals = v.st.new(ArrRec((n,), 'f', lambda ix: get(ix[0])))
        atts = ip.call(v.ip.builtins['dict'], [], {}, v.st)
        ip.setitem(v.st, atts, 'units', Opaque('units'))
        v.st, _ = v.call1(v.fn('utilities.nctools', 'nc_create_dim'), nc,
                          name, vals, 'd', atts)
        c = netcdf.Content(W, v, v.st)
        coordinate(v, v.st, c, name, n, get)
        v.ensure(v.st, 'attributes', c.vars[name].atts.get('units') ==
                 Opaque('units') or 'units' in c.vars[name].atts)


@REG.task('nc_create_var', [N_ + 'nc_create_var'])
def create_var(v):
    """values given as an array or a list are stored, all of them"""
    W, make = world(v)
    nc = v.ip.call(make, ['file', 'w'], {}, v.st)
    n = v.int('n', 1)
    W.log(v.st, 'dim', 'lat', n)
    for name, arr in (('Ms', True), ('Mt', False)):
        vals, get = series(v, name + '_values', n)
        if arr:
            vals = v.st.new(ArrRec((n,), 'f', lambda ix: get(ix[0])))
        v.st, _ = v.call1(v.fn('utilities.nctools', 'nc_create_var'), nc,
                          name, ('lat',), 'f', data=vals)
        x = netcdf.Content(W, v, v.st).vars.get(name)
        k = v.int('k', 0)
        s = v.st.copy()
        s.assume(lt(k, n))
        v.ensure(s, 'values of the variable', x is not None and
                 x.data is not None and b_and(
                     eq(x.data.shape[0], n),
                     same(x.data.get((k,)), get(k))))


def pydict(v, d):
    r = v.ip.call(v.ip.builtins['dict'], [], {}, v.st)
    for k, x in d.items():
        v.ip.setitem(v.st, r, k, pydict(v, x) if isinstance(x, dict) else x)
    return r


def layout(v, drop=None, extra=None):
    """two dimensions, a grid and a variable without values"""
    h, w = v.int('rows', 1), v.int('columns', 1)
    lat, la = series(v, 'lat_values', h)
    lon, lo = series(v, 'lon_values', w)
    vals, get = v.arr('values', (h, w), nan=True)
    dims = {0: {'name': 'lat', 'values': lat, 'dtype': 'd', 'atts': {
        'axis': 'Y'}}, 1: {'name': 'lon', 'values': lon, 'dtype': 'd',
                           'atts': {'axis': 'X'}}}
    var = {0: {'name': 'Ms', 'dims': ('lat', 'lon'), 'values': vals,
               'dtype': 'f', 'atts': {'long_name': 'm'}},
           1: {'name': 'crs', 'dims': (), 'values': None, 'dtype': 'i',
               'atts': {'grid_mapping_name': 'g'}}}
    if drop:
        del (dims if drop[0] == 'dimension' else var)[drop[1]][drop[2]]
    if extra:
        extra(var)
    return h, w, la, lo, get, pydict(v, dims), pydict(v, var)


def closed(c):
    if c.closed != 1:
        # it is when nothing refers to it any more
        raise Unsupported('a file that is not closed')


@REG.task('nc_save_grid', [N_ + x for x in (
    'nc_save_grid', 'nc_create_dim', 'nc_create_var')])
def save_grid(v):
    W, make = world(v)
    W.unwritable = v.bool('unwritable')
    h, w, la, lo, get, dims, var = layout(v)
    gatts = pydict(v, {'Abstract': 'a', 'Inputs': 'i'})
    f = v.fn('utilities.nctools', 'nc_save_grid')
    for st, o in v.call(f, 'file.nc', dims, var, datatitle='t',
                        gatts=gatts):
        if o[0] == 'raise':
            v.ensure(st, 'an error only if the file cannot be created',
                     b_and(W.unwritable, o[1].cls in ('IOError',
                                                      'OSError')))
            continue
        v.ensure(st, 'no file that cannot be created', b_not(W.unwritable))
        c = netcdf.Content(W, v, st)
        v.ensure(st, 'one file', [x[0] for x in c.files] == ['file.nc'] and
                 c.files[0][1] == 'w' and c.closed < 2)
        closed(c)
        coordinate(v, st, c, 'lat', h, la)
        coordinate(v, st, c, 'lon', w, lo)
        grid(v, st, c, 'Ms', h, w, get)
        v.ensure(st, 'attributes of the variables', c.vars['Ms'].atts == {
            'long_name': 'm'} and c.vars['crs'].atts == {
                'grid_mapping_name': 'g'})
        v.ensure(st, 'attributes of the file', c.gatts == {
            'Abstract': 'a', 'Inputs': 'i', 'title': 't'})


def grid(v, st, c, name, h, w, get):
    x = c.vars.get(name)
    v.ensure(st, 'variable of the multiplier', x is not None and x.dims == (
        'lat', 'lon') and netcdf.dtype_ok(name, x.dtype))
    if x is None:
        return
    a = x.data
    v.ensure(st, 'every value', a is not None and a.ndim == 2 and b_and(
        eq(a.shape[0], h), eq(a.shape[1], w)))
    i, j = v.int('i', 0), v.int('j', 0)
    s = st.copy()
    s.assume(b_and(lt(i, h), lt(j, w)))
    v.ensure(s, 'values unchanged and in order, NaN staying NaN',
             same(a.get((i, j)), get(i, j)))
    readable(v, st, x)
    x = c.vars.get('crs')
    v.ensure(st, 'coordinate reference variable', x is not None and
             x.dims == () and x.data is None)


MISSING = ['%s %d: %s' % (k, n, key) for k, keys in (
    ('dimension', ('name', 'values', 'dtype', 'atts')),
    ('variable', ('name', 'values', 'dtype', 'dims', 'atts')))
    for n in (0, 1) for key in keys]


@REG.task('nc_save_grid without', [N_ + 'nc_save_grid'], params=MISSING)
def rejected(v, case):
    W, make = world(v)
    k, n, key = re.match(r'(\w+) (\d): (\w+)', case).groups()
    h, w, la, lo, get, dims, var = layout(v, (k, int(n), key))
    outs = v.call(v.fn('utilities.nctools', 'nc_save_grid'), 'file.nc',
                  dims, var)
    v.ensure(v.st, 'one outcome', len(outs) >= 1)
    for st, o in outs:
        v.ensure(st, 'a missing key is an error', o[0] == 'raise' and
                 o[1].cls == 'KeyError')


@REG.task('nc_save_grid mismatch', [N_ + 'nc_save_grid'], params=[
    '%d names, %d dimensions' % (a, b) for a in range(4) for b in range(4)
    if a != b])
def mismatch(v, case):
    W, make = world(v)
    a, b = [int(x) for x in re.findall(r'\d', case)]

    def change(var):
        var[0]['dims'] = tuple(('lat', 'lon', 'lat')[:a])
        var[0]['values'] = v.arr('other', tuple(
            v.int('n%d' % i, 1) for i in range(b)))[0] if b else \
            v.st.new(ArrRec((), 'f', lambda ix: Fraction(1)))
    h, w, la, lo, get, dims, var = layout(v, extra=change)
    outs = v.call(v.fn('utilities.nctools', 'nc_save_grid'), 'file.nc',
                  dims, var)
    v.ensure(v.st, 'one outcome', len(outs) >= 1)
    for st, o in outs:
        v.ensure(st, 'a mismatch is an error', o[0] == 'raise' and
                 o[1].cls == 'ValueError')


@REG.task('save_multiplier', [N_ + x for x in (
    'save_multiplier', 'nc_save_grid', 'nc_create_dim', 'nc_create_var')],
    params=['%s %s' % (m, d) for m in sorted(LONG) for d in DIRS])
def save(v, case):
    name, d = case.split()
    W, make = world(v)
    ip = v.ip
    h, w = v.int('rows', 1), v.int('columns', 1)
    lat, la = series(v, 'lat_values', h)
    lon, lo = series(v, 'lon_values', w)
    vals, get = v.arr('values', (h, w), nan=True)
    opt = {('inputValues', 'terrain_data'): Opaque('terrain_data'),
           ('inputValues', 'dem_data'): Opaque('dem_data')}

    def cget(ip, st, a, k):
        return opt.get((a[0], a[1]), ip.opaque_str())
    tab = {'get': nat('config.get', cget),
           'sections': nat('sections', lambda ip, st, a, k: v_list(
               st, ['inputValues', 'Parameters'])),
           'options': nat('options', lambda ip, st, a, k: v_list(st, {
               'inputValues': ['terrain_data', 'dem_data'],
               'Parameters': ['upwind_length']}[a[0]]))}
    ip.assumed.add('configuration options become attributes of the file '
                   'named section_option (modelled by three options)')
    ip.libs['subprocess'] = ModuleVal('subprocess', None, {
        n: nat('subprocess.' + n, lambda ip, st, a, k: Opaque('git'))
        for n in ('check_output', 'run', 'getoutput')})
    ip.libs['getpass'] = ModuleVal('getpass', None, {
        'getuser': nat('getuser', lambda ip, st, a, k: Opaque('user'))})
    ip.contracts['utilities/files.py:fl_program_version'] = Contract(
        lambda ip, st, *a: Opaque('version'))
    v.setmod('utilities.nctools', 'config', NObj('config', tab.get))
    path = sstr(SymStr([Atom('folder')]), '/', SymStr([Atom(
        'tile', '/.')]), '_%s_%s.nc' % (name.lower(), d))
    outs = v.outcomes(v.fn('utilities.nctools', 'save_multiplier'), name,
                      vals, lat, lon, path)
    for st, _ in outs:
        c = netcdf.Content(W, v, st)
        v.ensure(st, 'one file under the path given', len(c.files) == 1 and
                 str_eq(c.files[0][0], path) is True and
                 c.files[0][1] == 'w' and c.closed < 2)
        closed(c)
        coordinate(v, st, c, 'lat', h, la)
        coordinate(v, st, c, 'lon', w, lo)
        grid(v, st, c, name, h, w, get)
        v.ensure(st, 'no other multiplier', sorted(c.vars) == sorted(
            ['lat', 'lon', 'crs', name]))
        reference(v, st, c, name)
        t = c.gatts.get('Abstract')
        if not isinstance(t, str):
            raise Unsupported('abstract')
        v.ensure(st, 'direction of the file in the metadata', re.findall(
            r'\b(ne|nw|se|sw|n|s|e|w)\b', t) == [d])
        v.ensure(st, 'multiplier in the metadata', [
            k for k in LONG.values() if k in t] == [LONG[name]])
        wd = W.events(st, 'chdir')
        v.ensure(st, 'the working directory is restored', not wd or
                 wd[-1].args[0] == '/cwd')


def reference(v, st, c, name):
    """latitudes and longitudes on the ellipsoid of the elevation model
    (WGS 84 or GRS 80)"""
    if not {name, 'crs', 'lat', 'lon'} <= set(c.vars):
        return
    a = c.vars['crs'].atts
    v.ensure(st, 'the multiplier names the reference variable',
             c.vars[name].atts.get('grid_mapping') == 'crs')
    v.ensure(st, 'geographic coordinates', a.get('grid_mapping_name') ==
             'latitude_longitude')
    for k, want in (('semi_major_axis', 6378137),
                    ('inverse_flattening', Fraction('298.2572')),
                    ('longitude_of_prime_meridian', 0)):
        x = norm(a.get(k))
        if not isinstance(x, (int, float, Fraction)):
            raise Unsupported(k)
        v.ensure(st, k, abs(Fraction(x) - want) < Fraction(1, 10000))
    for n, words in (('lat', ('degrees_north', 'latitude', 'Y')),
                     ('lon', ('degrees_east', 'longitude', 'X'))):
        b = c.vars[n].atts
        v.ensure(st, 'meaning of ' + n, tuple(b.get(k) for k in (
            'units', 'standard_name', 'axis')) == words)


def v_list(st, items):
    return st.new(SeqRec([Items(list(items))]))
