from common import *
import os
import re
import tiles
from tiles import DIRS
from netCDF4 import Dataset
from utilities import nctools
from utilities.nctools import save_multiplier, nc_save_grid, nc_create_var

LONG = {'Mz': 'terrain', 'Ms': 'shielding', 'Mt': 'topographic'}
NONE = -9999


def grid(r, h, w, k):
    a = r.uniform(.5, 2, (h, w)).astype(np.float32)
    if k % 3 == 1:
        a[r.rand(h, w) < .3] = np.nan
    if k % 3 == 2:
        a[r.rand(h, w) < .2] = 1.
    if k % 11 == 5:
        a[:] = np.nan
    if k % 7 == 3:
        a[r.rand(h, w) < .2] = 0.
    return a


def unchanged(h, what, got, want, desc):
    got = np.ma.getdata(got) if not np.ma.is_masked(got) else got
    if np.ma.is_masked(got):
        return h.fail(what + ' read as missing', desc)
    if np.shape(got) != np.shape(want):
        return h.fail(what + ': another shape', dict(
            desc, shape=np.shape(got)))
    if not np.array_equal(np.asarray(got, float), np.asarray(want, float),
                          equal_nan=True):
        bad = np.argwhere(~((np.asarray(got) == np.asarray(want)) | (
            np.isnan(got) & np.isnan(want))))[0]
        return h.fail(what + ' changed', dict(
            desc, at=bad, read=np.asarray(got)[tuple(bad)],
            given=np.asarray(want)[tuple(bad)]))


def read(h, path, name, lat, lon, vals, desc):
    ds = Dataset(path)
    try:
        for n, want in (('lat', lat), ('lon', lon), (name, vals)):
            if n not in ds.variables:
                return h.fail('no variable ' + n, desc)
            unchanged(h, n, ds.variables[n][:], want, desc)
        v = ds.variables[name]
        if v.dimensions != ('lat', 'lon'):
            return h.fail('dimensions %s' % (v.dimensions,), desc)
        if 'crs' not in ds.variables:
            return h.fail('no coordinate reference variable', desc)
        if LONG.get(name) and desc.get('file'):
            ref = ds.variables.get(getattr(v, 'grid_mapping', ''))
            if getattr(ref, 'grid_mapping_name', '') != \
                    'latitude_longitude' or abs(getattr(
                        ref, 'semi_major_axis', 0) - 6378137) > 1:
                return h.fail('the multiplier has no coordinate reference',
                              desc)
            if [getattr(ds.variables[n], 'units', '') for n in (
                    'lat', 'lon')] != ['degrees_north', 'degrees_east']:
                return h.fail('units of the coordinates', desc)
        other = set(ds.variables) & (set(LONG) - {name})
        if other:
            return h.fail('another multiplier %s' % other, desc)
    finally:
        ds.close()


def files(h):
    r = h.rng
    d = tiles.folder()
    n = 0
    for rep in range(20 if h.thorough else 2):
        for name in LONG:
            for dr in DIRS:
                if not h.more():
                    return tiles.drop(d)
                n += 1
                ny, nx = int(r.randint(1, 12)), int(r.randint(1, 12))
                vals = grid(r, ny, nx, n)
                lat = [-20. - .00027777 * k * r.uniform(1, 1.00001)
                       for k in range(ny)]
                lon = [140.12345678 + .00027777 * k for k in range(nx)]
                if n % 2:
                    lat, lon = np.array(lat), np.array(lon)
                tile = ['tile_1', 'w139.1s25.2', 'x', 'e144.0_n'][n % 4]
                path = os.path.join(d, '%s_%s_%s.nc' % (
                    tile, name.lower(), dr))
                desc = {'multiplier': name, 'file': os.path.basename(path),
                        'rows': ny, 'columns': nx, 'values': vals}
                h.case({'file': desc['file'], 'shape': (ny, nx)})
                keep = vals.copy()
                cwd = os.getcwd()
                _, err = h.call(save_multiplier, name, vals, lat, lon, path)
                if os.getcwd() != cwd:
                    os.chdir(cwd)
                    return h.fail('the working directory is changed', desc)
                if err:
                    return h.fail('save_multiplier raises ' + err, desc)
                if not os.path.exists(path):
                    return h.fail('no file under the path', desc)
                read(h, path, name, lat, lon, keep, desc)
                ds = Dataset(path)
                t = str(getattr(ds, 'Abstract', ''))
                ds.close()
                if re.findall(r'\b(ne|nw|se|sw|n|s|e|w)\b', t) != [dr] or \
                        LONG[name] not in t:
                    return h.fail('metadata: %r' % t, desc)
                os.remove(path)
    tiles.drop(d)


def layout(r, ny, nx):
    lat, lon = np.arange(ny) * .1 - 20, np.arange(nx) * .1 + 140
    vals = r.uniform(.5, 2, (ny, nx)).astype('f')
    return {0: {'name': 'lat', 'values': lat, 'dtype': 'd', 'atts': {}},
            1: {'name': 'lon', 'values': lon, 'dtype': 'd', 'atts': {}}}, \
        {0: {'name': 'Ms', 'dims': ('lat', 'lon'), 'values': vals,
             'dtype': 'f', 'atts': {'long_name': 'm'}},
         1: {'name': 'crs', 'dims': (), 'values': None, 'dtype': 'i',
             'atts': {'grid_mapping_name': 'g'}}}, lat, lon, vals


def rejected(h):
    r = h.rng
    d = tiles.folder()
    path = os.path.join(d, 'x.nc')
    dims, var, lat, lon, vals = layout(r, 3, 4)
    _, err = h.call(nc_save_grid, path, dims, var)
    if err:
        return h.fail('nc_save_grid raises ' + err, {})
    read(h, path, 'Ms', lat, lon, vals, {'call': 'nc_save_grid'})
    given = {'Abstract': 'one\ntwo', 'Place': 'Perth', 'Number': 3}
    for title in (None, 'A title', 'title'):
        dims, var, lat, lon, vals = layout(r, 3, 4)
        desc = {'title': title, 'attributes': given}
        h.case(desc)
        _, err = h.call(nc_save_grid, path, dims, var, datatitle=title,
                        gatts=dict(given))
        if err:
            return h.fail('nc_save_grid raises ' + err, desc)
        read(h, path, 'Ms', lat, lon, vals, desc)
        ds = Dataset(path)
        got = {k: ds.getncattr(k) for k in ds.ncattrs()}
        ds.close()
        want = dict(given, title=title) if title else given
        if any(got.get(k) != want[k] for k in want) or (
                'title' in got and not title):
            return h.fail('attributes of the file', dict(
                desc, got={k: str(got[k]) for k in got}))
    for kind in (0, 1):
        for n in (0, 1):
            for key in ('name', 'values', 'dtype', 'atts', 'dims')[
                    :4 + kind]:
                dims, var, lat, lon, vals = layout(r, 3, 4)
                del (dims, var)[kind][n][key]
                desc = {'dictionary': ('dimensions', 'variables')[kind],
                        'entry': n, 'missing': key}
                h.case(desc)
                _, err = h.call(nc_save_grid, path, dims, var)
                if err is None:
                    return h.fail('written without an error', desc)
    for names in range(4):
        for nd in range(4):
            if names == nd or not h.more():
                continue
            dims, var, lat, lon, vals = layout(r, 2, 2)
            var[0]['dims'] = ('lat', 'lon', 'lat')[:names]
            var[0]['values'] = np.ones((2,) * nd)
            desc = {'names': names, 'dimensions of the values': nd}
            h.case(desc)
            _, err = h.call(nc_save_grid, path, dims, var)
            if err is None:
                return h.fail('written without an error', desc)
            dims, var, lat, lon, vals = layout(r, 2, 2)
    _, err = h.call(nc_save_grid, os.path.join(d, 'no', 'x.nc'), *layout(
        r, 2, 2)[:2])
    if err is None:
        return h.fail('a file in no folder is no error', {})
    tiles.drop(d)


def variable(h):
    d = tiles.folder()
    for n, data in enumerate(([0.], [1., 2.], np.array([0.]),
                              np.array([1., np.nan, 0.]))):
        path = os.path.join(d, 'v%d.nc' % n)
        desc = {'data': data}
        h.case(desc)
        ds = Dataset(path, 'w', format='NETCDF3_CLASSIC')
        ds.createDimension('x', len(data))
        _, err = h.call(nc_create_var, ds, 'a', ('x',), 'd', data=data)
        ds.close()
        if err:
            return h.fail('nc_create_var raises ' + err, desc)
        ds = Dataset(path)
        unchanged(h, 'a', ds.variables['a'][:], data, desc)
        ds.close()
    tiles.drop(d)


try:
    main(files, rejected, variable)
finally:
    import shutil
    shutil.rmtree(tiles.ROOT, ignore_errors=True)
