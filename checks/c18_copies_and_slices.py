"""C18: copies and slices hold the right points and are independent of the original."""
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList, UngriddedData, Metadata
from symx import cubes
from symx.harness import masked_at, val_at

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE]
BOUNDS = {'quick': 'up to 4 points in up to 2 dimensions, 2 or 3 coordinates', 'thorough': 'up to 8 points in up to 3 '
          'dimensions'}
OUTSIDE = 'coordinates shared on purpose by make_new_with_same_coordinates without flattening'
ASSUMPTIONS = []
NAMES = ('latitude', 'time', 'longitude')

KEYS = {1: [slice(None), slice(1, None), slice(None, None, -1), slice(0, 1), slice(None, None, 2), [2, 0], 'mask'],
        2: [slice(None), slice(1, None), (slice(None), 0), (slice(0, 1), slice(None, None, -1)), 0, 'mask', ([1, 0], [0, 1]),
            (Ellipsis, 1)],
        3: [slice(1, None), (slice(None), 0), (0, slice(None), slice(None, None, -1)), 'mask']}


def configs(tier):
    big = tier != 'quick'
    out = []
    shapes = ((3,), (2, 2)) + (((2, 2, 2), (2, 3)) if big else ())
    for lazy in (False, True):
        for shape in shapes:
            for k in range(len(KEYS[len(shape)])):
                for other in ('copy', 'original'):
                    out.append(dict(harness='slices', shape=shape, key=k, lazy=lazy, other=other))
            for op in ('copy', 'list', 'copydata', 'flatten', 'coordlist', 'coord', 'same'):
                for other in ('copy', 'original'):
                    out.append(dict(harness='copies', shape=shape, op=op, lazy=lazy, other=other))
    for op in ('copy', 'list', 'slice', 'copydata'):
        for other in ('copy', 'original'):
            out.append(dict(harness='gcopies', op=op, other=other))
    return out


def make(S, shape, lazy, p=''):
    n = int(np.prod(shape))
    co = {k: S.reals(p + k, n, -1000, 1000) for k in NAMES}
    d = S.reals(p + 'd', n, -100, 100)
    m = S.missing(p + 'm', min(n, 4)) + [False] * max(0, n - 4)
    cl = CoordList([coord(S, k, co[k], shape=shape) for k in NAMES])
    if lazy:
        a = S.marray(d, m, shape)
        obj = UngriddedData([a], Metadata(name='rain', units='1', misc={'note': 'x'}), cl, lambda x: x)
    else:
        obj = ug(S, d, cl, mask=m, shape=shape)
    return obj, co, d, m


def verify(S, obj, shape, idx, co, d, m, where):
    """obj has the points idx (flat numbers, in its order) and that shape"""
    S.check(obj.data.shape == shape and obj.data_flattened.shape == (len(idx),), 'the shape of the data ' + where,
            str(obj.data.shape))
    S.check(tuple(obj.shape) == shape, 'the recorded shape ' + where, str(obj.shape))
    S.check([c.standard_name for c in obj.coords()] == list(NAMES), 'the coordinates ' + where)
    for k, i in enumerate(idx):
        for a in (obj.data.reshape(-1), obj.data_flattened):
            S.check(masked_at(a, k) == m[i], 'missing flags ' + where)
            if not m[i]:
                S.check(S.eq(val_at(a, k), d[i]), 'values ' + where)
    for c in obj.coords():
        S.check(c.data.shape == shape and tuple(c.shape) == shape, 'the shape of the coordinates ' + where)
        for k, i in enumerate(idx):
            S.check(S.eq(c.points.reshape(-1)[k], co[c.standard_name][i]) and
                    S.eq(c.data_flattened[k], co[c.standard_name][i]), 'coordinates of the points ' + where)


def spoil(obj, share_coords=False):
    """change everything of obj in place"""
    d = obj.data
    if isinstance(d, np.ma.MaskedArray):
        d[...] = 7777.
        if d.size:
            d[(0,) * d.ndim] = np.ma.masked
    else:
        d[...] = 7777.
    obj.metadata._name = 'spoilt'
    obj.metadata.long_name = 'spoilt'
    obj.metadata.misc['spoilt'] = 1
    if not share_coords:
        for c in list(obj.coords()):
            c.data[...] = 8888.
            c.metadata._name = 'spoilt'
            c.metadata.misc['spoilt'] = 1


def meta(S, obj, where):
    S.check(obj.var_name == 'rain' and obj.long_name != 'spoilt' and 'spoilt' not in obj.metadata.misc and
            all(c.var_name == c.standard_name and 'spoilt' not in c.metadata.misc for c in obj.coords()),
            'names and attributes ' + where)
    S.check(str(obj.units) == '1', 'units ' + where)


def both(S, cfg, obj, new, sh, idx, args, where, share_coords=False):
    shape = cfg['shape']
    full = list(range(int(np.prod(shape))))
    verify(S, new, sh, idx, *args, where)
    verify(S, obj, shape, full, *args, 'of the original ' + where)
    meta(S, new, where)
    meta(S, obj, 'of the original ' + where)
    if cfg['other'] == 'copy':
        spoil(new, share_coords)
        verify(S, obj, shape, full, *args, 'of the original are unaffected by changes ' + where)
        meta(S, obj, 'of the original are unaffected by changes ' + where)
    else:
        spoil(obj, share_coords)
        verify(S, new, sh, idx, *args, 'are unaffected by changes of the original ' + where)
        meta(S, new, 'are unaffected by changes of the original ' + where)


def slices(S, cfg):
    shape = cfg['shape']
    n = int(np.prod(shape))
    obj, co, d, m = make(S, shape, cfg['lazy'])
    key = KEYS[len(shape)][cfg['key']]
    if isinstance(key, str):
        key = np.array([S.bool('k%d' % i) for i in range(n)]).reshape(shape)
        S.assume(bool(key.any()))
    number = np.arange(n).reshape(shape)[key]
    both(S, cfg, obj, obj[key], number.shape, [int(i) for i in number.ravel()], (co, d, m), '(slice)')


def copies(S, cfg):
    shape, op = cfg['shape'], cfg['op']
    n = int(np.prod(shape))
    obj, co, d, m = make(S, shape, cfg['lazy'])
    full = list(range(n))
    if op == 'copy':
        both(S, cfg, obj, obj.copy(), shape, full, (co, d, m), '(copy)')
    elif op == 'list':
        obj2, co2, d2, m2 = make(S, shape, cfg['lazy'], 'z')
        r = UngriddedDataList([obj, obj2]).copy()
        S.check(len(r) == 2 and isinstance(r, UngriddedDataList), 'a list of as many')
        both(S, cfg, obj, r[0], shape, full, (co, d, m), '(list copy)')
        both(S, cfg, obj2, r[1], shape, full, (co2, d2, m2), '(list copy)')
    elif op == 'copydata':
        e = S.reals('e', n, -100, 100)
        new = obj.copy(data=S.array(e, shape))
        verify(S, new, shape, full, co, e, [False] * n, '(copy with new data)')
        if cfg['other'] == 'copy':
            spoil(new)
            verify(S, obj, shape, full, co, d, m, 'of the original are unaffected by changes (copy with new data)')
            meta(S, obj, 'of the original')
        else:
            spoil(obj)
            verify(S, new, shape, full, co, e, [False] * n, 'are unaffected by changes of the original')
            meta(S, new, '')
    elif op in ('flatten', 'same'):
        e = S.reals('e', n, -100, 100)
        me = [S.bool('me')] + [False] * (n - 1)
        new = obj.make_new_with_same_coordinates(data=S.marray(e, me, shape), var_name='snow', units='m',
                                                 long_name='Snow', flatten=op == 'flatten')
        verify(S, new, (n,) if op == 'flatten' else shape, full, co, e, me, '(same coordinates)')
        S.check(new.var_name == 'snow' and new.long_name == 'Snow' and str(new.units) == 'm', 'names and units as asked for')
        verify(S, obj, shape, full, co, d, m, 'of the original (same coordinates)')
        meta(S, obj, 'of the original (same coordinates)')
        new.data[...] = 7777.
        verify(S, obj, shape, full, co, d, m, 'of the original (same coordinates, data changed)')
        zero = obj.make_new_with_same_coordinates(var_name='snow')
        verify(S, zero, shape, full, co, [0.] * n, [False] * n, '(same coordinates, no data)')
    elif op == 'coordlist':
        a = obj.coords()
        b = CoordList(a).copy()
        if cfg['other'] == 'copy':
            a, b = b, a
        for c in a:
            c.data[...] = 8888.
            c.metadata._name = 'spoilt'
        S.check([c.standard_name for c in b] == list(NAMES), 'the coordinates in order')
        for c in b:
            S.check(c.var_name == c.standard_name and c.data.shape == shape, 'name and shape (coordinate list)')
            S.check(c.axis == {'latitude': 'Y', 'longitude': 'X', 'time': 'T'}[c.standard_name], 'axis (coordinate list)')
            for i in range(n):
                S.check(S.eq(c.points.reshape(-1)[i], co[c.standard_name][i]), 'coordinates are unaffected by changes')
    elif op == 'coord':
        for c in obj.coords():
            for new, key in ((c.copy(), slice(None)), (c[1:], slice(1, None)), (c[::-1], slice(None, None, -1))):
                number = np.arange(n).reshape(shape)[key]
                a, b = (c, new) if cfg['other'] == 'original' else (new, c)
                keep = c.data.copy()
                a.data[...] = 8888.
                idx = number.ravel() if b is new else range(n)
                S.check(b.data.shape == (number.shape if b is new else shape), 'shape of the coordinate')
                for k, i in enumerate(idx):
                    S.check(S.eq(b.points.reshape(-1)[k], co[c.standard_name][int(i)]), 'coordinates are unaffected')
                S.check(new.axis == c.axis and new.standard_name == c.standard_name and str(new.units) == str(c.units),
                        'name, axis and units of the coordinate')
                c.data[...] = keep


def gverify(S, c, rows, vals, mask, lat, lon, where):
    flat = c.data.reshape(-1)
    S.check(c.shape == (len(rows), 2), 'shape ' + where)
    for k, r in enumerate(rows):
        S.check(S.eq(c.coord('latitude').points[k], lat[r]), 'coordinates ' + where)
        for j in (0, 1):
            i = 2 * r + j
            S.check(masked_at(flat, 2 * k + j) == mask[i], 'missing flags ' + where)
            if not mask[i]:
                S.check(S.eq(val_at(flat, 2 * k + j), vals[i]), 'values ' + where)
            S.check(S.eq(c.coord('longitude').points[j], lon[j]), 'coordinates ' + where)
    S.check(c.var_name == 'rain' and type(c).__name__ == 'GriddedData', 'name and kind ' + where)


def gcopies(S, cfg):
    lat, _ = cubes.axis(S, 'lat', 2, -90, 90)
    lon, _ = cubes.axis(S, 'lon', 2, -180, 180)
    d = S.reals('d', 4, -100, 100)
    m = S.missing('m', 4)
    c = cubes.cube(S, d, [cubes.dim(S, 'latitude', lat), cubes.dim(S, 'longitude', lon)], mask=m)
    rows, e, me = [0, 1], d, m
    if cfg['op'] == 'copy':
        new = c.copy()
    elif cfg['op'] == 'list':
        r = cubes.GriddedDataList([c])
        r2 = r.copy() if hasattr(r, 'copy') else r
        S.check(type(r2) is cubes.GriddedDataList and len(r2) == 1, 'a list of gridded data')
        new = r2[0]
        if new is c:           # CubeList.copy is documented by iris as a copy of the cubes
            S.fail('copying a list copies its data')
    elif cfg['op'] == 'copydata':
        e, me = S.reals('e', 4, -100, 100), [False] * 4
        new = c.copy(data=S.array(e, (2, 2)))
    else:
        new, rows = c[1:], [1]
    gverify(S, new, rows, e, me, lat, lon, '(gridded)')
    if cfg['other'] == 'copy':
        new.data[...] = 7777.
        new.coord('latitude').points = S.array([0.5, 0.75][:len(rows)])
        new.var_name = 'spoilt'
        gverify(S, c, [0, 1], d, m, lat, lon, 'of the original are unaffected by changes (gridded)')
    else:
        c.data[...] = 7777.
        c.coord('latitude').points = S.array([0.5, 0.75])
        c.var_name = 'spoilt'
        gverify(S, new, rows, e, me, lat, lon, 'are unaffected by changes of the original (gridded)')


HARNESSES = dict(slices=slices, copies=copies, gcopies=gcopies)
