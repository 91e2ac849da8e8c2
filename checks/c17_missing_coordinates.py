"""C17: points with a missing coordinate are removed, consistently, from data and coordinates."""
import numpy as np
from symx.build import quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList, UngriddedCoordinates, UngriddedData, \
    Metadata, UNITS, AXIS
from cis.data_io.Coord import Coord
from symx.harness import masked_at, val_at

quiet_metadata()
STUBS = [STUB_NOTE]
BOUNDS = {'quick': 'up to 4 points in one or two dimensions, up to 3 coordinates; each coordinate value may be present, '
                   'NaN or masked', 'thorough': 'up to 5 points'}
OUTSIDE = 'two data objects made from one list of coordinates which still has missing values'
ASSUMPTIONS = ['coordinate values are concrete (distinct) numbers; whether each is present, NaN or masked is decided '
               'by the solver, as are the data values and missing flags']


def configs(tier):
    big = tier != 'quick'
    out = []
    for kind in ('array', 'lazy', 'lazy-two', 'coords', 'coords-lazy'):
        for shape in ((1,), (2,), (3,), (2, 2)) + (((2, 1, 2), (5,)) if big else ()):
            n = int(np.prod(shape))
            if kind == 'lazy-two' and shape[0] < 2:
                continue
            for who in ('lat', 'time', 'two') + (('object',) if len(shape) == 1 else ()):
                if who == 'two' and n > 2 and not big:
                    continue
                out.append(dict(harness='remove', kind=kind, shape=shape, who=who, _w=n))
    for shape in ((2,), (3,)) + (((4,),) if big else ()):
        for how in ('coords', 'coord', 'points', 'find', 'subset', 'frame', 'copy', 'slice'):
            out.append(dict(harness='later', shape=shape, how=how))
    return out


NAMES = ('latitude', 'longitude', 'time')


def flags(S, name, n, nan=True):
    opts = ['ok', 'nan', 'masked'] if nan else ['ok', 'masked']
    return [S.choice('%s%d' % (name, i), opts) for i in range(n)]


def mk(name, base, fl, shape, lazy=False, obj=False):
    import datetime
    v = [float('nan') if f == 'nan' else base + i for i, f in enumerate(fl)]
    if obj:
        a = np.array([datetime.datetime(2000, 1, 1 + i) for i in range(len(fl))], dtype=object).reshape(shape)
    else:
        a = np.array(v, dtype=float).reshape(shape)
    if 'masked' in fl:
        a = np.ma.array(a, mask=np.array([f == 'masked' for f in fl]).reshape(shape))
    meta = Metadata(name=name, standard_name=name, units='DateTime Object' if obj else UNITS[name], shape=shape)
    if lazy:
        return Coord([a], meta, AXIS[name], lambda m: m)
    return Coord(a, meta, AXIS[name])


def expect(S, obj, keep, d, m, base, shape, where):
    n = len(keep)
    idx = [i for i in range(n) if keep[i]]
    full = len(idx) == n
    want_shape = shape if full else (len(idx),)
    cs = obj.coords()
    S.check([c.standard_name for c in cs] == list(NAMES), 'the coordinates are kept ' + where)
    for c in cs:
        S.check(c.data.shape == want_shape, 'all coordinates have the shape of the remaining points ' + where)
        if d is not None or not full:
            S.check(tuple(c.shape) == want_shape, 'the recorded shape is that of the remaining points ' + where,
                    str(c.shape))
        S.check(not np.ma.is_masked(c.data), 'no remaining coordinate is missing ' + where)
        f = np.ma.getdata(c.data).ravel()
        g = np.ma.getdata(c.data_flattened)
        S.check(g.shape == (len(idx),), 'flattened coordinates ' + where)
        for k, i in enumerate(idx):
            if c.data.dtype != object:
                S.check(f[k] == base[c.standard_name] + i, 'every remaining point keeps its coordinates ' + where)
                S.check(g[k] == base[c.standard_name] + i, 'every remaining point keeps its coordinates (flat) ' + where)
            else:
                S.check(f[k].day == 1 + i, 'every remaining point keeps its time ' + where)
    S.check(obj.size == len(idx), 'the size is the number of remaining points ' + where)
    if d is None:
        S.check(obj.count() == len(idx), 'count ' + where)
    else:
        S.check(obj.data.shape == want_shape and tuple(obj.shape) == want_shape, 'the shape of the data ' + where)
        S.check(obj.count() == sum(1 for i in idx if not m[i]), 'the number of non-missing points ' + where)
        for arr, what in ((obj.data.reshape(-1), 'data'), (obj.data_flattened, 'flattened data')):
            S.check(arr.shape == (len(idx),), what + ' has one value per remaining point ' + where)
            for k, i in enumerate(idx):
                S.check(masked_at(arr, k) == m[i], what + ' keeps its missing flags ' + where)
                if not m[i]:
                    S.check(S.eq(val_at(arr, k), d[i]), what + ' keeps its values ' + where)
    pts = list(obj.get_all_points())
    S.check(len(pts) == len(idx), 'one point view entry per remaining point ' + where)
    for k, i in enumerate(idx):
        S.check(pts[k].latitude == base['latitude'] + i, 'point views ' + where)
        if d is not None and not m[i]:
            S.check(S.eq(pts[k].val[0], d[i]), 'point views ' + where)
    if d is not None:
        S.check(len(list(obj.get_non_masked_points())) == sum(1 for i in idx if not m[i]), 'non-missing points ' + where)


BASE = {'latitude': 10., 'longitude': 100., 'time': 1000.}


def remove(S, cfg):
    shape, kind, who = cfg['shape'], cfg['kind'], cfg['who']
    n = int(np.prod(shape))
    fl = {k: ['ok'] * n for k in NAMES}
    if who == 'lat':
        fl['latitude'] = flags(S, 'lat', n)
    elif who == 'time':
        fl['time'] = flags(S, 'time', n)
    elif who == 'object':
        fl['time'] = flags(S, 'time', n, nan=False)
    else:
        fl['latitude'] = flags(S, 'lat', n)
        fl['longitude'] = flags(S, 'lon', n, nan=n < 3)
    keep = [all(fl[k][i] == 'ok' for k in NAMES) for i in range(n)]
    cl = CoordList([mk(k, BASE[k], fl[k], shape, lazy=kind == 'coords-lazy', obj=who == 'object' and k == 'time')
                    for k in NAMES])
    if kind.startswith('coords'):
        obj, d, m = UngriddedCoordinates(cl), None, None
    else:
        d = S.reals('d', n, -100, 100)
        m = S.missing('m', n) if n <= 2 or (who == 'lat' and n == 3) else [S.bool('m0')] + [False] * (n - 1)
        a = S.marray(d, m, shape) if any(m) else S.array(d, shape)
        meta = Metadata(name='rain', units='1', shape=None)
        if kind == 'array':
            obj = UngriddedData(a, meta, cl)
        elif kind == 'lazy':
            obj = UngriddedData([a], meta, cl, lambda x: x)
        else:
            obj = UngriddedData([a[:1], a[1:]], meta, cl, lambda x: x)
    if S.bool('datafirst') and d is not None:
        obj.data
    expect(S, obj, keep, d, m, BASE, shape, '(%s)' % kind)
    expect(S, obj, keep, d, m, BASE, shape, '(%s, again)' % kind)


def later(S, cfg):
    """a coordinate gets missing values after the data object was made"""
    shape, how = cfg['shape'], cfg['how']
    n = int(np.prod(shape))
    cl = CoordList([mk(k, BASE[k], ['ok'] * n, shape) for k in NAMES])
    d = S.reals('d', n, -100, 100)
    m = S.missing('m', n)
    obj = UngriddedData(S.marray(d, m, shape), Metadata(name='rain', units='1'), cl)
    if S.bool('cached'):
        list(obj.get_all_points())
    fl = flags(S, 'lon', n)
    lon = mk('longitude', BASE['longitude'], fl, shape).data
    obj.coord('longitude').data = lon
    keep = [f == 'ok' for f in fl]
    if how == 'coords':
        obj.coords()
    elif how == 'coord':
        obj.coord('latitude')
    elif how == 'points':
        S.check(len(list(obj.get_all_points())) == sum(keep), 'the points are those with coordinates')
    elif how == 'find':
        obj.find_standard_coords()
    elif how == 'subset':
        r = obj.subset(latitude=[0., 90.])
        if not any(keep):
            S.check(r is None, 'no points left')
        else:
            expect(S, r, [True] * sum(keep), [x for x, k in zip(d, keep) if k], [x for x, k in zip(m, keep) if k],
                   _Base(keep), (sum(keep),), '(subset)')
    elif how == 'frame':
        if S.symbolic:
            obj.coords()
        else:
            S.check(len(obj.as_data_frame()) == sum(keep), 'one row per remaining point')
    elif how == 'copy':
        c = obj.copy()
        if all(keep):
            expect(S, c, keep, d, m, BASE, shape, '(copy)')
        else:
            expect(S, c, [True] * sum(keep), [x for x, k in zip(d, keep) if k], [x for x, k in zip(m, keep) if k],
                   _Base(keep), (sum(keep),), '(copy)')
    elif how == 'slice':
        obj.coords()
        c = obj[:n]
        expect(S, c, [True] * sum(keep), [x for x, k in zip(d, keep) if k], [x for x, k in zip(m, keep) if k],
               _Base(keep), (sum(keep),), '(slice)')
    expect(S, obj, keep, d, m, BASE, shape, '(after %s)' % how)


class _Base(dict):
    """the concrete coordinates of the k-th remaining point"""
    def __init__(self, keep):
        self.idx = [i for i, k in enumerate(keep) if k]

    def __getitem__(self, name):
        return _Seq(BASE[name], self.idx)


class _Seq(object):
    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def __add__(self, k):
        return self.base + self.idx[k]


HARNESSES = dict(remove=remove, later=later)
