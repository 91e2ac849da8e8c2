"""C19: conversion to pandas data frames."""
import datetime
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList, UngriddedCoordinates, Metadata
from cis.data_io.Coord import Coord
from cis.time_util import cis_standard_time_unit
from cf_units import Unit

quiet_metadata()
STUBS = [STUB_NOTE]
BOUNDS = {'quick': 'up to 4 points in up to 2 dimensions, up to 4 coordinates', 'thorough': 'up to 6 points'}
OUTSIDE = 'gridded data (converted by iris); variables or coordinates of the same name'
ASSUMPTIONS = ['times are concrete: the solver chooses one of the listed instants per point']


def configs(tier):
    big = tier != 'quick'
    out = []
    for shape in ((1,), (3,), (2, 2)) + (((4,), (2, 3)) if big else ()):
        for time in ('none', 'standard', 'other', 'object', 'text'):
            for kind in ('data', 'coords', 'list'):
                out.append(dict(harness='frame', shape=shape, time=time, kind=kind))
        out.append(dict(harness='frame', shape=shape, time='standard', kind='data', index=False))
        for kind in ('data', 'list'):
            out.append(dict(harness='nocopy', shape=shape, kind=kind))
    return out


DAYS = (0, 1.5, 31)
REF = datetime.datetime(1984, 8, 28)


def instants(S, n):
    return [REF + datetime.timedelta(days=S.choice('t%d' % i, DAYS) if i in (0, n - 1) else 2.25 + i) for i in range(n)]


def build(S, cfg):
    shape, time = cfg['shape'], cfg['time']
    n = int(np.prod(shape))
    co = {k: S.reals(k[:4], n, -90, 90) for k in ('latitude', 'longitude')}
    cl = CoordList([coord(S, k, co[k], shape=shape) for k in ('latitude', 'longitude')])
    for name in ('depth', 'extra'):
        co[name] = S.reals(name, n, 0, 10)
        meta = Metadata(name=name, long_name=name, units='m')
        cl.append(Coord(S.array(co[name], shape), meta, ''))
    ts = None
    if time != 'none':
        ts = instants(S, n)
        days = [(t - REF).total_seconds() / 86400 for t in ts]
        if time == 'standard':
            v, u = [float(cis_standard_time_unit.date2num(REF)) + d for d in days], cis_standard_time_unit
        elif time == 'other':
            v, u = [d * 24 for d in days], Unit('hours since 1984-08-28', calendar='gregorian')
        elif time == 'text':
            v, u = [float(cis_standard_time_unit.date2num(REF)) + d for d in days], 'days (standard)'
        else:
            v, u = ts, 'DateTime Object'
        a = np.array(v, dtype=object if time == 'object' else float).reshape(shape)
        cl.append(Coord(a, Metadata(name='time', standard_name='time', units=u), 'T'))
    return n, co, cl, ts


def num(x):
    return x != x if isinstance(x, float) else False


def expect(S, df, n, co, cl, ts, cols, where, index=True):
    S.check(len(df) == n, 'one row per point ' + where)
    names = sorted(list(co) + list(cols) + ([] if index or ts is None else ['time']))
    S.check(sorted(str(c) for c in df.columns) == names, 'one column per coordinate and variable ' + where,
            str(list(df.columns)))
    for k in co:
        for i in range(n):
            S.check(S.eq(df[k].values[i], co[k][i]), 'the coordinates of each point ' + where)
    for k, (d, m) in cols.items():
        for i in range(n):
            x = df[k].values[i]
            if m[i]:
                S.check(num(x), 'a missing value is NaN ' + where)
            else:
                S.check(not num(x) and S.eq(x, d[i]), 'the value of each point ' + where)
    if ts is not None and index:
        for i in range(n):
            x = df.index[i]
            S.check((x.year, x.month, x.day, x.hour, x.minute) == (ts[i].year, ts[i].month, ts[i].day, ts[i].hour,
                                                                   ts[i].minute), 'the time of each point ' + where)
    elif ts is not None:
        t = cl.get_coord(standard_name='time').points.ravel()
        for i in range(n):
            S.check(df['time'].values[i] == t[i], 'the time column ' + where)


def frame(S, cfg):
    n, co, cl, ts = build(S, cfg)
    shape, kind, index = cfg['shape'], cfg['kind'], cfg.get('index', True)
    d = S.reals('d', n, -100, 100)
    m = S.missing('m', min(n, 3)) + [False] * max(0, n - 3)
    if kind == 'coords':
        obj = UngriddedCoordinates(cl)
        expect(S, obj.as_data_frame(), n, co, cl, ts, {}, '(coordinates)')
        return
    a = ug(S, d, cl, mask=m if any(m) else None, shape=shape, long_name='Rain')
    cols = {'Rain': (d, m)}
    if kind == 'data':
        df = a.as_data_frame(time_index=index)
        expect(S, df, n, co, cl, ts, cols, '(data)', index)
        other = a.as_data_frame(name='vals', time_index=index)
        expect(S, other, n, co, cl, ts, {'vals': (d, m)}, '(named)', index)
    else:
        e = S.reals('e', n, -100, 100)
        me = [S.bool('me')] + [False] * (n - 1)
        b = ug(S, e, cl, mask=me if any(me) else None, shape=shape, name='snow')
        c = ug(S, e[::-1], cl, shape=shape, name='hail')
        df = UngriddedDataList([a, b, c]).as_data_frame()
        cols['snow'] = (e, me)
        cols['hail'] = (e[::-1], [False] * n)
        expect(S, df, n, co, cl, ts, cols, '(list)')
    for k in list(df.columns):
        df[k] = 5.0
    df.iloc[:, :] = 6.0
    for x, y, z in ((d, m, a),):
        f = z.data.reshape(-1)
        for i in range(n):
            S.check(bool(np.ma.getmaskarray(f)[i]) == y[i], 'the data are independent of the data frame')
            if not y[i]:
                S.check(S.eq(np.ma.getdata(f)[i], x[i]), 'the data are independent of the data frame')
    for k in co:
        c = [c for c in cl if c.name() == k][0]
        for i in range(n):
            S.check(S.eq(c.points.reshape(-1)[i], co[k][i]), 'the coordinates are independent of the data frame')


def nocopy(S, cfg):
    n, co, cl, ts = build(S, dict(cfg, time='none'))
    d = S.reals('d', n, -100, 100)
    m = S.missing('m', min(n, 3)) + [False] * max(0, n - 3)
    a = ug(S, d, cl, mask=m if any(m) else None, shape=cfg['shape'], long_name='Rain')
    cols = {'Rain': (d, m)}
    if cfg['kind'] == 'data':
        df = a.as_data_frame(copy=False)
    else:
        b = ug(S, d[::-1], cl, mask=m[::-1] if any(m) else None, shape=cfg['shape'], name='snow')
        df = UngriddedDataList([a, b]).as_data_frame(copy=False)
        cols['snow'] = (d[::-1], m[::-1])
    expect(S, df, n, co, cl, ts, cols, '(without copying)')


HARNESSES = dict(frame=frame, nocopy=nocopy)
