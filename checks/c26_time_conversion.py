"""C26: conversion of times to CIS standard time (days since 1600-01-01)."""
import datetime
import numpy as np
from iris.coords import AuxCoord, DimCoord
from cf_units import Unit
from symx import dates as D
from symx.build import coord, quiet_metadata, STUB_NOTE
from symx.harness import masked_at, val_at, Skip
from symx.trig import SymArray
from symx.cubes import cube, dim
from cis.data_io.Coord import Coord
from cis.data_io.ungridded_data import Metadata
from cis.data_io.hyperpoint import HyperPoint
from cis import time_util as T

quiet_metadata()
D.install_units()
STUBS = [STUB_NOTE, 'datetime/timedelta with symbolic components: the Gregorian calendar in integer arithmetic',
         'cf_units num2date/date2num of symbolic numbers: the exact affine map (sub-microsecond rounding of cftime is '
         'outside)']
BOUNDS = {'quick': '1-3 times, any subset of them missing; any value (1700-2300); reference instants with arbitrary '
                   'date and time of day for seconds since a reference; the units in configs elsewhere; one cube of 1-3 '
                   'times with or without bounds, time as a dimension, auxiliary or scalar coordinate',
          'thorough': '1-4 times'}
OUTSIDE = 'calendars other than the standard one; rounding; instants between microseconds'
ASSUMPTIONS = ['dates between 1700 and 2300']
FIELDS = ['year', 'month', 'day', 'hour', 'minute', 'second']
RANGES = [(1700, 2200), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59)]
UNITS = ['days since 1600-01-01', 'days since 1970-01-01', 'hours since 1970-01-01 00:00:00',
         'seconds since 2000-01-01 12:00:00', 'minutes since 1993-06-30 06:30:00', 'days since 1858-11-17']
REF = {u: (datetime.datetime.strptime(u.split(' since ')[1][:10], '%Y-%m-%d') - datetime.datetime(1600, 1, 1)).days
       for u in UNITS}
REF['seconds since 2000-01-01 12:00:00'] += 0.5
REF['minutes since 1993-06-30 06:30:00'] += 6.5 / 24
PER = {'days': 1, 'hours': 24, 'minutes': 1440, 'seconds': 86400}


def configs(tier):
    out = []
    for n in (1, 3) if tier == 'quick' else (1, 2, 3, 4):
        for miss in (False, True):
            out.append(dict(harness='tai', n=n, miss=miss, _w=n))
            out.append(dict(harness='julian', n=n, miss=miss, _w=n))
            for u in UNITS:
                out.append(dict(harness='since', n=n, unit=u, miss=miss, _w=n))
                out.append(dict(harness='stamp', n=n, unit=u, miss=miss, _w=n))
        for how in ('dim', 'aux', 'scalar'):
            for b in (False, True):
                for u in UNITS[1:4]:
                    if how != 'scalar' or n == 1:
                        out.append(dict(harness='gridded', n=n, unit=u, how=how, bounds=b, _w=n))
        out.append(dict(harness='dates', n=min(n, 2), _w=3 * n))
    out.append(dict(harness='hyper'))
    return out


def times(S, n, miss, lo, hi):
    v = S.reals('t', n, lo, hi)
    if miss:
        m = S.missing('m', n)
        a = S.marray(v, m)
    else:
        m, a = [False] * n, S.array(v)
        if S.symbolic:
            a = a.view(SymArray)
    return v, m, a


def timecoord(S, a, units):
    return Coord(a, Metadata(name='time', standard_name='time', units=units, shape=a.shape), 'T')


def check_coord(S, c, m, expected):
    S.check(str(c.units) == str(T.cis_standard_time_unit), 'the units are those of standard time')
    S.check(c.data.size == len(expected), 'every time is converted')
    for i, e in enumerate(expected):
        S.check(masked_at(c.data, i) == bool(m[i]), 'missing times stay missing')
        if not m[i]:
            S.check(abs(val_at(c.data, i) - e) < 1e-6, 'times are converted to the same instant in standard time',
                    lambda: 'got %s expected %s' % (val_at(c.data, i), e))


def tai(S, cfg):
    with D.symbolic_dates(S):
        f = [S.int(n, *r) for n, r in zip(FIELDS, RANGES)]
        import datetime as dtm
        try:
            ref = dtm.datetime(*f)
        except ValueError:
            return
        v, m, a = times(S, cfg['n'], cfg['miss'], -1e9, 1e9)
        c = timecoord(S, a, 'seconds')
        c.convert_TAI_time_to_std_time(ref)
        check_coord(S, c, m, [D.days_since_1600(*f) + x / 86400 for x in v])


def julian(S, cfg):
    v, m, a = times(S, cfg['n'], cfg['miss'], 2400000, 2500000)
    c = timecoord(S, a, 'Julian Date')
    c.convert_julian_to_std_time()
    check_coord(S, c, m, [x - 2305447.5 for x in v])


def since(S, cfg):
    u = cfg['unit']
    per = PER[u.split()[0]]
    v, m, a = times(S, cfg['n'], cfg['miss'], -1000 * per, 1000 * per)
    c = timecoord(S, a, Unit(u, calendar='standard'))
    c.convert_to_std_time()
    check_coord(S, c, m, [x / per + REF[u] for x in v])


def stamp(S, cfg):
    u = cfg['unit']
    per = PER[u.split()[0]]
    v, m, a = times(S, cfg['n'], cfg['miss'], -1000 * per, 1000 * per)
    c = timecoord(S, a, u.split()[0] + ' from the reference')
    c.convert_to_std_time(u.split(' since ')[1])
    check_coord(S, c, m, [x / per + REF[u] for x in v])


def gridded(S, cfg):
    u, n, how = cfg['unit'], cfg['n'], cfg['how']
    per = PER[u.split()[0]]
    t = S.reals('t', n, -1000 * per, 1000 * per)
    for a, b in zip(t, t[1:]):
        S.assume(b - a > 0.01)
    d = S.reals('d', n)
    bounds = None
    if cfg['bounds']:
        lo, hi = S.reals('lo', n, -1000 * per, 1000 * per), S.reals('hi', n, -1000 * per, 1000 * per)
        for a, b in zip(lo, lo[1:]):
            S.assume(a < b)
        for a, b in zip(hi, hi[1:]):
            S.assume(a < b)
        for a, x, b in zip(lo, t, hi):
            S.assume(a <= x)
            S.assume(x <= b)
        bounds = np.array([S.array(lo), S.array(hi)]).T
    unit = Unit(u, calendar='standard')
    if how == 'dim':
        c = cube(S, d, [dim(S, 'time', t, bounds=bounds, units=unit)])
    else:
        from iris.cube import Cube
        c = cube(S, d, [dim(S, 'latitude', list(range(n)))])
        ax = AuxCoord(S.array(t), standard_name='time', units=unit, bounds=bounds)
        if how == 'aux':
            c.add_aux_coord(ax, (0,))
        else:
            c.add_aux_coord(ax, ())
    dims = c.coord_dims(c.coord('time'))
    out = T.convert_cube_time_coord_to_standard_time(c)
    tc = out.coord('time')
    S.check(str(tc.units) == str(T.cis_standard_time_unit), 'the units are those of standard time')
    S.check(out.coord_dims(tc) == dims, 'the coordinate stays on its dimension')
    S.check(len(tc.points) == n and [x.name() for x in out.coords()].count('time') == 1, 'there is one time coordinate')
    for i in range(n):
        S.check(abs(tc.points[i] - (t[i] / per + REF[u])) < 1e-6, 'times are converted to the same instant')
        if cfg['bounds']:
            S.check(abs(tc.bounds[i, 0] - (lo[i] / per + REF[u])) < 1e-6 and
                    abs(tc.bounds[i, 1] - (hi[i] / per + REF[u])) < 1e-6, 'bounds are converted to the same instants')
        S.check(S.eq(out.data[i], d[i]), 'data is not changed')
    S.check(tc.has_bounds() == cfg['bounds'], 'bounds are kept and not made up')


def dates(S, cfg):
    """datetime coordinate -> standard time -> datetimes"""
    with D.symbolic_dates(S):
        import datetime as dtm
        fs, objs = [], []
        for i in range(cfg['n']):
            f = [S.int(n + str(i), *r) for n, r in zip(FIELDS, RANGES)]
            try:
                objs.append(dtm.datetime(*f))
            except ValueError:
                return
            fs.append(f)
        a = np.ndarray(len(objs), dtype=object)
        for i, o in enumerate(objs):
            a[i] = o
        for how in (0, 1):
            c = timecoord(S, a.copy(), 'DateTime Object')
            c.convert_datetime_to_standard_time() if how else c.convert_to_std_time()
            check_coord(S, c, [False] * len(fs), [D.days_since_1600(*f) for f in fs])
        c.convert_standard_time_to_datetime()
        for f, o in zip(fs, c.data):
            for n, x in zip(FIELDS[:3], f):
                S.check(S.eq(getattr(o, n), x) if S.symbolic else abs((o - D.RealDT(*f)).total_seconds()) < 1,
                        'converting back to dates gives the date')


def hyper(S, cfg):
    with D.symbolic_dates(S):
        import datetime as dtm
        f = [S.int(n, *r) for n, r in zip(FIELDS, RANGES)]
        try:
            t = dtm.datetime(*f)
        except ValueError:
            return
        exp = D.days_since_1600(*f)
        lat, lon, alt, pres, t0, v = [S.real(n, -90, 90) for n in ('lat', 'lon', 'alt', 'pres', 't0', 'v')]
        p = HyperPoint(lat, lon, alt, pres, t, v)
        S.check(abs(p.time - exp) < 1e-6, 'a point made with a date has that standard time')
        q = HyperPoint(lat, lon, alt, pres, t0, v)
        S.check(S.eq(q.time, t0), 'a point made with a number has that time')
        S.check(abs(q.modified(t=t).time - exp) < 1e-6, 'a point changed to a date has that standard time')
        S.check(S.eq(p.modified(t=t0).time, t0), 'a point changed to a numeric time has that time')
        lat2, alt2 = S.real('lat2', -90, 90), S.real('alt2', -90, 90)
        r = q.modified(lat=lat2, alt=alt2)
        for g, e in zip(r[:5], (lat2, lon, alt2, pres, t0)):
            S.check(S.eq(g, e), 'changing some fields of a point leaves the others')
        S.check(len(r.val) == 1 and S.eq(r.val[0], v), 'values are kept')
        d = dict(r.coord_tuple)
        S.check(sorted(d) == ['air_pressure', 'altitude', 'latitude', 'longitude', 'time'] and
                S.eq(d['latitude'], lat2), 'coord_tuple follows')


HARNESSES = {'tai': tai, 'julian': julian, 'since': since, 'stamp': stamp, 'gridded': gridded, 'dates': dates,
             'hyper': hyper}
