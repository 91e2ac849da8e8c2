"""C03: subsetting by dates and by partial dates."""
import contextlib
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList
from symx.harness import Skip
from symx import dates as D

quiet_metadata()
D.install_units()
STUBS = [STUB_NOTE, 'datetime/timedelta with symbolic components: the Gregorian calendar in integer arithmetic',
         'cf_units num2date/date2num of symbolic numbers: the exact affine map']
BOUNDS = {'quick': '1-2 points at any instant of 1700-2300; limits with any valid date and time in those years, partial '
                   'dates of 1 to 6 components',
          'thorough': '1-3 points'}
OUTSIDE = 'sub-second positions closer than a microsecond to a limit'
ASSUMPTIONS = ['time coordinates are on the Gregorian calendar (days since 1600-01-01)']


def configs(tier):
    out = []
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for c in (1, 2, 3, 4, 5, 6):
            for form in ('bare', 'list'):
                out.append(dict(harness='partial', n=n, comps=c, form=form, _w=n))
        for form in ('both', 'start', 'stop', 'slice'):
            out.append(dict(harness='pair', n=n, form=form, full=False, _w=n))
        out.append(dict(harness='pair', n=n, form='both', full=True, _w=n))
    out.append(dict(harness='invalid'))
    return out


FIELDS = ['year', 'month', 'day', 'hour', 'minute', 'second']
RANGES = [(1700, 2300), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59)]


def fields(S, name, k):
    f = [S.int(name + n, *r) for n, r in list(zip(FIELDS, RANGES))[:k]]
    return f


def last_day(y, m):
    """the calendar, written out"""
    if m == 2:
        if y % 4 == 0:
            if y % 100 == 0 and not (y % 400 == 0):
                return 28
            return 29
        return 28
    if m == 4 or m == 6 or m == 9 or m == 11:
        return 30
    return 31


def edge(S, t, lim):
    """concrete replay only: instants that differ by less than the microsecond resolution of dates are not compared"""
    if not S.symbolic and t != lim and abs(t - lim) < 1e-6:
        raise Skip()
    if not S.symbolic and t == lim and lim != int(lim):
        raise Skip()


def dataset(S, n):
    t = S.reals('t', n, 36525, 255700)
    d = S.reals('d', n)
    lat = S.reals('lat', n)
    return t, d, lat, ug(S, d, CoordList([coord(S, 'time', t), coord(S, 'latitude', lat)]))


def verify(S, r, n, t, d, lat, lo, hi):
    exp = []
    for i in range(n):
        for lim in (lo, hi):
            if lim is not None:
                edge(S, t[i], lim)
        if (lo is None or lo <= t[i]) and (hi is None or t[i] <= hi):
            exp.append(i)
    if not exp:
        S.check(r is None, 'nothing is returned when no point lies in the period')
        return
    S.check(r is not None, 'the points inside the period are returned')
    S.check(r.data.size == len(exp), 'exactly the points inside the period are kept',
            lambda: 'got %s expected %s' % (r.data.size, exp))
    for j, i in enumerate(exp):
        S.check(S.eq(r.data[j], d[i]), 'the kept points are those inside the period')
        S.check(S.eq(r.coord('time').data[j], t[i]), 'times are unchanged')
        S.check(S.eq(r.coord('latitude').data[j], lat[i]), 'coordinates stay with their points')
    S.observe('n', str(len(exp)))


def partial(S, cfg):
    n, k = cfg['n'], cfg['comps']
    with D.symbolic_dates(S):
        from cis.time_util import PartialDateTime
        t, d, lat, data = dataset(S, n)
        f = fields(S, 'p', k)
        if k >= 3:
            S.assume(f[2] <= last_day(f[0], f[1]))
        p = PartialDateTime(*f)
        r = data.subset(time=p if cfg['form'] == 'bare' else [p])
        lo = D.days_since_1600(*(f + [1, 1, 0, 0, 0][k - 1:]))
        y, m = f[0], (f[1] if k > 1 else 12)
        end = f + [12, None, 23, 59, 59][k - 1:]
        if end[2] is None:
            end[2] = last_day(y, m)
        hi = D.days_since_1600(*end)
        verify(S, r, n, t, d, lat, lo, hi)


def pair(S, cfg):
    n = cfg['n']
    with D.symbolic_dates(S):
        from datetime import datetime
        t, d, lat, data = dataset(S, n)
        k = 6 if cfg['full'] else 3
        a, b = fields(S, 'a', k), fields(S, 'b', k)
        S.assume(a[2] <= last_day(a[0], a[1]))
        S.assume(b[2] <= last_day(b[0], b[1]))
        da, db = datetime(*a), datetime(*b)
        lo, hi = D.days_since_1600(*a), D.days_since_1600(*b)
        form = cfg['form']
        if form == 'both':
            r = data.subset(time=[da, db])
        elif form == 'slice':
            r = data.subset(t=slice(da, db))
        elif form == 'start':
            r = data.subset(time=[da, None])
            hi = None
        else:
            r = data.subset(time=[None, db])
            lo = None
        verify(S, r, n, t, d, lat, lo, hi)


def invalid(S, cfg):
    """a partial date that does not exist, or with a gap, is refused"""
    with D.symbolic_dates(S):
        from cis.time_util import PartialDateTime
        f = [S.int('p' + n, lo - 2 if n != 'year' else lo, hi + 2) for n, (lo, hi) in zip(FIELDS, RANGES)]
        gap = S.choice('gap', ['none', 'month', 'day', 'hour', 'minute'])
        ok = (f[1] >= 1) and (f[1] <= 12) and (f[2] >= 1) and (f[2] <= last_day(f[0], f[1])) and f[3] >= 0 and \
            f[3] <= 23 and f[4] >= 0 and f[4] <= 59 and f[5] >= 0 and f[5] <= 59
        if gap != 'none':
            f[FIELDS.index(gap)] = None
        try:
            p = PartialDateTime(*f)
        except ValueError:
            S.check(gap != 'none' or not ok, 'a valid partial date is accepted')
            return
        S.check(gap == 'none' and ok, 'an invalid partial date is refused')


HARNESSES = {'partial': partial, 'pair': pair, 'invalid': invalid}
