"""C08: the grid that ungridded data are aggregated onto."""
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx import cubes, dates as D
from symx.harness import masked_at, val_at

quiet_metadata()
D.install_units()
STUBS = [STUB_NOTE, cubes.STUB_NOTE, 'np.arange of symbolic limits: the same arithmetic progression, exactly',
         'datetime/timedelta with symbolic components and cf_units conversions: exact calendar arithmetic (symx/dates.py)']
BOUNDS = {'quick': 'grids of 1-5 cells with symbolic start, end and step (numbers or dates); 1-3 points in the data; '
                   'any subset of three coordinates gridded', 'thorough': 'grids of 1-8 cells, 1-4 points'}
OUTSIDE = 'rounding of the number of cells in floating point'
ASSUMPTIONS = ['the end of a grid is after its start, the step is positive']


def configs(tier):
    N = 5 if tier == 'quick' else 8
    out = []
    for m in range(1, N + 1):
        for dim in ('altitude', 'longitude', 'latitude', 'air_pressure'):
            out.append(dict(harness='numeric', dim=dim, m=m, form='slice' if m % 2 else 'list'))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        out.append(dict(harness='collapsed', n=n, how='omit'))
        out.append(dict(harness='collapsed', n=n, how='none'))
    for m in (1, 2, 3):
        out.append(dict(harness='default', m=m))
        for form in ('dates', 'delta', 'partial'):
            out.append(dict(harness='times', m=m, form=form, _w=5))
    out.append(dict(harness='errors'))
    return out


def check_grid(S, c, start, end, step, m, name):
    p, b = c.points, c.bounds
    S.check(len(p) == m, 'the cells cover the range from start to end (%s)' % name, lambda: '%s cells' % len(p))
    S.check(c.has_bounds(), 'every cell has bounds')
    for j in range(m):
        S.check(S.near(p[j], start + step * j + step / 2), 'midpoints start at start + step/2 and are one step apart')
        if m == 1:
            S.check(S.near(b[0][0], start) and S.near(b[0][1], end), 'a single cell spans exactly the range given')
        else:
            S.check(S.near(b[j][0], start + step * j) and S.near(b[j][1], start + step * (j + 1)),
                    'cells start at the start of the range, are one step wide and contiguous')
    S.observe_array('p', np.ma.asarray(p))


def make(S, n, **given):
    cl = []
    for name in ('latitude', 'longitude', 'altitude', 'time', 'air_pressure'):
        if name in given or name in ('latitude', 'longitude'):
            cl.append(coord(S, name, given.get(name, [1.0 * i for i in range(n)])))
    d = S.reals('d', n)
    return d, ug(S, d, CoordList(cl))


LIM = {'altitude': (-5000, 5000), 'longitude': (-180, 360), 'latitude': (-90, 90), 'air_pressure': (0, 1100)}


def numeric(S, cfg):
    dim, m = cfg['dim'], cfg['m']
    start, step, end = S.real('a', *LIM[dim]), S.real('s', 0.001, 1000), S.real('e')
    S.assume(end > start + step * (m - 1))
    S.assume(end <= start + step * m)
    if dim == 'latitude':
        S.assume(start + step * m <= 90)
    if dim == 'longitude':
        S.assume(end <= start + 360)
    # the half open cells must be a rounding error away from having another cell
    if not S.symbolic:
        q = (end - start) / step
        if abs(q - round(q)) < 1e-6:
            from symx.harness import Skip
            raise Skip()
    x = S.reals('x', 1, *LIM[dim])
    d, data = make(S, 1, **{dim: x})
    r = data.aggregate(how='sum', **{dim: slice(start, end, step) if cfg['form'] == 'slice' else [start, end, step]})
    c = r.coord(standard_name=dim)
    check_grid(S, c, start, end, step, m, dim)
    S.check(str(c.units) == cubes.UNITS[dim] or str(c.units) == 'degrees', 'units are those of the coordinate', str(c.units))
    S.check([k.name() for k in r.coords(dim_coords=True)] == [k.standard_name for k in data.coords()],
            'the output has the coordinates of the data, in the same order')


def collapsed(S, cfg):
    """coordinates that are not given a grid are collapsed completely"""
    n = cfg['n']
    z = S.reals('z', n, -1000, 1000)
    lon = S.reals('x', n, 0, 359)
    d, data = make(S, n, altitude=z, longitude=lon)
    kw = {'z': None, 'longitude': None} if cfg['how'] == 'none' else {}
    r = data.aggregate(how='sum', y=[-0.5, 9.5, 10.0], **kw)
    for name, v in (('altitude', z), ('longitude', lon)):
        c = r.coord(standard_name=name)
        S.check(len(c.points) == 1, 'a coordinate without a grid is collapsed to one cell')
        b = c.bounds[0]
        for t in v:
            S.check((b[0] <= t) & (t <= b[1]), 'its bounds span the minimum to the maximum of the coordinate')
        S.check(any(bool(S.eq(b[0], t)) for t in v) and any(bool(S.eq(b[1], t)) for t in v),
                'its bounds are the minimum and maximum of the coordinate')
        S.check(S.near(c.points[0] * 2, b[0] + b[1]), 'its point is the middle of the bounds')
    t = d[0]
    for x in d[1:]:
        t = t + x
    S.check(S.eq(r.data.reshape(-1)[0], t), 'all points contribute to the collapsed cell')


def default(S, cfg):
    """start and end default to the minimum and maximum of the data"""
    m = cfg['m']
    z = S.reals('z', 2, -1000, 1000)
    step = S.real('s', 0.001, 1000)
    lo, hi = (z[0], z[1]) if z[0] <= z[1] else (z[1], z[0])
    S.assume(hi - lo > step * (m - 1))
    S.assume(hi - lo <= step * m)
    if not S.symbolic and abs((hi - lo) / step - round((hi - lo) / step)) < 1e-6:
        from symx.harness import Skip
        raise Skip()
    d, data = make(S, 2, altitude=z)
    which = S.choice('which', ['both', 'start', 'stop'])
    r = data.aggregate(how='sum', z=slice(None if which != 'stop' else lo, None if which != 'start' else hi, step))
    check_grid(S, r.coord('altitude'), lo, hi, step, m, 'defaults')


FIELDS = ['year', 'month', 'day', 'hour', 'minute', 'second']
RANGES = [(1700, 2300), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59)]


def times(S, cfg):
    m, form = cfg['m'], cfg['form']
    with D.symbolic_dates(S):
        from datetime import datetime, timedelta
        from cis.time_util import PartialDateTime
        t = S.reals('t', 1, 36525, 255700)
        d, data = make(S, 1, time=t)
        if form == 'partial':
            f = [S.int('a' + q, *r) for q, r in list(zip(FIELDS, RANGES))[:3]]
            hours = {1: 24, 2: 12, 3: 8}[m]
            r = data.aggregate(how='sum', t=[PartialDateTime(*f), timedelta(hours=hours)])
            start = D.days_since_1600(*(f + [0, 0, 0]))
            end = start + (1 - 1 / 86400.0)
            step = hours / 24.0
        else:
            f = [S.int('a' + q, *r) for q, r in zip(FIELDS, RANGES)]
            start = D.days_since_1600(*f)
            hours = S.int('h', 1, 700)
            # an end in the last of m cells
            g = [S.int('b' + q, *r) for q, r in zip(FIELDS, RANGES)]
            end = D.days_since_1600(*g)
            step = hours / 24.0 if not S.symbolic else hours / 24
            S.assume(end > start + step * (m - 1))
            S.assume(end < start + step * m)
            if not S.symbolic:
                q = (end - start) / step
                if abs(q - round(q)) < 1e-6:
                    from symx.harness import Skip
                    raise Skip()
            st = timedelta(hours=hours) if form == 'delta' else step
            r = data.aggregate(how='sum', t=[datetime(*f), datetime(*g), st])
        check_grid(S, r.coord('time'), start, end, step, m, 'time')


def errors(S, cfg):
    from cis.exceptions import CoordinateNotFoundError
    d, data = make(S, 2, altitude=S.reals('z', 2))
    bad = S.choice('bad', ['name', 'step', 'length'])
    try:
        if bad == 'name':
            data.aggregate(nonsense=[0, 1, 1])
        elif bad == 'step':
            data.aggregate(z=slice(0, 1, None))
        else:
            data.aggregate(z=[0, 1])
    except (ValueError, CoordinateNotFoundError) as e:
        S.check(True, 'refused')
        return
    S.fail('an aggregation over an unknown coordinate or without a step is refused')


HARNESSES = {'numeric': numeric, 'collapsed': collapsed, 'default': default, 'times': times, 'errors': errors}
