"""C04: subsetting gridded data."""
import numpy as np
from symx.build import quiet_metadata
from symx.cubes import dim, aux, cube, axis, increasing, STUB_NOTE, GriddedDataList
from symx.harness import masked_at, val_at, Skip
from symx import dates as D

quiet_metadata()
D.install_units()
STUBS = [STUB_NOTE, 'iris wrap_lons: its cast to float64 is dropped, the remaining expression is evaluated exactly',
         'cf_units num2date of symbolic numbers: the exact affine map']
BOUNDS = {'quick': 'grids of 1-4 cells along one or two dimensions (altitude/latitude/longitude/time), ascending or '
                   'descending, with or without contiguous cell bounds on longitude and altitude; limits symbolic, one-sided too',
          'thorough': 'up to 5 cells, two cells with bounds'}
OUTSIDE = 'longitude ranges of exactly 360 degrees on cells with bounds; multi-dimensional coordinates'
ASSUMPTIONS = ['grid longitudes span at most 359 degrees (nearer to a full turn, iris treats first and last point as one)', 'limits are increasing and at most 360 degrees apart']


def configs(tier):
    out = []
    N = 4 if tier == 'quick' else 5
    for n in range(1, N + 1):
        for order in ('asc', 'desc'):
            for sides in ('both', 'start', 'stop'):
                out.append(dict(harness='plain', n=n, m=2, order=order, sides=sides, bounds=False, _w=n))
            if n < 4:
                out.append(dict(harness='plain', n=n, m=1, order=order, sides='both', bounds=True, _w=3 * n))
            out.append(dict(harness='circ', n=n, m=2 if n < 3 else 1, order=order, bounds=False, _w=4 * n))
            if n < 2 or (tier != 'quick' and n < 3):
                out.append(dict(harness='circ', n=n, m=1, order=order, bounds=True, _w=4 * n))
    for n in (1, 2):
        for form in ('dates', 'from', 'to', 'partial'):
            out.append(dict(harness='time', n=n, form=form))
    for n in (1, 2):
        out.append(dict(harness='both', n=n, m=2, _w=6))
        out.append(dict(harness='lists', n=n, nv=2))
    return out


def verify(S, r, out_rows, vals, mask, m, get):
    """rows kept (first dimension) against the result cube `r`"""
    if not out_rows:
        S.check(r is None, 'nothing is returned when no grid point is inside the limits')
        return False
    S.check(r is not None, 'grid points inside the limits are returned')
    d = r.data
    S.check(d.size == len(out_rows) * m, 'exactly the grid points inside the limits are kept',
            lambda: 'got %s expected %s' % (d.shape, out_rows))
    d = d.reshape(len(out_rows), m)
    for j, i in enumerate(out_rows):
        for k in range(m):
            if mask is not None:
                S.check(masked_at(d, (j, k)) == bool(mask[i * m + k]), 'missing flags stay with their grid points')
                if mask[i * m + k]:
                    continue
            S.check(S.eq(val_at(d, (j, k)), vals[i * m + k]), 'values stay with their grid points')
    S.observe_array('d', d)
    return True


def plain(S, cfg):
    n, m = cfg['n'], cfg['m']
    z, zb = axis(S, 'z', n, -100, 100, cfg['order'], contiguous_bounds=cfg['bounds'])
    lat = [10.0, 20.0][:m]
    vals = S.reals('d', n * m)
    mask = S.missing('m', n) if n < 3 else None
    mask = [b for b in mask for _ in range(m)] if mask is not None else None
    g = cube(S, vals, [dim(S, 'altitude', z, zb), dim(S, 'latitude', lat)], mask=mask)
    lo, hi = S.real('lo', -200, 200), S.real('hi', -200, 200)
    S.assume(lo <= hi)
    lim = {'both': [lo, hi], 'start': [lo, None], 'stop': slice(None, hi)}[cfg['sides']]
    r = g.subset(altitude=lim)
    rows = [i for i in range(n) if (cfg['sides'] == 'stop' or lo <= z[i]) and (cfg['sides'] == 'start' or z[i] <= hi)]
    if verify(S, r, rows, vals, mask, m, None):
        p = np.atleast_1d(r.coord('altitude').points)
        for j, i in enumerate(rows):
            S.check(S.eq(p[j], z[i]), 'coordinates stay with their grid points')
            if zb is not None:
                b = r.coord('altitude').bounds[j]
                S.check(S.eq(b[0], zb[i][0]) and S.eq(b[1], zb[i][1]), 'bounds stay with their grid points')
        S.check(all(S.eq(a, b) for a, b in zip(r.coord('latitude').points, lat)), 'other coordinates are unchanged')
    for i in range(n):
        S.check(S.eq(g.coord('altitude').points[i], z[i]), 'the source is unchanged')


def circ(S, cfg):
    n, m = cfg['n'], cfg['m']
    x, xb = axis(S, 'x', n, -180, 360, cfg['order'], contiguous_bounds=cfg['bounds'])
    ends = [x[0], x[-1]] if xb is None else [xb[0][0], xb[-1][1]]
    if cfg['order'] == 'desc':
        ends = ends[::-1]
    S.assume(ends[1] - ends[0] <= 360)
    S.assume(x[-1 if cfg['order'] == 'asc' else 0] - x[0 if cfg['order'] == 'asc' else -1] <= 359)
    lat = [10.0, 20.0][:m]
    vals = S.reals('d', n * m)
    ax = S.reals('ax', n)
    g = cube(S, vals, [dim(S, 'longitude', x, xb), dim(S, 'latitude', lat)], auxs=[(aux(S, 'orog', ax), 0)])
    lo, hi = S.real('lo', -180, 360), S.real('hi', -180, 360)
    S.assume(lo <= hi)
    S.assume(hi < lo + 360 if cfg['bounds'] else hi <= lo + 360)
    r = g.subset(x=[lo, hi])
    if cfg['bounds']:
        return circ_bounds(S, cfg, r, n, m, x, xb, vals, ax, lo, hi)
    keep = {}
    for i in range(n):
        for k in (-2, -1, 0, 1, 2):
            if (lo <= x[i] + 360 * k) and (x[i] + 360 * k <= hi):
                keep.setdefault(i, []).append(k)
    if not keep:
        S.check(r is None, 'nothing is returned when no grid point is inside the longitude range')
        return
    S.check(r is not None, 'grid points inside the longitude range are returned (longitude is circular)')
    p = r.coord('longitude').points
    S.check(len(p) == len(keep), 'exactly the grid points inside the longitude range are kept',
            lambda: 'got %s expected %s' % (p, keep))
    d = r.data.reshape(len(keep), m)
    a = r.coord('orog').points
    seen = set()
    for j in range(len(keep)):
        hit = [i for i in keep if i not in seen and any(bool(S.eq(p[j], x[i] + 360 * k)) for k in keep[i])]
        S.check(len(hit) >= 1, 'output longitudes are grid longitudes moved by whole turns into the range')
        i = hit[0]
        seen.add(i)
        S.check(S.eq(a[j], ax[i]), 'auxiliary coordinates stay with their grid points')
        for k in range(m):
            S.check(S.eq(d[j, k], vals[i * m + k]), 'values stay with their grid points')
    S.observe_array('lon', p)
    for i in range(n):
        S.check(S.eq(g.coord('longitude').points[i], x[i]), 'the source is unchanged')


def circ_bounds(S, cfg, r, n, m, x, xb, vals, ax, lo, hi):
    """cells with bounds: kept when the cell overlaps the range, dropped when it is clear of it (touching is open)"""
    must, may = set(), set()
    for i in range(n):
        l, u = xb[i] if cfg['order'] == 'asc' else xb[i][::-1]
        for k in (-2, -1, 0, 1, 2):
            if (l + 360 * k <= hi) and (lo <= u + 360 * k):
                may.add(i)
                if l + 360 * k < hi and lo < u + 360 * k:
                    must.add(i)
    got = [] if r is None else list(r.coord('longitude').points)
    S.check(len(got) >= len(must), 'cells overlapping the longitude range are kept')
    S.check(len(got) <= len(may), 'cells outside the longitude range are dropped')
    if r is None:
        return
    d = r.data.reshape(len(got), m)
    a = r.coord('orog').points
    seen = []
    for j in range(len(got)):
        hit = [i for i in may if i not in seen and any(bool(S.eq(got[j], x[i] + 360 * k)) for k in (-2, -1, 0, 1, 2))]
        S.check(len(hit) >= 1, 'output longitudes are grid longitudes moved by whole turns')
        seen.append(hit[0])
        S.check(S.eq(a[j], ax[hit[0]]), 'auxiliary coordinates stay with their grid points')
        for k in range(m):
            S.check(S.eq(d[j, k], vals[hit[0] * m + k]), 'values stay with their grid points')
    S.check(must <= set(seen), 'every cell overlapping the longitude range is kept')


def time(S, cfg):
    n = cfg['n']
    with D.symbolic_dates(S):
        from datetime import datetime
        from cis.time_util import PartialDateTime
        t, _ = axis(S, 't', n, 36525, 255700)
        vals = S.reals('d', n * 2)
        g = cube(S, vals, [dim(S, 'time', t), dim(S, 'latitude', [1.0, 2.0])])
        if cfg['form'] in ('dates', 'from', 'to'):
            ya, yb = S.int('ya', 1700, 2300), S.int('yb', 1700, 2300)
            ma, mb = S.int('ma', 1, 12), S.int('mb', 1, 12)
            da, db = S.int('da', 1, 28), S.int('db', 1, 28)
            lo, hi = D.days_since_1600(ya, ma, da), D.days_since_1600(yb, mb, db)
            S.assume(lo <= hi)
            a, b = datetime(ya, ma, da), datetime(yb, mb, db)
            if cfg['form'] == 'from':
                r = g.subset(time=[a, None])
            elif cfg['form'] == 'to':
                r = g.subset(time=[None, b])
            else:
                r = g.subset(time=[a, b])
        else:
            y = S.int('y', 1700, 2300)
            lo, hi = D.days_since_1600(y, 1, 1), D.days_since_1600(y, 12, 31, 23, 59, 59)
            r = g.subset(time=PartialDateTime(y))
        for i in range(n):
            for lim in (lo, hi):
                if not S.symbolic and abs(t[i] - lim) < 1e-6 and (t[i] != lim or lim != int(lim)):
                    raise Skip()
        rows = [i for i in range(n) if (cfg['form'] == 'to' or lo <= t[i]) and (cfg['form'] == 'from' or t[i] <= hi)]
        if verify(S, r, rows, vals, None, 2, None):
            for j, i in enumerate(rows):
                S.check(S.eq(np.atleast_1d(r.coord('time').points)[j], t[i]), 'times stay with their grid points')


def both(S, cfg):
    """limits on two dimensions, one circular"""
    n, m = cfg['n'], cfg['m']
    z, _ = axis(S, 'z', n, -100, 100)
    x, _ = axis(S, 'x', m, 0, 359)
    vals = S.reals('d', n * m)
    g = cube(S, vals, [dim(S, 'altitude', z), dim(S, 'longitude', x)])
    lo, hi = S.real('lo', -200, 200), S.real('hi', -200, 200)
    a, b = S.real('a', -180, 180), S.real('b', -180, 180)
    S.assume(lo <= hi)
    S.assume(a <= b)
    S.assume(b - a < 300)
    r = g.subset(longitude=[a, b], altitude=[lo, hi])
    rows = [i for i in range(n) if lo <= z[i] and z[i] <= hi]
    cols = [(j, k) for j in range(m) for k in (-1, 0, 1) if a <= x[j] + 360 * k and x[j] + 360 * k <= b]
    if not rows or not cols:
        S.check(r is None, 'nothing is returned when no grid point satisfies all limits')
        return
    S.check(r is not None, 'grid points satisfying all limits are returned')
    S.check(r.data.size == len(rows) * len(cols), 'exactly the grid points satisfying all limits are kept')
    d = r.data.reshape(len(rows), len(cols))
    zz, xx = np.atleast_1d(r.coord('altitude').points), np.atleast_1d(r.coord('longitude').points)
    for i in range(len(rows)):
        S.check(S.eq(zz[i], z[rows[i]]), 'coordinates stay with their grid points')
        for j in range(len(cols)):
            src = [c for c, k in cols if bool(S.eq(xx[j], x[c] + 360 * k))]
            S.check(len(src) == 1, 'output longitudes are grid longitudes moved by whole turns into the range')
            S.check(S.eq(d[i, j], vals[rows[i] * m + src[0]]), 'values stay with their grid points')


def lists(S, cfg):
    n, nv = cfg['n'], cfg['nv']
    z, _ = axis(S, 'z', n, -100, 100)
    vals = [S.reals('d%d_' % v, n * 2) for v in range(nv)]
    gs = GriddedDataList([cube(S, v, [dim(S, 'altitude', z), dim(S, 'latitude', [1.0, 2.0])], name='v%d' % k)
                          for k, v in enumerate(vals)])
    lo, hi = S.real('lo', -200, 200), S.real('hi', -200, 200)
    S.assume(lo <= hi)
    r = gs.subset(altitude=[lo, hi])
    rows = [i for i in range(n) if lo <= z[i] and z[i] <= hi]
    if not rows:
        S.check(r is None, 'nothing is returned when no grid point is inside the limits')
        return
    S.check(r is not None and len(r) == nv, 'every variable of the list is subset')
    for v in range(nv):
        S.check(r[v].name() == 'v%d' % v, 'variables keep their order')
        verify(S, r[v], rows, vals[v], None, 2, None)


HARNESSES = {'plain': plain, 'circ': circ, 'time': time, 'both': both, 'lists': lists}
