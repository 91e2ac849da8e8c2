"""C06: aggregation puts every point into exactly the grid cell that contains it."""
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx import cubes
from symx.harness import masked_at, val_at

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE, 'np.arange of symbolic limits: the same arithmetic progression, exactly']
BOUNDS = {'quick': '1-3 points (missing flags symbolic), grids of 1-3 cells in one dimension (latitude, altitude or '
                   'longitude) or 2x2 in two, start and step symbolic; longitudes of data and grid within [-180, 360]',
          'thorough': '1-4 points, 1-4 cells'}
OUTSIDE = 'rounding of the number of cells when the step does not divide the range exactly in floating point'
ASSUMPTIONS = ['longitude grids start in [-180, 360] and span at most 360 degrees (documented)']


def configs(tier):
    out = []
    N = 3 if tier == 'quick' else 4
    for dim in ('altitude', 'latitude'):
        for n in range(1, N + 1):
            for m in range(1, N + 1):
                if (dim == 'latitude' and (n + m) % 2) or (n + m > N + 2):
                    continue
                out.append(dict(harness='grid', dim=dim, n=n, m=m, _w=n * m))
    for n in range(1, N):
        for m in range(1, N + 1):
            for rng in ('pm180', 'p360'):
                out.append(dict(harness='lon', n=n, m=m, data=rng, _w=n * m * 2))
    for n in range(1, N):
        out.append(dict(harness='two', n=n, _w=n * 6))
    out.append(dict(harness='lists', n=2, m=2))
    return out


def grid(S, name, m, lo, hi, smin=None):
    """a grid of m cells: start, step and an end that lies in the last cell"""
    start = S.real(name + 'A', lo, hi)
    step = S.real(name + 'D', smin or 0.001, 400)
    end = S.real(name + 'E')
    S.assume(end > start + step * (m - 1))
    S.assume(end <= start + step * m)
    return start, step, end


def verify(S, out, cells, contrib, vals, what):
    """out: flat results; contrib[c]: indices of the points that belong to cell c"""
    for c in range(cells):
        if not contrib[c]:
            S.check(masked_at(out, c), 'a cell containing no points is missing (%s)' % what)
        else:
            S.check(not masked_at(out, c), 'a cell containing points has a value (%s)' % what,
                    lambda: 'cell %d points %s' % (c, contrib[c]))
            t = vals[contrib[c][0]]
            for i in contrib[c][1:]:
                t = t + vals[i]
            S.check(S.eq(val_at(out, c), t), 'a cell is computed from exactly the points it contains (%s)' % what,
                    lambda: 'cell %d points %s' % (c, contrib[c]))
    S.observe_array('out', out)


def edges(start, step, end, m):
    """lower and upper edge of every cell (a single cell spans the range given)"""
    if m == 1:
        return [(start, end)]
    return [(start + step * j, start + step * (j + 1)) for j in range(m)]


def grid_(S, cfg):
    n, m, dim = cfg['n'], cfg['m'], cfg['dim']
    start, step, end = grid(S, 'g', m, *((-90, 90) if dim == 'latitude' else (-1000, 1000)))
    if dim == 'latitude':
        S.assume(start + step * m <= 90)
    x = S.reals('x', n, *((-90, 90) if dim == 'latitude' else (-2000, 2000)))
    d = S.reals('d', n)
    mask = S.missing('m', n) if n < 3 else [False] * n
    lon = [10.0 * i for i in range(n)]
    cl = [coord(S, dim, x), coord(S, 'longitude', lon)]
    if dim != 'latitude':
        cl.append(coord(S, 'latitude', lon))
    data = ug(S, d, CoordList(cl), mask=mask)
    r = data.aggregate(how='sum', **{dim: slice(start, end, step)})
    out = r.data.reshape(-1)
    S.check(out.size == m, 'the grid has the cells requested', lambda: str(out.shape))
    contrib = [[i for i in range(n) if not mask[i] and (lo <= x[i]) and (x[i] < hi)]
               for lo, hi in edges(start, step, end, m)]
    verify(S, out, m, contrib, d, dim)
    for i in range(n):
        S.check(S.eq(data.coord(standard_name=dim).data[i], x[i]), 'the source is unchanged')


RANGES = {'pm180': (-180, 180), 'p360': (0, 360)}


def lon(S, cfg):
    n, m = cfg['n'], cfg['m']
    start, step, end = grid(S, 'g', m, -180, 360)
    S.assume(end - start <= 360)
    S.assume(start + step * m <= start + 360)
    x = S.reals('x', n, *RANGES[cfg['data']])
    d = S.reals('d', n)
    mask = [False] * n
    lat = [10.0 * i for i in range(n)]
    data = ug(S, d, CoordList([coord(S, 'latitude', lat), coord(S, 'longitude', x)]))
    r = data.aggregate(how='sum', x=[start, end, step])
    out = r.data.reshape(-1)
    S.check(out.size == m, 'the grid has the cells requested', lambda: str(out.shape))
    contrib = [[i for i in range(n) if any((lo <= x[i] + 360 * k) & (x[i] + 360 * k < hi) for k in (-2, -1, 0, 1, 2))]
               for lo, hi in edges(start, step, end, m)]
    verify(S, out, m, contrib, d, 'longitude')


def two(S, cfg):
    n = cfg['n']
    a, da, ea = grid(S, 'a', 2, -1000, 1000)
    b, db, eb = grid(S, 'b', 2, -1000, 1000)
    x, z = S.reals('x', n, -2000, 2000), S.reals('z', n, -2000, 2000)
    if n > 1:       # outside points are covered by the one-point case
        for i in range(n):
            S.assume((a <= x[i]) & (x[i] < a + 2 * da) & (b <= z[i]) & (z[i] < b + 2 * db))
    d = S.reals('d', n)
    lat = [10.0 * i for i in range(n)]
    data = ug(S, d, CoordList([coord(S, 'time', z), coord(S, 'latitude', lat), coord(S, 'altitude', x)]))
    r = data.aggregate(how='sum', t=[b, eb, db], altitude=[a, ea, da])
    S.check(r.shape == (2, 1, 2), 'the dimensions follow the order of the coordinates of the data', str(r.shape))
    ex, ez = edges(a, da, ea, 2), edges(b, db, eb, 2)
    contrib = [[i for i in range(n) if (ez[q][0] <= z[i]) and (z[i] < ez[q][1]) and (ex[w][0] <= x[i])
                and (x[i] < ex[w][1])] for q in (0, 1) for w in (0, 1)]
    verify(S, r.data.reshape(-1), 4, contrib, d, 'time and altitude')


def lists(S, cfg):
    n, m = cfg['n'], cfg['m']
    start, step, end = grid(S, 'g', m, -1000, 1000)
    x = S.reals('x', n, -2000, 2000)
    cl = CoordList([coord(S, 'altitude', x), coord(S, 'latitude', [1.0 * i for i in range(n)])])
    ds = [S.reals('d', n), S.reals('e', n)]
    ms = [S.missing('m', n), S.missing('k', n)]
    data = UngriddedDataList([ug(S, ds[v], cl, mask=ms[v], name='v%d' % v) for v in (0, 1)])
    r = data.aggregate(how='sum', altitude=[start, end, step])
    S.check(len(r) == 2, 'every variable of a list is aggregated')
    for v in (0, 1):
        S.check(r[v].var_name == 'v%d' % v, 'variables keep their names')
        contrib = [[i for i in range(n) if not ms[v][i] and (lo <= x[i]) and (x[i] < hi)]
                   for lo, hi in edges(start, step, end, m)]
        verify(S, r[v].data.reshape(-1), m, contrib, ds[v], 'list')


HARNESSES = {'grid': grid_, 'lon': lon, 'two': two, 'lists': lists}
