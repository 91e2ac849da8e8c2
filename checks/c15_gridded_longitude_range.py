"""C15: GriddedData.set_longitude_range moves whole columns into the requested range."""
import numpy as np
from symx.build import STUB_NOTE
from symx import cubes
from symx.harness import masked_at, val_at


def turn(S, lon, start):
    import math
    q = (lon - start) / 360
    return 360 * (q.floor() if hasattr(q, 'floor') else math.floor(q))


def rng(S, cfg):
    n, other = cfg['n'], cfg.get('other', 2)
    lon, bnd = cubes.axis(S, 'lon', n, -720, 720, cfg.get('order', 'asc'), cfg.get('bounds', False))
    lo, hi = (lon[0], lon[-1]) if cfg.get('order', 'asc') == 'asc' else (lon[-1], lon[0])
    S.assume(hi - lo < 360)
    if bnd:
        f = [x for b in bnd for x in b]
        b0, b1 = (f[0], f[-1]) if cfg.get('order', 'asc') == 'asc' else (f[-1], f[0])
        S.assume(b1 - b0 <= 360)
    start = S.real('start', -360, 360)
    if cfg.get('start') is not None:
        start = cfg['start']
    lat = [10.0 * (i + 1) for i in range(other)]
    lonc = cubes.dim(S, 'longitude', lon, bounds=bnd, circular=cfg.get('circular', False))
    latc = cubes.dim(S, 'latitude', lat)
    first = cfg.get('lonfirst', False)
    dims = [lonc, latc] if first else [latc, lonc]
    vals = S.reals('v', n * other, -100, 100)
    mask = S.missing('m', n * other) if cfg.get('mask') else [False] * (n * other)
    auxs, a1, a2 = [], None, None
    if cfg.get('aux'):
        a1 = S.reals('a', n, -10, 10)
        a1b = [(a1[i] - 1, a1[i] + 1) for i in range(n)]
        a2 = S.reals('h', n * other, -10, 10)
        auxs = [(cubes.aux(S, 'surface_x', a1, bounds=a1b), 0 if first else 1),
                (cubes.aux(S, 'hybrid_y', a2, shape=(n, other) if first else (other, n)), (0, 1))]
        auxs.append((cubes.aux(S, 'lat_z', [1.0 * i for i in range(other)]), 1 if first else 0))
    c = cubes.cube(S, vals, dims, mask=mask, auxs=auxs)
    c.set_longitude_range(start)
    r = c.coord('longitude')
    S.check(c.shape == ((n, other) if first else (other, n)) and c.coord_dims(r) == ((0,) if first else (1,)), 'shape')
    new = [lon[j] - turn(S, lon[j], start) for j in range(n)]
    order = list(range(n))
    desc = cfg.get('order', 'asc') != 'asc'
    for i in range(n):            # selection sort
        for k in range(i + 1, n):
            if (new[order[k]] > new[order[i]]) if desc else (new[order[k]] < new[order[i]]):
                order[i], order[k] = order[k], order[i]
    S.check((r.bounds is not None) == bool(bnd), 'bounds kept')
    for k in range(n):
        j = order[k]
        S.check(S.eq(r.points[k], new[j]), 'longitudes within the range, in order')
        S.check(r.points[k] >= start and r.points[k] < start + 360, 'in range')
        if bnd:
            for e in (0, 1):
                S.check(S.eq(r.bounds[k, e], bnd[j][e] - turn(S, lon[j], start)), 'the bounds move with their point')
        for i in range(other):
            ki, ji = ((k, i), j * other + i) if first else ((i, k), i * n + j)
            S.check(masked_at(c.data, ki) == mask[ji], 'missing values move along')
            if not mask[ji]:
                S.check(S.eq(val_at(c.data, ki), vals[ji]), 'values move along')
            if a2:
                S.check(S.eq(c.coord('hybrid_y').points[ki], a2[ji]), '2-D auxiliary coordinate moves along')
        if a1:
            S.check(S.eq(c.coord('surface_x').points[k], a1[j]), 'auxiliary coordinate moves along')
            S.check(S.eq(c.coord('surface_x').bounds[k, 0], a1[j] - 1) and
                    S.eq(c.coord('surface_x').bounds[k, 1], a1[j] + 1), 'auxiliary bounds move along')
    if a1:
        for i in range(other):
            S.check(c.coord('lat_z').points[i] == i, 'other coordinates stay')
    for i in range(other):
        S.check(c.coord('latitude').points[i] == lat[i], 'latitudes stay')
    if cfg.get('circular'):
        S.check(r.circular, 'still circular')
    S.observe_array('lon', r.points)
    S.observe_array('data', c.data)


def scalar(S, cfg):
    """a longitude which is not a dimension of the data"""
    lon = S.real('lon', -720, 720)
    start = S.real('start', -360, 360)
    vals = S.reals('v', 2)
    c = cubes.cube(S, vals, [cubes.dim(S, 'latitude', [10.0, 20.0])])
    c.add_aux_coord(cubes.aux(S, 'longitude', [lon]))
    c.set_longitude_range(start)
    p = c.coord('longitude').points
    S.check(p.shape == (1,) and S.eq(p[0], lon - turn(S, lon, start)), 'the longitude is moved into the range')
    for i in range(2):
        S.check(S.eq(val_at(c.data, i), vals[i]), 'the data stay')


def nolon(S, cfg):
    vals = S.reals('v', 2)
    start = S.real('start', -360, 360)
    lat = cubes.axis(S, 'lat', 2, -90, 90)[0]
    c = cubes.cube(S, vals, [cubes.dim(S, 'latitude', lat)])
    c.set_longitude_range(start)
    for i in range(2):
        S.check(S.eq(c.coord('latitude').points[i], lat[i]) and S.eq(val_at(c.data, i), vals[i]), 'nothing changes')


def lists(S, cfg):
    """a list of variables"""
    lon, _ = cubes.axis(S, 'lon', 2, -360, 720)
    S.assume(lon[1] - lon[0] < 360)
    start = S.real('start', -360, 360)
    vs = [S.reals('v%d' % k, 2) for k in range(2)]
    from cis.data_io.gridded_data import GriddedDataList
    cl = GriddedDataList([cubes.cube(S, v, [cubes.dim(S, 'longitude', lon)], name='x%d' % k) for k, v in enumerate(vs)])
    cl.set_longitude_range(start)
    new = [x - turn(S, x, start) for x in lon]
    o = (0, 1) if new[0] < new[1] else (1, 0)
    for k in range(2):
        for q in range(2):
            S.check(S.eq(cl[k].coord('longitude').points[q], new[o[q]]), 'every variable is moved')
            S.check(S.eq(val_at(cl[k].data, q), vs[k][o[q]]), 'every variable is moved')


HARNESSES = dict(rng=rng, scalar=scalar, nolon=nolon, lists=lists)


def configs(tier):
    c = [dict(harness='scalar'), dict(harness='nolon'), dict(harness='lists')]
    for order in ('asc', 'desc'):
        c.append(dict(harness='rng', n=3, order=order, other=2, mask=False, circular=True))
        c.append(dict(harness='rng', n=2, order=order, bounds=True, mask=True, other=1))
        c.append(dict(harness='rng', n=3, order=order, bounds=True, other=1, start=-180))
        c.append(dict(harness='rng', n=2, order=order, aux=True, lonfirst=True))
        c.append(dict(harness='rng', n=3, order=order, aux=True, bounds=True, start=0))
    c.append(dict(harness='rng', n=1, bounds=True))
    if tier != 'quick':
        for order in ('asc', 'desc'):
            c.append(dict(harness='rng', n=5, order=order, other=1, bounds=True))
            c.append(dict(harness='rng', n=4, order=order, other=2, bounds=True, aux=True, lonfirst=True))
            c.append(dict(harness='rng', n=3, order=order, other=2, mask=True))
    return c


OPTIONS = dict(max_paths=200000, validate=20)
BOUNDS = {'quick': 'one to three ascending or descending longitudes (anywhere within two turns, spanning less than a turn), '
          'one or two latitudes, arbitrary range start, bounds, values and missing flags', 'thorough': 'up to five longitudes'}
OUTSIDE = 'longitudes which span a turn or more; lazily loaded data; rounding of floating point arithmetic'
STUBS = [cubes.STUB_NOTE]
ASSUMPTIONS = []
