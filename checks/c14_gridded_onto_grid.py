"""C14: collocation of gridded data onto a gridded sample."""
from itertools import product
import numpy as np
from symx import cubes, regular
from symx.build import STUB_NOTE
from symx.harness import masked_at, val_at
from cis.data_io.gridded_data import GriddedDataList

TABLE = {'latitude': [-60.0, 0.0, 20.0, 60.0], 'longitude': [10.0, 100.0, 200.0, 300.0], 'time': [5.0, 10.0, 30.0],
         'altitude': [0.0, 100.0, 500.0], 'air_pressure': [100.0, 500.0, 1000.0]}
RANGE = {'latitude': (-90, 90), 'longitude': (0, 359), 'time': (1, 60), 'altitude': (-100, 1000), 'air_pressure': (1, 1100)}


def pick(S, g, x, method, circ):
    """(inside?, [(index, weight)]) of x on the axis g (in its own order)"""
    idx = list(range(len(g)))
    a = list(g)
    if a[0] > a[-1]:
        a, idx = a[::-1], idx[::-1]
    if circ:
        moved = sorted((v % 360.0, i) for v, i in zip(a, idx))
        a, idx = [m[0] for m in moved], [m[1] for m in moved]
        a = [a[-1] - 360] + a + [a[0] + 360]
        idx = [idx[-1]] + idx + [idx[0]]
        if x < 0:
            x = x + 360
    inside = bool(x >= a[0]) and bool(x <= a[-1])
    k = 0
    while k < len(a) - 2 and x > a[k + 1]:
        k += 1
    w = (x - a[k]) / (a[k + 1] - a[k])
    if method == 'nn':
        S.assume(abs(w - 0.5) > 1e-6)
        return inside, [(idx[k], 1)] if w <= 0.5 else [(idx[k + 1], 1)]
    return inside, [(idx[k], 1 - w), (idx[k + 1], w)]


def gg(S, cfg):
    dims, sdims, how = cfg['dims'], cfg['sdims'], cfg['how']
    n, m = cfg['n'], cfg['m']
    order, sorder = cfg.get('order', {}), cfg.get('sorder', {})
    circ = cfg.get('circular', False)
    nvar = cfg.get('nvar', 1)
    grid = {d: (TABLE[d][:k] if order.get(d) != 'desc' else TABLE[d][:k][::-1]) for d, k in zip(dims, n)}
    if cfg.get('shift'):
        grid['longitude'] = [v + cfg['shift'] for v in grid['longitude']]
    size = int(np.prod(n))
    vals = [S.reals('v%d_' % k, size, -100, 100) if cfg.get('symvals') else
            [float((i * 7 + k * 3 + i * i) % 11) for i in range(size)] for k in range(nvar)]
    gm = [S.bool('gm%d' % i) for i in range(size)] if cfg.get('gmask') else [False] * size
    data = [cubes.cube(S, vals[k], [cubes.dim(S, d, grid[d], circular=circ and d == 'longitude') for d in dims], mask=gm,
                       name='rain%d' % k) for k in range(nvar)]
    data = data[0] if nvar == 1 else GriddedDataList(data)
    sp = {}
    for d, k in zip(sdims, m):
        lo, hi = RANGE.get(d, (0, 100))
        if d == 'longitude' and cfg.get('neg'):
            lo, hi = -180, 179
        if d in cfg.get('fixed', {}):
            sp[d] = list(cfg['fixed'][d])
        else:
            sp[d] = cubes.axis(S, 's' + d, k, lo, hi, sorder.get(d, 'asc'), gap=1 if k > 1 else None)[0]
        if d == 'longitude' and cfg.get('neg'):
            S.assume(sp[d][0] < 0 if sorder.get(d) != 'desc' else sp[d][-1] < 0)
    ssize = int(np.prod(m))
    smask = [S.bool('sm%d' % i) for i in range(ssize)] if cfg.get('smask') else None
    sample = cubes.cube(S, [1.0] * ssize, [cubes.dim(S, d, sp[d]) for d in sdims], mask=smask, name='snow')
    kw = {}
    if cfg.get('extrapolate'):
        kw['extrapolate'] = True
    if cfg.get('mds') is not None:
        kw['missing_data_for_missing_sample'] = cfg['mds']
    if cfg.get('names'):
        kw.update(var_name='abc', var_long_name='def', var_units='m')
    out = data.collocated_onto(sample, how='' if cfg.get('default') else how, **kw)
    S.check(len(out) == nvar, 'one result for each variable')
    shared = [d for d in sdims if d in dims]
    rest = [d for d in dims if d not in sdims]
    shape = tuple([m[sdims.index(d)] for d in shared] + [n[dims.index(d)] for d in rest])
    for k in range(nvar):
        r = out[k]
        S.check(r.shape == shape, 'the dimensions of the sample, then those only in the data')
        S.check([c.name() for c in r.coords(dim_coords=True)] == shared + rest, 'their coordinates')
        S.check((r.var_name, r.long_name, str(r.units)) == (('abc', 'def', 'm') if cfg.get('names') else
                                                            ('rain%d' % k, 'rain%d' % k, '1')), 'names')
        for d in shared:
            for i, v in enumerate(sp[d]):
                S.check(S.eq(r.coord(d).points[i], v), 'on the points of the sample')
        for d in rest:
            for i, v in enumerate(grid[d]):
                S.check(S.eq(r.coord(d).points[i], v), 'the other coordinates of the data')
        arr = np.array(vals[k], dtype=object).reshape(n)
        locs = {d: [pick(S, grid[d], x, how, circ and d == 'longitude') for x in sp[d]] for d in shared}
        for out_ix in np.ndindex(*shape):
            inside, parts = True, {}
            for d, q in zip(shared + rest, out_ix):
                if d in rest:
                    parts[d] = [(q, 1)]
                else:
                    ins, ws = locs[d][q]
                    inside = inside and ins
                    parts[d] = ws
            if smask and cfg.get('mds', True) and len(shared) == len(sdims):
                at = tuple(out_ix[:len(shared)])
                if smask[int(np.ravel_multi_index(at, m))]:
                    S.check(masked_at(r.data, out_ix), 'missing where the sample is missing')
                    continue
            if not inside and not cfg.get('extrapolate'):
                S.check(masked_at(r.data, out_ix), 'missing outside of the grid')
                continue
            tot, miss = 0, False
            for combo in product(*[parts[d] for d in dims]):
                f, ix = 1, []
                for q, g in combo:
                    ix.append(q)
                    f = f * g
                tot = tot + f * arr[tuple(ix)]
                if gm[int(np.ravel_multi_index(ix, n))] and f != 0:
                    miss = True
            if miss:
                S.check(masked_at(r.data, out_ix), 'missing where the data used are missing')
                continue
            S.check(not masked_at(r.data, out_ix), 'a value inside of the grid')
            S.check(S.near(val_at(r.data, out_ix), tot), 'interpolated value')
        S.observe_array('r', r.data)


HARNESSES = dict(gg=gg)


def configs(tier):
    c = []
    B = dict(harness='gg')
    for how in ('lin', 'nn'):
        c += [dict(B, how=how, dims=['latitude'], n=[3], sdims=['latitude'], m=[2], symvals=True, smask=True),
              dict(B, how=how, dims=['latitude', 'longitude'], n=[2, 3], sdims=['longitude', 'latitude'], m=[2, 1],
                   order={'latitude': 'desc'}, symvals=True, names=True),
              dict(B, how=how, dims=['longitude', 'latitude'], n=[4, 2], sdims=['latitude', 'longitude'], m=[1, 2],
                   circular=True, neg=True, sorder={'longitude': 'desc'}),
              dict(B, how=how, dims=['latitude', 'longitude'], n=[2, 3], sdims=['latitude', 'longitude'], m=[1, 1],
                   circular=True, shift=-180, order={'longitude': 'desc'}, smask=True, mds=False, symvals=True),
              dict(B, how=how, dims=['time', 'latitude'], n=[2, 2], sdims=['latitude'], m=[2], smask=True, symvals=True),
              dict(B, how=how, dims=['latitude', 'time', 'altitude'], n=[2, 3, 2], sdims=['altitude', 'latitude'], m=[2, 2],
                   smask=True, fixed={'latitude': [-10.0, 70.0], 'altitude': [40.0, 60.0]}, order={'time': 'desc'},
                   symvals=True),
              dict(B, how=how, dims=['latitude', 'time', 'altitude'], n=[2, 3, 3], sdims=['altitude', 'time', 'latitude'],
                   m=[1, 2, 1], fixed={'latitude': [-10.0]}, smask=True),
              dict(B, how=how, dims=['time'], n=[3], sdims=['latitude', 'time'], m=[2, 2], smask=True),
              dict(B, how=how, dims=['time', 'altitude'], n=[2, 3], sdims=['time', 'altitude'], m=[2, 2], nvar=2,
                   extrapolate=True),
              dict(B, how=how, dims=['latitude', 'time'], n=[2, 2], sdims=['time', 'latitude'], m=[2, 1], gmask=True,
                   fixed={'latitude': [-20.0]}, smask=True)]
    c.append(dict(B, how='lin', default=True, dims=['air_pressure'], n=[3], sdims=['air_pressure'], m=[3], nvar=2, symvals=True))
    if tier != 'quick':
        for how in ('lin', 'nn'):
            c += [dict(B, how=how, dims=['latitude'], n=[4], sdims=['latitude'], m=[4], symvals=True, smask=True),
                  dict(B, how=how, dims=['latitude', 'longitude'], n=[3, 4], sdims=['longitude', 'latitude'], m=[2, 2],
                       order={'latitude': 'desc'}, symvals=True, circular=True),
                  dict(B, how=how, dims=['longitude', 'latitude'], n=[4, 2], sdims=['latitude', 'longitude'], m=[2, 3],
                       circular=True, neg=True, sorder={'longitude': 'desc'}, smask=True)]
    return c


OPTIONS = dict(max_paths=200000, validate=20)
BOUNDS = {'quick': 'data grids of two to four points in one to three dimensions, either direction, on tabulated coordinates; '
          'samples of one to three arbitrary points per dimension; arbitrary values and missing flags',
          'thorough': 'four sample points, two by three samples'}
OUTSIDE = 'rotated longitudes of grids which are not circular; extrapolated longitudes; larger grids; sample points half way '\
    'between data points (nearest)'
STUBS = [cubes.STUB_NOTE, regular.STUB_NOTE]
ASSUMPTIONS = []
