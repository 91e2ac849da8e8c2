"""C12: binning ungridded data onto the cells of a gridded sample."""
import math
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx import cubes
from symx.harness import masked_at, val_at

quiet_metadata()
PTS = {'latitude': [-60.0, 0.0, 50.0], 'longitude': [20.0, 100.0, 300.0], 'time': [5.0, 10.0, 30.0],
       'altitude': [10.0, 100.0, 500.0], 'air_pressure': [100.0, 500.0, 1000.0]}
RANGE = {'latitude': (-90, 90), 'longitude': (-360, 720), 'time': (0, 60), 'altitude': (0, 1000), 'air_pressure': (1, 1500)}
STD = ('latitude', 'longitude', 'altitude', 'air_pressure', 'time')


def edges(d, p):
    """iris' guess: the midpoints; latitudes within the poles"""
    if len(p) == 1:
        return [p[0] - 5, p[0] + 5]
    e = [(a + b) / 2 for a, b in zip(p, p[1:])]
    e = [p[0] - (e[0] - p[0])] + e + [p[-1] + (p[-1] - e[-1])]
    return [min(max(v, -90.0), 90.0) for v in e] if d == 'latitude' else e


def binned(S, cfg):
    sdims, m = cfg['sdims'], cfg['m']
    sorder = cfg.get('sorder', {})
    n = cfg['n']
    ddims = cfg['ddims']
    dc = []
    cells = {}
    for d, k in zip(sdims, m):
        if cfg.get('bounds', {}).get(d) == 'sym':
            p, b = cubes.axis(S, 'g' + d, k, -180 if d == 'longitude' else RANGE[d][0],
                              179 if d == 'longitude' else RANGE[d][1], contiguous_bounds=True)
            lo, hi = (-180, 180) if d == 'longitude' else RANGE[d]
            S.assume(b[0][0] >= lo)
            S.assume(b[-1][1] <= hi)
            if d == 'longitude':
                S.assume(p[0] < 0)
        elif cfg.get('bounds', {}).get(d) == 'gap':
            e = S.reals('e' + d, 2 * k, *RANGE[d])
            cubes.increasing(S, e)
            b = [(e[2 * i], e[2 * i + 1]) for i in range(k)]
            p = [(x + y) / 2 for x, y in b]
        elif cfg.get('bounds', {}).get(d) == 'none':
            p = PTS.get(d, [0.0, 1.0, 2.0])[:k]
            e = edges(d, p)
            b = [(e[i], e[i + 1]) for i in range(k)]
        else:
            p = cfg.get('pts', {}).get(d, PTS[d])[:k]
            e = edges(d, p)
            if d == 'longitude':
                e = [p[0] - 20.0] + e[1:-1] + [p[-1] + 50.0]
            b = [(e[i], e[i + 1]) for i in range(k)]
        if sorder.get(d) == 'desc':
            p, b = list(p)[::-1], [(y, x) for x, y in b[::-1]]
        cells[d] = [(min2(x), max2(x)) for x in b]
        dc.append(cubes.dim(S, d, p, bounds=None if cfg.get('bounds', {}).get(d) == 'none' else b))
    ssize = int(np.prod(m))
    smask = [S.bool('sm%d' % i) for i in range(ssize)] if cfg.get('smask') else None
    auxs = [(cubes.aux(S, 'forecast_period', [3.0]), ())] if cfg.get('scalar') else []
    sample = cubes.cube(S, [1.0] * ssize, dc, mask=smask, name='snow', auxs=auxs)
    pos = {}
    for d in ddims:
        pos[d] = list(cfg['fixed'][d]) if d in cfg.get('fixed', {}) else S.reals('d' + d, n, *RANGE[d])
    nvar = cfg.get('nvar', 1)
    vals = [S.reals('v%d_' % k, n, -100, 100) for k in range(nvar)]
    mask = [S.bool('m%d' % i) for i in range(n)] if cfg.get('mask', True) else [False] * n
    cs = [coord(S, d, pos[d]) for d in STD if d in pos]
    for d in ('latitude', 'longitude'):
        if d not in pos:
            cs.append(coord(S, d, [0.0] * n))
    data = [ug(S, vals[k], CoordList([c.copy() for c in cs]), mask=mask, name='rain%d' % k) for k in range(nvar)]
    data = data[0] if nvar == 1 else UngriddedDataList(data)
    kw = {}
    if cfg.get('mds') is not None:
        kw['missing_data_for_missing_sample'] = cfg['mds']
    if cfg.get('names'):
        kw.update(var_name='abc', var_long_name='def', var_units='m')
    kernel = cfg.get('kernel', 'sum')
    out = data.collocated_onto(sample, how=cfg.get('how', 'bin'), kernel=kernel if kernel != 'moments' else '', **kw)
    per = 3 if kernel == 'moments' else 1
    S.check(len(out) == nvar * per, 'results for each variable')
    shared = [d for d in sdims if d in ddims]
    shape = tuple(m[sdims.index(d)] for d in shared)
    start = -180.0 if any(cfg.get('bounds', {}).get('longitude') == 'sym' for _ in (1,)) else 0.0
    lonp = list(pos['longitude']) if 'longitude' in pos else None
    if lonp is not None and 'longitude' in shared:
        # the turn on which the cells lie
        lo = cells['longitude'][0][0] if sorder.get('longitude') != 'desc' else cells['longitude'][-1][0]
        base = start if cfg.get('bounds', {}).get('longitude') == 'sym' else lo
        q = [(x - base) / 360 for x in lonp]
        lonp = [x - 360 * (t.floor() if hasattr(t, 'floor') else math.floor(t)) for x, t in zip(lonp, q)]
    nm = [False] * ssize if (smask is None or cfg.get('mds', True) is False) else smask
    for k in range(nvar):
        for j in range(per):
            r = out[k * per + j]
            S.check(r.shape == shape, 'the dimensions of the sample which the data have')
            S.check([c.name() for c in r.coords(dim_coords=True)] == shared, 'in the order of the sample')
            base = 'abc' if cfg.get('names') else 'rain%d' % k
            S.check(r.var_name == base + ('', '_std_dev', '_num_points')[j], 'names')
            if cfg.get('names') and j == 0:
                S.check(r.long_name == 'def' and str(r.units) == 'm', 'long name and units')
            for ix in np.ndindex(*shape):
                ins = []
                for i in range(n):
                    if mask[i]:
                        continue
                    ok = True
                    for d, c in zip(shared, ix):
                        x = lonp[i] if d == 'longitude' else pos[d][i]
                        lo, hi = cells[d][c]
                        if not (x >= lo and x < hi):
                            ok = False
                            break
                    if ok:
                        ins.append(i)
                if len(shared) == len(sdims) and nm[int(np.ravel_multi_index(ix, m))]:
                    S.check(masked_at(r.data, ix), 'missing where the sample is missing')
                    continue
                if not ins or (j == 1 and len(ins) < 2):
                    S.check(masked_at(r.data, ix), 'missing without points')
                    continue
                S.check(not masked_at(r.data, ix), 'a cell with points has a value')
                v = [vals[k][i] for i in ins]
                got = val_at(r.data, ix)
                if j == 2:
                    S.check(S.eq(got, len(v)), 'number of points')
                elif j == 1:
                    mean = sum(v) / len(v)
                    S.check(S.near(got * got, sum((x - mean) * (x - mean) for x in v) / (len(v) - 1), 1e-6),
                            'standard deviation')
                elif kernel == 'sum':
                    S.check(S.near(got, sum(v)), 'sum of the points in the cell')
                elif kernel == 'max':
                    big = v[0]
                    for x in v[1:]:
                        big = x if x > big else big
                    S.check(S.near(got, big), 'maximum of the points in the cell')
                else:
                    S.check(S.near(got, sum(v) / len(v)), 'mean of the points in the cell')
            if j != 1:
                S.observe_array('r', r.data)


def min2(x):
    return x[0] if x[0] < x[1] else x[1]


def max2(x):
    return x[1] if x[0] < x[1] else x[0]


HARNESSES = dict(binned=binned)


def configs(tier):
    B = dict(harness='binned')
    c = []
    for o in ('asc', 'desc'):
        c += [dict(B, sdims=['latitude'], m=[3], ddims=['latitude'], n=2, bounds={'latitude': 'sym'}, sorder={'latitude': o}),
              dict(B, sdims=['longitude'], m=[2], ddims=['longitude'], n=2, sorder={'longitude': o}, nvar=2),
              dict(B, sdims=['longitude'], m=[2], ddims=['longitude', 'latitude'], n=1, sorder={'longitude': o},
                   bounds={'longitude': 'sym'}),
              dict(B, sdims=['altitude'], m=[2], ddims=['altitude'], n=2, sorder={'altitude': o},
                   bounds={'altitude': 'gap'}, mask=False),
              dict(B, sdims=['time', 'latitude'], m=[2, 2], ddims=['latitude', 'time'], n=2, sorder={'time': o}, smask=True,
                   fixed={'latitude': [-40.0, -10.0]}, names=True),
              dict(B, sdims=['air_pressure'], m=[3], ddims=['air_pressure'], n=2, sorder={'air_pressure': o}, smask=True,
                   bounds={'air_pressure': 'none'}, kernel='max')]
    c += [dict(B, sdims=['latitude'], m=[2], ddims=['latitude', 'altitude'], n=3, kernel='moments', how='', smask=True,
               mds=False, fixed={'altitude': [1.0, 2.0, 3.0]}),
          dict(B, sdims=['time', 'altitude'], m=[3, 2], ddims=['time'], n=2, kernel='mean', mds=False),
          dict(B, sdims=['altitude', 'longitude', 'latitude'], m=[1, 2, 2], ddims=['latitude', 'longitude', 'altitude'], n=1,
               smask=True, sorder={'latitude': 'desc'}, mask=False),
          dict(B, sdims=['time', 'latitude'], m=[2, 3], ddims=['latitude', 'time'], n=1, smask=True, scalar=True, mask=False,
               sorder={'latitude': 'desc'}),
          dict(B, sdims=['latitude', 'level'], m=[2, 2], ddims=['latitude'], n=2, bounds={'level': 'none'}, mds=False)]
    if tier != 'quick':
        for o in ('asc', 'desc'):
            c += [dict(B, sdims=['latitude'], m=[4], ddims=['latitude'], n=4, bounds={'latitude': 'sym'}, sorder={'latitude': o}),
                  dict(B, sdims=['longitude', 'latitude'], m=[3, 2], ddims=['latitude', 'longitude'], n=2, smask=True,
                       sorder={'longitude': o}),
                  dict(B, sdims=['altitude'], m=[3], ddims=['altitude'], n=3, bounds={'altitude': 'gap'},
                       sorder={'altitude': o})]
    return c


OPTIONS = dict(max_paths=400000, validate=20)
BOUNDS = {'quick': 'samples of one to three dimensions with one to three cells each, either direction, with arbitrary '
          'contiguous or separated bounds or none; one to three data points anywhere, with arbitrary values and missing flags',
          'thorough': 'four points in four cells, two points in three by two cells'}
OUTSIDE = 'overlapping cells; samples whose longitude cells span more than a turn; more cells and points; kernels which need '\
    'the positions of the points (nn_*)'
STUBS = [STUB_NOTE, cubes.STUB_NOTE]
ASSUMPTIONS = []
