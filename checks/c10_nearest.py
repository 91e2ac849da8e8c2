"""C10: nearest-neighbour collocation of ungridded data onto ungridded and gridded samples."""
import math
import os
import numpy as np
import sys
from symx import trig
trig.install()
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx import cubes, grids  # noqa
from symx.harness import masked_at, val_at
import cis.collocation.col_implementations as ci

quiet_metadata()
EPS = 1e-9
OTHER = {'a': 'altitude', 'p': 'air_pressure', 't': 'time'}
KERNELS = {'h': ('nn_h', 'nn_horizontal'), 'a': ('nn_a', 'nn_altitude'), 'p': ('nn_p', 'nn_pressure'),
           't': ('nn_t', 'nn_time'), 'o': ('nn_horizontal_only',)}


def build(S, tag, n, d, cfg, mask, table):
    la, lo = [0.0] * n, [0.0] * n
    c = {}
    if d in 'ho':
        if cfg.get('sym_lat'):
            la = S.reals(tag + 'Lat', n, -90, 90)
            trig.prefer(S, ['%sLat%d' % (tag, i) for i in range(n)])
        else:
            la = [float(x) for x in table[:n]]
            lo = S.reals(tag + 'Lon', n, -180, 180)
            trig.prefer(S, ['%sLon%d' % (tag, i) for i in range(n)])
    else:
        v = S.reals(tag + d, n, 1 if d == 'p' else -1000, 1000)
        c[OTHER[d]] = v
    c['latitude'], c['longitude'] = la, lo
    if cfg.get('box'):
        c['altitude' if d != 'a' else 'time'] = S.reals(tag + 'B', n, 0, 100)
    vals = S.reals(tag + 'V', n, -100, 100)
    cs = [coord(S, k, c[k]) for k in ('latitude', 'longitude', 'altitude', 'air_pressure', 'time') if k in c]
    return c, vals, ug(S, vals, CoordList(cs), mask=mask)


def not_farther(S, d, s, i, p, j, k):
    """data point j is no farther from sample i than data point k"""
    if d in 'ho':
        return trig.hav(S, s['latitude'][i], s['longitude'][i], p['latitude'][j], p['longitude'][j]) <= \
            trig.hav(S, s['latitude'][i], s['longitude'][i], p['latitude'][k], p['longitude'][k]) + EPS
    a, x, y = s[OTHER[d]][i], p[OTHER[d]][j], p[OTHER[d]][k]
    if d != 'p':
        return abs(a - x) <= abs(a - y) + (EPS if not S.symbolic else 0)
    # pressure ratio (>= 1): max/min
    hx, lx = (a, x) if a > x else (x, a)
    hy, ly = (a, y) if a > y else (y, a)
    return hx * ly <= hy * lx * (1 + (EPS if not S.symbolic else 0))


def nn(S, cfg):
    n, m, d = cfg['n'], cfg['m'], cfg['d']
    mask = S.missing('dm', n)
    smask = S.missing('sm', m) if m > 1 else [S.bool('sm0')]
    mds = cfg.get('mds', True)
    s, sv, sample = build(S, 's', m, d, cfg, smask, cfg.get('slats', [30, 0]))
    p, dv, data = build(S, 'd', n, d, cfg, mask, cfg.get('lats', [0, 60, 30]))
    kw = {}
    sep = None
    if cfg.get('box'):
        bn = 'altitude' if d != 'a' else 'time'
        sep = 20.0
        kw = dict(a_sep=20) if d != 'a' else dict(t_sep='P20D')
    if d == 'o':
        kw['h_sep'] = '1km'           # documented as needed to build the index; the nearest point is not limited by it
    S_kernel = cfg['kernel']
    out = data.collocated_onto(sample, kernel=S_kernel, missing_data_for_missing_sample=mds, **kw)
    S.check(len(out) == 1 and out[0].data.shape == (m,), 'one value per sample point')
    r = out[0].data
    S.check(out[0].var_name == 'rain', 'named after the data')
    for i in range(m):
        cand = [j for j in range(n) if not mask[j]]
        if sep is not None:
            cand = [j for j in cand if abs(s[bn][i] - p[bn][j]) < sep]
        if (mds and smask[i]) or not cand:
            S.check(masked_at(r, i), 'no value without a candidate')
            continue
        S.check(not masked_at(r, i), 'a sample with candidates gets a value')
        x = val_at(r, i)
        # the value belongs to a nearest candidate
        ok = False
        for j in cand:
            if S.near(x, dv[j]):
                if all(bool(not_farther(S, d, s, i, p, j, k)) for k in cand):
                    ok = True
                    break
        S.check(ok, 'the value is that of a nearest point')
    S.observe_array('r', r) if not cfg.get('sym_lat') else None


def grid(S, cfg):
    """onto the points of a grid"""
    n, d = cfg['n'], cfg['d']
    mask = S.missing('dm', n)
    have = [OTHER[d]] if d in OTHER else []
    s, smask, sample, shared, shape = grids.sample(S, cfg, have + ['latitude', 'longitude'])
    mds = cfg.get('mds', True)
    p, dv, data = build(S, 'd', n, d, cfg, mask, cfg.get('lats', [0, 60, 30]))
    kw = dict(h_sep='1km') if d == 'o' else {}
    out = data.collocated_onto(sample, how='box', kernel=cfg['kernel'], missing_data_for_missing_sample=mds, **kw)
    S.check(len(out) == 1 and out[0].data.shape == shape and [c.name() for c in out[0].coords(dim_coords=True)] == shared,
            'one value per sample point')
    r = out[0].data
    S.check(out[0].var_name == 'rain', 'named after the data')
    cand = [j for j in range(n) if not mask[j]]
    for i, ix in enumerate(np.ndindex(*shape)):
        if (mds and smask[i]) or not cand:
            S.check(masked_at(r, ix), 'no value without a candidate')
            continue
        S.check(not masked_at(r, ix), 'a sample with candidates gets a value')
        x = val_at(r, ix)
        S.check(any(bool(S.near(x, dv[j])) and all(bool(not_farther(S, d, s, i, p, j, k)) for k in cand) for j in cand),
                'the value is that of a nearest point')


HARNESSES = dict(nn=nn, grid=grid)


def configs(tier):
    c = []
    big = tier != 'quick'
    for d in 'apt':
        for kern in KERNELS[d]:
            c.append(dict(harness='nn', d=d, n=3 if kern == KERNELS[d][0] else 2, m=1, kernel=kern, _w=3))
        c.append(dict(harness='nn', d=d, n=2, m=1, kernel=KERNELS[d][0], box=True))
        c.append(dict(harness='nn', d=d, n=2, m=2, kernel=KERNELS[d][0], mds=False, _w=2))
    for kern in KERNELS['h']:
        c.append(dict(harness='nn', d='h', n=2, m=1, kernel=kern, _w=2))
    c.append(dict(harness='nn', d='h', n=2, m=1, kernel='nn_h', sym_lat=True, _w=2))
    c.append(dict(harness='nn', d='h', n=2, m=1, kernel='nn_h', box=True, lats=[0, 0], slats=[60], _w=4))
    c.append(dict(harness='nn', d='h', n=3, m=1, kernel='nn_h', lats=[0, 0, 0], slats=[0], _w=6))
    c.append(dict(harness='nn', d='o', n=2, m=1, kernel='nn_horizontal_only', _w=3))
    c.append(dict(harness='nn', d='o', n=2, m=2, kernel='nn_horizontal_only', lats=[0, 0], mds=False,
                  slats=[0, 30], _w=6) if big else
             dict(harness='nn', d='o', n=2, m=2, kernel='nn_horizontal_only', sym_lat=True, mds=False, _w=6))
    if big:
        for d in 'apt':
            c.append(dict(harness='nn', d=d, n=4, m=1, kernel=KERNELS[d][0], _w=9))
            c.append(dict(harness='nn', d=d, n=3, m=1, kernel=KERNELS[d][0], box=True, _w=9))
        c.append(dict(harness='nn', d='h', n=3, m=1, kernel='nn_h', sym_lat=True, _w=9))
        c.append(dict(harness='nn', d='h', n=3, m=1, kernel='nn_h', _w=9))
        c.append(dict(harness='nn', d='o', n=3, m=1, kernel='nn_horizontal_only', _w=9))
    for d in 'apt':
        c.append(dict(harness='grid', d=d, n=2, kernel=KERNELS[d][0], grid=[(OTHER[d], 2, 'desc')], mds=d != 'a', _w=3))
    c.append(dict(harness='grid', d='h', n=2, kernel='nn_h', lats=[0, 0], _w=6, grid=[('longitude', 2, 'asc'), ('latitude', 1, 'asc')]))
    c.append(dict(harness='grid', d='o', n=2, kernel='nn_horizontal_only', lats=[0, 0], _w=6,
                  grid=[('longitude', 1, 'asc'), ('latitude', 2, 'desc')]))
    return c


OPTIONS = dict(max_paths=200000, validate=30)
BOUNDS = {'quick': 'two or three data points and one or two sample points with arbitrary altitude/pressure/time, value and '
          'missing flag; horizontally every longitude on tabulated latitudes or every latitude on one meridian; grids of two points, with arbitrary axes unless horizontal',
          'thorough': 'three or four data points'}
OUTSIDE = 'horizontal ties closer than 1e-9 in sin^2 of half the angle; more points'
STUBS = [STUB_NOTE, cubes.STUB_NOTE, 'great-circle arithmetic as in C37 (symx/trig.py)']
ASSUMPTIONS = []
