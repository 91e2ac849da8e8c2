"""C09: box collocation of ungridded data uses exactly the data points inside every separation limit."""
import math
import numpy as np
import pandas as pd
from symx import trig
trig.install()
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx import cubes, grids  # noqa
from symx.harness import masked_at, val_at
import cis.collocation.col_implementations as ci
from cis.collocation.kdtree import RADIUS_EARTH

quiet_metadata()
EPS = 1e-9
DIMS = {'a': 'altitude', 'p': 'air_pressure', 't': 'time'}


def build(S, tag, n, dims, cfg, mask=None, lats=None, lons=None, name='rain'):
    """variable with symbolic coordinates in `dims`; positions in the horizontal from a table unless 'h' in dims"""
    pos = {}
    cs = []
    if 'h' in dims and cfg.get('sym_lat'):
        la = S.reals(tag + 'Lat', n, -90, 90)
        trig.prefer(S, ['%sLat%d' % (tag, i) for i in range(n)])
        lo = [float(v) for v in (lons or [0] * n)]
    elif 'h' in dims:
        la = [float(v) for v in (lats or [0] * n)]
        lo = S.reals(tag + 'Lon', n, -180, 180)
        trig.prefer(S, ['%sLon%d' % (tag, i) for i in range(n)])
    else:
        la = [float(i) for i in range(n)]
        lo = [float(i) for i in range(n)]
    pos['latitude'], pos['longitude'] = la, lo
    for d in 'apt':
        if d in dims:
            if d == 'p':
                # increments of one step around a symbolic scale: ratios stay linear
                v = S.reals(tag + 'P', n, 1, 1000)
            else:
                v = S.reals(tag + d.upper(), n, -1000 if d == 'a' else 0, 1000)
            pos[DIMS[d]] = v
    for nm in ('latitude', 'longitude', 'altitude', 'air_pressure', 'time'):
        if nm in pos:
            cs.append(coord(S, nm, pos[nm]))
    vals = cfg.get('_vals') or S.reals(tag + 'V', n, -100, 100)
    return pos, vals, ug(S, vals, CoordList(cs), mask=mask, name=name)


def inside(S, cfg, sp, i, dp, j, seps):
    """is data point j in the box around sample i?"""
    ok = True
    if 'h' in seps:
        h = trig.hav(S, sp['latitude'][i], sp['longitude'][i], dp['latitude'][j], dp['longitude'][j])
        R = trig.hav_of_angle(S, seps['h'])
        # the boundary itself belongs to the box only up to rounding: keep away from it
        S.assume(abs(h - R) > 1e-6) if not cfg.get('exact_h') else None
        if not (h <= R):
            return False
    if 'a' in seps and not (abs(sp['altitude'][i] - dp['altitude'][j]) < seps['a']):
        return False
    if 't' in seps and not (abs(sp['time'][i] - dp['time'][j]) < seps['t']):
        return False
    if 'p' in seps:
        a, b = sp['air_pressure'][i], dp['air_pressure'][j]
        hi, lo = (a, b) if a > b else (b, a)
        if not (hi < seps['p'] * lo):
            return False
    return ok


def total(v):
    t = v[0]
    for x in v[1:]:
        t = t + x
    return t


def constraint(S, cfg, seps):
    kw = {}
    if 'h' in seps:
        kw['h_sep'] = '1km'
    if 'a' in seps:
        kw['a_sep'] = '1m'
    if 'p' in seps:
        kw['p_sep'] = seps['p']
    if 't' in seps:
        kw['t_sep'] = 'P1D'
    con = ci.SepConstraintKdtree(**kw)
    # the limits as numbers (their parsing is another property)
    if 'h' in seps:
        con.h_sep = seps['h'] * math.pi / 180 * RADIUS_EARTH
    if 'a' in seps:
        con.a_sep = seps['a']
    if 't' in seps:
        con.t_sep = seps['t']
    if 'p' in seps:
        con.p_sep = seps['p']
    return con


def box(S, cfg):
    dims = cfg['dims']
    n, m = cfg['n'], cfg['m']
    mask = S.missing('dm', n)
    smask = S.missing('sm', m)
    mds = cfg.get('mds', True)
    sp, sv, sample = build(S, 's', m, dims, cfg, mask=smask, lats=cfg.get('slats'), lons=cfg.get('slons'))
    dp, dv, data = build(S, 'd', n, dims, cfg, mask=mask, lats=cfg.get('lats'), lons=cfg.get('lons'))
    seps = {}
    for d in cfg['seps']:
        if d == 'h':
            seps['h'] = float(cfg['ang'])
        elif d == 'p':
            seps['p'] = 1.5
        else:
            seps[d] = S.real('sep' + d, 0, 500)
    con = constraint(S, cfg, seps)
    out = ci.GeneralUngriddedCollocator(missing_data_for_missing_sample=mds).collocate(
        sample, data, con, ci.sum())
    S.check(len(out) == 1, 'one output variable')
    r = out[0]
    S.check(r.data.shape == (m,), 'one value per sample point')
    for i in range(m):
        got_missing = masked_at(r.data, i)
        if mds and smask[i]:
            S.check(got_missing, 'a missing sample point gets a missing value')
            continue
        members = [dv[j] for j in range(n) if not mask[j] and inside(S, cfg, sp, i, dp, j, seps)]
        if not members:
            S.check(got_missing, 'no points in the box: missing')
        else:
            S.check(not got_missing, 'a sample point with points in its box has a value')
            S.check(S.near(val_at(r.data, i), total(members)),
                    'the kernel sees exactly the non-missing points inside the box')
    for nm in sp:
        c = [x for x in r.coords() if x.standard_name == nm]
        S.check(len(c) == 1 and all(bool(S.eq(c[0].data.flatten()[i], sp[nm][i])) for i in range(m)),
                'the output is at the sample points')
    S.observe_array('r', r.data)


def api(S, cfg):
    """through the interface users call, with limits as text and any kernel; a list of variables; names and units"""
    n = 2
    pos = S.reals('z', n, -5000, 5000)
    t = S.reals('t', n, 0, 100)
    sz, stm = S.real('sz', -5000, 5000), S.real('st', 0, 100)
    masks = [S.missing('ma', n), S.missing('mb', n)]
    vals = [S.reals('a', n, -100, 100), S.reals('b', n, -100, 100)]

    def cl(z, tt, la):
        return CoordList([coord(S, 'latitude', la), coord(S, 'longitude', [0.0] * len(la)),
                          coord(S, 'altitude', z), coord(S, 'time', tt)])
    c = cl(pos, t, [0.0, 40.0])
    data = UngriddedDataList([ug(S, vals[v], c, mask=masks[v], name='v%d' % v, units='kg') for v in (0, 1)])
    sample = ug(S, [1.0], cl([sz], [stm], [0.0]))
    kw = dict(a_sep='1.5km', t_sep='P1DT12H', h_sep=cfg['h'])
    src = data if cfg['list'] else data[0]
    how = 'box' if cfg['list'] else ''
    names = {} if cfg['list'] else dict(var_name='x', var_units='g', var_long_name='X')
    out = src.collocated_onto(sample, how=how, kernel=cfg['k'], **names, **kw)
    near = [0] if cfg['h'] == '4000km' else [0, 1]       # 40 degrees are about 4450 km
    nk = 3 if cfg['k'] in (None, 'moments') else 1
    nv = 2 if cfg['list'] else 1
    S.check(len(out) == nk * nv, 'one output per variable and statistic')
    for v in range(nv):
        base = 'v%d' % v if cfg['list'] else 'x'
        exp = [base, base + '_std_dev', base + '_num_points'] if nk == 3 else [base]
        S.check([o.var_name for o in out[v * nk:v * nk + nk]] == exp, 'the outputs are named after the variables')
        S.check(str(out[v * nk].units) == ('kg' if cfg['list'] else 'g'), 'units')
        m = [vals[v][j] for j in near if not masks[v][j] and abs(pos[j] - sz) < 1500 and abs(t[j] - stm) < 1.5]
        o = out[v * nk].data
        S.check(o.shape == (1,), 'one value per sample point')
        if nk == 3:
            num = out[v * nk + 2].data
            if not m:
                S.check(masked_at(num, 0), 'no points in the box: missing')
            else:
                S.check(not masked_at(num, 0) and S.eq(val_at(num, 0), len(m)), 'number of points in the box')
        if not m:
            S.check(masked_at(o, 0), 'no points in the box: missing')
            continue
        S.check(not masked_at(o, 0), 'a sample point with points in its box has a value')
        x = val_at(o, 0)
        if cfg['k'] in (None, 'moments', 'mean'):
            S.check(S.near(x * len(m), total(m)), 'mean of the points in the box')
        elif cfg['k'] == 'max':
            S.check(all(bool(x >= y) for y in m) and any(bool(S.eq(x, y)) for y in m), 'maximum of the points in the box')
        S.observe('x', x)


def grid(S, cfg):
    """onto the points of a grid"""
    n, nvar = cfg['n'], cfg.get('nvar', 1)
    ddims = cfg['ddims']
    have = [DIMS[d] for d in ddims if d in DIMS] + ['latitude', 'longitude']
    masks = [S.missing('dm%d' % v if v else 'dm', n) for v in range(nvar)]
    sp, smask, sample, shared, shape = grids.sample(S, cfg, have)
    mds = cfg.get('mds', True)
    if not mds or len(shared) < len(cfg['grid']):
        smask = [False] * len(sp[shared[0]])
    dp, data, dv = None, [], []
    for v in range(nvar):
        vals = S.reals('w%d_' % v, n, -100, 100)
        c = dict(cfg, _vals=vals)
        if dp is None:
            dp, _, x = build(S, 'd', n, ddims, c, mask=masks[v], lats=cfg.get('lats'), lons=cfg.get('lons'))
        else:
            x = ug(S, vals, CoordList([k.copy() for k in data[0].coords()]), mask=masks[v], name='snow%d' % v)
        data.append(x)
        dv.append(vals)
    seps, kw = {}, {}
    for d in cfg['seps']:
        if d == 'h':
            seps['h'] = float(cfg['ang'])
            kw['h_sep'] = '%.9fkm' % (seps['h'] * math.pi / 180 * RADIUS_EARTH)
        elif d == 'p':
            seps['p'] = kw['p_sep'] = 1.5
        else:
            seps[d] = 150.0
            kw.update({'a': dict(a_sep='150m'), 't': dict(t_sep='P150D')}[d])
    src = data[0] if nvar == 1 else UngriddedDataList(data)
    if cfg.get('named'):
        kw.update(var_name='x', var_units='g', var_long_name='X')
    kernel = cfg.get('kernel', 'sum')
    out = src.collocated_onto(sample, how='box', kernel=kernel, missing_data_for_missing_sample=mds, **kw)
    per = 3 if kernel is None else 1
    S.check(len(out) == nvar * per, 'results for each variable')
    for v in range(nvar):
        r = out[v * per]
        S.check(r.shape == shape, 'the dimensions of the sample which the data have')
        S.check([c.name() for c in r.coords(dim_coords=True)] == shared, 'in the order of the sample')
        if cfg.get('named'):
            S.check((r.var_name, r.long_name, str(r.units)) == ('x', 'X', 'g'), 'names and units')
        else:
            S.check(r.var_name == data[v].var_name, 'named after the data')
        for nm in shared:
            S.check(all(bool(S.eq(x, y)) for x, y in zip(r.coord(nm).points, sample.coord(nm).points)), 'at the sample points')
        for i, ix in enumerate(np.ndindex(*shape)):
            if smask[i]:
                S.check(masked_at(r.data, ix), 'a missing sample point gets a missing value')
                continue
            m = [dv[v][j] for j in range(n) if not masks[v][j] and inside(S, cfg, sp, i, dp, j, seps)]
            if per == 3:
                x = out[v * per + 2].data
                S.check(masked_at(x, ix) if not m else (not masked_at(x, ix) and S.eq(val_at(x, ix), len(m))),
                        'number of points in the box')
            if not m:
                S.check(masked_at(r.data, ix), 'no points in the box: missing')
                continue
            S.check(not masked_at(r.data, ix), 'a sample point with points in its box has a value')
            S.check(S.near(val_at(r.data, ix) * (len(m) if per == 3 else 1), total(m)),
                    'the kernel sees exactly the non-missing points inside the box')
        S.observe_array('r', r.data)


HARNESSES = dict(box=box, api=api, grid=grid)


def configs(tier):
    c = []
    big = tier != 'quick'
    A = dict(harness='box', n=3 if big else 2)
    for d in 'atp':
        c.append(dict(A, m=1, dims=d, seps=d))
    c.append(dict(harness='box', n=2, m=2, dims='a', seps='a', mds=False, _w=3))
    c.append(dict(harness='box', n=2, m=2, dims='t', seps='t', _w=3))
    c.append(dict(harness='box', n=2, m=1, dims='apt', seps='apt', _w=3))
    c.append(dict(harness='box', n=3, m=1, dims='a', seps=''))
    c.append(dict(harness='box', n=2, m=1, dims='h', seps='h', ang=30, lats=[0, 60], slats=[0], _w=4))
    c.append(dict(harness='box', n=2, m=1, dims='h', seps='h', ang=45, sym_lat=True, _w=4))
    c.append(dict(harness='box', n=2, m=1, dims='ha', seps='ha', ang=60, lats=[30, 0], slats=[30], _w=6))
    if big:
        c.append(dict(harness='box', n=2, m=2, dims='h', seps='h', ang=90, lats=[30, 0], slats=[30, 60], _w=9))
        c.append(dict(harness='box', n=3, m=1, dims='h', seps='h', ang=60, lats=[30, 0, -60], slats=[30], _w=9))
        c.append(dict(harness='box', n=2, m=2, dims='apt', seps='apt', _w=9))
        c.append(dict(harness='box', n=2, m=1, dims='hat', seps='hat', ang=60, lats=[30, 0], slats=[30], _w=9))
    for k in (None, 'mean', 'max'):
        for h in ('4000km', '5000000m'):
            c.append(dict(harness='api', k=k, h=h, list=False))
    c.append(dict(harness='api', k=None, h='4000', list=True, _w=4) if False else
             dict(harness='api', k='moments', h='4000km', list=True, _w=4))
    G = dict(harness='grid', n=2)
    for d in 'atp':
        for o in ('asc', 'desc'):
            c.append(dict(G, ddims=d, seps=d, grid=[(DIMS[d], 2, o)], n=1 if d == 'p' else 2, _w=3))
    c.append(dict(G, ddims='at', seps='at', grid=[('time', 2, 'asc'), ('altitude', 1, 'asc')], n=1, nvar=2, _w=3))
    c.append(dict(G, ddims='at', seps='at', grid=[('time', 2, [5, 400]), ('altitude', 2, [0, 500])], n=1, kernel=None, _w=3))
    c.append(dict(G, ddims='t', seps='t', grid=[('time', 2, 'asc'), ('altitude', 2, 'asc')], n=1, mds=False, named=True, _w=3))
    c.append(dict(G, ddims='h', seps='h', ang=45, lats=[0], n=1, _w=6,
                  grid=[('longitude', 2, 'asc'), ('latitude', 2, 'desc')]))
    c.append(dict(G, ddims='ha', seps='ha', ang=45, lats=[0], n=1, _w=6, mds=False,
                  grid=[('altitude', 1, 'asc'), ('latitude', 1, 'asc'), ('longitude', 2, 'asc')]))
    return c


OPTIONS = dict(max_paths=200000, validate=40)
BOUNDS = {'quick': 'two or three data points, one or two sample points, each with arbitrary altitude, pressure, time, value and '
          'missing flag, arbitrary separation limits (pressure ratio 1.5); horizontally every longitude on tabulated '
          'latitudes, or every latitude on one meridian, with limits of 30, 45 and 60 degrees of arc; grids of up to 2 x 2 points, '
          'with arbitrary axes of altitude, pressure and time and limits of 150 m and 150 days, and tabulated horizontal axes',
          'thorough': 'three data points, two samples with two data points in all dimensions'}
OUTSIDE = 'positions within 1e-6 (in sin^2 of half the angle) of the horizontal limit; more points'
STUBS = [STUB_NOTE, cubes.STUB_NOTE, 'great-circle arithmetic as in C37 (symx/trig.py)']
ASSUMPTIONS = []
