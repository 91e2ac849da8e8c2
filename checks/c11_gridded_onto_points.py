"""C11: interpolation of gridded data onto ungridded points."""
from itertools import product
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList
from symx import cubes
from symx import harness as H
from symx.harness import masked_at, val_at
from cis.data_io.gridded_data import GriddedDataList

quiet_metadata()
FINDING = 'C11-hybrid-leading-dims'


def ordered(c, v):
    """ascending coordinate values, with the indices along the axis"""
    idx = list(range(len(c)))
    return (c, idx) if c[0] < c[-1] else (c[::-1], idx[::-1])


def pick(S, c, x, method):
    """(inside?, [(index into c, weight)]) for ascending c; linear or nearest; outside: extrapolated"""
    n = len(c)
    inside = (x >= c[0]) and (x <= c[-1])
    k = 0
    while k < n - 2 and x > c[k + 1]:
        k += 1
    w = (x - c[k]) / (c[k + 1] - c[k])
    if method == 'nn':
        S.assume(abs(w - 0.5) > 1e-6)        # half way: either is nearest
        return inside, ([(k, 1)] if w <= 0.5 else [(k + 1, 1)]), w
    return inside, [(k, 1 - w), (k + 1, w)], w


def axis_pick(S, cfg, name, c, x, method, tie):
    """as pick, for an axis in any order, circular if wanted; indices are those of the grid"""
    a, idx = ordered(c, x)
    a, idx = list(a), list(idx)
    if name == 'longitude':
        # the sample and the grid are on the same turn; a circular axis continues after its last cell
        lo = S.base
        a = [v for v in a]
        moved = sorted([(v - 360 * np.floor((v - lo) / 360.0), i) for v, i in zip(a, idx)])
        a, idx = [m[0] for m in moved], [m[1] for m in moved]
        if cfg.get('circular'):
            a = [a[-1] - 360] + a + [a[0] + 360]
            idx = [idx[-1]] + idx + [idx[0]]
    ins, ws, w = pick(S, a, x, method)
    return ins, [(idx[k], f) for k, f in ws], w


TABLE = {'latitude': [-60.0, 0.0, 20.0, 60.0], 'longitude': [10.0, 100.0, 200.0, 300.0], 'time': [0.0, 10.0, 30.0],
         'altitude': [0.0, 100.0, 500.0], 'air_pressure': [100.0, 500.0, 1000.0]}
RANGE = {'latitude': (-90, 90), 'longitude': (0, 360), 'time': (-20, 60), 'altitude': (-100, 1000), 'air_pressure': (1, 1100)}


def nn_with(S, cfg, name, c, x, w):
    """the cell holding x, its side chosen by the weight w"""
    cfg = dict(cfg)
    ins, ws, _ = axis_pick(S, cfg, name, c, x, 'lin', None)
    return [(ws[0][0], 1)] if w <= 0.5 else [(ws[1][0], 1)]


def matches(S, cfg, r, i, inside, parts, arr, gm, sizes, dims, hyb, smp, hd, hparts, strict):
    def chk(cond, label):
        if strict:
            S.check(cond, label)
            return True
        return bool(cond)
    method = cfg['how']
    parts = dict(parts)
    if hyb:
        hv = np.array(hyb['vals'], dtype=float).reshape([sizes[dims.index(d)] for d in hyb['dims']])
        # the vertical column at the sample's position
        colv = []
        for lev in range(sizes[dims.index('level')]):
            tot = 0
            for combo in product(*hparts):
                at, f = {'level': lev}, 1
                for d, (q, g) in zip(hd, combo):
                    at[d] = q
                    f = f * g
                tot = tot + f * hv[tuple(at[d] for d in hyb['dims'])]
            colv.append(tot)
        a, idx = ordered(colv, None)
        ins, ws, w = pick(S, a, smp[hyb['coord']][i], method)
        inside = inside and ins
        parts['level'] = [(idx[q], f) for q, f in ws]
    if not inside and not cfg.get('extrapolate'):
        return chk(masked_at(r, i), 'no value outside of the grid')
    tot, miss = 0, False
    for combo in product(*[parts[d] for d in dims]):
        f, ix = 1, []
        for q, g in combo:
            ix.append(q)
            f = f * g
        tot = tot + f * arr[tuple(ix)]
        if gm[int(np.ravel_multi_index(ix, sizes))]:
            miss = True
    if miss:
        return chk(masked_at(r, i), 'missing where the data used is missing')
    if not chk(not masked_at(r, i), 'a value inside of the grid'):
        return False
    return chk(S.near(val_at(r, i), tot, 1e-6 if cfg.get('symgrid') or hyb else 1e-9), 'interpolated value')


def interp(S, cfg):
    dims, method = cfg['dims'], cfg['how']
    m = cfg.get('m', 1)
    sizes = cfg['n']
    order = cfg.get('order', {})
    grid = {}
    for d, n in zip(dims, sizes):
        if cfg.get('symgrid') == d:
            g = cubes.axis(S, 'g' + d, n, RANGE[d][0] + 1, RANGE[d][1] - 1, gap=1)[0]
        else:
            g = TABLE.get(d, [1.0, 2.0, 3.0])[:n]
        if d == 'longitude' and cfg.get('lon'):
            g = list(cfg['lon'])[:n]
        grid[d] = list(g) if order.get(d) != 'desc' else list(g)[::-1]
    size = int(np.prod(sizes))
    nvar = cfg.get('nvar', 1)
    if cfg.get('symvals', True):
        vals = [S.reals('v%d_' % k, size, -100, 100) for k in range(nvar)]
    else:
        vals = [[float((i * 7 + k * 3 + i * i) % 11) for i in range(size)] for k in range(nvar)]
    gm = [S.bool('gm%d' % i) for i in range(size)] if cfg.get('gmask') else [False] * size
    hyb = cfg.get('hybrid')
    smp = {}
    sd = list(dims)
    if hyb:
        sd = [d for d in dims if d != 'level'] + [hyb['coord']]
    S.base = -180.0 if cfg.get('neg') else 0.0
    for d in sd:
        if d in cfg.get('fixed', {}):
            smp[d] = [cfg['fixed'][d]] * m
            continue
        lo, hi = RANGE[d]
        if d == 'longitude':
            lo, hi = S.base, S.base + 360
        smp[d] = S.reals('s' + d, m, lo, hi)
        if d == 'longitude':
            for x in smp[d]:
                S.assume(x < hi)
    if 'longitude' in smp and cfg.get('neg'):
        S.assume(smp['longitude'][0] < 0)
    smask = S.missing('sm', m) if cfg.get('smask') else None
    sv = [1.0] * m
    sc = [coord(S, d, smp[d]) for d in ('latitude', 'longitude', 'altitude', 'air_pressure', 'time') if d in smp]
    for extra in ('latitude', 'longitude'):
        if extra not in smp:
            sc.append(coord(S, extra, [0.0] * m))
    sample = ug(S, sv, CoordList(sc), mask=smask)
    dc = [cubes.dim(S, d, grid[d],
                    circular=bool(d == 'longitude' and cfg.get('circular'))) for d in dims]
    auxs = []
    if hyb:
        hs = [sizes[dims.index(d)] for d in hyb['dims']]
        col = hyb['vals']
        auxs.append((cubes.aux(S, hyb['coord'], col, shape=tuple(hs)), tuple(dims.index(d) for d in hyb['dims'])))
    if cfg.get('scalar'):
        auxs.append((cubes.aux(S, cfg['scalar'], [2.0]), ()))
        sc.append(coord(S, cfg['scalar'], [7.0] * m))
        sample = ug(S, sv, CoordList(sc), mask=smask)
    cs = []
    for k in range(nvar):
        cs.append(cubes.cube(S, vals[k], dc, mask=gm, auxs=[(a.copy(), d) for a, d in auxs], name='rain%d' % k,
                             units='kg'))
    data = cs[0] if nvar == 1 else GriddedDataList(cs)
    kw = {}
    if cfg.get('extrapolate'):
        kw['extrapolate'] = True
    if cfg.get('mds') is not None:
        kw['missing_data_for_missing_sample'] = cfg['mds']
    if cfg.get('names'):
        kw.update(var_name='abc', var_long_name='def', var_units='m')
    out = data.collocated_onto(sample, how='' if cfg.get('default') else method, **kw)
    S.check(len(out) == nvar, 'one result for each variable')
    for k in range(nvar):
        r = out[k].data
        S.check(r.shape == (m,), 'one value per sample')
        S.check((out[k].var_name, out[k].long_name, str(out[k].units)) ==
                (('abc', 'def', 'm') if cfg.get('names') else ('rain%d' % k, 'rain%d' % k, 'kg')), 'the names and units '
                'of the data, unless others are given')
        for d in smp:
            for i in range(m):
                S.check(S.eq(out[k].coord(d).data[i], smp[d][i]), 'on the sample points')
        arr = np.array(vals[k], dtype=object).reshape(sizes)
        for i in range(m):
            if smask and smask[i] and cfg.get('mds', True):
                S.check(masked_at(r, i), 'a missing sample has no value')
                continue
            inside, parts, ws_by_pos = True, {}, []
            for d in dims:
                if d == 'level':
                    continue
                ins, ws, w = axis_pick(S, cfg, d, grid[d], smp[d][i], method, None)
                inside = inside and ins
                parts[d] = ws
                ws_by_pos.append([f for q, f in ws] if method == 'lin' else w)
            hd = [d for d in hyb['dims'] if d != 'level'] if hyb else []
            shared = [d for d in dims if d != 'level']
            # the listed finding: the weights used for the hybrid coordinate are those of the leading dimensions
            known = hyb and hd != shared[:len(hd)] and FINDING in H.KNOWN and not H.IGNORE_FINDINGS
            ok = matches(S, cfg, r, i, inside, parts, arr, gm, sizes, dims, hyb, smp, hd, [parts[d] for d in hd],
                         strict=not known)
            if known and not ok:
                if method == 'lin':
                    wrong = [[(q, f2) for (q, f), f2 in zip(parts[d], w2)] for d, w2 in zip(hd, ws_by_pos)]
                else:
                    wrong = [nn_with(S, cfg, d, grid[d], smp[d][i], w2) for d, w2 in zip(hd, ws_by_pos)]
                matches(S, cfg, r, i, inside, parts, arr, gm, sizes, dims, hyb, smp, hd, wrong, strict=True)
        S.observe_array('r', r)


HARNESSES = dict(interp=interp)


def configs(tier):
    c = []
    L = ('latitude', 'longitude')
    for how in ('lin', 'nn'):
        c.append(dict(harness='interp', how=how, dims=['latitude'], n=[3], m=2, smask=True))
        c.append(dict(harness='interp', how=how, dims=['latitude'], n=[3], order={'latitude': 'desc'}, gmask=how == 'nn'))
        c.append(dict(harness='interp', how=how, dims=['time'], n=[3], symgrid='time', symvals=False))
        c.append(dict(harness='interp', how=how, dims=list(L), n=[2, 3]))
        c.append(dict(harness='interp', how=how, dims=list(L[::-1]), n=[3, 2], order={'latitude': 'desc'}, circular=True))
        c.append(dict(harness='interp', how=how, dims=list(L), n=[2, 3], order={'longitude': 'desc'}, circular=True,
                      neg=True, symvals=False))
        c.append(dict(harness='interp', how=how, dims=list(L), n=[3, 4], circular=True, neg=True, symvals=False,
                      extrapolate=True))
        c.append(dict(harness='interp', how=how, dims=list(L), n=[3, 3], order={'latitude': 'desc', 'longitude': 'desc'},
                      symvals=False, nvar=2, mds=False, smask=True))
        c.append(dict(harness='interp', how=how, dims=['latitude', 'time', 'altitude'], n=[2, 2, 2], symvals=False,
                      order={'time': 'desc'}, fixed={'altitude': 30.0}))
        c.append(dict(harness='interp', how=how, dims=['longitude', 'latitude', 'level'], n=[3, 2, 3], symvals=False,
                      circular=True, fixed={'latitude': -15.0},
                      hybrid=dict(coord='altitude', dims=['level'], vals=[0, 100, 300])))
        c.append(dict(harness='interp', how=how, dims=['latitude', 'longitude', 'level'], n=[2, 3, 3], symvals=False,
                      circular=True, order={'latitude': 'desc'}, fixed={'latitude': -15.0},
                      hybrid=dict(coord='air_pressure', dims=['latitude', 'longitude', 'level'],
                                  vals=[900, 500, 100, 800, 500, 100, 1000, 600, 150, 900, 400, 200, 850, 500, 100, 700,
                                        650, 90])))
        c.append(dict(harness='interp', how=how, dims=['time', 'latitude', 'level'], n=[2, 2, 2], symvals=False,
                      fixed={'latitude': -15.0}, order={'latitude': 'desc'},
                      hybrid=dict(coord='altitude', dims=['latitude', 'level'], vals=[0, 100, 10, 300])))
        c.append(dict(harness='interp', how=how, dims=['level', 'latitude', 'longitude'], n=[2, 2, 2], symvals=False,
                      fixed={'latitude': 12.0}, order={'longitude': 'desc'},
                      hybrid=dict(coord='altitude', dims=['level', 'longitude'], vals=[0, 100, 40, 300])))
        c.append(dict(harness='interp', how=how, dims=['level'], n=[3], symvals=True,
                      hybrid=dict(coord='air_pressure', dims=['level'], vals=[1000, 500, 10])))
        c.append(dict(harness='interp', how=how, dims=['latitude'], n=[2], scalar='altitude'))
        c.append(dict(harness='interp', how=how, dims=['latitude'], n=[2], names=True))
    c.append(dict(harness='interp', how='lin', default=True, dims=['latitude'], n=[2], m=2, smask=True, mds=True,
                  extrapolate=True))
    if tier != 'quick':
        for how in ('lin', 'nn'):
            for o in ('asc', 'desc'):
                c.append(dict(harness='interp', how=how, dims=['latitude'], n=[4], m=3, smask=True, order={'latitude': o}))
                c.append(dict(harness='interp', how=how, dims=['latitude', 'longitude'], n=[4, 4], m=2, circular=True, neg=True,
                              symvals=False, order={'longitude': o}, gmask=False))
                c.append(dict(harness='interp', how=how, dims=['altitude', 'time', 'latitude'], n=[3, 3, 3],
                              order={'altitude': o}))
    return c


OPTIONS = dict(max_paths=200000, validate=20)
BOUNDS = {'quick': 'grids of two to four points in one to three dimensions, in either direction, tabulated or (time) arbitrary '
          'coordinates; one or two arbitrary sample points; arbitrary or tabulated grid values; hybrid columns of two or three '
          'levels', 'thorough': 'three sample points; grids of four by four and three cubed points'}
OUTSIDE = 'samples exactly half way between grid points (nn); missing grid values with lin; axes of one point; samples '\
    'across the seam of a longitude axis which is not circular; larger grids; rounding of floating point arithmetic'
STUBS = [STUB_NOTE, cubes.STUB_NOTE]
ASSUMPTIONS = []
