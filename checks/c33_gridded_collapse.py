"""C33: collapsing dimensions of gridded data."""
import math
from itertools import product
import numpy as np
from symx.build import quiet_metadata, UNITS
from symx import cubes
from symx.harness import masked_at, val_at
from iris.aux_factory import HybridHeightFactory, HybridPressureFactory
from iris.coords import AuxCoord, DimCoord
from cis.data_io.gridded_data import GriddedData, GriddedDataList
import cis.exceptions

quiet_metadata()
STUBS = [cubes.STUB_NOTE, 'np.mean/std/min/max/sum of symbolic numbers: their textbook definitions; sqrt(x) is the '
         'non-negative number whose square is x']
BOUNDS = {'quick': 'grids of 2-8 points in 1-3 dimensions (data, missing flags, heights, times and auxiliary coordinates '
                   'symbolic, latitudes and longitudes of several fixed kinds with and without bounds), every choice of '
                   'dimensions to collapse', 'thorough': 'more points and four dimensions'}
OUTSIDE = 'the sum over latitude (whose weighting is not documented); the kernels gmean, hmean, median, peak and RMS; rounding'
ASSUMPTIONS = []
LAT = {'even': ([-45.0, 15.0, 75.0], None), 'desc': ([60.0, 20.0, -20.0], None),
       'bounds': ([-60.0, 0.0, 70.0], [(-90.0, -30.0), (-30.0, 50.0), (50.0, 90.0)])}
LON = {'even': ([0.0, 90.0, 180.0], None), 'bounds': ([5.0, 40.0, 200.0], [(0.0, 10.0), (10.0, 100.0), (100.0, 300.0)])}
Y, X, Z, T = 'latitude', 'longitude', 'altitude', 'time'
AX = {Y: 'y', X: 'x', Z: 'z', T: 't'}


def configs(tier):
    out = []
    q = tier == 'quick'
    # every set of collapsed dimensions of several layouts
    for dims, sizes in (((Z,), (3,)), ((Y,), (3,)), ((Y, X), (2, 2)), ((T, Z), (2, 2)), ((X, Y), (2, 3)),
                        ((T, Z, Y), (1, 2, 2)), ((Y, X, Z), (2, 2, 1)), ((T, Y, X), (2, 2, 2))) + (
            () if q else (((T, Z, Y, X), (2, 2, 2, 1)), ((Y, X), (3, 3)), ((Z,), (5,)))):
        nd = len(dims)
        for pick in product((0, 1), repeat=nd):
            if not any(pick):
                continue
            col = tuple(d for d, p in zip(dims, pick) if p)
            size = int(np.prod(sizes))
            for k in ('mean', 'min', 'max', 'sum', '', 'moments'):
                if k == 'sum' and Y in col:
                    continue
                if k in ('', 'moments') and (size > (4 if nd == 1 or not q else 3) and len(col) < nd or size > 4 or (k == '') == (nd == 1)):
                    continue
                if size > 6 and k in ('min', 'max'):
                    continue
                out.append(dict(harness='collapse', dims=dims, sizes=sizes, col=col, k=k, mask=size <= 4,
                                kind='even', free=nd == 1, _w=size))
    # axes with arbitrary points
    for dims, sizes in (((T, Z), (1, 2)), ((Z, Y), (2, 1)), ((Z, T), (3, 1))):
        for col in ((Z,), (dims[1],), dims):
            if len(col) == 1 or sizes != (1, 2):
                out.append(dict(harness='collapse', dims=dims, sizes=sizes, col=col, k='mean', kind='even', free=True))
    # area weights
    for kind in ('bounds', 'desc'):
        for dims, sizes in (((Y, X), (3, 2)), ((X, Y), (2, 2)), ((Y,), (3,)), ((Z, Y, X), (1, 3, 1))):
            for col in ((Y,), (Y, X)):
                if set(col) <= set(dims):
                    out.append(dict(harness='collapse', dims=dims, sizes=sizes, col=col, k='mean', mask=len(dims) == 1,
                                    kind=kind, _w=6))
    # auxiliary coordinates over some of the dimensions
    for dims, sizes in (((T, Z, Y), (2, 2, 2)), ((Z, T, Y), (2, 3, 1)), ((T, Z, Y), (3, 1, 2))):
        for over in ((0, 1), (1, 2), (0, 2), (0, 1, 2), (2,), (1, 0), (2, 0)):
            for pick in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)):
                col = tuple(d for d, p in zip(dims, pick) if p)
                if all(p for i, p in enumerate(pick) if i in over) and int(np.prod([sizes[i] for i in over])) > 3:
                    continue
                out.append(dict(harness='auxs', dims=dims, sizes=sizes, col=col, over=over, _w=6))
    # hybrid heights and pressures
    for fac in ('height', 'pressure', 'height-nodelta', 'pressure-nodelta'):
        for dims, sizes in (((T, 'lev', Y, X), (2, 2, 1, 2)), (('lev', T, Y, X), (2, 1, 2, 2))):
            for col in ((T,), (Y,), (X,), (X, T), ('lev',), (Y, X), ('lev', Y)):
                out.append(dict(harness='hybrid', fac=fac, dims=dims, sizes=sizes, col=col, _w=6))
    for k in ('mean', 'moments'):
        out.append(dict(harness='lists', k=k))
    out.append(dict(harness='unknown'))
    return out


def axis(S, name, n, kind, fixed=False):
    if name in (X, Y):
        p, b = (LAT if name == Y else LON).get(kind, LON['even'])
        b = b[:n] if b is not None else [(p[0] - 5.0, p[0] + 5.0)] if n == 1 else None
        return DimCoord(np.array(p[:n]), standard_name=name, units=UNITS[name], bounds=b)
    if name == 'lev':
        return DimCoord(np.arange(float(n)), long_name='lev')
    if fixed:
        return DimCoord(np.arange(n) * 7.0, standard_name=name, units=UNITS[name])
    p, _ = cubes.axis(S, name, n, 0, 5000)
    return cubes.dim(S, name, p)


def edges(c):
    """the limits of each of the cells of an axis (those which can be guessed, if not given)"""
    if c.bounds is not None:
        return [(c.bounds[i][0], c.bounds[i][1]) for i in range(len(c.points))]
    p = list(c.points)
    if len(p) == 1:
        return [(p[0], p[0])]
    m = [(a + b) / 2 for a, b in zip(p, p[1:])]
    e = [p[0] - (m[0] - p[0])] + m + [p[-1] + (p[-1] - m[-1])]
    if c.standard_name == Y and not hasattr(p[0], 'e'):
        e = [min(max(v, -90.0), 90.0) for v in e]
    return [(a, b) for a, b in zip(e, e[1:])]


def total(v):
    t = 0
    for x in v:
        t = t + x
    return t


def groups(dims, sizes, col):
    """for each remaining position: the positions which are collapsed into it"""
    keep = [i for i, d in enumerate(dims) if d not in col]
    g = {}
    for pos in product(*[range(n) for n in sizes]):
        g.setdefault(tuple(pos[i] for i in keep), []).append(pos)
    return keep, g


def stat(S, k, got, v, w, what):
    missing = got is np.ma.masked
    if k == 'num':
        S.check(not missing and S.eq(got, len(v)), 'the number of points is that of the valid ones' + what)
        return
    if not v or (k == 'stddev' and len(v) < 2):
        S.check(missing, 'no value where there is nothing to compute it from (%s)%s' % (k, what))
        return
    S.check(not missing, 'a value wherever there are valid points (%s)%s' % (k, what))
    if k == 'mean':
        S.check(S.near(got * total(w), total([a * b for a, b in zip(v, w)])),
                'the mean is that of the valid points, weighted with their areas over latitude' + what)
    elif k == 'sum':
        S.check(S.near(got, total(v)), 'the sum is that of the valid points' + what)
    elif k in ('min', 'max'):
        for x in v:
            S.check(got <= x if k == 'min' else got >= x, '%s bounds every valid point%s' % (k, what))
        S.check(any(bool(S.eq(got, x)) for x in v), '%s is one of the valid points%s' % (k, what))
    else:
        m = total(v) / len(v)
        S.check(got >= 0, 'standard deviations are not negative' + what)
        S.check(S.near(got * got * (len(v) - 1), total([(x - m) * (x - m) for x in v])),
                'the standard deviation is the corrected one of the valid points' + what)


def weights(axes, dims, col, pos):
    if Y not in col:
        return 1.0
    y = edges(axes[dims.index(Y)])[pos[dims.index(Y)]]
    w = abs(math.sin(math.radians(y[1])) - math.sin(math.radians(y[0])))
    if X in dims:
        x = edges(axes[dims.index(X)])[pos[dims.index(X)]]
        w *= abs(x[1] - x[0])
    return w


def check_axes(S, out, axes, dims, col, what=''):
    left = [a for d, a in zip(dims, axes) if d not in col]
    S.check(out.ndim == len(left), 'exactly the dimensions asked for are collapsed' + what)
    S.check([c.name() for c in out.coords(dim_coords=True)] == [a.name() for a in left],
            'the other dimensions stay in order' + what)
    for a in left:
        b = out.coord(a.name())
        S.check(len(a.points) == len(b.points) and all(bool(S.eq(p, q)) for p, q in zip(a.points, b.points)),
                'the other coordinates are unchanged' + what)
    for d, a in zip(dims, axes):
        if d in col and len(a.points) > 1:
            b = out.coord(a.name())
            e = edges(a)
            lim = (e[0][0], e[-1][1]) if a.points[0] < a.points[-1] else (e[-1][1], e[0][0])
            S.check(b.points.shape == (1,) and b.bounds is not None and b.bounds.shape == (1, 2),
                    'a collapsed coordinate is a single cell' + what)
            S.check(S.near(b.bounds[0][0], lim[0]) and S.near(b.bounds[0][1], lim[1]),
                    'a collapsed coordinate spans what was collapsed' + what)


def setup(S, cfg, lonfix=True):
    dims, sizes = cfg['dims'], cfg['sizes']
    axes = [axis(S, d, n, cfg.get('kind', 'even'), not cfg.get('free')) for d, n in zip(dims, sizes)]
    ref = [a.copy() for a in axes]
    n = int(np.prod(sizes))
    d = S.reals('d', n, -1000, 1000)
    m = S.missing('m', n) if cfg.get('mask') else None
    return axes, ref, d, m


def extra_lonlat(S, c, dims):
    """areas need both coordinates: give the missing one as a scalar"""
    for name in (X, Y):
        if name not in dims:
            c.add_aux_coord(AuxCoord(np.array([10.0]), standard_name=name, bounds=np.array([[5.0, 15.0]]),
                                     units='degrees_east' if name == X else 'degrees_north'))


def stats_of(k):
    return ['mean', 'stddev', 'num'] if k in ('', 'moments') else [k]


def verify(S, outs, k, axes, dims, sizes, col, d, m, name='rain', what=''):
    keep, g = groups(dims, sizes, col)
    order = {pos: i for i, pos in enumerate(product(*[range(n) for n in sizes]))}
    names = {'mean': name, 'stddev': name + '_std_dev', 'num': name + '_num_points'}
    S.check(len(outs) == len(stats_of(k)), 'one result per statistic' + what)
    for o, st in zip(outs, stats_of(k)):
        S.check(isinstance(o, GriddedData) and o.var_name == names.get(st, name), 'results are named after the variable'
                + what, o.var_name)
        check_axes(S, o, axes, dims, col, what)
        S.check(o.shape == tuple(sizes[i] for i in keep), 'the shape is that of the remaining dimensions' + what)
        for at, members in g.items():
            good = [p for p in members if m is None or not m[order[p]]]
            f = np.ma.ravel(o.data[at] if at else o.data)
            got = np.ma.masked if masked_at(f, 0) else val_at(f, 0)
            stat(S, st, got, [d[order[p]] for p in good], [weights(axes, dims, col, p) for p in good], what)
        S.observe_array(st, np.ma.ravel(o.data))


def collapse(S, cfg):
    axes, ref, d, m = setup(S, cfg)
    dims, sizes, col, k = cfg['dims'], cfg['sizes'], cfg['col'], cfg['k']
    c = cubes.cube(S, d, axes, m, units='kg')
    if Y in col and X not in dims:
        extra_lonlat(S, c, dims)
    by = [AX[x] for x in col] if S.choice('by', [0, 1]) else list(col)
    r = c.collapsed(by if len(by) > 1 else by[0], how=k)
    outs = [r] if isinstance(r, GriddedData) else list(r)
    verify(S, outs, k, ref, dims, sizes, col, d, m)


def auxs(S, cfg):
    axes, ref, d, m = setup(S, cfg)
    dims, sizes, col, over = cfg['dims'], cfg['sizes'], cfg['col'], cfg['over']
    shape = tuple(sizes[i] for i in over)
    n = int(np.prod(shape))
    p = S.reals('a', n, -100, 100)
    c = cubes.cube(S, d, axes, m, auxs=[(cubes.aux(S, 'soil', p, shape=shape), over)])
    if Y in col:
        extra_lonlat(S, c, dims)
    r = c.collapsed(list(col), how='mean')
    out = r if isinstance(r, GriddedData) else r[0]
    left = [i for i in over if dims[i] not in col]
    a = out.coord('soil')
    now = [i for i, x in enumerate(dims) if x not in col]
    S.check(set(out.coord_dims(a)) == set(now.index(i) for i in left),
            'an auxiliary coordinate keeps those of its dimensions which are not collapsed', str(out.coord_dims(a)))
    if left:
        pts = a.points
        S.check(pts.shape == tuple(out.shape[i] for i in out.coord_dims(a)), 'and has the shape for them')
        src = {pos: v for pos, v in zip(product(*[range(s) for s in shape]), p)}
        for at in product(*[range(s) for s in pts.shape]):
            fixed = {now[i]: at[j] for j, i in enumerate(out.coord_dims(a))}
            v = [x for pos, x in src.items() if all(fixed.get(i, q) == q for i, q in zip(over, pos))]
            S.check(S.near(pts[at] * len(v), total(v)), 'its values are the means over what was collapsed')
    elif len(p) > 1:
        S.check(a.points.shape == (1,) and a.bounds is not None and
                all(bool(v >= a.bounds[0][0]) and bool(v <= a.bounds[0][1]) for v in p),
                'an auxiliary coordinate which is collapsed completely spans its values')
    keep, g = groups(dims, sizes, col)
    S.check(out.shape == tuple(sizes[i] for i in keep), 'the shape is that of the remaining dimensions')


def hybrid(S, cfg):
    axes, ref, d, m = setup(S, cfg)
    dims, sizes, col = cfg['dims'], cfg['sizes'], cfg['col']
    c = cubes.cube(S, d, axes, m)
    if Y in col and X not in dims:
        extra_lonlat(S, c, dims)
    lev = dims.index('lev')
    surf = [i for i in range(4) if i != lev]
    pres = 'pressure' in cfg['fac']
    units = 'Pa' if pres else 'm'
    dl = S.reals('k', sizes[lev], 0, 1000)
    sg = S.reals('s', sizes[lev], 0, 1)
    sp = S.reals('o', int(np.prod([sizes[i] for i in surf])), 0, 1000)
    delta = None if 'nodelta' in cfg['fac'] else cubes.aux(S, 'the delta', dl, units)
    sigma = cubes.aux(S, 'the sigma', sg, '1')
    top = cubes.aux(S, 'the surface', sp, units, shape=[sizes[i] for i in surf])
    for co, over in ((delta, (lev,)), (sigma, (lev,)), (top, surf)):
        if co is not None:
            c.add_aux_coord(co, over)
    c.add_aux_factory((HybridPressureFactory if pres else HybridHeightFactory)(delta, sigma, top))
    name = 'air_pressure' if pres else 'altitude'
    r = c.collapsed(list(col), how='mean')
    out = r if isinstance(r, GriddedData) else r[0]
    keep, g = groups(dims, sizes, col)
    S.check(out.shape == tuple(sizes[i] for i in keep), 'the shape is that of the remaining dimensions')
    if 'lev' in col:
        return
    a = out.coord(name)
    over = out.coord_dims(a)
    spos = {p: v for p, v in zip(product(*[range(sizes[i]) for i in surf]), sp)}
    pts = a.points
    for at in product(*[range(s) for s in pts.shape]):
        fixed = {keep[i]: at[j] for j, i in enumerate(over)}
        l = fixed.get(lev, 0)
        v = [x for p, x in spos.items() if all(fixed.get(i, q) == q for i, q in zip(surf, p))]
        want = (dl[l] if delta is not None else 0) + sg[l] * total(v) / len(v)
        S.check(S.near(pts[at], want), 'hybrid levels are those of the mean surface')


def lists(S, cfg):
    """every variable of a list is collapsed by itself"""
    dims, sizes, col = (T, Z), (1, 2), (Z,)
    z = S.reals('z', 2, 0, 1000)
    cubes.increasing(S, z)
    ds = [S.reals(p, 2, -100, 100) for p in 'uv']
    ms = [S.missing(p + 'm', 2) for p in 'uv']

    def axes():
        return [cubes.dim(S, T, [1.0]), cubes.dim(S, Z, z)]
    l = GriddedDataList([cubes.cube(S, ds[i], axes(), ms[i], name='v%d' % i) for i in (0, 1)])
    r = l.collapsed(['z'], how=cfg['k'])
    k = len(stats_of(cfg['k']))
    S.check(isinstance(r, GriddedDataList) and len(r) == 2 * k, 'the results of every variable, in order')
    for i in (0, 1):
        verify(S, list(r)[i * k:(i + 1) * k], cfg['k'], axes(), dims, sizes, col, ds[i], ms[i], 'v%d' % i, ' (list)')


def unknown(S, cfg):
    c = cubes.cube(S, S.reals('d', 2, 0, 1), [cubes.dim(S, Z, [1.0, 2.0])])
    for names in (['time'], ['z', 'longitude'], ['rain']):
        try:
            c.collapsed(names, how='mean')
            raised = False
        except cis.exceptions.CoordinateNotFoundError:
            raised = True
        S.check(raised, 'a coordinate which does not exist can not be collapsed over')


HARNESSES = {'collapse': collapse, 'auxs': auxs, 'hybrid': hybrid, 'lists': lists, 'unknown': unknown}
