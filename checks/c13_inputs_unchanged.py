"""C13: operations leave the data they are given unchanged."""
import numpy as np
from symx import trig
trig.install()
from symx import cubes, fakenc, regular
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx.harness import masked_at, val_at
from cis.data_io.gridded_data import GriddedDataList
from cis.time_util import PartialDateTime
import datetime

fakenc.install()
quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE, fakenc.NOTE, 'iris regridding as in C14 (symx/regular.py)']
BOUNDS = {'quick': 'each operation on 2-4 points, the values and missing flags of all its inputs arbitrary, positions '
                   'arbitrary where the operation only compares them and fixed otherwise', 'thorough': 'more points'}
OUTSIDE = 'attributes and history (which record operations on gridded data); plots; the order of longitudes of gridded data'
ASSUMPTIONS = ['the whole-turn shift of longitudes, with which gridded data are rotated, is not a change']

U_OPS = ('subset', 'subset-lon', 'subset-all', 'subset-time', 'subset-shape', 'aggregate', 'aggregate-lon', 'box', 'nn',
         'bin', 'bin-sum', 'box-grid', 'frame', 'points', 'save', 'arith', 'stats-iter', 'slice', 'copy', 'view', 'box-list')
G_OPS = ('subset', 'subset-alt', 'subset-none', 'subset-lon', 'subset-all', 'subset-shape', 'collapse-x', 'collapse-y', 'collapse-moments', 'lin', 'nn',
         'onto-lin', 'onto-nn', 'points', 'slice', 'copy', 'collapse-list', 'subset-list', 'new')


def configs(tier):
    out = []
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for op in U_OPS:
            if n > 2 and op in ('box', 'nn', 'bin', 'bin-sum', 'box-grid', 'box-list', 'subset', 'subset-time') and tier == 'quick':
                continue
            out.append(dict(harness='ungridded', op=op, n=n, _w=n * 3))
    for shape in ((2, 2), (3, 2)) if tier == 'quick' else ((2, 2), (3, 2), (2, 4)):
        for op in G_OPS:
            for desc in (False, True):
                if desc and op in ('copy', 'points', 'slice'):
                    continue
                out.append(dict(harness='gridded', op=op, shape=shape, desc=desc, _w=3 * shape[0]))
    return out


def same_ug(S, d, vals, miss, cs, what):
    f = d.data.reshape(-1)
    S.check(f.size == len(vals), 'no points are removed ' + what)
    for i in range(len(vals)):
        S.check(masked_at(f, i) == bool(miss[i]), 'missing flags are unchanged ' + what)
        if not miss[i]:
            S.check(S.eq(val_at(f, i), vals[i]), 'values are unchanged ' + what)
    for name, v in cs.items():
        c = d.coord(standard_name=name).data.reshape(-1)
        S.check(c.size == len(v), 'no points are removed ' + what)
        for i in range(len(v)):
            x = val_at(c, i)
            ok = bool(S.eq(x, v[i]))
            if not ok and name == 'longitude':
                ok = any(bool(S.eq(x, v[i] + t)) for t in (360, -360, 720, -720))
            S.check(not masked_at(c, i) and ok, 'coordinates are unchanged ' + what)


def make_ug(S, p, n, free=(), lon0=10.0):
    d = S.reals(p, n, -100, 100)
    m = S.missing(p + 'm', n)
    cs = {'latitude': [10.0 * i for i in range(n)], 'longitude': [lon0 + 20.0 * i for i in range(n)],
          'altitude': [100.0 * i for i in range(n)], 'time': [float(i) for i in range(n)],
          'air_pressure': [500.0 + 20 * i for i in range(n)]}
    for f in free:
        lo, hi = {'latitude': (-80, 80), 'longitude': (-180, 360), 'altitude': (0, 500), 'time': (0, 50)}[f]
        cs[f] = S.reals(p + f, n, lo, hi)
    cl = CoordList([coord(S, k, v) for k, v in cs.items()])
    return ug(S, d, cl, mask=m, name=p), (d, m, cs)


def ungridded(S, cfg):
    fakenc.fresh()
    op, n = cfg['op'], cfg['n']
    free = {'subset': ('latitude',), 'subset-lon': ('longitude',), 'aggregate': ('altitude',), 'aggregate-lon': ('longitude',),
            'subset-time': ('time',)}.get(op, ())
    data, was = make_ug(S, 'd', n, free)
    other = []
    r = None
    if op == 'subset':
        r = data.subset(latitude=[S.real('lo', -90, 90), S.real('hi', -90, 90)])
    elif op == 'subset-lon':
        r = data.subset(longitude=[-170, -20])
    elif op == 'subset-all':
        r = data.subset(latitude=[-90, 90], altitude=[0, 10000])
    elif op == 'subset-time':
        r = data.subset(time=[S.real('lo', -10, 10), 30])
    elif op == 'subset-shape':
        r = data.subset(shape='POLYGON((0 -10, 20 -10, 20 15, 0 15, 0 -10))')
    elif op == 'aggregate':
        r = data.aggregate(altitude=[0, 400, 200], how='mean')
    elif op == 'aggregate-lon':
        r = data.aggregate(longitude=[-180, 180, 180], how='sum')
    elif op in ('box', 'nn'):
        sample, swas = make_ug(S, 's', 2, lon0=355.0)
        other = [(sample, swas)]
        kw = dict(how='box', kernel='mean', h_sep='3000km', a_sep=150) if op == 'box' else dict(kernel='nn_horizontal', h_sep='9000km')
        r = data.collocated_onto(sample, missing_data_for_missing_sample=True, **kw)
    elif op == 'box-list':
        d2, was2 = make_ug(S, 'e', n)
        for c in d2.coords():
            c.data = data.coord(c.name()).data
        sample, swas = make_ug(S, 's', 1)
        other = [(sample, swas), (d2, was2)]
        r = UngriddedDataList([data, d2]).collocated_onto(sample, how='box', kernel='max', t_sep='PT30M')
    elif op in ('bin', 'bin-sum', 'box-grid'):
        sp, sw = make_cube(S, 's', (2, 2), False)
        if op == 'box-grid':
            r = data.collocated_onto(sp, how='box', kernel='max')
        else:
            r = data.collocated_onto(sp, how='bin', kernel='mean' if op == 'bin' else 'sum')
        same_cube(S, sp, sw, '(sample)')
    elif op == 'frame':
        r = data.as_data_frame()
        r['d'] = 0.0
        r = None
    elif op == 'points':
        for v in (data.get_all_points(), data.get_coordinates_points(), data.get_non_masked_points()):
            for p in v:
                pass
    elif op == 'save':
        data.save_data(fakenc.path('c13'))
    elif op == 'arith':
        d2, was2 = make_ug(S, 'e', n)
        other = [(d2, was2)]
        r = (data + d2) * 2 - data
    elif op == 'stats-iter':
        for x in data.get_non_masked_points():
            pass
        data.coords_flattened
    elif op == 'slice':
        r = data[1:]
    elif op == 'copy':
        r = data.copy()
    elif op == 'view':
        r = data.make_new_with_same_coordinates(data.data * 2, 'twice', None, 'twice', '', '1', flatten=True)
    what = '(%s)' % op
    same_ug(S, data, *was, what)
    for o, w in other:
        same_ug(S, o, *w, what)
    # nor do later changes to the result
    for x in (r if isinstance(r, list) else [] if r is None else [r]):
        x.data[...] = 7
        if op in ('subset', 'subset-lon', 'subset-all', 'slice', 'copy', 'subset-shape'):
            for c in x.coords():
                c.data[...] = 8
    what = '(%s, result changed)' % op
    same_ug(S, data, *was, what)
    for o, w in other:
        same_ug(S, o, *w, what)


def make_cube(S, p, shape, desc, lon0=10.0, nm=None, first='latitude'):
    n = shape[0] * shape[1]
    d = S.reals(p, n, -100, 100)
    m = S.missing(p + 'm', n if nm is None else nm)
    m = list(m) + [False] * (n - len(m))
    lat = [-30.0, 10.0, 50.0][:shape[0]]
    if desc:
        lat = lat[::-1]
    lon = [lon0 + 90.0 * i for i in range(shape[1])]
    soil = S.reals(p + 'soil', n, 0, 1)
    c = cubes.cube(S, d, [cubes.iris.coords.DimCoord(np.array(lat), standard_name=first,
                                                 units='degrees_north' if first == 'latitude' else 'm'),
                          cubes.iris.coords.DimCoord(np.array(lon), standard_name='longitude', units='degrees_east')],
                   m, auxs=[(cubes.aux(S, 'soil', soil, shape=shape), (0, 1))], name=p)
    return c, (d, m, lat, lon, soil, first)


def same_cube(S, c, was, what):
    d, m, lat, lon, soil, first = was
    ny, nx = len(lat), len(lon)
    S.check([x.name() for x in c.coords()] == [first, 'longitude', 'soil'], 'coordinates are those which were there ' + what,
            str([x.name() for x in c.coords()]))
    S.check(c.shape == (ny, nx), 'dimensions are unchanged ' + what)
    S.check(all(x.bounds is None for x in c.coords()), 'coordinates do not get bounds ' + what)
    S.check(list(c.coord(first).points) == lat, 'coordinates are unchanged ' + what)
    now = [float(v) for v in c.coord('longitude').points]
    at = []
    for v in lon:
        k = [j for j, w in enumerate(now) if (w - v) % 360 == 0]
        S.check(len(k) == 1, 'longitudes are unchanged but for whole turns ' + what)
        at.append(k[0])
    s = c.coord('soil').points
    for y in range(ny):
        for x in range(nx):
            i = y * nx + x
            f = np.ma.ravel(c.data[y, at[x]])
            S.check(masked_at(f, 0) == bool(m[i]), 'missing flags are unchanged ' + what)
            if not m[i]:
                S.check(S.eq(val_at(f, 0), d[i]), 'values are unchanged ' + what)
            S.check(S.eq(s[y, at[x]], soil[i]), 'auxiliary coordinates are unchanged ' + what)


def gridded(S, cfg):
    op, shape = cfg['op'], cfg['shape']
    few = op in ('collapse-moments', 'collapse-list', 'onto-lin', 'onto-nn', 'lin', 'nn', 'subset-list')
    c, was = make_cube(S, 'd', shape, cfg['desc'], 10.0, nm=2 if few else None,
                       first='altitude' if op in ('subset-alt', 'subset-none') else 'latitude')
    other, ugs, r = [], [], None
    if op == 'subset':
        r = c.subset(latitude=[-20, 60])
    elif op == 'subset-lon':
        r = c.subset(longitude=[-180, 50])
    elif op == 'subset-all':
        r = c.subset(latitude=[-90, 90])
    elif op == 'subset-shape':
        r = c.subset(shape='POLYGON((0 -40, 200 -40, 200 15, 0 15, 0 -40))')
    elif op == 'subset-alt':
        r = c.subset(altitude=[-100, 100])
    elif op == 'subset-none':
        r = c.subset(altitude=[0, 60])
    elif op == 'subset-list':
        c2, w2 = make_cube(S, 'e', shape, cfg['desc'], nm=1)
        other = [(c2, w2)]
        r = GriddedDataList([c, c2]).subset(y=[-90, 90])
    elif op == 'collapse-x':
        r = c.collapsed('x', how='mean')
    elif op == 'collapse-y':
        r = c.collapsed(['latitude'], how='mean')
    elif op == 'collapse-moments':
        r = c.collapsed(['x', 'y'])
    elif op == 'collapse-list':
        c2, w2 = make_cube(S, 'e', shape, cfg['desc'], nm=1)
        other = [(c2, w2)]
        r = GriddedDataList([c, c2]).collapsed('x', how='max')
    elif op in ('lin', 'nn'):
        s, sw = make_ug(S, 's', 2, lon0=350.0)
        ugs = [(s, sw)]
        r = c.collocated_onto(s, how=op)
    elif op in ('onto-lin', 'onto-nn'):
        s, sw = make_cube(S, 's', (2, 2), False, lon0=20.0, nm=1)
        for x in (c, s):
            x.remove_coord('soil')
        r = c.collocated_onto(s, how=op[5:])
        for x, w in ((c, was), (s, sw)):
            x.add_aux_coord(cubes.aux(S, 'soil', w[4], shape=x.shape), (0, 1))
        other = [(s, sw)]
    elif op == 'points':
        for v in (c.get_all_points(), c.get_coordinates_points(), c.get_non_masked_points()):
            for p in v:
                pass
    elif op == 'slice':
        r = c[0:1]
    elif op == 'copy':
        r = c.copy()
    elif op == 'new':
        r = c.make_new_with_same_coordinates(var_name='z', units='1', history='')
    what = '(%s)' % op

    def all_same(what):
        same_cube(S, c, was, what)
        for o, w in other:
            same_cube(S, o, w, what)
        for o, w in ugs:
            same_ug(S, o, *w, what)
    all_same(what)
    for x in (r if isinstance(r, list) else [] if r is None else [r]):
        if x.data.ndim:                  # (a single value may be the masked constant, which is read-only)
            x.data[...] = 7
        if op in ('lin', 'nn'):
            continue
        for k in x.coords():
            if k.points.size > 1:
                k.bounds = None
                k.points = k.points * 0.5
    all_same('(%s, result changed)' % op)


HARNESSES = {'ungridded': ungridded, 'gridded': gridded}
