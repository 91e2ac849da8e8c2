"""C23: views of data as points."""
import itertools
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedData, UngriddedCoordinates
from symx import cubes
from symx.harness import masked_at, val_at
from cis.data_io.hyperpoint import HyperPoint

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE]
BOUNDS = {'quick': 'up to 4 points in up to 2 dimensions (ungridded), grids of up to 3 dimensions and 8 points',
          'thorough': 'up to 6 points, grids of up to 12 points'}
OUTSIDE = 'slices of views (which are refused)'
ASSUMPTIONS = []
STD = ('latitude', 'longitude', 'altitude', 'air_pressure', 'time')


def configs(tier):
    big = tier != 'quick'
    out = []
    for names in (STD, ('time', 'longitude', 'latitude'), ('latitude',), ('air_pressure', 'altitude'), ('time',),
                  ('longitude', 'depth', 'latitude')):
        for shape in ((1,), (3,), (2, 2)) + (((4,), (2, 3)) if big else ()):
            out.append(dict(harness='ungridded', names=names, shape=shape, _w=3))
            out.append(dict(harness='assign', names=names, shape=shape))
        out.append(dict(harness='points', names=names))
    out.append(dict(harness='hyper'))
    grids = [(('latitude', 2), ('longitude', 2)), (('longitude', 3), ('latitude', 1)), (('time', 1), ('latitude', 2)),
             (('time', 2), ('latitude', 1), ('longitude', 2)), (('air_pressure', 2),), (('level', 2), ('longitude', 2)),
             (('longitude', 1), ('level', 1), ('altitude', 2)), (('time', 1),), ((None, 2), ('latitude', 2)),
             (('longitude', 2), (None, 1), ('time', 2)), ((None, 2), (None, 2), ('air_pressure', 1))]
    if big:
        grids += [(('time', 2), ('latitude', 2), ('longitude', 2)), (('longitude', 2), ('altitude', 3), ('latitude', 2))]
    for g in grids:
        out.append(dict(harness='gridded', dims=g))
        out.append(dict(harness='gassign', dims=g))
    out += [dict(harness='build', n=n, names=names) for n in (1, 2, 3) for names in (STD, ('latitude', 'longitude'),
                                                                                     ('latitude', 'longitude', 'time'))]
    return out


def same_point(S, p, where, val=None, **co):
    S.check(isinstance(p, HyperPoint), 'a point ' + where)
    for k in STD:
        got = getattr(p, k)
        if co.get(k) is None:
            S.check(got is None, 'a coordinate which the data lack is None ' + where)
        else:
            S.check(got is not None and S.eq(got, co[k]), 'the %s of the point %s' % (k, where))
    if val is not None:
        S.check(len(p.val) == 1, 'one value ' + where)
        if val is np.ma.masked:
            S.check(p.val[0] is np.ma.masked, 'a missing value is missing ' + where)
        else:
            S.check(p.val[0] is not np.ma.masked and S.eq(p.val[0], val), 'the value of the point ' + where)


def views(S, obj, coords, vals, index, where):
    """coords: list of dicts; vals: list of values (np.ma.masked if missing); index: flat number -> index for a view"""
    n = len(vals)
    good = [i for i in range(n) if vals[i] is not np.ma.masked]
    allp, non, co = obj.get_all_points(), obj.get_non_masked_points(), obj.get_coordinates_points()
    for v, name in ((allp, 'all points'), (non, 'non-missing points'), (co, 'coordinate points')):
        S.check(len(v) == n, 'the length of the view is the number of points ' + where)
        for i in range(n):
            for j in index(i):
                same_point(S, v[j], where, None if name == 'coordinate points' else vals[i], **coords[i])
        for j in (n, n + 3, -1):
            try:
                v[j]
                S.fail('an index outside of the view is refused ' + where)
            except IndexError:
                pass
        pts = list(v.iter_all_points())
        S.check(len(pts) == n, 'iter_all_points gives every point ' + where)
        for i, p in enumerate(pts):
            same_point(S, p, where, None if name == 'coordinate points' else vals[i], **coords[i])
    gridded = obj.is_gridded
    for v, want in ((allp, list(range(n))), (non, good), (co, list(range(n)))):
        pts = list(v)
        S.check(len(pts) == len(want), 'the points iterated over ' + where)
        for i, p in zip(want, pts):
            same_point(S, p, where, None if v is co else vals[i], **coords[i])
    for v in (allp, non) + ((co,) if gridded else ()):
        pts = list(v.iter_non_masked_points())
        S.check(len(pts) == len(good), 'iter_non_masked_points gives the non-missing points ' + where)
        for i, p in zip(good, pts):
            same_point(S, p, where, vals[i], **coords[i])
        pts = list(v.enumerate_non_masked_points())
        S.check([i for i, _ in pts] == good, 'the numbers of the non-missing points ' + where)
        for i, p in pts:
            same_point(S, p, where, vals[i], **coords[i])
    if not gridded:
        for v in (allp, non, co):
            pts = list(v.enumerate_all_points())
            S.check([i for i, _ in pts] == list(range(n)), 'the numbers of all points ' + where)
            for i, p in pts:
                same_point(S, p, where, None if v is co else vals[i], **coords[i])


def make(S, cfg, name='c'):
    shape = cfg['shape']
    n = int(np.prod(shape))
    vals = {k: S.reals(name + k, n, -1000, 1000) for k in cfg['names']}
    cl = CoordList()
    for k in cfg['names']:
        c = coord(S, k if k != 'depth' else 'latitude', vals[k], shape=shape)
        if k == 'depth':
            c.metadata._standard_name, c.metadata._name, c.axis = None, 'depth', 'Z'
        cl.append(c)
    return n, cl, [{k: vals[k][i] for k in cfg['names'] if k in STD} for i in range(n)]


def ungridded(S, cfg):
    n, cl, co = make(S, cfg)
    d = S.reals('d', n, -100, 100)
    m = S.missing('m', n)
    obj = ug(S, d, cl, mask=m, shape=cfg['shape'])
    vals = [np.ma.masked if m[i] else d[i] for i in range(n)]
    views(S, obj, co, vals, lambda i: [i], '(ungridded)')
    for i in range(n):
        same_point(S, obj.hyper_point(i), '(hyper_point)', vals[i], **co[i])


def points(S, cfg):
    """coordinates without data"""
    n, cl, co = make(S, dict(cfg, shape=(2, 2)))
    obj = UngriddedCoordinates(cl)
    S.check(obj.size == n and obj.count() == n, 'size')
    for v in (obj.get_all_points(), obj.get_non_masked_points(), obj.get_coordinates_points(), cl.get_coordinates_points()):
        S.check(len(v) == n, 'length')
        for pts in ([v[i] for i in range(n)], list(v), list(v.iter_all_points()), list(v.iter_non_masked_points()),
                    [p for _, p in v.enumerate_all_points()], [p for _, p in v.enumerate_non_masked_points()]):
            S.check(len(pts) == n, 'every point')
            for i, p in enumerate(pts):
                same_point(S, p, '(coordinates)', None, **co[i])
                S.check(len(p.val) == 0, 'coordinates have no value')
    for i in range(n):
        same_point(S, obj.hyper_point(i), '(hyper_point of coordinates)', None, **co[i])


def hyper(S, cfg):
    """points themselves"""
    a, b, c = [dict((k, S.real(p + k, 1, 1000) if k == 'air_pressure' else S.real(p + k, -80, 80)) for k in STD) for p in 'abc']
    def pt(x, v):
        return HyperPoint(x['latitude'], x['longitude'], x['altitude'], x['air_pressure'], x['time'], v)
    va, vb = S.real('va', -9, 9), S.real('vb', -9, 9)
    p, q, r = pt(a, va), pt(b, vb), pt(c, vb)
    names = dict(latitude='lat', longitude='lon', altitude='alt', air_pressure='pres', time='t')
    pick = [S.bool('pick%d' % i) for i in range(6)]
    m = p.modified(**dict([(names[k], b[k]) for k, y in zip(STD, pick) if y] + ([('val', vb)] if pick[5] else [])))
    same_point(S, m, '(modified)', vb if pick[5] else va, **dict((k, b[k] if y else a[k]) for k, y in zip(STD, pick)))
    same_point(S, p, '(which was modified in a copy)', va, **a)
    space = all([bool(m[i] == p[i]) for i in range(4)])
    S.check(bool(m.same_point_in_space(p)) == space and bool(m.same_point_in_time(p)) == bool(m.time == p.time) and
            bool(m.same_point_in_space_and_time(p)) == (space and bool(m.time == p.time)), 'which points are the same')
    S.check(S.eq(p.time_sep(q), abs(a['time'] - b['time'])) and S.eq(p.alt_sep(q), abs(a['altitude'] - b['altitude'])),
            'separations of points')
    x, y = a['air_pressure'], b['air_pressure']
    S.check(S.near(p.pres_sep(q) * (y if x > y else x), x if x > y else y), 'the ratio of pressures')
    S.check(bool(p.comptime(q, r)) == bool(abs(a['time'] - b['time']) > abs(a['time'] - c['time'])) and
            bool(p.compalt(q, r)) == bool(abs(a['altitude'] - b['altitude']) > abs(a['altitude'] - c['altitude'])), 'the nearer point')
    o = p.furthest_point_from()
    S.check(S.eq(o.latitude, -a['latitude']) and S.eq(abs(o.longitude - a['longitude']), 180), 'the opposite point')


def assign(S, cfg):
    n, cl, co = make(S, cfg)
    d = S.reals('d', n, -100, 100)
    v = ug(S, d, cl, shape=cfg['shape']).get_all_points()
    k = S.choice('k', range(n))
    if S.bool('point'):
        new = {x: S.real('n' + x, -1000, 1000) for x in cfg['names'] if x in STD}
        val = S.real('nv', -100, 100)
        v[k] = HyperPoint(new.get('latitude'), new.get('longitude'), new.get('altitude'), new.get('air_pressure'),
                          new.get('time'), val)
        co = [new if i == k else c for i, c in enumerate(co)]
    else:
        val = S.real('nv', -100, 100)
        v[k] = val
    vals = [val if i == k else d[i] for i in range(n)]
    for i in range(n):
        same_point(S, v[i], '(after assigning)', vals[i], **co[i])
    for j in (n, -1):
        try:
            v[j] = 1.0
            S.fail('assigning outside of the view is refused')
        except IndexError:
            pass


def grid(S, cfg):
    dims, cv = [], {}
    for name, k in cfg['dims']:
        if name is None:
            dims.append(k)
            continue
        p, _ = cubes.axis(S, name[:4], k, -1000, 1000)
        dims.append(cubes.dim(S, name, p))
        cv[name] = p
    shape = [k for _, k in cfg['dims']]
    n = int(np.prod(shape))
    idx = list(itertools.product(*[range(k) for k in shape]))
    co = [{name: cv[name][ix[a]] for a, (name, _) in enumerate(cfg['dims']) if name in STD} for ix in idx]
    d = S.reals('d', n, -100, 100)
    return dims, n, idx, co, d


def gridded(S, cfg):
    dims, n, idx, co, d = grid(S, cfg)
    m = S.missing('m', min(n, 4)) + [False] * max(0, n - 4)
    obj = cubes.cube(S, d, dims, mask=m)
    vals = [np.ma.masked if m[i] else d[i] for i in range(n)]
    views(S, obj, co, vals, lambda i: [i, idx[i]], '(gridded)')


def gassign(S, cfg):
    dims, n, idx, co, d = grid(S, cfg)
    obj = cubes.cube(S, d, dims)
    v = obj.get_all_points()
    k = S.choice('k', range(n))
    val = S.real('nv', -100, 100)
    j = k if S.bool('flat') else idx[k]
    v[j] = HyperPoint(1.0, 2.0, val=val) if S.bool('point') else val
    for i in range(n):
        same_point(S, v[i], '(after assigning)', val if i == k else d[i], **co[i])


def build(S, cfg):
    n, names = cfg['n'], cfg['names']
    pts, co = [], []
    for i in range(n):
        c = {k: S.real('%s%d' % (k, i), -1000, 1000) for k in names}
        co.append(c)
        pts.append(HyperPoint(c.get('latitude'), c.get('longitude'), c.get('altitude'), c.get('air_pressure'),
                              c.get('time'), S.real('v%d' % i, -100, 100)))
    obj = UngriddedData.from_points_array(pts)
    S.check(len(obj.coords()) == len(names), 'one coordinate per coordinate of the points')
    S.check(obj.data.shape == (n,), 'one value per point')
    for i in range(n):
        for k in names:
            S.check(S.eq(obj.coord(standard_name=k).points[i], co[i][k]), 'coordinates of the points')
        S.check(S.eq(obj.data[i], pts[i].val[0]), 'values of the points')
        same_point(S, obj.get_all_points()[i], '(built)', pts[i].val[0], **co[i])


HARNESSES = dict(hyper=hyper, ungridded=ungridded, points=points, assign=assign, gridded=gridded, gassign=gassign, build=build)
