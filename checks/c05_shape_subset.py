"""C05: subsetting by a lat/lon shape."""
import numpy as np
import shapely.geometry
import shapely.prepared
import shapely.wkt
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx.cubes import dim, cube, axis, GriddedDataList
from symx import cubes
from symx.engine import Ctx, Sym
from symx.harness import masked_at, val_at, Skip

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE,
         'shapely MultiPoint / contains: a point is contained by the even-odd rule over the edges of all rings']
BOUNDS = {'quick': 'triangle, rectangle, pentagon, notched (concave) polygon or rectangle with a hole, with concrete corners (given as an object or as WKT); 1-2 points or '
                   '1x1 to 2x2 grids in either dimension order, one or two variables, an additional limit',
          'thorough': '1-3 points, up to 2x3 grids'}
OUTSIDE = 'points exactly on (the extension of) an edge of the outline; multi-polygons; what GEOS itself computes'
ASSUMPTIONS = ['no point lies on the outline of the shape']
SHAPES = {'tri': [[(-10, -5), (10, -5), (2, 15)]], 'rect': [[(-8, 2), (16, 2), (16, 12), (-8, 12)]],
          'pent': [[(0, -10), (12, -2), (8, 10), (-8, 10), (-12, -2)]],
          'east': [[(340, -5), (358, -5), (350, 15)]],
          # clockwise, with a notch; and one with a hole
          'notch': [[(-10, -5), (-10, 15), (0, 4), (10, 15), (10, -5)]],
          'hole': [[(-10, -6), (-10, 10), (12, 10), (12, -6)], [(-4, -2), (-4, 4), (6, 4), (6, -2)]]}


class Region(object):
    """stand-in for a shapely polygon while exploring: containment is decided here, the rest is asked of shapely"""

    def __init__(self, rings, *holes):
        if isinstance(rings, shapely.geometry.base.BaseGeometry):
            rings = [list(rings.exterior.coords)[:-1]] + [list(i.coords)[:-1] for i in rings.interiors]
        elif not isinstance(rings[0], list):
            rings = [list(rings)] + [list(h) for h in (holes[0] if holes else [])]
        self.rings = [r[:-1] if tuple(r[0]) == tuple(r[-1]) else r for r in rings]
        self.poly = _real_polygon(self.rings[0], self.rings[1:])

    def contains(self, p):
        return inside(self.rings, p.x, p.y)

    # no point is on the outline, so these are the same
    covers = intersects = contains

    def __getattr__(self, name):
        r = getattr(self.poly, name)
        return Region(r) if isinstance(r, _real_polygon) else r


class P(object):
    def __init__(self, x, y):
        self.x, self.y = x, y
        self.coords = [(x, y)]

    def within(self, region):
        return region.contains(self)

    intersects = covered_by = within


class MP(object):
    def __init__(self, a):
        self.geoms = [P(r[0], r[1]) for r in a]

    def __iter__(self):
        return iter(self.geoms)


_real_polygon = shapely.geometry.Polygon
_real_mp, _real_point = shapely.geometry.MultiPoint, shapely.geometry.Point
_real_loads, _real_prep = shapely.wkt.loads, shapely.prepared.prep


def MultiPoint(a=None):
    if Ctx.current is not None and a is not None and getattr(a, 'dtype', None) == object:
        return MP(a)
    return _real_mp(a)


def Point(*a):
    if Ctx.current is not None and any(isinstance(v, Sym) for v in (a if len(a) > 1 else a[0])):
        return P(*(a if len(a) > 1 else a[0]))
    return _real_point(*a)


def loads(s):
    return _real_loads(s) if Ctx.current is None else Region(_real_loads(s))


shapely.geometry.MultiPoint = MultiPoint
shapely.geometry.Point = Point
shapely.wkt.loads = loads
shapely.prepared.prep = lambda g: g if isinstance(g, Region) else _real_prep(g)


def inside(rings, x, y):
    """even-odd rule: how many edges does the half line from (x, y) towards larger x cross?"""
    r = False
    for v in rings:
        for a, b in zip(v, v[1:] + v[:1]):
            if a[1] == b[1]:
                continue
            if a[1] > b[1]:
                a, b = b, a
            # to the left of the upwards edge a -> b
            left = (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0]) > 0
            r = ((a[1] <= y) & (y < b[1]) & left) ^ r
    return r


def cross(a, b, x, y):
    return (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0])


def off_edges(S, rings, x, y):
    for v in rings:
        for a, b in zip(v, v[1:] + v[:1]):
            c = cross(a, b, x, y)
            if S.symbolic:
                S.assume(abs(c) > 0.001)
            elif abs(c) < 1e-9:
                raise Skip()


def shape_arg(S, rings, wkt):
    if wkt:
        return _real_polygon(rings[0], rings[1:]).wkt
    return Region(rings) if S.symbolic else _real_polygon(rings[0], rings[1:])


def configs(tier):
    out = []
    N = 2 if tier == 'quick' else 3
    for n in range(1, N + 1):
        for sh in ('tri', 'rect', 'pent', 'east', 'notch', 'hole') if n < 3 else ('tri', 'hole'):
            out.append(dict(harness='ung', n=n, shape=sh, extra=None, nv=1, _w=3 * n, wkt=n == 2))
        if n < 3:
            out.append(dict(harness='ung', n=n, shape='tri', extra=None, nv=2, _w=3 * n, wkt=n == 2))
            for extra in ('alt', 'lon_before', 'lon_after') if n == 1 or tier != 'quick' else ('lon_before', 'lon_after'):
                out.append(dict(harness='ung', n=n, shape='tri', extra=extra, nv=1, _w=3 * n, wkt=n == 2))
    for order in ('yx', 'xy'):
        for ny, nx in ((1, 2), (2, 1), (2, 2)) if tier == 'quick' else ((1, 2), (2, 1), (2, 2), (2, 3)):
            for mask in (False, True):
                out.append(dict(harness='grid', order=order, ny=ny, nx=nx, mask=mask, nv=1, shape='tri', _w=9, wkt=mask))
        out.append(dict(harness='grid', order=order, ny=1, nx=2, mask=True, nv=2, shape='rect', wkt=True))
        for sh in ('notch', 'hole'):
            out.append(dict(harness='grid', order=order, ny=1, nx=2, mask=False, nv=1, shape=sh, wkt=sh == 'hole'))
    return out


def ung(S, cfg):
    n, v = cfg['n'], SHAPES[cfg['shape']]
    x, y = S.reals('x', n, -180, 360 if n == 1 or cfg['shape'] == 'east' else 180), S.reals('y', n, -90, 90)
    for i in range(n):
        off_edges(S, v, x[i], y[i])
        off_edges(S, v, x[i] - 360, y[i])
        off_edges(S, v, x[i] + 360, y[i])
    alt = S.reals('z', n)
    ds = [S.reals('d%d_' % k, n) for k in range(cfg['nv'])]
    ms = [S.missing('m%d_' % k, 1) + [False] * (n - 1) for k in range(cfg['nv'])]
    cl = CoordList([coord(S, 'longitude', x), coord(S, 'latitude', y), coord(S, 'altitude', alt)])
    data = [ug(S, d, cl, mask=m, name='v%d' % k) for k, (d, m) in enumerate(zip(ds, ms))]
    data = data[0] if cfg['nv'] == 1 else UngriddedDataList(data)
    kw = dict(shape=shape_arg(S, v, (cfg['wkt'])))
    lo, hi = None, None
    if cfg['extra'] == 'alt':
        lo, hi = S.real('lo'), S.real('hi')
        kw['altitude'] = [lo, hi]
    elif cfg['extra']:
        lo, hi = S.real('lo', -20, 20), S.real('hi', -20, 20)
        S.assume(lo <= hi)
        for i in range(n):
            S.assume(x[i] <= 180)
        kw = dict([('longitude', [lo, hi])] + list(kw.items()) if cfg['extra'] == 'lon_before' else
                  list(kw.items()) + [('longitude', [lo, hi])])
    r = data.subset(**kw)
    exp = []
    for i in range(n):
        if cfg['extra'] == 'alt' and not (lo <= alt[i] and alt[i] <= hi):
            continue
        if cfg['extra'] in ('lon_before', 'lon_after') and not (lo <= x[i] and x[i] <= hi):
            continue
        if inside(v, x[i] - 360, y[i]) | inside(v, x[i], y[i]) | inside(v, x[i] + 360, y[i]):
            exp.append(i)
    if not exp:
        S.check(r is None, 'nothing is returned when no point is inside the shape')
        return
    S.check(r is not None, 'points inside the shape are returned')
    for k, var in enumerate(r if cfg['nv'] > 1 else [r]):
        S.check(var.data.size == len(exp), 'exactly the points inside the shape are kept, for every variable',
                lambda: 'var %d: got %s expected %s' % (k, var.data.size, exp))
        for j, i in enumerate(exp):
            S.check(masked_at(var.data, j) == bool(ms[k][i]), 'missing flags stay with their points')
            if not ms[k][i]:
                S.check(S.eq(val_at(var.data, j), ds[k][i]), 'values stay with their points')
            S.check(S.eq(var.coord('latitude').data[j], y[i]), 'coordinates stay with their points')
            S.check(S.eq(var.coord('altitude').data[j], alt[i]), 'coordinates stay with their points')
    S.observe('n', str(len(exp)))


def grid(S, cfg):
    ny, nx, v = cfg['ny'], cfg['nx'], SHAPES[cfg['shape']]
    x, _ = axis(S, 'x', nx, -180, 180)
    y, _ = axis(S, 'y', ny, -90, 90)
    S.assume(x[-1] - x[0] <= 300)
    for a in x:
        for b in y:
            off_edges(S, v, a, b)
    n = nx * ny
    mask = S.missing('m', 2 if n < 4 else 1) if cfg['mask'] else None
    if mask is not None:
        mask = (mask + [False] * n)[:n]
    X, Y = dim(S, 'longitude', x), dim(S, 'latitude', y)
    dims = [Y, X] if cfg['order'] == 'yx' else [X, Y]
    cell = (lambda i, j: i * nx + j) if cfg['order'] == 'yx' else (lambda i, j: j * ny + i)    # i: lat, j: lon
    vals = [S.reals('d%d_' % k, n) for k in range(cfg['nv'])]
    gs = [cube(S, d, [c.copy() for c in dims], mask=mask, name='v%d' % k) for k, d in enumerate(vals)]
    src = gs[0] if cfg['nv'] == 1 else GriddedDataList(gs)
    r = src.subset(shape=shape_arg(S, v, (cfg['wkt'])))
    b = _real_polygon(v[0]).bounds
    cols = [j for j in range(nx) if b[0] <= x[j] and x[j] <= b[2]]
    rows = [i for i in range(ny) if b[1] <= y[i] and y[i] <= b[3]]
    if not rows or not cols:
        S.check(r is None, 'nothing is returned when the grid is clear of the shape')
        return
    S.check(r is not None, 'a grid reaching the bounding box of the shape is returned')
    for k, g in enumerate(r if cfg['nv'] > 1 else [r]):
        shape = (len(rows), len(cols)) if cfg['order'] == 'yx' else (len(cols), len(rows))
        S.check(g.data.size == shape[0] * shape[1], 'the grid is cut to the bounding box of the shape')
        d = g.data.reshape(shape)
        for a, i in enumerate(rows):
            for c, j in enumerate(cols):
                at = (a, c) if cfg['order'] == 'yx' else (c, a)
                miss = (mask is not None and mask[cell(i, j)]) or not inside(v, x[j], y[i])
                S.check(masked_at(d, at) == bool(miss), 'exactly the grid points outside the shape, and those already '
                        'missing, are missing', lambda: 'lat %d lon %d expected missing=%s' % (i, j, bool(miss)))
                if not miss:
                    S.check(S.eq(val_at(d, at), vals[k][cell(i, j)]), 'values stay with their grid points')


HARNESSES = {'ung': ung, 'grid': grid}
