"""C16: changing the longitude range of ungridded data, coordinates and point views."""
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList, UngriddedCoordinates
from symx import cubes
from symx.harness import masked_at, val_at

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE]
BOUNDS = {'quick': 'up to 4 points in one or two dimensions; longitudes in [-1440, 1440], range start in [-720, 720]',
          'thorough': 'up to 6 points'}
OUTSIDE = 'rounding of sums with multiples of 360; integer longitudes'
ASSUMPTIONS = []


def configs(tier):
    big = tier != 'quick'
    out = []
    for kind in ('data', 'coordinates', 'list', 'list-shared', 'coord', 'coordlist-other'):
        for n, shape in ((1, None), (2, None), (3, None), (4, (2, 2))) + (((5, None), (6, (2, 3))) if big else ()):
            for start in (None, -180, 0):
                out.append(dict(harness='points', kind=kind, n=n, shape=shape, start=start))
    for n in (1, 2, 3) + ((4, 5) if big else ()):
        for start in (None, -180, 0):
            out.append(dict(harness='view', n=n, start=start))
            out.append(dict(harness='gview', n=n, start=start))
            out.append(dict(harness='gview', n=n, start=start, swap=True))
    out += [dict(harness='nolon', kind=k) for k in ('view', 'gview')]
    return out


def expect(S, lon, start, got, where):
    import math
    q = (lon - start) / 360
    k = q.floor() if hasattr(q, 'floor') else math.floor(q + 1e-9)
    S.check(S.near(got, lon - 360 * k, 1e-7), 'the longitude is moved by whole turns ' + where)
    S.check(got >= start and got < start + 360, 'the longitude lies in the range ' + where)


def start_of(S, cfg, lon):
    start = cfg['start'] if cfg['start'] is not None else S.real('start', -720, 720)
    if not S.symbolic:
        for x in lon:                    # float64: stay clear of the seam unless exactly on it
            f = ((x - start) / 360) % 1
            S.assume(f == 0 or 1e-9 < f < 1 - 1e-9)
    return start


def points(S, cfg):
    n, shape, kind = cfg['n'], cfg['shape'], cfg['kind']
    lon = S.reals('lon', n, -1440, 1440)
    lat = S.reals('lat', n, -90, 90)
    alt = S.reals('alt', n, 0, 1000)
    start = start_of(S, cfg, lon)

    def coords():
        return CoordList([coord(S, 'altitude', alt, shape=shape), coord(S, 'longitude', lon, shape=shape),
                          coord(S, 'latitude', lat, shape=shape)])

    if kind == 'coord':
        c = coord(S, 'longitude', lon, shape=shape)
        c.data_flattened
        c.set_longitude_range(start)
        for i in range(n):
            expect(S, lon[i], start, c.points.reshape(-1)[i], '(coordinate)')
            expect(S, lon[i], start, c.data_flattened[i], '(flattened coordinate)')
        S.check(c.points.shape == (shape or (n,)), 'shape')
        return
    if kind == 'coordinates':
        objs = [UngriddedCoordinates(coords())]
        top = objs[0]
    else:
        d = S.reals('d', n, -100, 100)
        m = S.missing('m', n)
        e = S.reals('e', n, -100, 100)
        cl = coords()
        if kind in ('data', 'coordlist-other'):
            objs = [ug(S, d, cl, mask=m, shape=shape)]
            top = objs[0]
            if kind == 'coordlist-other':
                objs[0].coord('longitude').metadata._name = 'x'
                objs[0].coord('longitude').axis = ''
        else:
            objs = [ug(S, d, cl, mask=m, shape=shape), ug(S, e, cl if kind == 'list-shared' else coords(), shape=shape,
                                                          name='snow')]
            top = UngriddedDataList(objs)
    for o in objs:
        list(o.get_all_points())          # fill whatever is cached
    top.set_longitude_range(start)
    for k, o in enumerate(objs):
        pts = list(o.get_all_points())
        S.check(len(pts) == n, 'the number of points is unchanged')
        for i in range(n):
            expect(S, lon[i], start, o.coord(standard_name='longitude').points.reshape(-1)[i], '(%s)' % kind)
            expect(S, lon[i], start, pts[i].longitude, '(points of %s)' % kind)
            S.check(S.eq(pts[i].latitude, lat[i]) and S.eq(pts[i].altitude, alt[i]), 'other coordinates are unchanged')
            S.check(S.eq(o.coord('latitude').points.reshape(-1)[i], lat[i]) and
                    S.eq(o.coord('altitude').points.reshape(-1)[i], alt[i]), 'other coordinates are unchanged')
            if kind != 'coordinates':
                want, miss = (d, m) if k == 0 else (e, [False] * n)
                f = o.data.reshape(-1)
                S.check(masked_at(f, i) == miss[i], 'missing flags are unchanged')
                if not miss[i]:
                    S.check(S.eq(val_at(f, i), want[i]), 'data values are unchanged')
        S.check(all(c.points.shape == (shape or (n,)) for c in o.coords()), 'the shape is unchanged')
        S.check([c.name() for c in o.coords()] == ['altitude', 'longitude', 'latitude'], 'coordinates in the same order')


def view(S, cfg):
    n = cfg['n']
    lon = S.reals('lon', n, -1440, 1440)
    lat = S.reals('lat', n, -90, 90)
    d = S.reals('d', n, -100, 100)
    m = S.missing('m', n)
    start = start_of(S, cfg, lon)
    data = ug(S, d, CoordList([coord(S, 'latitude', lat), coord(S, 'longitude', lon)]), mask=m)
    for k, v in enumerate((data.get_all_points(), data.get_non_masked_points(), data.get_coordinates_points())):
        v.set_longitude_range(start)
        S.check(len(v) == n, 'length')
        for i in range(n):
            p = v[i]
            expect(S, lon[i], start, p.longitude, '(view)')
            S.check(S.eq(p.latitude, lat[i]), 'latitudes are unchanged')
            if k < 2 and not m[i]:
                S.check(S.eq(p.val[0], d[i]), 'values are unchanged')
        for i in range(n):
            S.check(S.eq(data.coord('longitude').points[i], lon[i]), 'the data behind the view is unchanged')


def gview(S, cfg):
    n = cfg['n']
    lon, _ = cubes.axis(S, 'lon', n, -1440, 1440)
    lat = [10.0, 20.0]
    d = S.reals('d', 2 * n, -100, 100)
    m = [S.bool('m0')] + [False] * (2 * n - 1)
    start = start_of(S, cfg, lon)
    dims = [cubes.dim(S, 'latitude', lat), cubes.dim(S, 'longitude', lon)]
    if cfg.get('swap'):
        dims = dims[::-1]
    c = cubes.cube(S, d, dims, mask=m)
    for k, v in enumerate((c.get_all_points(), c.get_non_masked_points(), c.get_coordinates_points())):
        v.set_longitude_range(start)
        for i in range(2 * n):
            a, b = divmod(i, 2) if cfg.get('swap') else divmod(i, n)[::-1]     # longitude, latitude index
            p = v[i]
            expect(S, lon[a], start, p.longitude, '(gridded view)')
            S.check(S.eq(p.latitude, lat[b]), 'latitudes are unchanged')
            if k < 2 and not m[i]:
                S.check(S.eq(p.val[0], d[i]), 'values are unchanged')
    for a in range(n):
        S.check(S.eq(c.coord('longitude').points[a], lon[a]), 'the data behind the view is unchanged')


def nolon(S, cfg):
    d = S.reals('d', 2, -100, 100)
    lat = S.reals('lat', 2, -90, 90)
    if cfg['kind'] == 'view':
        v = ug(S, d, CoordList([coord(S, 'latitude', lat)])).get_all_points()
    else:
        S.assume(lat[0] < lat[1])
        v = cubes.cube(S, d, [cubes.dim(S, 'latitude', lat)]).get_all_points()
    v.set_longitude_range(S.real('start', -720, 720))
    for i in range(2):
        S.check(v[i].longitude is None and S.eq(v[i].latitude, lat[i]) and S.eq(v[i].val[0], d[i]),
                'points without longitude are unchanged')


HARNESSES = dict(points=points, view=view, gview=gview, nolon=nolon)
