"""C02: longitude limits are circular."""
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList
from symx.harness import val_at

quiet_metadata()
STUBS = [STUB_NOTE, 'iris wrap_lons: its cast to float64 is dropped, the remaining expression is evaluated exactly']
BOUNDS = {'quick': '1-3 points; longitudes and limits symbolic; data in [-180,180], [0,360] or [-180,360); '
                   'limits start <= stop <= start + 360 in [-180, 360]',
          'thorough': '1-4 points'}
OUTSIDE = 'data outside [-180, 360]'
ASSUMPTIONS = ['limits describe an increasing range of at most 360 degrees (documented)']
RANGES = {'pm180': (-180, 180), 'p360': (0, 360), 'wide': (-180, 360)}


def configs(tier):
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for r in RANGES:
            for lr in ('pm180', 'p360', 'any'):
                if n == 3 and lr == 'any' and tier == 'quick':
                    continue
                out.append(dict(harness='wrap', n=n, data=r, lim=lr, _w=n))
    return out


def wrap(S, cfg):
    n = cfg['n']
    lo_d, hi_d = RANGES[cfg['data']]
    lon = S.reals('lon', n, lo_d, hi_d)
    d = S.reals('d', n)
    lat = S.reals('lat', n)
    lr = {'pm180': (-180, 180), 'p360': (0, 360), 'any': (-180, 360)}[cfg['lim']]
    lo, hi = S.real('lo', *lr), S.real('hi', *lr)
    S.assume(lo <= hi)
    S.assume(hi <= lo + 360)
    data = ug(S, d, CoordList([coord(S, 'longitude', lon), coord(S, 'latitude', lat)]))
    r = data.subset(longitude=[lo, hi])
    keep = []
    for i in range(n):
        ks = [k for k in (-2, -1, 0, 1, 2) if (lo <= lon[i] + 360 * k) and (lon[i] + 360 * k <= hi)]
        if ks:
            keep.append((i, ks))
    if not keep:
        S.check(r is None, 'nothing is returned when no point is inside the limits')
        return
    S.check(r is not None, 'points inside the longitude range are returned (longitude is circular)',
            lambda: 'expected %s' % keep)
    out, olon, olat = r.data.ravel(), r.lon.data.ravel(), r.lat.data.ravel()
    S.check(out.size == len(keep), 'exactly the points inside the longitude range are kept (longitude is circular)',
            lambda: 'got %d expected %s' % (out.size, keep))
    S.observe_array('lon', olon)
    for j, (i, ks) in enumerate(keep):
        S.check(S.eq(out[j], d[i]), 'values stay with their points')
        S.check(S.eq(olat[j], lat[i]), 'latitudes stay with their points')
        S.check(any(bool(S.eq(olon[j], lon[i] + 360 * k)) for k in ks),
                'the output longitude is the same meridian, within the requested range')
    for i in range(n):
        S.check(S.eq(data.lon.data[i], lon[i]), 'source longitudes untouched')


HARNESSES = {'wrap': wrap}
