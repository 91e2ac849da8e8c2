"""C28: reading gridded NetCDF files."""
import itertools
import numpy as np
import iris
import iris.coords
import iris.cube
from symx import fakeiris, cubes, dates as D
import cis
from cis import time_util as T
from cis.data_io.products.AProduct import ProductPluginException
from cis.exceptions import CISError
from symx.build import quiet_metadata
from symx.harness import masked_at, val_at

quiet_metadata()
D.install_units()
STUBS = [fakeiris.NOTE, cubes.STUB_NOTE, 'cf_units num2date/date2num of symbolic numbers: the exact affine map']
BOUNDS = {'quick': '1-3 files, grids of up to 3x2x2 points, any values, missing flags and times', 'thorough': '1-4 files, up to 4x3x2 points'}
OUTSIDE = 'how iris turns a file into cubes; PP files; rounding; the dates of CCI attributes outside of the list'
ASSUMPTIONS = ['the times of the files differ by more than a hundredth of a day']
G = 9.80665
UNITS = {'days since 1970-01-01': (1, 135140), 'hours since 2000-01-01 00:00:00': (24, 146097), 'days since 1600-01-01 00:00:00': (1, 0)}
LAT, LON = [-10., 20., 40.], [5., 60.]


def configs(tier):
    out = []
    for u, nlat in itertools.product(UNITS, (2,) if tier == 'quick' else (2, 3)):
        for k in (1, 2, 3) if nlat == 2 else (1, 2, 3, 4):
            out.append(dict(harness='merge', files=k, unit=u, lat=nlat, _w=k))
        for fs in ((1,), (2,), (1, 2), (1, 1, 1)) if nlat == 2 else ((3,), (2, 2), (1, 1, 2), (3, 1)):
            out.append(dict(harness='concat', files=fs, unit=u, lat=nlat, _w=len(fs)))
    for by in ('var_name', 'standard_name', 'long_name', 'missing', 'none_one', 'none_two', 'two'):
        out.append(dict(harness='names', by=by))
    for kind, us in (('geopotential', ('m2 s-2',)), ('geopotential_height', ('m', 'km')), ('air_pressure', ('Pa', 'hPa'))):
        for how in ('same', 'swapped', 'sub', 'othergrid'):
            for u in us:
                out.append(dict(harness='auxiliary', kind=kind, how=how, units=u))
    out.append(dict(harness='listing'))
    for prod in ('Cloud_CCI_L3', 'Aerosol_CCI_L3'):
        for k in (1, 2):
            out.append(dict(harness='cci', product=prod, files=k))
    for name in ('201101-ESACCI-L3C_AEROSOL', '201102-ESACCI-L3C_AEROSOL'):
        out.append(dict(harness='january', name=name))
    for k in (1, 2):
        out.append(dict(harness='hadgem', files=k, product='HadGEM_CONVSH'))
    return out


def raw(S, vals, mask, dims, name, scalars=(), **kw):
    """dims: list of (name, values)"""
    shape = tuple(d[1].shape[0] if hasattr(d[1], 'points') else len(d[1]) for d in dims)
    a = S.array(vals, shape) if mask is None else S.marray(vals, mask, shape)
    co = [(d[1] if hasattr(d[1], 'shape') and hasattr(d[1], 'points') else cubes.dim(S, d[0], d[1], var_name=d[0][:3],
                                                                                  units=d[2] if len(d) > 2 else None), i) for i, d in enumerate(dims)]
    c = iris.cube.Cube(a, var_name=name, dim_coords_and_dims=co, units=kw.pop('units', '1'), **kw)
    for s in scalars:
        c.add_aux_coord(s)
    return c


def grid(S, d, names, want, where='', data=None):
    """want: {name: [values along the dimension]}; data: function of indices -> value or masked"""
    S.check([c.name() for c in d.coords(dim_coords=True)] == list(names), 'the dimensions are those of the file ' + where,
            lambda: str([c.name() for c in d.coords(dim_coords=True)]))
    for k in names:
        p = d.coord(k).points
        S.check(len(p) == len(want[k]), 'every point of the dimension is read ' + where)
        for x, y in zip(p, want[k]):
            S.check(S.near(x, y) if k != 'time' else abs(x - y) < 1e-6, '%s of the file ' % k + where)
    S.check(d.shape == tuple(len(want[k]) for k in names), 'shape')
    for ix in itertools.product(*[range(n) for n in d.shape]):
        v = data(*ix)
        a = np.ma.asarray(d.data)
        if v is np.ma.masked:
            S.check(a[ix] is np.ma.masked, 'missing values are missing ' + where)
        else:
            S.check(a[ix] is not np.ma.masked and S.near(a[ix], v), 'every value is at its own coordinates ' + where)


def merge(S, cfg):
    """one time per file"""
    fakeiris.fresh()
    per, ref = UNITS[cfg['unit']]
    k = cfg['files']
    t = S.reals('t', k, 0, 1000 * per)
    for a, b in itertools.combinations(t, 2):
        S.assume(abs(a - b) > 0.01 * per)
    files, vals = [], []
    for f in range(k):
        v = S.reals('v%d_' % f, 2 * cfg['lat'], -1000, 1000)
        m = S.missing('m%d_' % f, 1) + [False] * (2 * cfg['lat'] - 1)
        vals.append([np.ma.masked if q else x for x, q in zip(v, m)])
        files.append(fakeiris.write(S, [raw(S, v, m, [('latitude', LAT[:cfg['lat']]), ('longitude', LON)], 'rain', long_name='Rain', units='mm',
                                            scalars=[iris.coords.AuxCoord(S.array([t[f]]), standard_name='time', units=cfg['unit'])])]))
    d = cis.read_data(files, 'rain', product='NetCDF_Gridded')
    S.check(d.is_gridded and d.var_name == 'rain' and d.long_name == 'Rain' and str(d.units) == 'mm', 'the variable asked for')
    std = [x / per + ref for x in t]
    order = sorted(range(k), key=lambda i: t[i])
    tc = d.coord('time')
    S.check(str(tc.units) == str(T.cis_standard_time_unit), 'time is standard time')
    want = dict(latitude=LAT[:cfg['lat']], longitude=LON, time=[std[i] for i in order])
    if k == 1:
        S.check(abs(tc.points[0] - std[0]) < 1e-6, 'the time of the file')
        grid(S, d, ('latitude', 'longitude'), want, '(one file)', lambda i, j: vals[0][2 * i + j])
    else:
        grid(S, d, ('time', 'latitude', 'longitude'), want, '(merged)', lambda h, i, j: vals[order[h]][2 * i + j])


def concat(S, cfg):
    """several times per file"""
    fakeiris.fresh()
    per, ref = UNITS[cfg['unit']]
    n = sum(cfg['files'])
    t = S.reals('t', n, 0, 1000 * per)
    for a, b in zip(t, t[1:]):
        S.assume(b - a > 0.01 * per)
    files, vals, o = [], [], 0
    for f, k in enumerate(cfg['files']):
        v = S.reals('v%d_' % f, cfg['lat'] * k, -1000, 1000)
        m = S.missing('m%d_' % f, 1) + [False] * (cfg['lat'] * k - 1)
        vals += [np.ma.masked if q else x for x, q in zip(v, m)]
        files.append(fakeiris.write(S, [raw(S, v, m, [('time', t[o:o + k], cfg['unit']), ('latitude', LAT[:cfg['lat']])], 'rain')]))
        o += k
    if S.bool('reverse'):
        files = files[::-1]
    d = cis.read_data(files, 'rain', product='NetCDF_Gridded')
    grid(S, d, ('time', 'latitude'), dict(latitude=LAT[:cfg['lat']], time=[x / per + ref for x in t]), '(concatenated)', lambda i, j: vals[cfg['lat'] * i + j])
    S.check(str(d.coord('time').units) == str(T.cis_standard_time_unit), 'time is standard time')


def names(S, cfg):
    fakeiris.fresh()
    by = cfg['by']
    dims = [('latitude', LAT[:2]), ('longitude', LON)]
    a, b = S.reals('a', 4, -100, 100), S.reals('b', 4, -100, 100)
    cs = [raw(S, a, None, dims, 'ta', standard_name='air_temperature', long_name='warm', units='K'),
          raw(S, b, None, dims, 'q', standard_name='specific_humidity', long_name='wet', units='1')]
    if by == 'none_one':
        cs = cs[:1]
    if by == 'two':
        cs.append(raw(S, b, None, [('longitude', LON)] + [('latitude', LAT[:2])], 'tb', standard_name='air_temperature', units='K'))
    f = fakeiris.write(S, cs)
    ask = dict(var_name=[('ta', a), ('q', b)], standard_name=[('air_temperature', a), ('specific_humidity', b)],
               long_name=[('warm', a), ('wet', b)], missing=[('rain', None), ('t', None), ('air', None)], two=[('air_temperature', None), ('tb', b)],
               none_one=[(None, a)], none_two=[(None, None)])[by]
    name, want = S.choice('ask', ask)
    from cis.data_io.products import NetCDF_Gridded
    get = lambda: cis.read_data(f, name, product='NetCDF_Gridded') if name else NetCDF_Gridded().create_data_object([f], None)
    if want is None:
        try:
            get()
        except Exception as e:
            S.check(isinstance(e, (CISError, ValueError, ProductPluginException)), 'a variable which is not there, or not only once, is refused', lambda: repr(e))
            return
        S.fail('a variable which is not there, or not only once, is refused')
    order = ('longitude', 'latitude') if name == 'tb' else ('latitude', 'longitude')
    grid(S, get(), order, dict(latitude=LAT[:2], longitude=LON), '(named %s)' % name, lambda i, j: want[2 * i + j])


def auxiliary(S, cfg):
    fakeiris.fresh()
    kind, how = cfg['kind'], cfg['how']
    names = ('air_pressure', 'latitude', 'longitude')[:3]
    level = iris.coords.DimCoord([1., 2.], long_name='level', var_name='lev')
    dims = [('level', [1., 2.]), ('latitude', LAT[:2]), ('longitude', LON)]
    v, h = S.reals('v', 8, -100, 100), S.reals('h', 8, 0, 10000)
    scale = dict(km=1000, hPa=100).get(cfg['units'], 1)
    if how == 'same':
        hd, at = dims, lambda l, i, j: h[4 * l + 2 * i + j]
    elif how == 'swapped':
        hd, at = [dims[1], dims[0], dims[2]], lambda l, i, j: h[4 * i + 2 * l + j]
    elif how == 'sub':
        hd, at = [dims[1], dims[2]], lambda l, i, j: h[2 * i + j]
    else:
        hd, at = [dims[0], ('latitude', [50., 60.]), dims[2]], None
    hv = h[:4] if how == 'sub' else h
    f = fakeiris.write(S, [raw(S, v, None, dims, 'ta', long_name='warm'), raw(S, hv, None, hd, 'hh', standard_name=kind, units=cfg['units'])])
    d = cis.read_data(f, 'ta', product='NetCDF_Gridded')
    grid(S, d, ('level', 'latitude', 'longitude'), dict(level=[1., 2.], latitude=LAT[:2], longitude=LON), '(with auxiliary)',
         lambda l, i, j: v[4 * l + 2 * i + j])
    name = 'air_pressure' if kind == 'air_pressure' else 'altitude'
    got = d.coords(standard_name=name)
    if how == 'othergrid':
        S.check(not got, 'the %s of another grid is not that of the data' % name)
        return
    S.check(len(got) == 1, 'the %s in the file is a coordinate of the data' % name)
    c, = got
    cd = d.coord_dims(c)
    S.check(c.units == ('Pa' if name == 'air_pressure' else 'm'), 'units of the coordinate')
    for ix in itertools.product(range(2), repeat=3):
        x = c.points[tuple(ix[q] for q in cd)]
        S.check(S.near(x, at(*ix) * scale / (G if kind == 'geopotential' else 1)), 'every point has its own %s' % name)


def listing(S, cfg):
    """the variables offered: those on space and time only"""
    fakeiris.fresh()
    dims = [('latitude', LAT[:2]), ('longitude', LON)]
    a = S.reals('a', 4, -100, 100)
    odd = lambda n: iris.coords.DimCoord(np.arange(float(n)), long_name='channel', var_name='ch')
    cs = [raw(S, a, None, dims, 'ta'), raw(S, a[:2], None, dims[:1], 'one'),
          raw(S, a, None, [('channel', odd(2)), dims[0]], 'bad'), raw(S, a[:2], None, [('channel', odd(1)), dims[0]], 'fine'),
          raw(S, a, None, [('time', [1., 2.], 'days since 2000-01-01'), ('air_pressure', [10., 20.], 'hPa')], 'tp')]
    f = fakeiris.write(S, cs)
    from cis.data_io.products import NetCDF_Gridded
    got = NetCDF_Gridded().get_variable_names([f])
    S.check(got == {'ta', 'one', 'fine', 'tp'}, 'the variables on space and time are listed', lambda: str(got))


DATES = [('0101T000000Z', 0), ('0131T235959Z', 31 - 1 / 86400), ('0144T000000Z', 30), ('0244T120000Z', 31 + 28.5), ('0301T000000Z', 60),
         ('0444T010000Z', 31 + 29 + 31 + 29 + 1 / 24), ('0531T060000Z', 31 + 29 + 31 + 30 + 30.25), ('1244T235959Z', 366 - 1 / 86400),
         ('1231T235959Z', 366 - 1 / 86400)]


def cci(S, cfg):
    fakeiris.fresh()
    k, cloud = cfg['files'], cfg['product'].startswith('Cloud')
    files, vals, spans = [], [], []
    for f in range(k):
        v = S.reals('v%d_' % f, 4, -100, 100)
        y = (2008, 2012)[f]
        i = S.choice('start%d' % f, range(len(DATES) - 1)) if f == 0 else 0
        j = S.choice('end%d' % f, range(i + 1, len(DATES))) if f == 0 else len(DATES) - 1
        (s, a), (e, b) = DATES[i], DATES[j]
        s, e, a, b = str(y) + s, str(y) + e, a + 149019 + 1461 * f, b + 149019 + 1461 * f
        c = raw(S, v, None, [('latitude', LAT[:2]), ('longitude', LON)], 'AOD',
                scalars=[iris.coords.AuxCoord(np.array([13879. + 40 * f]), standard_name='time', units='days since 1970-01-01')] if cloud else [])
        c.attributes.update(time_coverage_start=s, time_coverage_end=e, id='file%d' % f, tracking_id='x%d' % f, date_created='d%d' % f)
        if cloud:
            c.attributes['number_of_processed_orbits'] = f
        else:
            c.attributes.update(history='h%d' % f, inputfilelist='l%d' % f, time_coverage_duration='P%dM' % f)
        vals.append(v)
        spans.append((a, b))
        files.append(fakeiris.write(S, [c]))
    d = cis.read_data(files if not S.bool('reverse') else files[::-1], 'AOD', product=cfg['product'])
    t = d.coord('time')
    S.check(str(t.units) == str(T.cis_standard_time_unit) and t.has_bounds() and len(t.points) == k, 'a time per file')
    for i, (a, b) in enumerate(spans):
        S.check(abs(t.bounds[i][0] - a) < 1e-6 and abs(t.bounds[i][1] - b) < 1e-6, 'the period which the file covers',
                lambda: '%s %s' % (t.bounds[i], (a, b)))
        mid = 135140 + 13879 + 40 * i if cloud else (a + b) / 2
        S.check(abs(t.points[i] - mid) < 1e-6, 'the time of the file')
    names = (('time',) if k > 1 else ()) + ('latitude', 'longitude')
    grid(S, d, names, dict(latitude=LAT[:2], longitude=LON, time=[x for x in t.points]), '(CCI)',
         lambda *ix: vals[ix[0] if k > 1 else 0][2 * ix[-2] + ix[-1]])
    S.check('time_coverage_start' not in d.attributes, 'the period is not an attribute of the data')


def january(S, cfg):
    """the file whose time attributes are known to be wrong"""
    fakeiris.fresh()
    v = S.reals('v', 4, -100, 100)
    c = raw(S, v, None, [('latitude', LAT[:2]), ('longitude', LON)], 'AOD')
    s, e = S.choice('attributes', [('20110100T000000Z', '20110199T000000Z'), ('none', 'none'), ('20110101T000000Z', 'x')])
    c.attributes.update(time_coverage_start=s, time_coverage_end=e)
    f = fakeiris.write(S, [c], cfg['name'])
    try:
        d = cis.read_data(f, 'AOD', product='Aerosol_CCI_L3')
    except (CISError, ValueError, ProductPluginException) as e:
        S.check('201102' in cfg['name'], 'the times of the file of January 2011 are corrected', lambda: repr(e))
        return
    S.check('201101' in cfg['name'], 'other files with wrong times are refused')
    t = d.coord('time')
    S.check(abs(t.bounds[0][0] - 150115) < 1e-6 and abs(t.bounds[0][1] - 150146 + 1 / 86400) < 1e-6, 'the period is January 2011', lambda: str(t))
    S.check(abs(t.points[0] - 150130.5) < 1e-4, 'the time of the file')
    grid(S, d, ('latitude', 'longitude'), dict(latitude=LAT[:2], longitude=LON), '(CCI)', lambda i, j: v[2 * i + j])


def hadgem(S, cfg):
    fakeiris.fresh()
    k = cfg['files']
    t = S.reals('t', k, 0, 1000)
    for a, b in itertools.combinations(t, 2):
        S.assume(abs(a - b) > 0.01)
    files, vals = [], []
    for f in range(k):
        v = S.reals('v%d_' % f, 4, -100, 100)
        tc = cubes.dim(S, 't', [t[f]], var_name='t', units='days since 1970-01-01')
        c = raw(S, v, None, [('t', tc), ('latitude', LAT[:2]), ('longitude', LON)], 'ta')
        c.attributes['history'] = 'h%d' % f
        vals.append(v)
        files.append(fakeiris.write(S, [c]))
    d = cis.read_data(files, 'ta', product=cfg['product'])
    order = sorted(range(k), key=lambda i: t[i])
    grid(S, d, ('time', 'latitude', 'longitude'), dict(latitude=LAT[:2], longitude=LON, time=[t[i] + 135140 for i in order]), '(HadGEM)',
         lambda h, i, j: vals[order[h]][2 * i + j])
    S.check(str(d.coord('time').units) == str(T.cis_standard_time_unit), 'time is standard time')


HARNESSES = dict(merge=merge, concat=concat, names=names, auxiliary=auxiliary, listing=listing, cci=cci, january=january, hadgem=hadgem)
