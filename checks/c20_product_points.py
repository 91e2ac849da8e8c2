"""C20: positions and times of the points of the ungridded NetCDF products."""
import sys
import numpy as np
from symx import fakenc, dates as D
from symx.engine import Sym
import cis
import cis.data_io.products
from cis import time_util as T
from symx.build import quiet_metadata, STUB_NOTE
from symx.harness import masked_at, val_at

fakenc.install()
quiet_metadata()
D.install_units()
sys.modules['cis.data_io.products.NCAR_NetCDF_RAF'].float = lambda v: v if isinstance(v, Sym) else float(v)
STUBS = [fakenc.NOTE, STUB_NOTE, 'float() of a symbolic attribute is the attribute itself',
         'cf_units num2date/date2num of symbolic numbers: the exact affine map']
BOUNDS = {'quick': '1-2 files of 1-2 times (or pixels), up to 2 heights, size bins, bands or layers; every value, coordinate and numeric '
                   'attribute arbitrary; the layouts, names and units in configs',
          'thorough': '1-3 files of 1-3 times'}
OUTSIDE = 'EarthCARE indices above 9; bins before times; rounding; the formats of text files (Aeronet, hyperpoints)'
ASSUMPTIONS = ['the files of one data set have the same layout, as the first of them']
REF = {'2000-01-01': 146097, '1970-01-01': 135140, '2008-06-30': 149201}
PER = {'days': 1, 'hours': 24, 'seconds': 86400, 'minutes': 1440}
TEXT = {'alt': [('80 m asl', 80), ('12.5', 12.5), ('unknown', 0), ('-3 m', -3)], 'pos': [('51.5 degrees north', 51.5), ('-7', -7)]}


def configs(tier):
    T3 = tier != 'quick'
    out = []
    sizes = ((2,), (1, 2)) + (((3,), (2, 1, 1)) if T3 else ())
    for fs in sizes:
        for kind in ('aircraft', 'ship', 'station', 'nimbus'):
            for pre in ((), ('PRE',), ('PSXC', 'PRE')):
                out.append(dict(harness='gassp', kind=kind, files=fs, pre=pre, stamps=kind != 'nimbus', _w=2))
            for aux in ('named', 'first', 'decoys'):
                out.append(dict(harness='gassp', kind=kind, files=fs, pre=(), stamps=False, aux=aux, _w=3))
            out.append(dict(harness='gassp', kind=kind, files=fs, pre=('PRE',), stamps=True, upper=True, coords=True, _w=2))
        for text in ('alt', 'pos'):
            out.append(dict(harness='gassp', kind='station', files=fs, pre=(), stamps=True, text=text, _w=6))
        out.append(dict(harness='gassp', kind='station', files=fs, pre=(), stamps=False, noalt=True, _w=2))
        for kind in ('cloud', 'aerosol'):
            for long in (False, True):
                out.append(dict(harness='cci', kind=kind, files=fs, long=long, _w=2))
        for prod in ('along', 'profile', 'layer', 'class', 'height_class', 'image', 'bands'):
            for nom in (False, True):
                if not nom or prod in ('along', 'profile'):
                    out.append(dict(harness='earthcare', kind=prod, files=fs, nom=nom, _w=3))
    return out


def points(S, d, coords, vals, where):
    """coords: {name: [values]}, vals: [values], in the order of the (flattened) data"""
    n = len(vals) if vals is not None else len(next(iter(coords.values())))
    if vals is not None:
        S.check(d.data.size == n, 'every value is read, once ' + where, lambda: '%d of %d' % (d.data.size, n))
        a = d.data.reshape(-1)
        for i in range(n):
            if vals[i] is np.ma.masked:
                S.check(masked_at(a, i), 'missing values are missing ' + where)
            else:
                S.check(not masked_at(a, i) and S.near(val_at(a, i), vals[i]), 'values are in the order of the files ' + where)
    names = {c.standard_name or c.name(): c for c in d.coords()}
    S.check(set(names) == set(coords), 'the coordinates are those of the product ' + where, lambda: '%s / %s' % (sorted(names), sorted(coords)))
    for k, want in coords.items():
        S.check(names[k].data.size == n, 'each coordinate has a value for every point ' + where)
        if vals is not None:
            S.check(names[k].data.shape == d.data.shape, 'coordinates have the shape of the data ' + where)
        c = names[k].data.reshape(-1)
        for i in range(n):
            S.check(not masked_at(c, i) and (S.near(val_at(c, i), want[i]) if k != 'time' else abs(val_at(c, i) - want[i]) < 1e-6),
                    'the %s of every point is what its file says ' % k + where)
    if 'time' in coords:
        S.check(str(names['time'].units) == str(T.cis_standard_time_unit), 'time is standard time ' + where)


def gassp(S, cfg):
    fakenc.fresh()
    kind, aux = cfg['kind'], cfg.get('aux')
    K = 2
    names = dict(time='Time', lat='LATC', lon='LONC', alt='ALTX') if kind == 'nimbus' else dict(time='tm', lat='Lat', lon='Lon', alt='Height')
    files, co, vals = [], dict(time=[], latitude=[], longitude=[], altitude=[]), []
    pname = 'PSXC' if 'PSXC' in cfg['pre'] else 'PRE' if cfg['pre'] else None
    if pname:
        co['air_pressure'] = []
    bins = S.reals('bin', K, 0, 100) if aux else None
    if aux:
        co['bins'] = []
    fill = S.real('fill', -1000, 1000) if not aux and not cfg.get('text') else 5000.0
    for f, n in enumerate(cfg['files']):
        t = S.reals('t%d_' % f, n, 0, 2000)
        ref = sorted(REF)[f % 3]
        unit = ('days', 'hours')[f % 2] if cfg['stamps'] else ('seconds', 'days')[f % 2]
        co_f = dict(time=[x / PER[unit] + REF[ref] for x in t])
        vs = [(names['time'], t, ('Time',), {'units': unit + ' from the start' if cfg['stamps'] else '%s since %s' % (unit, ref)}, None)]
        at = {}
        if kind != 'nimbus':
            at['GASSP_Version'] = '1.0'
            at['Time_Coordinate'] = names['time']
            if cfg['stamps']:
                at['Time_Stamp_Info'] = ref
        else:
            at['Conventions'] = 'NCAR-RAF/nimbus'
            at['Coordinates'] = ' '.join([names['lon'], names['lat'], names['alt'], names['time']])
            if cfg['stamps']:
                at['Time_Stamp_Info'] = ref
        if kind == 'station':
            for key, std, attr in (('pos', 'latitude', 'Station_Lat'), ('pos', 'longitude', 'Station_Lon'), ('alt', 'altitude', 'Station_Altitude')):
                if key == 'alt' and cfg.get('noalt'):
                    co_f[std] = [0] * n
                    continue
                if cfg.get('text') == key and f == len(cfg['files']) - 1:
                    at[attr], v = S.choice('%s%d' % (attr, f), TEXT[key])
                else:
                    at[attr] = v = S.real('%s%d' % (attr, f), -90, 90)
                co_f[std] = [v] * n
        else:
            for std, key, attr in (('latitude', 'lat', 'Latitude_Coordinate'), ('longitude', 'lon', 'Longitude_Coordinate'),
                                   ('altitude', 'alt', 'Vertical_Coordinate')):
                if key == 'alt' and kind == 'ship':
                    co_f[std] = [0] * n
                    continue
                if kind == 'aircraft':
                    at[attr] = names[key]
                elif kind == 'ship':
                    at[attr] = names[key]
                c = S.reals('%s%d_' % (key, f), n, -90, 90)
                vs.append((names[key], c, ('Time',), {'units': 'm' if key == 'alt' else 'degrees'}, None))
                co_f[std] = c
        for p in cfg['pre']:
            c = S.reals('%s%d_' % (p, f), n, 0, 1000)
            vs.append((p, c, ('Time',), {'units': 'hPa'}, None))
            if p == pname:
                co_f['air_pressure'] = c
        if aux == 'decoys':
            vs.append(('other', [[1.0, 2.0, 3.0]] * K, ('bin', 'three'), {}, None))
            vs.append(('number', 7.0, (), {}, None))
        if aux:
            bname = 'bin' if aux == 'named' else 'diameter'
            vs.append((bname, bins, ('bin',), {'units': 'um'}, None))
        v = S.reals('v%d_' % f, n * (K if aux else 1), -1000, 1000)
        vs.append(('NUM', v if not aux else [v[i * K:(i + 1) * K] for i in range(n)], ('Time',) + (('bin',) if aux else ()),
                   {'units': 'cm-3', '_FillValue': fill}, None))
        if cfg.get('upper'):
            at = {k.upper(): x for k, x in at.items()}
        files.append(fakenc.write(S, fakenc.path('c20'), vs, attrs=at))
        for x in v:
            vals.append(np.ma.masked if x == fill else x)
        co_f.setdefault('air_pressure', None)
        for k in co:
            for i in range(n):
                co[k] += list(bins) if k == 'bins' else [co_f[k][i]] * (K if aux else 1)
    if aux:
        co['bin' if aux == 'named' else 'diameter'] = co.pop('bins')
    if cfg.get('coords'):
        from cis.data_io.data_reader import DataReader
        points(S, DataReader().read_coordinates(files, product='NCAR_NetCDF_RAF'), co, None, '(coordinates)')
    d = cis.read_data(files, 'NUM', product='NCAR_NetCDF_RAF')
    points(S, d, co, vals, '(%s)' % kind)
    S.check(str(d.units) == 'cm-3', 'units')


def cci(S, cfg):
    fakenc.fresh()
    cloud = cfg['kind'] == 'cloud'
    files, co, vals = [], dict(time=[], latitude=[], longitude=[]), []
    ln = ('latitude', 'longitude') if cfg['long'] else ('lat', 'lon')
    fill = S.real('fill', -1000, 1000)
    for f, n in enumerate(cfg['files']):
        la, lo = S.reals('la%d_' % f, n, -90, 90), S.reals('lo%d_' % f, n, -180, 180)
        t = S.reals('t%d_' % f, n, *((2440000, 2460000) if cloud else (0, 1e9)))
        v = S.reals('v%d_' % f, n, -1000, 1000)
        dims = ('pixel_number',)
        files.append(fakenc.write(S, fakenc.path('c20'), [
            (ln[0], la, dims, dict(units='degrees_north', standard_name='latitude'), None),
            (ln[1], lo, dims, dict(units='degrees_east', standard_name='longitude'), None),
            ('time', t, dims, dict(units='Julian Date' if cloud else 'seconds', standard_name='time'), None),
            ('AOD', v, dims, dict(units='1', _FillValue=fill), None)]))
        co['latitude'] += la
        co['longitude'] += lo
        co['time'] += [x - 2305447.5 if cloud else x / 86400 + REF['1970-01-01'] for x in t]
        vals += [np.ma.masked if x == fill else x for x in v]
    points(S, cis.read_data(files, 'AOD', product='Cloud_CCI_L2' if cloud else 'Aerosol_CCI_L2'), co, vals, '(CCI)')


def earthcare(S, cfg):
    fakenc.fresh()
    kind, nom, K = cfg['kind'], cfg['nom'], 2
    files, vals = [], []
    want = dict(time=[], latitude=[], longitude=[])
    pre = 'ScienceData/'
    image = kind in ('image', 'bands')
    heights = kind in ('profile', 'height_class')
    if heights or kind == 'layer':
        want['altitude'] = []
    pick = S.choice('index', [None, 0, 1]) if kind in ('class', 'height_class', 'bands') else None
    j = pick or 0
    suffix = '' if pick is None else ('_BANDNUM_' if kind == 'bands' else '_CLASSNUM_') + str(pick)
    for f, n in enumerate(cfg['files']):
        w = K if image else 1
        la, lo, t = S.reals('la%d_' % f, n * w, -90, 90), S.reals('lo%d_' % f, n * w, -180, 180), S.reals('t%d_' % f, n, 0, 1e9)
        two = lambda v, k: [v[i * k:(i + 1) * k] for i in range(n)]
        ll = ('along_track', 'across_track') if image else ('along_track',)
        p = 'ellipsoid_' if nom else ''
        vs = [(pre + p + 'latitude', two(la, w) if image else la, ll, dict(units='degrees_north'), None),
              (pre + p + 'longitude', two(lo, w) if image else lo, ll, dict(units='degrees_east'), None),
              (pre + 'time', t, ('along_track',), dict(units='seconds since 2000-01-01'), None)]
        h = None
        if heights:
            h = S.reals('h%d_' % f, n * K, 0, 20000)
            vs.append((pre + ('sample_altitude' if nom else 'height'), two(h, K), ('along_track', 'height'), dict(units='m', long_name='height'), None))
        shape = dict(along=('along_track',), profile=('along_track', 'height'), layer=('along_track', 'layer'),
                     image=('along_track', 'across_track'), bands=('band', 'along_track', 'across_track'),
                     height_class=('along_track', 'height', 'class'))
        shape['class'] = ('along_track', 'layer', 'class')
        dims = shape[kind]
        size = [n if x == 'along_track' else K for x in dims]
        v = np.array(S.reals('v%d_' % f, int(np.prod(size)), -1000, 1000), dtype=object).reshape(size)
        vs.append((pre + 'X', v.tolist(), dims, dict(units='1', long_name='X'), None))
        files.append(fakenc.write(S, fakenc.path('c20'), vs))
        if kind in ('class', 'height_class'):
            v = v[..., j]
        if kind == 'bands':
            v = v[j]
        for i in range(n):
            for k in range(1 if kind == 'along' else K):
                vals.append(v[i] if kind == 'along' else v[i, k])
                want['latitude'].append(la[i * w + k] if image else la[i])
                want['longitude'].append(lo[i * w + k] if image else lo[i])
                want['time'].append(t[i] / 86400 + REF['2000-01-01'])
                if heights:
                    want['altitude'].append(h[i * K + k])
                elif kind == 'layer':
                    want['altitude'].append(k)
    d = cis.read_data(files, pre + 'X' + suffix, product='EarthCARE_MSI_ATL')
    points(S, d, want, vals, '(EarthCARE)')


HARNESSES = dict(gassp=gassp, cci=cci, earthcare=earthcare)
