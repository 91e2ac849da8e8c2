"""C25: reading CloudSat, CALIOP and MODIS HDF4 files: unpacking, missing values, coordinates, order of the files."""
import datetime
import numpy as np
from symx import fakehdf
import cis
from symx.build import quiet_metadata, STUB_NOTE
from symx.harness import masked_at, val_at

fakehdf.install()
quiet_metadata()
STUBS = [fakehdf.NOTE, STUB_NOTE]
BOUNDS = {'quick': '1-2 files of 1-2 profiles and 1-2 levels; every stored value, coordinate and numeric attribute '
                   'arbitrary (stored integers in [-100, 100] for packed data); the combinations of attributes listed '
                   'in configs; text valid ranges of CALIOP from a list',
          'thorough': '1-3 files of 1-3 profiles and 1-3 levels, all combinations of attributes'}
OUTSIDE = ('rounding; dtype limits; the 1 km MODIS products (geolocation interpolation); '
           'CALIOP files whose altitudes differ between files')
ASSUMPTIONS = ['valid limits are given in packed units; the first is not above the second; scale factors are not 0']
D1993 = (datetime.datetime(1993, 1, 1) - datetime.datetime(1600, 1, 1)).days
OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '=>': lambda a, b: a >= b,
       '>': lambda a, b: a > b}


def configs(tier):
    T = tier != 'quick'
    out = []
    cs2 = [(), ('_FillValue',), ('valid_range',), ('factor',), ('offset',), ('factor', 'offset'),
           ('_FillValue', 'valid_range', 'factor', 'offset')] + [('missop' + o,) for o in OPS] + \
          [('_FillValue', 'missop<', 'offset'), ('_FillValue', 'missop==', 'factor', 'offset'),
           ('missop=>', 'valid_range')]
    cs1 = [(), ('missing',), ('valid_range',), ('factor',), ('offset',), ('missing', 'valid_range'),
           ('missing', 'factor', 'offset')]
    cal = [(), ('fillvalue',), ('_FillValue',), ('Int_16',), ('Float_32',), ('fillvalue', 'Int_16'),
           ('Int_16', '_FillValue'), ('fillvalue', '_FillValue'), ('range:-2...7',), ('range:10...90',), ('range:0',),
           ('scale_factor',), ('add_offset',), ('scale_factor', 'add_offset'),
           ('_FillValue', 'range:-2...7', 'scale_factor', 'add_offset'), ('Int_16', 'range:-2...7', 'scale_factor')]
    mod = [(), ('_FillValue',), ('valid_range',), ('scale_factor',), ('add_offset',), ('scale_factor', 'add_offset'),
           ('_FillValue', 'valid_range', 'scale_factor', 'add_offset'), ('_FillValue', 'add_offset')]
    shapes = [(1,)] if not T else [(1,), (2,), (1, 1), (2, 1), (1, 1, 1)]
    for kind, sets in (('cloudsat2', cs2), ('cloudsat1', cs1), ('caliop2', cal), ('modis', mod)):
        for s in sets:
            for fs in shapes:
                for lev in ((2,) if not T or len(s) > 2 else (1, 2, 3)):
                    if kind == 'cloudsat1' and lev != 2:
                        continue
                    out.append(dict(harness='read', kind=kind, attrs=s, files=fs if kind != 'cloudsat1' or T else (2,),
                                    lev=lev, packed=len(s) > 2, _w=3))
    for kind in ('cloudsat2', 'cloudsat1', 'caliop2', 'modis', 'caliop1', 'calcol', 'calmix'):
        out.append(dict(harness='read', kind=kind, attrs=('_FillValue',) if 'cloudsat1' != kind else ('missing',),
                        files=(1, 1), lev=2, packed=False, _w=5))
        out.append(dict(harness='read', kind=kind, attrs=(), files=(2, 1), lev=1 if kind != 'modis' else 2,
                        packed=False, _w=5))
    for kind in ('cloudsat2', 'modis', 'cloudsat1'):
        out.append(dict(harness='read', kind=kind, attrs=(), files=(1, 1), lev=2, packed=False, miss='lat', _w=5))
    for bands in ((2,), (2, 2), (3,)):
        out.append(dict(harness='layers', bands=bands, files=(1,), lev=2, _w=5))
    out.append(dict(harness='layers', bands=(2,), files=(1, 1), lev=2, _w=5))
    out.append(dict(harness='read', kind='nopres', attrs=(), files=(1, 1), lev=2, packed=False, _w=5))
    return out


def grid(S, name, n, m, lo=-1000, hi=1000):
    return [[S.real('%s_%d_%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)]


def attributes(S, cfg):
    """(attributes of the dataset, function of a stored value: (is it missing, its value))"""
    kind, A = cfg['kind'], {}
    num = (lambda n: S.int(n, -100, 100)) if cfg.get('packed') else (lambda n: S.real(n, -1000, 1000))
    for k in cfg['attrs']:
        if k.startswith('missop'):
            A['missop'] = k[6:]
            A['missing'] = num('missing')
        elif k == 'valid_range':
            A[k] = [num('vr0'), num('vr1')]
            S.assume(A[k][0] < A[k][1])
        elif k.startswith('range:'):
            A['valid_range'] = k[6:]
        elif k in ('Int_16', 'Float_32'):
            A['format'] = k
        elif k in ('factor', 'scale_factor'):
            A[k] = S.real('scale', -50, 50)
            S.assume(abs(A[k]) > 0.01)
        elif k in ('offset', 'add_offset'):
            A[k] = S.real('offset', -50, 50)
        else:
            A[k] = num(k)
    cal = kind.startswith('cal') or kind == 'nopres'

    def spec(v):
        fills = []
        if cal:
            if 'fillvalue' in A:
                fills = [A['fillvalue']]
            elif 'format' in A:
                fills = [-9999]
            elif '_FillValue' in A:
                fills = [A['_FillValue']]
        elif kind == 'cloudsat1':
            fills = [A['missing']] if 'missing' in A else []
        else:
            fills = [A['_FillValue']] if '_FillValue' in A else []
        miss = any([bool(v == f) for f in fills])
        if kind == 'cloudsat2' and 'missop' in A:
            miss = miss or bool(OPS[A['missop']](v, A['missing']))
        r = A.get('valid_range')
        if isinstance(r, str):
            r = [float(x) for x in r.split('...')]
            r = r if len(r) == 2 else None
        if r is not None:
            miss = miss or bool(v < r[0]) or bool(v > r[1])
        if miss:
            return True, None
        if cal:
            return False, v / A.get('scale_factor', 1) + A.get('add_offset', 0)
        if kind == 'modis':
            return False, (v - A.get('add_offset', 0)) * A.get('scale_factor', 1)
        return False, (v - A.get('offset', 0)) / A.get('factor', 1)
    return A, spec


def make(S, cfg, var_dims=None):
    """files, and per point in the documented order: (stored value, {coordinate: value})"""
    fakehdf.fresh()
    kind, lev = cfg['kind'], cfg['lev']
    A, spec = attributes(S, cfg)
    num = (lambda n: S.int(n, -100, 100)) if cfg.get('packed') else (lambda n: S.real(n, -1000, 1000))
    files, points = [], []
    dtype = 'i2' if cfg.get('packed') else 'f8'
    geo = {'lat': -77.0} if cfg.get('miss') else {}
    meta = {'units': 'mm', 'long_name': 'Rain'}
    alt = None
    for f, n in enumerate(cfg['files']):
        nm = lambda s: '%s%d' % (s, f)
        sd, vd = [], []
        if kind.startswith('cloudsat'):
            lat, lon = S.reals(nm('lat'), n, -90, 90), S.reals(nm('lon'), n, -180, 180)
            pt, tai = S.reals(nm('pt'), n, 0, 6000), S.real(nm('tai'), 0, 1e9)
            vd = [('Latitude', {'Latitude': lat}, dict(geo and {'missing': geo['lat']}, units='degrees')),
                  ('Longitude', {'Longitude': lon}, {'units': 'degrees'}),
                  ('TAI_start', {'TAI_start': [tai]}, {}), ('Profile_time', {'Profile_time': pt}, {})]
            time = [(p + tai) / 86400 + D1993 for p in pt]
            if kind == 'cloudsat1':
                v = [num('v%d_%d' % (f, i)) for i in range(n)]
                vd.append(('rain', {'rain': v}, dict(A, **meta)))
                points += [(v[i], dict(lat=lat[i], lon=lon[i], time=time[i])) for i in range(n)]
            else:
                h = grid(S, nm('h'), n, lev, 0, 30000)
                v = [[num('v%d_%d_%d' % (f, i, j)) for j in range(lev)] for i in range(n)]
                sd = [('Height', h, ('nray', 'nbin'), {'units': 'm'}, None),
                      ('rain', v, ('nray', 'nbin'), dict(A, **meta), dtype)]
                points += [(v[i][j], dict(lat=lat[i], lon=lon[i], time=time[i], alt=h[i][j]))
                           for i in range(n) for j in range(lev)]
            product = 'CloudSat'
        elif kind.startswith('cal') or kind == 'nopres':
            cols, idx = (1, 0) if kind == 'caliop1' else (3, 1)
            lat, lon = grid(S, nm('lat'), n, cols, -90, 90), grid(S, nm('lon'), n, cols, -180, 180)
            pt = grid(S, nm('pt'), n, cols, 0, 1e9)
            alt = alt or S.reals('alt', lev, 0, 30)
            pres = grid(S, nm('p'), n, lev, 1, 1000)
            sd = [('Latitude', lat, ('x', 'c'), {'units': 'degrees'}, None),
                  ('Longitude', lon, ('x', 'c'), {'units': 'degrees'}, None),
                  ('Profile_Time', pt, ('x', 'c'), {}, None),
                  ('Pressure', pres, ('x', 'y'), {'units': 'hPA'}, None)]
            vd = [('metadata', {'Other': [5.0, 6.0, 7.0], 'Lidar_Data_Altitudes': alt}, {})]
            co = [dict(lat=lat[i][idx], lon=lon[i][idx], time=pt[i][idx] / 86400 + D1993) for i in range(n)]
            name = {'calcol': 'Column_rain', 'calmix': 'CAD_Score'}.get(kind, 'rain')
            if kind == 'calcol':
                v = [[num('v%d_%d' % (f, i))] for i in range(n)]
                points += [(v[i][0], co[i]) for i in range(n)]
                dims = ('x', 'one')
            else:
                v = [[num('v%d_%d_%d' % (f, i, j)) for j in range(lev)] for i in range(n)]
                points += [(v[i][j], dict(co[i], alt=alt[j] * 1000, pres=pres[i][j])) for i in range(n)
                           for j in range(lev)]
                dims = ('x', 'y')
                if kind == 'nopres':
                    for p in points:
                        p[1].pop('pres', None)
            if kind == 'calmix':
                v = [[[x, 3.0] for x in r] for r in v]
                dims = ('x', 'y', 'z')
            sd.append((name, v, dims, dict(A, **meta), dtype))
            product = {'caliop1': 'Caliop_L1', 'nopres': 'Caliop_L2_NO_PRESSURE'}.get(kind, 'Caliop_L2')
        else:
            lat, lon = grid(S, nm('lat'), n, lev, -90, 90), grid(S, nm('lon'), n, lev, -180, 180)
            t = grid(S, nm('t'), n, lev, 0, 1e9)
            v = [[num('v%d_%d_%d' % (f, i, j)) for j in range(lev)] for i in range(n)]
            d = ('Cell_Along_Swath_5km:mod', 'Cell_Across_Swath_5km:mod')
            sd = [('Latitude', lat, d, dict(geo and {'_FillValue': geo['lat']}, units='degrees'), None),
                  ('Longitude', lon, d, {'units': 'degrees'}, None),
                  ('Scan_Start_Time', t, d, {}, None), ('rain', v, d, dict(A, **meta), dtype)]
            points += [(v[i][j], dict(lat=lat[i][j], lon=lon[i][j], time=t[i][j] / 86400 + D1993))
                       for i in range(n) for j in range(lev)]
            product = 'MODIS_L2'
        files.append(fakehdf.write(S, fakehdf.path('c25'), sd, vd))
    if geo:
        points = [p for p in points if not (p[1]['lat'] == geo['lat'])]
    name = {'calcol': 'Column_rain', 'calmix': 'CAD_Score'}.get(kind, 'rain')
    return files, name, product, points, spec


COORDS = {'lat': ('Latitude', 'latitude'), 'lon': ('Longitude', 'longitude'), 'alt': ('altitude', 'Height', 'height'),
          'pres': ('Pressure', 'air_pressure'), 'time': ('Profile_Time', 'Profile_time', 'time', 'Scan_Start_Time')}


def compare(S, d, points, spec):
    vals = d.data
    S.check(vals.size == len(points), 'every stored value with coordinates is read, once',
            lambda: 'got %s expected %d' % (vals.shape, len(points)))
    flat = vals.reshape(-1)
    for j, (v, co) in enumerate(points):
        miss, x = spec(v)
        S.check(masked_at(flat, j) == miss, 'exactly the values which the convention of the product calls missing are '
                'missing', lambda: 'point %d: got %s expected %s' % (j, masked_at(flat, j), miss))
        if not miss:
            S.check(S.near(val_at(flat, j), x), 'values are unpacked as the convention of the product says, in order '
                    'of the files')
    got = dict((c.var_name, c) for c in d.coords())
    for k in (points[0][1] if points else ()):
        c = [got[n] for n in COORDS[k] if n in got]
        S.check(len(c) == 1, 'the data has its coordinates', lambda: '%s of %s' % (k, list(got)))
        a = c[0].data.reshape(-1)
        S.check(a.size == len(points), 'coordinates have the points of the data')
        for j, (v, co) in enumerate(points):
            S.check(not masked_at(a, j) and S.near(val_at(a, j), co[k]), 'coordinates belong to their point',
                    lambda: '%s of point %d: got %s expected %s' % (k, j, val_at(a, j), co[k]))
    S.check(len(got) == len(points[0][1]) if points else True, 'no coordinate is left out or made up')


def read(S, cfg):
    files, name, product, points, spec = make(S, cfg)
    d = cis.read_data(files, name, product=product)
    compare(S, d, points, spec)
    S.check(d.var_name == name and d.long_name == 'Rain' and str(d.units) == 'mm', 'names and units are those of the '
            'file')
    S.observe('n', str(len(points)))


def layers(S, cfg):
    """MODIS variables with leading dimensions are read as one dataset for each index along them"""
    fakehdf.fresh()
    bands, lev = cfg['bands'], cfg['lev']
    files, cells = [], {}
    pts = []
    for f, n in enumerate(cfg['files']):
        lat, lon = grid(S, 'lat%d' % f, n, lev, -90, 90), grid(S, 'lon%d' % f, n, lev, -180, 180)
        t = grid(S, 't%d' % f, n, lev, 0, 1e9)
        d = ('Cell_Along_Swath_5km:mod', 'Cell_Across_Swath_5km:mod')

        def nest(dims, idx):
            if not dims:
                g = grid(S, 'v%d_%s' % (f, '_'.join(map(str, idx))), n, lev)
                cells.setdefault(idx, []).extend([x for r in g for x in r])
                return g
            return [nest(dims[1:], idx + (i,)) for i in range(dims[0])]
        v = nest(bands, ())
        pts += [dict(lat=lat[i][j], lon=lon[i][j], time=t[i][j] / 86400 + D1993) for i in range(n) for j in range(lev)]
        sd = [('Latitude', lat, d, {'units': 'degrees'}, None), ('Longitude', lon, d, {'units': 'degrees'}, None),
              ('Scan_Start_Time', t, d, {}, None),
              ('rain', v, tuple('B%d' % i for i in range(len(bands))) + d, {'units': 'mm'}, None)]
        files.append(fakehdf.write(S, fakehdf.path('c25'), sd))
    ds = cis.read_data(files, 'rain', product='MODIS_L2')
    idx = sorted(cells)
    S.check(len(ds) == len(idx), 'a dataset for each index of the leading dimensions')
    for d, i in zip(ds, idx):
        compare(S, d, list(zip(cells[i], pts)), lambda v: (False, v))
    S.observe('n', str(len(ds)))


HARNESSES = {'read': read, 'layers': layers}
