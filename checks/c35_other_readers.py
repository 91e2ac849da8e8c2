"""C35: reading MODIS level 3 grids, AERONET files and text files of points."""
import datetime
import itertools
import numpy as np
import pandas as pd
from symx import fakehdf, fakeiris, cubes
import cis
from cis import time_util as T
from cis.data_io.products.AProduct import ProductPluginException
from cis.exceptions import CISError
from symx.build import quiet_metadata
from symx.engine import Ctx
from symx.harness import masked_at, val_at

fakehdf.install()
quiet_metadata()
STUBS = [fakehdf.NOTE, cubes.STUB_NOTE, 'iris merging of symbolic arrays: without hashes of values',
         'numpy.genfromtxt: in symbolic runs a reader of comma separated lines of number names, with the same result for one line and for empty '
         'fields (concrete replays use the real one); pandas.read_csv: likewise']
BOUNDS = {'quick': '1-3 MODIS files of 2x2 cells; 1-3 text files of 1-3 lines; 1-2 AERONET files of 1-2 lines, of six kinds; any values, missing flags, packing attributes; dates from lists',
          'thorough': '1-3 MODIS files of 3x3 cells; 1-4 text files of up to 4 lines'}
OUTSIDE = 'rounding; the text of numbers (read by numpy); dates outside of the list; further formats of AERONET files'
ASSUMPTIONS = ['scale factors are not 0; the lower valid limit is below the upper']
REF = datetime.datetime(1600, 1, 1)
NAMES, TABLE = {}, {}


def days(d):
    x = d - REF
    return x.days + x.seconds / 86400


# ---- numpy.genfromtxt
REAL = np.genfromtxt


def _genfromtxt(fname, dtype=None, names=None, delimiter=None, converters=None, **k):
    if Ctx.current is None or fname not in TABLE:
        return REAL(fname, dtype=dtype, names=names, delimiter=delimiter, converters=converters, **k)
    assert delimiter == ',' and len(dtype.split(',')) == len(names)
    rows = TABLE[fname]
    out = np.ma.empty((len(rows),), dtype=[(n, 'O') for n in names])
    for n, t in zip(names, dtype.split(',')):
        col = np.ma.empty((len(rows),), dtype=object)
        for i, r in enumerate(rows):
            v = r[names.index(n)]
            if v is None:
                col[i] = np.nan
                col[i] = np.ma.masked
            else:
                col[i] = converters[n](v) if n in converters else v
        out[n] = col
    return out[0:1].reshape(()) if len(rows) == 1 else out


if not getattr(np, '_symx_gen', False):
    np._symx_gen = True
    np.genfromtxt = _genfromtxt


def configs(tier):
    out = []
    T_ = tier != 'quick'
    attrs = [(), ('_FillValue',), ('valid_range',), ('scale_factor', 'add_offset'), ('_FillValue', 'valid_range', 'scale_factor', 'add_offset')]
    for a in attrs:
        for k in (1, 2, 3):
            out.append(dict(harness='modis', attrs=a, files=k, n=3 if T_ else 2, _w=k))
    out.append(dict(harness='listing'))
    for f in [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1)] + ([(4,), (2, 2), (3, 1), (1, 1, 1, 1)] if T_ else []):
        out.append(dict(harness='text', files=f, _w=sum(f)))
    out.append(dict(harness='baddate'))
    for k in KINDS:
        for f, what in [((1,), 'data'), ((2,), 'data'), ((1, 2), 'data'), ((2, 1), 'coordinates')] + ([((2, 2), 'data')] if T_ else []):
            for v in range(len(KINDS[k][2])) if what == 'data' else (0,):
                if v == 0 or f == (2,) or T_:
                    out.append(dict(harness='aeronet', kind=k, files=f, what=what, var=v))
    return out


META = '''GROUP                  = INVENTORYMETADATA
  GROUPTYPE            = MASTERGROUP
  GROUP                  = RANGEDATETIME
    OBJECT                 = RANGEBEGINNINGDATE
      NUM_VAL              = 1
      VALUE                = "%s"
    END_OBJECT             = RANGEBEGINNINGDATE
    OBJECT                 = RANGEBEGINNINGTIME
      NUM_VAL              = 1
      VALUE                = "%s"
    END_OBJECT             = RANGEBEGINNINGTIME
    OBJECT                 = RANGEENDINGDATE
      NUM_VAL              = 1
      VALUE                = "%s"
    END_OBJECT             = RANGEENDINGDATE
    OBJECT                 = RANGEENDINGTIME
      NUM_VAL              = 1
      VALUE                = "%s"
    END_OBJECT             = RANGEENDINGTIME
  END_GROUP              = RANGEDATETIME
END_GROUP              = INVENTORYMETADATA
'''
SPANS = [(datetime.datetime(2008, 1, 1), datetime.datetime(2008, 1, 1, 23, 59, 59)),
         (datetime.datetime(2008, 2, 28, 12), datetime.datetime(2008, 3, 1, 6, 30)),
         (datetime.datetime(2007, 12, 1), datetime.datetime(2007, 12, 31)),
         (datetime.datetime(2009, 1, 1, 0, 0, 1), datetime.datetime(2009, 1, 2))]


def modis(S, cfg):
    fakehdf.fresh()
    n, A = cfg['n'], {}
    for k in cfg['attrs']:
        if k == 'valid_range':
            A[k] = [S.real('vr0', -1000, 1000), S.real('vr1', -1000, 1000)]
            S.assume(A[k][0] < A[k][1])
        elif k == 'scale_factor':
            A[k] = S.real('scale', -50, 50)
            S.assume(abs(A[k]) > 0.01)
        else:
            A[k] = S.real(k, -1000, 1000)

    def spec(v):
        if '_FillValue' in A and bool(v == A['_FillValue']) or 'valid_range' in A and (bool(v < A['valid_range'][0]) or bool(v > A['valid_range'][1])):
            return True, None
        return False, (v - A.get('add_offset', 0)) * A.get('scale_factor', 1)
    lat, lon = [89.5, 20., -30.5][:n], [-179.5, 0.25, 100.][:n]
    perms = list(itertools.permutations(range(len(SPANS)), cfg['files']))
    which = S.choice('periods', perms if not A else perms[::3])
    files, stored = [], []
    for f in range(cfg['files']):
        b, e = SPANS[which[f]]
        free = list(itertools.product(range(n), repeat=2))
        if A:
            free = free[f:3 - f:2] if cfg['files'] > 1 else free[:3]
        v = [[S.real('v%d_%d_%d' % (f, i, j), -1000, 1000) if (i, j) in free or not A else A.get('valid_range', [None, 3.])[1] for j in range(n)]
             for i in range(n)]
        d = ('YDim:mod08', 'XDim:mod08')
        sd = [('YDim', lat, d[:1], {'units': 'degrees'}, None), ('XDim', lon, d[1:], {'units': 'degrees'}, None),
              ('AOD', v, d, dict(A, units='mm', long_name='Depth'), None)]
        text = META % (b.strftime('%Y-%m-%d'), b.strftime('%H:%M:%S'), e.strftime('%Y-%m-%d'), e.strftime('%H:%M:%S'))
        files.append(fakehdf.write(S, fakehdf.path('c35'), sd, attrs={'History': 'made up', 'CoreMetadata.0': text}))
        stored.append(v)
    d = cis.read_data(files, 'AOD', product='MODIS_L3')
    S.check(d.is_gridded and d.var_name == 'AOD' and d.long_name == 'Depth' and str(d.units) == 'mm', 'the variable asked for')
    order = sorted(range(cfg['files']), key=lambda f: SPANS[which[f]][0])
    t = d.coord('time')
    S.check(str(t.units) == str(T.cis_standard_time_unit) and len(t.points) == len(files), 'a time in standard time per file')
    for i, f in enumerate(order):
        b, e = map(days, SPANS[which[f]])
        S.check(abs(t.bounds[i][0] - b) < 1e-6 and abs(t.bounds[i][1] - e) < 1e-6, 'the period stated in the file', lambda: str((t.bounds[i], b, e)))
        S.check(abs(t.points[i] - (b + e) / 2) < 1e-6, 'the time is the middle of the period')
    S.check(list(d.coord('latitude').points) == lat and list(d.coord('longitude').points) == lon, 'positions of the file')
    names = [c.name() for c in d.coords(dim_coords=True)]
    S.check(names == (['time'] if len(files) > 1 else []) + ['latitude', 'longitude'], 'dimensions', lambda: str(names))
    a = np.ma.asarray(d.data)
    for h, f in enumerate(order):
        for i, j in itertools.product(range(n), repeat=2):
            ix = (h, i, j) if len(files) > 1 else (i, j)
            miss, x = spec(stored[f][i][j])
            S.check((a[ix] is np.ma.masked) == miss, 'exactly the values which are fill values or not valid are missing')
            if not miss:
                S.check(S.near(a[ix], x), 'every value is unpacked, at its own position and time')


def listing(S, cfg):
    fakehdf.fresh()
    v = [[1., 2.], [S.real('v'), 4.]]
    y, x = 'YDim:mod08', 'XDim:mod08'
    one = [('YDim', [10., 0.], (y,), {}, None), ('XDim', [1., 2.], (x,), {}, None), ('AOD', v, (y, x), {}, None), ('swap', v, (x, y), {}, None),
           ('three', [v], ('B', y, x), {}, None), ('other', v, (y, 'z'), {}, None)]
    files = [fakehdf.write(S, fakehdf.path('c35'), one), fakehdf.write(S, fakehdf.path('c35'), one[:2] + [('COT', v, (y, x), {}, None)])]
    got = sys_products('MODIS_L3')().get_variable_names(files)
    S.check(got == {'AOD', 'COT'}, 'the variables offered are those on the grid', lambda: str(got))


def sys_products(name):
    import cis.data_io.products as P
    return getattr(P, name)


DATES = [('2010-01-02T03:04:05', datetime.datetime(2010, 1, 2, 3, 4, 5)), ('1999-12-31', datetime.datetime(1999, 12, 31)),
         ('2000-02-29 23:59:30', datetime.datetime(2000, 2, 29, 23, 59, 30))]


def text(S, cfg):
    """latitude, longitude, altitude, time, value"""
    fakehdf.fresh()
    TABLE.clear()
    files, points, left = [], [], 3
    for f, n in enumerate(cfg['files']):
        rows = []
        for i in range(n):
            v = S.reals('p%d_%d_' % (f, i), 4, -1000, 1000)
            q = DATES[(2 * f + i) % 3] if f + i else S.choice('date', DATES)
            hole = S.choice('hole%d_%d' % (f, i), [None, 0, 1, 2, 4]) if left > 0 else None
            left -= 1
            r = [v[0], v[1], v[2], q[0], v[3]]
            if hole is not None:
                r[hole] = None
            rows.append(r)
            if hole in (None, 4):
                points.append((v[0], v[1], v[2], days(q[1]), np.ma.masked if hole == 4 else v[3]))
        path = fakehdf.fakenc.path('c35', '.txt')
        if S.symbolic:
            TABLE[path] = rows
            open(path, 'w').close()
        else:
            with open(path, 'w') as o:
                o.write(''.join(','.join('' if x is None else x if isinstance(x, str) else repr(float(x)) for x in r) + '\n' for r in rows))
        files.append(path)
    if not points:
        S.skip() if hasattr(S, 'skip') else S.check(True, 'no points')
        return
    for what in ('data', 'coordinates'):
        if what == 'data':
            d = cis.read_data(files, 'value', product='ASCII_Hyperpoints')
            S.check(d.data.shape == (len(points),), 'a point for every line with all of its coordinates', lambda: str(d.data.shape))
            for i, p in enumerate(points):
                S.check(masked_at(d.data, i) == (p[4] is np.ma.masked), 'a value is missing where there is none')
                if p[4] is not np.ma.masked:
                    S.check(S.near(val_at(d.data, i), p[4]), 'values in the order of the lines')
        else:
            from cis.data_io.data_reader import DataReader
            d = DataReader().read_coordinates(files, product='ASCII_Hyperpoints')
        for k, n in enumerate(('latitude', 'longitude', 'altitude', 'time')):
            c = d.coord(standard_name=n)
            S.check(c.data.shape == (len(points),), 'a coordinate for every point')
            for i, p in enumerate(points):
                S.check(not masked_at(c.data, i) and (abs(val_at(c.data, i) - p[k]) < 1e-6 if n == 'time' else S.near(val_at(c.data, i), p[k])),
                        'the %s is that of the line of the point' % n)


def baddate(S, cfg):
    """a date which cannot be read is not passed over"""
    fakehdf.fresh()
    TABLE.clear()
    path = fakehdf.fakenc.path('c35', '.txt')
    v = S.real('v', -10, 10)
    bad = S.choice('bad', ['2010-13-01', 'soon', '2010-02-30'])
    rows = [[1., 2., 3., '2010-01-01', v], [1., 2., 3., bad, v]]
    if S.bool('first'):
        rows = rows[::-1]
    if S.symbolic:
        TABLE[path] = rows
        open(path, 'w').close()
    else:
        with open(path, 'w') as o:
            o.write(''.join(','.join(x if isinstance(x, str) else repr(float(x)) for x in r) + '\n' for r in rows))
    try:
        cis.read_data(path, 'value', product='ASCII_Hyperpoints')
    except (CISError, IOError, ValueError, ProductPluginException) as e:
        S.check(True, 'refused')
        return
    S.fail('a line whose date cannot be read is refused')


# ---- AERONET: (lines before the names of the columns, names, names without the characters left out, missing values)
WHEN = [('02:01:2010', '03:04:05', datetime.datetime(2010, 1, 2, 3, 4, 5)), ('31:12:1999', '00:00:00', datetime.datetime(1999, 12, 31)),
        ('29:02:2000', '23:59:30', datetime.datetime(2000, 2, 29, 23, 59, 30)), ('05:11:2015', '12:00:00', datetime.datetime(2015, 11, 5, 12))]
V2 = ['Level 2.0 %s data', 'Version 2 Direct Sun Algorithm', 'Location=X,long=%r,lat=%r,elev=%r,Nmeas=28,PI=Y,Email=z', 'AOT Level 2.0,PI']
V3 = ['AERONET Version 3;%s X', 'X', 'Version 3: AOD Level 2.0', 'following data', 'Contact: Y', 'All Points,UNITS can be found']
KINDS = {
    'AERONET/2': (V2, ['Date(dd-mm-yy)', 'Time(hh:mm:ss)', 'Julian_Day', 'AOT_440', 'Water(cm)', 'N'],
                  [('AOT_440', 'AOT_440', '1'), ('Water(cm)', 'Water', 'cm')], ['N/A']),
    'AERONET-SDA/2': (V2, ['Date(dd:mm:yyyy)', 'Time(hh:mm:ss)', 'Julian_Day', 'Total_AOD_500nm(tau_a)', 'Angstrom', 'Angstrom'],
                      [('Total_AOD_500nm(tau_a)', None, None), ('Angstrom0', 'Angstrom0', '1'), ('Angstrom1', 'Angstrom1', '1')], ['N/A']),
    'AERONET/3': (V3, ['Date(dd:mm:yyyy)', 'Time(hh:mm:ss)', 'Day_of_Year', 'AOD_440nm', 'Precipitable_Water(cm)', 'Site_Latitude(Degrees)',
                       'Site_Longitude(Degrees)', 'Site_Elevation(m)'],
                  [('AOD_440nm', 'AOD_440nm', '1'), ('Precipitable_Water(cm)', 'Precipitable_Water', 'cm')], [-999.0]),
    'AERONET-SDA/3': (V3, ['Date_(dd:mm:yyyy)', 'Time_(hh:mm:ss)', 'Day_of_Year', 'Site_Latitude(Degrees)', 'Site_Longitude(Degrees)',
                           'Site_Elevation(m)', 'Fine_Mode_AOD', 'Number_of_Wavelengths', 'Exact_Wavelengths_for_Input_AOD(um)'],
                      [('Fine_Mode_AOD', 'Fine_Mode_AOD', '1'), ('Exact_Wavelengths_for_Input_AOD(um)1', None, None)], [-999.0]),
    'MAN/2': (['Maritime Aerosol Network %s', 'x', 'y', 'z'], ['Date(dd:mm:yyyy)', 'Time(hh:mm:ss)', 'Air Mass', 'Latitude', 'Longitude',
                                                              'AOD_440nm', 'Water Vapor(cm)'],
              [('AOD_440nm', 'AOD_440nm', '1'), ('WaterVapor(cm)', 'WaterVapor', 'cm')], [-999.0, -10000.0]),
    'MAN-SDA/2': (['Maritime Aerosol Network SDA %s', 'x', 'y', 'z'], ['Date(dd:mm:yyyy)', 'Time(hh:mm:ss)', 'Latitude', 'Longitude',
                                                                      'Fine_Mode_AOD', 'Angstrom'],
                  [('Fine_Mode_AOD', 'Fine_Mode_AOD', '1'), ('Angstrom', 'Angstrom', '1')], [-999.0]),
}
READ_CSV = pd.read_csv


def _read_csv(path, sep=',', header='infer', names=None, index_col=None, usecols=None, na_values=(), dtype=None, **k):
    if Ctx.current is None or path not in TABLE:
        return READ_CSV(path, sep=sep, header=header, names=names, index_col=index_col, usecols=usecols, na_values=na_values, dtype=dtype, **k)
    assert sep == ',' and index_col is False and not set(k) - {'on_bad_lines', 'low_memory', 'engine'}, k
    if set(usecols) - set(names):
        raise ValueError('Usecols do not match columns')
    na = list(na_values) if isinstance(na_values, (list, tuple, set)) else [na_values]
    cols = {n: [] for n in names if n in usecols}
    for row in TABLE[path][header + 1:]:
        for n, cell in zip(names, row):
            if n not in cols:
                continue
            if isinstance(cell, str):
                miss = cell in ('N/A', 'NaN', 'nan', '') or cell in na
                if not miss and dtype[n] == 'float':
                    cell = float(cell)
            else:
                miss = any(bool(cell == x) for x in na if not isinstance(x, str))
            cols[n].append(np.nan if miss else cell)
    out = pd.DataFrame(index=range(len(TABLE[path]) - header - 1))
    for n in cols:
        x = np.empty(len(cols[n]), dtype=object)
        x[:] = cols[n]
        out[n] = x
    return out


if not getattr(pd, '_symx_csv', False):
    pd._symx_csv = True
    pd.read_csv = _read_csv


def aeronet(S, cfg):
    fakehdf.fresh()
    TABLE.clear()
    head, cols, variables, missing = KINDS[cfg['kind']]
    sda, man = 'SDA' in cfg['kind'], 'MAN' in cfg['kind']
    var, vname, units = variables[cfg['var']]
    plain, counts = [], {}
    wave = 'Exact_Wavelengths_for_Input_AOD(um)'
    rowcols = cols + ([wave] if wave in cols else [])
    for c in rowcols:
        c = c.replace(' ', '')
        plain.append('%s%d' % (c, counts.get(c, 0)) if rowcols.count(c) > 1 else c)
        counts[c] = counts.get(c, 0) + 1
    files, points, left = [], [], 3
    for f, n in enumerate(cfg['files']):
        lines = [x % (('SDA ' if sda and not man else '') if '%s' in x else (10.5 + f, -20.25 - f, 300.0 + f)) if '%' in x else x for x in head]
        pos = {'latitude': -20.25 - f, 'longitude': 10.5 + f, 'altitude': 0.0 if man else 300.0 + f}
        rows = []
        for i in range(n):
            t = WHEN[(2 * f + i) % 4] if f + i else S.choice('when', WHEN)
            row, p = [], dict(pos)
            for c, q in zip(rowcols, plain):
                nm = c.replace(' ', '')
                if nm.startswith('Date'):
                    row.append(t[0])
                elif nm.startswith('Time'):
                    row.append(t[1])
                elif nm == 'Number_of_Wavelengths':
                    row.append(2.0)
                elif 'Latitude' in nm or 'Longitude' in nm or 'Elevation' in nm:
                    k = 'latitude' if 'Lat' in nm else 'longitude' if 'Lon' in nm else 'altitude'
                    x = S.real('%s%d_%d' % (k, f, i), -90, 90)
                    p[k] = x
                    row.append(x)
                else:
                    x = S.real('%s%d_%d' % (q, f, i), -10, 10)
                    if q == var:
                        m = S.choice('miss%d_%d' % (f, i), [None] + missing) if left > 0 else None
                        left -= 1
                        p['value'] = np.ma.masked if m is not None else x
                        x = x if m is None else m
                    row.append(x)
            p['time'] = days(t[2])
            rows.append(row)
            points.append(p)
        path = fakehdf.fakenc.path('c35', S.choice('ext', ['.lev20', '.ONEILL_20', '.all']) if f == 0 else '.lev15')
        if S.symbolic:
            TABLE[path] = [[x] for x in lines] + [cols] + rows
        with open(path, 'w') as o:
            o.write('\n'.join(lines + [','.join(cols)] + [','.join('2' if q == 'Number_of_Wavelengths' else x if isinstance(x, str) else
                                                                   repr(float(x)) if not S.symbolic else '0' for q, x in zip(plain, r))
                                                          for r in rows]) + '\n')
        files.append(path)
    S.check(set(cis.get_variables(files)) >= {v[0] for v in variables}, 'the variables of the files are listed',
            lambda: str(cis.get_variables(files)))
    if cfg['what'] == 'data':
        d = cis.read_data(files, var)
        S.check(d.data.shape == (len(points),), 'a point for every line', lambda: str(d.data.shape))
        if vname is not None:
            S.check((d.var_name, str(d.units)) == (vname, units), 'name and units', lambda: str((d.var_name, d.units)))
        for i, p in enumerate(points):
            S.check(masked_at(d.data, i) == (p['value'] is np.ma.masked), 'a value is missing where the file says so')
            if p['value'] is not np.ma.masked:
                S.check(S.near(val_at(d.data, i), p['value']), 'values in the order of the lines')
    else:
        from cis.data_io.data_reader import DataReader
        d = DataReader().read_coordinates(files)
    for n in ('latitude', 'longitude', 'altitude', 'time'):
        c = d.coord(standard_name=n)
        S.check(c.data.shape == (len(points),), 'a coordinate for every point')
        for i, p in enumerate(points):
            S.check(not masked_at(c.data, i) and (abs(val_at(c.data, i) - p[n]) < 1e-6 if n == 'time' else S.near(val_at(c.data, i), p[n])),
                    'the %s is that of the line, or else of the file, of the point' % n)


HARNESSES = dict(modis=modis, listing=listing, text=text, baddate=baddate, aeronet=aeronet)
