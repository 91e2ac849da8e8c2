"""C24: reading ungridded variables from NetCDF files."""
import numpy as np
from symx import fakenc
import cis
from cis.data_io.ungridded_data import UngriddedData
from symx.build import quiet_metadata, STUB_NOTE
from symx.harness import masked_at, val_at

fakenc.install()
quiet_metadata()
STUBS = [fakenc.NOTE, STUB_NOTE]
BOUNDS = {'quick': '1-2 files of 1-2 points (or one file of 1x2 points), every value and every attribute value '
                   'arbitrary (real, or integer in [-100, 100] for packed data), all combinations of _FillValue, '
                   'missing_value, valid_min, valid_max, valid_range, scale_factor, add_offset listed in configs',
          'thorough': '1-3 files of 1-3 points, 2-D variables up to 2x2'}
OUTSIDE = 'rounding; dtype limits; text missing values; groups deeper than one; the gridded (iris) reader'
ASSUMPTIONS = ['valid limits are given in packed units (CF); valid_min <= valid_max']
SETS = [(), ('_FillValue',), ('missing_value',), ('_FillValue', 'missing_value'),
        ('scale_factor',), ('add_offset',), ('scale_factor', 'add_offset'),
        ('valid_min',), ('valid_max',), ('valid_min', 'valid_max'), ('valid_range',),
        ('_FillValue', 'scale_factor', 'add_offset'), ('missing_value', 'add_offset'),
        ('_FillValue', 'valid_range', 'scale_factor'), ('missing_value', 'valid_max', 'scale_factor', 'add_offset')]


def configs(tier):
    out = []
    T = tier != 'quick'
    for s in SETS:
        for packed in (False, True):
            out.append(dict(harness='read', attrs=s, packed=packed, files=(2,) if len(s) < 4 else (1,), _w=4))
        if not T and len(s) in (1, 3):
            out.append(dict(harness='read', attrs=s, packed=False, files=(1, 1), _w=4))
        if T:
            for fs in ((3,), (1, 2), (2, 1), (1, 1, 1)):
                out.append(dict(harness='read', attrs=s, packed=len(fs) > 1, files=fs, _w=9))
            out.append(dict(harness='read', attrs=s, packed=False, files=(2,), width=2, _w=9))
    out.append(dict(harness='read', attrs=('_FillValue', 'scale_factor'), packed=True, files=(1,), width=2, _w=4))
    for s in (('valid_max',), ('valid_min',), ('valid_min', 'valid_max')):
        out.append(dict(harness='read', attrs=s, packed=False, files=(2,), text=True, _w=3))
    out.append(dict(harness='read', attrs=('_FillValue',), packed=False, files=(1, 1), group=True, _w=4))
    for miss in ('latitude', 'time'):
        out.append(dict(harness='read', attrs=('_FillValue',), packed=False, files=(2,), coord_fill=miss, _w=4))
    out.append(dict(harness='read', attrs=('missing_value',), packed=False, files=(1, 1), coord_fill='latitude', _w=4))
    out.append(dict(harness='coords', files=(1, 2), _w=2))
    return out


def make(S, cfg, with_var=True):
    fakenc.fresh()
    num = (lambda n: S.int(n, -100, 100)) if cfg.get('packed') else (lambda n: S.real(n, -1000, 1000))
    A = {}
    for k in cfg.get('attrs', ()):
        if k == 'valid_range':
            A[k] = [num('vr0'), num('vr1')]
            S.assume(A[k][0] <= A[k][1])
        elif k in ('scale_factor', 'add_offset'):
            A[k] = S.real(k, -50, 50)
            if k == 'scale_factor':
                S.assume(abs(A[k]) > 0.01)
        elif cfg.get('text'):
            A[k] = {'valid_min': '-2.5', 'valid_max': '7.25'}[k]
        else:
            A[k] = num(k)
    if 'valid_min' in A and 'valid_max' in A and not cfg.get('text'):
        S.assume(A['valid_min'] <= A['valid_max'])
    cf = S.real('coordfill', -90, 90) if cfg.get('coord_fill') else None
    files, raws, coords = [], [], {'latitude': [], 'longitude': [], 'time': []}
    w = cfg.get('width')
    for f, n in enumerate(cfg['files']):
        vs = []
        dims = ('obs',) if not w else ('obs', 'pix')
        for name, u in (('latitude', 'degrees_north'), ('longitude', 'degrees_east'),
                        ('time', 'days since 1600-01-01 00:00:00')):
            c = S.reals('%s%d_' % (name[:3], f), n * (w or 1), -90, 90)
            at = dict(standard_name=name, units=u)
            if cfg.get('coord_fill') == name:
                at['_FillValue'] = cf
            vs.append((name, c if not w else [c[i * w:(i + 1) * w] for i in range(n)], dims, at, None))
            coords[name] += c
        r = [num('v%d_%d' % (f, i)) for i in range(n * (w or 1))]
        raws += r
        at = dict(A, long_name='Rain', units='mm')
        var = 'grp/rain' if cfg.get('group') else 'rain'
        if with_var:
            vs.append((var, r if not w else [r[i * w:(i + 1) * w] for i in range(n)], dims, at,
                       'i2' if cfg.get('packed') and not S.symbolic else
                       ('float-attrs' if cfg.get('text') else None)))
        files.append(fakenc.write(S, fakenc.path('c24'), vs,
                                  attrs={'source': 'CIS1.7'}))
    return files, raws, coords, A, cf


def read(S, cfg):
    files, raws, coords, A, cf = make(S, cfg)
    d = cis.read_data(files, 'grp/rain' if cfg.get('group') else 'rain', product='cis')
    keep = range(len(raws))
    if cf is not None:
        keep = [i for i in keep if not (coords[cfg['coord_fill']][i] == cf)]
    vals = d.data
    S.check(vals.size == len(keep), 'every point with coordinates is read, once')
    flat = vals.reshape(-1)
    for j, i in enumerate(keep):
        v = raws[i]
        miss = False
        for k in ('_FillValue', 'missing_value'):
            if k in A:
                miss = miss or bool(v == A[k])
        lo = A.get('valid_min') if not cfg.get('text') else float(A.get('valid_min', 0)) if 'valid_min' in A else None
        hi = A.get('valid_max') if not cfg.get('text') else float(A.get('valid_max', 0)) if 'valid_max' in A else None
        if 'valid_range' in A:
            lo, hi = A['valid_range']
        if lo is not None:
            miss = miss or bool(v < lo)
        if hi is not None:
            miss = miss or bool(v > hi)
        S.check(masked_at(flat, j) == miss, 'exactly the values equal to the fill or missing value, or outside of the '
                'valid limits, are missing', lambda: 'point %d: got %s expected %s' % (i, masked_at(flat, j), miss))
        if not miss:
            S.check(S.near(val_at(flat, j), v * A.get('scale_factor', 1) + A.get('add_offset', 0)),
                    'packed values are unpacked with scale and offset, in order of the files')
    for name in coords:
        c = d.coord(name).data.reshape(-1)
        S.check(c.size == len(keep), 'coordinates have the points of the data')
        for j, i in enumerate(keep):
            S.check(not masked_at(c, j) and S.eq(val_at(c, j), coords[name][i]), 'coordinates belong to their point')
    S.check(d.long_name == 'Rain' and str(d.units) == 'mm', 'long name and units are those of the file')
    S.observe('n', str(len(keep)))


def coords(S, cfg):
    files, raws, cs, A, cf = make(S, cfg, with_var=False)
    from cis.data_io.data_reader import DataReader
    d = DataReader().read_coordinates(files, product='cis')
    for name in cs:
        c = d.coord(name).data.reshape(-1)
        S.check(c.size == len(cs[name]), 'coordinates of all files are read')
        for j, x in enumerate(cs[name]):
            S.check(S.eq(val_at(c, j), x), 'coordinates are in order of the files')


HARNESSES = {'read': read, 'coords': coords}
