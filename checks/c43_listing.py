"""C43: the variables offered for files are those on the coordinates of the data."""
import numpy as np
import sys
import cis.data_io.products
from symx import fakehdf, fakenc

fakehdf.install()
fakenc.install()
STUBS = [fakenc.NOTE, 'HDF4 files: an in-memory stand-in for pyhdf which knows the names, dimensions and (symbolic) sizes of '
         'the datasets (concrete replays write and read real files)']
BOUNDS = {'quick': 'one or two files of up to three variables beside the coordinates, every size symbolic (1 to 4), of one to three '
          'dimensions; netCDF variables over every choice of the listed dimensions', 'thorough': 'sizes from 1 to 6, up to four variables'}
OUTSIDE = 'gridded netCDF (C28), MODIS level 3 and AERONET (C35); which variables of netCDF files are coordinates'
AP = sys.modules['cis.data_io.products.AProduct']
ASSUMPTIONS = ['the coordinates of several MODIS level 2 or CALIOP files have the same sizes in each']


def configs(tier):
    big = tier != 'quick'
    out = []
    top = 6 if big else 4
    for prod in ('MODIS_L2', 'Caliop_L1', 'Caliop_L2', 'CloudSat'):
        for nds in (((2, 2), (1,)), ((1, 2), (3,)), ((2,), (2,)), ((3,), (2,))) + ((((2, 2), (2, 1)),) if big else ()):
            out.append(dict(harness='hdf', prod=prod, nds=nds[:1], top=top))
            out.append(dict(harness='hdf', prod=prod, nds=nds, top=top - 1))
    for prod in ('Aerosol_CCI_L2', 'Cloud_CCI_L2'):
        for nf in (1, 2):
            out.append(dict(harness='netcdf', prod=prod, nf=nf))
    for kind in ('', 'SD', 'VD'):
        out.append(dict(harness='generic', kind=kind))
    for n in (1, 2, 3):
        out.append(dict(harness='raf', n=n))
    out.append(dict(harness='text'))
    return out


def same_shape(a, b):
    return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))


def listed(S, prod, files, want, **k):
    got = AP.get_variables(list(files), prod, **k)
    S.check(set(got) == set(want) and len(set(got)) == len(list(got)), 'the variables offered are those on the coordinates of '
            'the data, in any of the files', lambda: '%s: %s, not %s' % (prod, sorted(got), sorted(want)))


def hdf(S, cfg):
    fakehdf.fresh()
    prod, top = cfg['prod'], cfg['top']
    want, files = set(), []
    ny = nx = nz = None
    for f, nds in enumerate(cfg['nds']):
        if f == 0 or prod == 'CloudSat':
            ny, nx = S.int('ny%d' % f, 2 if prod == 'CloudSat' else 1, top), S.int('nx%d' % f, 1, top)
            nz = S.choice('nz%d' % f, [1, 2, 3])
        sd, vd = [], []
        if prod == 'MODIS_L2':
            sd = [('Latitude', (ny, nx), ('y%d' % f, 'x%d' % f)), ('Longitude', (ny, nx), ('y%d' % f, 'x%d' % f))]
            want |= {'Latitude', 'Longitude'}
            valid = (ny, nx)
        elif prod == 'CloudSat':
            vd = [('Latitude', ny), ('Longitude', ny)]
            want |= {'Latitude', 'Longitude'}
            has = S.bool('has%d' % f)
            valid = None
            if has:
                sd = [('Height', (ny, nx), ('y%d' % f, 'x%d' % f))]
                want |= {'Height'}
                valid = (ny, nx)
            k = S.int('k%d' % f, 1, top)
            vd.append(('Profile%d' % f, k))
            if k == ny:
                want.add('Profile%d' % f)
        else:
            sd = [('Latitude', (ny, 1), ('y%d' % f, 'one%d' % f)), ('Longitude', (ny, 1), ('y%d' % f, 'one%d' % f))]
            vd = [('metadata', [0.] * nz)]
            valid = (ny, nz)
            if nz == 1:
                want |= {'Latitude', 'Longitude'}
        for v, nd in enumerate(nds):
            sh = tuple(S.int('s%d_%d_%d' % (f, v, d), 1, top) for d in range(nd))
            name = 'var%d_%d' % (f if v == 0 and f == 0 and S.bool('own') else 9, v)
            if valid is not None and same_shape(sh, valid):
                want.add(name)
            sd.append((name, sh, tuple('d%d_%d_%d' % (f, v, d) for d in range(nd))))
        if prod.startswith('Caliop'):
            files.append(caliop_file(S, sd, nz))
        else:
            files.append(fakehdf.sizes(S, fakehdf.path('c43'), sd, vd))
    listed(S, prod, files, want)


def caliop_file(S, sd, nz):
    p = fakehdf.path('c43')
    if not S.symbolic:
        return fakehdf.write(S, p, [(n, np.zeros([int(k) for k in sh]).tolist(), dims, {}, None) for n, sh, dims in sd],
                             [('metadata', {'Lidar_Data_Altitudes': [1000. * i for i in range(nz)]}, {})])
    fakehdf.sizes(S, p, sd)
    fakehdf.FILES[p].vd['metadata'] = (['Lidar_Data_Altitudes'], [[[1000. * i for i in range(nz)]]], {})
    return p


def netcdf(S, cfg):
    fakehdf.fresh()
    want, files = set(), []
    for f in range(cfg['nf']):
        vs = [('lat', [1., 2.], ('pixel_number',), {}, None), ('lon', [1., 2.], ('pixel_number',), {}, None)]
        want |= {'lat', 'lon'}
        for v in range(3 - f):
            name = ('a%d', 'group/b%d', 'c%d')[v] % f
            dims = S.choice('dims%d_%d' % (f, v), [('pixel_number',), (), ('sensor',), ('pixel_number', 'sensor'),
                                                   ('sensor', 'pixel_number'), ('pixel_numbers',)])
            vs.append((name, np.zeros([2] * len(dims)).tolist() if dims else 1., dims, {}, None))
            if cfg['prod'] == 'Cloud_CCI_L2' or all(d == 'pixel_number' for d in dims):
                want.add(name)
        files.append(fakenc.write(S, fakenc.path('c43'), vs))
    listed(S, cfg['prod'], files, want)


def generic(S, cfg):
    """what AProduct offers, unless a product says otherwise"""
    fakehdf.fresh()
    n, k = S.int('n', 1, 4), S.int('k', 1, 4)
    both = S.bool('both')
    sd = [('Latitude', (n, k), ('y', 'x')), ('AOD', (k,), ('z',))]
    vd = [('Profile', n)] + ([('Time', k)] if both else [])
    f = fakehdf.sizes(S, fakehdf.path('c43'), sd, vd)
    want = {'Profile'} | ({'Time'} if both else set()) if cfg['kind'] == 'VD' else {'Latitude', 'AOD'}
    got = Generic().get_variable_names([f], cfg['kind'] or None)
    got = set(got) - {'', 'y', 'x', 'z'}        # HDF4 keeps the names of dimensions as records
    S.check(got == want, 'the datasets (or records, if asked for) of the file are offered', lambda: str(got))


class Generic(AP.AProduct):
    priority = -1

    def get_file_signature(self):
        return [r'no file']

    def create_coords(self, filenames, variable=None):
        raise NotImplementedError

    def create_data_object(self, filenames, variable):
        raise NotImplementedError


def raf(S, cfg):
    fakehdf.fresh()
    t = [0., 1.]
    vs = [('Time', t, ('Time',), {'units': 'seconds since 2010-01-01 00:00:00', 'standard_name': 'time'}, None)]
    want = {'Time'}
    for name in ('LAT', 'LON', 'ALT'):
        vs.append((name, t, ('Time',), {'units': '1'}, None))
        want.add(name)
    for v in range(cfg['n']):
        dims = S.choice('dims%d' % v, [('Time',), (), ('bins',), ('Time', 'bins'), ('bins', 'Time')])
        vs.append(('var%d' % v, np.zeros([2] * len(dims)).tolist() if dims else 1., dims, {'units': '1'}, None))
        if dims and dims[0] == 'Time':
            want.add('var%d' % v)
    f = fakenc.write(S, fakenc.path('c43'), vs, {'Conventions': 'NCAR-RAF/nimbus', 'Coordinates': 'LON LAT ALT Time',
                                                 'coordinates': 'LON LAT ALT Time', 'GASSP_Version': '1.0'})
    listed(S, 'NCAR_NetCDF_RAF', [f], want)


def text(S, cfg):
    listed(S, 'ASCII_Hyperpoints', [S.choice('f', ['a.txt', 'b.txt'])], {'value'})


HARNESSES = dict(hdf=hdf, netcdf=netcdf, generic=generic, raf=raf, text=text)
