"""C36: saving ungridded data and reading the file back."""
import numpy as np
from symx import fakenc
import cis
from cis.data_io.ungridded_data import UngriddedData, Metadata, UngriddedCoordinates
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx.harness import masked_at, val_at

fakenc.install()
quiet_metadata()
STUBS = [fakenc.NOTE, STUB_NOTE]
BOUNDS = {'quick': '1-3 points or 1x2, 2x1 and 2x2 arrays, 1-2 variables, every value, coordinate and missing flag '
                   'arbitrary; missing value none, -999 or 0; extra attributes; data which were packed in the file '
                   'they were read from; 1-3 variables which share a name with each other or with a coordinate', 'thorough': 'up to 4 points, three variables, 2x3 arrays'}
OUTSIDE = 'rounding to the stored type; integer and single precision data'
ASSUMPTIONS = ['no valid value equals the missing value']
NAMES = ('latitude', 'longitude', 'altitude', 'time', 'air_pressure')


def configs(tier):
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for mv in (None, -999.0, 0.0):
            for mask in (False, True):
                out.append(dict(harness='ungridded', n=n, nv=1, mv=mv, mask=mask))
    for nv in (2,) if tier == 'quick' else (2, 3):
        for mv in (None, -999.0):
            out.append(dict(harness='ungridded', n=2, nv=nv, mv=mv, mask=True))
    for shape in ((1, 2), (2, 1), (2, 2)) + (() if tier == 'quick' else ((2, 3),)):
        out.append(dict(harness='ungridded', n=shape[0] * shape[1], shape=shape, nv=1, mv=-999.0, mask=True))
    for sub in (False, True):
        for a in (('scale_factor',), ('add_offset',), ('scale_factor', 'add_offset')):
            out.append(dict(harness='packed', attrs=a, n=2, subset=sub))
    for names in (('rain', 'rain'), ('rain', 'snow', 'rain'), ('latitude',), ('rain', 'latitude'), ('altitude', 'rain', 'altitude')):
        for n in (1, 2):
            for mask in (False, True):
                if len(names) < 3 or n == 1 or not mask:
                    out.append(dict(harness='shared', names=names, n=n, mask=mask, _w=3))
    return out


def compare(S, d, vals, miss, coords, names=NAMES):
    n = len(vals)
    S.check(d.data.size == n, 'as many points are read as were saved')
    f = d.data.reshape(-1)
    for i in range(n):
        S.check(masked_at(f, i) == bool(miss[i]), 'missing flags survive')
        if not miss[i]:
            S.check(S.near(val_at(f, i), vals[i]), 'values survive')
    S.check(set(c.standard_name for c in d.coords()) == set(names), 'the coordinates are those which were saved')
    for name in names:
        c = d.coord(standard_name=name).data.reshape(-1)
        S.check(c.size == n, 'coordinates have the points of the data')
        for i in range(n):
            S.check(not masked_at(c, i) and S.eq(val_at(c, i), coords[name][i]), 'coordinates stay with their points')


def ungridded(S, cfg):
    fakenc.fresh()
    n, shape, mv = cfg['n'], cfg.get('shape'), cfg['mv']
    cs = {c: S.reals(c[:3], n, -80, 80) for c in NAMES}
    names = NAMES if n < 4 else NAMES[:2]
    cl = CoordList([coord(S, c, cs[c], shape=shape, var_name=c[:3].upper()) for c in names])
    vals = [S.reals('d%d_' % k, n, -1000, 1000) for k in range(cfg['nv'])]
    miss = [S.missing('m%d_' % k, n) if cfg['mask'] else [False] * n for k in range(cfg['nv'])]
    for k in range(cfg['nv']):
        for i in range(n):
            if mv is not None:
                S.assume(vals[k][i] != mv)
    ds = []
    for k in range(cfg['nv']):
        d = ug(S, vals[k], cl, mask=miss[k] if cfg['mask'] else None, shape=shape, name='rain%d' % k, units='mm',
               long_name='Rain %d' % k)
        d.metadata.missing_value = mv
        d.metadata.misc = {'comment': 'as measured'}
        d.add_attributes({'quality': 'good'})
        ds.append(d)
    obj = ds[0] if cfg['nv'] == 1 else UngriddedDataList(ds)
    p = fakenc.path('c36')
    obj.save_data(p)
    for k, d in enumerate(ds):
        f = d.data.reshape(-1)
        for i in range(n):
            S.check(masked_at(f, i) == bool(miss[k][i]) and (bool(miss[k][i]) or S.eq(val_at(f, i), vals[k][i])),
                    'saving leaves the data alone')
        r = cis.read_data(p, 'rain%d' % k)
        compare(S, r, vals[k], miss[k], cs, names)
        S.check(r.var_name == 'rain%d' % k and r.long_name == 'Rain %d' % k and str(r.units) == 'mm',
                'name, long name and units survive')
        S.check(r.metadata.misc.get('comment') == 'as measured' and r.metadata.misc.get('quality') == 'good',
                'attributes survive')
    r = cis.read_data_list(p, ['rain%d' % k for k in range(cfg['nv'])])
    S.check([d.var_name for d in r] == ['rain%d' % k for k in range(cfg['nv'])], 'all variables can be read as a list')
    S.observe('size', str(n))


def shared(S, cfg):
    """variables which have the name of another variable or of a coordinate"""
    import netCDF4
    fakenc.fresh()
    n = cfg['n']
    cs = {c: S.reals(c[:3], n, -80, 80) for c in NAMES[:3]}
    cl = CoordList([coord(S, c, cs[c], var_name=c[:3].upper()) for c in NAMES[:3]])
    k = len(cfg['names'])
    vals = [S.reals('d%d_' % j, n, -1000, 1000) for j in range(k)]
    miss = [S.missing('m%d_' % j, n) if cfg['mask'] else [False] * n for j in range(k)]
    ds = []
    for j, name in enumerate(cfg['names']):
        d = ug(S, vals[j], cl, mask=miss[j] if cfg['mask'] else None, name=name, units='mm', long_name='Rain %d' % j)
        d.metadata.missing_value = -9999.0
        ds.append(d)
    p = fakenc.path('c36')
    (ds[0] if k == 1 else UngriddedDataList(ds)).save_data(p)
    nc = netCDF4.Dataset(p)
    got = {v: nc.variables[v][:] for v in nc.variables}
    nc.close()

    def same(a, v, m):
        return a.size == n and all(masked_at(a, i) == bool(m[i]) and (bool(m[i]) or bool(S.eq(val_at(a, i), v[i]))) for i in range(n))
    for c in cs:
        S.check(same(got[c], cs[c], [False] * n), 'the coordinates are those which were saved')
    for j, name in enumerate(cfg['names']):
        S.check(any(v.startswith(name) and same(got[v], vals[j], miss[j]) for v in got), 'every variable is saved')
        if name not in cs and name not in cfg['names'][:j]:
            S.check(same(got[name], vals[j], miss[j]), 'the first variable of a name keeps it')


def packed(S, cfg):
    """data read from a file with packed values, saved (possibly after subsetting) and read back"""
    fakenc.fresh()
    n = cfg['n']
    cs = {c: S.reals(c[:3], n, -80, 80) for c in ('latitude', 'longitude')}
    raw = [S.int('v%d' % i, -100, 100) for i in range(n)]
    fill = S.int('fill', -100, 100)
    at = {k: S.real(k, -50, 50) for k in cfg['attrs']}
    if 'scale_factor' in at:
        S.assume(abs(at['scale_factor']) > 0.01)
    p, q = fakenc.path('c36'), fakenc.path('c36')
    vs = [(c, cs[c], ('obs',), dict(standard_name=c, units='degrees'), None) for c in cs]
    vs.append(('rain', raw, ('obs',), dict(at, long_name='Rain', units='mm', _FillValue=fill),
               None if S.symbolic else 'i2'))
    fakenc.write(S, p, vs, attrs={'source': 'CIS1.7'})
    d = cis.read_data(p, 'rain')
    keep = list(range(n))
    if cfg['subset']:
        lo = S.real('lo', -80, 80)
        d = d.subset(latitude=[lo, 90.])
        keep = [i for i in keep if lo <= cs['latitude'][i]]
        if d is None:
            S.check(not keep, 'nothing is left')
            return
    d.save_data(q)
    r = cis.read_data(q, 'rain')
    sc, off = at.get('scale_factor', 1), at.get('add_offset', 0)
    for i in keep:
        # what the saved file uses to mark missing values is the packed fill value
        for j in keep:
            S.assume(raw[j] * sc + off != fill) if not at else None
    compare(S, r, [raw[i] * sc + off for i in keep], [bool(raw[i] == fill) for i in keep],
            {c: [cs[c][i] for i in keep] for c in cs}, ('latitude', 'longitude'))


HARNESSES = {'ungridded': ungridded, 'packed': packed, 'shared': shared}
