"""C01: subsetting ungridded data keeps exactly the points inside the limits."""
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, UngriddedDataList, CoordList
from symx.harness import masked_at, val_at

quiet_metadata()
STUBS = [STUB_NOTE]
BOUNDS = {'quick': '2-3 points, 1-2 limited coordinates, 1-2 variables; every real coordinate, datum, limit value and '
                   'every missing flag is symbolic; 1-D and 2-D layouts',
          'thorough': 'up to 4 points, up to 3 limited coordinates, 1-3 variables'}
OUTSIDE = 'larger point counts; NaN coordinates (concrete dtype test in the code); datetime limits (see C03)'
ASSUMPTIONS = ['longitude limits are checked by C02']


def configs(tier):
    out = []
    for n, shape in ((1, None), (2, None), (3, None), (4, (2, 2))) if tier == 'quick' else \
            ((1, None), (2, None), (3, None), (4, (2, 2)), (4, None)):
        for names in (['latitude'], ['latitude', 'altitude']) if tier == 'quick' else \
                (['latitude'], ['altitude', 'latitude'], ['latitude', 'altitude', 'air_pressure']):
            if n * len(names) > (6 if tier == 'quick' else 9) or (n == 4 and len(names) > 1):
                continue
            for dm in (False, True) if n < 3 or len(names) == 1 else (False,):
                for cm in (False, True):
                    if n == 4 and dm and cm and tier == 'quick':
                        continue
                    out.append(dict(harness='subset', n=n, shape=shape, names=names, dmask=dm, cmask=cm, nvar=1,
                                    _w=n * len(names) + 4 * cm))
    for n in (2, 3):
        for style in ('list', 'slice', 'open_lo', 'open_hi'):
            out.append(dict(harness='subset', n=n, shape=None, names=['altitude'], dmask=False, cmask=False, nvar=1,
                            style=style, _w=n))
        for nvar in ((2, 3) if n == 2 else (2,)):
            out.append(dict(harness='subset', n=n, shape=None, names=['latitude'], dmask=True, cmask=False, nvar=nvar,
                            _w=n * nvar))
    return out


def subset(S, cfg):
    n, names = cfg['n'], cfg['names']
    style = cfg.get('style', 'list')
    shape = cfg['shape']
    cvals = {nm: S.reals(nm[:3], n) for nm in names}
    lon = S.reals('lon', n)
    lim = {nm: (S.real(nm[:3] + '_lo'), S.real(nm[:3] + '_hi')) for nm in names}
    cm = S.missing('cm', n) if cfg['cmask'] else [False] * n
    vars_, dvals, dmasks = [], [], []
    for v in range(cfg['nvar']):
        d = S.reals('d%d_' % v, n)
        dm = S.missing('m%d_' % v, n) if cfg['dmask'] else [False] * n
        cs = [coord(S, 'longitude', lon, shape=shape)]
        for k, nm in enumerate(names):
            cs.append(coord(S, nm, cvals[nm], mask=cm if (cfg['cmask'] and k == 0) else None, shape=shape))
        vars_.append(ug(S, d, CoordList(cs), mask=dm if cfg['dmask'] else None, shape=shape, name='v%d' % v))
        dvals.append(d)
        dmasks.append(dm)
    kw = {}
    for nm in names:
        lo, hi = lim[nm]
        if style == 'slice':
            kw[nm] = slice(lo, hi)
        elif style == 'open_lo':
            kw[nm] = slice(None, hi)
        elif style == 'open_hi':
            kw[nm] = slice(lo, None)
        else:
            kw[nm] = [lo, hi]
    if cfg['nvar'] == 1:
        res = [vars_[0].subset(**kw)]
    else:
        res = UngriddedDataList(vars_).subset(**kw)
        if res is None:
            res = [None] * cfg['nvar']
    keep = []
    for i in range(n):
        if cm[i]:
            continue
        ok = True
        for nm in names:
            lo, hi = lim[nm]
            if style != 'open_lo' and not cvals[nm][i] >= lo:
                ok = False
            if style != 'open_hi' and not cvals[nm][i] <= hi:
                ok = False
        if ok:
            keep.append(i)
    for v in range(cfg['nvar']):
        r = res[v] if v < len(res) else None
        if not keep:
            S.check(r is None, 'nothing is returned when no point is inside the limits')
            continue
        S.check(r is not None, 'points inside the limits are returned')
        data = r.data.ravel()
        S.check(data.size == len(keep), 'exactly the points inside the (inclusive) limits are kept',
                lambda: 'kept %d, expected indices %s' % (data.size, keep))
        S.observe_array('out%d' % v, data)
        for j, i in enumerate(keep):
            S.check(masked_at(data, j) == bool(dmasks[v][i]), 'missing flags stay with their points')
            if not dmasks[v][i]:
                S.check(S.eq(val_at(data, j), dvals[v][i]), 'values stay with their points')
            for nm in names:
                c = r.coord(standard_name=nm).data.ravel()
                S.check(c.size == len(keep), 'coordinates keep the length of the data')
                S.check(S.eq(c[j], cvals[nm][i]), 'coordinates stay with their points')
            S.check(S.eq(r.coord(standard_name='longitude').data.ravel()[j], lon[i]),
                    'unlimited coordinates stay with their points')
    # the source is untouched (points without coordinates are dropped by reading the coordinates, not by the subset)
    good = [i for i in range(n) if not cm[i]]
    for v, src in enumerate(vars_):
        d = src.data.ravel()
        S.check(d.size == len(good), 'source size untouched')
        for j, i in enumerate(good):
            if not dmasks[v][i]:
                S.check(S.eq(val_at(d, j), dvals[v][i]), 'source values untouched')
            S.check(masked_at(d, j) == bool(dmasks[v][i]), 'source mask untouched')
            for nm in names:
                S.check(S.eq(src.coord(standard_name=nm).data.ravel()[j], cvals[nm][i]), 'source coords untouched')


HARNESSES = {'subset': subset}
