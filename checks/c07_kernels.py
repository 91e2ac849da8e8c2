"""C07: the statistics kernels."""
import numpy as np
import pandas as pd
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx import cubes
from symx.harness import masked_at, val_at

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE, 'np.mean/std/min/max/sum of symbolic numbers: their textbook definitions; sqrt(x) is '
         'the non-negative number whose square is x']
BOUNDS = {'quick': 'up to 4 points (values and missing flags symbolic) spread over two grid cells',
          'thorough': 'up to 5 points'}
OUTSIDE = 'rounding of the sums'
ASSUMPTIONS = []
KERNELS = ('mean', 'min', 'max', 'sum', 'stddev', 'moments', None)


def configs(tier):
    N = 4 if tier == 'quick' else 5
    out = []
    for k in KERNELS:
        for n in range(1, N + 1):
            out.append(dict(harness='agg', k=k or '', n=n, _w=n * (3 if k in ('stddev', 'moments', None) else 1)))
            if n < N:
                out.append(dict(harness='direct', k=k or '', n=n))
    for n in (2, 3):
        out.append(dict(harness='lists', n=n))
    return out


def total(v):
    t = v[0]
    for x in v[1:]:
        t = t + x
    return t


def check_stat(S, k, got, v, where):
    """got: the result (masked if missing); v: the values it must be computed from"""
    n = len(v)
    missing = got is np.ma.masked or (isinstance(got, float) and got != got)
    if k == 'num':
        S.check(not missing and S.eq(got, n), 'the number of points is the number of non-missing points ' + where)
        return
    if k == 'stddev' and n < 2:
        S.check(missing, 'the standard deviation of a single point is missing ' + where)
        return
    S.check(not missing, 'a cell with points has a value ' + where)
    if k == 'mean':
        S.check(S.eq(got * n, total(v)), 'mean is the arithmetic mean of the points ' + where)
    elif k == 'sum':
        S.check(S.eq(got, total(v)), 'sum is the sum of the points ' + where)
    elif k in ('min', 'max'):
        for x in v:
            S.check(got <= x if k == 'min' else got >= x, '%s bounds every point %s' % (k, where))
        S.check(any(bool(S.eq(got, x)) for x in v), '%s is one of the points %s' % (k, where))
    elif k == 'stddev':
        m = total(v) / n
        S.check(got >= 0, 'the standard deviation is not negative ' + where)
        S.check(S.near(got * got * (n - 1), total([(x - m) * (x - m) for x in v])),
                'stddev is the corrected sample standard deviation ' + where)


def agg(S, cfg):
    n = cfg['n']
    d = S.reals('d', n, -1000, 1000)
    mask = S.missing('m', n)
    pos = [0.5, 1.5, 0.6, 0.7, 1.6][:n]
    lat = [1.0 * i for i in range(n)]
    data = ug(S, d, CoordList([coord(S, 'altitude', pos), coord(S, 'latitude', lat), coord(S, 'longitude', lat)]),
              mask=mask, units='kg m-3', long_name='Rain water')
    k = cfg['k']
    kw = {} if not k else dict(how=k)
    r = data.aggregate(altitude=[0, 2, 1], **kw)
    stats = ['mean', 'stddev', 'num'] if k in ('', 'moments') else [k]
    outs = list(r) if len(stats) > 1 else [r]
    S.check(len(outs) == len(stats), 'one output per statistic')
    if len(stats) > 1:
        S.check([o.var_name for o in outs] == ['rain', 'rain_std_dev', 'rain_num_points'],
                'moments are named after the variable', str([o.var_name for o in outs]))
        S.check([str(o.units) for o in outs[:2]] == ['kg m-3', 'kg m-3'], 'moments have the units of the variable',
                str([str(o.units) for o in outs]))
    else:
        S.check(outs[0].var_name == 'rain' and str(outs[0].units) == 'kg m-3', 'name and units are those of the variable')
    for o, st in zip(outs, stats):
        flat = o.data.reshape(-1)
        for c in (0, 1):
            v = [d[i] for i in range(n) if not mask[i] and int(pos[i]) == c]
            if not v:
                S.check(masked_at(flat, c), 'a cell without points is missing')
                continue
            check_stat(S, st, np.ma.masked if masked_at(flat, c) else val_at(flat, c), v, '(%s, aggregation)' % st)
        S.observe_array(st, flat)


def direct(S, cfg):
    """the interface used by separation ("box") collocation: a table of points"""
    from cis.collocation.col import get_kernel
    n, k = cfg['n'], cfg['k']
    d = S.reals('d', n, -1000, 1000)
    df = pd.DataFrame({'latitude': [1.0 * i for i in range(n)], 'vals': S.array(d)})
    kern = get_kernel(k or '')
    r = kern.get_value(None, df)
    if k in ('', 'moments'):
        S.check(len(r) == 3, 'moments are three values')
        for st, v in zip(('mean', 'stddev', 'num'), r):
            check_stat(S, st, v, d, '(%s, collocation)' % st)
    else:
        check_stat(S, k, r, d, '(%s, collocation)' % k)
    try:
        kern.get_value(None, df.iloc[[]])
        S.fail('no points give no value')
    except ValueError:
        pass


def lists(S, cfg):
    n = cfg['n']
    lat = [1.0 * i for i in range(n)]
    cl = CoordList([coord(S, 'altitude', [0.5] * n), coord(S, 'latitude', lat), coord(S, 'longitude', lat)])
    ds = [S.reals('d', n, -1000, 1000), S.reals('e', n, -1000, 1000)]
    ms = [S.missing('m', n), [False] * n]
    data = UngriddedDataList([ug(S, ds[v], cl, mask=ms[v], name='v%d' % v) for v in (0, 1)])
    r = data.aggregate(altitude=[0, 2, 1])
    S.check([o.var_name for o in r] == ['v0', 'v0_std_dev', 'v0_num_points', 'v1', 'v1_std_dev', 'v1_num_points'],
            'moments of every variable, in order')
    for v in (0, 1):
        good = [ds[v][i] for i in range(n) if not ms[v][i]]
        for j, st in enumerate(('mean', 'stddev', 'num')):
            flat = r[3 * v + j].data.reshape(-1)
            if not good:
                S.check(masked_at(flat, 0), 'a cell without points is missing')
            else:
                check_stat(S, st, np.ma.masked if masked_at(flat, 0) else val_at(flat, 0), good, '(%s, list)' % st)


HARNESSES = {'agg': agg, 'direct': direct, 'lists': lists}
