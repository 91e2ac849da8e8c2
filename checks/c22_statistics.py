"""C22: the statistics comparing two variables."""
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList
from symx import cubes
from symx.engine import Ctx
from symx.harness import masked_at, val_at
import scipy.stats.mstats as mst
import cis.stats

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE, 'np.mean/std of symbolic numbers: their textbook definitions',
         'scipy.stats.mstats.linregress and spearmanr are replaced, during the exploration only, by recorders which give '
         'the least-squares line through the points present in both arguments (every concrete replay uses scipy)']
BOUNDS = {'quick': 'up to 4 points in up to 2 dimensions, ungridded and gridded, all missing flags',
          'thorough': 'up to 5 points'}
OUTSIDE = 'the value of the rank correlation, r-value and standard error (computed by scipy from the arrays checked here); ' \
          'relative differences to values nearer to zero than 0.001; rounding'
ASSUMPTIONS = []


def configs(tier):
    N = 4 if tier == 'quick' else 5
    out = []
    for n in range(1, N + 1):
        for k1 in ('u', 'g'):
            for k2 in ('u', 'g'):
                if (k1, k2) == ('g', 'u') and n != 2:
                    continue
                if n == N and (k1, k2) != ('u', 'u'):
                    continue
                for masks in ((True, True), (True, False), (False, True), (False, False)):
                    if n == 5 and masks != (True, True):
                        continue
                    out.append(dict(harness='stats', n=n, k1=k1, k2=k2, masks=masks, _w=n * sum(masks)))
    out += [dict(harness='regress', n=n, _w=9) for n in range(3, N + 1)]
    return out


SEEN = []


def line(x, y):
    """the least-squares line through the points present in both"""
    mx, my = np.ma.getmaskarray(x), np.ma.getmaskarray(y)
    p = [(val_at(x, i), val_at(y, i)) for i in range(len(x)) if not mx[i] and not my[i]]
    SEEN.append(p)
    n = len(p)
    sx, sy = total([a for a, _ in p]), total([b for _, b in p])
    sxx = total([a * a for a, _ in p]) * n - sx * sx
    sxy = total([a * b for a, b in p]) * n - sx * sy
    g = sxy / sxx
    return g, (sy - g * sx) / n, 0.5, 0.5, 0.5


def total(v):
    t = 0
    for x in v:
        t = t + x
    return t


class patched(object):
    def __enter__(self):
        del SEEN[:]
        self.old = mst.linregress, mst.spearmanr
        if Ctx.current is not None:
            mst.linregress = line
            mst.spearmanr = lambda x, y: (line(x, y)[2], 0.5)

    def __exit__(self, *a):
        mst.linregress, mst.spearmanr = self.old


def make(S, p, n, kind, masked):
    d = S.reals(p, n, -100, 100)
    m = S.missing(p + 'm', n) if masked else [False] * n
    shape = (2, 2) if n == 4 and kind == 'u' else None
    lat = [float(i) for i in range(n)]
    if kind == 'u':
        o = ug(S, d, CoordList([coord(S, 'latitude', lat, shape=shape)]), mask=m if masked else None, shape=shape, name=p)
    else:
        o = cubes.cube(S, d, [cubes.dim(S, 'latitude', lat)], mask=m if masked else None, name=p)
    return o, d, m


def stats(S, cfg):
    n = cfg['n']
    a, d, m = make(S, 'a', n, cfg['k1'], cfg['masks'][0])
    b, e, q = make(S, 'b', n, cfg['k2'], cfg['masks'][1])
    for x in d:
        S.assume(abs(x) >= 0.001)
    both = [i for i in range(n) if not m[i] and not q[i]]
    x, y = [d[i] for i in both], [e[i] for i in both]
    k = len(both)
    an = cis.stats.StatsAnalyzer(a, b)
    r = an.points_count()
    S.check(len(r) == 1 and r[0].num_points == k, 'the number of points is that of points present in both')
    S.check(r[0].as_cube().data[0] == k, 'the number of points is saved')
    S.check(str(k) in r[0].pprint(), 'the number of points is printed')
    if k == 0:
        return
    diff = [v - u for u, v in zip(x, y)]
    rel = [(v - u) / u for u, v in zip(x, y)]

    def one(res, attr, want, what, sq=False):
        g = getattr(res, attr)
        S.check(g is not np.ma.masked, what + ' is known')
        c = np.ma.ravel(res.as_cube().data)[0]
        for g in (g, c):
            if sq:
                S.check(g >= 0, what + ' is not negative')
                S.check(S.near(g * g * (k - 1), want, 1e-6), what)
            else:
                S.check(S.near(g, want), what)

    def var(v):
        mu = total(v) / len(v)
        return total([(u - mu) * (u - mu) for u in v])

    r = an.means()
    S.check(len(r) == 2, 'two means')
    one(r[0], 'mean', total(x) / k, 'the first mean is that of the points present in both')
    one(r[1], 'mean', total(y) / k, 'the second mean is that of the points present in both')
    one(an.abs_mean()[0], 'abs_mean', total(diff) / k, 'the mean difference is that of the points present in both')
    one(an.rel_mean()[0], 'rel_mean', total(rel) / k, 'the mean relative difference is that of the points present in both')
    if k >= 2:
        r = an.stddevs()
        one(r[0], 'stddev', var(x), 'the first standard deviation is the corrected one of the points present in both', True)
        one(r[1], 'stddev', var(y), 'the second standard deviation is the corrected one of the points present in both', True)
        one(an.abs_stddev()[0], 'abs_stddev', var(diff), 'the standard deviation of the difference', True)
        one(an.rel_stddev()[0], 'rel_stddev', var(rel), 'the standard deviation of the relative difference', True)
    for o, v, z in ((a, d, m), (b, e, q)):
        f = o.data.reshape(-1)
        for i in range(n):
            S.check(masked_at(f, i) == z[i], 'the data are unchanged')
            if not z[i]:
                S.check(S.eq(val_at(f, i), v[i]), 'the data are unchanged')


def regress(S, cfg):
    """the first variable is concrete here, which keeps the arithmetic linear"""
    n = cfg['n']
    d = [1.5, -3.0, 4.0, 2.0, -7.25][:n]
    e = S.reals('b', n, -100, 100)
    m = S.missing('am', n)
    q = S.missing('bm', n)
    lat = [float(i) for i in range(n)]
    cl = CoordList([coord(S, 'latitude', lat)])
    an = cis.stats.StatsAnalyzer(ug(S, d, cl, mask=m if any(m) else None, name='a'),
                                 ug(S, e, cl, mask=q if any(q) else None, name='b'))
    both = [i for i in range(n) if not m[i] and not q[i]]
    x, y = [d[i] for i in both], [e[i] for i in both]
    k = len(both)
    if k < 3:
        return
    with patched():
        r = an.linear_regression()
        sx, sy = total(x), total(y)
        sxx = total([u * u for u in x]) * k - sx * sx
        sxy = total([u * v for u, v in zip(x, y)]) * k - sx * sy
        g, c = r[0].grad, r[1].intercept
        S.check(len(r) == 4, 'four results of the regression')
        S.check(S.near(g * sxx, sxy, 1e-5), 'the gradient is that of the line through the points present in both')
        S.check(S.near(c * k, sy - g * sx, 1e-5), 'the intercept is that of the line through the points present in both')
        S.check(bool(S.eq(np.ma.ravel(r[0].as_cube().data)[0], g)) and bool(S.eq(np.ma.ravel(r[1].as_cube().data)[0], c)),
                'gradient and intercept are saved')
        if S.symbolic:
            an.spearmans_rank()
            for p in SEEN:
                S.check(len(p) == k, 'regression and rank correlation use the points present in both')
                for (u, v), i in zip(p, both):
                    S.check(S.eq(u, d[i]) and S.eq(v, e[i]), 'regression and rank correlation use the points present in both')


HARNESSES = dict(stats=stats, regress=regress)
