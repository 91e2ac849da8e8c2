"""C39: a plot shows each value at the coordinates it belongs to."""
import datetime
import functools
import numpy as np
import matplotlib
matplotlib.use('Agg')
import cf_units
import iris
from symx import cubes
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList
from symx.engine import Ctx
from symx.harness import masked_at, val_at
import cartopy.crs as ccrs
import matplotlib.pyplot as plt
import cis.plotting.plot as P
import cis.plotting.formatted_plot as F
import cis.plotting.histogram2d as H2

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE,
         'matplotlib: a stand-in for its axes records what is drawn on them (pcolormesh, contour, contourf, plot, scatter, hist, pcolor, '
         'the labels of the axes); coastlines, map ticks and colour bars are not drawn',
         'cf_units.Unit.convert of symbolic times: the affine map which the real one has, from its values at 0 and 1',
         'numpy.histogram2d, while exploring: arbitrary counts in the bins asked for; what it is given is recorded']
BOUNDS = {'quick': 'gridded data of 2x2, 2x3 and 3x2 (also with a dimension of length one) over latitude, longitude, altitude, air pressure, '
                   'time or a two dimensional altitude, in either order, with arbitrary values, missing values, increasing or decreasing '
                   'positions and bounds; ungridded data of 1-3 points with arbitrary values and positions; the default and all choices of '
                   'the axes; every type of plot but Taylor diagrams',
          'thorough': 'up to 3x4 and 4 points'}
OUTSIDE = ('what matplotlib and cartopy make of what they are given to draw; colour scales, levels, ticks, legends and sizes of plots; '
           'Taylor diagrams; lines and points along one coordinate of gridded data of two dimensions; times in other calendars')
ASSUMPTIONS = ['the longitudes of a grid which nearly, but not quite, goes round the globe (within 0.01 degrees) may be taken to do so']

DAYS = datetime.date(1970, 1, 1).toordinal() - datetime.date(1600, 1, 1).toordinal()
RANGE = {'latitude': (-80, 80), 'longitude': (-180, 540), 'altitude': (0, 9000), 'air_pressure': (1, 1000), 'time': (0, 200000)}


class Drawn(object):
    """stands in for matplotlib axes"""
    CALLS = ('pcolormesh', 'contour', 'contourf', 'plot', 'scatter', 'hist', 'pcolor')

    def __init__(self):
        self.calls, self.labels, self.limits, self.saved = [], {}, {}, []
        self.inverted = False
        self.extent = (-20.0, 30.0, -10.0, 25.0)
        self.projection = ccrs.PlateCarree()

    def set_xlabel(self, t, *a, **k):
        self.labels['x'] = t

    def set_ylabel(self, t, *a, **k):
        self.labels['y'] = t

    def invert_yaxis(self):
        self.inverted = not self.inverted

    def set_title(self, t, *a, **k):
        self.labels['title'] = t

    def get_xlim(self):
        return 0.0, 1.0
    get_ylim = get_xlim

    def _limit(self, axis, names, a, k):
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = a[0]
        for n, v in list(zip(names, a)) + [(o, k.get(o)) for o in k]:
            side = 0 if n in (names[0], axis + 'min') else 1 if n in (names[1], axis + 'max') else None
            if side is not None and v is not None:
                self.limits[axis + ('min', 'max')[side]] = v

    def set_xlim(self, *a, **k):
        self._limit('x', ('left', 'right'), a, k)

    def set_ylim(self, *a, **k):
        self._limit('y', ('bottom', 'top'), a, k)

    def get_extent(self, *a, **k):
        return self.extent

    def set_extent(self, e, *a, **k):
        self.extent = tuple(e)

    def set_global(self):
        self.extent = (-180.0, 180.0, -90.0, 90.0)

    def get_figwidth(self):
        return 8.0

    def savefig(self, f, *a, **k):
        self.saved.append(f)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            if name in self.CALLS:
                self.calls.append((name, a, k))
            return self
        return f


def _install():
    old = cf_units.Unit.convert

    @functools.wraps(old)
    def convert(self, value, other, *a, **k):
        if Ctx.current is not None and getattr(value, 'dtype', None) == object:
            z, o = float(old(self, 0.0, other)), float(old(self, 1.0, other))
            return value * (o - z) + z
        return old(self, value, other, *a, **k)
    cf_units.Unit.convert = convert
    nothing = lambda *a, **k: None
    for f in ('add_color_bar', 'drawcoastlines', 'set_map_ticks', 'set_x_axis_as_time'):
        setattr(P, f, nothing)
    P.get_best_map_ticks = lambda *a, **k: ((), ())


if not getattr(P, '_symx_plots', False):
    P._symx_plots = True
    _install()

GRIDS = [('latitude', 'longitude'), ('altitude', 'latitude'), ('air_pressure', 'longitude'), ('altitude', 'time'), ('latitude', 'time')]
KINDS2 = ('heatmap', 'contour', 'contourf', 'scatter2d')


def configs(tier):
    out = []
    shapes = [(2, 2), (2, 3), (3, 2)] if tier == 'quick' else [(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4)]
    k = 0
    for how in (None, 'line', 'scatter', 'histogram'):
        for types in ((None,), ('line',), ('scatter',), ('histogram',), (None, None), ('line', 'scatter'), ('scatter', None), ('scatter', 'line'),
                      (None, 'scatter'), ('histogram', None), ('scatter', None, 'line')):
            if how and any(types):
                continue
            for lim in LIMITS:
                k += 1
                if tier != 'quick' or k % 2 or how is None and types in (('line',), ('scatter', None)):
                    out.append(dict(harness='figure', how=how, types=types, limits=lim, labels=k % 3 == 0, n=2 if len(types) < 2 or tier != 'quick' else 2, _w=3))
    for lim in LIMITS:
        out.append(dict(harness='map_limits', limits=lim))
    for names in GRIDS:
        for shape in shapes:
            for flip in (False, True):
                for swap in (None, False, True):
                    for how in KINDS2:
                        if how == 'contourf' and (swap is not None or flip):
                            continue
                        if how == 'scatter2d' and names[1] not in ('longitude', 'time') and tier == 'quick':
                            continue
                        out.append(dict(harness='grid', names=names, shape=shape, flip=flip, swap=swap, how=how, _w=shape[0] * shape[1]))
    for names in GRIDS:
        for one in 'xy':
            for shape in shapes[:2]:
                for flip in (False, True):
                    for swap in (False, True):
                        out.append(dict(harness='grid', names=names, shape=shape, flip=flip, swap=swap, how='heatmap', one=one,
                                        _w=shape[0] * shape[1]))
    for how in ('heatmap', 'contour', None):
        for kind in ('desc', 'bounds', 'scalar', 'ydesc'):
            for shape in shapes[:3]:
                for flip in (False, True):
                    out.append(dict(harness='grid', names=GRIDS[0], shape=shape, flip=flip, swap=None, how=how, kind=kind,
                                    _w=shape[0] * shape[1]))
    for how in ('contour', 'contourf', 'heatmap'):
        for n in (4, 3):
            for lat in (False, True):
                for desc in (False, True):
                    out.append(dict(harness='globe', how=how, n=n, swap=lat, desc=desc, _w=9))
    for how in ('contour', 'scatter2d'):
        for shape in shapes:
            for flip in (False, True):
                for swap in (False, True):
                    out.append(dict(harness='hybrid', how=how, shape=shape, flip=flip, swap=swap, _w=9))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for how in ('line', 'scatter', 'scatter2d', 'histogram', None):
            for xa in (None, 'latitude', 'longitude', 'time', 'altitude'):
                for ya in (None, 'altitude'):
                    if xa is None and ya is not None:
                        continue
                    out.append(dict(harness='points', n=n, how=how, x=xa, y=ya, _w=2 ** n))
        for how in ('comparativescatter', 'histogram2d', None):
            for data in ('ungridded', 'gridded'):
                if n > 1 or data == 'ungridded':
                    out.append(dict(harness='pair', n=n, how=how, data=data, _w=3 ** n))
        for how in ('line', 'scatter', 'histogram', None):
            for name in ('latitude', 'time'):
                if n > 1:
                    out.append(dict(harness='profile', n=n, how=how, name=name, scalar=n == 3, _w=2 ** n))
        out.append(dict(harness='layers', n=n, how='line', _w=4 ** n))
        out.append(dict(harness='layers', n=n, how='scatter', _w=4 ** n))
    out.append(dict(harness='units', _w=1))
    return out


# ----------------------------------------------------------------------------------------------- oracles
LIMITS = [(), ('xmin',), ('ymax',), ('xmin', 'xmax', 'ymin', 'ymax'), ('xmax', 'ymin')]


def plain(a):
    return np.ma.asarray(a) if isinstance(a, np.ma.MaskedArray) else np.asarray(a)


def shown(name, v):
    """what is drawn for the value of a coordinate"""
    return v - DAYS if name == 'time' else v


def edges(S, p, bounds, name):
    """acceptable edges of cells"""
    n = len(p)
    if bounds is not None:
        return [[bounds[i][0]] for i in range(n)] + [[bounds[-1][1]]]
    e = [[p[0] - (p[1] - p[0]) / 2.0]] + [[(p[i] + p[i + 1]) / 2.0] for i in range(n - 1)] + [[p[-1] + (p[-1] - p[-2]) / 2.0]]
    if name == 'latitude':
        e[0] += [90.0, -90.0]
        e[-1] += [90.0, -90.0]
    return e


def same_value(S, a, k, v, m):
    if m:
        return masked_at(a, k)
    return not masked_at(a, k) and S.eq(val_at(a, k), v)


def label_ok(ax, x, y):
    return x in ax.labels.get('x', '') and y in ax.labels.get('y', '')


def check_2d(S, ax, how, xs, ys, vals, miss, xe=None, ye=None, globe=False, xname='', yname=''):
    """vals/miss: [iy][ix]"""
    nx, ny = len(vals[0]), len(vals)
    draws = [c for c in ax.calls if c[0] in ('pcolormesh', 'pcolor', 'contour', 'contourf', 'scatter')]
    S.check(len(draws) == 1, 'the data are drawn once')
    name, a, k = draws[0]
    if how == 'heatmap':
        S.check(name in ('pcolormesh', 'pcolor'), 'a heatmap is drawn')
    elif how is not None:
        S.check(name == {'scatter2d': 'scatter'}.get(how, how), 'the plot is of the type asked for')
    X, Y = plain(a[0]), plain(a[1])
    Z = plain(k['c'] if name == 'scatter' else a[2])
    S.check(label_ok(ax, xname, yname), 'the axes are labelled with their coordinates')
    if name in ('pcolormesh', 'pcolor'):
        S.check(Z.shape == (ny, nx), 'every value has one cell')
        if X.ndim == 1:
            X = np.tile(X, (ny + 1, 1))
        if Y.ndim == 1:
            Y = np.tile(Y.reshape(-1, 1), (1, nx + 1))
        S.check(X.shape == Y.shape == (ny + 1, nx + 1), 'the cells have edges')
        for i in range(ny):
            for j in range(nx):
                S.check(same_value(S, Z.reshape(-1), i * nx + j, vals[i][j], miss[i][j]), 'each cell has its value')
        for i in range(ny + 1):
            for j in range(nx + 1):
                S.check(any(bool(S.eq(X[i, j], shown(xname, e))) for e in xe[j]) and
                        any(bool(S.eq(Y[i, j], e)) for e in ye[i]), 'each cell is at its bounds')
        return
    if name == 'scatter':
        X, Y, Z = X.reshape(-1), Y.reshape(-1), Z.reshape(-1)
        S.check(X.size == Y.size == Z.size, 'as many points as values are drawn')
        S.check(X.size >= nx * ny, 'every value is drawn')
        want = [(i, j) for i in range(ny) for j in range(nx)]
        left = list(range(X.size))
        # the points may be drawn in any order: go through those of the data, then whatever is left has to repeat a column
        cols = X.size // ny
        S.check(X.size % ny == 0 and (cols == nx or (globe and cols == nx + 1)), 'no point is drawn which is not in the data')
        X, Y, Z = X.reshape(ny, cols), Y.reshape(ny, cols), Z.reshape(ny, cols)
    else:
        if X.ndim == 1:
            X = np.tile(X, (Z.shape[0], 1))
        if Y.ndim == 1:
            Y = np.tile(Y.reshape(-1, 1), (1, Z.shape[1]))
    S.check(X.shape == Y.shape == Z.shape, 'every value has its position')
    S.check(Z.shape == (ny, nx) or (globe and Z.shape == (ny, nx + 1)), 'no position is drawn which is not in the data')
    for i in range(ny):
        for j in range(nx):
            S.check(same_value(S, Z[i], j, vals[i][j], miss[i][j]), 'the values drawn are those of the data')
            S.check(S.eq(X[i, j], shown(xname, xs[i][j])) & S.eq(Y[i, j], ys[i][j]), 'each value is drawn at its coordinates')
        if Z.shape[1] > nx:
            S.check(same_value(S, Z[i], nx, vals[i][0], miss[i][0]), 'the globe is closed with the first value')
            d = X[i, nx] - xs[i][0]
            S.check(((d >= 359.99) & (d <= 360.01)) | ((d >= -360.01) & (d <= -359.99)), 'the globe is closed where it begins')
            S.check(S.eq(Y[i, nx], ys[i][0]), 'the globe is closed at its latitude')
    return Z.shape[1] > nx


def transposed(ax):
    """the recorded call as if the axes were the other way round (for a longitude on the y axis)"""
    t = Drawn()
    t.labels = {'x': ax.labels.get('y', ''), 'y': ax.labels.get('x', '')}
    for name, a, k in ax.calls:
        if name in ('contour', 'contourf', 'pcolormesh'):
            X, Y, Z = plain(a[0]), plain(a[1]), plain(a[2])
            t.calls.append((name, (Y.T, X.T, Z.T) + tuple(a[3:]), k))
        else:
            t.calls.append((name, a, k))
    return t


def orient(vals, ny, nx, flip):
    """values [iy][ix] of flat values in the order of the dimensions"""
    return [[vals[j * ny + i] if flip else vals[i * nx + j] for j in range(nx)] for i in range(ny)]


# ----------------------------------------------------------------------------------------------- gridded data
def positions(S, name, n, order='asc'):
    lo, hi = RANGE[name]
    return cubes.axis(S, name[:3], n, lo, hi, order)[0]


def grid(S, cfg):
    (yn, xn), (ny, nx), flip, how = cfg['names'], cfg['shape'], cfg['flip'], cfg['how']
    kind = cfg.get('kind')
    yb = xb = None
    if kind == 'bounds':
        y, yb = cubes.axis(S, yn[:3], ny, -80, 80, contiguous_bounds=True)
        x, xb = cubes.axis(S, xn[:3], nx, -180, 540, contiguous_bounds=True)
        S.assume(yb[0][0] >= -90)
        S.assume(yb[-1][1] <= 90)
    else:
        y = positions(S, yn, ny, 'desc' if kind == 'ydesc' else 'asc')
        x = positions(S, xn, nx, 'desc' if kind == 'desc' else 'asc')
    if xn == 'longitude':
        w = x[-1] + (x[1] - x[0]) - x[0]
        # whether they go round the globe is the matter of the other harness
        S.assume((w < 359.99) & (w > -359.99) | (w > 360.01) | (w < -360.01))
    yc, xc = cubes.dim(S, yn, y, bounds=yb), cubes.dim(S, xn, x, bounds=xb)
    v = S.reals('v', nx * ny, -100, 100)
    m = [False] * (nx * ny)
    m[0] = S.bool('m0')
    if nx * ny > 4:
        m[-2] = S.bool('m1')
    dims = [xc, yc] if flip else [yc, xc]
    if kind == 'scalar':
        data = cubes.cube(S, v, [dims[0], cubes.dim(S, 'altitude', [100.0]), dims[1]], mask=m)
    else:
        data = cubes.cube(S, v, dims, mask=m)
    ax = Drawn()
    kw = {}
    swap = cfg['swap']
    X, Y = (xn, yn)
    if swap is not None:
        X, Y = (yn, xn) if swap else (xn, yn)
        kw = dict(xaxis=X, yaxis=Y)
    if cfg.get('one') == 'x':
        kw.pop('yaxis')
    elif cfg.get('one') == 'y':
        kw.pop('xaxis')
    P.basic_plot(data, how=how, ax=ax, **kw)
    if swap is None and 'longitude' not in cfg['names']:
        # either of them may be on either axis by default
        X = [c for c in cfg['names'] if c in ax.labels.get('x', '')][0]
        Y = [c for c in cfg['names'] if c != X][0]
    vals, miss = orient(v, ny, nx, flip), orient(m, ny, nx, flip)
    xs, ys = [[x[j] for j in range(nx)] for i in range(ny)], [[y[i] for j in range(nx)] for i in range(ny)]
    xe, ye = edges(S, x, xb, xn), edges(S, y, yb, yn)
    if X != xn:
        vals, miss = [list(r) for r in zip(*vals)], [list(r) for r in zip(*miss)]
        xs, ys = [list(r) for r in zip(*ys)], [list(r) for r in zip(*xs)]
        xe, ye = ye, xe
    check_2d(S, ax, how or 'heatmap', xs, ys, vals, miss, xe, ye, xname=X, yname=Y)
    S.check(ax.inverted == (Y == 'air_pressure'), 'pressure is drawn decreasing upwards')


def globe(S, cfg):
    """longitudes which go round the globe, or would if there were another one"""
    n, how, swap = cfg['n'], cfg['how'], cfg['swap']
    first = S.real('first', -180, 180)
    step = -90.0 if cfg['desc'] else 90.0
    x = [first + step * i for i in range(n)]
    y = positions(S, 'latitude', 2)
    v = S.reals('v', n * 2, -100, 100)
    m = [S.bool('m0')] + [False] * (2 * n - 1)
    data = cubes.cube(S, v, [cubes.dim(S, 'latitude', y), cubes.dim(S, 'longitude', x)], mask=m)
    ax = Drawn()
    P.basic_plot(data, how=how, ax=ax, **(dict(xaxis='latitude', yaxis='longitude') if swap else {}))
    if swap:
        ax = transposed(ax)
    closed = check_2d(S, ax, how, [x, x], [[y[0]] * n, [y[1]] * n], orient(v, 2, n, False), orient(m, 2, n, False),
                      edges(S, x, None, 'longitude'), edges(S, y, None, 'latitude'), globe=n == 4, xname='longitude', yname='latitude')
    if how != 'heatmap' and n == 4:
        S.check(closed, 'there is no gap in a map of the globe')


def hybrid(S, cfg):
    """an altitude which depends on both dimensions"""
    (nz, nx), flip, how, swap = cfg['shape'], cfg['flip'], cfg['how'], cfg['swap']
    x = positions(S, 'latitude', nx)
    z = S.reals('z', nz * nx, 0, 9000)
    v = S.reals('v', nz * nx, -100, 100)
    m = [S.bool('m0')] + [False] * (nz * nx - 1)
    lev = cubes.dim(S, 'level', [float(i) for i in range(nz)])
    lat = cubes.dim(S, 'latitude', x)
    dims = [lat, lev] if flip else [lev, lat]
    alt = cubes.aux(S, 'altitude', z, shape=(nx, nz) if flip else (nz, nx))
    data = cubes.cube(S, v, dims, mask=m, auxs=[(alt, (0, 1))])
    ax = Drawn()
    X, Y = ('altitude', 'latitude') if swap else ('latitude', 'altitude')
    P.basic_plot(data, how=how, ax=ax, xaxis=X, yaxis=Y)
    vals, miss, zs = orient(v, nz, nx, flip), orient(m, nz, nx, flip), orient(z, nz, nx, flip)
    xs, ys = [[x[j] for j in range(nx)] for i in range(nz)], zs
    if swap:
        vals, miss, xs, ys = [[list(r) for r in zip(*t)] for t in (vals, miss, ys, xs)]
    check_2d(S, ax, how, xs, ys, vals, miss, xname=X, yname=Y)


def profile(S, cfg):
    """gridded data of one dimension"""
    n, how, name = cfg['n'], cfg['how'], cfg['name']
    x = positions(S, name, n)
    v = S.reals('v', n, -100, 100)
    m = S.missing('m', n)
    dims = [cubes.dim(S, name, x)] + ([cubes.dim(S, 'longitude', [10.0])] if cfg['scalar'] else [])
    data = cubes.cube(S, v, dims, mask=m)
    ax = Drawn()
    P.basic_plot(data, how=how, ax=ax, xaxis=name)
    check_1d(S, ax, how or 'line', name, x, v, m)


# ----------------------------------------------------------------------------------------------- ungridded data
def check_1d(S, ax, how, xname, x, v, m, calls=None, label='rain'):
    draws = [c for c in ax.calls if c[0] in ('plot', 'scatter', 'hist')] if calls is None else calls
    S.check(len(draws) == 1, 'the data are drawn once')
    name, a, k = draws[0]
    if how == 'histogram':
        S.check(name == 'hist', 'a histogram is drawn')
        d = plain(a[0]).reshape(-1)
        w = [v[i] for i in range(len(v)) if not m[i]]
        S.check(d.size == len(w), 'every value which is not missing is counted once')
        for i in range(len(w)):
            S.check(not masked_at(d, i) and S.eq(val_at(d, i), w[i]), 'the values counted are those of the data')
        return
    S.check(name == 'plot' or name == 'scatter', 'lines or points are drawn')
    X, D = plain(a[0]).reshape(-1), plain(a[1]).reshape(-1)
    S.check(X.size == D.size == len(v), 'every value is drawn once')
    for i in range(len(v)):
        S.check(same_value(S, D, i, v[i], m[i]), 'the values drawn are those of the data')
        S.check(S.eq(val_at(X, i), shown(xname, x[i])), 'each value is drawn at its coordinate')
    S.check(label_ok(ax, xname, label), 'the axes are labelled with what they show')


def point_data(S, n, p='', mask=True):
    cs = {'latitude': S.reals(p + 'lat', n, -90, 90), 'longitude': S.reals(p + 'lon', n, -180, 360),
          'altitude': S.reals(p + 'alt', n, 0, 9000), 'time': S.reals(p + 'tim', n, 0, 200000)}
    v = S.reals(p + 'v', n, -100, 100)
    m = S.missing(p + 'm', n) if mask else [S.bool(p + 'm0')] + [False] * (n - 1)
    cl = CoordList([coord(S, c, cs[c]) for c in ('latitude', 'longitude', 'altitude', 'time')])
    return ug(S, v, cl, mask=m, name='rain' + p), cs, v, m


def points(S, cfg):
    n, how, xa, ya = cfg['n'], cfg['how'], cfg['x'], cfg['y']
    data, cs, v, m = point_data(S, n)
    ax = Drawn()
    kw = {}
    if xa:
        kw['xaxis'] = xa
    if ya:
        kw['yaxis'] = ya
    if how is None and n < 2:
        xa = xa or 'longitude'
    P.basic_plot(data, how=how, ax=ax, **kw)
    draws = [c for c in ax.calls if c[0] in ('plot', 'scatter', 'hist')]
    S.check(len(draws) == 1, 'the data are drawn once')
    x_shown = xa or ('longitude' if n > 1 else None)
    if x_shown is None or n < 2:
        # which coordinate is taken of a single point is of no matter, as long as it is the one in the label
        x_shown = [c for c in cs if c in ax.labels.get('x', '')][0] if how != 'histogram' else 'longitude'
    two = how == 'scatter2d' or (how is None and 'c' in draws[0][2])
    if how is None:
        S.check(two == (x_shown == 'longitude' and 'latitude' in ax.labels['y']), 'maps are drawn of latitudes and longitudes')
    if two:
        y_shown = ya if ya and n > 1 else [c for c in cs if c in ax.labels.get('y', '')][0]
        if not ya and n > 1:
            S.check(y_shown == 'latitude', 'the default of the y axis is the latitude')
        check_2d(S, ax, 'scatter2d', [cs[x_shown]], [cs[y_shown]], [v], [m], xname=x_shown, yname=y_shown)
    elif ya:
        y_shown = ya if n > 1 else [c for c in cs if c in ax.labels.get('y', '')][0] if how != 'histogram' else 'latitude'
        if how == 'histogram' and n < 2:
            S.check(True, 'nothing is known about the histogram of a single coordinate')
            return
        check_1d(S, ax, how or 'line', x_shown, cs[x_shown], cs[y_shown], [False] * n, label=y_shown)
    else:
        check_1d(S, ax, how or 'line', x_shown, cs[x_shown], v, m)


def layers(S, cfg):
    n = cfg['n']
    a, ca, va, ma = point_data(S, n, 'a')
    b, cb, vb, mb = point_data(S, n + 1, 'b')
    ax = Drawn()
    P.multilayer_plot([a, b], how=cfg['how'], ax=ax, xaxis='latitude')
    draws = [c for c in ax.calls if c[0] in ('plot', 'scatter', 'hist')]
    S.check(len(draws) == 2, 'each of the data is drawn')
    if n > 1:
        check_1d(S, ax, cfg['how'], 'latitude', ca['latitude'], va, ma, draws[:1])
    check_1d(S, ax, cfg['how'], 'latitude', cb['latitude'], vb, mb, draws[1:])
    S.check('raina' in draws[0][2].get('label', '') and 'rainb' in draws[1][2].get('label', ''), 'the layers are labelled with their data')


LAYER = {'line': dict(color='red', itemwidth=3.0, label='mine', itemstyle='dashed'), 'scatter': dict(color='blue', itemwidth=9.0, itemstyle='s')}


def figure(S, cfg):
    """what the plot command does with the types and options of data groups and of the figure"""
    n, types, how = cfg['n'], cfg['types'], cfg['how']
    ds = [point_data(S, n, 'abc'[k], k == 0) for k in range(len(types))]
    ax = Drawn()
    old = plt.subplots
    plt.subplots = lambda *a, **k: (ax, ax)
    limits = {k: S.real(k, -50, 50) for k in cfg['limits']}
    opts = []
    for k, t in enumerate(types):
        o = dict(LAYER.get(t or how, {})) if (k + len(limits)) % 2 else {}
        if t:
            o['type'] = t
        opts.append(o)
    labels = dict(xlabel='across', ylabel='up', title='About') if cfg['labels'] else {}
    labels.update(limits)
    try:
        F.Plotter([d[0] for d in ds], type=how, output='/nowhere/plot.png', layer_opts=opts, xaxis='latitude', **labels)
    finally:
        plt.subplots = old
    S.check(ax.saved == ['/nowhere/plot.png'], 'the figure is saved where it is to be')
    draws = [c for c in ax.calls if c[0] in ('plot', 'scatter', 'hist')]
    S.check(len(draws) == len(types), 'each of the data is drawn')
    for (d, cs, v, m), t, o, c, p in zip(ds, types, opts, draws, 'abc'):
        t = t or how or 'line'
        was = dict(ax.labels)
        if cfg['labels']:
            ax.labels = {}
        else:
            ax.labels = dict(x='latitude', y='rain')
        if cfg['labels']:
            X, D = plain(c[1][0]).reshape(-1), plain(c[1][1]).reshape(-1) if t != 'histogram' else None
            if D is not None:
                for i in range(n):
                    S.check(same_value(S, D, i, v[i], m[i]) and S.eq(val_at(X, i), cs['latitude'][i]), 'the values drawn are those of the data')
        else:
            check_1d(S, ax, t, 'latitude', cs['latitude'], v, m, [c])
        ax.labels = was
        S.check(('hist' if t == 'histogram' else 'scatter or plot') .find(c[0]) >= 0, 'each of the data is drawn as its own type')
        k = c[2]
        line = k.get('linestyle', k.get('ls'))
        S.check(t == 'histogram' or (line in (None, 'None', 'none', '')) == (t == 'scatter') or (t == 'line' and line is None),
                'lines are lines and points are points', str(k))
        if 'color' in o:
            S.check(o['color'] in (k.get('color'), k.get('c'), k.get('facecolor')), 'the colour asked for', str(k))
        if 'label' in o:
            S.check(k.get('label') == o['label'], 'the label asked for')
    if cfg['labels']:
        S.check(ax.labels.get('x') == 'across' and ax.labels.get('y') == 'up' and ax.labels.get('title') == 'About', 'the labels asked for')
    S.check(set(ax.limits) == set(limits) and all(bool(S.eq(ax.limits[k], limits[k])) for k in limits), 'the limits asked for')


def map_limits(S, cfg):
    """the limits of a map"""
    ax = Drawn()
    w = S.reals('e', 4, -180, 180)
    S.assume(w[1] - w[0] > 1)
    S.assume(w[3] - w[2] > 1)
    S.assume(w[2] >= -90)
    S.assume(w[3] <= 90)
    ax.extent = tuple(w)
    lim = {k: S.real(k, -90, 90) for k in cfg['limits']}
    F.apply_map_axis_limits(ax, **lim)
    want = [lim.get(k, x) for k, x in zip(('xmin', 'xmax', 'ymin', 'ymax'), w)]
    if not lim and (bool(w[1] - w[0] > 288) or bool(w[3] - w[2] > 144)):
        want = [-180, 180, -90, 90]
    S.check(all(bool(S.eq(a, b)) for a, b in zip(ax.extent, want)), 'the map has the limits asked for, and those of the data else; '
            'maps of most of the globe are of all of it')


def pair(S, cfg):
    """two data against each other"""
    n, how = cfg['n'], cfg['how']
    va, vb = S.reals('a', n, -100, 100), S.reals('b', n, -100, 100)
    ma, mb = S.missing('ma', n), S.missing('mb', n)
    if cfg['data'] == 'gridded':
        d = cubes.dim(S, 'latitude', [10.0 * i for i in range(n)])
        A, B = cubes.cube(S, va, [d], mask=ma, name='raina'), cubes.cube(S, vb, [d], mask=mb, name='rainb')
    else:
        cl = [CoordList([coord(S, c, [10.0 * i for i in range(n)]) for c in ('latitude', 'longitude')]) for _ in 'ab']
        A, B = ug(S, va, cl[0], mask=ma, name='raina'), ug(S, vb, cl[1], mask=mb, name='rainb')
    ax = Drawn()
    counted = []
    counts = [[S.int('h%d%d' % (i, j), 0, 3) for j in range(3)] for i in range(2)]
    old = np.histogram2d

    def histogram2d(x, y, bins=10, *a, **k):
        counted.append((x, y))
        if Ctx.current is None:
            return old(x, y, bins, *a, **k)
        nb = [bins, bins] if isinstance(bins, int) else list(bins)
        S.check(nb == [2, 3], 'the number of bins is that asked for')
        h = np.empty((2, 3), dtype=object)
        for i in range(2):
            for j in range(3):
                h[i, j] = counts[i][j]
        return h, np.array([0.0, 1.0, 2.0]), np.array([0.0, 1.0, 2.0, 3.0])
    np.histogram2d = histogram2d
    kw = dict(xbins=2, ybins=3) if how == 'histogram2d' else {}
    try:
        if how is None:
            P.basic_plot(B, ax=ax, xaxis=A)
        else:
            P.multilayer_plot([A, B], how=how, ax=ax, **kw)
    finally:
        np.histogram2d = old
    S.check(label_ok(ax, 'raina', 'rainb'), 'the axes are labelled with what they show')
    if how == 'histogram2d':
        S.check(len(counted) == 1, 'the values are counted once')
        x, y = [plain(t).reshape(-1) for t in counted[0]]
        keep = [i for i in range(n) if not ma[i] and not mb[i]]
        S.check(x.size == y.size == len(keep), 'every pair without missing values is counted once')
        for k, i in enumerate(keep):
            S.check(not masked_at(x, k) and not masked_at(y, k) and S.eq(val_at(x, k), va[i]) & S.eq(val_at(y, k), vb[i]),
                    'the pairs counted are those of the data')
        draws = [c for c in ax.calls if c[0] in ('pcolor', 'pcolormesh')]
        S.check(len(draws) == 1, 'the counts are drawn once')
        if S.symbolic:
            X, Y, Z = [plain(t) for t in draws[0][1][:3]]
            S.check(X.shape == (3,) and Y.shape == (4,) and Z.shape == (3, 2), 'each count has its bin')
            for i in range(2):
                for j in range(3):
                    c = counts[i][j]
                    if masked_at(Z[j], i):
                        S.check(S.eq(c, 0), 'bins with values in them are drawn')
                    else:
                        S.check(S.eq(Z[j, i], c), 'the counts drawn are those of the bins')
        return
    draws = [c for c in ax.calls if c[0] in ('plot', 'scatter')]
    S.check(len(draws) >= 1, 'the points are drawn')
    name, a, k = draws[0]
    X, Y = plain(a[0]).reshape(-1), plain(a[1]).reshape(-1)
    S.check(X.size == Y.size == n, 'every pair is drawn')
    for i in range(n):
        S.check(same_value(S, X, i, va[i], ma[i]) and same_value(S, Y, i, vb[i], mb[i]), 'each value is drawn against its counterpart')


def units(S, cfg):
    """times in other units, on both kinds of plot"""
    for unit, per_day in (('hours since 2000-01-01', 24.0), ('seconds since 1970-01-01', 86400.0), ('days since 1900-01-01', 1.0)):
        t = cubes.axis(S, 't', 2, 0, 1000)[0]
        since = datetime.date(int(unit.split('since ')[1][:4]), 1, 1).toordinal() - datetime.date(1970, 1, 1).toordinal()
        v = S.reals('v', 4, -100, 100)
        ax = Drawn()
        d = cubes.cube(S, v, [cubes.dim(S, 'altitude', [1.0, 2.0]), cubes.dim(S, 'time', t, units=cf_units.Unit(unit, calendar='standard'))])
        P.basic_plot(d, how='contour', ax=ax, xaxis='time', yaxis='altitude')
        X = plain(ax.calls[0][1][0])
        X = X if X.ndim == 1 else X[0]
        for i in range(2):
            e = X[i] - (t[i] / per_day + since)
            S.check((e < 1e-6) & (e > -1e-6), 'times are drawn where they are')
        ax = Drawn()
        P.basic_plot(d[0], how='line', ax=ax, xaxis='time')
        X = plain(ax.calls[0][1][0])
        for i in range(2):
            e = X[i] - (t[i] / per_day + since)
            S.check((e < 1e-6) & (e > -1e-6), 'times are drawn where they are')


HARNESSES = {'grid': grid, 'globe': globe, 'hybrid': hybrid, 'profile': profile, 'points': points, 'pair': pair, 'layers': layers, 'figure': figure, 'map_limits': map_limits,
             'units': units}
