"""C41: each command does with the files, options and output given what its operation does."""
import contextlib
import io
import os
import sys
import numpy as np
import iris
import iris.coords
import iris.cube
from symx import fakeiris, fakenc, cubes, regular, dates as D
from symx.build import quiet_metadata, STUB_NOTE
from symx.engine import Ctx
from symx.harness import masked_at, val_at
import logging.config
import scipy.stats.mstats as mst
import cis
import cis.cis_main as M
from cis import time_util as T
import cis.exceptions as ex

fakenc.install()
quiet_metadata()
D.install_units()
STUBS = [fakenc.NOTE, fakeiris.NOTE, STUB_NOTE, cubes.STUB_NOTE, 'iris.save keeps the cubes it is given for iris.load',
         'scipy.stats.mstats.linregress and spearmanr give fixed numbers while exploring']
BOUNDS = {'quick': 'files of up to 3 points or 2x2 grids with any values, coordinates and missing flags, 1-2 variables; commands of a '
                   'list of texts with every option of the command', 'thorough': 'up to 4 points and 3x2 grids'}
OUTSIDE = 'plot (its figures: C39); product plugins other than cis and NetCDF_Gridded; what the texts of options mean (C29)'
ASSUMPTIONS = []

logging.config.fileConfig = lambda *a, **k: None        # no log files
if not getattr(iris, '_symx_save', False):
    iris._symx_save = iris.save
    _fileformats = None

    def save(source, target, *a, **k):
        if Ctx.current is None:
            return iris._symx_save(source, target, *a, **k)
        cs = [source] if isinstance(source, iris.cube.Cube) else list(source)
        fakeiris.FILES[str(target)] = [c.copy() for c in cs]
        open(str(target), 'w').close()
        fakenc._made.append(str(target))
    iris.save = save
LIM = {'x': 'longitude', 'y': 'latitude', 'z': 'altitude', 't': 'time', 'p': 'air_pressure'}
ATTR = {'source': 'CIS1.7'}
UNIT = {'latitude': 'degrees_north', 'longitude': 'degrees_east', 'altitude': 'm', 'air_pressure': 'hPa'}


def configs(tier):
    N = 3 if tier == 'quick' else 4
    out = []
    for n in (1, N):
        for k, (args, box) in enumerate(SUB):
            out.append(dict(harness='subset', n=n, args=args, box=box, nv=1 if k % 2 else 2, mask=k % 3 == 0, _w=n))
    for args, box in GSUB:
        for nv in (1, 2):
            out.append(dict(harness='subset_grid', args=args, box=box, nv=nv))
    for kern in (None, 'mean', 'max', 'min', 'sum', 'moments'):
        for args, cells in AGG:
            if tier == 'quick' and kern in (None, 'moments') and (kern is None) == (len(cells) > 1):
                continue
            out.append(dict(harness='aggregate', n=2, kernel=kern, args=args, cells=cells, nv=2 if kern == 'sum' else 1, _w=20 if kern in (None, 'sum') else 5))
    for cmd in ('collapse', 'aggregate'):
        for kern in (None, 'mean', 'max', 'min', 'sum') if cmd == 'collapse' or tier != 'quick' else (None, 'max'):
            for dims in ('t', 'x', 'time,longitude') if tier == 'quick' else ('t', 't,x', 'x', 'time,longitude'):
                out.append(dict(harness='collapse', cmd=cmd, kernel=kern, dims=dims, nv=2 if kern == 'max' and (dims == 'x' or tier != 'quick') else 1, _w=2))
    for kind in ('groups', 'grid', 'points', 'empty', 'samefile', 'nofile', 'novar'):
        out.append(dict(harness='refused', kind=kind))
    for expr in EVAL:
        out.append(dict(harness='evaluate', expr=expr, n=N, outvar=None if len(expr) % 2 else 'res', attrs=len(expr) % 3 == 0))
    for kern in ('mean', 'max', 'min', 'nn_h', 'moments', None):
        for var in (False, True):
            for mds in (None, 'TRUE', 'True', 'false'):
                for nv in (1, 2):
                    if nv == 2 and (kern != 'max' or mds):
                        continue
                    if mds and (kern not in ('mean', 'nn_h') or tier == 'quick' and var == (mds == 'True')):
                        continue
                    if nv == 2 and var and tier == 'quick':
                        continue
                    out.append(dict(harness='col', kernel=kern, var=var, mds=mds, groups=nv, n=2, _w=3 if nv == 1 else 30))
    for how in ('bin', None):
        for kern in ('mean', 'max', 'sum'):
            out.append(dict(harness='col_bin', kernel=kern, how=how, n=2))
    for how in ('nn', 'lin'):
        for extrap in (None, 'True', 'False'):
            for var in (False, True):
                out.append(dict(harness='col_grid', how=how, extrapolate=extrap, var=var, n=2))
    for o in (False, True):
        for n in (2, N):
            out.append(dict(harness='stats', n=n, save=o))
    for names in (None, ('rain',), ('snow',), ('rain', 'snow'), ('snow', 'rain')):
        out.append(dict(harness='info', names=names, n=2))
    return out


def run(args, main=False):
    """-> what was printed"""
    b = io.StringIO()
    old = sys.argv
    sys.argv = ['cis'] + list(args)
    try:
        with contextlib.redirect_stdout(b), contextlib.redirect_stderr(io.StringIO()):
            if main:
                M.main()
            else:
                M.parse_and_run_arguments(list(args))
    finally:
        sys.argv = old
    return b.getvalue()


NAMES = ('rain', 'snow', 'hail')


class Points(object):
    """a file of points"""
    def __init__(self, S, n, nv=1, mask=False, dims=('latitude', 'longitude', 'altitude'), p='', fixed=None, ranges=None, names=NAMES):
        r = dict(latitude=(-90, 90), longitude=(-180, 179), altitude=(0, 1000), air_pressure=(1, 1000))
        r.update(ranges or {})
        self.n, self.dims, self.nv, self.names = n, dims, nv, names
        self.co = {d: (fixed or {}).get(d) or S.reals(p + d[:3], n, *r[d]) for d in dims}
        self.vals = [S.reals(p + 'v%d_' % k, n, -1000, 1000) for k in range(nv)]
        self.miss = [[S.bool(p + 'm%d_%d' % (k, i)) if mask and (k == 0 or i == 0) else False for i in range(n)] for k in range(nv)]
        self.path = fakenc.path('c41' + p)
        vs = [(d, self.co[d], ('obs',), dict(standard_name=d, units=UNIT[d]), None) for d in dims]
        for k in range(nv):
            v = [-9999. if m else x for x, m in zip(self.vals[k], self.miss[k])]
            vs.append((names[k], v, ('obs',), dict(long_name=names[k].title(), units='mm', _FillValue=-9999.), None))
        fakenc.write(S, self.path, vs, attrs=ATTR)


def points(S, d, src, k, keep, what):
    """d holds the points of keep of variable k of the file"""
    S.check(d.data.size == len(keep) and tuple(d.shape) == (len(keep),), 'as many points as expected ' + what, lambda: '%s %s' % (d.data.size, len(keep)))
    f = d.data.reshape(-1)
    for o, i in enumerate(keep):
        S.check(masked_at(f, o) == bool(src.miss[k][i]), 'missing flags ' + what)
        if not src.miss[k][i]:
            S.check(S.near(val_at(f, o), src.vals[k][i]), 'values ' + what)
        for c in src.dims:
            x = val_at(d.coord(standard_name=c).data.reshape(-1), o)
            if c == 'longitude' and not S.eq(x, src.co[c][i]):
                S.check(S.near(abs(x - src.co[c][i]), 360), 'coordinates ' + what)
            else:
                S.check(S.eq(x, src.co[c][i]), 'coordinates ' + what)


# ---------------------------------------------------------------------- subset
SUB = [('x=[-10,40]', dict(longitude=(-10, 40))), ('y=[0,80],x=[-100,100]', dict(latitude=(0, 80), longitude=(-100, 100))),
       ('z=[100,500]', dict(altitude=(100, 500))), ('latitude=[-90,-20],altitude=[0,900.5]', dict(latitude=(-90, -20), altitude=(0, 900.5))),
       ('x=[350,370]', dict(longitude=(-10, 10))), ('y=[10]', dict(latitude=(10, 10)))]


def subset(S, cfg):
    fakeiris.fresh()
    src = Points(S, cfg['n'], cfg['nv'], cfg['mask'])
    out = fakenc.path('c41out')
    keep = [i for i in range(src.n) if all(src.co[d][i] >= lo and src.co[d][i] <= hi for d, (lo, hi) in cfg['box'].items())]
    names = src.names[:src.nv]
    try:
        run(['subset', '%s:%s' % (','.join(names), src.path), cfg['args'], '-o', out])
    except ex.NoDataInSubsetError:
        S.check(not keep, 'only an empty subset is refused')
        S.check(not os.path.exists(out), 'without output')
        return
    S.check(bool(keep), 'an empty subset is refused')
    for k, v in enumerate(names):
        points(S, cis.read_data(out, v), src, k, keep, 'of the subset')


AX = {'latitude': [-30., 0., 45.], 'longitude': [-90., 0., 100.], 'altitude': [10., 100., 500.]}


def axis(d, p):
    std = d if d in cubes.UNITS else None
    return iris.coords.DimCoord(np.array(p), standard_name=std, var_name=d[:3], units=cubes.UNITS[d])


class Grid(object):
    """a file of gridded data"""
    def __init__(self, S, nv=1, sizes=(2, 2), dims=('latitude', 'longitude'), mask=True, p='', time=False):
        self.dims, self.nv, self.sizes = dims, nv, sizes
        self.ax = {d: AX[d][:m] if d in AX else [float(i) + 10 for i in range(m)] for d, m in zip(dims, sizes)}
        size = int(np.prod(sizes))
        self.vals = [S.reals(p + 'v%d_' % k, size, -1000, 1000) for k in range(nv)]
        self.miss = [[S.bool(p + 'm%d_%d' % (k, i)) if mask and i < (3 if k == 0 else 1) else False for i in range(size)] for k in range(nv)]
        cs = []
        for k in range(nv):
            a = S.marray(self.vals[k], self.miss[k], sizes)
            if not S.symbolic:
                np.ma.set_fill_value(a, -9999.)
            cs.append(iris.cube.Cube(a, var_name=NAMES[k], long_name=NAMES[k].title(), units='mm',
                                     dim_coords_and_dims=[(axis(d, self.ax[d]), i) for i, d in enumerate(dims)]))
        self.path = fakeiris.write(S, cs, 'c41g' + p)

    def at(self, k, ix):
        i = int(np.ravel_multi_index(ix, self.sizes))
        return np.ma.masked if self.miss[k][i] else self.vals[k][i]


def read(path, name):
    return cis.read_data(path, name, product='NetCDF_Gridded')


def gridded(S, d, dims, ax, data, what):
    S.check([c.name() for c in d.coords(dim_coords=True)] == list(dims), 'the dimensions ' + what, lambda: str(d.summary(True)))
    for n in dims:
        p = d.coord(n).points
        S.check(len(p) == len(ax[n]) and all(bool(S.near(a, b)) for a, b in zip(p, ax[n])), 'the coordinates ' + what, lambda: str(p))
    a = np.ma.asarray(d.data)
    for ix in np.ndindex(*a.shape):
        v = data(ix)
        S.check(masked_at(a, ix) == (v is np.ma.masked), 'missing flags ' + what)
        if v is not np.ma.masked:
            S.check(S.near(val_at(a, ix), v), 'values ' + what)


GSUB = [('x=[-10,40]', dict(longitude=(-10, 40))), ('y=[0,80],x=[-100,100]', dict(latitude=(0, 80), longitude=(-100, 100))),
        ('y=[-40,10]', dict(latitude=(-40, 10))), ('y=[80,90]', dict(latitude=(80, 90)))]


def subset_grid(S, cfg):
    fakeiris.fresh()
    src = Grid(S, cfg['nv'], (3, 2))
    out = fakenc.path('c41out')
    keep = {d: [i for i, x in enumerate(src.ax[d]) if cfg['box'].get(d, (-999, 999))[0] <= x <= cfg['box'].get(d, (-999, 999))[1]] for d in src.dims}
    names = NAMES[:src.nv]
    empty = not all(keep.values())
    try:
        run(['subset', '%s:%s:product=NetCDF_Gridded' % (','.join(names), src.path), cfg['args'], '-o', out])
        S.check(not empty, 'an empty subset is refused')
    except ex.NoDataInSubsetError:
        S.check(empty, 'only an empty subset is refused')
        S.check(not os.path.exists(out), 'without output')
        return
    for k, v in enumerate(names):
        d = read(out, v)
        dims = [x for x in src.dims if len(keep[x]) > 1]
        full = lambda ix: src.at(k, tuple(keep[x][ix[dims.index(x)]] if x in dims else keep[x][0] for x in src.dims))
        d = iris.util.squeeze(d)
        gridded(S, d, dims, {x: [src.ax[x][i] for i in keep[x]] for x in src.dims}, full, 'of the subset')


# ---------------------------------------------------------------------- aggregate, collapse
AGG = [('x=[0,20,10]', dict(longitude=[(0, 10), (10, 20)])), ('y=[-10,10,20],x=[0,40,20]', dict(latitude=[(-10, 10)], longitude=[(0, 20), (20, 40)]))]


def summary(S, kern, v, got, what):
    """got: the arrays' values of the kernel"""
    if kern in (None, 'moments', 'mean'):
        S.check(S.near(got[0], sum(v) / len(v)), 'the mean ' + what)
    if kern == 'sum':
        S.check(S.near(got[0], sum(v)), 'the sum ' + what)
    if kern in ('max', 'min'):
        m = v[0]
        for x in v[1:]:
            m = (x if x > m else m) if kern == 'max' else (x if x < m else m)
        S.check(S.near(got[0], m), 'the extreme value ' + what)


def aggregate(S, cfg):
    fakeiris.fresh()
    kern = cfg['kernel']
    two = len(cfg['cells']) > 1
    src = Points(S, cfg['n'], cfg['nv'], True, dims=('latitude', 'longitude'), ranges=dict(latitude=(-20, 20), longitude=(-10, 50)),
                 fixed=dict(latitude=[-5., 8., 12.][:cfg['n']]) if two else dict(latitude=[0.] * cfg['n']))
    out = fakenc.path('c41out')
    names = src.names[:src.nv]
    grp = '%s:%s' % (','.join(names), src.path) + (':kernel=' + kern if kern else '')
    run(['aggregate', grp, cfg['args'], '-o', out])
    cells = cfg['cells']
    dims = [d for d in ('latitude', 'longitude') if d in cells]
    for k, v in enumerate(names):
        d = read(out, v)
        more = [read(out, v + s) for s in ('_std_dev', '_num_points')] if kern in (None, 'moments') else []
        many = [x for x in dims if len(cells[x]) > 1]
        for c in [d] + more:
            for x in dims:
                p = np.ravel(c.coord(x).points)
                S.check(len(p) == len(cells[x]) and all(bool(S.near(a, (lo + hi) / 2.)) for a, (lo, hi) in zip(p, cells[x])), 'the cells are those asked for')
            S.check(int(np.prod(c.shape)) == int(np.prod([len(cells[x]) for x in dims])), 'one value per cell')
        for ix in np.ndindex(*[len(cells[x]) for x in dims]):
            ins = [i for i in range(src.n) if not src.miss[k][i] and
                   all(bool(src.co[x][i] >= cells[x][j][0]) and bool(src.co[x][i] < cells[x][j][1]) for x, j in zip(dims, ix))]
            at = int(np.ravel_multi_index(ix, [len(cells[x]) for x in dims]))
            f = [np.ma.asarray(c.data).reshape(-1) for c in [d] + more]
            if not ins:
                S.check(masked_at(f[0], at), 'a cell without points is missing')
                continue
            S.check(not masked_at(f[0], at), 'a cell with points has a value')
            summary(S, kern, [src.vals[k][i] for i in ins], [val_at(f[0], at)], 'of the points in the cell')
            if more:
                S.check(not masked_at(f[2], at) and S.eq(val_at(f[2], at), len(ins)), 'the number of points in the cell')
                S.check(masked_at(f[1], at) == (len(ins) < 2), 'the deviation needs two points')


def collapse(S, cfg):
    fakeiris.fresh()
    kern = cfg['kernel']
    src = Grid(S, cfg['nv'], (2, 2, 1), ('time', 'longitude', 'latitude'))
    out = fakenc.path('c41out')
    names = NAMES[:src.nv]
    col = {'t': 'time', 'x': 'longitude', 'y': 'latitude'}
    gone = [col.get(x, x) for x in cfg['dims'].split(',')]
    grp = '%s:%s:product=NetCDF_Gridded' % (','.join(names), src.path) + (',kernel=' + kern if kern else '')
    run([cfg['cmd'], grp, cfg['dims'], '-o', out])
    left = [d for d in src.dims if d not in gone]
    for k, v in enumerate(names):
        d = read(out, v)
        n = [read(out, v + '_num_points')] if kern in (None, 'moments') else []
        for ix in np.ndindex(*[src.sizes[src.dims.index(x)] for x in left]):
            ins = []
            for full in np.ndindex(*src.sizes):
                if all(full[src.dims.index(x)] == j for x, j in zip(left, ix)) and src.at(k, full) is not np.ma.masked:
                    ins.append(src.at(k, full))
            at = int(np.ravel_multi_index(ix, [src.sizes[src.dims.index(x)] for x in left]))
            f = np.ma.asarray(d.data).reshape(-1)
            S.check(masked_at(f, at) == (not ins), 'missing without points')
            if ins:
                summary(S, kern, ins, [val_at(f, at)], 'of the points collapsed')
                for c in n:
                    S.check(S.eq(val_at(np.ma.asarray(c.data).reshape(-1), at), len(ins)), 'the number of points')
        for x in gone:
            S.check(np.size(d.coord(x).points) == 1, 'the dimension is collapsed')
        for x in left:
            p = np.ravel(d.coord(x).points)
            S.check(len(p) == len(src.ax[x]) and all(bool(S.near(a, b)) for a, b in zip(p, src.ax[x])), 'the other dimensions are kept')


def refused(S, cfg):
    fakeiris.fresh()
    kind = cfg['kind']
    p, g = Points(S, 2, 1, p='p'), Grid(S, 1, p='g')
    out = fakenc.path('c41out')
    gp = 'rain:%s:product=NetCDF_Gridded' % g.path
    pp = 'rain:%s' % p.path
    args = dict(groups=[['subset', pp, pp, 'x=[0,1]'], ['aggregate', pp, pp, 'x=[0,20,10]'], ['collapse', gp, gp, 't'], ['aggregate', gp, gp, 'x']],
                grid=[['aggregate', gp, 'x=[0,20,10]'], ['aggregate', gp, 'x,y=[0,20,10]']],
                points=[['collapse', pp, 'x'], ['collapse', pp + ':kernel=mean', 'x,y']],
                empty=[['aggregate', pp, ''], ['subset', pp, ''], ['collapse', gp, '']],
                samefile=[['subset', pp, 'x=[0,1]', 'SAME'], ['aggregate', pp, 'x=[0,20,10]', 'SAME'], ['eval', pp, 'rain+1', '1', 'SAME']],
                nofile=[['subset', 'rain:' + p.path + '.not', 'x=[0,1]'], ['info', p.path + '.not'], ['stats', pp, 'rain:/nosuch.nc']],
                novar=[['subset', 'hail:' + p.path, 'x=[0,1]'], ['aggregate', 'hail:' + g.path + ':product=NetCDF_Gridded', 'x'],
                       ['subset', 'rain,hail:' + p.path, 'x=[-180,180]'], ['eval', 'hail:' + p.path, 'hail', '1']])[kind]
    a = S.choice('command', args)
    o = out
    if a[-1] == 'SAME':
        a, o = a[:-1], p.path
    before = os.stat(p.path).st_mtime_ns, os.stat(g.path).st_mtime_ns
    try:
        run(a + (['-o', o, '--force-overwrite'] if a[0] in ('subset', 'aggregate', 'collapse', 'eval') else []), main=True)
        done = True
    except SystemExit as e:
        done = e.code in (0, None)
    S.check(not done, 'the command is refused')
    S.check(not os.path.exists(out), 'without output')
    S.check((os.stat(p.path).st_mtime_ns, os.stat(g.path).st_mtime_ns) == before, 'the input files are left alone')


# ---------------------------------------------------------------------- eval
EVAL = {'rain + snow': lambda a, b: a + b, '2*rain - snow / 4': lambda a, b: a * 2 - b / 4, 'rain': lambda a, b: a, 'snow*3': lambda a, b: b * 3,
        'numpy.abs(rain)': lambda a, b: abs(a), '(-1)*snow': lambda a, b: -b}


def evaluate(S, cfg):
    fakeiris.fresh()
    expr = cfg['expr']
    src = Points(S, cfg['n'], 2, True, dims=('latitude', 'longitude'))
    out = fakenc.path('c41out')
    grp = ['rain,snow:%s' % src.path] if cfg['n'] % 2 else ['rain:%s' % src.path, 'snow:%s' % src.path]
    e = expr
    if S.bool('alias'):
        grp = [g.replace('rain', 'rain=a1').replace('snow', 'snow=b1') for g in grp]
        e = expr.replace('rain', 'a1').replace('snow', 'b1')
    run(['eval'] + grp + [e, 'km', '-o', (cfg['outvar'] + ':' if cfg['outvar'] else '') + out] + (['--attributes', 'long_name=The result,note=ok'] if cfg['attrs'] else []))
    name = cfg['outvar'] or 'calculated_variable'
    d = cis.read_data(out, name)
    S.check(d.var_name == name and str(d.units) == 'km', 'the name and units asked for')
    if cfg['attrs']:
        S.check(d.metadata.misc.get('note') == 'ok', 'the attributes asked for')
    f = d.data.reshape(-1)
    S.check(f.size == src.n, 'the points of the data')
    for i in range(src.n):
        miss = (src.miss[0][i] and 'rain' in expr) or (src.miss[1][i] and 'snow' in expr)
        S.check(masked_at(f, i) == bool(miss), 'a result is missing exactly if an operand is')
        if not miss:
            S.check(S.near(val_at(f, i), EVAL[expr](src.vals[0][i], src.vals[1][i])), 'the value of the expression')
        for c in src.dims:
            S.check(S.eq(val_at(d.coord(standard_name=c).data.reshape(-1), i), src.co[c][i]), 'the coordinates of the data')


# ---------------------------------------------------------------------- collocation
def col(S, cfg):
    """points onto points: altitudes within 100 m"""
    fakeiris.fresh()
    n, kern = cfg['n'], cfg['kernel']
    dims = ('latitude', 'longitude', 'altitude')
    one = [10.0] * 3
    fx = dict(latitude=one[:n], longitude=one[:n])
    near = kern == 'nn_h'
    data = Points(S, n, cfg['groups'], True, dims, 'd', fixed=dict(fx, latitude=[10.0, 10.3]) if near else fx)
    smp = Points(S, 2, 1, True, dims, 's', fixed=dict(latitude=[10.01, 10.29], longitude=one[:2]) if near else dict(latitude=one[:2], longitude=one[:2]), names=('soot',))
    out = fakenc.path('c41out')
    opts = ['collocator=box[a_sep=100%s]' % (',missing_data_for_missing_sample=' + cfg['mds'] if cfg['mds'] else '')]
    if kern:
        opts.append('kernel=' + kern)
    if cfg['var']:
        opts.append('variable=soot')
    if S.bool('order'):
        opts = opts[::-1]
    groups = ['%s:%s' % (v, data.path) for v in data.names[:cfg['groups']]]
    run(['col'] + groups + [smp.path + ':' + ','.join(opts), '-o', out])
    skip = (cfg['mds'].lower() == 'true' if cfg['mds'] else True) and cfg['var']
    for k in range(cfg['groups']):
        v = data.names[k]
        d = cis.read_data(out, v)
        more = [cis.read_data(out, v + s) for s in ('_std_dev', '_num_points')] if kern in (None, 'moments') else []
        f = d.data.reshape(-1)
        for o in range(2):
            for c in dims:
                S.check(S.eq(val_at(d.coord(standard_name=c).data.reshape(-1), o), smp.co[c][o]), 'at the points of the sample')
            ins = [i for i in range(n) if not data.miss[k][i] and abs(data.co['altitude'][i] - smp.co['altitude'][o]) < 100]
            if not ins or (skip and smp.miss[0][o]):
                S.check(masked_at(f, o), 'missing without data or sample')
                continue
            S.check(not masked_at(f, o), 'a value where there are data')
            w = [data.vals[k][i] for i in ins]
            if near:
                S.check(S.near(val_at(f, o), data.vals[k][o] if o in ins else w[0]), 'the horizontally nearest')
            else:
                summary(S, kern, w, [val_at(f, o)], 'of the points in the box')
            if more:
                S.check(S.eq(val_at(more[1].data.reshape(-1), o), len(ins)), 'the number of points in the box')


def col_bin(S, cfg):
    """points onto a grid"""
    fakeiris.fresh()
    n, kern = cfg['n'], cfg['kernel']
    data = Points(S, n, 1, True, ('latitude', 'longitude'), 'd', ranges=dict(longitude=(-130, 40)), fixed=dict(latitude=[-20., 5.]))
    smp = Grid(S, 1, (2, 2), p='s', mask=False)
    out = fakenc.path('c41out')
    opts = ['variable=rain', 'product=NetCDF_Gridded', 'kernel=' + kern] + (['collocator=' + cfg['how']] if cfg['how'] else [])
    run(['col', 'rain:' + data.path, smp.path + ':' + ','.join(opts), '-o', out])
    d = read(out, 'rain')
    cells = dict(latitude=[(-45, -15), (-15, 15)], longitude=[(-135, -45), (-45, 45)])

    def want(ix):
        ins = [i for i in range(n) if not data.miss[0][i] and all(bool(data.co[c][i] >= cells[c][j][0]) and bool(data.co[c][i] < cells[c][j][1])
                                                                  for c, j in zip(('latitude', 'longitude'), ix))]
        v = [data.vals[0][i] for i in ins]
        if not v:
            return np.ma.masked
        if kern == 'max':
            return v[0] if len(v) == 1 or v[0] >= v[1] else v[1]
        return sum(v) if kern == 'sum' else sum(v) / len(v)
    gridded(S, d, ('latitude', 'longitude'), smp.ax, want, 'on the grid')


def col_grid(S, cfg):
    """a grid onto points"""
    fakeiris.fresh()
    n = cfg['n']
    data = Grid(S, 1, (2,), ('latitude',), mask=False, p='d')
    smp = Points(S, n, 1, True, ('latitude', 'longitude'), 's', names=('soot',))
    out = fakenc.path('c41out')
    o = [] if not cfg['extrapolate'] else ['extrapolate=' + cfg['extrapolate']]
    opts = 'collocator=' + cfg['how'] + ('[%s]' % ','.join(o) if o else '') + (',variable=soot' if cfg['var'] else '')
    run(['col', 'rain:%s:product=NetCDF_Gridded' % data.path, smp.path + ':' + opts, '-o', out])
    d = cis.read_data(out, 'rain')
    f = d.data.reshape(-1)
    a, b = data.ax['latitude']
    u, v = data.vals[0]
    for i in range(n):
        y = smp.co['latitude'][i]
        if not S.symbolic and abs(y - (a + b) / 2) < 1e-6:
            continue
        S.assume(y != (a + b) / 2)
        inside = y >= a and y <= b
        gone = (cfg['var'] and smp.miss[0][i]) or not (inside or cfg['extrapolate'] == 'True')
        S.check(masked_at(f, i) == bool(gone), 'missing outside of the grid unless extrapolating and where the sample is')
        if not gone:
            S.check(S.near(val_at(f, i), (u if y < (a + b) / 2 else v) if cfg['how'] == 'nn' else u + (v - u) * (y - a) / (b - a)), 'the value of the grid at the point')
        for c in smp.dims:
            S.check(S.eq(val_at(d.coord(standard_name=c).data.reshape(-1), i), smp.co[c][i]), 'at the points of the sample')


# ---------------------------------------------------------------------- stats, info
def stats(S, cfg):
    fakeiris.fresh()
    n = cfg['n']
    src = Points(S, n, 2, True, ('latitude', 'longitude'))
    for x in src.vals[0]:
        S.assume(abs(x) >= 1)
    both = [i for i in range(n) if not src.miss[0][i] and not src.miss[1][i]]
    S.assume(len(both) > 1)
    for i in both[1:]:
        S.assume(abs(src.vals[0][i] - src.vals[0][both[0]]) >= 1)
    for i in both[2:]:
        S.assume(abs(src.vals[0][i] - src.vals[0][both[1]]) >= 1)
    out = fakenc.path('c41out')
    old = mst.linregress, mst.spearmanr
    if S.symbolic:
        mst.linregress = lambda x, y: (1., 2., 0.5, 0.5, 0.5)
        mst.spearmanr = lambda x, y: (0.5, 0.5)
    try:
        grp = ['rain,snow:' + src.path] if n > 2 else ['rain:' + src.path, 'snow:' + src.path]
        text = run(['stats'] + grp + (['-o', out] if cfg['save'] else []))
    finally:
        mst.linregress, mst.spearmanr = old
    S.check('Number of points: %d\n' % len(both) in text, 'the number of points compared is printed', text)
    S.check(os.path.exists(out) == cfg['save'], 'a file is written if asked for')
    if not cfg['save']:
        return
    x, y = [src.vals[0][i] for i in both], [src.vals[1][i] for i in both]
    for name, want in (('num_points', len(both)), ('dataset_mean_1', sum(x) / len(x)), ('dataset_mean_2', sum(y) / len(y)),
                       ('abs_mean', sum([b - a for a, b in zip(x, y)]) / len(x)), ('rel_mean', sum([(b - a) / a for a, b in zip(x, y)]) / len(x))):
        S.check(S.near(np.ma.asarray(read(out, name).data).reshape(-1)[0], want), name + ' is saved')
    if S.symbolic:
        for name, want in (('regression_gradient', 1), ('regression_intercept', 2), ('spearman', 0.5)):
            S.check(S.near(np.ma.asarray(read(out, name).data).reshape(-1)[0], want), name + ' is saved')


def info(S, cfg):
    fakeiris.fresh()
    src = Points(S, cfg['n'], 2, False, ('latitude', 'longitude'))
    names = cfg['names']
    if names is None:
        text = run(['info', src.path]).split('\n')
        S.check(set(t for t in text if t) == {'rain', 'snow', 'latitude', 'longitude'}, 'every variable of the file is listed', str(text))
        return
    if S.symbolic:
        got = []
        A = sys.modules['cis.data_io.products.AProduct']
        o = A.get_data

        def get(*a, **k):
            r = o(*a, **k)
            got.append(r)
            return r.var_name
        A.get_data = get
        try:
            text = run(['info', '%s:%s' % (','.join(names), src.path)])
        finally:
            A.get_data = o
        S.check([d.var_name for d in got] == list(names), 'the variables asked for are read')
        for d in got:
            points(S, d, src, NAMES.index(d.var_name), range(src.n), 'described')
        S.check(text.split() == list(names), 'and printed')
    else:
        text = run(['info', '%s:%s' % (','.join(names), src.path)])
        at = [text.find('Ungridded data: %s' % n.title()) for n in names]
        S.check(all(n.title() in text or n in text for n in names), 'the variables asked for are printed')
        S.check('Shape = (%d,)' % src.n in text, 'with their shape', text)


HARNESSES = dict(subset=subset, subset_grid=subset_grid, aggregate=aggregate, collapse=collapse, refused=refused, evaluate=evaluate, col=col, col_bin=col_bin,
                 col_grid=col_grid, stats=stats, info=info)
