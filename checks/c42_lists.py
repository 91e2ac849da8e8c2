"""C42: operations on lists of data do to each of the variables what they do to one."""
import numpy as np
import iris
import iris.analysis
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx import cubes, regular
from symx.engine import Ctx
from symx.harness import masked_at, val_at
from cis.data_io.gridded_data import GriddedData, GriddedDataList
from cis.exceptions import CISError

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE, regular.STUB_NOTE, "iris' interpolate and regrid (numerical code which does not take symbolic "
         'values) are replaced by a stand-in which applies a known function of the data and of their arguments']
BOUNDS = {'quick': 'lists of up to 3 variables of up to 4 cells / points, two coordinates',
          'thorough': 'up to 3 variables of up to 6 cells / points'}
OUTSIDE = 'interpolation itself (C12), the text of histories, lists whose variables have different coordinates'
ASSUMPTIONS = ['what an operation does to one variable is what the other properties say']

GOPS = ('collapsed', 'collapsed2', 'moments', 'stats', 'subset', 'subsetval', 'subsetempty', 'interpolate', 'regrid',
        'intersection', 'extract', 'extractnone', 'transpose', 'transpose2', 'aggregated_by', 'add_aux', 'add_dim',
        'remove', 'accessors', 'slices', 'add', 'points_lin', 'points_nn', 'grid_lin')
UOPS = ('subset', 'subsetval', 'aggregate', 'moments', 'points', 'copy', 'frame', 'accessors', 'slices', 'col_nn',
        'col_bin', 'col_box')


def configs(tier):
    big = tier != 'quick'
    out = []
    for op in GOPS:
        for nv in (1, 2, 3):
            for sh in (((2, 2),) if not big else ((2, 2), (2, 3))):
                if nv == 3 and op in ('subset', 'subsetval', 'collapsed2', 'moments', 'stats', 'points_lin',
                                     'points_nn') and not big:
                    continue
                out.append(dict(harness='gridded', op=op, nv=nv, shape=sh))
    for op in UOPS:
        for nv in (1, 2, 3):
            for n in ((2,) if not big else (2, 3)):
                if nv == 3 and not big and op in ('aggregate', 'moments'):
                    continue
                out.append(dict(harness='ungridded', op=op, nv=nv, n=n, _w=4 if op in ('aggregate', 'moments') else 2))
    return out


# ---- comparing ----

def same_arrays(S, a, b, where):
    S.check(np.shape(a) == np.shape(b), 'shapes ' + where, '%s %s' % (np.shape(a), np.shape(b)))
    a, b = a.reshape(-1), b.reshape(-1)
    for i in range(len(a)):
        S.check(masked_at(a, i) == masked_at(b, i), 'missing flags ' + where)
        if not masked_at(a, i):
            x, y = val_at(a, i), val_at(b, i)
            if isinstance(y, (str, bytes)) or isinstance(x, (str, bytes)):
                S.check(x == y, 'values ' + where)
            else:
                S.check(S.eq(x, y), 'values ' + where)


def same_coord(S, a, b, where):
    S.check((a.standard_name, a.long_name, a.var_name, str(a.units)) ==
            (b.standard_name, b.long_name, b.var_name, str(b.units)), 'the names and units of the coordinates ' + where)
    same_arrays(S, a.points, b.points, 'of coordinates ' + where)
    if hasattr(b, 'has_bounds'):
        S.check(a.has_bounds() == b.has_bounds(), 'bounds of coordinates ' + where)
        if b.has_bounds():
            same_arrays(S, a.bounds, b.bounds, 'of bounds ' + where)


def same(S, a, b, where):
    S.check(type(a) is type(b), 'the type of the result ' + where, '%s %s' % (type(a), type(b)))
    S.check((a.var_name, a.long_name, a.standard_name, str(a.units)) ==
            (b.var_name, b.long_name, b.standard_name, str(b.units)), 'the names and units ' + where)
    same_arrays(S, a.data, b.data, where)
    ca, cb = list(a.coords()), list(b.coords())
    S.check([c.name() for c in ca] == [c.name() for c in cb], 'the coordinates ' + where)
    for x, y in zip(ca, cb):
        same_coord(S, x, y, where)
        if isinstance(b, GriddedData):
            S.check(a.coord_dims(x) == b.coord_dims(y), 'the dimensions of coordinates ' + where)
    if isinstance(b, GriddedData):
        S.check([c.name() for c in a.dim_coords] == [c.name() for c in b.dim_coords], 'dimension coordinates ' + where)
        S.check({k: v for k, v in a.attributes.items() if k != 'history'} ==
                {k: v for k, v in b.attributes.items() if k != 'history'}, 'attributes ' + where)
        S.check([str(c) for c in a.cell_methods] == [str(c) for c in b.cell_methods], 'cell methods ' + where)
    else:
        S.check({k: v for k, v in a.attributes.items() if k != 'history'} ==
                {k: v for k, v in b.attributes.items() if k != 'history'}, 'attributes ' + where)


def same_list(S, got, want, cls, where):
    """want: flat list of the results for each variable, None if there is nothing left"""
    if want is None:
        S.check(got is None, 'nothing is left of a list of which nothing is left ' + where)
        return
    S.check(type(got) is cls, 'the result is a list of data ' + where, str(type(got)))
    S.check(len(got) == len(want), 'as many results as for each of the variables ' + where, str(len(got)))
    for g, w in zip(got, want):
        same(S, g, w, where)


def flat(rs):
    out = []
    for r in rs:
        if isinstance(r, list):
            out += list(r)
        elif r is None:
            return None
        else:
            out.append(r)
    return out


# ---- gridded ----

NAMES = ('rain', 'snow', 'wind')


def gmake(S, cfg):
    """the variables of the list; calling again gives equal, independent data"""
    sh = cfg['shape']
    n = sh[0] * sh[1]
    lat, lon = S.reals('lat', sh[0], -80, 80), S.reals('lon', sh[1], 1, 170)
    if cfg['op'] in ('collapsed', 'moments', 'points_lin', 'points_nn', 'grid_lin'):
        lat, lon = [-30., 45., 70.][:sh[0]], [10., 100., 150.][:sh[1]]       # iris' areas are numerical code
    else:
        cubes.increasing(S, lat)
        cubes.increasing(S, lon)
    h = S.real('height', 0, 100)
    q = S.reals('q', sh[1], -10, 10)
    ds = [S.reals('d%d' % v, n, -100, 100) for v in range(cfg['nv'])]
    few = 1 if cfg['nv'] > 1 else 2
    ms = [S.missing('m%d' % v, few) + [False] * (n - few) for v in range(cfg['nv'])]

    def build():
        out = []
        for v in range(cfg['nv']):
            auxs = [(cubes.aux(S, 'level', [h]), ())]
            if cfg['op'] != 'grid_lin':
                auxs.append((cubes.aux(S, 'quality', q), (1,)))
                auxs.append((iris.coords.AuxCoord(np.array(['a', 'b', 'a'][:sh[1]]), long_name='season'), (1,)))
            if cfg['op'] in ('collapsed', 'moments', 'points_lin', 'points_nn'):
                dims = [iris.coords.DimCoord(np.array(p), k, units='degrees') for k, p in
                        (('latitude', lat), ('longitude', lon))]
            else:
                dims = [cubes.dim(S, 'latitude', lat), cubes.dim(S, 'longitude', lon)]
            c = cubes.cube(S, ds[v], dims, ms[v], auxs,
                           name=NAMES[v], units=('1', 'kg', 'm')[v])
            c.attributes['note'] = 'note %d' % v
            out.append(c)
        return out
    return build, dict(lat=lat, lon=lon, q=q, ds=ds)


class Standin(object):
    """the numerical code of iris"""
    def __enter__(self):
        C = iris.cube.Cube
        self.old = C.interpolate, C.regrid

        def interpolate(cube, points, scheme, collapse_scalar=True):
            r = cube.copy(data=cube.data * 2 + scheme)
            r.attributes['points'] = str([k for k, _ in points]) + str(collapse_scalar)
            r.data[0, 0] = points[0][1]
            return r

        def regrid(cube, grid, scheme):
            r = cube.copy(data=cube.data * 3 + scheme)
            r.attributes['grid'] = grid.var_name
            return r
        C.interpolate, C.regrid = interpolate, regrid
        return self

    def __exit__(self, *a):
        iris.cube.Cube.interpolate, iris.cube.Cube.regrid = self.old


def refused(f):
    try:
        return f(), None
    except (ValueError, IndexError, CISError, iris.exceptions.IrisError) as e:
        return None, type(e)


def gridded(S, cfg):
    op = cfg['op']
    build, g = gmake(S, cfg)
    single, lst = build(), GriddedDataList(build())
    where = '(%s)' % op
    L = GriddedDataList
    S.check(type(lst) is L and len(lst) == cfg['nv'], 'a list of the variables')
    if op in ('collapsed', 'collapsed2', 'moments', 'stats'):
        how = {'collapsed': 'sum', 'collapsed2': 'max', 'moments': '', 'stats': 'mean'}[op]
        co = {'collapsed': ['latitude'], 'collapsed2': ['longitude', 'latitude'], 'moments': ['latitude'],
              'stats': 'longitude'}[op]
        want = flat([d.collapsed(co, how=how) for d in single])
        same_list(S, lst.collapsed(co, how=how), want, L, where)
    elif op in ('subset', 'subsetval', 'subsetempty'):
        lo, hi = S.real('lo', 0, 180), S.real('hi', 0, 180)
        S.assume(lo < hi)
        if op == 'subset':
            kw = dict(longitude=[lo, hi], latitude=[None, S.real('top', -90, 90)])
        elif op == 'subsetval':
            kw = dict(quality=[lo, hi])
        else:
            kw = dict(latitude=[S.real('b', 81, 82), 90])
        want, e1 = refused(lambda: [d.subset(**kw) for d in single])
        got, e2 = refused(lambda: lst.subset(**kw))
        S.check(e1 is e2, 'a subset of a list is refused like that of one variable', '%s %s' % (e1, e2))
        if e1 is None:
            if want[0] is None or any(w is None for w in want):
                S.check(got is None or any(x is None for x in got), 'nothing is left ' + where)
            else:
                same_list(S, got, flat(want), L, where)
    elif op in ('interpolate', 'regrid'):
        s = S.real('s', -10, 10)
        with Standin():
            if op == 'interpolate':
                p = S.real('p', -80, 80)
                want = [d.interpolate([('latitude', p)], s, collapse_scalar=False) for d in single]
                got = lst.interpolate([('latitude', p)], s, collapse_scalar=False)
            else:
                grid = single[0]
                want = [d.regrid(grid, s) for d in single]
                got = lst.regrid(grid, scheme=s)
        same_list(S, got, [w if isinstance(w, GriddedData) else GriddedData.make_from_cube(w) for w in want], L, where)
    elif op.startswith('points') or op.startswith('grid_'):
        if op == 'grid_lin':
            x = S.real('x', 10, 100)
            sample = cubes.cube(S, [1., 1.], [cubes.dim(S, 'longitude', [x, x + 10])])
        else:
            p = {'latitude': S.reals('plat', 1, -90, 90), 'longitude': S.reals('plon', 1, 5, 105)}
            if op == 'points_nn':
                S.assume(abs(p['latitude'][0] - 7.5) > 1e-3)      # half way: either is nearest
                S.assume(abs(p['longitude'][0] - 55) > 1e-3)
            sample = ug(S, [1.], CoordList([coord(S, k, p[k]) for k in p]))
        want = flat([d.collocated_onto(sample, how=op[-3:].strip('_')) for d in single])
        got = lst.collocated_onto(sample, how=op[-3:].strip('_'))
        same_list(S, got, want, GriddedDataList if op == 'grid_lin' else UngriddedDataList, where)
    elif op == 'intersection':
        kw = dict(longitude=(0, S.choice('end', [90, 175])))
        want, e1 = refused(lambda: [d.intersection(**kw) for d in single])
        got, e2 = refused(lambda: lst.intersection(**kw))
        S.check(e1 is e2, 'refused alike ' + where)
        if e1 is None:
            same_list(S, got, [GriddedData.make_from_cube(w) for w in want], L, where)
    elif op in ('extract', 'extractnone'):
        lim = S.real('lim', -80, 80) if op == 'extract' else 90
        con = iris.Constraint(latitude=lambda c: c.point >= lim)
        want = [d.extract(con) for d in single]
        got = lst.extract(con)
        same_list(S, got, None if any(w is None for w in want) else [GriddedData.make_from_cube(w) for w in want], L,
                  where)
    elif op in ('transpose', 'transpose2'):
        a = () if op == 'transpose' else ([1, 0],)
        for d in single:
            d.transpose(*a)
        lst.transpose(*a)
        same_list(S, lst, single, L, where)
    elif op == 'aggregated_by':
        want = [d.aggregated_by('season', iris.analysis.SUM) for d in single]
        got = lst.aggregated_by('season', iris.analysis.SUM)
        same_list(S, got, [GriddedData.make_from_cube(w) for w in want], L, where)
    elif op == 'add_aux':
        x = S.reals('x', cfg['shape'][0], -10, 10)
        for d in single:
            d.add_aux_coord(cubes.aux(S, 'extra', x), 0)
        lst.add_aux_coord(cubes.aux(S, 'extra', x), 0)
        same_list(S, lst, single, L, where)
    elif op == 'add_dim':
        for l in (single, lst):
            for d in l:
                d.remove_coord('latitude')
        x = S.reals('x', cfg['shape'][0], -10, 10)
        cubes.increasing(S, x)
        for d in single:
            d.add_dim_coord(cubes.dim(S, 'altitude', x), 0)
        lst.add_dim_coord(cubes.dim(S, 'altitude', x), 0)
        same_list(S, lst, single, L, where)
    elif op == 'remove':
        for name in ('level', 'latitude'):
            for d in single:
                d.remove_coord(name)
            lst.remove_coord(name)
            same_list(S, lst, single, L, where)
    elif op == 'accessors':
        for k in ('latitude', 'longitude', 'level', 'quality'):
            same_coord(S, lst.coord(k), single[0].coord(k), where)
            S.check(lst.coord_dims(k) == single[0].coord_dims(k), 'the dimensions of coordinates ' + where)
        S.check([c.name() for c in lst.coords()] == [c.name() for c in single[0].coords()], 'coords ' + where)
        S.check([c.name() for c in lst.dim_coords] == ['latitude', 'longitude'], 'dim_coords ' + where)
        S.check(sorted(c.name() for c in lst.aux_coords) == ['level', 'quality', 'season'], 'aux_coords ' + where)
        S.check(lst.ndim == 2 and lst.is_gridded, 'dimensions ' + where)
        S.check(lst.var_name == [d.var_name for d in single], 'the names of the variables ' + where)
        for i, d in enumerate(lst):
            d.filenames = ['file%d' % i, 'other%d' % i]
        S.check(lst.filenames == [f for i in range(len(lst)) for f in ('file%d' % i, 'other%d' % i)],
                'the files of the list are those of its variables')
        lst.add_history('seen')
        [d.add_attributes({'source': 'here'}) for d in lst]
        for d in lst:
            S.check(d.attributes['source'] == 'here' and 'seen' in d.history, 'the history and attributes of each '
                    'of the variables')
        start = S.choice('start', [-180, 0, 100])
        lst.set_longitude_range(start)
        for d in single:
            d.set_longitude_range(start)
        for a, b in zip(lst, single):
            same_arrays(S, a.data, b.data, '(set_longitude_range)')
            for c in b.coords():
                same_arrays(S, a.coord(c.name()).points, c.points, '(set_longitude_range)')
    else:
        list_slices(S, op, lst, single, L, build)


def list_slices(S, op, lst, single, L, build):
    n = len(single)
    if op == 'slices':
        S.check(type(lst[0]) is type(single[0]), 'an item of a list is one of the variables')
        for i in range(-n, n):
            same(S, lst[i], single[i], '(item)')
        for sl in (slice(0, 1), slice(1, None), slice(None), slice(None, None, -1), slice(None, -1)):
            same_list(S, lst[sl], single[sl], L, '(slice of a list)')
        same_list(S, L(list(lst)), single, L, '(list of a list)')
    elif op == 'add':
        more = build()
        same_list(S, lst + L(more[:1]), single + more[:1], L, '(sum of lists)')
        k = L(lst)
        k.extend(more)
        same_list(S, k, single + more, L, '(extended list)')
        k = L()
        for d in more:
            k.append(d)
        same_list(S, k, more, L, '(appended)')
        k.insert(0, lst[-1])
        same_list(S, k, [single[-1]] + more, L, '(inserted)')
        k += L(more[:1])
        same_list(S, k, [single[-1]] + more + more[:1], L, '(added in place)')
        if L is GriddedDataList:
            S.check(len(lst) == n, 'the list itself is left alone')


# ---- ungridded ----

def umake(S, cfg):
    n, nv = cfg['n'], cfg['nv']
    co = {k: S.reals(k, n, *r) for k, r in (('latitude', (-80, 80)), ('longitude', (1, 170)), ('altitude', (0, 1000)))}
    ds = [S.reals('d%d' % v, n, -100, 100) for v in range(nv)]
    few = 1 if nv > 1 else n
    ms = [S.missing('m%d' % v, few) + [False] * (n - few) for v in range(nv)]

    def build():
        cl = CoordList([coord(S, k, co[k]) for k in co])
        out = []
        for v in range(nv):
            d = ug(S, ds[v], cl, mask=ms[v], name=NAMES[v], units=('1', 'kg', 'm')[v])
            d.add_attributes({'note': 'note %d' % v})
            out.append(d)
        return out
    return build, dict(co=co, ds=ds, ms=ms)


def ungridded(S, cfg):
    op, n, nv = cfg['op'], cfg['n'], cfg['nv']
    build, g = umake(S, cfg)
    single, lst = build(), UngriddedDataList(build())
    where = '(%s)' % op
    L = UngriddedDataList
    if op in ('subset', 'subsetval'):
        lo, hi = S.real('lo', 0, 180), S.real('hi', 0, 180)
        S.assume(lo <= hi)
        kw = dict(longitude=[lo, hi], latitude=[None, S.real('top', -90, 90)]) if op == 'subset' else \
            dict(altitude=[lo, None])
        want, got = [d.subset(**kw) for d in single], lst.subset(**kw)
        if any(w is None for w in want):
            S.check(got is None and all(w is None for w in want), 'nothing is left ' + where)
        else:
            same_list(S, got, flat(want), L, where)
    elif op in ('aggregate', 'moments'):
        how = 'sum' if op == 'aggregate' else ''
        kw = dict(longitude=slice(0, 180, 90))
        want = flat([d.aggregate(how=how, **kw) for d in single])
        same_list(S, lst.aggregate(how=how, **kw), want, GriddedDataList, where)
    elif op == 'points':
        got, want = lst.get_non_masked_points(), [d.get_non_masked_points() for d in single]
        S.check(len(got) == nv, 'one view for each variable')
        for a, b in zip(got, want):
            pa, pb = list(a), list(b)
            S.check(len(pa) == len(pb), 'the points of each variable')
            for x, y in zip(pa, pb):
                for k in ('latitude', 'longitude', 'altitude'):
                    S.check(S.eq(getattr(x, k), getattr(y, k)), 'the coordinates of the points of each variable')
                S.check(S.eq(x.val[0], y.val[0]), 'the values of the points of each variable')
    elif op == 'copy':
        same_list(S, lst.copy(), [d.copy() for d in single], L, where)
    elif op == 'frame':
        df = lst.as_data_frame()
        for d in single:
            own = d.as_data_frame()
            S.check(d.name() in df.columns and len(df) == len(own), 'a column for each variable')
            for i in range(len(own)):
                a, b = df[d.name()].values[i], own[d.name()].values[i]
                S.check(S.eq(a, b) or (a != a and b != b), 'the values of each variable in the frame')
    elif op == 'accessors':
        for k in g['co']:
            same_coord(S, lst.coord(k), single[0].coord(k), where)
        S.check([c.name() for c in lst.coords()] == [c.name() for c in single[0].coords()], 'coords ' + where)
        S.check(not lst.is_gridded, 'not gridded ' + where)
        S.check(lst.var_name == [d.var_name for d in single], 'the names of the variables ' + where)
        start = S.choice('start', [-180, 0, 100])
        for d in single:
            d.set_longitude_range(start)
        lst.set_longitude_range(start)
        for a, b in zip(lst, single):
            same_arrays(S, a.coord('longitude').points, b.coord('longitude').points, '(set_longitude_range)')
        [d.add_attributes({'source': 'here'}) for d in lst]
        S.check(all(d.attributes['source'] == 'here' for d in lst), 'an attribute of each')
    elif op == 'slices':
        list_slices(S, 'slices', lst, single, L, build)
        list_slices(S, 'add', lst, single, L, build)
    else:
        if op == 'col_bin':
            sample = cubes.cube(S, [0.] * 2, [cubes.dim(S, 'longitude', [45., 135.])])
            how, kernel, kw = 'bin', 'mean', {}
        else:
            p = {k: S.reals('s' + k, 1, -80, 80) for k in ('latitude', 'longitude', 'altitude')}
            sample = ug(S, S.reals('sd', 1, -1, 1), CoordList([coord(S, k, p[k]) for k in p]))
            if op == 'col_box':
                how, kernel, kw = 'box', 'mean', dict(a_sep='50')
            else:
                how, kernel, kw = 'box', 'nn_a', dict(a_sep='700')
        want = flat([d.collocated_onto(sample, how=how, kernel=kernel, **kw) for d in single])
        got = lst.collocated_onto(sample, how=how, kernel=kernel, **kw)
        S.check(len(got) == len(want), 'as many results as for each of the variables ' + where)
        for a, b in zip(got, want):
            same(S, a, b, where)


HARNESSES = dict(gridded=gridded, ungridded=ungridded)
