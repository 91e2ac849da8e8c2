"""C40: looking up coordinates."""
import numpy as np
from symx.build import ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedData, UngriddedCoordinates, Metadata
from symx import cubes
from cis.data_io.Coord import Coord
from cis.exceptions import CoordinateNotFoundError, DuplicateCoordinateError

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE]
BOUNDS = {'quick': 'up to 3 coordinates whose names, axes and attributes are chosen by the solver from the listed values',
          'thorough': 'up to 4 coordinates'}
OUTSIDE = 'names other than the listed ones (the code only compares them)'
ASSUMPTIONS = []
STD = (None, 'latitude', 'longitude')
VAR = ('x', 'latitude', 'y')
LONG = ('', 'x', 'longitude')
AX = ('', 'X', 'Y')


def configs(tier):
    big = tier != 'quick'
    out = []
    queries = ['name', 'standard', 'long', 'axis', 'var', 'attr', 'name+axis', 'standard+var', 'var+attr', 'coord',
               'none']
    for q in queries:
        for n in (1, 2, 3) + ((4,) if big else ()):
            if n > 2 and '+' in q or n > 3 and q == 'name':
                continue
            for how in ('list', 'data', 'coords'):
                if how != 'list' and n != 2:
                    continue
                out.append(dict(harness='query', q=q, n=n, how=how, _w=n))
    for n in (1, 2, 3):
        out.append(dict(harness='generic', n=n, _w=3))
        out.append(dict(harness='ggeneric', n=n))
        out.append(dict(harness='append', n=n))
        out.append(dict(harness='standard', n=n))
    out += [dict(harness='wrong', gridded=g, op=op) for g in (False, True) for op in ('subset', 'other')]
    return out


class M(object):
    """what the lookup should depend on"""
    def __init__(self, S, i, free):
        t = str(i)
        self.std = S.choice('std' + t, STD) if 'std' in free else None
        self.var = S.choice('var' + t, VAR) if 'var' in free else 'v' + t
        self.long = S.choice('long' + t, LONG) if 'long' in free else ''
        self.axis = S.choice('axis' + t, AX) if 'axis' in free else ''
        self.attr = {}
        if 'attr' in free and S.bool('has' + t):
            self.attr['k'] = S.real('k' + t, 0, 10)

    def name(self):
        return self.std or self.long or self.var

    def coord(self, points=(1., 2.)):
        meta = Metadata(name=self.var, standard_name=self.std, long_name=self.long, units='1')
        meta._standard_name = self.std           # no guessing from the variable name
        c = Coord(np.array(points), meta, self.axis)
        c.attributes.update(self.attr)
        return c


def distinct(S, ms):
    """a list of coordinates has each standard name once"""
    for i, a in enumerate(ms):
        for b in ms[:i]:
            S.assume(a.std is None or a.std != b.std)


FREE = dict(name=('std', 'long', 'var'), standard=('std',), long=('long',), axis=('axis',), var=('var',), attr=('attr',),
            coord=('std',), none=())


def query(S, cfg):
    n, parts = cfg['n'], cfg['q'].split('+')
    free = set(f for q in parts for f in FREE[q])
    if n > 2 or len(parts) > 1:
        free.discard('long' if 'name' in parts else '')
    ms = [M(S, i, free) for i in range(n)]
    distinct(S, ms)
    cs = [m.coord() for m in ms]
    kw, keep = {}, [True] * n
    for q in parts:
        if q == 'name':
            v = kw['name_or_coord'] = S.choice('q', ('latitude', 'x', 'none'))
            f = lambda m, v=v: m.name() == v
        elif q == 'standard':
            v = kw['standard_name'] = S.choice('qs', ('latitude', 'longitude', 'air_pressure'))
            f = lambda m, v=v: m.std == v
        elif q == 'long':
            v = kw['long_name'] = S.choice('ql', ('x', 'longitude', 'none'))
            f = lambda m, v=v: m.long == v
        elif q == 'axis':
            v = kw['axis'] = S.choice('qa', ('X', 'y', 'T'))
            f = lambda m, v=v: m.axis == v.upper()
        elif q == 'var':
            v = kw['var_name'] = S.choice('qv', ('x', 'latitude', 'none'))
            f = lambda m, v=v: m.var == v
        elif q == 'attr':
            v = S.real('qk', 0, 10)
            kw['attributes'] = {'k': v}
            f = lambda m, v=v: 'k' in m.attr and bool(S.eq(m.attr['k'], v))
        elif q == 'coord':
            s = S.choice('qc', ('latitude', 'longitude', 'air_pressure'))
            other = M(S, 9, ())
            other.std = s
            kw['name_or_coord'] = other.coord()
            f = lambda m, v=s: m.std == v
        else:
            f = lambda m: True
        keep = [k and f(m) for k, m in zip(keep, ms)]
    cl = CoordList(cs)
    obj = {'list': lambda: cl, 'data': lambda: ug(S, S.reals('d', 2), cl), 'coords': lambda: UngriddedCoordinates(cl)}
    obj = obj[cfg['how']]()
    got = cl.get_coords(**kw) if cfg['how'] == 'list' else obj.coords(**kw)
    want = [c for c, k in zip(cs, keep) if k]
    S.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
            'exactly the coordinates which match every criterion are found')
    try:
        one = cl.get_coord(**kw) if cfg['how'] == 'list' else obj.coord(**kw)
    except CoordinateNotFoundError:
        S.check(len(want) != 1, 'the only matching coordinate is found')
    else:
        S.check(len(want) == 1 and one is want[0], 'one coordinate is returned only if it is the only one which matches')


def pick(ms, name):
    """the indices of coordinates which `name` may stand for: by name, then standard name, axis letter or variable name"""
    letter = {'X': 'longitude', 'Y': 'latitude'}.get(name.upper())
    for f in (lambda m: m.name() == name, lambda m: m.std == name, lambda m: letter is not None and m.std == letter,
              lambda m: m.var == name, lambda m: m.axis == name.upper()):
        r = [i for i, m in enumerate(ms) if f(m)]
        if len(r) == 1:
            return r[0]
    return None


def generic(S, cfg):
    """names of coordinates as used for subsetting and aggregation"""
    n = cfg['n']
    ms = [M(S, i, ('std', 'var', 'axis') if n < 3 else ('std', 'var')) for i in range(n)]
    distinct(S, ms)
    cs = [m.coord() for m in ms]
    obj = ug(S, S.reals('d', 2), CoordList(cs))
    q = S.choice('q', ('latitude', 'x', 'y', 'Y', 'longitude', 'none'))
    got = obj._get_coord(q)
    k = pick(ms, q)
    # by the documentation axes come before variable names: both are accepted where they disagree
    alt = [m for i, m in enumerate(ms) if m.axis == q.upper()]
    if k is None:
        S.check(got is None, 'a name which no coordinate has finds nothing')
    else:
        S.check(got is cs[k] or any(got is c for c, m in zip(cs, ms) if m in alt),
                'the coordinate is found by name, standard name, axis or variable name')


def ggeneric(S, cfg):
    n = cfg['n']
    names = ('latitude', 'longitude', 'depth')[:n] if S.bool('latfirst') else ('depth', 'longitude', 'latitude')[:n]
    var = [S.choice('var%d' % i, ('lat', 'v%d' % i)) for i in range(n)]
    dims = [cubes.dim(S, x, [1., 2.], var_name=v) for x, v in zip(names, var)]
    c = cubes.cube(S, S.reals('d', 2 ** n), dims)
    q = S.choice('q', ('latitude', 'longitude', 'x', 'Y', 'lat', 'depth', 'none', 'time'))
    got = c._get_coord(q)
    want = {'x': 'longitude', 'Y': 'latitude'}.get(q, q)
    k = [i for i in range(n) if names[i] == want] or [i for i in range(n) if var[i] == q]
    if len(k) != 1:
        S.check(got is None, 'a name which no coordinate has finds nothing (gridded)')
    else:
        S.check(got is not None and got == dims[k[0]], 'the coordinate is found by name, axis or variable name (gridded)')


def append(S, cfg):
    n = cfg['n']
    ms = [M(S, i, ('std',)) for i in range(n)]
    cs = [m.coord((float(i), 2.)) for i, m in enumerate(ms)]
    cl, in_ = CoordList(), []
    for m, c in zip(ms, cs):
        dup = any(x.std == m.std and m.std for x in in_)
        try:
            cl.append(c)
            S.check(not dup, 'a second coordinate of the same standard name is refused')
            in_.append(m)
        except DuplicateCoordinateError:
            S.check(dup, 'a coordinate of a new name, or of none, can be added')
    S.check(len(cl) == len(in_), 'the list has the coordinates added')
    cp = cl.copy()
    S.check(len(cp) == len(cl) and all(a is not b and a.standard_name == b.standard_name and a.var_name == b.var_name and
                                       list(a.points) == list(b.points) for a, b in zip(cp, cl)),
            'a copy of the list has a copy of every coordinate')


def standard(S, cfg):
    n = cfg['n']
    opts = ('latitude', 'longitude', 'altitude', 'air_pressure', 'time', None)
    ms = [M(S, i, ()) for i in range(n)]
    for i, m in enumerate(ms):
        m.std = S.choice('s%d' % i, opts)
    distinct(S, ms)
    cs = [m.coord() for m in ms]
    for got in (CoordList(cs).find_standard_coords(), ug(S, S.reals('d', 2), CoordList(cs)).find_standard_coords()):
        S.check(len(got) == 5, 'five standard coordinates')
        for name, g in zip(opts, got):
            w = [c for c, m in zip(cs, ms) if m.std == name]
            S.check(g is (w[0] if w else None), 'standard coordinates in the documented order, None if there is none')


def wrong(S, cfg):
    """a wrong name is an error, not another coordinate"""
    d = S.reals('d', 2, -10, 10)
    q = S.choice('q', ('altitude', 'z', 'rain', 'Z'))
    if cfg['gridded']:
        data = cubes.cube(S, d, [cubes.dim(S, 'latitude', [1., 2.], var_name='lat')])
    else:
        m = M(S, 0, ())
        m.std, m.axis = 'latitude', 'Y'
        data = ug(S, d, CoordList([m.coord()]))
    try:
        if cfg['op'] == 'subset':
            data.subset(**{q: [0., 5.]})
        elif cfg['gridded']:
            data.collapsed([q], how='mean')
        else:
            data.aggregate(**{q: [0., 5., 1.]})
    except CoordinateNotFoundError:
        S.check(True, 'a wrong name is refused')
        return
    S.fail('subsetting or aggregating over a coordinate which the data lack is refused')


HARNESSES = dict(query=query, generic=generic, ggeneric=ggeneric, append=append, standard=standard, wrong=wrong)
