"""C34: a list of data only holds data of one kind on coordinates of the same shapes."""
import numpy as np
from symx.build import ug, coord, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx import cubes
from cis.data_io.gridded_data import GriddedData, GriddedDataList
from cis.data_io.ungridded_data import UngriddedData, Metadata

quiet_metadata()
STUBS = ['the coordinates of the data put in the lists are stand-ins with a name and a shape (of symbolic sizes); '
         'the lists, their checks and the kinds of the data are the real ones']
BOUNDS = {'quick': '2 data with 1-3 coordinates of 0-3 dimensions, every size symbolic (up to 1e9)',
          'thorough': '3 data with 1-3 coordinates of 0-4 dimensions, every size symbolic (up to 1e9)'}
OUTSIDE = 'the values of the coordinates (which lists do not compare); replacing an element by assignment'
ASSUMPTIONS = []


class Points(object):
    def __init__(self, shape):
        self.shape = shape
        self.ndim = len(shape)


class StubCoord(object):
    def __init__(self, name, shape):
        self.points, self.shape = Points(shape), shape
        self.data = self.points
        self._n = name

    def name(self):
        return self._n


class U(UngriddedData):
    def __init__(self, coords):
        self._my = coords

    def coords(self, *a, **k):
        return list(self._my)

    def name(self):
        return 'u'
    var_name = property(lambda s: 'u')

    def __repr__(self):
        return 'U'


class G(GriddedData):
    def __init__(self, coords):
        super(G, self).__init__(np.zeros(1))
        self._my = coords

    def coords(self, *a, **k):
        return list(self._my) if hasattr(self, '_my') else []

    def __repr__(self):
        return 'G'


HOW = ('init', 'append', 'extend', 'append_or_extend', 'append_or_extend-list', 'add', 'iadd', 'insert')


def configs(tier):
    out = []
    nd = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4)
    for how in HOW:
        for lst in 'UG':
            for kind in 'UG':
                for na in (1, 2, 3):
                    for nb in (1, 2, 3):
                        if nd and na == nb or na == nb:
                            for d in nd:
                                for e in nd:
                                    if na > 1 and tier == 'quick' and (d + e) % 2:
                                        continue
                                    out.append(dict(harness='put', how=how, lst=lst, kind=kind, a=[d] * na, b=[e] + [d] * (na - 1)))
                        else:
                            out.append(dict(harness='put', how=how, lst=lst, kind=kind, a=[1] * na, b=[1] * nb))
        for lst in 'UG':
            out.append(dict(harness='other', how=how, lst=lst))
    for lst in 'UG':
        out.append(dict(harness='slices', lst=lst))
    # many small ones: put several together
    step = 25
    return [dict(harness='many', cfgs=out[i:i + step], _w=5) for i in range(0, len(out), step)]


def put_in(l, how, cls, first, x):
    if how == 'init':
        return cls([first, x])
    if how == 'append':
        l.append(x)
    elif how == 'extend':
        l.extend([x])
    elif how == 'append_or_extend':
        l.append_or_extend(x)
    elif how == 'append_or_extend-list':
        l.append_or_extend([x])
    elif how == 'add':
        return l + [x]
    elif how == 'iadd':
        l += [x]
    elif how == 'insert':
        l.insert(1, x)
    return l


def put(S, cfg):
    cls = UngriddedDataList if cfg['lst'] == 'U' else GriddedDataList
    mk = {'U': U, 'G': G}

    def shapes(p, dims):
        return [tuple(S.int('%s%d_%d' % (p, i, k), 1, 10 ** 9) for k in range(d)) for i, d in enumerate(dims)]
    sa, sb = shapes('a', cfg['a']), shapes('b', cfg['b'])
    first = mk[cfg['lst']]([StubCoord('c%d' % i, s) for i, s in enumerate(sa)])
    x = mk[cfg['kind']]([StubCoord('c%d' % i, s) for i, s in enumerate(sb)])
    l = cls([first])
    try:
        r, got = put_in(l, cfg['how'], cls, first, x), 'taken'
    except (TypeError, ValueError) as e:
        r, got = l, 'wrong type' if isinstance(e, TypeError) else 'wrong value'
    if cfg['kind'] != cfg['lst']:
        # (iris refuses what is not a cube with a ValueError)
        S.check(got != 'taken', 'gridded and ungridded data are not mixed')
    else:
        same = len(sa) == len(sb) and all(len(a) == len(b) and all(bool(S.eq(u, v)) for u, v in zip(a, b))
                                          for a, b in zip(sa, sb))
        S.check(got == ('taken' if same else 'wrong value'),
                'exactly data with coordinates of the same number and shapes are taken', got)
    S.check(type(r) is cls, 'the result is a list of the same kind')
    if got == 'taken':
        S.check(len(r) == 2 and r[0] is first and r[1] is x, 'the list has both, in order')
    else:
        S.check(len(l) == 1 and l[0] is first, 'a refused object does not get in the list')


def other(S, cfg):
    cls = UngriddedDataList if cfg['lst'] == 'U' else GriddedDataList
    mk = {'U': U, 'G': G}[cfg['lst']]
    first = mk([StubCoord('c', (S.int('n', 1, 10 ** 9),))])
    l = cls([first])
    try:
        put_in(l, cfg['how'], cls, first, 3.0)
        S.fail('things which are not data are refused')
    except (TypeError, ValueError):
        S.check(len(l) == 1, 'a refused object does not get in the list')
    # an empty list takes anything of its kind
    n = S.int('m', 1, 10 ** 9)
    y = mk([StubCoord('c', (n, n))])
    e = cls()
    e.append(y)
    S.check(len(e) == 1 and e[0] is y, 'an empty list takes any data of its kind')


def slices(S, cfg):
    cls = UngriddedDataList if cfg['lst'] == 'U' else GriddedDataList
    mk = {'U': U, 'G': G}[cfg['lst']]
    n = S.int('n', 1, 10 ** 9)
    d = [mk([StubCoord('c', (n,))]) for i in range(3)]
    l = cls(d)
    a, b = S.choice('a', range(4)), S.choice('b', range(4))
    r = l[a:b]
    S.check(type(r) is cls and len(r) == len(d[a:b]) and all(x is y for x, y in zip(r, d[a:b])), 'slices are lists of the same kind')
    k = a if a < 3 else 0
    S.check(l[k] is d[k], 'elements are those which were put in')


def many(S, cfg):
    for c in [S.choice('which', cfg['cfgs'])]:
        {'put': put, 'other': other, 'slices': slices}[c['harness']](S, c)


HARNESSES = {'many': many}
