"""C32: evaluating expressions of variables."""
from argparse import Namespace
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedData
from symx import cubes
from symx.harness import masked_at, val_at
from cis.data_io.gridded_data import GriddedData
import cis.cis_main
from cis.evaluate import Calculator, EvaluationError

quiet_metadata()
STUBS = [STUB_NOTE, cubes.STUB_NOTE, 'division of masked arrays: missing where the divisor is zero', 'the eval command is '
         'given its variables directly, instead of reading them from files, and its output is kept instead of saved']
BOUNDS = {'quick': 'up to 4 points in up to 2 dimensions, 2-3 variables (gridded, or ungridded of the same size but '
                   'different shapes), all values and missing flags, 14 expressions', 'thorough': '6 points'}
OUTSIDE = 'functions other than those of the expressions listed; the security of the expression language; the value of ' \
          'overflowing or undefined arithmetic of data without missing values'
ASSUMPTIONS = []

# expression -> (value given the values of a, b, c; is it undefined?)
EXPR = {
    'a': (lambda a, b, c: a, None),
    'a + b': (lambda a, b, c: a + b, None),
    'a - b': (lambda a, b, c: a - b, None),
    'b - a': (lambda a, b, c: b - a, None),
    'a * b': (lambda a, b, c: a * b, None),
    'a / b': (lambda a, b, c: a / b, lambda a, b, c: b == 0),
    '(a - b) / c': (lambda a, b, c: (a - b) / c, lambda a, b, c: c == 0),
    'a + b * c': (lambda a, b, c: a + b * c, None),
    '2 * a - 1': (lambda a, b, c: 2 * a - 1, None),
    '10.0 - a': (lambda a, b, c: 10 - a, None),
    'a ** 2': (lambda a, b, c: a * a, None),
    'abs(a - b)': (lambda a, b, c: abs(a - b), None),
    'sum([a, b, c])': (lambda a, b, c: a + b + c, None),
    'numpy.ma.abs(b)': (lambda a, b, c: abs(b), None),
}
USES = {'a': 'a', 'a + b': 'ab', 'a - b': 'ab', 'b - a': 'ab', 'a * b': 'ab', 'a / b': 'ab', '(a - b) / c': 'abc',
        'a + b * c': 'abc', '2 * a - 1': 'a', '10.0 - a': 'a', 'a ** 2': 'a', 'abs(a - b)': 'ab',
        'sum([a, b, c])': 'abc', 'numpy.ma.abs(b)': 'b'}


def configs(tier):
    out = []
    for e in EXPR:
        for kind in ('u', 'g'):
            for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 4, 6):
                masks = ('ab' if n == 2 else 'b' if n > 2 else 'abc', '') if n != 3 else ('ac',)
                for m in masks:
                    out.append(dict(harness='evaluate', expr=e, kind=kind, n=n, masks=m, _w=n * len(m)))
    for kind in ('u', 'g'):
        for e in ('a + b', 'x1', 'a - x1', 'x1 / b'):
            out.append(dict(harness='command', kind=kind, expr=e))
        out.append(dict(harness='wrong', kind=kind))
        out.append(dict(harness='independent', kind=kind))
    return out


SHAPES = {4: ((2, 2), (4,), (4, 1)), 6: ((2, 3), (6,), (3, 2))}


def variables(S, kind, n, masks, names='abc', var_names=None):
    out, vals, miss = [], {}, {}
    for i, v in enumerate(names):
        d = S.reals(v, n, -100, 100)
        m = S.missing(v + 'm', n) if v in masks else [False] * n
        mask = m if v in masks else None
        name = (var_names or names)[i]
        lat, lon = S.reals('lat', n, -80, 80), S.reals('lon', n, -170, 170)
        if kind == 'u':
            shape = SHAPES.get(n, ((n,),) * 3)[i]
            out.append(ug(S, d, CoordList([coord(S, 'latitude', lat, shape=shape), coord(S, 'longitude', lon, shape=shape)]),
                          mask=mask, shape=shape, name=name))
        else:
            shape = SHAPES.get(n, ((n, 1),))[0]
            dims = [cubes.dim(S, 'altitude', [float(k) for k in range(shape[0])]),
                    cubes.dim(S, 'longitude', [10.0 * k for k in range(shape[1])])]
            out.append(cubes.cube(S, d, dims, mask, auxs=[(cubes.aux(S, 'soil', lat, shape=shape), (0, 1))], name=name))
        vals[v], miss[v] = d, m
    return out, vals, miss


def verify(S, r, data, vals, miss, kind, n, fn, undef, used, masks):
    S.check(isinstance(r, UngriddedData if kind == 'u' else GriddedData), 'the result is data of the kind of the variables')
    f = r.data.reshape(-1)
    S.check(f.size == n and (kind == 'u' or r.data.shape == data[0].data.shape), 'one result per point')
    for i in range(n):
        at = [vals[v][i] if v in vals else 0 for v in 'abc']
        anymiss = any(bool(miss[v][i]) for v in used)
        bad = (not anymiss) and undef is not None and bool(undef(*at))
        if bad and not any(v in masks for v in used):
            continue
        S.check(masked_at(f, i) == (anymiss or bad), 'a result is missing exactly where a variable used is missing')
        if not (anymiss or bad):
            S.check(S.near(val_at(f, i), fn(*at)), 'every point is the expression of the values at that point')
    if kind == 'u':
        for name in ('latitude', 'longitude'):
            c = r.coord(standard_name=name).data.reshape(-1)
            S.check(c.size == n, 'every point has its coordinates')
            for i in range(n):
                S.check(S.eq(val_at(c, i), S.reals(name[:3], n)[i]), 'points keep their coordinates')
    else:
        S.check(r.coords() == data[0].coords() or [c.name() for c in r.coords()] == [c.name() for c in data[0].coords()],
                'the coordinates are those of the variables')
        for c in data[0].coords():
            q = r.coord(c.name())
            S.check(r.coord_dims(q) == data[0].coord_dims(c), 'for the same dimensions')
            for x, y in zip(c.points.flat, q.points.flat):
                S.check(S.eq(x, y), 'with the same values')
    S.observe_array('r', f)


def unchanged(S, data, vals, miss):
    for d, v in zip(data, vals):
        f = d.data.reshape(-1)
        for i in range(len(vals[v])):
            S.check(masked_at(f, i) == bool(miss[v][i]), 'variables are not changed')
            if not miss[v][i]:
                S.check(S.eq(val_at(f, i), vals[v][i]), 'variables are not changed')


def evaluate(S, cfg):
    n, kind, e = cfg['n'], cfg['kind'], cfg['expr']
    data, vals, miss = variables(S, kind, n, cfg['masks'])
    if S.choice('order', [0, 1]) and n == 2:
        lst = data[::-1]
    else:
        lst = data
    r = Calculator().evaluate(lst, e, 'res', 'kg', {'purpose': 'test'})
    S.check(r.var_name == 'res' and str(r.units) == 'kg' and r.standard_name in (None, ''), 'named and in the units asked for')
    S.check(r.attributes.get('purpose') == 'test', 'attributes are added')
    verify(S, r, lst, vals, miss, kind, n, EXPR[e][0], EXPR[e][1], USES[e], cfg['masks'])
    unchanged(S, data, vals, miss)


def command(S, cfg):
    """through the command: variables of any name under an alias"""
    n, kind = 2, cfg['kind']
    data, vals, miss = variables(S, kind, n, 'a', 'abc', ['a', 'b', '550-870'])
    data[2].alias = 'x1'
    saved = []
    old = cis.cis_main.DataReader.read_datagroups, UngriddedData.save_data, GriddedData.save_data
    groups = [object()]

    def read(self, g):
        S.check(g is groups, 'the data groups are read')
        return data

    def save(self, f):
        saved.append((self, f))
    cis.cis_main.DataReader.read_datagroups = read
    UngriddedData.save_data = GriddedData.save_data = save
    try:
        cis.cis_main.evaluate_cmd(Namespace(datagroups=groups, expr=cfg['expr'], output_var=None, units='1', attributes=None,
                                            output='o.nc'))
    finally:
        cis.cis_main.DataReader.read_datagroups, UngriddedData.save_data, GriddedData.save_data = old
    S.check([f for _, f in saved] == ['o.nc'], 'the result is saved once, where asked for')
    fn = {'a + b': lambda a, b, c: a + b, 'x1': lambda a, b, c: c, 'a - x1': lambda a, b, c: a - c,
          'x1 / b': lambda a, b, c: c / b}[cfg['expr']]
    used = {'a + b': 'ab', 'x1': 'c', 'a - x1': 'ac', 'x1 / b': 'bc'}[cfg['expr']]
    r = saved[0][0]
    S.check(r.var_name == 'calculated_variable', 'the default name')
    verify(S, r, data, vals, miss, kind, n, fn, (lambda a, b, c: b == 0) if '/' in cfg['expr'] else None, used, 'a')


def wrong(S, cfg):
    data, vals, miss = variables(S, cfg['kind'], 2, '')
    for e in ('d + a', 'a +', 'numpy.ma.max(a)', 'sum(a)', 'len(a)', '1', 'a[:1]', 'a.__class__', 'open("x")', 'None',
              '__import__("os")', 'rain', 'numpy.ma.concatenate([a, b])'):
        try:
            Calculator().evaluate(data, e)
            got = 'a result'
        except (EvaluationError, SyntaxError):
            got = 'an error'
        except Exception as ex:
            got = type(ex).__name__
        S.check(got == 'an error', 'expressions which are not allowed, not known or not of the shape of the data are refused',
                '%s gives %s' % (e, got))
    unchanged(S, data, vals, miss)


def independent(S, cfg):
    """changing the result does not change the variables"""
    n = 2
    data, vals, miss = variables(S, cfg['kind'], n, 'a')
    if cfg['kind'] == 'g':
        lon = cubes.dim(S, 'longitude', [100.0, 200.0])
        for d in data:
            d.remove_coord('altitude')
            d.remove_coord('soil')
            d.remove_coord('longitude')
            d.add_dim_coord(lon.copy(), 0)
    r = Calculator().evaluate(data, 'a + b')
    r.set_longitude_range(-180)
    r.data[0] = 0
    unchanged(S, data, vals, miss)
    for i in range(n):
        if cfg['kind'] == 'g':
            S.check(S.eq(data[0].coord('longitude').points[i], [100.0, 200.0][i]), 'nor their coordinates')


HARNESSES = {'evaluate': evaluate, 'command': command, 'wrong': wrong, 'independent': independent}
