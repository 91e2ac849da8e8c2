"""C21: arithmetic with ungridded data."""
import numpy as np
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, Metadata
from symx.harness import masked_at, val_at
from cf_units import Unit
import cis.maths as cm

quiet_metadata()
STUBS = [STUB_NOTE]
BOUNDS = {'quick': 'up to 4 points in up to 2 dimensions', 'thorough': 'up to 6 points in up to 3 dimensions'}
OUTSIDE = 'rounding; divisors nearer to zero than 0.001; logarithms and exponentials; non-integer powers'
ASSUMPTIONS = []
OPS = ('add', 'sub', 'mul', 'div')


def configs(tier):
    big = tier != 'quick'
    out = []
    shapes = ((1,), (3,), (2, 2)) + (((4,), (2, 3), (1, 2, 2)) if big else ())
    for op in OPS:
        for kind in ('data', 'number', 'array', 'row', 'masked', 'coord', 'self', 'cube'):
            for shape in shapes:
                if kind == 'row' and len(shape) == 1:
                    continue
                if kind == 'cube' and len(shape) != 2:
                    continue
                for inplace in (False, True):
                    if inplace and kind in ('self', 'coord', 'cube'):
                        continue
                    out.append(dict(harness='binary', op=op, kind=kind, shape=shape, inplace=inplace))
        out.append(dict(harness='refused', op=op))
    for op in ('radd', 'rmul', 'pow2', 'pow3', 'pow-1', 'abs'):
        for shape in shapes:
            out.append(dict(harness='unary', op=op, shape=shape, inplace=False))
            if op[0] != 'r':
                out.append(dict(harness='unary', op=op, shape=shape, inplace=True))
    return out


def make(S, shape, p, units='m', mask=True, lo=-100, hi=100, name='rain', away=False):
    n = int(np.prod(shape))
    co = {k: S.reals(p + k[:4], n, -90, 90) for k in ('latitude', 'time')}
    d = S.reals(p + 'd', n, lo, hi)
    if away:
        for x in d:
            S.assume(abs(x) >= 0.001)
    m = S.missing(p + 'm', n) if mask else [False] * n
    obj = ug(S, d, CoordList([coord(S, k, co[k], shape=shape) for k in co]), mask=m if any(m) else None, shape=shape,
             units=units, name=name)
    return obj, co, d, m


def expect(S, r, shape, co, want, miss, units, where):
    S.check(r.data.shape == shape and tuple(r.shape) == shape, 'the shape is that of the data ' + where)
    S.check(Unit(str(r.units)) == Unit(units), 'the units follow from those of the operands ' + where, str(r.units))
    f, g = r.data.reshape(-1), r.data_flattened
    for i, w in enumerate(want):
        for a in (f, g):
            S.check(masked_at(a, i) == miss[i], 'a result is missing exactly if an operand is ' + where)
            if not miss[i]:
                S.check(S.near(val_at(a, i), w), 'the result is computed point by point ' + where)
        for k in co:
            S.check(S.eq(r.coord(k).points.reshape(-1)[i], co[k][i]), 'the coordinates are those of the data ' + where)


def apply(op, a, b, inplace):
    if inplace:
        return dict(add=cm.add, sub=cm.subtract, mul=cm.multiply, div=cm.divide)[op](a, b, in_place=True)
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    return a / b


def calc(op, x, y):
    return x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else x / y


def binary(S, cfg):
    op, kind, shape = cfg['op'], cfg['kind'], cfg['shape']
    n = int(np.prod(shape))
    away = op == 'div'
    obj, co, d, m = make(S, shape, 'a', away=away and kind == 'self', mask=n < 4 or kind != 'data')
    units2 = 'm'
    other_check = None
    if kind == 'data':
        u = 'm' if op in ('add', 'sub') else 's'
        other, co2, d2, m2 = make(S, shape, 'b', units=u, away=away, name='snow')
        units2 = u
        other_check = (co2, d2, m2, u)
    elif kind == 'self':
        other, d2, m2 = obj, d, m
    elif kind == 'number':
        other = S.real('b', -100, 100)
        if away:
            S.assume(abs(other) >= 0.001)
        d2, m2, units2 = [other] * n, [False] * n, '1'
    elif kind == 'coord':
        other = obj.coord('latitude')
        other.units = 'm'
        d2, m2 = co['latitude'], [False] * n
        if away:
            for x in d2:
                S.assume(abs(x) >= 0.001)
    else:
        k = shape[-1] if kind == 'row' else n
        v = S.reals('b', k, -100, 100)
        if away:
            for x in v:
                S.assume(abs(x) >= 0.001)
        mv = S.missing('bm', k) if kind == 'masked' and n < 4 else [False] * k
        if kind == 'masked':
            mv = mv if n < 4 else [S.bool('bm0')] + [False] * (k - 1)
        if kind == 'cube':
            from symx import cubes
            other = cubes.cube(S, v, [cubes.dim(S, 'latitude', [1., 2.]), cubes.dim(S, 'longitude', [1., 2.])], units='m')
        else:
            other = S.marray(v, mv, (k,) if kind == 'row' else shape) if kind == 'masked' else \
                S.array(v, (k,) if kind == 'row' else shape)
            units2 = '1'
        d2, m2 = (v * (n // k), mv * (n // k))
    r = apply(op, obj, other, cfg['inplace'])
    where = '(%s, %s)' % (op, kind)
    miss = [a or b for a, b in zip(m, m2)]
    want = [None if z else calc(op, x, y) for x, y, z in zip(d, d2, miss)]
    units = 'm' if op in ('add', 'sub') else ('m2' if units2 == 'm' else 'm s' if units2 == 's' else 'm') if op == 'mul' else \
        ('1' if units2 == 'm' else 'm s-1' if units2 == 's' else 'm')
    expect(S, r, shape, co, want, miss, units, where)
    if cfg['inplace']:
        S.check(r is obj, 'an in-place operation changes the data itself')
    else:
        S.check(r is not obj, 'a new object')
        expect(S, obj, shape, co, d, m, 'm', 'of the operand, unchanged ' + where)
        r.data[...] = 7777.
        for c in r.coords():
            c.data[...] = 8888.
        expect(S, obj, shape, co, d, m, 'm', 'of the operand, independent of the result ' + where)
    if other_check:
        expect(S, other, shape, other_check[0], other_check[1], other_check[2], other_check[3],
               'of the second operand, unchanged ' + where)


def unary(S, cfg):
    op, shape = cfg['op'], cfg['shape']
    obj, co, d, m = make(S, shape, 'a', away=op == 'pow-1', lo=-10, hi=10)
    k = S.real('k', -10, 10)
    ip = cfg['inplace']
    if op == 'radd':
        r, f, u = k + obj, (lambda x: x + k), 'm'
    elif op == 'rmul':
        r, f, u = k * obj, (lambda x: x * k), 'm'
    elif op == 'abs':
        r, f, u = cm.abs(obj, in_place=ip), (lambda x: abs(x)), 'm'
    else:
        e = int(op[3:])
        r = cm.exponentiate(obj, e, in_place=ip) if ip else obj ** e
        f, u = (lambda x: x * x if e == 2 else x * x * x if e == 3 else 1 / x), {2: 'm2', 3: 'm3', -1: 'm-1'}[e]
    expect(S, r, shape, co, [None if z else f(x) for x, z in zip(d, m)], m, u, '(%s)' % op)
    if ip:
        S.check(r is obj, 'an in-place operation changes the data itself')
    else:
        expect(S, obj, shape, co, d, m, 'm', 'of the operand, unchanged (%s)' % op)


def refused(S, cfg):
    """operands which do not fit are refused"""
    obj, co, d, m = make(S, (2,), 'a')
    if cfg['op'] in ('add', 'sub'):
        other = make(S, (2,), 'b', units='s', mask=False)[0]
        try:
            apply(cfg['op'], obj, other, False)
            S.fail('data in other units cannot be added or subtracted')
        except NotImplementedError:
            pass
    for bad in (S.array(S.reals('c', 3, 1, 2)), S.array(S.reals('c', 4, 1, 2), (2, 2))):
        for ip in (False, True):
            try:
                apply(cfg['op'], obj, bad, ip)
                S.fail('an operand of another shape is refused')
            except ValueError:
                pass
    expect(S, obj, (2,), co, d, m, 'm', 'of the operand, unchanged')


HARNESSES = dict(binary=binary, unary=unary, refused=refused)
