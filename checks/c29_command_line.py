"""C29: the lists, limits and grids of the command line mean what they say."""
from collections import namedtuple
from symx import symstr as X
from symx import dates as D
from symx.build import quiet_metadata
from symx.engine import Sym
from symx.harness import Skip
import cis.parse as P
import cis.parse_datetime as PD
import cis.utils as utils
from cis.exceptions import InvalidCommandLineOptionError

quiet_metadata()
D.install_units()
STUBS = [X.NOTE, 'datetime/timedelta with symbolic components: the Gregorian calendar in integer arithmetic',
         'the argument parser: its error() raises', 'dateutil (other formats of dates): not used on symbolic text',
         'the functions which check single options (files, products, colours) are stand-ins which record what they are given']
BOUNDS = {'quick': 'every text of up to 4 characters of "a,[]()=" and of 6 of "a,[]" for the splitting into lists; 1-3 dimensions with limits of 1-3 '
                   'arbitrary digits, signs and decimals, or with partial dates of arbitrary digits; data groups with 1-2 mandatory '
                   'and up to 3 optional parts in any order with texts of 1-2 arbitrary characters',
          'thorough': 'texts of up to 5 and 7 characters, all combinations'}
OUTSIDE = 'unbalanced brackets; options without a value; dates in other formats (dateutil)'
ASSUMPTIONS = []


class ParserError(Exception):
    pass


class Parser(object):
    def error(self, msg):
        raise ParserError()

    def exit(self, *a, **k):
        raise ParserError()


NUM = ['d', 'dd', '-d', 'd.d', '-dd.d', 'ddd', '1ed']
LIMS = [[('x', 2)], [('x', 1)], [('y', 2)], [('z', 1)], [('X', 2)], [('latitude', 2)], [('alt', 1)], [('t', 1)], [('time', 2)], [('T', 2)],
        [('x', 2), ('y', 2)], [('t', 2), ('alt', 2)], [('y', 1), ('x', 2), ('time', 1)], [('shape', 0)], [('shape', 0), ('alt', 2)],
        [('t', 2), ('x', 2), ('y', 2), ('p', 1)]]
GRIDS = [[('x', 3)], [('y', 3)], [('x', 0)], [('t', 3)], [('t', 0), ('y', 3)], [('x', 0), ('y', 0)], [('alt', 3), ('time', 3)],
         [('x', 3), ('y', 3), ('z', 0)], [('X', 3)]]


def configs(tier):
    out = []
    thorough = tier == 'thorough'
    for n in range(0, 6 if thorough else 5):
        out.append(dict(harness='split', n=n, chars='a,[]()=', _w=6 ** n / 50))
    for n in range(5, 8 if thorough else 7):
        out.append(dict(harness='split', n=n, chars='a,[]', _w=4 ** n / 50))
    for n in range(0, 7 if thorough else 6):
        out.append(dict(harness='multi', n=n, _w=4 ** n / 50))
    k = 0
    for dims in LIMS:
        for num in NUM:
            for when in ([1, 2, 3, 6] if any(d[0].lower() in ('t', 'time') for d in dims) else [0]):
                k += 1
                if num == '1ed' and len(dims) > 1:
                    continue
                if (len(dims) > 1 or when) and not thorough and k % 3:
                    continue
                out.append(dict(harness='limits', dims=dims, num=num, when=when, _w=3 * len(dims) + when))
    for dims in GRIDS:
        for num in NUM[:6]:
            for when in ([1, 2, 3, 5] if any(d[0] in ('t', 'time') for d in dims) else [0]):
                k += 1
                if len(dims) > 1 and not thorough and k % 2:
                    continue
                out.append(dict(harness='grid', dims=dims, num=num, when=when, _w=3 * len(dims) + when))
    for bad in ('x=[d,d,d', 'x=[d]', 'x=[d,d]', 'x=[d,d,d]j', 'y=[d', 'y=[d,d,d]]', 'y=[d,d,d,d]', '', 'y=[d,x,d]'):
        out.append(dict(harness='bad_grid', text=bad))
    for bad in ('x', 'x=d', 'x=[d,d', 'y=[]', 'y=[d,d]j', 'y=[d,d,d]', '', 'y=[d,x]', '=[d,d]', 'x[d,d]'):
        out.append(dict(harness='bad_limits', text=bad))
    for comp in (1, 2):
        for opts in ((), ('a',), ('a', 'b'), ('b', 'a'), ('c', 'a', 'b'), ('b',), ('c', 'b', 'a'), ('b', 'c')):
            for total in (1, 3):
                if total == 1 and opts not in ((), ('a',)):
                    continue
                for esc in (False, True):
                    out.append(dict(harness='groups', comp=comp, opts=opts, total=total, esc=esc))
    for n in (0, 1, 2, 3):
        out.append(dict(harness='method', n=n))
    for n in (1, 2, 3):
        out.append(dict(harness='aliases', n=n, _w=5 ** n))
    return out


def go(S):
    X.install(utils, PD, P)
    X.instrument(S, PD, P)


# ---------------------------------------------------------------------- splitting
PAIRS = {'[': ']', '(': ')'}


def balanced(t):
    """real or symbolic text with its brackets in pairs -> nesting depth before each character, or None"""
    stack, depth = [], []
    for i in range(len(t)):
        c = t[i]
        depth.append(len(stack))
        hit = False
        for o in PAIRS:
            if c == o:
                stack.append(PAIRS[o])
                hit = True
        if not hit and (c == ']' or c == ')'):
            if not stack or not bool(c == stack.pop()):
                return None
    return depth if not stack else None


def split(S, cfg):
    go(S)
    t = X.text(S, 's', cfg['n'], cfg['chars'])
    depth = balanced(t)
    S.assume(depth is not None)
    for sep in (',', '='):
        want, cur = [], ''
        for i in range(len(t)):
            if t[i] == sep and depth[i] == 0:
                want.append(cur)
                cur = ''
            else:
                cur = cur + t[i]
        if len(cur) > 0:
            want.append(cur)
        for seps in ([sep], sep) if sep == '=' else ([sep],):
            got = P.split_outside_brackets(t, seps)
            S.check(len(got) == len(want) and all(bool(a == b) for a, b in zip(got, want)),
                    'text is split at just the separators outside of brackets')


def multi(S, cfg):
    go(S)
    t = X.text(S, 's', cfg['n'], 'ab,[]')
    want, cur = [], ''
    for i in range(len(t)):
        if t[i] == ',' or t[i] == '[' or t[i] == ']':
            want.append(cur)
            cur = ''
        else:
            cur = cur + t[i]
    want = [w for w in want + [cur] if len(w)]
    got = P.multi_split(t, ['[', ',', ']'])
    S.check(len(got) == len(want) and all(bool(a == b) for a, b in zip(got, want)), 'lists are split into their non-blank parts')
    if cfg['n']:
        try:
            vs = P.check_is_not_empty_and_comma_split(t, Parser())
            S.check(all(len(v) > 0 for v in vs), 'there are no blank variables')
        except ParserError:
            S.fail('a list which is not empty is accepted')


# ---------------------------------------------------------------------- limits and grids
def number(S, name, form):
    t, v, frac, neg, scale = '', 0, 0, False, None
    for i, c in enumerate(form):
        if c == 'd':
            d = X.text(S, '%s%d_' % (name, i), 1, X.DIGITS)
            t = t + d
            if 'e' in form[:i]:
                k = X.digits_value(d)
                scale = [j for j in range(10) if k == j][0]
                continue
            v = v * 10 + X.digits_value(d)
            frac += '.' in form[:i]
        else:
            t = t + c
            neg = neg or c == '-'
            if c.isdigit():
                v = v * 10 + int(c)
    if frac:
        v = v / 10 ** frac
    if scale is not None:
        v = v * 10 ** scale
    return t, -v if neg else v


def date(S, name, k):
    t, v = '', []
    for i in range(k):
        d = X.text(S, '%s%d' % (name, i), 4 if i == 0 else 2, X.DIGITS)
        t = t + ('', '-', '-', 'T', ':', ':')[i] + d
        v.append(X.digits_value(d))
    S.assume(v[0] >= 1700)
    S.assume(v[0] <= 2300)
    for i, hi in zip(range(1, k), (12, 28, 23, 59, 59)):
        S.assume(v[i] <= hi)
        if i < 3:
            S.assume(v[i] >= 1)
    lo = D.days_since_1600(*(list(v) + [1, 1, 0, 0, 0][k - 1:]))
    second = 1.0 / 86400
    if k == 1:
        hi = D.days_since_1600(v[0] + 1, 1, 1, 0, 0, 0) - second
    elif k == 2:
        hi = (D.days_since_1600(v[0], v[1] + 1, 1, 0, 0, 0) if v[1] < 12 else D.days_since_1600(v[0] + 1, 1, 1, 0, 0, 0)) - second
    else:
        hi = lo + {3: 86399, 4: 3599, 5: 59, 6: 0}[k] / 86400
    return t, lo, hi


def same_time(S, dt, want):
    if type(dt) is D.RealDT:
        x = (dt - D.RealDT(1600, 1, 1)).total_seconds() / 86400
    elif D.instant(dt) is None:
        return False
    else:
        x = Sym(D.instant(dt)) - 584023
    return bool(S.near((x - want) * 86400, 0, 1e-2))


def is_number(v):
    return isinstance(v, (int, float, Sym)) and not isinstance(v, bool)


def limits(S, cfg):
    go(S)
    segs, want, bad = [], {}, False
    with D.symbolic_dates(S):
        for n, (dim, k) in enumerate(cfg['dims']):
            if dim == 'shape':
                shape = 'POLYGON((0 ' + X.text(S, 'poly', 1, X.DIGITS) + ', 20 -10, 20 15, 0 15))'
                segs.append('shape=' + shape)
                want[dim] = shape
                continue
            if dim.lower() in ('t', 'time'):
                d = [date(S, '%s_%d' % (dim, i), cfg['when']) for i in range(k)]
                texts, want[dim] = [x[0] for x in d], [(d[0][1]), (d[-1][2])]
            else:
                d = [number(S, '%s_%d' % (dim, i), cfg['num']) for i in range(k)]
                texts, want[dim] = [x[0] for x in d], [d[0][1], d[-1][1]]
                if dim.lower() == 'x':
                    a, b = want[dim]
                    bad = bad or bool(a > b) or bool(b - a > 360)
            s = dim + '=['
            for i, t in enumerate(texts):
                s = s + (',' if i else '') + t
            segs.append(s + ']')
        text = segs[0]
        for s in segs[1:]:
            text = text + ',' + s
        try:
            got = P.get_subset_limits(text, Parser())
        except ParserError:
            S.check(bad, 'limits which make sense are accepted')
            return
        S.check(not bad, 'longitude limits which decrease or are more than 360 degrees apart are refused')
        S.check([str(k) for k in got] == [d for d, _ in cfg['dims']], 'there are limits for just the dimensions given', lambda: str(list(got)))
        for dim, k in cfg['dims']:
            g = got[dim]
            if dim == 'shape':
                S.check(g == want[dim], 'the shape is the text given')
            elif dim.lower() in ('t', 'time'):
                if k == 1:
                    g = [g.min(), g.max()]
                S.check(len(g) == 2 and same_time(S, g[0], want[dim][0]) and same_time(S, g[1], want[dim][1]),
                        'times range from the earliest to the latest time compatible with the dates given')
            else:
                S.check(len(g) == 2 and is_number(g[0]) and is_number(g[1]) and bool(S.near(g[0], want[dim][0])) and
                        bool(S.near(g[1], want[dim][1])), 'limits are the numbers given (a single one is both limits)')


def grid(S, cfg):
    go(S)
    segs, want, bad = [], {}, False
    with D.symbolic_dates(S):
        for dim, k in cfg['dims']:
            if not k:
                segs.append(dim)
                want[dim] = None
                continue
            if dim in ('t', 'time'):
                a, b = date(S, dim + 'a', cfg['when']), date(S, dim + 'b', cfg['when'])
                d = X.text(S, dim + 'c', 2, X.DIGITS)
                texts = [a[0], b[0], 'P' + d + 'DT' + d + 'H']
                want[dim] = [a[1], b[2], X.digits_value(d) * 86400 + X.digits_value(d) * 3600]
            else:
                ns = [number(S, '%s_%d' % (dim, i), cfg['num']) for i in range(3)]
                texts, want[dim] = [x[0] for x in ns], [x[1] for x in ns]
                if dim.lower() == 'x':
                    bad = bad or bool(want[dim][0] > want[dim][1]) or bool(want[dim][1] - want[dim][0] > 360)
            segs.append(dim + '=[' + texts[0] + ',' + texts[1] + ',' + texts[2] + ']')
        text = segs[0]
        for s in segs[1:]:
            text = text + ',' + s
        try:
            got = P.get_aggregate_grid(text, Parser())
        except ParserError:
            S.check(bad, 'grids which make sense are accepted')
            return
        S.check(not bad, 'longitude grids which decrease or are wider than 360 degrees are refused')
        S.check([str(k) for k in got] == [d for d, _ in cfg['dims']], 'there are grids for just the dimensions given')
        for dim, k in cfg['dims']:
            g, w = got[dim], want[dim]
            if not k:
                S.check(g is None, 'a dimension without a grid is collapsed')
            elif dim in ('t', 'time'):
                S.check(same_time(S, g.start, w[0]) and same_time(S, g.stop, w[1]) and
                        bool(S.near(g.step.total_seconds(), w[2], 1e-9)), 'grids of times have the start, end and step given')
            else:
                S.check(all(is_number(v) for v in (g.start, g.stop, g.step)) and bool(S.near(g.start, w[0])) and
                        bool(S.near(g.stop, w[1])) and bool(S.near(g.step, w[2])), 'grids have the start, end and step given')


def spelled(S, form):
    t = ''
    for i, c in enumerate(form):
        t = t + (X.text(S, 'q%d' % i, 1, X.DIGITS) if c == 'd' else X.text(S, 'j', 1, 'ab1.') if c == 'j' else c)
    return t


def bad_grid(S, cfg):
    go(S)
    import argparse
    try:
        P.get_aggregate_grid(spelled(S, cfg['text']), Parser())
        S.fail('malformed grids are refused')
    except (ParserError, argparse.ArgumentTypeError):
        S.check(True, 'malformed grids are refused')


def bad_limits(S, cfg):
    go(S)
    import argparse
    try:
        P.get_subset_limits(spelled(S, cfg['text']), Parser())
        S.fail('malformed limits are refused')
    except (ParserError, argparse.ArgumentTypeError):
        S.check(True, 'malformed limits are refused')


# ---------------------------------------------------------------------- data groups
def groups(S, cfg):
    go(S)
    names = ['first', 'second'][:cfg['comp']] + ['a', 'b', 'c'][:cfg['total']]
    seen = []

    def checker(k):
        def f(text, parser):
            seen.append(k)
            return (k, text)
        return f
    Options = namedtuple('Options', names)
    options = Options(*[checker(k) for k in names])
    comps = []
    for i in range(cfg['comp']):
        c = X.text(S, 'c%d' % i, 2, 'uv.*,=[')
        comps.append((c + '\\:' + c, c + ':' + c) if cfg['esc'] else (c, c))
    text = comps[0][0]
    for c in comps[1:]:
        text = text + ':' + c[0]
    vals = {}
    for i, o in enumerate(cfg['opts']):
        v = X.text(S, 'v' + o, 2, 'abx[')
        v = v + ',a=1]' if bool(v[1] == '[') else v
        S.assume(balanced(v) is not None)
        vals[o] = v
        text = text + (':' if i == 0 else ',') + o + '=' + v
    got = P.parse_colon_and_comma_separated_arguments([text, text], Parser(), options, cfg['comp'])
    S.check(len(got) == 2, 'there is one group for each argument')
    for g in got:
        for k, (_, want) in zip(names, comps):
            S.check(g[k][0] == k and bool(g[k][1] == want), 'the mandatory parts are those given, in order')
        for o in names[cfg['comp']:]:
            if o in vals:
                v = g[o]
                if cfg['total'] > 1:
                    S.check(v[0] == o, 'options are checked as what they are')
                    v = v[1]
                elif isinstance(v, tuple):
                    v = v[1]
                S.check(bool(v == vals[o]), 'each option has the value given to it')
            else:
                S.check(g.get(o) is None, 'options which are not given are not set')
    for wrong in (text + (',' if cfg['opts'] else ':') + 'nosuch=1', 'x:' * (cfg['comp'] + 1) + 'x') + (('x',) if cfg['comp'] > 1 else ()):
        try:
            r = P.parse_colon_and_comma_separated_arguments([wrong], Parser(), options, cfg['comp'])
            S.check(cfg['total'] == 1 and not cfg['opts'] and 'nosuch' in str(wrong), 'missing, unknown or additional parts are refused', str(wrong))
        except (ParserError, InvalidCommandLineOptionError):
            S.check(True, 'missing, unknown or additional parts are refused')


def method(S, cfg):
    go(S)
    name = X.text(S, 'm', 2, 'abx')
    text, want = name, []
    for i in range(cfg['n']):
        k = 'k%d' % i
        v = X.text(S, 'v%d' % i, 2, 'km1.-')
        bare = i == 1
        text = text + ('[' if i == 0 else ',') + k + ('' if bare else '=' + v)
        want.append((k, True if bare else v))
    if cfg['n']:
        text = text + ']'
    got = P.extract_method_and_args(text, Parser())
    S.check(bool(got[0] == name), 'the method is the one named')
    S.check([str(k) for k in got[1]] == [k for k, _ in want] and all(got[1][k] is True if v is True else bool(got[1][k] == v) for k, v in want),
            'the method has just the arguments in its brackets')


def aliases(S, cfg):
    go(S)
    vs, want, bad = [], [], False
    for i in range(cfg['n']):
        v = X.text(S, 'v%d' % i, 1, 'ab')
        if S.choice('k%d' % i, [0, 1, 2]) == 0:
            vs.append(v)
            want.append((v, v))
        elif S.choice('l%d' % i, [0, 1]):
            a = X.text(S, 'a%d' % i, 1, 'abc')
            vs.append(v + '=' + a)
            want.append((v, a))
        else:
            vs.append(v + '=')
            bad = True
    unique = all(not bool(want[i][1] == want[j][1]) for i in range(len(want)) for j in range(i))
    text = vs[0]
    for v in vs[1:]:
        text = text + ',' + v
    gs = [dict(variables=P.check_is_not_empty_and_comma_split(text, Parser()))]
    try:
        P._set_aliases_for_datagroups(gs, Parser())
    except ParserError:
        S.check(bad or not unique, 'variables with different aliases are accepted')
        return
    S.check(not bad and unique, 'blank or repeated aliases are refused')
    g = gs[0]
    S.check(len(g['variables']) == len(want) == len(g['aliases']) and
            all(bool(x == w[0]) and bool(y == w[1]) for x, y, w in zip(g['variables'], g['aliases'], want)),
            'each variable has its alias')


HARNESSES = {k: globals()[k] for k in ('split', 'multi', 'limits', 'grid', 'bad_grid', 'bad_limits', 'groups', 'method', 'aliases')}
