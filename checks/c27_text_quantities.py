"""C27: time steps, distances and (partial) date/times given as text mean what they say."""
import datetime
from symx import symstr as X
from symx import dates as D
from symx.build import quiet_metadata
from symx.engine import Sym
import cis.utils as utils
import cis.parse_datetime as PD
import cis.collocation.col_implementations as CI
from cis.exceptions import InvalidCommandLineOptionError

quiet_metadata()
D.install_units()
X.install(utils, PD, CI)
STUBS = [X.NOTE, 'datetime/timedelta with symbolic components: the Gregorian calendar in integer arithmetic',
         'dateutil (other formats of dates): not used on symbolic text']
BOUNDS = {'quick': 'time steps with any set of the six periods of 1-2 arbitrary digits each (either case); distances of 1-2 '
                   'digits with optional sign, decimals, exponent, spaces and units; partial date/times with arbitrary digits; '
                   'and every text of up to 4 characters of the relevant alphabets',
          'thorough': '1-3 digits; every text of up to 5 characters'}
OUTSIDE = 'dates in other formats (dateutil); repeated periods; years before 1600; units of steps within the collocation itself'
ASSUMPTIONS = []
DAYS = {'Y': 365, 'M': 30, 'D': 1}
SECS = {'H': 3600, 'M': 60, 'S': 1}


class ParserError(Exception):
    pass


class Parser(object):
    def error(self, msg):
        raise ParserError()

    def exit(self, *a, **k):
        raise ParserError()


def configs(tier):
    out = []
    thorough = tier == 'thorough'
    for k in range(64):
        date = [c for i, c in enumerate('YMD') if k >> i & 1]
        time = [c for i, c in enumerate('HMS') if k >> (3 + i) & 1]
        if k:
            for sep in ('T', ' ', ':') if time and (k % 3 == 0 or thorough) else ('T',):
                for n in (1, 2, 3) if thorough else (1 + k % 2,):
                    out.append(dict(harness='delta', date=''.join(date), time=''.join(time), n=n, sep=sep, _w=n))
    for n in range(0, 6 if thorough else 5):
        out.append(dict(harness='delta_bad', n=n, _w=4 ** n / 20))
        out.append(dict(harness='distance_bad', n=n, _w=4 ** n / 20))
    for sign in ('', '-', '+'):
        for whole, frac in ((1, None), (2, None), (1, 0), (1, 2), (0, 1), (3, 1)):
            for ex in (None, 'e1', 'E+1', 'e-1'):
                for unit in ('', 'm', 'km', ' km', ' m '):
                    if (ex and whole > 1 or sign == '+' and ex) and not thorough:
                        continue
                    out.append(dict(harness='distance', sign=sign, whole=whole, frac=frac, ex=ex, unit=unit))
    for k in range(1, 7):
        for nd in (1, 2):
            for sep in ('T', ' ', ':') if k > 3 else ('',):
                out.append(dict(harness='partial', k=k, nd=nd, sep=sep, _w=2 * k))
    out.append(dict(harness='separation'))
    return out


def either_case(S, name, c):
    return X.text(S, name, 1, c + c.lower())


def delta(S, cfg):
    text, days, secs = either_case(S, 'P', 'P'), 0, 0
    n = cfg['n']
    for c in cfg['date']:
        d = X.text(S, 'd' + c, n, X.DIGITS)
        text = text + d + either_case(S, 'c' + c, c)
        days = days + X.digits_value(d) * DAYS[c]
    if cfg['time']:
        text = text + cfg['sep']
    for c in cfg['time']:
        d = X.text(S, 't' + c, n, X.DIGITS)
        text = text + d + either_case(S, 'x' + c, c)
        secs = secs + X.digits_value(d) * SECS[c]
    with D.symbolic_dates(S):
        got = PD.parse_datetimestr_delta_to_float_days(text)
        td = PD.parse_as_number_or_datetime_delta(text)
        S.check(S.near(got, days + secs / 86400, 1e-9), 'a time step is the sum of its periods (in days)')
        S.check(S.near(td.total_seconds(), days * 86400 + secs, 1e-9), 'a time step is the sum of its periods')


def delta_bad(S, cfg):
    text = X.text(S, 's', cfg['n'], 'PTDHM1.- ')
    ok = bool(X.re.match(r'P([0-9]+[YMD])*([T :]([0-9]+[HMS])*)?$', text))
    with D.symbolic_dates(S):
        try:
            PD.parse_datetimestr_delta_to_float_days(text)
            got = True
        except ValueError:
            got = False
    S.check(got == ok, 'just the texts which are made of whole periods are time steps')


def number(S, cfg):
    w = X.text(S, 'w', cfg['whole'], X.DIGITS)
    f = X.text(S, 'f', cfg['frac'] or 0, X.DIGITS)
    v = X.digits_value(w) + (X.digits_value(f) / 10 ** cfg['frac'] if cfg['frac'] else 0)
    t = cfg['sign'] + w + ('' if cfg['frac'] is None else '.') + f
    if cfg['sign'] == '-':
        v = -v
    if cfg['ex']:
        t = t + cfg['ex']
        v = v * 10 if '-' not in cfg['ex'] else v / 10
    return t, v


def distance(S, cfg):
    t, v = number(S, cfg)
    t = t + cfg['unit']
    km = v / 1000 if cfg['unit'].strip() == 'm' else v
    m = v * 1000 if cfg['unit'].strip() == 'km' else v
    S.check(S.near(utils.parse_distance_with_units_to_float_km(t), km), 'horizontal distances are kilometres unless given in metres')
    S.check(S.near(utils.parse_distance_with_units_to_float_m(t), m), 'altitudes are metres unless given in kilometres')
    c = CI.SepConstraint(h_sep=t, a_sep=t)
    S.check(S.near(c.h_sep, km) and S.near(c.a_sep, m), 'the separations are those given')
    c = CI.SepConstraintKdtree(h_sep=t, a_sep=t)
    S.check(S.near(c.h_sep, km) and S.near(c.a_sep, m), 'the separations are those given')


def distance_bad(S, cfg):
    text = X.text(S, 's', cfg['n'], '12.+ekm% ')
    num = r'[-+]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][-+]?[0-9]+)?'
    ok = bool(X.re.match(r'\s*%s\s*(?:k?m)?\s*$' % num, text) or X.re.match(r'\s*k?m\s*%s\s*$' % num, text))
    for f in (utils.parse_distance_with_units_to_float_km, utils.parse_distance_with_units_to_float_m):
        try:
            f(text)
            got = True
        except InvalidCommandLineOptionError:
            got = False
        S.check(got == ok, 'just a number with or without m or km is a distance')


NAMES = ['Y', 'M', 'D', 'h', 'm', 's']
SEPS = ['', '-', '-', None, ':', ':']


def partial_text(S, p, k, nd, sep):
    text, v = '', []
    for i in range(k):
        d = X.text(S, p + NAMES[i], 4 if i == 0 else nd, X.DIGITS)
        text = text + (sep if SEPS[i] is None else SEPS[i]) + d
        v.append(X.digits_value(d))
    S.assume(v[0] >= 1600)
    return text, v


def valid_fields(v):
    f = v + [1, 1, 0, 0, 0][len(v) - 1:]
    if not (f[1] >= 1 and f[1] <= 12 and f[2] >= 1 and f[3] <= 23 and f[4] <= 59 and f[5] <= 59):
        return False
    if f[2] <= 28:
        return True
    if f[2] > 31:
        return False
    if f[1] == 2:
        leap = f[0] % 4 == 0 and (f[0] % 100 != 0 or f[0] % 400 == 0)
        return bool(leap and f[2] == 29)
    if f[1] == 4 or f[1] == 6 or f[1] == 9 or f[1] == 11:
        return bool(f[2] <= 30)
    return True


def first_last(v):
    """the first and last instant of the period (in days since 1600)"""
    k = len(v)
    lo = D.days_since_1600(*(list(v) + [1, 1, 0, 0, 0][k - 1:]))
    second = 1.0 / 86400
    if k == 1:
        hi = D.days_since_1600(v[0] + 1, 1, 1, 0, 0, 0) - second
    elif k == 2:
        hi = (D.days_since_1600(v[0], v[1] + 1, 1, 0, 0, 0) if v[1] < 12 else D.days_since_1600(v[0] + 1, 1, 1, 0, 0, 0)) - second
    else:
        hi = lo + {3: 86399, 4: 3599, 5: 59, 6: 0}[k] / 86400
    return lo, hi


def partial(S, cfg):
    text, v = partial_text(S, '', cfg['k'], cfg['nd'], cfg['sep'])
    S.assume(v[0] <= 9998)
    with D.symbolic_dates(S):
        good = valid_fields(v)
        try:
            got = PD.parse_partial_datetime(text, 'date', Parser())
        except ParserError:
            got = None
        S.check((got is not None) == good, 'just possible dates are accepted')
        if good:
            lo, hi = first_last(v)
            S.check(same_time(S, got.min(), lo) and same_time(S, got.max(), hi), 'a partial date is the whole period it names')
            S.check(same_time(S, PD.parse_datetime(text, 'date', Parser()), lo), 'the start of a range is the earliest compatible time')
            S.check(same_time(S, PD.parse_datetime(text, 'date', Parser(), latest=True), hi), 'the end of a range is the latest compatible time')


def utc(dt):
    """days since 1600"""
    if type(dt) is D.RealDT:
        return (dt - D.RealDT(1600, 1, 1)).total_seconds() / 86400
    return Sym(D.instant(dt)) - 584023


def same_time(S, a, b):
    return bool(S.near((utc(a) - b) * 86400, 0, 1e-2))


def separation(S, cfg):
    d = X.text(S, 'p', 2, X.DIGITS)
    e = X.text(S, 't', 2, X.DIGITS)
    p = d + '.5'
    t = 'PT' + e + 'M'
    with D.symbolic_dates(S):
        for C in (CI.SepConstraint, CI.SepConstraintKdtree):
            c = C(p_sep=p, t_sep=t)
            S.check(S.near(c.p_sep, X.digits_value(d) + 0.5) and S.near(c.t_sep, X.digits_value(e) / 1440),
                    'the separations are those given')
            bad = X.text(S, 'b' + C.__name__, 2, '1x.')
            try:
                C(p_sep=bad)
                ok = True
            except InvalidCommandLineOptionError:
                ok = False
            S.check(ok == bool(X.re.match(r'(1+\.?1*|\.1)$', bad)), 'separations which are no numbers are refused')


HARNESSES = {k: v for k, v in list(globals().items()) if k in ('delta', 'delta_bad', 'distance', 'distance_bad', 'partial', 'separation')}
