"""Symbolic calendar dates.

While `symbolic_dates()` is active (and an exploration is running) `datetime.datetime(...)`/`timedelta(...)` called with
symbolic components build SymDT/SymTD objects whose fields are solver terms (Gregorian calendar encoded in integer
arithmetic); cf_units' num2date/date2num of symbolic numbers are the exact affine maps between numbers and instants.
Calls with ordinary arguments are passed to the real classes unchanged."""
import contextlib
import datetime as _dtmod
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from .engine import Ctx, Sym, sym, mkbool

RealDT = _dtmod.datetime
RealTD = _dtmod.timedelta
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def _I(x):
    e = E.lift(x)
    return z3.ToInt(e) if not z3.is_int(e) else e


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def table(m, vals):
    e = z3.IntVal(vals[11])
    for i in range(10, -1, -1):
        e = z3.If(m == i + 1, z3.IntVal(vals[i]), e)
    return e


def month_len(y, m):
    return table(m, LEN) + z3.If(z3.And(m == 2, leap(y)), 1, 0)


def ordinal(y, m, d):
    """proleptic Gregorian ordinal, as datetime.toordinal"""
    p = y - 1
    return 365 * p + p / 4 - p / 100 + p / 400 + table(m, CUM) + z3.If(z3.And(m > 2, leap(y)), 1, 0) + d


def civil(n):
    """year, month, day terms of the ordinal n (fresh symbols pinned down by `ordinal`)"""
    c = Ctx.current
    k = ('civil', n.get_id())
    if k not in c.defs:
        c.keep.append(n)
        y, m, d = c.fresh('year', 'I'), c.fresh('month', 'I'), c.fresh('day', 'I')
        c.add(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_len(y, m), ordinal(y, m, d) == n))
        c.defs[k] = (y, m, d)
    return c.defs[k]


def instant(x):
    """Real term: days since ordinal 0"""
    if isinstance(x, SymDT):
        return x.abs
    if isinstance(x, RealDT):
        n = x.toordinal()
        us = ((x.hour * 60 + x.minute) * 60 + x.second) * 10 ** 6 + x.microsecond
        return z3.RealVal(str(Fraction(n) + Fraction(us, 86400 * 10 ** 6)))
    if hasattr(x, 'year') and hasattr(x, 'microsecond'):
        return instant(RealDT(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond))
    return None


class SymTD(object):
    def __init__(self, days, idays=None):
        self.total = E._real(days)
        self.idays = idays if idays is not None else (days if z3.is_int(days) else None)   # whole days, if known

    @property
    def days(self):
        return sym(z3.ToInt(self.total))

    @property
    def seconds(self):
        return sym(z3.ToInt((self.total - z3.ToReal(z3.ToInt(self.total))) * 86400))

    def total_seconds(self):
        return sym(self.total * 86400)

    def _o(self, o):
        if isinstance(o, SymTD):
            return o.total
        if isinstance(o, RealTD):
            return z3.RealVal(str(Fraction(o.days) + Fraction(o.seconds * 10 ** 6 + o.microseconds, 86400 * 10 ** 6)))
        return None

    def __neg__(self):
        return SymTD(-self.total)

    def __add__(self, o):
        v = self._o(o)
        if v is not None:
            return SymTD(self.total + v)
        if instant(o) is not None:
            return SymDT(instant(o) + self.total)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else SymTD(self.total - v)

    def __rsub__(self, o):
        if instant(o) is not None:
            return SymDT(instant(o) - self.total)
        v = self._o(o)
        return NotImplemented if v is None else SymTD(v - self.total)

    def __mul__(self, k):
        return SymTD(self.total * E._real(E.lift(k)))
    __rmul__ = __mul__

    def __truediv__(self, k):
        v = self._o(k)
        if v is not None:
            return E.divide(Sym(self.total), Sym(v))
        return SymTD(self.total / E._real(E.lift(k)))

    def _c(self, o, f):
        v = self._o(o)
        return NotImplemented if v is None else mkbool(f(self.total, v))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    __hash__ = None


class SymDT(object):
    """an instant"""
    microsecond = 0
    tzinfo = None
    calendar = 'standard'

    def __init__(self, abs_):
        self.abs = z3.simplify(abs_)
        self._ymd = None

    @classmethod
    def build(cls, y, m, d, H=0, M=0, Sx=0, us=0):
        c = Ctx.current
        y, m, d, H, M, Sx = (_I(x) for x in (y, m, d, H, M, Sx))
        ok = z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_len(y, m), H >= 0, H < 24, M >= 0, M < 60,
                    Sx >= 0, Sx < 60)
        if not c.branch(ok):
            raise ValueError('date out of range')
        r = cls(z3.ToReal(ordinal(y, m, d)) + z3.ToReal((H * 60 + M) * 60 + Sx) / 86400 +
                E._real(E.lift(us)) / (86400 * 10 ** 6))
        r._ymd = (y, m, d)
        r._hms = (H, M, Sx)
        return r

    def _date(self):
        if self._ymd is None:
            self._ymd = civil(z3.ToInt(self.abs))
        return self._ymd

    def _time(self):
        if not hasattr(self, '_hms'):
            s = z3.ToInt((self.abs - z3.ToReal(z3.ToInt(self.abs))) * 86400)
            self._hms = (s / 3600, (s / 60) % 60, s % 60)
        return self._hms

    year = property(lambda self: sym(self._date()[0]))
    month = property(lambda self: sym(self._date()[1]))
    day = property(lambda self: sym(self._date()[2]))
    hour = property(lambda self: sym(self._time()[0]))
    minute = property(lambda self: sym(self._time()[1]))
    second = property(lambda self: sym(self._time()[2]))

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, **k):
        y, m, d = self._date()
        if hour is None and minute is None and second is None:
            c = Ctx.current
            y2 = _I(year) if year is not None else y
            m2 = _I(month) if month is not None else m
            d2 = _I(day) if day is not None else d
            if not c.branch(z3.And(d2 <= month_len(y2, m2), d2 >= 1, m2 >= 1, m2 <= 12)):
                raise ValueError('day is out of range for month')
            frac = self.abs - z3.ToReal(z3.ToInt(self.abs))
            r = SymDT(z3.ToReal(ordinal(y2, m2, d2)) + frac)
            r._ymd = (y2, m2, d2)
            return r
        H, M, Sx = self._time()
        f = lambda a, b: b if a is None else a
        return SymDT.build(Sym(y) if year is None else year, Sym(m) if month is None else month,
                           Sym(d) if day is None else day, Sym(H) if hour is None else hour,
                           Sym(M) if minute is None else minute, Sym(Sx) if second is None else second)

    def toordinal(self, fractional=False):
        return sym(self.abs) if fractional else sym(z3.ToInt(self.abs))

    def _shift(self, o, sign):
        r = SymDT(self.abs + sign * SymTD._o(None, o))
        k = o.idays if isinstance(o, SymTD) else (z3.IntVal(o.days) if not o.seconds and not o.microseconds else None)
        if k is not None and self._ymd is not None:
            # whole days, by at most a month: closed form of the resulting date
            y, m, d = self._ymd
            k = z3.simplify(k * sign)
            L = month_len(y, m)
            py, pm = z3.If(m == 1, y - 1, y), z3.If(m == 1, 12, m - 1)
            ny, nm = z3.If(m == 12, y + 1, y), z3.If(m == 12, 1, m + 1)
            e = d + k
            up, down = e > L, e < 1
            y2 = z3.If(up, ny, z3.If(down, py, y))
            m2 = z3.If(up, nm, z3.If(down, pm, m))
            d2 = z3.If(up, e - L, z3.If(down, e + month_len(py, pm), e))
            if Ctx.current._check(z3.Not(z3.And(d2 >= 1, d2 <= month_len(y2, m2), y2 >= 1))) == z3.unsat:
                c = Ctx.current
                y3, m3, d3 = c.fresh('year', 'I'), c.fresh('month', 'I'), c.fresh('day', 'I')
                c.add(z3.And(y3 == y2, m3 == m2, d3 == d2))
                r._ymd = (y3, m3, d3)
        return r

    def __add__(self, o):
        if isinstance(o, (SymTD, RealTD)):
            return self._shift(o, 1)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTD, RealTD)):
            return self._shift(o, -1)
        i = instant(o)
        return NotImplemented if i is None else SymTD(self.abs - i)

    def __rsub__(self, o):
        i = instant(o)
        return NotImplemented if i is None else SymTD(i - self.abs)

    def _c(self, o, f):
        i = instant(o)
        return NotImplemented if i is None else mkbool(f(self.abs, i))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SymDT(%s)' % str(self.abs)[:40]


def _anysym(args):
    return any(isinstance(a, Sym) for a in args)


class _MetaDT(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (RealDT, SymDT))

    def __subclasscheck__(cls, c):
        return issubclass(c, (RealDT, SymDT))

    def __getattr__(cls, n):
        return getattr(RealDT, n)

    def __call__(cls, *a, **k):
        if Ctx.current is not None and _anysym(list(a) + list(k.values())):
            names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
            v = dict(zip(names, a), **k)
            if any(x is None for x in v.values()):
                raise TypeError('an integer is required (got type NoneType)')
            return SymDT.build(v['year'], v['month'], v['day'], v.get('hour', 0), v.get('minute', 0),
                               v.get('second', 0), v.get('microsecond', 0))
        return RealDT(*a, **k)


class FakeDT(metaclass=_MetaDT):
    pass


class _MetaTD(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (RealTD, SymTD))

    def __getattr__(cls, n):
        return getattr(RealTD, n)

    def __call__(cls, *a, **k):
        if Ctx.current is not None and _anysym(list(a) + list(k.values())):
            names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
            per = dict(days=1, seconds=86400, microseconds=86400 * 10 ** 6, milliseconds=86400 * 1000, minutes=1440,
                       hours=24, weeks=Fraction(1, 7))
            v = dict(zip(names, a), **k)
            if list(v) == ['days'] and z3.is_int(E.lift(v['days'])):
                return SymTD(E.lift(v['days']))
            t = z3.RealVal(0)
            for n, x in v.items():
                t = t + E._real(E.lift(x)) / z3.RealVal(str(per[n]))
            return SymTD(t)
        return RealTD(*a, **k)


class FakeTD(metaclass=_MetaTD):
    pass


def unit_scale(u):
    """(days per unit, instant of the reference) of a time reference unit, exact"""
    w = str(u).split(' since ')
    # exact rational of the unit length
    name = w[0].strip().lower()
    per = {'d': 1, 'h': 24, 'm': 1440, 's': 86400}
    for k, v in (('day', 1), ('hour', 24), ('hr', 24), ('min', 1440), ('sec', 86400)):
        if name.startswith(k):
            scale = Fraction(1, v)
            break
    else:
        scale = Fraction(1, per[name])
    ref = u.num2date(0)
    return scale, instant(RealDT(ref.year, ref.month, ref.day, ref.hour, ref.minute, ref.second, ref.microsecond))


def num2date_sym(u, v):
    scale, ref = unit_scale(u)
    return SymDT(ref + E._real(E.lift(v)) * z3.RealVal(str(scale)))


def date2num_sym(u, d):
    scale, ref = unit_scale(u)
    return sym((instant(d) - ref) / z3.RealVal(str(scale)))


def _map(fn, a):
    if isinstance(a, np.ndarray):
        d = np.ma.getdata(a)
        m = np.ma.getmaskarray(a)
        out = np.ndarray(d.shape, dtype=object)
        for i in np.ndindex(*d.shape):
            out[i] = d[i] if m[i] else fn(d[i])
        return np.ma.array(out, mask=m) if isinstance(a, np.ma.MaskedArray) else out
    return fn(a)


_installed = False


def install_units():
    """cf_units conversions of symbolic numbers and dates"""
    global _installed
    if _installed:
        return
    _installed = True
    import cf_units
    U = cf_units.Unit
    o_n2d, o_d2n = U.num2date, U.date2num

    def issym(x):
        if isinstance(x, np.ndarray):
            return x.dtype == object and any(isinstance(v, (Sym, SymDT)) for v in np.ma.getdata(x).flat)
        if isinstance(x, (list, tuple)):
            return any(isinstance(v, (Sym, SymDT)) for v in x)
        return isinstance(x, (Sym, SymDT))

    def num2date(self, t, *a, **k):
        if Ctx.current is not None and issym(t):
            if not isinstance(t, (np.ndarray, Sym)):
                t = np.array(t, dtype=object)
            return _map(lambda v: num2date_sym(self, v), t)
        if Ctx.current is not None and isinstance(t, np.ndarray) and t.dtype == object:
            t = np.array(t.tolist(), dtype=float)
        return o_n2d(self, t, *a, **k)

    def date2num(self, d):
        if Ctx.current is not None and issym(d):
            if not isinstance(d, (np.ndarray, SymDT)):
                d = np.array(d, dtype=object)
            return _map(lambda v: date2num_sym(self, v), d)
        return o_d2n(self, d)
    U.num2date, U.date2num = num2date, date2num


@contextlib.contextmanager
def symbolic_dates(S):
    install_units()
    if not S.symbolic:
        yield
        return
    _dtmod.datetime, _dtmod.timedelta = FakeDT, FakeTD
    try:
        yield
    finally:
        _dtmod.datetime, _dtmod.timedelta = RealDT, RealTD


def days_since_1600(y, m, d, H=0, M=0, Sx=0):
    """oracle: days between 1600-01-01 and the given (possibly symbolic) date, from the calendar definition.  Ordinary
    numbers are handled by counting, independently of datetime."""
    if any(isinstance(x, Sym) for x in (y, m, d, H, M, Sx)):
        y, m, d, H, M, Sx = (_I(x) for x in (y, m, d, H, M, Sx))
        return Sym(z3.simplify(z3.ToReal(ordinal(y, m, d) - 584023) + z3.ToReal((H * 60 + M) * 60 + Sx) / 86400))
    n = 0
    for yy in range(1600, y):
        n += 366 if (yy % 4 == 0 and (yy % 100 != 0 or yy % 400 == 0)) else 365
    for mm in range(1, m):
        n += LEN[mm - 1] + (1 if mm == 2 and y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 0)
    return n + (d - 1) + ((H * 60 + M) * 60 + Sx) / 86400.0
