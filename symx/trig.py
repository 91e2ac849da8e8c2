"""Symbolic meaning for the great-circle arithmetic of the code under test.

sin(u)**2 of a symbolic angle is a fresh number q(u) in [0, 1] that is (i) a function of the circular distance d of u to
the nearest multiple of 180 degrees, (ii) strictly increasing in d (stated for every pair of angles that occurs) and
(iii) pinned, through monotonicity, by the exact values at multiples of 15 degrees.  cos(u) = 1 - 2 sin(u/2)**2 is
expanded exactly.  sqrt and arcsin are kept symbolic and compared through their (increasing) arguments.  Each statement
is true of the real functions, so an assertion proved with them holds for the real functions; inputs are preferably
chosen at multiples of 15 degrees when a counterexample is extracted, where the values are exact.
"""
import math
import numpy as np
import z3
from .engine import Ctx, Sym, SymBool, lift, mkbool, sym, _real, _special, bexpr
from . import shims
from .shims import smin, smax

STEP = 15.0
EXACT = {0.0: '0', 30.0: '1/4', 45.0: '1/2', 60.0: '3/4', 90.0: '1'}
ANCHORS = [i * STEP for i in range(7)]


def _rat(x):
    from fractions import Fraction
    return z3.RealVal(str(Fraction(x)))


def hav_const(deg):
    d = abs(deg - 180.0 * round(deg / 180.0))
    return EXACT.get(d)


def q(u):
    """sin(u)**2 for u in radians"""
    if not isinstance(u, Sym):
        return q_deg(math.degrees(u))
    return q_deg(sym(_real(u.e) * _rat(180.0) / _rat(math.pi)))


def q_deg(deg):
    c = Ctx.current
    if not isinstance(deg, Sym):
        if abs(deg * 4096 - round(deg * 4096)) < 1e-7:
            deg = round(deg * 4096) / 4096.0
        e = hav_const(float(deg))
        if e is not None:
            return sym(z3.RealVal(e))
        return math.sin(math.radians(deg)) ** 2
    e = z3.simplify(snap(z3.simplify(_real(deg.e), som=True)), som=True)
    if z3.is_rational_value(e):
        v = e.as_fraction()
        return q_deg(float(v))
    reg = c.defs.setdefault('trig_q', {})
    k1, k2 = e.sexpr(), z3.simplify(-e, som=True).sexpr()
    for k in (k1, k2):
        if k in reg:
            return Sym(reg[k][1])
    d = c.fresh('circ')
    v = c.fresh('sinsq')
    c.keep.append(e)
    a0 = z3.If(e >= 0, e, -e)
    c.add(z3.And(v >= 0, v <= 1, d >= 0, d <= 90))

    def within(b):
        return c._check(z3.Or(e > b, e < -b)) == z3.unsat
    if within(90):
        c.add(d == a0)
    elif within(270):
        c.add(z3.If(a0 <= 90, d == a0, z3.If(a0 >= 180, d == a0 - 180, d == 180 - a0)))
    else:
        n = c.fresh('turn', 'I')
        w = e - 180 * z3.ToReal(n)
        c.add(z3.And(w >= -90, w <= 90, d == z3.If(w >= 0, w, -w)))
    for a in ANCHORS:
        if a in EXACT:
            lo = hi = z3.RealVal(EXACT[a])
        else:
            s = math.sin(math.radians(a)) ** 2
            lo, hi = _rat(s - 1e-14), _rat(s + 1e-14)
        c.add(z3.Implies(d <= _rat(a), v <= hi))
        c.add(z3.Implies(d >= _rat(a), v >= lo))
    for d2, v2 in reg.values():
        c.add(z3.And((d <= d2) == (v <= v2), (d >= d2) == (v >= v2)))
    reg[k1] = (d, v)
    return Sym(v)


def snap(e):
    """linear term with its coefficients freed of float rounding (constants within 1e-10 of a simple fraction)"""
    from fractions import Fraction
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        g = f.limit_denominator(4096)
        return z3.RealVal(str(g)) if g != f and abs(f - g) < Fraction(1, 10 ** 10) else e
    if z3.is_app(e) and e.num_args() and z3.is_real(e) and not z3.is_to_real(e):
        k = e.children()
        n = [snap(x) for x in k]
        if any(a is not b for a, b in zip(k, n)):
            return e.decl()(*n)
    return e


class SinSym(Sym):
    __slots__ = ('u', '_e')

    def __init__(self, u):
        self.u = u
        self._e = None

    @property
    def e(self):
        if self._e is None:
            c = Ctx.current
            v = c.fresh('sin')
            sq = q(self.u)
            c.add(v * v == _real(lift(sq)))
            self._e = v
        return self._e

    def __pow__(self, o, mod=None):
        if not isinstance(o, Sym) and o == 2:
            return q(self.u)
        return Sym(self.e).__pow__(o)

    def __mul__(self, o):
        if o is self or (isinstance(o, SinSym) and o.u is self.u):
            return q(self.u)
        return Sym(self.e) * o
    __rmul__ = __mul__

    def square(self):
        return q(self.u)


class SqrtSym(Sym):
    """sqrt(h)"""
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    @property
    def e(self):
        return _plain_sqrt(Sym(lift(self.h))).e

    def arcsin(self):
        return ArcSym(self.h, 1.0)


class ArcSym(Sym):
    """scale * arcsin(sqrt(h))"""
    __slots__ = ('h', 'scale', '_e')

    def __init__(self, h, scale):
        self.h, self.scale, self._e = h, scale, None

    @property
    def e(self):
        if self._e is None:
            # an angle t in [0, 90] degrees with sin(t)**2 == h
            c = Ctx.current
            t = c.fresh('arc')
            c.add(z3.And(t >= 0, t <= 90))
            s = q_deg(Sym(t))
            c.add(_real(lift(s)) == _real(lift(self.h)))
            self._e = t * _rat(math.pi) / 180 * _rat(self.scale)
        return self._e

    def __mul__(self, o):
        if not isinstance(o, Sym) and o != 0:
            return ArcSym(self.h, self.scale * float(o))
        return Sym(self.e) * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Sym) and _special(o) is None:
            return ArcSym(self.h, self.scale / float(o))
        return Sym(self.e) / o

    def __neg__(self):
        return ArcSym(self.h, -self.scale)
    negative = __neg__

    def _cmp3(self, o, op):
        s = _special(o)
        if s is not None:
            return {'<': s > 0, '<=': s > 0, '>': s < 0, '>=': s < 0, '==': False}[op] if s == s else False
        if isinstance(o, ArcSym) and abs(abs(o.scale) - abs(self.scale)) <= 1e-12 * abs(self.scale):
            a, b = _real(lift(self.h)), _real(lift(o.h))
            if (self.scale > 0) != (o.scale > 0):
                # signs differ: only equal when both are zero
                zero = z3.And(a == 0, b == 0)
                return mkbool({'<': z3.And(self.scale < 0, z3.Not(zero)), '<=': z3.Or(self.scale < 0, zero),
                               '>': z3.And(self.scale > 0, z3.Not(zero)), '>=': z3.Or(self.scale > 0, zero),
                               '==': zero}[op])
            if self.scale < 0:
                a, b = b, a
            return mkbool({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[op])
        b = lift(o)
        if b is None:
            return NotImplemented
        t = sym(_real(b) / _rat(self.scale) * _rat(180.0) / _rat(math.pi))     # degrees
        if self.scale < 0:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[op]
        te = _real(lift(t))
        a, hq = _real(lift(self.h)), _real(lift(q_deg(t)))
        lo, hi = te < 0, te > 90
        inr = z3.And(z3.Not(lo), z3.Not(hi))
        return mkbool({'<': z3.Or(hi, z3.And(inr, a < hq)), '<=': z3.Or(hi, z3.And(inr, a <= hq)),
                       '>': z3.Or(lo, z3.And(inr, a > hq)), '>=': z3.Or(lo, z3.And(inr, a >= hq)),
                       '==': z3.And(inr, a == hq)}[op])

    def __lt__(self, o):
        return self._cmp3(o, '<')

    def __le__(self, o):
        return self._cmp3(o, '<=')

    def __gt__(self, o):
        return self._cmp3(o, '>')

    def __ge__(self, o):
        return self._cmp3(o, '>=')

    def __eq__(self, o):
        return self._cmp3(o, '==')

    def __ne__(self, o):
        r = self._cmp3(o, '==')
        return mkbool(z3.Not(bexpr(r)))
    __hash__ = Sym.__hash__


_plain_sqrt = Sym.sqrt


class SymArray(np.ndarray):
    """object array that survives astype(float)"""
    def astype(self, dtype, *a, **k):
        if Ctx.current is not None and self.dtype == object and np.dtype(dtype).kind == 'f':
            return np.array(self)
        return np.ndarray.astype(self, dtype, *a, **k)


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    Sym.sin = lambda self: SinSym(self)
    Sym.cos = lambda self: 1.0 - 2.0 * q(self / 2.0)
    Sym.sqrt = lambda self: SqrtSym(self)
    Sym.arcsin = lambda self: SqrtSym(self * self).arcsin()
    shims._ewise('radians', lambda v: shims._num(v, lambda s: s * math.pi / 180.0, math.radians))
    shims._ewise('degrees', lambda v: shims._num(v, lambda s: s * 180.0 / math.pi, math.degrees))
    # numbers that became exact stay exact
    for name, pick in (('maximum', smax), ('minimum', smin)):
        orig = getattr(np, name)

        def f(a, b, *args, _orig=orig, _pick=pick, **kw):
            def has(x):
                return isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.dtype == object)
            if Ctx.current is not None and not args and not kw and (has(a) or has(b)):
                aa, bb = np.broadcast_arrays(np.ma.getdata(np.asarray(a, dtype=object)),
                                             np.ma.getdata(np.asarray(b, dtype=object)))
                out = np.ndarray(aa.shape, dtype=object)
                for i in np.ndindex(*aa.shape):
                    out[i] = _pick(aa[i], bb[i])
                return out.view(SymArray) if out.ndim else out[()]
            return _orig(a, b, *args, **kw)
        for at in ('reduce', 'accumulate', 'at', 'outer'):
            setattr(f, at, getattr(orig, at))
        setattr(np, name, f)


def hav(S, lat1, lon1, lat2, lon2):
    """sin(c/2)**2 for the great-circle angle c between two positions in degrees (the oracle's own definition)"""
    def sq(x):
        if S.symbolic and isinstance(x, Sym):
            return q_deg(x / 2.0)
        if S.symbolic:
            return q_deg(x / 2.0)
        return math.sin(math.radians(x) / 2) ** 2

    def cos(x):
        if isinstance(x, Sym):
            return 1.0 - 2.0 * sq(x)
        return math.cos(math.radians(x))
    a, b = sq(lat2 - lat1), sq(lon2 - lon1)
    return a + cos(lat1) * cos(lat2) * b


def hav_of_angle(S, deg):
    """sin(deg/2)**2, increasing for deg in [0, 180]"""
    if S.symbolic:
        return q_deg(deg / 2.0)
    return math.sin(math.radians(deg) / 2) ** 2


def prefer(S, names, step=30.0):
    """inputs preferably chosen at multiples of `step` when a concrete example is extracted"""
    if S.symbolic:
        p = S.ctx.__dict__.setdefault('prefer', {})
        for n in names:
            p[n] = step
