"""symx: a small solver-backed symbolic executor for Python/numpy code.

The code under analysis is *not* translated: the real functions are imported from /repo and executed by
the ordinary interpreter, with symbolic scalars (z3 terms) sitting inside numpy object arrays.  Arithmetic on
them builds z3 terms; every place where the interpreter or numpy needs a truth value (`if`, comparison of
arrays, sorting, searching, boolean indexing, min/max ...) forks the execution.  All feasible outcomes of every fork are
explored by depth first re-execution, infeasible ones being discarded by the solver, so when the exploration
finishes the set of paths partitions *all* values of the symbolic inputs within the stated bounds.  An assertion is
decided on every path by asking the solver for (path condition AND NOT assertion).
"""
import os
import sys
import time
from fractions import Fraction

import z3

z3.set_param('smt.random_seed', 0)
_WHERE = os.environ.get('SYMX_WHERE')


# ---------------------------------------------------------------------------------------------------------------
# control flow exceptions: BaseException, so that `except Exception` in the code under test cannot swallow them
class Steer(BaseException):
    pass


class Infeasible(Steer):
    """An assumption is false on this path."""


class PathAbort(Steer):
    """This path is finished (for instance: it could not be encoded)."""


class Unsupported(Steer):
    """The code reached something the engine has no symbolic meaning for."""


class Unknown(Steer):
    """The solver answered unknown."""


class Deadline(Steer):
    pass


class Stats(object):
    FIELDS = ('paths', 'infeasible_paths', 'branches', 'queries', 'solver_s', 'assertions', 'assertion_queries',
              'concretised', 'validated', 'validation_mismatch', 'unsupported', 'reached', 'unknown')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Ctx(object):
    """One execution path."""
    current = None

    def __init__(self, prefix, stats, query_timeout_ms=20000, deadline=None, path_cap=4000):
        self.prefix = prefix
        self.pos = 0
        self.trace = []            # decisions taken
        self.pending = []          # alternative prefixes discovered on this path
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.pc = []
        self.vars = {}             # name -> z3 const
        self.decided = {}
        self.deadline = deadline
        self.path_cap = path_cap
        self.nfresh = 0
        self.steered = None        # a Steer exception that was raised (in case a bare except swallowed it)
        self.concretised = False
        self.keep = []             # keep asts alive (ids are used as keys)
        self.defs = {}             # memoised definitions (sqrt etc)
        self.soft = []             # extra facts for defined symbols

    # -- solver ------------------------------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.monotonic()
        if self.deadline is not None and t > self.deadline:
            self.steer(Deadline())
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.monotonic() - t
        if r == z3.unknown:
            # second opinion from a fresh solver (the incremental core gives up more easily on nonlinear goals)
            s = z3.Solver()
            s.set('timeout', 30000)
            s.add(*self.pc)
            s.add(*extra)
            t = time.monotonic()
            r = s.check()
            self.stats.solver_s += time.monotonic() - t
            if r == z3.unknown:
                self.stats.unknown += 1
                self.steer(Unknown('solver unknown: %s' % s.reason_unknown()))
        return r

    def steer(self, exc):
        self.steered = exc
        raise exc

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.steer(Infeasible())
        self.add(c)
        if self.pos >= len(self.prefix):
            if self._check() == z3.unsat:
                self.steer(Infeasible())

    def branch(self, c):
        """Decide the truth of z3 Bool c on this path, forking when both are possible."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.decided:
            return self.decided[k]
        if self.pos < len(self.prefix):
            implied, val = self.prefix[self.pos]
        else:
            nc = z3.Not(c)
            if self._check(c) == z3.unsat:
                val, implied = False, True
            elif self._check(nc) == z3.unsat:
                val, implied = True, True
            else:
                val, implied = True, False
                self.pending.append(self.trace + [(False, False)])
        self.pos += 1
        self.trace.append((implied, val))
        if len(self.trace) > self.path_cap:
            self.steer(Unsupported('path longer than %d decisions' % self.path_cap))
        self.stats.branches += 1
        if not implied:
            self.add(c if val else z3.Not(c))
        self.keep.append(c)
        self.decided[k] = val
        nc = z3.simplify(z3.Not(c))
        self.keep.append(nc)
        self.decided[nc.get_id()] = not val
        return val

    def valid(self, c):
        """None if c holds for every value on this path, otherwise a solver (sat state) of the negation"""
        c = z3.simplify(c)
        self.stats.assertions += 1
        if z3.is_true(c):
            return None
        self.stats.assertion_queries += 1
        if self._check(z3.Not(c)) == z3.unsat:
            return None
        return z3.Not(c)

    def fresh(self, base, sort='R'):
        self.nfresh += 1
        name = '%s!%d' % (base, self.nfresh)
        return z3.Real(name) if sort == 'R' else z3.Int(name)

    def model_values(self, extra=(), nice=True):
        """A satisfying assignment of the path condition (and `extra`) for the declared inputs: dict name -> value.
        Prefers small dyadic rationals so that a float64 replay is exact."""
        attempts = []
        prefer = getattr(self, 'prefer', None)
        if nice:
            if prefer:
                attempts += [('prefer', 400), ('prefer', None)]
            attempts += [(4, 400), (16, 200000)]
        attempts += [None]
        for att in attempts:
            s = z3.Solver()
            s.set('timeout', 8000)
            s.add(*self.pc)
            s.add(*extra)
            if att is not None and att[0] == 'prefer':
                for n, step in prefer.items():
                    if n in self.vars:
                        k = z3.Int('pf!' + n)
                        f = Fraction(step)
                        s.add(self.vars[n] == z3.ToReal(k) * z3.RealVal(str(f)))
                for n, v in self.vars.items():
                    if att[1] and n not in prefer and z3.is_real(v):
                        k = z3.Int('dy!' + n)
                        s.add(v * 4 == z3.ToReal(k), k >= -20000, k <= 20000)
            elif att is not None:
                den, bound = att
                for n, v in self.vars.items():
                    if z3.is_real(v):
                        k = z3.Int('dy!' + n)
                        s.add(v * den == z3.ToReal(k), k >= -bound * den, k <= bound * den)
            t = time.monotonic()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.monotonic() - t
            if r == z3.sat:
                m = s.model()
                out = {}
                for n, v in self.vars.items():
                    out[n] = z3_to_py(m.eval(v, model_completion=True))
                self.last_model = m
                return out
        return None


def z3_to_py(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError('cannot read model value %r' % (v,))


# ---------------------------------------------------------------------------------------------------------------
import numpy as np  # noqa: E402

_NUM = (int, float, np.integer, np.floating, Fraction)


def lift(x):
    """Python/numpy scalar -> z3 term, or None"""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')):
            return None
        return z3.RealVal(str(Fraction(f)))
    return None


def _special(x):
    """nan / +-inf as float, else None"""
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')):
            return f
    return None


def _real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def _both(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return _real(a), _real(b)


def sym(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if Fraction(float(f)) == f:
            return float(f)
    return Sym(e)


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return Ctx.current.branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bexpr(o)))
    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))
    logical_not = __invert__

    def __eq__(self, o):
        return mkbool(self.e == bexpr(o))

    def __ne__(self, o):
        return mkbool(self.e != bexpr(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Sym):
        return x.e != 0
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bexpr(x.item())
    return z3.BoolVal(bool(x))


class Sym(object):
    """A symbolic real or integer number."""
    __slots__ = ('e', '__weakref__')

    def __init__(self, e):
        self.e = e

    # numpy/pandas poke at these
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(object)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def copy(self):
        return self

    def view(self, *a):
        return self

    def astype(self, dtype, **kw):
        if np.dtype(dtype).kind in 'fO':
            return self
        return np.dtype(dtype).type(int(self) if np.dtype(dtype).kind in 'iu' else bool(self))

    def __repr__(self):
        return 'Sym(%s)' % str(self.e)[:60]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __hash__(self):
        # hashing by term identity: only sound for containers keyed on identity; a user of hashes on values would
        # compare with __eq__ afterwards, but could miss equal values with different hashes
        return concretise(self).__hash__()

    # ---- arithmetic
    def _arith(self, o, f, special):
        s = _special(o)
        if s is not None:
            return special(s)
        b = lift(o)
        if b is None:
            return NotImplemented
        x, y = _both(self.e, b)
        return sym(f(x, y))

    def _sp_add(self, s):
        return s

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda s: s)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a, lambda s: s)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda s: -s)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, lambda s: s)

    def _spmul(self, s):
        if s != s:
            return s
        if self > 0:
            return s
        if self < 0:
            return -s
        return float('nan')

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b, self._spmul)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: b * a, self._spmul)

    def __truediv__(self, o):
        s = _special(o)
        if s is not None:
            return s if s != s else 0.0
        return divide(self, o)

    def __rtruediv__(self, o):
        s = _special(o)
        if s is not None:
            return self._spmul(s)
        return divide(o, self)

    def __floordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return floordiv(self.e, b)

    def __rfloordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return floordiv(b, self.e)

    def __mod__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return self - floordiv(self.e, b) * o

    def __rmod__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return o - floordiv(b, self.e) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self):
        return sym(-self.e)

    def negative(self):
        return sym(-self.e)

    def __pos__(self):
        return self
    positive = __pos__

    def __abs__(self):
        return sym(z3.If(self.e >= 0, self.e, -self.e))

    def fabs(self):
        return abs(self)
    absolute = fabs

    def square(self):
        return self * self

    def __pow__(self, o, mod=None):
        if isinstance(o, (int, np.integer)) or (isinstance(o, (float, np.floating)) and float(o).is_integer()):
            n = int(o)
            if n == 0:
                return 1.0
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            if n < 0:
                r = 1.0 / r
            return r
        if isinstance(o, (float, np.floating)) and float(o) == 0.5:
            return self.sqrt()
        return unary_uf('pow_%s' % o, self)

    def __rpow__(self, o):
        return unary_uf('exp_%s' % o, self)

    def sqrt(self):
        c = Ctx.current
        k = ('sqrt', self.e.get_id())
        if k not in c.defs:
            if not SymBool(self.e >= 0):
                c.defs[k] = float('nan')
            else:
                r = c.fresh('sqrt')
                c.keep.append(self.e)
                c.add(z3.And(r >= 0, r * r == _real(self.e)))
                c.defs[k] = Sym(r)
        return c.defs[k]

    def log10(self):
        return unary_uf('log10', self)

    def log(self):
        return unary_uf('log', self)

    def exp(self):
        return unary_uf('exp', self)

    def sin(self):
        return unary_uf('sin', self)

    def cos(self):
        return unary_uf('cos', self)

    def tan(self):
        return unary_uf('tan', self)

    def arcsin(self):
        return unary_uf('arcsin', self)

    def arctan(self):
        return unary_uf('arctan', self)

    def floor(self):
        return floordiv(self.e, z3.IntVal(1))

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())
    ceil = __ceil__

    def __round__(self, n=0):
        if n:
            k = 10 ** n
            return (self * k).rint() / k
        return self.rint()

    def rint(self):
        f = floordiv(self.e, z3.IntVal(1))
        d = self - f
        if d > 0.5:
            return f + 1
        if d < 0.5:
            return f
        if (f % 2) == 0:
            return f
        return f + 1

    def __trunc__(self):
        if self >= 0:
            return self.floor()
        return -((-self).floor())
    trunc = __trunc__

    # ---- comparison
    def _cmp(self, o, f, special):
        s = _special(o)
        if s is not None:
            return False if s != s else special(s)
        b = lift(o)
        if b is None:
            return NotImplemented
        x, y = _both(self.e, b)
        return mkbool(f(x, y))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda s: s > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda s: s > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda s: s < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda s: s < 0)

    def __eq__(self, o):
        if _special(o) is not None:
            return False
        b = lift(o)
        if b is None:
            return NotImplemented
        x, y = _both(self.e, b)
        return mkbool(x == y)

    def __ne__(self, o):
        if _special(o) is not None:
            return True
        b = lift(o)
        if b is None:
            return NotImplemented
        x, y = _both(self.e, b)
        return mkbool(x != y)

    def __bool__(self):
        return Ctx.current.branch(self.e != 0)

    # ---- concretisation: leaves the symbolic world (recorded; the path no longer covers all values)
    def __float__(self):
        return float(concretise(self))

    def __int__(self):
        if z3.is_int(self.e):
            return int(enumerate_int(self))
        t = self.__trunc__()
        if isinstance(t, Sym):
            return int(enumerate_int(t))
        return int(t)

    def __index__(self):
        if z3.is_int(self.e):
            return int(enumerate_int(self))
        raise TypeError('symbolic real used as an index')

    def is_integer(self):
        return (self - self.floor()) == 0

    def item(self):
        return self


def enumerate_int(s):
    """Exact case split of a symbolic integer over its (bounded) values."""
    c = Ctx.current
    e = s.e
    for v in range(0, 64):
        for w in ((v,) if v == 0 else (v, -v)):
            if c.branch(e == w):
                return w
    c.steer(Unsupported('symbolic integer outside [-63, 63] used as an index'))


def concretise(s):
    """Pin a symbolic value to one solver-chosen value. The path is marked: it is no longer exhaustive."""
    c = Ctx.current
    if c is None:
        raise Unsupported('symbolic value outside an exploration')
    if _WHERE:
        import traceback
        print('CONCRETISE', ''.join(traceback.format_stack(limit=9)[:-1]))
    if c.no_concretise:
        c.steer(Unsupported('symbolic value forced to a machine number'))
    if c.pos < len(c.prefix):
        _, f = c.prefix[c.pos]
    else:
        if c._check() != z3.sat:
            c.steer(Infeasible())
        m = c.solver.model()
        f = float(z3_to_py(m.eval(s.e, model_completion=True)))
        c.stats.concretised += 1
    c.pos += 1
    c.trace.append(('pin', f))
    c.concretised = True
    c.assume(_real(s.e) == z3.RealVal(str(Fraction(f))))
    return f


Ctx.no_concretise = False


def divide(a, b):
    """numpy true division semantics"""
    ea, eb = lift(a), lift(b)
    if ea is None or eb is None:
        return NotImplemented
    ea, eb = _real(ea), _real(eb)
    if not (z3.is_rational_value(eb) and not z3.is_true(z3.simplify(eb == 0))):
        if Ctx.current.branch(eb == 0):
            if Ctx.current.branch(ea == 0):
                return float('nan')
            if Ctx.current.branch(ea > 0):
                return float('inf')
            return float('-inf')
    return sym(ea / eb)


def floordiv(a, b):
    """floor(a / b) for real or integer terms: a fresh integer q with q*b <= a < (q+1)*b."""
    c = Ctx.current
    k = ('fd', a.get_id(), b.get_id())
    if k in c.defs:
        return c.defs[k]
    c.keep += [a, b]
    isint = z3.is_int(a) and z3.is_int(b)
    if not (z3.is_rational_value(b) or z3.is_int_value(b)):
        if c.branch(b == 0):
            return float('nan')
    if isint and z3.is_int_value(b) and b.as_long() > 0:
        r = sym(a / b)
    elif z3.is_true(z3.simplify(b == 1)):
        r = sym(z3.ToInt(_real(a)))
        if not isint:
            r = sym(_real(lift(r)))
    else:
        q = c.fresh('fdiv', 'I')
        x, y = _real(a), _real(b)
        qr = z3.ToReal(q)
        pos = z3.And(qr * y <= x, x < (qr + 1) * y)
        neg = z3.And(qr * y >= x, x > (qr + 1) * y)
        c.add(z3.If(y > 0, pos, neg))
        r = Sym(q if isint else qr)
    c.defs[k] = r
    return r


_UFS = {}
UF_AXIOMS = {}


def unary_uf(name, s):
    """Transcendental function: an uninterpreted function (any function at all), plus axioms if registered."""
    if name not in _UFS:
        _UFS[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    t = _UFS[name](_real(s.e))
    c = Ctx.current
    if name in UF_AXIOMS:
        k = ('ax', name, s.e.get_id())
        if k not in c.defs:
            c.keep.append(s.e)
            c.defs[k] = True
            c.add(UF_AXIOMS[name](_real(s.e), t))
    return Sym(t)


def fork_bool(name):
    c = Ctx.current
    v = z3.Bool(name)
    c.vars[name] = v
    return c.branch(v)
