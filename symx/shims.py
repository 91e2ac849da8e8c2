"""numpy entry points whose C implementation cannot hold or inspect symbolic scalars.

Each replacement behaves exactly like numpy unless (a) an exploration is running and (b) it is called from a module of
the code under test (allocation functions) or is handed an object array (elementwise functions); it then allocates an
object array with the same contents, or applies the function element by element.  They are installed before cis is
imported, and are inert during concrete replays (no exploration is running then).
"""
import math
import sys
import functools
import numpy as np
from .engine import Ctx, Sym, SymBool, unary_uf

CODE_UNDER_TEST = ('cis',)
_orig = {}


def _from_cis(depth=2):
    f = sys._getframe(depth)
    n = f.f_globals.get('__name__', '')
    return n.split('.')[0] in CODE_UNDER_TEST


def _active():
    return Ctx.current is not None


def _floating(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind == 'f'
    except TypeError:
        return False


def _alloc(name, fill):
    orig = getattr(np, name)
    _orig[name] = orig

    @functools.wraps(orig)
    def f(shape, dtype=None, order='C', **kw):
        if _active() and _floating(dtype) and not kw and _from_cis():
            out = np.ndarray(shape, dtype=object)
            out[...] = fill
            return out
        if dtype is None:
            return orig(shape, order=order, **kw)
        return orig(shape, dtype, order=order, **kw)
    setattr(np, name, f)


def _alloc_like(name, fill):
    orig = getattr(np, name)
    _orig[name] = orig

    @functools.wraps(orig)
    def f(a, *args, **kw):
        if _active() and _from_cis():
            dt = args[0] if args else kw.get('dtype')
            if (dt is None and np.asarray(a).dtype.kind in 'fO') or (dt is not None and _floating(dt)):
                out = np.ndarray(np.shape(a), dtype=object)
                out[...] = fill
                return out
        return orig(a, *args, **kw)
    setattr(np, name, f)


def _ewise(name, scalar, bool_result=False):
    """Replace ufunc `name` so that object arrays are handled element by element."""
    orig = getattr(np, name)
    _orig[name] = orig

    @functools.wraps(orig)
    def f(x, *args, **kw):
        if _active():
            if isinstance(x, (Sym, SymBool)):
                return scalar(x)
            arr = x if isinstance(x, np.ndarray) else None
            if arr is None and isinstance(x, (list, tuple)):
                arr = np.asarray(x)
            if arr is not None and arr.dtype == object:
                mask = np.ma.getmask(arr)
                d = np.ma.getdata(arr)
                out = np.ndarray(d.shape, dtype=bool if bool_result else object)
                for i in np.ndindex(*d.shape):
                    if mask is not np.ma.nomask and mask[i]:
                        out[i] = False if bool_result else d[i]
                    else:
                        out[i] = scalar(d[i])
                if d.ndim == 0:
                    return out[()]
                if kw.get('out') is not None:
                    kw['out'][...] = out
                    return kw['out']
                if isinstance(arr, np.ma.MaskedArray):
                    return np.ma.array(out, mask=mask)
                return out
        return orig(x, *args, **kw)
    for attr in ('reduce', 'accumulate', 'outer', 'at', 'nin', 'nout', 'types', 'ntypes', 'nargs', 'identity'):
        if hasattr(orig, attr):
            try:
                setattr(f, attr, getattr(orig, attr))
            except Exception:
                pass
    setattr(np, name, f)


def _num(x, fsym, ffloat):
    if isinstance(x, Sym):
        return fsym(x)
    return ffloat(float(x))


def _safe(fn):
    def g(v):
        try:
            return fn(v)
        except ValueError:
            return float('nan')
    return g


def _isnan(v):
    return (not isinstance(v, (Sym, SymBool))) and isinstance(v, (float, np.floating)) and v != v


def _isinf(v):
    return (not isinstance(v, (Sym, SymBool))) and isinstance(v, (float, np.floating)) and math.isinf(v)


def _isfinite(v):
    return isinstance(v, (Sym, SymBool)) or not (_isnan(v) or _isinf(v))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for n, v in (('zeros', 0.0), ('ones', 1.0), ('empty', 0.0)):
        _alloc(n, v)
    for n, v in (('zeros_like', 0.0), ('ones_like', 1.0), ('empty_like', 0.0)):
        _alloc_like(n, v)
    orig_full = np.full
    _orig['full'] = orig_full

    @functools.wraps(orig_full)
    def full(shape, fill_value, dtype=None, order='C', **kw):
        if _active() and not kw and _from_cis() and (
                (dtype is None and isinstance(fill_value, (float, np.floating, Sym))) or
                (dtype is not None and _floating(dtype))):
            out = np.ndarray(shape, dtype=object)
            out[...] = fill_value
            return out
        return orig_full(shape, fill_value, dtype=dtype, order=order, **kw)
    np.full = full

    _ewise('isnan', _isnan, True)
    _ewise('isinf', _isinf, True)
    _ewise('isfinite', _isfinite, True)
    import numpy.ma.core as _mc
    _mc.umath.isfinite = np.isfinite          # (masked division looks for non-finite results)
    for n in ('sin', 'cos', 'tan', 'exp', 'sqrt'):
        _ewise(n, lambda v, n=n: _num(v, lambda s: getattr(s, n)(), _safe(getattr(math, n))))
    _ewise('log10', lambda v: _num(v, lambda s: s.log10(), _safe(math.log10)))
    _ewise('log', lambda v: _num(v, lambda s: s.log(), _safe(math.log)))
    _ewise('arcsin', lambda v: _num(v, lambda s: s.arcsin(), _safe(math.asin)))
    _ewise('arccos', lambda v: _num(v, lambda s: unary_uf('arccos', s), _safe(math.acos)))
    _ewise('arctan', lambda v: _num(v, lambda s: s.arctan(), math.atan))
    _ewise('radians', lambda v: _num(v, lambda s: s * (math.pi / 180.0), math.radians))
    _ewise('degrees', lambda v: _num(v, lambda s: s * (180.0 / math.pi), math.degrees))
    _ewise('floor', lambda v: _num(v, lambda s: s.floor(), lambda f: float(math.floor(f))))
    _ewise('ceil', lambda v: _num(v, lambda s: s.ceil(), lambda f: float(math.ceil(f))))

    o_isclose, o_allclose = np.isclose, np.allclose

    def _has_sym(x):
        return isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.dtype == object) or \
            (isinstance(x, (list, tuple)) and any(isinstance(v, Sym) for v in x))

    @functools.wraps(o_isclose)
    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if _active() and (_has_sym(a) or _has_sym(b)):
            aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.ndarray(aa.shape, dtype=bool)
            for i in np.ndindex(*aa.shape):
                x, y = aa[i], bb[i]
                if _isnan(x) or _isnan(y):
                    out[i] = equal_nan and _isnan(x) and _isnan(y)
                elif _isinf(x) or _isinf(y):
                    out[i] = bool(x == y)
                else:
                    out[i] = bool(abs(x - y) <= atol + rtol * abs(y))
            return out if out.ndim else bool(out)
        return o_isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)

    @functools.wraps(o_allclose)
    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if _active() and (_has_sym(a) or _has_sym(b)):
            return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))
        return o_allclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    np.isclose, np.allclose = isclose, allclose

    # iris.analysis.cartography.wrap_lons starts with .astype(float64), which cannot hold symbolic values
    import iris.analysis.cartography as cart
    orig_wrap = cart.wrap_lons

    @functools.wraps(orig_wrap)
    def wrap_lons(lons, base, period):
        if _active() and getattr(lons, 'dtype', None) == object:
            return ((lons - base) % period) + base
        return orig_wrap(lons, base, period)
    cart.wrap_lons = wrap_lons

    # numpy.ma reductions that post-process the scalar result with ndarray methods
    MA = np.ma.MaskedArray

    def wrap_minmax(name, pick):
        orig = getattr(MA, name)

        @functools.wraps(orig)
        def f(self, axis=None, out=None, fill_value=None, keepdims=np._NoValue):
            if not (_active() and self.dtype == object):
                return orig(self, axis=axis, out=out, fill_value=fill_value, keepdims=keepdims)
            return _ma_reduce(self, axis, lambda vals: functools.reduce(pick, vals), keepdims)
        setattr(MA, name, f)
    orig_astype = MA.astype

    def ma_astype(self, dtype, *a, **k):
        if _active() and self.dtype == object and _floating(dtype):
            return self.copy()
        return orig_astype(self, dtype, *a, **k)
    MA.astype = ma_astype
    wrap_minmax('min', smin)
    wrap_minmax('max', smax)
    _install_arange()
    _install_stats()
    _install_ma_alloc()
    _install_ma_divide()


def smin(a, b):
    """min as a term (no fork)"""
    from .engine import lift, _both, sym, _special
    import z3
    if isinstance(a, Sym) or isinstance(b, Sym):
        if _special(a) is None and _special(b) is None:
            x, y = _both(lift(a), lift(b))
            return sym(z3.If(x <= y, x, y))
    return a if a <= b else b


def smax(a, b):
    from .engine import lift, _both, sym, _special
    import z3
    if isinstance(a, Sym) or isinstance(b, Sym):
        if _special(a) is None and _special(b) is None:
            x, y = _both(lift(a), lift(b))
            return sym(z3.If(x >= y, x, y))
    return a if a >= b else b


def _ma_reduce(arr, axis, fn, keepdims):
    d, m = np.ma.getdata(arr), np.ma.getmaskarray(arr)
    keep = keepdims is not np._NoValue and keepdims
    if axis is None:
        vals = [v for v, k in zip(d.ravel(), m.ravel()) if not k]
        if not vals:
            if arr.size == 0:
                raise ValueError('zero-size array to reduction operation')
            return np.ma.masked
        r = fn(vals)
        if keep:
            o = np.ndarray((1,) * arr.ndim, dtype=object)
            o[...] = r
            return np.ma.array(o)
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = sorted(a % arr.ndim for a in axes)
    rest = [a for a in range(arr.ndim) if a not in axes]
    dd = d.transpose(rest + axes).reshape([d.shape[a] for a in rest] + [-1])
    mm = m.transpose(rest + axes).reshape([d.shape[a] for a in rest] + [-1])
    out = np.ndarray([d.shape[a] for a in rest], dtype=object)
    om = np.zeros(out.shape, dtype=bool)
    for i in np.ndindex(*out.shape):
        vals = [v for v, k in zip(dd[i], mm[i]) if not k]
        if vals:
            out[i] = fn(vals)
        else:
            out[i], om[i] = 0.0, True
    if keep:
        shape = [1 if a in axes else d.shape[a] for a in range(arr.ndim)]
        out, om = out.reshape(shape), om.reshape(shape)
    return np.ma.array(out, mask=om)


def _install_arange():
    orig = np.arange

    @functools.wraps(orig)
    def arange(*args, **kw):
        if _active() and any(isinstance(a, Sym) for a in args):
            start, stop, step = (0, args[0], 1) if len(args) == 1 else tuple(args) + ((1,) if len(args) == 2 else ())
            out = []
            while start + len(out) * step < stop:
                out.append(start + len(out) * step)
                if len(out) > 64:
                    raise MemoryError('grid too long')
            r = np.ndarray(len(out), dtype=object)
            r[:] = out
            return r
        return orig(*args, **kw)
    np.arange = arange


def _install_ma_divide():
    """division of masked arrays of symbolic numbers: missing where the divisor is zero"""
    core = np.ma.core
    D = core._DomainedBinaryOperation
    orig = D.__call__

    def call(self, a, b, *args, **kw):
        if not _active() or self not in (core.divide, core.true_divide) or args or kw:
            return orig(self, a, b, *args, **kw)
        da, db = core.getdata(a), core.getdata(b)
        if getattr(da, 'dtype', None) != object and getattr(db, 'dtype', None) != object:
            return orig(self, a, b)
        A, B = np.broadcast_arrays(np.asarray(da, dtype=object), np.asarray(db, dtype=object))
        m = np.broadcast_to(core.getmaskarray(a) | core.getmaskarray(b), A.shape).copy()
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(*A.shape):
            x, y = A[i], B[i]
            if not m[i] and bool(y == 0):
                m[i] = True
            out[i] = x if m[i] else x / y
        if out.ndim == 0:
            return np.ma.masked if m[()] else out[()]
        return np.ma.array(out, mask=m)
    D.__call__ = call

    U = core._MaskedUnaryOperation
    uorig = U.__call__

    def ucall(self, a, *args, **kw):
        if not _active() or self is not core.sqrt or args or kw or getattr(core.getdata(a), 'dtype', None) != object:
            return uorig(self, a, *args, **kw)
        d, m = core.getdata(a), core.getmaskarray(a).copy()
        out = np.empty(d.shape, dtype=object)
        for i in np.ndindex(*d.shape):
            if not m[i] and bool(d[i] < 0):
                m[i] = True
            out[i] = d[i] if m[i] else np.sqrt(d[i]) if not isinstance(d[i], Sym) else d[i].sqrt()
        if out.ndim == 0:
            return np.ma.masked if m[()] else out[()]
        return np.ma.array(out, mask=m)
    U.__call__ = ucall


def _install_ma_alloc():
    def wrap(name, fill, masked):
        orig = getattr(np.ma, name)
        _orig['ma.' + name] = orig

        @functools.wraps(orig)
        def f(shape, dtype=None, *a, **kw):
            if _active() and not a and not kw and _floating(dtype) and _from_cis():
                d = np.ndarray(shape, dtype=object)
                d[...] = fill
                return np.ma.array(d, mask=np.ones(d.shape, bool) if masked else np.ma.nomask)
            return orig(shape, *(() if dtype is None else (dtype,)), *a, **kw)
        setattr(np.ma, name, f)
    wrap('zeros', 0.0, False)
    wrap('ones', 1.0, False)
    wrap('empty', 0.0, False)
    wrap('masked_all', 0.0, True)


def _install_stats():
    """reductions over all elements of an object array / pandas Series holding symbolic numbers: numpy's definitions"""
    def vals_of(a):
        if type(a).__module__.startswith('pandas') and hasattr(a, 'to_numpy') and a.dtype == object:
            return list(a.to_numpy()), False
        if isinstance(a, np.ndarray) and a.dtype == object:
            m = np.ma.getmaskarray(a)
            return [v for v, k in zip(np.ma.getdata(a).ravel(), m.ravel()) if not k], isinstance(a, np.ma.MaskedArray)
        return None, False

    def mean_(v):
        return functools.reduce(lambda a, b: a + b, v) / len(v)

    def std_(v, ddof=0):
        if len(v) - ddof <= 0:
            return float('nan')
        m = mean_(v)
        return (functools.reduce(lambda a, b: a + b, [(x - m) * (x - m) for x in v]) / (len(v) - ddof)).sqrt()
    fns = {'mean': mean_, 'std': std_, 'min': lambda v: functools.reduce(smin, v),
           'max': lambda v: functools.reduce(smax, v), 'sum': lambda v: functools.reduce(lambda a, b: a + b, v)}

    def wrap(name, fn):
        orig = getattr(np, name)
        _orig['stat.' + name] = orig

        @functools.wraps(orig)
        def f(a, *args, **kw):
            if _active() and not args and set(kw) <= {'ddof'}:
                v, masked = vals_of(a)
                if v is not None and any(isinstance(x, Sym) for x in v):
                    return fn(v, **kw)
                if v is not None and masked and not v and a.size:
                    return np.ma.masked
            return orig(a, *args, **kw)
        setattr(np, name, f)
    for n, fn in fns.items():
        wrap(n, fn)
