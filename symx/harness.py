"""Harness API: one harness function serves both the symbolic exploration and the concrete (float64) replay."""
import hashlib
import json
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from .engine import Ctx, Sym, SymBool, Stats


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


class Skip(Exception):
    """concrete replay: the assumption does not hold for these inputs"""


class PathFail(E.Steer):
    """the assertion is violated on this path, for the inputs in .values"""
    def __init__(self, label, values, detail=''):
        self.label, self.values, self.detail = label, values, detail


def _tofloat(v):
    if isinstance(v, bool):
        return v
    return float(v)


class Source(object):
    """Where a harness takes its inputs from."""

    # ------------------------------------------------------------------ symbolic
    def __init__(self, values=None):
        self.values = values           # None: symbolic
        self.symbolic = values is None
        self.reached = False
        self.obs = []
        self.nonvacuous = 0

    @property
    def ctx(self):
        return Ctx.current

    def real(self, name, lo=None, hi=None):
        """an arbitrary real number (in [lo, hi])"""
        if not self.symbolic:
            return float(self.values.get(name, 0))
        c = self.ctx
        v = z3.Real(name)
        if name in c.vars:
            return Sym(c.vars[name])
        c.vars[name] = v
        if lo is not None:
            c.assume(v >= E._real(E.lift(lo)))
        if hi is not None:
            c.assume(v <= E._real(E.lift(hi)))
        return Sym(v)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def int(self, name, lo, hi):
        if not self.symbolic:
            return int(self.values.get(name, lo))
        c = self.ctx
        v = z3.Int(name)
        if name in c.vars:
            return Sym(c.vars[name])
        c.vars[name] = v
        c.assume(z3.And(v >= lo, v <= hi))
        return Sym(v)

    def bool(self, name):
        """an arbitrary truth value, decided here (both sides are explored)"""
        if not self.symbolic:
            return bool(self.values.get(name, False))
        c = self.ctx
        v = z3.Bool(name)
        c.vars[name] = v
        return c.branch(v)

    def choice(self, name, options):
        """an arbitrary member of a small list, decided here"""
        options = list(options)
        if not self.symbolic:
            return options[int(self.values.get(name, 0))]
        v = self.int(name, 0, len(options) - 1)
        for i, o in enumerate(options[:-1]):
            if v == i:
                return o
        return options[-1]

    def assume(self, cond):
        if not self.symbolic:
            if not cond:
                raise Skip()
            return
        self.ctx.assume(E.bexpr(cond))

    # ------------------------------------------------------------------ arrays
    def array(self, vals, shape=None):
        """plain array: object dtype when symbolic, float64 when replaying"""
        if self.symbolic:
            a = np.ndarray(len(vals), dtype=object)
            for i, v in enumerate(vals):
                a[i] = v
        else:
            a = np.array([float(v) for v in vals], dtype=float)
        return a.reshape(shape) if shape is not None else a

    def marray(self, vals, mask, shape=None):
        a = self.array(vals)
        m = np.array([bool(b) for b in mask])
        r = np.ma.array(a, mask=m)
        return r.reshape(shape) if shape is not None else r

    def missing(self, name, n):
        """n arbitrary missing-data flags"""
        return [self.bool('%s%d' % (name, i)) for i in range(n)]

    # ------------------------------------------------------------------ oracle helpers
    TOL = 1e-9

    def eq(self, a, b):
        """numeric equality: exact over the reals when symbolic, to rounding when replaying"""
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item() if a.dtype != object else a[()]
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item() if b.dtype != object else b[()]
        if self.symbolic:
            if a is np.ma.masked or b is np.ma.masked:
                return a is b
            sa, sb = E._special(a), E._special(b)
            if sa is not None or sb is not None:
                if sa is None or sb is None:
                    return False
                return sa == sb or (sa != sa and sb != sb)
            if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
                return bool(abs(a - b) <= self.TOL * max(1.0, abs(a), abs(b)))
            ea, eb = E._both(E.lift(a), E.lift(b))
            if not isinstance(a, Sym) or not isinstance(b, Sym) or True:
                return E.mkbool(ea == eb)
        if a is np.ma.masked or b is np.ma.masked:
            return a is b
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
            return a == b
        return abs(a - b) <= self.TOL * max(1.0, abs(a), abs(b))

    def near(self, a, b, tol=1e-9):
        """|a - b| <= tol * max(1, |b|) -- for code using irrational/rounded constants"""
        if not self.symbolic:
            return self.eq(a, b) or abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))
        d = abs(a - b)
        m = abs(b)
        return E.mkbool(z3.Or(E.bexpr(d <= tol), E.bexpr(d <= tol * m)))

    def check(self, cond, label, detail=''):
        """assert cond for every value on this path"""
        self.reached = True
        if not self.symbolic:
            if isinstance(cond, np.ndarray):
                cond = bool(cond)
            if not cond:
                raise CheckFailed(label, detail() if callable(detail) else str(detail))
            return
        c = self.ctx
        neg = c.valid(E.bexpr(cond))
        if neg is not None:
            self.fail(label, neg, detail() if callable(detail) else str(detail))

    def fail(self, label, neg=None, detail=''):
        self.reached = True
        if not self.symbolic:
            raise CheckFailed(label, detail)
        c = self.ctx
        vals = c.model_values(extra=[neg] if neg is not None else [])
        if vals is None:
            c.steer(E.Unknown('no model for the counterexample of ' + label))
        c.steer(PathFail(label, vals, detail))

    def observe(self, name, val):
        """record an output: compared between the symbolic path (under a model) and the float64 run"""
        self.obs.append((name, val))

    def observe_array(self, name, arr):
        a = np.ma.asarray(arr)
        m = np.ma.getmaskarray(a).ravel()
        d = np.ma.getdata(a).ravel()
        self.obs.append((name + '.shape', str(a.shape)))
        for i in range(d.size):
            self.obs.append(('%s[%d]' % (name, i), np.ma.masked if m[i] else d[i]))


def masked_at(arr, idx):
    m = np.ma.getmask(arr)
    return False if m is np.ma.nomask else bool(m[idx])


def val_at(arr, idx):
    """raw value under any mask"""
    return np.ma.getdata(arr)[idx]


# ---------------------------------------------------------------------------------------------------------------
def run_concrete(harness, cfg, values):
    """Replay on the real code with ordinary float64 values. -> ('ok'|'skip'|'fail'|'error', label, detail, obs)"""
    assert Ctx.current is None
    S = Source({k: v for k, v in values.items()})
    try:
        harness(S, cfg)
        return 'ok', '', '', S
    except Skip:
        return 'skip', '', '', S
    except CheckFailed as e:
        return 'fail', e.label, e.detail, S
    except E.Steer as e:
        return 'error', 'engine exception in a concrete run: %r' % (e,), '', S
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        return 'exc', 'uncaught %s: %s' % (type(e).__name__, str(e)[:200]), traceback.format_exc(), S


def model_eval_obs(m, val):
    if val is np.ma.masked:
        return val
    if isinstance(val, (Sym, SymBool)):
        v = E.z3_to_py(m.eval(val.e, model_completion=True))
        return v if isinstance(v, bool) else float(v)
    return val


def same_obs(a, b):
    if a is np.ma.masked or b is np.ma.masked:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return True
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


class Result(object):
    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.notes = []
        self.complete = True
        self.functions = {}
        self.samples = []
        self.error = None
        self.wall = 0.0


def _trace_functions(res, repo):
    """sys.setprofile callback collecting the functions of the code under test that were executed symbolically"""
    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(repo) and '/test/' not in co.co_filename:
                k = (co.co_filename[len(repo):].lstrip('/'), co.co_qualname)
                if k not in res.functions:
                    res.functions[k] = hashlib.sha256(co.co_code + repr(co.co_consts).encode('utf8', 'replace')
                                                      ).hexdigest()[:12]
    return prof


def explore(harness, cfg, deadline, max_paths=20000, validate=25, repo='/repo/', stop_on_first=True,
            stack=None, slice_s=None):
    """Explore every path of harness under cfg."""
    res = Result()
    t0 = time.monotonic()
    st = res.stats
    stack = [[]] if stack is None else stack
    nval_target = validate
    res.remaining = []
    while stack:
        if slice_s is not None and time.monotonic() - t0 > slice_s and st.paths > 0:
            res.remaining = stack
            break
        if time.monotonic() > deadline:
            res.complete = False
            res.error = 'deadline reached with %d unexplored branches' % len(stack)
            break
        if st.paths >= max_paths:
            res.complete = False
            res.error = 'path cap reached'
            break
        prefix = stack.pop()
        ctx = Ctx(prefix, st, deadline=deadline)
        S = Source()
        Ctx.current = ctx
        outcome, info = 'ok', None
        prof = st.paths < 8
        try:
            if prof:
                sys.setprofile(_trace_functions(res, repo))
            harness(S, cfg)
        except PathFail as e:
            outcome, info = 'fail', e
        except E.Infeasible:
            outcome = 'infeasible'
        except E.Unsupported as e:
            outcome, info = 'unsupported', str(e)
        except E.Unknown as e:
            outcome, info = 'unknown', str(e)
        except E.Deadline:
            outcome = 'deadline'
        except Exception as e:
            outcome, info = 'exc', (type(e).__name__ + ': ' + str(e)[:300], traceback.format_exc())
        finally:
            sys.setprofile(None)
        if ctx.steered is not None and outcome in ('ok', 'exc'):
            # a bare `except:` in the code under test swallowed an engine exception
            e = ctx.steered
            outcome = {PathFail: 'fail', E.Infeasible: 'infeasible', E.Deadline: 'deadline'}.get(type(e), 'unsupported')
            info = e if outcome == 'fail' else str(e)
        stack.extend(ctx.pending)
        if outcome == 'infeasible':
            st.infeasible_paths += 1
            Ctx.current = None
            continue
        st.paths += 1
        if outcome == 'deadline':
            Ctx.current = None
            res.complete = False
            res.error = 'deadline reached'
            break
        if outcome == 'fail':
            Ctx.current = None
            s, label, detail, S2 = run_concrete(harness, cfg, info.values)
            if s in ('fail', 'exc'):
                res.violations.append(dict(label=info.label, concrete_label=label, detail=detail or info.detail,
                                           values=enc(info.values)))
                if stop_on_first:
                    break
            else:
                res.notes.append('counterexample for "%s" did not reproduce (%s %s): %s' %
                                 (info.label, s, label, enc(info.values)))
                res.error = 'a counterexample did not reproduce on the real code'
                res.complete = False
            continue
        if outcome in ('exc', 'unsupported', 'unknown'):
            # Either the code really raises here, or it could not be encoded: look at the real code.
            tried = 0
            try:
                vals = ctx.model_values()
            except E.Steer:
                vals = None
            Ctx.current = None
            if vals is not None:
                s, label, detail, S2 = run_concrete(harness, cfg, vals)
                tried = 1
                if s in ('fail', 'exc'):
                    res.violations.append(dict(label=label, concrete_label=label, detail=detail, values=enc(vals)))
                    if stop_on_first:
                        break
                    continue
            st.unsupported += 1
            res.notes.append('%s: %s%s' % (outcome, info[0] if isinstance(info, tuple) else info,
                                           ' | ' + info[1][-4000:] if isinstance(info, tuple) else ''))
            continue
        if S.reached:
            st.reached += 1
        # translation validation: run the real code on a model of this path
        if st.validated < nval_target or (st.paths % 17 == 0 and st.validated < 4 * nval_target):
            try:
                vals = ctx.model_values()
            except E.Steer:
                vals = None
            if vals is not None:
                m = ctx.last_model
                exp = [(n, model_eval_obs(m, v)) for n, v in S.obs]
                Ctx.current = None
                s, label, detail, S2 = run_concrete(harness, cfg, vals)
                st.validated += 1
                if len(res.samples) < 2:
                    res.samples.append(dict(values=enc(vals), outcome=s))
                if s in ('fail', 'exc'):
                    res.violations.append(dict(label=label, concrete_label=label,
                                               detail='(found replaying a path witness) ' + detail, values=enc(vals)))
                    if stop_on_first:
                        break
                elif s == 'ok':
                    got = S2.obs
                    if len(got) != len(exp) or any(n1 != n2 or not same_obs(a, b)
                                                   for (n1, a), (n2, b) in zip(exp, got)):
                        st.validation_mismatch += 1
                        if len(res.notes) < 10:
                            res.notes.append('validation mismatch: %s vs %s for %s' % (exp[:6], got[:6], enc(vals)))
        Ctx.current = None
    Ctx.current = None
    res.wall = time.monotonic() - t0
    return res


def enc(values):
    out = {}
    for k, v in values.items():
        if isinstance(v, Fraction):
            out[k] = str(v)
        else:
            out[k] = v
    return out


def dec(values):
    out = {}
    for k, v in values.items():
        out[k] = Fraction(v) if isinstance(v, str) else v
    return out


KNOWN = set()
IGNORE_FINDINGS = False


def finding(S, fid, cond):
    """Inputs satisfying cond are those of the listed known finding `fid`: they are excluded from the exploration (and
    the runner replays the recorded input separately).  If the finding is not listed, nothing is excluded."""
    if fid not in KNOWN or IGNORE_FINDINGS:
        return
    if S.symbolic:
        if E.bexpr(cond) is not None:
            S.assume(E.mkbool(z3.Not(E.bexpr(cond))))
    elif cond:
        raise Skip()


