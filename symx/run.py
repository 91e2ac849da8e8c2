"""Run the check of one property:  run.py <ID> [--tier quick|thorough] [--only HARNESS] [--replay FILE]"""
import argparse
import importlib.util
import json
import logging
import multiprocessing as mp
import os
import random
import sys
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)

import numpy as np  # noqa
np.seterr(all='ignore')
import iris, iris.cube, iris.coords, iris.analysis, iris.util, iris.analysis.cartography  # noqa
import pandas, dask.array, scipy.sparse, scipy.stats, scipy.interpolate, shapely.wkt, cf_units, netCDF4  # noqa
from symx import shims  # noqa
shims.install()
from symx import engine as E  # noqa
from symx import harness as H  # noqa


def load_check(pid):
    d = os.path.join(VERIF, 'checks')
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            spec = importlib.util.spec_from_file_location('check_' + pid, os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            return m
    raise SystemExit('no check for ' + pid)


def load_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid and f['status'] == 'known']


def _job(args):
    idx, cfg, deadline, stack, slice_s, paths_so_far = args
    mod = _job.mod
    h = mod.HARNESSES[cfg['harness']]
    opts = dict(getattr(mod, 'OPTIONS', {}))
    opts.update(cfg.get('_opts', {}))
    opts['max_paths'] = opts.get('max_paths', 200000) - paths_so_far
    if stack is not None:
        opts['validate'] = opts.get('validate', 60) // 6 + 1
    try:
        r = H.explore(h, cfg, deadline, stack=stack, slice_s=slice_s, **opts)
    except BaseException as e:  # noqa
        import traceback
        return idx, dict(stats={}, violations=[], notes=['engine failure: ' + traceback.format_exc()], complete=False,
                         functions=[], samples=[], error='engine failure %r' % (e,), wall=0, remaining=[])
    return idx, dict(stats=r.stats.as_dict(), violations=r.violations, notes=r.notes, complete=r.complete,
                     functions=[(k[0], k[1], v) for k, v in r.functions.items()], samples=r.samples, error=r.error,
                     wall=r.wall, remaining=r.remaining)


def run_jobs(cfgs, deadline, nproc, serial, on_result):
    """Explore every configuration; long explorations are cut into slices that are shared among the workers.
    on_result(idx, result) -> True to stop."""
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get('_w', 1))
    paths = [0] * len(cfgs)
    if serial or nproc == 1:
        for i in order:
            idx, r = _job((i, cfgs[i], deadline, None, None, 0))
            if on_result(idx, r, True):
                return
        return
    ctx = mp.get_context('fork')
    pool = ctx.Pool(nproc)
    import queue
    done = queue.Queue()
    todo = [(i, None) for i in order]
    todo.reverse()
    running = 0
    outstanding = [1] * len(cfgs)

    def submit():
        nonlocal running
        while todo and running < nproc:
            i, stack = todo.pop()
            slice_s = 2.0 if stack is None else 4.0
            pool.apply_async(_job, ((i, cfgs[i], deadline, stack, slice_s, paths[i]),),
                             callback=done.put, error_callback=lambda e: done.put((None, e)))
            running += 1
    try:
        submit()
        while running:
            idx, r = done.get()
            running -= 1
            if idx is None:
                raise r
            paths[idx] += r['stats'].get('paths', 0)
            outstanding[idx] -= 1
            rem = r.pop('remaining')
            if rem:
                k = min(len(rem), nproc)
                for j in range(k):
                    todo.append((idx, rem[j::k]))
                    outstanding[idx] += 1
            if on_result(idx, r, outstanding[idx] == 0):
                return
            submit()
    finally:
        pool.terminate()
        pool.join()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--cfg', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    random.seed(seed)
    np.random.seed(seed)
    t0 = time.monotonic()
    pid = a.pid
    findings = load_findings(pid)
    H.KNOWN = {f['id'] for f in findings}
    try:
        mod = load_check(pid)
    except SystemExit:
        raise
    if a.replay:
        rec = json.load(open(a.replay))
        out, label, detail, S = H.run_concrete(mod.HARNESSES[rec['cfg']['harness']], rec['cfg'], H.dec(rec['values']))
        print('replay:', out, label)
        print(detail)
        return 1 if out in ('fail', 'exc') else 0
    cfgs = mod.configs(a.tier)
    if a.only:
        cfgs = [c for c in cfgs if c['harness'] == a.only]
    if a.cfg is not None:
        cfgs = [cfgs[a.cfg]]
    # known findings: confirm (on the real code) and announce them
    for f in findings:
        H.IGNORE_FINDINGS = True
        out, label, detail, S = H.run_concrete(mod.HARNESSES[f['cfg']['harness']], f['cfg'], H.dec(f['values']))
        H.IGNORE_FINDINGS = False
        if out in ('fail', 'exc'):
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, f['id'], f['what']))
    budget = getattr(mod, 'BUDGET', {}).get(a.tier, 600 if a.tier == 'quick' else 840)
    deadline = t0 + budget
    _job.mod = mod
    results = [None] * len(cfgs)
    violation = []
    nproc = int(os.environ.get('SYMX_PROCS', '0')) or min(8, os.cpu_count() or 1)

    def on_result(idx, r, last):
        p = results[idx]
        if p is None:
            results[idx] = r
        else:
            stt = E.Stats()
            stt.add(p['stats'])
            stt.add(r['stats'])
            p['stats'] = stt.as_dict()
            for k in ('violations', 'notes', 'functions', 'samples'):
                p[k] = (p[k] + r[k])[:400]
            p['complete'] = p['complete'] and r['complete']
            p['error'] = p['error'] or r['error']
            p['wall'] += r['wall']
            r = p
        if a.v and (last or r['violations']):
            s = r['stats']
            print('  cfg %3d %-60s paths=%s reached=%s q=%s unsup=%s val=%s mism=%s conc=%s %.1fs %s' % (
                idx, json.dumps({k: v for k, v in cfgs[idx].items() if not k.startswith('_')})[:90], s.get('paths'),
                s.get('reached'), s.get('queries'), s.get('unsupported'), s.get('validated'),
                s.get('validation_mismatch'), s.get('concretised'), r['wall'], r['error'] or ''))
            for n in r['notes'][:3]:
                print('     note:', n[:int(os.environ.get("NOTE_", 1500))])
            sys.stdout.flush()
        if r['violations']:
            violation.append((idx, r['violations'][0]))
            return True
        return False
    run_jobs(cfgs, deadline, nproc, a.serial, on_result)
    violation = violation[0] if violation else None
    wall = time.monotonic() - t0
    st = E.Stats()
    funcs = {}
    samples, notes, errors = [], [], []
    done = 0
    for i, r in enumerate(results):
        if r is None:
            continue
        done += 1
        st.add(r['stats'])
        for f, q, h in r['functions']:
            funcs['%s:%s' % (f, q)] = h
        for s in r['samples'][:1]:
            if len(samples) < 5:
                samples.append(dict(cfg={k: v for k, v in cfgs[i].items() if not k.startswith('_')}, **s))
        notes += r['notes'][:2]
        if r['error']:
            errors.append('cfg %d: %s' % (i, r['error']))
    nviol = 0
    if violation is not None:
        nviol = 1
        idx, v = violation
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, cfg=cfgs[idx], values=v['values'], label=v['label'], detail=v['detail']),
                  open(rp, 'w'), indent=1)
    inconclusive = None
    if violation is None:
        if [e for e in errors if 'did not reproduce' in e]:
            inconclusive = '; '.join([e for e in errors if 'did not reproduce' in e][:3])
        elif st.reached == 0:
            inconclusive = 'no path reached an assertion'
        else:
            for i, r in enumerate(results):
                if r['stats'].get('reached', 0) == 0 and not cfgs[i].get('_may_be_empty') and \
                        r['stats'].get('unsupported', 0) == 0 and r['complete']:
                    inconclusive = 'vacuous configuration %s' % cfgs[i]
    exhaustive = violation is None and inconclusive is None and st.unsupported == 0 and st.concretised == 0 and \
        not errors
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed,
              level='model_checking',
              coverage=dict(
                  states=st.paths, transitions=st.branches, traces_validated_against_impl=st.validated,
                  samples=samples, configurations=done, configurations_total=len(cfgs),
                  solver_queries=st.queries, solver_seconds=round(st.solver_s, 3),
                  assertions=st.assertions, assertion_queries=st.assertion_queries,
                  paths_reaching_assertions=st.reached, infeasible_prefixes=st.infeasible_paths,
                  paths_not_encoded=st.unsupported, concretised_values=st.concretised, solver_unknown=st.unknown,
                  validation_mismatches=st.validation_mismatch,
                  functions_encoded=['%s#%s' % kv for kv in sorted(funcs.items())],
                  bounds=getattr(mod, 'BOUNDS', {}).get(a.tier, '') if isinstance(getattr(mod, 'BOUNDS', ''), dict)
                  else getattr(mod, 'BOUNDS', ''),
                  outside=getattr(mod, 'OUTSIDE', ''), stubs=getattr(mod, 'STUBS', []),
                  all_paths_within_bounds_decided=exhaustive,
                  notes=[n[:500] for n in notes[:6]],
                  explanation='symbolic execution of the real functions in /repo (imported afresh this run); states = '
                              'execution paths, transitions = branch decisions, each feasible path decided by z3'),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'float64 arithmetic is treated as exact real arithmetic (rounding is outside the claim)'],
              wall_s=round(wall, 2), violations=nviol)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: configs=%d/%d paths=%d reached=%d branches=%d queries=%d solver=%.1fs validated=%d mismatches=%d '
          'not-encoded=%d concretised=%d wall=%.1fs' % (
              pid, a.tier, done, len(cfgs), st.paths, st.reached, st.branches, st.queries, st.solver_s, st.validated,
              st.validation_mismatch, st.unsupported, st.concretised, wall))
    if violation is not None:
        idx, v = violation
        print('counterexample (%s) cfg=%s values=%s' % (v['label'], json.dumps(cfgs[idx]), json.dumps(v['values'])))
        if v['detail']:
            print(v['detail'][:2000])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if inconclusive is not None:
        print('INCONCLUSIVE: ' + inconclusive)
        for n in notes[:4]:
            print('  note: ' + n[:int(os.environ.get("NOTE_", 1500))])
        return 2
    if not exhaustive:
        print('INCOMPLETE: %d path(s) left the encodable fragment (the real code was run on solver-chosen inputs '
              'there); %s' % (st.unsupported + st.concretised, '; '.join(errors[:3]) or 'no budget ran out'))
        for n in notes[:2]:
            print('  note: ' + n[:800])
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
