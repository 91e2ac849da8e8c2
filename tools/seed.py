"""dev helper: seed.py SPEC.py — build planted bugs.  Each entry of SEEDS: id, prop, edits [(file, old, new)], needs,
breaks, demo (python text).  Makes patch.diff in a scratch copy, runs the baseline tests there, the demo with and
without the change, and (optionally) the check of the property."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        if os.path.isdir(WT):
            shutil.rmtree(WT)
        sh('cp -a /repo %s && git -C %s checkout -q -- .' % (WT, WT))
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                        'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        clean = sh('bash %s/demo.sh' % d, cwd=WT)
        for f, old, new in s['edits']:
            p = os.path.join(WT, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % WT).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        bad = sh('bash %s/demo.sh' % d, cwd=WT)
        # the diff must not touch lines added by fix commits
        touched = []
        for f, old, new in s['edits']:
            base = sh('git -C %s diff f7a8b63 HEAD -- %s' % (WT, f)).stdout
            added = {l[1:] for l in base.split('\n') if l.startswith('+')}
            touched += [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')
                        and l[1:].strip() and l[1:] in added]
        sh("sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/seedtest.sh" % WT)
        sh("sed -i 's#^\\. /opt/vp/lib/env.sh#export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1 MPLCONFIGDIR=/tmp/seedmpl#' /tmp/seedtest.sh")
        t = sh('bash /tmp/seedtest.sh /tmp/seedres.json')
        b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        r = set(json.load(open('/tmp/seedres.json'))['passed'])
        c = sh('SYMX_REPO=%s ./run.sh %s quick' % (WT, s['prop']), cwd=V)
        vio = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        print('%s %s: demo clean=%d bad=%d; tests missing %s; fix-lines %s; check rc=%d %s' % (
            s['id'], s['prop'], clean.returncode, bad.returncode, sorted(b - r)[:3], touched, c.returncode,
            vio[:1] or c.stdout[-300:]), flush=True)
        if clean.returncode:
            print(clean.stdout[-800:])
        if not bad.returncode:
            print(bad.stdout[-300:])
    shutil.rmtree(WT, ignore_errors=True)


main()
