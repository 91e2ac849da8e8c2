"""dev helper: cov.py ID [args of symx.run] — which lines of cis an exploration executes; appended to $COVOUT (file:line)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
mon = sys.monitoring
mon.use_tool_id(4, 'cov')
seen = set()


def line(code, n):
    if '/cis/' in code.co_filename and '/verif/' not in code.co_filename:
        seen.add((code.co_filename, n))
    return mon.DISABLE


mon.register_callback(4, mon.events.LINE, line)
mon.set_events(4, mon.events.LINE)
import symx.run as R
job = R._job


def _job(args):
    import cis
    seen.clear() if not getattr(_job, 'started', False) else None
    _job.started = True
    mon.restart_events()
    r = job(args)
    with open(os.environ['COVOUT'], 'a') as f:
        f.write(''.join('%s:%d\n' % x for x in sorted(seen)))
    return r


class J:
    def __setattr__(self, k, v):
        setattr(job, k, v)


R._job = _job
R.main()
