"""dev helper: mutate.py OUT N SEED [FILE...] — random one-place changes to the code of cis which the existing tests accept.
Stage 1 (this): make them, run the baseline tests in scratch copies, append the accepted ones to OUT (json lines).
Stage 2: mutate.py --check OUT — run the checks anchored in the changed file on each and note which catches it."""
import ast, json, os, random, shutil, subprocess, sys, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(V + '/properties.jsonl')]
COST = dict(C01=22, C02=6, C03=49, C04=9, C05=30, C06=31, C07=2, C08=30, C09=16, C10=31, C11=10, C12=42, C13=33, C14=10, C15=2, C16=5,
            C17=13, C18=15, C19=7, C21=11, C22=23, C23=4, C24=3, C25=5, C26=22, C27=22, C29=40, C30=41, C31=60, C32=30, C33=17, C34=3,
            C36=4, C37=71, C38=40, C39=54, C40=29)


def mutants(path, src):
    tree = ast.parse(src)
    out = []
    lines = src.split('\n')

    def seg(n):
        return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)

    def add(n, new, kind, fn):
        out.append((seg(n), new, kind, fn))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + '.' if fn else '') + n.name
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('logging', 'warnings'):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.FunctionDef) and (n.name.startswith('__str') or 'summary' in n.name or 'history' in n.name or n.name in ('__repr__', 'log_memory_profile')):
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}.get(type(n.ops[0]))
                if sw:
                    add(n, '(%s %s %s)' % (ast.unparse(n.left), sw, ast.unparse(n.comparators[0])), 'cmp', fn)
            if isinstance(n, ast.BinOp):
                sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&'}.get(type(n.op))
                if sw and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                    add(n, '(%s %s %s)' % (ast.unparse(n.left), sw, ast.unparse(n.right)), 'bin', fn)
            if isinstance(n, ast.BoolOp):
                for k in range(len(n.values)):
                    rest = n.values[:k] + n.values[k + 1:]
                    add(n, '(%s)' % ast.unparse(ast.BoolOp(n.op, rest) if len(rest) > 1 else rest[0]), 'drop', fn)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, '(%s)' % ast.unparse(n.operand), 'not', fn)
            if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
                if n.value is True or n.value is False:
                    add(n, repr(not n.value), 'const', fn)
                elif isinstance(n.value, (int, float)):
                    add(n, repr(n.value + 1), 'const', fn)
            if isinstance(n, (ast.If, ast.IfExp)):
                t = n.test
                add(t, 'True', 'if', fn)
                add(t, 'False', 'if', fn)
            if isinstance(n, ast.Call) and n.keywords and not isinstance(n.func, ast.Name):
                for k in n.keywords:
                    c = ast.Call(n.func, n.args, [x for x in n.keywords if x is not k])
                    add(n, ast.unparse(c), 'kw', fn)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'flatten', 'sort', 'compressed') and not n.args:
                add(n, ast.unparse(n.func.value), 'call', fn)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'del', fn)
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(tree, '')

    def apply(s, new):
        l1, c1, l2, c2 = s
        enc = [l.encode() for l in lines]
        head = enc[:l1 - 1] + [enc[l1 - 1][:c1] + new.encode() + enc[l2 - 1][c2:]] + enc[l2:]
        return b'\n'.join(head).decode()
    return [(s, new, kind, fn, apply) for s, new, kind, fn in out]


def accepted(wt):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', TZ='UTC', OMP_NUM_THREADS='1', MPLCONFIGDIR=wt + '.mpl',
               OPENBLAS_NUM_THREADS='1')
    passed = set()
    I = 'cis/test/integration/'
    for args in (['cis/test/unit'], [I + x for x in ('test_read_api.py', 'test_version.py', 'test_io/test_hdf.py', 'test_io/test_write_netcdf.py',
                 'test_io/test_products/test_Aproduct.py', 'test_io/test_products/test_data_products.py', 'test_io/test_products/test_ncar_raf.py')]):
        x = wt + '.xml'
        try:
            subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:warnings', '--tb=no',
                            '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml', x] + args, cwd=wt, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        except subprocess.TimeoutExpired:
            return False
        if not os.path.exists(x):
            return False
        for tc in ET.parse(x).getroot().iter('testcase'):
            if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
                passed.add('%s::%s' % (tc.get('classname'), tc.get('name')))
        os.remove(x)
    return not (STABLE - passed)


STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def stage1(out, n, seed, files):
    rnd = random.Random(seed)
    allm = []
    for f in files:
        src = open('/repo/' + f).read()
        allm += [(f,) + m for m in mutants(f, src)]
    rnd.shuffle(allm)
    print(len(allm), 'possible')
    W = 6
    for w in range(W):
        shutil.rmtree('/tmp/mut%d' % w, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', '/tmp/mut%d' % w], check=True)
    free = list(range(W))

    def one(m):
        f, s, new, kind, fn, apply = m
        w = free.pop()
        p = '/tmp/mut%d/%s' % (w, f)
        src = open('/repo/' + f).read()
        try:
            t = apply(s, new)
            try:
                ast.parse(t)
            except SyntaxError:
                return
            open(p, 'w').write(t)
            if accepted('/tmp/mut%d' % w):
                old = src.split('\n')[s[0] - 1].strip()
                with open(out, 'a') as fh:
                    fh.write(json.dumps(dict(file=f, line=s[0], fn=fn, kind=kind, old=old, new=t.split('\n')[s[0] - 1].strip(), text=t)) + '\n')
        finally:
            open(p, 'w').write(src)
            free.append(w)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, allm[:n]))
    for w in range(W):
        shutil.rmtree('/tmp/mut%d' % w, ignore_errors=True)


def stage2(out, start=0):
    wt = '/tmp/mutc'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    for i, l in enumerate(open(out)):
        if i < start:
            continue
        m = json.loads(l)
        src = open('/repo/' + m['file']).read()
        open(wt + '/' + m['file'], 'w').write(m['text'])
        ids = sorted([p['id'] for p in PROPS if m['file'] in p['anchors']['files'] and p['id'] in COST], key=lambda x: COST[x])
        res = {}
        for c in ids:
            try:
                r = subprocess.run(['./run.sh', c, 'quick'], cwd=V, env=dict(os.environ, SYMX_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                res[c] = r.returncode
            except subprocess.TimeoutExpired:
                res[c] = 'timeout'
            if res[c]:
                break
        caught = [c for c in res if res[c] == 1]
        print('%3d %s %s:%d %s [%s]\n      - %s\n      + %s   (%s)' % (i, 'CAUGHT ' + caught[0] if caught else 'MISSED' if not any(res.values()) else 'ODD %s' % res, m['file'], m['line'], m['fn'], m['kind'], m['old'], m['new'], ' '.join(res)), flush=True)
        open(wt + '/' + m['file'], 'w').write(src)
    shutil.rmtree(wt, ignore_errors=True)


if sys.argv[1] == '--check':
    stage2(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 0)
else:
    files = sys.argv[4:] or sorted({f for p in PROPS for f in p['anchors']['files'] if f.endswith('.py')})
    stage1(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), files)
