"""python3-vt tools/mutate.py N SEED OUT [substring of the file names]
Mutation analysis of the checks: applies random one-token changes to scratch copies of the package
and runs the obligations on the changed module; the ones nothing notices are listed in OUT."""
import ast, concurrent.futures as cf, glob, json, os, random, shutil, subprocess, sys, tempfile
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
SUB = sys.argv[4] if len(sys.argv) > 4 else ''
REPO = '/repo'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        if isinstance(n, (ast.JoinedStr, ast.Raise, ast.Assert)):
            for t in ast.walk(n):
                skip.add(id(t))
        if isinstance(n, (ast.FunctionDef,)):
            for t in n.decorator_list:
                for u in ast.walk(t):
                    skip.add(id(u))

    def mod(fn):
        t = ast.parse(src)
        nodes = list(ast.walk(t))
        fn(nodes)
        return ast.unparse(t)
    for fdef in ast.walk(tree):
        if not isinstance(fdef, ast.FunctionDef):
            continue
        for n in ast.walk(fdef):
            if id(n) not in skip:
                out.append((fdef.name, n))
    idx = {id(n): i for i, n in enumerate(ast.walk(tree))}
    res = []
    for f, n in out:
        i = idx[id(n)]
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def m(ns, i=i, n=n):
                ns[i].ops[0] = ast.parse('a' + CMP[type(n.ops[0])] + 'b').body[0].value.ops[0]
            res.append((f, n, 'cmp', m))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            def m(ns, i=i, n=n):
                ns[i].op = ast.parse('a' + BIN[type(n.op)] + 'b').body[0].value.op
            res.append((f, n, 'op', m))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.Pow)):
                def m(ns, i=i):
                    ns[i].left, ns[i].right = ns[i].right, ns[i].left
                res.append((f, n, 'swap', m))
            def m(ns, i=i):
                r, l = ns[i], ns[i].left
                r.op, r.right = ast.Add(), ast.Constant(value=0)
            res.append((f, n, 'drop', m))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            def m(ns, i=i, n=n):
                ns[i].value = n.value + 1
            res.append((f, n, 'const', m))
        if isinstance(n, ast.If) and not n.orelse:
            def m(ns, i=i):
                ns[i].test = ast.Constant(value=False)
            res.append((f, n, 'noif', m))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            def m(ns, i=i):
                ns[i].op = ast.UAdd()
            res.append((f, n, 'neg', m))
        if isinstance(n, ast.BoolOp):
            def m(ns, i=i, n=n):
                ns[i].op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            res.append((f, n, 'bool', m))
        if isinstance(n, ast.Attribute) and n.attr in ('zero', 'one', 'inf', 'ninf') and isinstance(n.ctx, ast.Load):
            def m(ns, i=i, n=n):
                ns[i].attr = {'zero': 'one', 'one': 'zero', 'inf': 'zero', 'ninf': 'zero'}[n.attr]
            res.append((f, n, 'attr', m))
    return src, [(f, n.lineno, k, ast.get_source_segment(src, n) or '', lambda m=m: mod(m)) for f, n, k, m in res]


files = [f for f in sorted(glob.glob(REPO + '/mpsci/*/*.py')) if '__init__' not in f and SUB in f]
rng = random.Random(SEED)
pool = {}
jobs = []
while len(jobs) < N:
    f = rng.choice(files)
    if f not in pool:
        pool[f] = mutants(f)
    if not pool[f][1]:
        continue
    jobs.append((f, rng.choice(pool[f][1])))
PROPS = {'distributions': ['C02', 'C03', 'C04', 'C05', 'C07', 'C09', 'C08', 'C10', 'C12', 'C18', 'C11', 'C06', 'C13'],
         'fun': ['C14', 'C15', 'C13'], 'stats': ['C16', 'C14', 'C17', 'C11', 'C13']}


def run(job):
    path, (fn, line, kind, seg, make) = job
    rel = os.path.relpath(path, REPO)
    pkg, m = rel.split('/')[1], rel.split('/')[2][:-3]
    tmp = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    info = dict(file=rel, line=line, func=fn, kind=kind, seg=seg[:120])
    try:
        shutil.copytree(REPO + '/mpsci', tmp + '/mpsci', ignore=shutil.ignore_patterns('__pycache__'))
        open(f'{tmp}/{rel}', 'w').write(make())
        for p in PROPS[pkg]:
            if m == '_common':
                cmd = ['python3-vt', 'check.py', p, '--jobs', '1', '--func', '_common.']
            else:
                cmd = ['python3-vt', 'check.py', p, '--jobs', '1', '--func', f'{pkg}.{m}.']
            try:
                r = subprocess.run(cmd, cwd='/verif', capture_output=True, text=True, timeout=400,
                                   env=dict(os.environ, MPSCI_REPO=tmp))
            except subprocess.TimeoutExpired:
                info['timeout'] = p
                continue
            if r.returncode == 1:
                info['caught'] = p
                return info
            if r.returncode:
                info.setdefault('errors', []).append((p, r.stderr[-300:]))
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', f'mpsci/{pkg}/tests', '-k',
                            m.strip('_')], cwd=tmp, capture_output=True, text=True, timeout=600)
        info['tests'] = 'fail' if t.returncode == 1 else 'pass'
        return info
    except Exception as e:
        info['exception'] = repr(e)[:300]
        return info
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with cf.ThreadPoolExecutor(8) as ex, open(OUT, 'a') as o:
    n = c = 0
    for i in ex.map(run, jobs):
        n += 1
        c += 'caught' in i
        o.write(json.dumps(i) + '\n')
        o.flush()
    print(n, 'mutants', c, 'caught')
