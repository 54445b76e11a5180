#!/usr/bin/env python3
"""Mutation campaign: mut.py COVDIR N SEED [--files re] [--checks C01,C02] : random mutants of lines the checks execute, which ones no check notices.
COVDIR holds CNN.pid files written with VERIF_COV=dir ./run.sh CNN. Works on a copy of /repo under /tmp."""
import ast, sys, os, json, glob, random, subprocess, shutil, re, copy, time, argparse
ap = argparse.ArgumentParser()
ap.add_argument('cov'); ap.add_argument('n', type = int); ap.add_argument('seed', type = int)
ap.add_argument('--files', default = '.'); ap.add_argument('--checks'); ap.add_argument('--jobs', type = int, default = 2); ap.add_argument('--frac', type = float, default = .4)
ap.add_argument('--log', default = '/tmp/mut.log'); ap.add_argument('--lines', default = None)
a = ap.parse_args()
import importlib
cov = {}
for f in glob.glob(a.cov + '/C*.*'):
    c = os.path.basename(f).split('.')[0]
    if a.checks and c not in a.checks.split(','): continue
    for fn, ls in json.load(open(f)).items():
        for l in ls: cov.setdefault((fn, l), set()).add(c)
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
def sites(tree):
    """(line, description, apply) for each mutation"""
    out = []
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for m in ast.walk(n): infunc.add(id(m))
    for p in ast.walk(tree):
        for fld, val in ast.iter_fields(p):
            items = val if isinstance(val, list) else [val]
            for i, n in enumerate(items):
                if not isinstance(n, ast.AST) or not hasattr(n, 'lineno') or id(n) not in infunc: continue
                def put(new, p = p, fld = fld, val = val, i = i):
                    if isinstance(val, list): val[i] = new
                    else: setattr(p, fld, new)
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    out.append((n.lineno, 'cmp', lambda n = n: setattr(n, 'ops', [SWAP[type(n.ops[0])]()])))
                elif isinstance(n, ast.BoolOp):
                    out.append((n.lineno, 'andor', lambda n = n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
                    if len(n.values) > 1:
                        for j in range(len(n.values)): out.append((n.lineno, 'drop operand %d' % j, lambda n = n, j = j: n.values.pop(j)))
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): out.append((n.lineno, 'not', lambda n = n, put = put: put(n.operand)))
                elif isinstance(n, ast.Constant) and type(n.value) in (int, float): out.append((n.lineno, 'const', lambda n = n: setattr(n, 'value', n.value + 1)))
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)): out.append((n.lineno, 'arith', lambda n = n: setattr(n, 'op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())))
                if isinstance(n, ast.If): out.append((n.lineno, 'if not', lambda n = n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test))))
                if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.Delete) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    out.append((n.lineno, 'delete', lambda put = put, n = n: put(ast.copy_location(ast.Pass(), n))))
                if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None): out.append((n.lineno, 'return none', lambda n = n: setattr(n, 'value', ast.Constant(None))))
                if isinstance(n, (ast.Break, ast.Continue, ast.Raise)) : out.append((n.lineno, 'pass', lambda put = put, n = n: put(ast.copy_location(ast.Pass(), n))))
    return out
SKIP = re.compile(r'test|Rtp/|Codecs|MySQL|/Http|Web|Stun|STUN|Logger|Debug|CLIManager' if not a.checks else r'test')
rng = random.Random(a.seed)
pool = []
files = sorted(set(f for f, l in cov))
lr = None
for f in files:
    if not re.search(a.files, f) or SKIP.search(f): continue
    src = open('/repo/sippy/' + f).read()
    t = ast.parse(src)
    for k, (ln, what, _) in enumerate(sites(t)):
        if cov.get((f, ln)): pool.append((f, k, ln, what))
if a.lines:
    fn, lo, hi = a.lines.split(':'); pool = [x for x in pool if x[0] == fn and int(lo) <= x[2] <= int(hi)]
rng.shuffle(pool)
print(len(pool), 'mutants in', len(files), 'files')
root = '/tmp/mutw-%d' % os.getpid()
subprocess.run(['cp', '-a', '/repo', root], check = True)
size = {}
for (f, l), cs in cov.items():
    for c in cs: size[c] = size.get(c, 0) + 1
sys.path.insert(0, '/verif/checks')
def ncases(c):
    m = re.search(r"^N = \{'quick': (\d+)", open('/verif/checks/%s.py' % c.lower()).read(), re.M)
    return max(50, int(int(m.group(1)) * a.frac))
log = open(a.log, 'a')
def one(idx, item):
    f, k, ln, what = item
    src = open('/repo/sippy/' + f).read()
    lines = src.split('\n')
    t = ast.parse(src)
    s = sites(t)[k]
    s[2]()
    ast.fix_missing_locations(t)
    try: new = ast.unparse(t)
    except Exception: return
    w = root + '/w%d' % (idx % a.jobs)
    if not os.path.exists(w): subprocess.run(['cp', '-a', '/repo', w], check = True)
    open(w + '/sippy/' + f, 'w').write(new)
    hit = None
    try:
        for c in sorted(cov[f, ln], key = lambda c: (size[c] / len(cov), c)):
            env = dict(os.environ, VERIF_REPO = w, VERIF_STOP = '1', PYTHONPATH = w)
            env.pop('VERIF_COV', None)
            try: r = subprocess.run(['bash', '/verif/run.sh', c, '--n', str(ncases(c)), '--jobs', str(max(1, 8 // a.jobs)), '--seed', 'mut'], env = env, capture_output = True, text = True, timeout = 400)
            except subprocess.TimeoutExpired: hit = c + ' timeout'; break
            if r.returncode == 1: hit = c; break
            if r.returncode not in (0, 1, 2): hit = '%s rc=%s' % (c, r.returncode); break
            if r.returncode == 2 and 'too little' not in r.stdout + r.stderr and 'Traceback' in r.stdout + r.stderr: hit = '%s harness error' % c; break
    finally:
        open(w + '/sippy/' + f, 'w').write(src)
    log.write('%s %s:%d [%s] %s | %s | %s\n' % ('caught' if hit else 'SURVIVED', f, ln, what, hit or '', lines[ln - 1].strip()[:110], ','.join(sorted(cov[f, ln])))); log.flush()
import concurrent.futures, threading
q = list(enumerate(pool[:a.n]))
lk = threading.Lock()
def run(j):
    while True:
        with lk:
            nx = next((x for x in q if x[0] % a.jobs == j), None)
            if nx is None: return
            q.remove(nx)
        one(*nx)
ths = [threading.Thread(target = run, args = (j,)) for j in range(a.jobs)]
[t.start() for t in ths]; [t.join() for t in ths]
shutil.rmtree(root)
