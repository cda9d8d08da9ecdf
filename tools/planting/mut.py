"""mut.py WORKER NWORKERS SEED: mutants of the library, tests, then checks."""
import ast, os, random, subprocess, sys, json, time, shutil
w, nw, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
R = '/tmp/mut/r%d' % w
V = '/tmp/mut/v%d' % w
for d in (R, V): subprocess.run(['rm', '-rf', d])
subprocess.check_call(['git', 'clone', '-q', '/tmp/rw', R])
subprocess.check_call('rsync -a --exclude .git --exclude evidence --exclude replays --exclude seeded /tmp/vw/ %s/' % V, shell=True)
FILES = ['pyangbind/lib/yangtypes.py', 'pyangbind/lib/serialise.py', 'pyangbind/lib/pybindJSON.py', 'pyangbind/lib/xpathhelper.py', 'pyangbind/lib/base.py', 'pyangbind/plugin/pybind.py']
def muts(path):
    src = open(path).read(); tree = ast.parse(src); lines = src.splitlines(True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    def span(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    out = []
    def add(n, new, what):
        s, e = span(n); out.append((s, e, new, what, n.lineno))
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): par[c] = n
    def infn(n):
        while n in par:
            n = par[n]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)): return True
        return False
    for n in ast.walk(tree):
        if not infn(n): continue
        seg = lambda x: ast.get_source_segment(src, x)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            f = {'Eq': '!=', 'NotEq': '==', 'In': 'not in', 'NotIn': 'in', 'Is': 'is not', 'IsNot': 'is', 'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>'}[type(n.ops[0]).__name__]
            add(n, '(%s %s %s)' % (l, f, r), 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for v in vs) + ')', 'drop%d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'False', 'iffalse'); add(n.test, 'True', 'iftrue')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(n, str(n.value + 1), 'const')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', 'delcall')
        elif isinstance(n, ast.Raise): add(n, 'pass', 'delraise')
        elif isinstance(n, (ast.Continue, ast.Break)): add(n, 'pass', 'delctl')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): add(n, 'return None', 'retnone')
        elif isinstance(n, ast.Assign): add(n, 'pass', 'delassign')
        elif isinstance(n, ast.keyword) and n.arg and isinstance(par.get(n), ast.Call):
            pass
    return b, [m for m in out]
ALL = []
for f in FILES:
    b, ms = muts(os.path.join(R, f))
    ALL += [(f, m) for m in ms]
random.seed(seed); random.shuffle(ALL)
ALL = ALL[w::nw]
CH = None
PRI = {'pyangbind/lib/yangtypes.py': '09 12 13 08 03 04 20 10 05 22 19', 'pyangbind/lib/serialise.py': '15 16 14 18 17 11', 'pyangbind/lib/pybindJSON.py': '17 18 15 14', 'pyangbind/lib/xpathhelper.py': '19 20', 'pyangbind/lib/base.py': '09 17 11 15', 'pyangbind/plugin/pybind.py': '01 06 09 05 07 03 02 10 08'}
hits = {}
for f_, l_ in PRI.items():
    for i_, c_ in enumerate(l_.split()): hits[(f_, 'C' + c_)] = 1 - i_ / 100.0
env = dict(os.environ, PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
base = set(json.load(open('/tmp/mut/base.json'))) if os.path.exists('/tmp/mut/base.json') else None
log = open('/tmp/mut/log%d.txt' % w, 'a')
for f, (s, e, new, what, line) in ALL:
    p = os.path.join(R, f)
    orig = open(p, 'rb').read()
    mutated = orig[:s] + new.encode() + orig[e:]
    try: compile(mutated, p, 'exec')
    except SyntaxError: continue
    open(p, 'wb').write(mutated)
    try:
        try:
            t = subprocess.run('timeout 120 python -m pytest -q -x -p no:cacheprovider --timeout=60 -o python_files="run.py test_*.py 00_*.py" --ignore=tests/integration --ignore=tests/serialise/openconfig-serialise --ignore=tests/notification/x --deselect NONE 2>&1 | tail -4' if False else
              'timeout 200 python -m pytest -q --maxfail=3 -p no:cacheprovider --timeout=60 -o python_files="run.py test_*.py 00_*.py" --ignore=tests/integration --ignore=tests/serialise/openconfig-serialise 2>&1 | tail -1',
              shell=True, cwd=R, env=env, stdout=subprocess.PIPE, text=True).stdout
        except Exception as ex: t = str(ex)
        ok = '2 failed, 350 passed' in t
        desc = '%s:%d %s %r -> %r' % (f, line, what, orig[s:e].decode()[:70], new[:60])
        if not ok:
            print('TESTS', desc, '|', t.strip()[:50], file=log, flush=True); continue
        order = ['C' + x for x in PRI[f].split()]; order.sort(key=lambda c: -hits.get((f, c), 0))
        caught = None
        odd = []
        for c in order:
            r = subprocess.run(['timeout', '300', 'python3', 'run.py', c, '--shards', '3'], cwd=V, env=dict(env, VERIF_REPO=R, PATH='/usr/bin:/bin', PBT_FAST='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1: caught = c; break
            if r.returncode != 0: odd.append((c, r.returncode, r.stdout[-300:]))
        if caught:
            hits[(f, caught)] = hits.get((f, caught), 0) + 1; hits[caught] = hits.get(caught, 0) + 1
        print('CAUGHT ' + caught if caught else 'SURVIVED', desc, odd or '', file=log, flush=True)
    finally:
        open(p, 'wb').write(orig)
        subprocess.run('rm -rf %s/replays; git -C %s status --short | head -3' % (V, R), shell=True)
