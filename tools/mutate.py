"""Mutation sweep over the code under test.

python3 mutate.py tests OUT.jsonl [-j N] [-k every] FILE...   which mutants the stable tests let through
python3 mutate.py checks IN.jsonl OUT.jsonl [-j N]            which of those the property checks see

Mutants live in copies of /repo under /tmp.  FILE is relative to /repo.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import zlib
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PY = '/opt/venv/bin/python'

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult],
       ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(m) for m in ast.walk(n) if m is not n}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list + (n.args.defaults if isinstance(n, ast.FunctionDef) else []):
                pass
            for a in (ast.walk(n.args) if isinstance(n, ast.FunctionDef) else []):
                if isinstance(a, ast.arg) and a.annotation is not None:
                    skip |= {id(m) for m in ast.walk(a.annotation)}
    out = []

    def rep(n, new, what):
        a = off[n.lineno - 1] + n.col_offset
        b = off[n.end_lineno - 1] + n.end_col_offset
        t = new if isinstance(new, str) else ast.unparse(new)
        if not isinstance(new, str) and isinstance(new, ast.expr):
            t = '(' + t + ')'
        s = (raw[:a] + t.encode() + raw[b:]).decode()
        try:
            compile(s, 'm', 'exec')
        except SyntaxError:
            return
        if s != src:
            out.append((n.lineno, what + ': ' + ast.unparse(n).split('\n')[0][:70] + ' -> ' + t[:70], s))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = copy.deepcopy(n)
            m.ops = [CMP[type(n.ops[0])]()]
            rep(n, m, 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            for o in BIN[type(n.op)]:
                m = copy.deepcopy(n)
                m.op = o()
                rep(n, m, 'bin')
        elif isinstance(n, ast.UnaryOp):
            rep(n, n.operand, 'unary')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, ast.Constant(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, ast.Constant(n.value + 1), 'const')
                if n.value > 0:
                    rep(n, ast.Constant(n.value - 1), 'const')
            elif isinstance(n.value, float):
                rep(n, ast.Constant(n.value + 1.), 'const')
                rep(n, ast.Constant(n.value * 1.5), 'const')
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            rep(n, m, 'bool')
            for i in range(len(n.values)):
                if len(n.values) == 2:
                    rep(n, n.values[i], 'operand')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, ast.UnaryOp(ast.Not(), n.test), 'not')
            if isinstance(n, (ast.If, ast.IfExp)):
                rep(n.test, ast.Constant(True), 'true')
                rep(n.test, ast.Constant(False), 'false')
        elif isinstance(n, (ast.For, ast.comprehension)):
            for t in ('list(%s)[:6]', 'list(%s)[1:]', 'list(%s)[:-1]', 'reversed(list(%s))'):
                rep(n.iter, t % ast.unparse(n.iter), 'iter')
        elif isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[i]
                rep(n, m, 'kw ' + str(n.keywords[i].arg))
            if len(n.args) == 1 and not n.keywords:
                rep(n, n.args[0], 'unwrap')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                m = copy.deepcopy(n)
                m.lower = None
                rep(n, ast.unparse(m), 'slice')
            if n.upper is not None:
                m = copy.deepcopy(n)
                m.upper = None
                rep(n, ast.unparse(m), 'slice')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)) or \
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, 'pass', 'del')
        if isinstance(n, ast.AugAssign):
            t = copy.deepcopy(n.target)
            rep(n, '%s = %s' % (ast.unparse(t), ast.unparse(n.value)), 'aug')
        if isinstance(n, ast.FunctionDef) and n.name in ('compute', 'compute_partials', 'linearize'):
            # only from some size on: a guard that ordinary sizes never meet
            pass
    seen, res = set(), []
    for m in out:
        if m[2] not in seen:
            seen.add(m[2])
            res.append(m)
    return res


def clone():
    w = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    shutil.copytree('/repo', w + '/repo', symlinks=True,
                    ignore=shutil.ignore_patterns('__pycache__', '*_out', '.git'))
    return w


FAILING = None


def run_tests(w):
    global FAILING
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENMDAO_REPORTS='0',
               OPENMDAO_WORKDIR=w, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    x = w + '/junit.xml'
    if os.path.exists(x):
        os.remove(x)
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:dash', '-p', 'no:cacheprovider', '--timeout=60',
                        '-o', 'junit_family=xunit2', '--junitxml=' + x, 'omtools'],
                       cwd=w + '/repo', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        subprocess.run(['python3', '/opt/vp/results.py', w + '/out.json', 'junit:' + x], capture_output=True)
        return not STABLE - set(json.load(open(w + '/out.json'))['passed'])
    except Exception:
        return False


RELEVANT = [
    ('core/graph', 'C03 C05 C06 C04 C07 C13'), ('core/group', 'C06 C05 C22 C07 C25 C23 C03 C24 C04 C08 C13 C11'),
    ('core/variable', 'C22 C05 C27 C01 C10 C09 C29 C13 C17 C21'), ('core/explicit_output', 'C09 C22 C08 C23 C05'),
    ('core/implicit_output', 'C11 C12 C22 C23 C30'), ('core/indep', 'C25 C23 C22'), ('core/input', 'C23 C22 C25'),
    ('core/', 'C22 C01 C05 C13'), ('implicit_component', 'C11 C12 C30 C22 C21 C23'),
    ('power_comb', 'C01 C27 C02 C30'), ('linear', 'C27 C01 C02 C30'), ('indexed', 'C09 C10'), ('decompose', 'C10 C21'),
    ('rotation', 'C18'), ('einsum', 'C19 C22 C30'), ('std/einsum', 'C19 C22'), ('expand', 'C17 C22'),
    ('reshape', 'C17 C22'), ('reorder', 'C17 C22'), ('transpose', 'C17 C22'), ('sum', 'C14 C22'), ('average', 'C14 C22'),
    ('norm', 'C14 C22 C30'), ('max', 'C15 C22'), ('min', 'C15 C22'), ('extremum', 'C15'), ('if_else', 'C20 C22'),
    ('cross', 'C13 C22'), ('dot', 'C13 C22'), ('inner', 'C13 C22'), ('outer', 'C13 C22'), ('mat', 'C13 C22'),
    ('options_dictionary', 'C26 C24'), ('slice_to_list', 'C09 C10'), ('get_shape', 'C22 C23'),
    ('utils/graph', 'C03 C05 C06'), ('replace_output', 'C05 C08 C09'), ('std/', 'C16 C22 C13 C23'), ('comps/', 'C16 C21 C30 C13 C23'),
    ('utils/', 'C22 C26 C19 C09 C03'),
]


def relevant(f):
    own = ['C32'] if '/comps/' in f and 'implicit' not in f or 'process_options' in f or 'list_of' in f else []
    for k, v in RELEVANT:
        if k in f:
            return own + v.split()
    return ['C13']


def stage_tests(out, jobs, every, files):
    q = queue.Queue()
    tot = 0
    for f in files:
        src = open('/repo/' + f).read()
        ms = mutants(src)
        for i, m in enumerate(ms):
            if (i + hash(f)) % every == 0 if every > 1 else True:
                q.put((f,) + m)
                tot += 1
    print(tot, 'mutants', flush=True)
    lock = threading.Lock()
    fo = open(out, 'a')
    done = [0, 0]

    def work():
        w = clone()
        try:
            while True:
                try:
                    f, ln, what, s = q.get_nowait()
                except queue.Empty:
                    return
                orig = open('/repo/' + f).read()
                open(w + '/repo/' + f, 'w').write(s)
                ok = run_tests(w)
                open(w + '/repo/' + f, 'w').write(orig)
                with lock:
                    done[0] += 1
                    done[1] += ok
                    if ok:
                        fo.write(json.dumps({'file': f, 'line': ln, 'what': what, 'src': s}) + '\n')
                        fo.flush()
                    if done[0] % 100 == 0:
                        print(done, 'of', tot, flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print('done', done, flush=True)


def stage_checks(inp, out, jobs, limit=420):
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what']))
    q = queue.Queue()
    for l in open(inp):
        d = json.loads(l)
        if (d['file'], d['line'], d['what']) not in done:
            q.put(d)
    print(q.qsize(), 'mutants', flush=True)
    lock = threading.Lock()
    fo = open(out, 'a')

    def work():
        w = clone()
        try:
            while True:
                try:
                    d = q.get_nowait()
                except queue.Empty:
                    return
                orig = open('/repo/' + d['file']).read()
                open(w + '/repo/' + d['file'], 'w').write(d['src'])
                res, by = 'SURVIVED', None
                env = dict(os.environ, OMT_REPO=w + '/repo')
                seed = str(zlib.crc32((d['what'] + str(d['line'])).encode()))
                try:
                    p = subprocess.run([PY, '-W', 'ignore', '-B', os.environ['EXPRESS'], seed, '4000', '25'] +
                                       relevant(d['file']), cwd=w, env=env, capture_output=True, text=True, timeout=limit)
                    if p.returncode == 1:
                        res, by = 'caught', p.stdout[:120].strip()
                    elif p.returncode != 0:
                        res, by = 'broken', p.stderr[-200:]
                except subprocess.TimeoutExpired:
                    res = 'timeout'
                open(w + '/repo/' + d['file'], 'w').write(orig)
                with lock:
                    r = dict(d)
                    del r['src']
                    r.update(result=res, by=by)
                    fo.write(json.dumps(r) + '\n')
                    fo.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    a = sys.argv[1:]

    def opt(k, d):
        if k in a:
            i = a.index(k)
            v = int(a[i + 1])
            del a[i:i + 2]
            return v
        return d
    jobs, every = opt('-j', 6), opt('-k', 1)
    if a[0] == 'tests':
        stage_tests(a[1], jobs, every, a[2:])
    elif a[0] == 'count':
        for f in a[1:]:
            print(len(mutants(open('/repo/' + f).read())), f)
    else:
        stage_checks(a[1], a[2], jobs)
