"""Plant bugs: python3 plant.py FILE.py [ID ...]

FILE.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)].
Each is applied to a scratch copy of /repo (under /tmp, removed afterwards); the
patch is kept in /verif/seeded/<id>/ only if the changed lines are the base
commit's, the stable tests pass with it, and the demo passes without and fails
with it.  Then the property's quick check is run against the copy (OMT_REPO).
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = '''import io, contextlib, sys
import numpy as np
with contextlib.redirect_stdout(io.StringIO()):
    import openmdao.api as om
    import omtools.api as ot


def group(f, **kw):
    class M(ot.Group):
        def setup(self):
            for k, v in kw.items():
                setattr(self, k, v)
            f(self)
    return M()


def run(f, vals={}, outs=(), mode='auto', twice=1, **kw):
    p = om.Problem(f if not callable(f) else group(f, **kw))
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        p.setup(mode=mode, force_alloc_complex=False)
        for k, v in vals.items():
            p[k] = v
        for _ in range(twice):
            p.run_model()
    return p


def near(got, want, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape and got.size == want.size:
        got = got.reshape(want.shape)
    ok = got.shape == want.shape and np.all(np.abs(got - want) <= tol * (1 + np.abs(want)))
    if not ok:
        print('got', got, 'want', want)
        sys.exit(1)


def totals(p, of, wrt):
    return p.compute_totals(of=[of], wrt=[wrt])[of, wrt]


def fd(p, of, wrt, h=1e-6):
    x = np.array(p[wrt], float)
    J = np.zeros((p[of].size, x.size))
    for i in range(x.size):
        d = np.zeros(x.size); d[i] = h
        p[wrt] = x + d.reshape(x.shape); p.run_model(); a = np.array(p[of], float).ravel()
        p[wrt] = x - d.reshape(x.shape); p.run_model(); b = np.array(p[of], float).ravel()
        J[:, i] = (a - b) / 2 / h
    p[wrt] = x; p.run_model()
    return J


def refused(f):
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            f()
    except Exception:
        return
    print('accepted'); sys.exit(1)
'''
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds on this input
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); cd "$T" || exit 2
export OPENMDAO_REPORTS=0 OPENMDAO_WORKDIR="$T" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$R:$D" timeout 200 /opt/venv/bin/python -W ignore "$D/demo.py"; rc=$?
rm -rf "$T"; exit $rc
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def stable_ids():
    d = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'reliable', 'tests'):
        if k in d:
            return set(d[k])
    raise SystemExit(str(d.keys()))


def plant(b, checks=True):
    w = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    R = w + '/repo'
    log = []
    try:
        shutil.copytree('/repo', R, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '*_out'))
        base = sh('git rev-list --max-parents=0 HEAD', R).stdout.strip()
        for f, old, new in b['edits']:
            s = open(R + '/' + f).read()
            if s.count(old) != 1:
                return b['id'], 'EDIT %s occurs %d times' % (f, s.count(old))
            open(R + '/' + f, 'w').write(s.replace(old, new))
        diff = sh('git diff', R).stdout
        # changed lines must be the base commit's
        orig = False
        for f in {e[0] for e in b['edits']}:
            bl = sh('git blame -s HEAD -- ' + f, R).stdout.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- ' + f, R).stdout, re.M):
                a, n = int(m[1]), int(m[2]) if m[2] is not None else 1
                for i in range(a, a + n):
                    if bl[i - 1].startswith('^'):
                        orig = True
                    else:
                        log.append('line %s:%d is not original' % (f, i))
        if not orig:
            return b['id'], 'NOT ORIGINAL ' + '; '.join(log)
        D = w + '/d'
        os.mkdir(D)
        open(D + '/h.py', 'w').write(H)
        open(D + '/demo.py', 'w').write('from h import *\n\n' + b['demo'].strip('\n') + '\n')
        open(D + '/demo.sh', 'w').write(SH)
        os.chmod(D + '/demo.sh', 0o755)
        r0 = sh('bash %s/demo.sh' % D, '/repo')
        if r0.returncode != 0:
            return b['id'], 'DEMO FAILS UNPATCHED ' + (r0.stdout + r0.stderr)[-600:]
        r1 = sh('bash %s/demo.sh' % D, R)
        if r1.returncode == 0:
            return b['id'], 'DEMO PASSES PATCHED'
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + R)
        open(w + '/test.sh', 'w').write(t)
        sh('bash %s/test.sh %s/out.json' % (w, w), R)
        passed = set(json.load(open(w + '/out.json'))['passed'])
        lost = stable_ids() - passed
        if lost:
            return b['id'], 'TESTS LOST %s' % sorted(lost)[:4]
        S = VERIF + '/seeded/' + b['id']
        os.makedirs(S, exist_ok=True)
        for f in ('h.py', 'demo.py', 'demo.sh'):
            shutil.copy(D + '/' + f, S + '/' + f)
        open(S + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(S + '/meta.json', 'w'), indent=1)
        res = 'kept; demo: ' + (r1.stdout + r1.stderr).strip().split('\n')[-1][:150]
        if log:
            res += ' | ' + log[0]
        if checks:
            for c in [b['prop']] + b.get('also', []):
                q = sh('/opt/venv/bin/python -W ignore mc/check.py %s --tier quick' % c, VERIF,
                       env=dict(os.environ, OMT_REPO=R, OMT_EVIDENCE=tempfile.gettempdir() + '/omt_evidence'))
                v = [l for l in q.stdout.split('\n') if l.startswith('VIOLATION')]
                res += '\n    %s rc=%d %d violations %s' % (c, q.returncode, len(v), '' if v else '***MISSED*** ' + q.stderr[-200:])
        return b['id'], res
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [b for b in m.BUGS if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(2) as ex:
        for i, r in ex.map(plant, todo):
            print(i, r, flush=True)
