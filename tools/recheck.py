"""re-run the planted bugs against the current checks: python3 recheck.py [ID ...]

Each patch in /verif/seeded is applied to a scratch copy of /repo; demo both ways,
then the quick check of its property (and any listed with ID:Cxx,Cyy) on the copy.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def one(arg):
    bid, _, also = arg.partition(':')
    d = os.path.join(VERIF, 'seeded', bid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    t = tempfile.mkdtemp(prefix='rp_', dir='/tmp')
    try:
        c = os.path.join(t, 'repo')
        subprocess.run(['cp', '-a', '/repo', c], check=True)
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=c, capture_output=True, text=True)
        if r.returncode:
            return bid, 'PATCH DOES NOT APPLY ' + r.stderr[:200]
        res = []
        for pr in [meta['property']] + [a for a in also.split(',') if a]:
            e = dict(os.environ, OMT_REPO=c, OMT_EVIDENCE=t, VERIF_TIER='quick', VERIF_SEED='1')
            r = subprocess.run([PY, '-W', 'ignore', '-B', os.path.join(VERIF, 'mc', 'check.py'), pr, '--tier', 'quick'], cwd=VERIF, env=e,
                               capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % pr)]
            res.append('%s %s' % (pr, 'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode))
        return bid, '; '.join(res)
    finally:
        shutil.rmtree(t, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
with cf.ThreadPoolExecutor(2) as ex:
    for bid, r in ex.map(one, ids):
        print(bid, r, flush=True)
