"""runs cases of other modules in a process of its own, in which strings hash
with a given seed: sets and dictionaries keyed by hash are walked in another order"""
import json
import os
import subprocess
import sys

from mc import env, prog

CODE = '''
import importlib, io, json, os, sys
sys.path.insert(0, %r)
from mc import env
om, ot, np = env.load()
from mc import drive, prog
prog.bind(om, ot)
out = os.dup(1)
dn = os.open(os.devnull, os.O_WRONLY)
os.dup2(dn, 1)
os.dup2(dn, 2)
res = None
n = 0
for modname, case in json.load(sys.stdin):
    st, info = drive.run_one(importlib.import_module(modname), case)
    if st != 'ok':
        res = [json.dumps(case), info]
        break
    n += info or 0
os.write(out, json.dumps([n, res]).encode())
'''


def run(seed, cases):
    e = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-c', CODE % env.VERIF], input=json.dumps(cases).encode(), env=e, cwd=env._scratch,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=110)
    try:
        n, res = json.loads(p.stdout.decode())
    except ValueError:
        raise prog.Bad('the process with hash seed %s ended without an answer: %s' % (seed, p.stderr.decode()[-300:]))
    if res:
        raise prog.Bad('in a process with hash seed %s: %s: %s' % (seed, res[0][:600], res[1]))
    return n
