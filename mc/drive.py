"""Exhaustive driver: runs every case of a bounded space on the real code, in
parallel, and writes the evidence file.

A property module offers
    ID, TITLE, LEVEL_NOTE
    cases(tier) -> iterable of JSON-able cases (the whole bounded space)
    run(case)   -> number of API actions performed; raises on disagreement
    bounds(tier)-> str describing the space
optional
    expected_rejection etc. is the business of run().
    prefix(case)-> list of JSON-able action prefixes' labels (for state counting)
"""
import contextlib
import hashlib
import io
import itertools
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

from mc import env, prog

CASE_LIMIT = 20
MEM_LIMIT = 6 << 30
MAX_REPORT = 5
STOP_AFTER = 40


def default_path(case):
    """the action sequence of a case: its prefixes are the states visited"""
    if isinstance(case, dict) and 'ops' in case and 'ins' in case:
        path = [['in'] + list(i) for i in case['ins']]
        n0 = len(path)
        for j, o in enumerate(case['ops']):
            path.append(['op'] + list(o))
            for u in case.get('outs', []):
                if u[1] == n0 + j and u[2] == 'now':
                    path.append(['reg'] + list(u))
        path += [['reg'] + list(u) for u in case.get('outs', []) if u[2] == 'end']
        rest = {k: v for k, v in case.items() if k not in ('ins', 'ops', 'outs', 'pts', 'jac')}
        path.append(['build', rest])
        for pt in case.get('pts', []):
            path.append(['run', pt])
            if case.get('jac'):
                path.append(['totals', case['jac']])
        return path
    if isinstance(case, dict) and isinstance(case.get('path'), list):
        rest = {k: v for k, v in case.items() if k != 'path'}
        return [rest] + case['path']
    return [case]


_mod = None


def _init(modname):
    global _mod
    import importlib
    sys.stdout.flush()
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    # a change that loops while allocating must not take the sandbox down
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    _mod = importlib.import_module(modname)


def run_one(mod, case):
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            with prog.limit(CASE_LIMIT):
                return ('ok', mod.run(case))
    except prog.Bad as e:
        return ('bad', str(e))
    except prog.Timeout as e:
        return ('bad', str(e))
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/omtools/' in f.filename]
        site = ('%s:%d' % (os.path.basename(where[-1].filename), where[-1].lineno)) if where else '?'
        return ('bad', '%s: %s [%s]' % (type(e).__name__, str(e)[:400].replace('\n', ' '), site))


def _work(batch):
    out = []
    for c in batch:
        r = run_one(_mod, c)
        out.append((r, c if r[0] != 'ok' else None))
    return out


def batches(it, n):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


def canon(c):
    return json.dumps(c, sort_keys=True)


def load_known(pid):
    """known findings: entries with status 'known' of this property"""
    fn = os.path.join(env.VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                d = json.loads(line)
                if d['property'] == pid:
                    res.append(d)
    return res


def match_known(known, case, detail):
    for k in known:
        if canon(k['case']) == canon(case) and k['detail_contains'] in detail:
            return k
    return None


def check(mod, modname, tier, jobs=None):
    t0 = time.time()
    jobs = jobs or int(os.environ.get('OMT_JOBS') or min(8, os.cpu_count() or 1))
    known = load_known(mod.ID)
    seen_known = set()
    states = set()
    stats = dict(cases=0, transitions=0)
    viol = []
    samples = []
    path = getattr(mod, 'path', default_path)

    def feed():
        for c in mod.cases(tier):
            h = b''
            for a in path(c):
                h = hashlib.blake2b(h + canon(a).encode(), digest_size=8).digest()
                states.add(h)
            n = stats['cases']
            stats['cases'] += 1
            if n in (0, 7, 77) or (n % 5003 == 17 and len(samples) < 8):
                samples.append(c)
            yield c

    aborted = False
    ctx = mp.get_context('fork')
    bs = getattr(mod, 'BATCH', 8)
    with ctx.Pool(jobs, initializer=_init, initargs=(modname, )) as pool:
        it = pool.imap_unordered(_work, batches(feed(), bs))
        while True:
            try:
                res = it.next(timeout=CASE_LIMIT * bs + 140)
            except StopIteration:
                break
            except mp.TimeoutError:
                sys.stderr.write('a worker process died or hangs\n')
                pool.terminate()
                os._exit(2)
            for (st, info), c in res:
                if st == 'ok':
                    stats['transitions'] += int(info or 1)
                    continue
                k = match_known(known, c, info)
                if k is not None:
                    seen_known.add(canon(k))
                    continue
                viol.append((c, info))
            if len(viol) >= STOP_AFTER:
                aborted = True
                pool.terminate()
                break
    for k in known:
        if canon(k) in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))
    viol.sort(key=lambda v: (len(canon(v[0])), canon(v[0])))
    rdir = os.path.join(env.VERIF, 'evidence', 'replays')
    if viol:
        os.makedirs(rdir, exist_ok=True)
    for c, info in viol[:MAX_REPORT]:
        h = hashlib.sha1(canon(c).encode()).hexdigest()[:12]
        fn = os.path.join(rdir, '%s-%s.json' % (mod.ID, h))
        with open(fn, 'w') as f:
            json.dump({'property': mod.ID, 'module': modname, 'case': c, 'detail': info}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (mod.ID, fn))
        print('   ' + info[:600])
    wall = time.time() - t0
    ev = {
        'property': mod.ID,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': len(states),
            'transitions': stats['transitions'],
            'traces_validated_against_impl': stats['cases'],
            'samples': [canon(s)[:1500] for s in samples],
            'exhaustive': not aborted
        },
        'assumptions': [
            'bounded space, fully enumerated on the real code: ' + mod.bounds(tier),
            'every trace is executed on /repo itself; the reference is an independent plain-numpy interpreter, '
            'derivatives by complex step through it',
            'OpenMDAO, numpy and the Python interpreter are trusted'
        ] + list(getattr(mod, 'ASSUME', [])),
        'wall_s': round(wall, 2),
        'violations': len(viol)
    }
    return ev, viol, stats, wall


def main(modname, tier):
    import importlib
    om, ot, np = env.load()
    prog.bind(om, ot)
    mod = importlib.import_module(modname)
    ev, viol, stats, wall = check(mod, modname, tier)
    # (OMT_EVIDENCE: elsewhere, when a copy of the repository with a planted bug is explored)
    edir = os.environ.get('OMT_EVIDENCE') or os.path.join(env.VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d traces, %d states, %d transitions, %d violations, %.1fs' %
          (mod.ID, tier, stats['cases'], ev['coverage']['states'], stats['transitions'], len(viol),
           wall))
    return 1 if viol else 0


def replay(fn):
    import importlib
    om, ot, np = env.load()
    prog.bind(om, ot)
    d = json.load(open(fn))
    mod = importlib.import_module(d['module'])
    st, info = run_one(mod, d['case'])
    print(json.dumps(d['case'], indent=1))
    print(st, info)
    return 0 if st == 'ok' else 1
