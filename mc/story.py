"""Stories: sequences of API actions, also across nested groups and foreign
OpenMDAO systems, with sequential (declaration order) reference semantics.

step :=
  ['in',  v, name, shape]            v = declare_input(name, shape)
  ['ind', v, name, shape]            v = create_indep_var(name, shape)
  ['op',  v, op, [vars], params]     v = op(...)
  ['reg', name, v]                   register_output(name, v)
  ['out', v, name, shape]            v = create_output(name, shape)
  ['set', v, key, w]                 v[key] = w
  ['sub', sname, kind, body]         a child system, everything promoted
     an optional fifth entry says how it is promoted: 'all' (default), 'io',
     'list' (explicit names) or 'conn' (nothing promoted, inputs connected)
  ['con', src, tgt]                  connect(src, tgt); declare_input(tgt) follows
     kind 'cls'  subclass of the omtools Group, body is a story
          'pre'  a plain omtools Group filled in before it is added
          'with' create_group
          'exec' an OpenMDAO ExecComp,  body = [[out, shape, [[coef, in], ...]]]
          'omg'  an OpenMDAO Group of such ExecComps
story case := {'story': [...], 'pts': [...], 'jac': ..., 'shapes'...}
"""
import numpy as np

from mc import ops as O
from mc import prog
from mc.prog import Bad


# ------------------------------------------------------------------ building
def exec_expr(o):
    return '%s = %s' % (o[0], ' + '.join('%r*%s' % (float(c), n) for c, n in o[2]))


def exec_comp(outs):
    om = prog.om
    kw = {}
    for o, shape, terms in outs:
        for n in [o] + [t[1] for t in terms]:
            kw[n] = {'shape': tuple(shape)}
    return om.ExecComp([exec_expr(o) for o in outs], **kw)


def made(g):
    """a child system is about to be added (hook for further settings)"""
    return g


def make_child(kind, body):
    om, ot = prog.om, prog.ot
    if kind == 'cls':
        return made(prog.group_from(lambda g: play(g, body))())
    if kind == 'pre':
        g = ot.Group()
        play(g, body)
        return made(g)
    if kind == 'exec':
        return exec_comp(body)
    if kind == 'omg':
        g = om.Group()
        for i, o in enumerate(body):
            g.add_subsystem('c%d' % i, exec_comp([o]), promotes=['*'])
        return g
    raise ValueError(kind)


def interface(body):
    """names a child reads from outside, names it offers (stories only)"""
    reads, writes = [], []
    for s in body:
        if s[0] == 'in' and s[2] not in writes and s[2] not in reads:
            reads.append(s[2])
        elif s[0] == 'reg':
            writes.append(s[1])
        elif s[0] in ('out', 'ind'):
            writes.append(s[2])
        elif s[0] == 'sub':
            if s[2] in ('exec', 'omg'):
                r, w = [t[1] for o in s[3] for t in o[2]], [o[0] for o in s[3]]
            else:
                r, w = interface(s[3])
            reads += [n for n in r if n not in reads and n not in writes]
            writes += w
    return reads, writes


def play(g, story, env=None):
    env = {} if env is None else env
    for st in story:
        prog.tick()
        k = st[0]
        if k == 'in':
            env[st[1]] = g.declare_input(st[2], shape=tuple(st[3]))
        elif k == 'ind':
            env[st[1]] = g.create_indep_var(st[2], shape=tuple(st[3]))
        elif k == 'op':
            env[st[1]] = O.OPS[st[2]][0](prog.ot, [env[a] for a in st[3]], st[4])
        elif k == 'reg':
            g.register_output(st[1], env[st[2]])
        elif k == 'out':
            env[st[1]] = g.create_output(st[2], shape=tuple(st[3]))
        elif k == 'set':
            env[st[1]][O.key_of(st[2])] = env[st[3]]
        elif k == 'sub':
            if st[2] == 'with':
                with g.create_group(st[1]) as c:
                    play(c, st[3])
            else:
                how = st[4] if len(st) > 4 else 'all'
                reads, writes = interface(st[3])
                kw = {
                    'all': {'promotes': ['*']},
                    'io': {'promotes_inputs': ['*'], 'promotes_outputs': ['*']},
                    'list': {'promotes_inputs': reads, 'promotes_outputs': writes},
                    'list1': {'promotes': reads + writes},
                    'conn': {}
                }[how]
                g.add_subsystem(st[1], make_child(st[2], st[3]), **kw)
                if how == 'conn':
                    for n in reads:
                        g.connect(n, st[1] + '.' + n)
        elif k == 'con':
            g.connect(st[1], st[2])
        elif k == 'def':
            env[st[1]].define(env[st[2]])
        elif k == 'solver':
            set_solver(g, st[1])
        elif k == 'rev':
            g.reverse_branch_sorting = True
        else:
            raise ValueError(st)
    return env


# ------------------------------------------------------------------ reference
def ref(story, vals, store=None, ext=None, fix=None):
    """-> store: every promoted name with its value"""
    store = {} if store is None else store
    ext = {} if ext is None else ext
    env = {}
    late = []
    for st in story:
        k = st[0]
        if k in ('in', 'ind'):
            n = st[2]
            if n not in store:
                if n not in ext:
                    ext[n] = tuple(st[3])
                store_v = vals[n]
            else:
                store_v = store[n]
            env[st[1]] = np.asarray(store_v).reshape(tuple(st[3]))
            if k == 'ind':
                store[n] = env[st[1]]
        elif k == 'op':
            env[st[1]] = O.ref_op(st[2], [env[a] for a in st[3]], st[4])
        elif k == 'reg':
            store[st[1]] = env[st[2]]
        elif k == 'out' and fix is not None and st[2] in fix[0]:
            env[st[1]] = fix[0][st[2]]
            store[st[2]] = env[st[1]]
            fix[2][st[1]] = st[2]
        elif k == 'def':
            fix[1][fix[2][st[1]]] = env[st[2]]
        elif k in ('solver', 'rev'):
            pass
        elif k == 'out':
            env[st[1]] = np.ones(tuple(st[3]), dtype=complex)
            late.append((st[2], st[1]))
        elif k == 'set' and fix is not None and st[1] in fix[2]:
            # an output with elements that are computed from its elements
            new = fix[1].setdefault(fix[2][st[1]], np.ones(env[st[1]].shape, dtype=complex))
            new[O.as_slices(st[2])] = env[st[3]].reshape(new[O.as_slices(st[2])].shape)
        elif k == 'set':
            env[st[1]][O.as_slices(st[2])] = env[st[3]].reshape(env[st[1]][O.as_slices(st[2])].shape)
        elif k == 'sub':
            if st[2] in ('exec', 'omg'):
                for o, shape, terms in st[3]:
                    t = 0.
                    for c, n in terms:
                        if n not in store and n not in ext:
                            ext[n] = tuple(shape)
                        t = t + float(c) * np.asarray(store[n] if n in store else vals[n])
                    store[o] = np.asarray(t)
            elif len(st) > 4 and st[4] == 'conn':
                own = {n: store[n] for n in interface(st[3])[0]}
                keep = set(own)
                ref(st[3], vals, own, ext, fix)
                for n, v in own.items():
                    if n not in keep:
                        store[st[1] + '.' + n] = v
            else:
                ref(st[3], vals, store, ext, fix)
        elif k == 'con':
            store[st[2]] = store[st[1]]
        for n, v in late:
            store[n] = env[v]
    return store, ext


def cyclic(story):
    """name -> shape of the outputs defined in terms of themselves or each other"""
    res = {}
    outs = {}
    for s in story:
        if s[0] == 'out':
            outs[s[1]] = (s[2], tuple(s[3]))
            if len(s) > 4:
                res[s[2]] = tuple(s[3])
        elif s[0] == 'def':
            res[outs[s[1]][0]] = outs[s[1]][1]
        elif s[0] == 'sub' and s[2] not in ('exec', 'omg'):
            res.update(cyclic(s[3]))
    return res


class Diverges(Exception):
    pass


def solve(story, vals, iters=400, tol=1e-15):
    """ref with the cyclic outputs at their fixed point (plain iteration,
    carried on long enough for complex perturbations to settle as well)"""
    cyc = cyclic(story)
    if not cyc:
        return ref(story, vals)
    guess = {n: np.ones(s, dtype=complex) for n, s in cyc.items()}
    calm = 0
    for it in range(iters):
        new = {}
        store, ext = ref(story, vals, fix=(guess, new, {}))
        d = max(np.max(np.abs(new[n] - guess[n])) for n in cyc)
        big = max(np.max(np.abs(new[n])) for n in cyc)
        if not np.isfinite(d) or big > 50.:
            raise Diverges()
        rel = 0.
        for n in cyc:
            a, b = np.imag(new[n]), np.imag(guess[n])
            s = np.max(np.abs(a))
            if s:
                rel = max(rel, np.max(np.abs(a - b)) / s)
        guess = {n: np.asarray(new[n], dtype=complex) for n in cyc}
        calm = calm + 1 if d < tol * max(1, big) * 4 and rel < 1e-13 else 0
        if calm >= 3:
            return store, ext
    raise Diverges()


def set_solver(g, kind):
    om = prog.om
    nl, ln = kind.split('+')
    if nl == 'bgs':
        g.nonlinear_solver = om.NonlinearBlockGS(maxiter=300, atol=1e-14, rtol=1e-14, iprint=-1, use_apply_nonlinear=False)
    elif nl == 'newton':
        g.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=60, atol=1e-14, rtol=1e-14, iprint=-1)
    if ln == 'direct':
        g.linear_solver = om.DirectSolver()
    elif ln == 'krylov':
        g.linear_solver = om.ScipyKrylov(atol=1e-14, rtol=1e-14, maxiter=500, iprint=-1)
    elif ln == 'lbgs':
        g.linear_solver = om.LinearBlockGS(maxiter=300, atol=1e-15, rtol=1e-15, iprint=-1)


def externals(story, shapes=None):
    """external inputs (name -> shape), in order of first use"""
    ext = {}
    story = meaning(story)

    class V(dict):
        def __missing__(self, n):
            return np.ones(ext.get(n, (1, )))

    ref(story, V(), {}, ext, ({n: np.ones(s) for n, s in cyclic(story).items()}, {}, {}))
    return ext


def values(ext, pt):
    return {n: prog.point(i, s, pt[0], pt[1]) for i, (n, s) in enumerate(sorted(ext.items()))}


def jac_ref(story, vals, outs):
    h = 1e-40
    J = {}
    for w in vals:
        base = np.asarray(vals[w])
        cols = []
        for k in range(base.size):
            d = {n: np.asarray(v, dtype=complex) for n, v in vals.items()}
            x = base.astype(complex).reshape(-1).copy()
            x[k] += 1j * h
            d[w] = x.reshape(base.shape)
            s, _ = ref(story, d)
            cols.append({o: np.imag(s[o]).reshape(-1) / h for o in outs})
        for o in outs:
            J[o, w] = np.array([c[o] for c in cols]).T.reshape((-1, base.size))
    return J


def jac_cyclic(story, vals, outs, fix):
    """implicit function theorem at the fixed point, all blocks by complex step"""
    h = 1e-40
    cyc = list(fix)

    def cols(which, base):
        res = []
        for k in range(base[which].size):
            d = {n: np.asarray(v, dtype=complex) for n, v in vals.items()}
            f = {n: np.asarray(v, dtype=complex) for n, v in fix.items()}
            t = f if which in f else d
            x = t[which].reshape(-1).copy()
            x[k] += 1j * h
            t[which] = x.reshape(t[which].shape)
            new = {}
            s, _ = ref(story, d, fix=(f, new, {}))
            res.append((np.concatenate([np.imag(new[n]).reshape(-1) for n in cyc]) / h,
                        {o: np.imag(s[o]).reshape(-1) / h for o in outs}))
        return res

    cx = [c for n in cyc for c in cols(n, fix)]
    G = np.array([c[0] for c in cx]).T
    A = np.eye(len(G)) - G
    J = {}
    for w in vals:
        cw = cols(w, vals)
        X = np.linalg.solve(A, np.array([c[0] for c in cw]).T)
        for o in outs:
            Sx = np.array([c[1][o] for c in cx]).T
            Sw = np.array([c[1][o] for c in cw]).T
            J[o, w] = (Sx @ X + Sw).reshape((-1, np.asarray(vals[w]).size))
    return J


def present(p, names):
    """those of the names the model knows"""
    res = []
    for n in names:
        try:
            p.get_val(n)
            res.append(n)
        except KeyError:
            pass
    return res


def meaning(story):
    """everything computed from an output moves behind its last assignment"""
    story = [s[:3] + [meaning(s[3])] + s[4:] if s[0] == 'sub' and s[2] not in ('exec', 'omg') else s for s in story]
    left = {}
    loops = {s[1] for s in story if s[0] == 'out' and len(s) > 4}
    for s in story:
        if s[0] == 'set' and s[1] not in loops:
            left[s[1]] = left.get(s[1], 0) + 1
    # inputs may refer to outputs of this group by name
    own = {}
    for s in story:
        if s[0] in ('reg', 'ind') or s[0] == 'out' and s[1] not in loops:
            own[s[1] if s[0] == 'reg' else s[2]] = s
    own = {s[2]: own[s[2]] for s in story if s[0] == 'in' and s[2] in own}
    if not left and not own:
        return story
    late, res, wait = set(), [], []

    def needs(s):
        return s[3] if s[0] == 'op' else [s[2]] if s[0] in ('reg', 'def') else [s[3]] if s[0] == 'set' else []

    def ready(s):
        if s[0] == 'in' and s[2] in own:
            o = own[s[2]]
            return o in res and (o[0] != 'out' or not left.get(o[1]))
        return not any(left.get(a) or a in late for a in needs(s))

    def done(s):
        res.append(s)
        if s[0] == 'set' and s[1] in left:
            left[s[1]] -= 1
        elif s[0] in ('op', 'in'):
            late.discard(s[1])

    for s in story:
        if not ready(s):
            wait.append(s)
            if s[0] in ('op', 'in'):
                late.add(s[1])
            continue
        done(s)
        go = True
        while go:
            go = False
            for w in list(wait):
                if ready(w):
                    wait.remove(w)
                    done(w)
                    go = True
    return res + wait


def run(case, base=None):
    story = case['story']
    ext = externals(story)
    p = prog.problem(lambda g: play(g, story), mode=case.get('jac') or 'auto')
    return verify(p, case, story, ext)


def verify(p, case, story, ext):
    p.final_setup()
    steps = count(story) + 1
    story, live = prepare(p, case, story, ext)
    for pt in case['pts']:
        move(p, ext, live, pt)
        p.run_model()
        store, fix = check_values(p, story, ext, pt)
        steps += 2
        if case.get('jac') and check_totals(p, story, ext, live, pt, store, fix):
            steps += 1
    return steps


def prepare(p, case, story, ext):
    # an output stands for its final array wherever it is used, also before it is filled in
    story = meaning(story)
    live = present(p, ext)
    missing = [n for n in ext if n not in live and n not in case.get('dead', ())]
    if missing:
        raise Bad('inputs %s are not part of the model' % missing)
    return story, live


def move(p, ext, live, pt):
    vals = values(ext, pt)
    for n in live:
        p.set_val(n, vals[n])


def check_values(p, story, ext, pt):
    vals = values(ext, pt)
    cyc = cyclic(story)
    fix = None
    if cyc:
        # any fixed point will do: take the model's own and check that it is one
        fix = {n: prog.get(p, n) for n in cyc}
        for n in cyc:
            if fix[n].shape != cyc[n]:
                raise Bad('shape of %s: %s' % (n, fix[n].shape))
        new = {}
        store, _ = ref(story, vals, fix=(fix, new, {}))
        for n in cyc:
            prog.check_val(p, n, new[n], what='fixed point')
    else:
        store, _ = ref(story, vals)
    for n, v in store.items():
        prog.check_val(p, n, v)
    return store, fix


def check_totals(p, story, ext, live, pt, store, fix, tol=1e-7):
    vals = values(ext, pt)
    of = [n for n in store if n not in ext]
    if not of or not live:
        return False
    J = p.compute_totals(of=of, wrt=live)
    R = jac_cyclic(story, vals, of, fix) if fix is not None else jac_ref(story, vals, of)
    prog.check_jac(J, {k: v for k, v in R.items() if k[1] in live}, tol)
    return True


def count(story):
    return sum(1 + (count(s[3]) if s[0] == 'sub' and s[2] not in ('exec', 'omg') else 0) for s in story)


def path(case):
    rest = {k: v for k, v in case.items() if k != 'story'}
    return list(case['story']) + [['build', rest]] + [['run', p] for p in case['pts']]
