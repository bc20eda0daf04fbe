"""components defined by residuals: a step language, its meaning, and the replay on the real code.

case = {
 'steps': [['in', name, shape, val|None], ['ind', name, shape, val], ['asm', name, shape, [[key, node], ...]], ['out', name, shape, init|None], ['op', name, op, [args], params],
           ['child', name, kind, [args], coefs], ['reg', node, name],
           ['res', out, node], ['resb', out, node, x1, x2]],
 'host' : how the component is embedded: 'om' | 'ot' | 'child'
 'solv' : 'own-direct' | 'own-krylov' | 'outer-direct' | 'outer-once' | 'outer-gs' | 'outer-jac' | 'brk-...'
 'pts'  : evaluation points, 'jac': mode
}
A child computes  sum_i coefs[i] * args[i]**(i+1)  (shape of its arguments).
"""
import numpy as np

from mc import ops as O
from mc import prog
from mc.prog import Bad


def names(case, kind):
    return [s[1] for s in case['steps'] if s[0] == kind]


def shape_of(case, name):
    for s in case['steps']:
        if s[0] in ('in', 'out') and s[1] == name:
            return tuple(s[2])


def in_vals(case, pt):
    return {
        s[1]: prog.point(i, tuple(s[2]), pt[0], pt[1])
        for i, s in enumerate(s for s in case['steps'] if s[0] == 'in')
    }


# -------------------------------------------------------------------- meaning
def nodes(case, env_):
    d = dict(env_)
    for s in case['steps']:
        if s[0] == 'op':
            d[s[1]] = O.ref_op(s[2], [d[a] for a in s[3]], s[4])
        elif s[0] == 'ind':
            d[s[1]] = np.array(s[3], dtype=float) * np.ones(tuple(s[2]))
        elif s[0] == 'asm':
            d[s[1]] = np.ones(tuple(s[2]), dtype=complex if any(np.iscomplexobj(d[a]) for _, a in s[3]) else float)
            for k, a in s[3]:
                d[s[1]][O.as_slices(k)] = np.reshape(d[a], d[s[1]][O.as_slices(k)].shape)
        elif s[0] == 'child':
            d[s[1]] = sum(c * d[a]**(i + 1) for i, (a, c) in enumerate(zip(s[3], s[4]))) if s[3] else np.array(s[4], dtype=float)
    return d


def residuals(case):
    return [(s[1], s[2]) for s in case['steps'] if s[0] in ('res', 'resb')]


def split(case, vec):
    """vector of unknowns -> dict"""
    d, k = {}, 0
    for o, _ in residuals(case):
        sh = shape_of(case, o)
        n = int(np.prod(sh))
        d[o] = np.asarray(vec[k:k + n]).reshape(sh)
        k += n
    return d


def flat(case, d):
    return np.concatenate([np.asarray(d[o]).reshape(-1) for o, _ in residuals(case)])


def R(case, ins, outs):
    d = nodes(case, {**ins, **outs})
    return np.concatenate([np.asarray(d[r]).reshape(-1) for _, r in residuals(case)])


H = 1e-40


def dR(case, ins, outs, wrt=None):
    """dR/d(unknowns) or dR/d(input wrt)"""
    src = flat(case, outs) if wrt is None else np.asarray(ins[wrt]).reshape(-1)
    cols = []
    for k in range(src.size):
        v = src.astype(complex).copy()
        v[k] += 1j * H
        if wrt is None:
            r = R(case, ins, split(case, v))
        else:
            r = R(case, {**ins, wrt: v.reshape(np.shape(ins[wrt]))}, outs)
        cols.append(np.imag(r) / H)
    return np.array(cols).T


def init(case):
    d = {}
    for s in case['steps']:
        if s[0] == 'out':
            d[s[1]] = np.ones(tuple(s[2])) * (1. if s[3] is None else np.array(s[3], dtype=float).reshape(tuple(s[2]))
                                              if isinstance(s[3], list) else s[3])
    return d


def singular(case, ins, o):
    """some formula is at (or next to) a division by zero"""
    with np.errstate(all='ignore'):
        d = nodes(case, {**ins, **o})
    for v in d.values():
        if not np.all(np.isfinite(v)) or np.max(np.abs(v), initial=0) > 1e4:
            return True
    for s in case['steps']:
        if s[0] == 'op' and (s[2] == 'div' or s[2] == 'pow' and s[4]['c'] < 0):
            if np.min(np.abs(d[s[3][-1]])) < 1e-2:
                return True
    return False


def newton(case, ins, start=None, maxit=25):
    """converged unknowns or None"""
    x = flat(case, start or init(case))
    for _ in range(maxit):
        o = split(case, x)
        with np.errstate(all='ignore'):
            r = R(case, ins, o)
            J = dR(case, ins, o)
        if singular(case, ins, o):
            return None
        if not (np.all(np.isfinite(r)) and np.all(np.isfinite(J))) or np.max(np.abs(x)) > 1e4:
            return None
        if np.linalg.svd(J, compute_uv=False)[-1] < 0.03:
            return None
        if np.max(np.abs(r)) < 1e-13:
            return o
        x = x - np.linalg.solve(J, r)
    return o if np.max(np.abs(r)) < 1e-11 else None


def well_posed(case):
    """Newton settles from the initial values at every point in turn (each point starts where the last one ended)"""
    try:
        start = None
        for pt in case['pts']:
            start = newton(case, in_vals(case, pt), start)
            if start is None:
                return False
        return True
    except Exception:
        return False


def uses(case):
    """inputs that some residual depends on"""
    dep = {}
    for s in case['steps']:
        if s[0] in ('in', 'out'):
            dep[s[1]] = {s[1]}
        elif s[0] in ('op', 'child'):
            dep[s[1]] = set().union(*[dep[a] for a in s[3]]) if s[3] else set()
        elif s[0] == 'ind':
            dep[s[1]] = set()
        elif s[0] == 'asm':
            dep[s[1]] = set().union(*[dep[a] for _, a in s[3]])
    u = set().union(*[dep[r] for _, r in residuals(case)])
    return [i for i in names(case, 'in') if i in u]


# --------------------------------------------------------------------- replay
def newton_solver():
    return prog.om.NewtonSolver(solve_subsystems=False, maxiter=50, atol=1e-13, rtol=1e-13, iprint=-1, err_on_non_converge=False)


def child_system(kind, out, args, coefs, shapes):
    om, ot = prog.om, prog.ot

    def body(g):
        if not args:
            g.create_indep_var(out, shape=shapes[0], val=np.array(coefs, dtype=float))
            return
        t = None
        for i, (a, c) in enumerate(zip(args, coefs)):
            v = g.declare_input(a, shape=shapes[i])
            e = c * v**(i + 1) if i else c * v
            t = e if t is None else t + e
        g.register_output(out, t)

    if kind == 'cls':
        class Child(ot.Group):
            def setup(self):
                body(self)
        return Child()
    if kind == 'pre':
        g = ot.Group()
        body(g)
        return g
    if kind == 'exec':
        kw = {a: {'shape': tuple(s)} for a, s in zip(args, shapes)}
        kw[out] = {'shape': tuple(shapes[0])}
        return om.ExecComp('%s = %s' % (out, ' + '.join('%r*%s**%d' % (c, a, i + 1) for i, (a, c) in enumerate(zip(args, coefs)))), **kw)
    raise ValueError(kind)


def write(self, case):
    """the API calls of the component's setup"""
    g = self.group
    ot = prog.ot
    n = {}
    shp = {}
    reg = {}
    for k, s in enumerate(case['steps']):
        prog.tick()
        if 'hook' in case:
            case['hook'](k)
        if s[0] == 'in':
            kw = {} if s[3] is None else {'val': np.array(s[3], dtype=float) if isinstance(s[3], list) else s[3]}
            n[s[1]] = g.declare_input(s[1], shape=tuple(s[2]), **kw)
        elif s[0] == 'out':
            kw = {} if s[3] is None else {'val': np.array(s[3], dtype=float) if isinstance(s[3], list) else s[3]}
            n[s[1]] = g.create_implicit_output(s[1], shape=tuple(s[2]), **kw)
        elif s[0] == 'op':
            n[s[1]] = O.OPS[s[2]][0](ot, [n[a] for a in s[3]], s[4])
        elif s[0] == 'ind':
            n[s[1]] = g.create_indep_var(s[1], shape=tuple(s[2]), val=np.array(s[3], dtype=float) if isinstance(s[3], list) else s[3])
        elif s[0] == 'asm':
            n[s[1]] = g.create_output(s[1], shape=tuple(s[2]))
            for k_, a in s[3]:
                n[s[1]][O.key_of(k_)] = n[a]
        elif s[0] == 'reg':
            n[s[1]] = g.register_output(s[2], n[s[1]])
            reg[s[1]] = s[2]
        elif s[0] == 'child':
            args = [reg.get(a, a) for a in s[3]]
            shapes = [tuple(n[a].shape) for a in s[3]] or [np.array(s[4]).shape]
            if s[2] == 'with':
                with g.create_group('sys_' + s[1]) as c:
                    if not args:
                        c.create_indep_var(s[1], shape=shapes[0], val=np.array(s[4], dtype=float))
                    else:
                        t = None
                        for i, (a, k) in enumerate(zip(args, s[4])):
                            v = c.declare_input(a, shape=shapes[i])
                            e = k * v**(i + 1) if i else k * v
                            t = e if t is None else t + e
                        c.register_output(s[1], t)
            elif s[2] == 'make':
                c = self.create_group('sys_' + s[1])
                t = None
                for i, (a, k) in enumerate(zip(args, s[4])):
                    v = c.declare_input(a, shape=shapes[i])
                    e = k * v**(i + 1) if i else k * v
                    t = e if t is None else t + e
                c.register_output(s[1], t)
            else:
                g.add_subsystem('sys_' + s[1], child_system(s[2], s[1], args, s[4], shapes), promotes=['*'])
            n[s[1]] = g.declare_input(s[1], shape=shapes[0])
        elif s[0] == 'res':
            n[s[1]].define_residual(n[s[2]])
        elif s[0] == 'resb':
            kw = {}
            if len(s) > 3:
                kw = {'x1': np.array(s[3]) if isinstance(s[3], list) else s[3], 'x2': np.array(s[4]) if isinstance(s[4], list) else s[4]}
            n[s[1]].define_residual_bracketed(n[s[2]], **kw)
        else:
            raise ValueError(s)
    if 'hook' in case:
        case['hook'](len(case['steps']))
    om = prog.om
    sv = case.get('solv', 'own-direct')
    if sv == 'own-direct':
        self.linear_solver = om.DirectSolver()
        self.nonlinear_solver = newton_solver()
    elif sv == 'own-krylov':
        self.linear_solver = om.ScipyKrylov(atol=1e-14, rtol=1e-14)
        self.nonlinear_solver = newton_solver()


LIN = {
    'direct': lambda: prog.om.DirectSolver(),
    'once': lambda: prog.om.LinearRunOnce(),
    'gs': lambda: prog.om.LinearBlockGS(maxiter=30, atol=1e-15, rtol=1e-15, iprint=-1),
    'jac': lambda: prog.om.LinearBlockJac(maxiter=30, atol=1e-15, rtol=1e-15, iprint=-1),
    'krylov': lambda: prog.om.ScipyKrylov(atol=1e-14, rtol=1e-14),
}


def component(case):
    class Comp(prog.ot.ImplicitComponent):
        def setup(self):
            write(self, case)

    return Comp()


def build(case, dress=None, **kw):
    """(problem, names of the inputs to set, output names)"""
    om, ot = prog.om, prog.ot
    comp = component(case)
    host = case.get('host', 'om')
    outs = [o for o, _ in residuals(case)]
    used = uses(case)
    if host == 'om':
        model = om.Group()
        model.add_subsystem('c', comp, promotes=['*'])
        top = model
    else:
        def body(g):
            for i in used:
                a = g.create_indep_var('u_' + i, shape=shape_of(case, i))
                g.register_output(i, 1. * a)
            g.add_subsystem('c', comp, promotes=['*'])
            for o in outs:
                y = g.declare_input(o, shape=shape_of(case, o))
                g.register_output('z_' + o, y * y)

        class M(ot.Group):
            def setup(self):
                body(self)

        top = M()
        model = top
        if host == 'child':
            model = om.Group()
            model.add_subsystem('m', top, promotes=['*'])
    sv = case.get('solv', 'own-direct')
    a, b = sv.split('-')
    if a == 'outer':
        top.nonlinear_solver = newton_solver()
        top.linear_solver = LIN[b]()
    elif a == 'brk':
        top.linear_solver = LIN[b]()
    if dress:
        model = dress(model, comp)
    p = om.Problem(model=model, reports=None)
    p.setup(mode=case.get('jac') or 'auto', **kw)
    p.set_solver_print(-1)
    return p, used, outs


def verify(case, p, used, outs, pt, tol=1e-8, bracket=False):
    """move to a point, run, compare with the meaning; returns number of actions"""
    move(case, p, used, pt)
    p.run_model()
    check_values(case, p, outs, pt, case.get('tol', tol), bracket)
    if case.get('jac'):
        check_totals(case, p, used, outs, pt)
    return 3


def move(case, p, used, pt):
    ins = in_vals(case, pt)
    pre = '' if case.get('host', 'om') == 'om' else 'u_'
    for i in used:
        p.set_val(pre + i, ins[i])


def check_values(case, p, outs, pt, tol=1e-8, bracket=False):
    ins = in_vals(case, pt)
    host = case.get('host', 'om')
    got = {}
    for o in outs:
        v = prog.get(p, o)
        if v.shape != shape_of(case, o):
            raise Bad('shape of %s: %s' % (o, v.shape))
        got[o] = v
    r = R(case, ins, got)
    if not np.all(np.isfinite(r)) or np.max(np.abs(r)) > tol:
        raise Bad('residuals %s at reported outputs %s' % (r.tolist(), {k: v.tolist() for k, v in got.items()}))
    if bracket:
        for s in case['steps']:
            if s[0] == 'resb':
                x1, x2 = (np.array(s[k], dtype=float) * np.ones(shape_of(case, s[1])) for k in (3, 4)) if len(s) > 3 else (0., 1.)
                lo, hi = np.minimum(x1, x2) - 1e-12, np.maximum(x1, x2) + 1e-12
                if not (np.all(got[s[1]] >= lo) and np.all(got[s[1]] <= hi)):
                    raise Bad('%s = %s outside its bracket' % (s[1], got[s[1]].tolist()))
                # the residual of each entry changes sign within a hair of the value, however flat or steep it is
                x = got[s[1]]
                d = 1e-9 * (1. + np.abs(x))
                below, above = (nodes(case, {**ins, **got, s[1]: x + q})[s[2]]
                                for q in (-d, d))
                if np.any(np.sign(below) * np.sign(above) > 0):
                    raise Bad('the residual of %s does not change sign at %s: %s below, %s above' %
                              (s[1], x.tolist(), np.asarray(below).tolist(), np.asarray(above).tolist()))
    if host != 'om':
        for o in outs:
            prog.check_val(p, 'z_' + o, got[o]**2)
    return got


def check_totals(case, p, used, outs, pt, tol=1e-6):
    ins = in_vals(case, pt)
    host = case.get('host', 'om')
    pre = '' if host == 'om' else 'u_'
    got = {o: prog.get(p, o) for o in outs}
    of = list(outs) if host == 'om' else list(outs) + ['z_' + o for o in outs]
    if not used:
        return
    J = p.compute_totals(of=of, wrt=[pre + i for i in used])
    A = dR(case, ins, got)
    for i in used:
        full = -np.linalg.solve(A, dR(case, ins, got, i))
        k = 0
        for o in outs:
            n = got[o].size
            w = full[k:k + n]
            k += n
            prog.check_jac({(o, i): J[o, pre + i]}, {(o, i): w}, tol)
            if host != 'om':
                prog.check_jac({('z_' + o, i): J['z_' + o, pre + i]},
                               {('z_' + o, i): 2 * got[o].reshape(-1, 1) * w}, tol)


def run(case, bracket=False):
    p, used, outs = build(case)
    n = len(case['steps']) + 1
    for k, s in init(case).items():
        if not prog.close(prog.get(p, k), s):
            raise Bad('%s starts at %s, not at its initial value %s' % (k, prog.get(p, k).tolist(), s.tolist()))
    for pt in case['pts']:
        n += verify(case, p, used, outs, pt, bracket=bracket)
    return n


def path(case):
    res = [['s'] + s for s in case['steps']]
    res.append(['build', case.get('host'), case.get('solv'), case.get('jac')])
    return res + [['run', p] for p in case['pts']]
