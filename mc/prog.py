"""Programs: JSON-able sequences of API calls, a builder that performs them on
the real omtools, and a reference evaluator.

case = {
  'ins' : [[name, shape, kind, val|None], ...]      kind: 'in' | 'indep'
  'ops' : [[op, [operand node numbers], params], ...]   nodes = ins then ops
  'outs': [[name, node, when], ...]                 when: 'now' | 'end'
  'pts' : [[domain, shift], ...]                    evaluation points
  'jac' : 'fwd' | 'rev' | None
}
"""
import contextlib
import io
import signal

import numpy as np

from mc import ops as O

om = ot = None
TOL = 2e-8


def bind(om_, ot_):
    global om, ot
    om, ot = om_, ot_


class Bad(Exception):
    """the implementation disagrees with the reference"""


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def limit(sec):
    """bound the processor time (and, six times as long, the time) of what runs inside"""
    def h(*a):
        raise Timeout('no answer within %ds' % sec)

    old = signal.signal(signal.SIGALRM, h), signal.signal(signal.SIGPROF, h)
    signal.setitimer(signal.ITIMER_REAL, 6 * sec)
    signal.setitimer(signal.ITIMER_PROF, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])


MAGN = {'tiny': (1e-13, 1e-9, 1e-20), 'huge': (1e9, 1e14, 1e6), 'wide': (1e-11, 1e11, 1.), 'far': (50., 200., 700.)}
GOLD = 0.6180339887498949


def unit(i, n, shift):
    """n distinct numbers in (0,1), different for each input i and shift"""
    k = np.arange(1, n + 1)
    return np.mod(k * GOLD + 0.173 + 0.37 * i + 0.2914 * shift, 1.0)


def point(i, shape, dom, shift):
    n = int(np.prod(shape))
    u = unit(i, n, shift)
    if dom == 'u':  # inside every elementary domain of definition
        v = 0.2 + 0.7 * u
    elif dom == 'pos':
        v = 0.4 + 1.6 * u
    elif dom == 'pm':  # both signs, away from zero
        v = np.where(np.arange(n) % 2 == (i + int(shift)) % 2, 1., -1.) * (0.4 + 1.1 * u)
    elif dom == 'neg':
        v = -(0.4 + 1.3 * u)
    elif dom == 'big':
        v = np.where(np.arange(n) % 2 == i % 2, 1., -1.) * (20. + 300. * u)
    elif dom in MAGN:  # both signs, magnitudes far apart within one array
        v = np.where(np.arange(n) % 2 == i % 2, 1., -1.) * (0.4 + 1.1 * u) * np.array([MAGN[dom][(j + i) % 3] for j in range(n)])
    elif dom == 'tie':  # many equal entries
        v = 0.5 + 0.25 * (np.arange(n) % 2)
    elif dom == 'zero':
        v = np.zeros(n)
    elif dom == 'hz':  # zeros among non-zeros
        v = np.where(np.arange(n) % 2 == (i + int(shift)) % 2, 0., 0.4 + 1.1 * u)
    else:
        raise ValueError(dom)
    return v.reshape(shape)


def in_values(case, pt):
    return {
        n: point(i, tuple(s), pt[0], pt[1])
        for i, (n, s, k, v) in enumerate(case['ins'])
    }


# ------------------------------------------------------------------ reference
def ref_nodes(case, vals):
    nodes = [np.asarray(vals[n]).reshape(tuple(s)) for n, s, k, v in case['ins']]
    for op, a, p in case['ops']:
        nodes.append(O.ref_op(op, [nodes[j] for j in a], p))
    return nodes


def ref_outs(case, vals):
    nodes = ref_nodes(case, vals)
    return {o[0]: nodes[o[1]] for o in case['outs']}


def ref_jac(case, vals, wrt):
    h = 1e-40
    J = {}
    for w in wrt:
        base = np.asarray(vals[w])
        cols = []
        for k in range(base.size):
            d = {n: np.asarray(v, dtype=complex) for n, v in vals.items()}
            x = base.astype(complex).reshape(-1).copy()
            x[k] += 1j * h
            d[w] = x.reshape(base.shape)
            o = ref_outs(case, d)
            cols.append({n: np.imag(np.asarray(v)).reshape(-1) / h for n, v in o.items()})
        for o in case['outs']:
            J[o[0], w] = np.array([c[o[0]] for c in cols]).T.reshape((-1, base.size))
    return J


def well_posed(case, pts=None, big=1e5):
    """the reference is finite and moderate at every evaluation point"""
    for pt in (pts or case['pts']):
        try:
            for v in ref_nodes(case, in_values(case, pt)):
                if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > big or v.size == 0:
                    return False
        except Exception:
            return False
    return True


# ------------------------------------------------------------------ building
def apply_op(nodes, op):
    return O.OPS[op[0]][0](ot, [nodes[j] for j in op[1]], op[2])


def tick():
    """called before every building step (hook)"""


def emit(g, case, keep=None):
    """perform the API calls of `case` inside Group g"""
    nodes = []
    if case.get('rev'):
        g.reverse_branch_sorting = True
    for n, s, k, v in case['ins']:
        tick()
        # shapes computed with numpy consist of its integers
        kw = {'shape': tuple(np.int64(d) for d in s) if case.get('npshape') else tuple(s)}
        if v is not None:
            kw['val'] = np.array(v, dtype=float).reshape(tuple(s)) if isinstance(v, list) else v
        nodes.append((g.declare_input if k == 'in' else g.create_indep_var)(n, **kw))
    outs = case['outs']
    for i, op in enumerate(case['ops']):
        tick()
        nodes.append(apply_op(nodes, op))
        for o in outs:
            if o[1] == len(nodes) - 1 and o[2] == 'now':
                g.register_output(o[0], nodes[-1])
    for o in outs:
        if o[2] == 'end':
            g.register_output(o[0], nodes[o[1]])
    if keep is not None:
        keep.extend(nodes)
    return nodes


def group_from(fn, base=None):
    class G(base or ot.Group):
        def setup(self):
            fn(self)

    return G


def problem(fn, mode='auto', **kw):
    p = om.Problem(model=group_from(fn)(), reports=None)
    p.setup(mode=mode, **kw)
    return p


def n_actions(case):
    return len(case['ins']) + len(case['ops']) + len(case['outs'])


# ------------------------------------------------------------------ comparing
def close(a, b, tol=TOL):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1. + np.max(np.abs(b), initial=0.))))


def get(p, name):
    return np.array(p.get_val(name))


def check_val(p, name, want, tol=TOL, what='value'):
    got = get(p, name)
    want = np.real(np.asarray(want))
    if got.shape != want.shape:
        raise Bad('%s of %s: shape %s, expected %s' % (what, name, got.shape, want.shape))
    if not close(got, want, tol):
        raise Bad('%s of %s: %s, expected %s' % (what, name, got.tolist(), want.tolist()))


def check_jac(J, want, tol=1e-7):
    for k, w in want.items():
        g = np.asarray(J[k])
        if g.shape != w.shape or not close(g, w, tol):
            raise Bad('d %s / d %s: %s, expected %s' % (k[0], k[1], g.tolist(), w.tolist()))


def run_value_case(case):
    """build on the real code, run at every point, compare values (and totals)"""
    p = problem(lambda g: emit(g, case), mode=case.get('jac') or 'auto')
    wrt = [i[0] for i in case['ins']]
    used = used_inputs(case)
    wrt = [w for w in wrt if w in used]
    steps = n_actions(case) + 1
    for pt in case['pts']:
        vals = in_values(case, pt)
        for n, v in vals.items():
            if n in used:
                p.set_val(n, v)
        p.run_model()
        for n, v in ref_outs(case, vals).items():
            check_val(p, n, v)
        steps += 2
        if case.get('jac') and wrt:
            J = p.compute_totals(of=[o[0] for o in case['outs']], wrt=wrt)
            check_jac(J, ref_jac(case, vals, wrt))
            steps += 1
    return steps


def used_inputs(case):
    """inputs an output depends on, and every independent variable"""
    n0 = len(case['ins'])
    seen = set()
    stack = [o[1] for o in case['outs']]
    while stack:
        j = stack.pop()
        if j in seen:
            continue
        seen.add(j)
        if j >= n0:
            stack.extend(case['ops'][j - n0][1])
    return {c[0] for j, c in enumerate(case['ins']) if j in seen or c[2] == 'indep'}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
