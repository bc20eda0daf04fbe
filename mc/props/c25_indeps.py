"""independent variables: value, availability, position, design-variable role"""
import itertools

import numpy as np

from mc import prog
from mc.prog import Bad

ID = 'C25'


def bounds(tier):
    return ('every sequence of length <= %d of building steps {independent variable, independent variable marked as design variable, '
            'input, expression registered of all so far, child system reading the variables before it, child system reading the '
            'variables still to come, expression of one} in a group, at the top or inside a child (subclass, filled in, with-block); '
            'values given as array, list, number, integers, shape given or not, up to 60 entries; up to 20 variables in regular patterns; run, moved, run again; derivatives' %
            (4 if tier == 'quick' else 5))


#: steps. i: independent variable; d: the same, design variable; n: plain input; e: registered expression of everything so far;
#: o: expression of the most recent variable only; c: child system reading everything so far (exec component);
#: g: child system (omtools group) reading everything so far; f: child system reading the next independent variable;
#: w: with-block child holding its own independent variable;  W: the same, design variable
ALPHA = 'idneocgfwW'
FORMS = ('arr', 'list', 'num', 'intarr', 'none', 'one', 'npnum')
SHAPES = ([2], [1], [2, 2])


def meaningful(w):
    k = 0
    for j, s in enumerate(w):
        if s in 'ocge' and not any(x in 'idn' for x in w[:j]):
            return False
        if s == 'f' and not any(x in 'id' for x in w[j + 1:]):
            return False
    return any(x in 'idwW' for x in w)


def cases(tier):
    n = 4 if tier == 'quick' else 5
    i = 0
    for ln in range(1, n + 1):
        for w in itertools.product(ALPHA, repeat=ln):
            if not meaningful(w):
                continue
            i += 1
            hosts = ('top', 'cls', 'pre', 'with')
            if ln == n:
                hosts = (hosts[i % 4], ) if tier == 'quick' else (hosts[i % 4], hosts[(i + 1) % 4])
            for h in hosts:
                yield {'path': list(w), 'form': FORMS[i % len(FORMS)], 'shape': SHAPES[i % 3], 'host': h, 'free': bool(i % 2), 'jac': ('fwd', 'rev')[i % 2]}
    # values and shapes on their own, every combination
    for form in FORMS:
        for shape in ([1], [2], [3], [1, 1], [2, 3], [2, 1, 2]):
            for free in (False, True):
                for w in ('i', 'd', 'io', 'do', 'ie', 'id', 'di', 'fi', 'ic', 'dc', 'iidd'):
                    for h in ('top', 'cls', 'pre', 'with'):
                        yield {'path': list(w), 'form': form, 'shape': shape, 'host': h, 'free': free, 'jac': ('fwd', 'rev')[free]}
    # many entries, many variables
    for shape in ([12], [3, 4, 5], [2, 1, 2, 3], [40]):
        for form, w, h in itertools.product(FORMS, ('i', 'd', 'ie', 'de', 'fd', 'dc', 'ig', 'nd', 'W'), ('top', 'cls', 'pre', 'with')):
            yield {'path': list(w), 'form': form, 'shape': shape, 'host': h, 'free': form in ('list', 'intarr'), 'jac': 'fwd'}
    for n in (8, 12, 20):
        for pat in ('i', 'd', 'id', 'ni', 'nd', 'W', 'iW', 'io', 'do', 'de'):
            for end in ('', 'e', 'c', 'g', 'gd', 'cge'):
                for h in ('top', 'cls', 'pre', 'with'):
                    if not end and h != 'top' or end in 'cge' and pat == 'W':
                        continue
                    yield {'path': list((pat * n)[:n] + end), 'form': FORMS[n % 5], 'shape': SHAPES[n % 3], 'host': h, 'free': False, 'jac': 'rev'}


def default(case, k):
    """-> keyword arguments, value meant"""
    shape = tuple(case['shape'])
    v = prog.point(k, shape, 'pm', 0)
    f = case['form']
    kw = {}
    if f == 'arr':
        kw['val'] = v
    elif f == 'list':
        kw['val'] = v.tolist()
    elif f == 'num':
        kw['val'] = 1.25 + k
        v = np.ones(shape) * (1.25 + k)
    elif f == 'npnum':
        kw['val'] = np.float64(0.5 + k)
        v = np.ones(shape) * (0.5 + k)
    elif f == 'intarr':
        v = (1. + k + np.arange(int(np.prod(shape)))).reshape(shape)
        kw['val'] = v.astype(int)
    elif f == 'one':
        kw['val'] = 3
        v = np.ones(shape) * 3
    else:
        v = np.ones(shape)
    if not (case['free'] and f in ('arr', 'list', 'intarr')):
        kw['shape'] = shape
    return kw, v


def build(g, case, log):
    """performs the steps; log collects (what is to be true)"""
    ot = prog.ot
    shape = tuple(case['shape'])
    have = []  # (name, expression)
    nxt = {}
    k = 0
    for j, s in enumerate(case['path']):
        nxt[j] = next(('v%d' % q for q in range(j + 1, len(case['path'])) if case['path'][q] in 'id'), None)
    for j, s in enumerate(case['path']):
        n = 'v%d' % j
        if s in 'id':
            kw, v = default(case, j)
            if s == 'd':
                kw['dv'] = True
            have.append((n, g.create_indep_var(n, **kw)))
            log.append(('ind', n, v, s == 'd'))
        elif s == 'n':
            have.append((n, g.declare_input(n, shape=shape, val=2. + j)))
            log.append(('in', n, np.ones(shape) * (2. + j)))
        elif s in 'eo':
            use = have if s == 'e' else have[-1:]
            t = None
            for i, (m, x) in enumerate(use):
                y = ot.sin(x) * (1. + i)
                t = y if t is None else t + y
            g.register_output(n, t)
            log.append(('sin', n, [m for m, x in use]))
        elif s in 'cgf':
            use = [m for m, x in have] if s != 'f' else [nxt[j]]
            if s == 'g' or s == 'f' and j % 2:
                def body(h, use=use, n=n):
                    t = None
                    for i, m in enumerate(use):
                        y = ot.sin(h.declare_input(m, shape=shape, val=log_val(log, m, case))) * (1. + i)
                        t = y if t is None else t + y
                    h.register_output(n, t)
                g.add_subsystem('s%d' % j, prog.group_from(body)(), promotes=['*'])
            else:
                kw = {m: {'shape': shape, 'val': log_val(log, m, case)} for m in use}
                kw[n] = {'shape': shape}
                g.add_subsystem('s%d' % j, prog.om.ExecComp('%s = %s' % (n, ' + '.join('%d*sin(%s)' % (i + 1, m) for i, m in enumerate(use))), **kw),
                                promotes=['*'])
            log.append(('sin', n, use))
        elif s in 'wW':
            kw, v = default(case, j)
            if s == 'W':
                kw['dv'] = True
            with g.create_group('s%d' % j) as h:
                x = h.create_indep_var(n, **kw)
                h.register_output('u%d' % j, ot.sin(x))
            log.append(('ind', n, v, s == 'W'))
            log.append(('sin', 'u%d' % j, [n]))
            have.append((n, g.declare_input(n, shape=shape)))


def log_val(log, m, case):
    for e in log:
        if e[0] in ('ind', 'in') and e[1] == m:
            return e[2]
    return default(case, int(m[1:]))[1]


def run(case):
    om, ot = prog.om, prog.ot
    log = []
    shape = tuple(case['shape'])
    if case['host'] == 'top':
        p = prog.problem(lambda g: build(g, case, log), mode=case['jac'])
    else:
        def top(g):
            if case['host'] == 'cls':
                g.add_subsystem('m', prog.group_from(lambda h: build(h, case, log))(), promotes=['*'])
            elif case['host'] == 'pre':
                h = ot.Group()
                build(h, case, log)
                g.add_subsystem('m', h, promotes=['*'])
            else:
                with g.create_group('m') as h:
                    build(h, case, log)

        p = prog.problem(top, mode=case['jac'])
    p.final_setup()
    steps = len(case['path'])
    ind = {e[1]: e[2] for e in log if e[0] == 'ind'}
    alive = set().union(*[e[2] for e in log if e[0] == 'sin']) if any(e[0] == 'sin' for e in log) else set()
    # sources, not inputs
    src = {m['prom_name'] for n, m in p.model.list_outputs(out_stream=None, prom_name=True, val=False)}
    for n in ind:
        if n not in src:
            raise Bad('independent variable %s is no output of the model' % n)
    # design variables, exactly those asked for
    dv = {m.get('name') for m in p.model.get_design_vars(recurse=True).values()}
    want = {e[1] for e in log if e[0] == 'ind' and e[3]}
    if dv != want:
        raise Bad('design variables %r, expected %r' % (sorted(dv), sorted(want)))
    # before everything that reads them
    order = []
    for s in p.model.system_iter(recurse=True, typ=om.ExplicitComponent):
        order.append(s.pathname)
    conns = p.model._conn_global_abs_in2out
    for tgt, s in conns.items():
        if s.startswith('_auto_ivc'):
            continue
        name = s.rsplit('.', 1)[-1]
        if name in ind and order.index(s.rsplit('.', 1)[0]) > order.index(tgt.rsplit('.', 1)[0]):
            raise Bad('%s is computed after it is read (%s)' % (name, tgt))

    vals = {e[1]: e[2] for e in log if e[0] in ('ind', 'in')}

    def check(vals):
        for n in ind:
            prog.check_val(p, n, vals[n], what='independent variable')
        for e in log:
            if e[0] == 'sin':
                prog.check_val(p, e[1], sum((i + 1.) * np.sin(vals[m]) for i, m in enumerate(e[2])))

    for n in ind:
        prog.check_val(p, n, vals[n], what='independent variable before the first run')
    p.run_model()
    check(vals)
    kept = {n: np.array(v) for n, v in ind.items()}
    moved = dict(vals)
    for i, n in enumerate(sorted(ind)):
        moved[n] = prog.point(i + 3, shape, 'u', 1)
        p.set_val(n, moved[n])
    p.run_model()
    check(moved)
    for n, v in ind.items():
        if not np.array_equal(kept[n], v):
            raise Bad('the array given for %s was modified' % n)
    outs = [e for e in log if e[0] == 'sin']
    steps += 4
    if outs and ind:
        J = p.compute_totals(of=[e[1] for e in outs], wrt=sorted(ind))
        ref = {}
        for e in outs:
            for n in ind:
                d = sum((i + 1.) * np.cos(moved[m]) for i, m in enumerate(e[2]) if m == n) + np.zeros(shape)
                ref[e[1], n] = np.diag(d.reshape(-1))
        prog.check_jac(J, ref)
        steps += 1
    if want:
        # the driver may move them
        for i, n in enumerate(sorted(want)):
            moved[n] = prog.point(i + 5, shape, 'pm', 2)
        p.driver = om.DOEDriver(om.ListGenerator([[(n, moved[n].reshape(-1)) for n in sorted(want)]]))
        p.run_driver()
        check(moved)
        steps += 2
    return steps
