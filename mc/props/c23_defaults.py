"""default values: an input nobody feeds holds the value it was declared with,
and everything is computed from it"""
import itertools

import numpy as np

from mc import gen, implicit as I, prog
from mc.props import c13_linalg as C13, c14_reductions as C14, c15_extrema as C15, c17_layout as C17, c27_literals as C27
from mc.props import c21_histories as H
from mc.prog import Bad

ID = 'C23'
FORMS = ('arr', 'list', 'num', 'int', 'npnum', 'intarr', 'none')


def bounds(tier):
    return ('every operation on declared inputs, and on expressions of them, with defaults given as array, nested list, number, '
            'integer, numpy scalar, array of any type or not at all; larger operands (the spaces of C13 to C17, C27); every ordered pair of operations sharing an input; an input '
            'used by a child system and by its parent; shape given or taken from the default; independent variables; no value is '
            'ever set from outside; declared inputs assigned to entries of an output in every order; inputs of components defined by residuals; starting values of cyclic outputs, one sweep')


def default(form, i, shape, dom, shift=0):
    """-> (argument for val or None, the value meant)"""
    v = prog.point(i, tuple(shape), dom, shift)
    if form == 'arr':
        return v, v
    if form == 'list':
        return v.tolist(), v
    if form in ('num', 'npnum'):
        x = float(v.reshape(-1)[0])
        return (np.float64(x) if form == 'npnum' else x), np.ones(shape) * x
    if form == 'int':
        return 2, np.ones(shape) * 2
    if form == 'intarr':
        w = 1 + np.arange(v.size).reshape(shape) % 3
        return w, w.astype(float)
    if form in ('u8', 'bool'):
        w = ((1 + np.arange(v.size)) * (101 if form == 'u8' else 1) % (256 if form == 'u8' else 2)).reshape(shape).astype('uint8' if form == 'u8' else 'bool')
        return w, w.astype(float)
    if form in ('f4', 'f2'):
        w = v.astype('float32' if form == 'f4' else 'float16')
        return w, w.astype(float)
    return None, np.ones(shape)


LARGE = [C13.large, C14.large, C15.large, C17.large, C27.large]
DOM1 = {'arcsin', 'arccos', 'tan', 'sec'}


def inst():
    for op, shapes, params, dom in H.ops():
        yield op, shapes, params, dom
    # further shapes: one entry, more axes
    for f in ('sin', 'exp', 'arcsin', 'sech'):
        yield f, [(1, )], {}, 'u'
        yield f, [(2, 1, 2)], {}, 'u'
    yield 'expand', [(1, )], {'shape': [3]}, 'pm'
    yield 'expand', [(3, )], {'shape': [3, 2], 'indices': 'i->ij'}, 'pm'
    yield 'expand', [(3, 2)], {'shape': [2, 3, 2], 'indices': 'ij->kij'}, 'pm'
    yield 'add', [(1, ), (1, )], {}, 'pm'
    yield 'mulc', [(1, )], {'c': 3.}, 'pm'
    yield 'reshape', [(6, )], {'shape': [2, 3]}, 'pm'
    yield 'transpose', [(3, )], {}, 'pm'
    yield 'outer', [(2, ), (2, 2)], {}, 'pm'
    yield 'outer', [(3, ), (2, )], {}, 'pm'
    yield 'matmat', [(2, 3), (3, )], {}, 'pm'
    yield 'matmat', [(2, 2), (2, 1)], {}, 'pm'
    yield 'inner', [(2, 2), (2, 2)], {'axes': [[0], [0]]}, 'pm'
    yield 'dot', [(3, 2), (3, 2)], {'axis': 0}, 'pm'
    yield 'average', [(3, )], {}, 'pos'
    yield 'sum', [(3, )], {}, 'pos'
    yield 'sum', [(2, 2)], {}, 'pos'
    yield 'pnorm', [(3, )], {}, 'pos'
    yield 'rotmat', [(3, )], {'axis': 'y'}, 'pm'
    yield 'rotmat', [(2, 2)], {'axis': 'z'}, 'pm'
    yield 'if_else', [(1, ), (1, ), (1, )], {}, 'pm'
    yield 'if_else', [(1, ), (2, 2), (2, 2)], {}, 'pm'
    yield 'einsum', [(2, ), (3, )], {'s': 'i,j->ij'}, 'pm'
    yield 'einsum', [(2, 2)], {'s': 'ii->i'}, 'pm'
    yield 'min', [(3, )], {}, 'pm'
    yield 'max', [(2, 2, 2)], {'axis': 1}, 'pm'


def fin(case):
    """reference values finite at the defaults"""
    vals = meant(case)
    try:
        return all(np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e6 for v in prog.ref_nodes(case, vals))
    except Exception:
        return False


def meant(case):
    return {n: default(case['form'][i], i, s, case['dom'])[1] for i, (n, s, k, v) in enumerate(case['ins'])}


def cases(tier):
    insts = list(inst())
    for op, shapes, params, dom in insts:
        for kind in ('in', 'std', 'expr', 'reg'):
            for form in FORMS:
                for free in ((True, False) if form in ('arr', 'list', 'intarr') else (False, )):
                    for ik in ('in', 'indep'):
                        if tier == 'quick' and (free and (kind != 'in') or ik == 'indep' and form not in ('arr', 'list')
                                                or kind == 'expr' and form not in ('arr', 'num')):
                            continue
                        c = gen.op_case(op, shapes, params, [kind] * len(shapes), 'reg', [], None, inkind=ik)
                        c.update(form=[form] * len(c['ins']), dom=dom, free=free)
                        if fin(c):
                            yield c
        if len(shapes) > 1:
            # different forms on different operands
            for fs in itertools.product(('arr', 'num', 'none'), repeat=len(shapes)):
                c = gen.op_case(op, shapes, params, ['in'] * len(shapes), 'reg', [], None)
                c.update(form=list(fs), dom=dom, free=False)
                if len(set(fs)) > 1 and fin(c):
                    yield c
    # pairs of operations on one input
    by = {}
    for op, shapes, params, dom in insts:
        for k, s in enumerate(shapes):
            by.setdefault(tuple(s), []).append((op, shapes, params, dom, k))
    for s, us in by.items():
        for a, b in itertools.product(us, repeat=2):
            if a is b and a[0] == 'idx':
                continue  # one and the same expression
            if tier == 'quick' and len(s) != 2 and a[0] != b[0] and a[0] not in HUB and b[0] not in HUB:
                continue
            for form in (('arr', ) if tier == 'quick' else ('arr', 'num', 'list')):
                c = pair(a, b, s)
                c.update(form=[form] * len(c['ins']), dom='u', free=False)
                if fin(c):
                    yield c
    # an input of a child and of its parent
    for op, shapes, params, dom in insts:
        for form in ('arr', 'num', 'list', 'none'):
            for how in ('cls', 'pre', 'with', 'before'):
                if tier == 'quick' and form in ('list', 'none') and how != 'cls':
                    continue
                for both in (False, True):
                    c = gen.op_case(op, shapes, params, ['in'] * len(shapes), 'reg', [], None)
                    c.update(form=[form] * len(c['ins']), dom=dom, free=False, child=how, both=both)
                    if fin(c):
                        yield c
    # larger operands, and defaults of other types
    more = ('arr', 'list', 'u8', 'f4', 'bool', 'f2', 'arr')
    for i, (op, shapes, params) in enumerate(itertools.chain(*[large(tier) for large in LARGE])):
        if tier == 'quick' and i % 4:
            continue
        c = gen.op_case(op, shapes, params, [('in', 'std', 'reg')[(i // 4 + j * (i // 8 % 2)) % 3] for j in range(len(shapes))], 'reg', [], None,
                        inkind=('in', 'in', 'indep')[i // 4 % 3])
        c.update(form=[more[(i // 4 + j) % 7] for j in range(len(c['ins']))], dom='pos' if op == 'pnorm' else 'u', free=bool(i // 4 % 2))
        if fin(c):
            yield c
    for op, shapes, params, dom in insts:
        for form in more[2:6]:
            for ik, free in (('in', True), ('in', False), ('indep', True)):
                c = gen.op_case(op, shapes, params, ['in'] * len(shapes), 'reg', [], None, inkind=ik)
                c.update(form=[form] * len(c['ins']), dom=dom, free=free)
                if fin(c):
                    yield c
    yield from pieces(tier)
    yield from imps(tier)
    # starting values of an output that feeds back
    for shape in ([1], [2], [2, 2]):
        for form in FORMS:
            for free in ((True, False) if form in ('arr', 'list', 'intarr') else (False, )):
                for f in ('sin', 'mulc', 'tanh'):
                    for d in ('chain', 'two'):
                        yield {'cyc': d, 'shape': shape, 'form': [form, form], 'dom': 'pm', 'f': f, 'free': free}


def pieces(tier):
    """declared inputs assigned straight to the entries of an output, in every order"""
    lay = [([3], [[0, [1]], [1, [1]], [2, [1]]]), ([4], [[['s', 0, 2, None], [2]], [['s', 2, 4, None], [2]]]),
           ([4], [[['s', 0, 4, 2], [2]], [['s', 1, 4, 2], [2]]]), ([5], [[['s', 3, 5, None], [2]], [0, [1]], [['s', 1, 3, None], [2]]]),
           ([2, 2], [[['t', [['s', 0, 1, None], ['s', 0, 2, None]]], [1, 2]], [['t', [['s', 1, 2, None], ['s', 0, 2, None]]], [1, 2]]]),
           ([2, 3], [[['t', [['s', 0, 2, None], ['s', i, i + 1, None]]], [2, 1]] for i in range(3)])]
    for shape, ps in lay:
        for perm in itertools.permutations(range(len(ps))):
            for form in itertools.product(('arr', 'num') if tier == 'quick' else FORMS[:5] + ('none', ), repeat=len(ps)):
                for ik in ('in', 'indep'):
                    for also in (False, True):
                        yield {'asm': shape, 'pieces': [ps[k] for k in perm], 'form': list(form), 'dom': 'pm', 'ik': ik, 'also': also}


def run_pieces(case):
    shape = tuple(case['asm'])
    want = np.zeros(shape)
    means = []

    def sl(k):
        if isinstance(k, int):
            return k
        if k[0] == 's':
            return slice(*k[1:])
        return tuple(sl(x) for x in k[1])

    args = []
    for i, (k, s) in enumerate(case['pieces']):
        a, m = default(case['form'][i], i, s, case['dom'])
        args.append({'shape': tuple(s)} if a is None else {'shape': tuple(s), 'val': a})
        means.append(m)
        want[sl(k)] = np.reshape(m, np.shape(want[sl(k)]))

    def build(g):
        o = g.create_output('o', shape=shape)
        vs = [(g.declare_input if case['ik'] == 'in' else g.create_indep_var)('p%d' % i, **a) for i, a in enumerate(args)]
        for (k, s), v in zip(case['pieces'], vs):
            o[sl(k)] = v
        if case['also']:
            g.register_output('w', vs[-1] * 2.)
            g.register_output('z', prog.ot.sin(o))

    p = prog.problem(build)
    p.run_model()
    for i, m in enumerate(means):
        prog.check_val(p, 'p%d' % i, m, what='default')
    prog.check_val(p, 'o', want)
    if case['also']:
        prog.check_val(p, 'w', 2 * means[-1])
        prog.check_val(p, 'z', np.sin(want))
    return len(means) * 2 + 2


def imps(tier):
    """inputs of a component defined by residuals"""
    ops = [('add', {}), ('mul', {}), ('sub', {}), ('div', {})]
    for shape in ([1], [2], [2, 2]):
        for form in ('arr', 'num', 'none'):
            for (o1, p1), (o2, p2) in itertools.product(ops, repeat=2):
                for share in (True, False):
                    for host in ('own-direct', 'outer-direct', 'brk'):
                        ins = []
                        for i, n in enumerate('ab'):
                            v, m = default(form, i + 1, shape, 'pos', 1)
                            ins.append(['in', n, shape, v.tolist() if isinstance(v, np.ndarray) else v])
                        st = ins + [['out', 'x', shape, None], ['out', 'y', shape, None], ['op', 't', o1, ['x', 'a'], p1],
                                    ['op', 'c', 'mulc', ['x'], {'c': 2.5}], ['op', 'r', 'sub', ['c', 't'], {}],
                                    ['op', 'e', o2, ['a' if share else 'b', 'b'], p2] if host != 'brk' else
                                    ['op', 'e', 'mul', ['b', 'b'], {}],
                                    ['op', 'f', 'pow', ['y'], {'c': 3}], ['op', 'g', 'add', ['f', 'y'], {}], ['op', 's', 'sub', ['g', 'e'], {}]]
                        k = ['resb', 'x', 'r', -9., 9.] if host == 'brk' else ['res', 'x', 'r']
                        k2 = ['resb', 'y', 's', -9., 9.] if host == 'brk' else ['res', 'y', 's']
                        if host == 'brk' and (o1 != 'sub' or o2 != 'add'):
                            continue
                        c = {'steps': st + [k, k2], 'host': 'om', 'solv': 'own-direct' if host == 'brk' else host, 'jac': None,
                             'form': form, 'imp': host}
                        if I.newton(c, imp_vals(c)) is not None:
                            yield c


def imp_vals(c):
    return {s[1]: np.ones(tuple(s[2])) * (1. if s[3] is None else np.array(s[3])) for s in c['steps'] if s[0] == 'in'}


def run_imp(case):
    p, used, outs = I.build(case)
    vals = imp_vals(case)
    p.run_model()
    for n in used:
        prog.check_val(p, n, vals[n], what='default')
    ref = I.newton(case, vals)
    for n in outs:
        prog.check_val(p, n, ref[n], tol=1e-7)
    return len(case['steps']) + 2


HUB = {'sin', 'add', 'mul', 'sum', 'mulc'}


def pair(a, b, s):
    ins = [['x', list(s), 'in', None]]
    ops = []
    outs = []

    def arm(u, tag):
        op, shapes, params, dom, k = u
        nodes = []
        for j, sh in enumerate(shapes):
            if j == k:
                nodes.append(0)
            else:
                ins.append([tag + str(j), list(sh), 'in', None])
                nodes.append(len(ins) - 1)
        return [op, nodes, params]

    o1 = arm(a, 'a')
    o2 = arm(b, 'b')
    n = len(ins)
    outs = [['f', n, 'now'], ['h', n + 1, 'now']]
    return gen.case(ins, [o1, o2], outs, [], None)


def declare(g, case, i, how=None):
    n, s, k, v = case['ins'][i]
    val, _ = default(case['form'][i], i, s, case['dom'])
    kw = {} if val is None else {'val': val}
    if not case['free']:
        kw['shape'] = tuple(s)
    return (g.declare_input if k == 'in' else g.create_indep_var)(n, **kw)


def emit(g, case):
    if 'child' in case:
        ot = prog.ot

        def body(h):
            nodes = [declare(h, case, i) for i in range(len(case['ins']))]
            for op in case['ops']:
                nodes.append(prog.apply_op(nodes, op))
            for n, j, w in case['outs']:
                h.register_output(n, nodes[j])

        mine = {}
        if case['both'] and case['child'] == 'before':
            mine = {i: declare(g, case, i) for i in range(len(case['ins']))}
        if case['child'] in ('cls', 'before'):
            g.add_subsystem('child', prog.group_from(body)(), promotes=['*'])
        elif case['child'] == 'pre':
            h = ot.Group()
            body(h)
            g.add_subsystem('child', h, promotes=['*'])
        else:
            with g.create_group('child') as h:
                body(h)
        if case['both'] and not mine:
            mine = {i: declare(g, case, i) for i in range(len(case['ins']))}
        for i, x in mine.items():
            g.register_output('own%d' % i, ot.tanh(x) * 2.)
        g.register_output('z', g.declare_input('f', shape=O_shape(case)) * 3.)
        return
    nodes = [declare(g, case, i) for i in range(len(case['ins']))]
    for op in case['ops']:
        nodes.append(prog.apply_op(nodes, op))
        for o in case['outs']:
            if o[1] == len(nodes) - 1 and o[2] == 'now':
                g.register_output(o[0], nodes[-1])


def O_shape(case):
    return prog.ref_outs(case, meant(case))['f'].shape


def run(case):
    if 'imp' in case:
        return run_imp(case)
    if 'cyc' in case:
        return run_cyc(case)
    if 'asm' in case:
        return run_pieces(case)
    p = prog.problem(lambda g: emit(g, case))
    vals = meant(case)
    p.run_model()
    n = prog.n_actions(case) + 2
    for i, (name, s, k, v) in enumerate(case['ins']):
        prog.check_val(p, name, vals[name], what='default')
    outs = prog.ref_outs(case, vals)
    for name, v in outs.items():
        prog.check_val(p, name, v)
    if 'child' in case:
        prog.check_val(p, 'z', 3. * outs['f'])
        if case['both']:
            for i, x in enumerate(case['ins']):
                prog.check_val(p, 'own%d' % i, 2. * np.tanh(vals[x[0]]))
    return n


def run_cyc(case):
    """one sweep without a solver: the feedback reads the starting value"""
    ot = prog.ot
    shape = tuple(case['shape'])
    args, mean = [], []
    for i in (0, 1):
        a, m = default(case['form'][i], i, shape, case['dom'])
        args.append({} if a is None else {'val': a})
        mean.append(m)
        if not case['free']:
            args[-1]['shape'] = shape
    fn = {'sin': (lambda x: ot.sin(x), np.sin), 'tanh': (lambda x: ot.tanh(x), np.tanh), 'mulc': (lambda x: x * 0.5, lambda x: x * 0.5)}[case['f']]

    def build(g):
        y = g.create_output('y', **args[0])
        if case['cyc'] == 'chain':
            y.define(fn[0](y) + 1.5)
        elif case['cyc'] == 'two':
            z = g.create_output('z', **args[1])
            w = g.create_output('w', shape=shape)
            w.define(fn[0](y) + z)
            y.define(ot.cos(w))
            z.define(ot.cos(w) * 2.)

    p = prog.problem(build)
    p.final_setup()
    prog.check_val(p, 'y', mean[0], what='starting value')
    p.run_model()
    if case['cyc'] == 'chain':
        prog.check_val(p, 'y', fn[1](mean[0]) + 1.5)
    else:
        w = fn[1](mean[0]) + mean[1]
        prog.check_val(p, 'w', w)
        prog.check_val(p, 'y', np.cos(w))
        prog.check_val(p, 'z', np.cos(w) * 2)
    return 6
