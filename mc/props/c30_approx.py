"""C30: derivatives approximated by OpenMDAO (finite differences, complex step) equal the exact ones"""
import itertools

import numpy as np

from mc import gen, implicit, prog, story
from mc.props import c08_cyclic, c09_assign, c11_implicit, c12_bracketed

ID = 'C30'
TITLE = 'Approximated derivatives equal the exact ones'
WAYS = ('tcs', 'tfd', 'gcs', 'gfd', 'pcs', 'pfd', 'ccs', 'ncs')
Bad = prog.Bad


def bounds(tier):
    return ('every operation of the alphabet over %d choices of shapes and parameters, operands inputs or expressions; programs of depth 2; '
            'assembled and cyclic outputs; child systems; implicit outputs, bracketed or not, of one, two or three coupled residuals; each with '
            'the derivatives obtained as {totals of the model by complex step, by central differences; the model approximated as a child of an '
            'OpenMDAO group, likewise; check_partials by complex step, by central differences; a child system approximated by complex step}, '
            'then once more exactly, with the values unchanged; two points' % len(FORMS))


# (operation, shapes, parameters, points)
P, U, M = ['pos', 0], ['u', 1], ['pm', 0]
FORMS = []
for _f in ('sin', 'cos', 'tan', 'exp', 'sinh', 'cosh', 'tanh', 'sec', 'arctan', 'sech'):
    FORMS += [(_f, [s], {}, [U, M]) for s in ([1], [3], [2, 2])]
for _f in ('log', 'log10', 'cosec', 'cotan', 'cosech', 'cotanh', 'arcsin', 'arccos'):
    FORMS += [(_f, [s], {}, [U, ['u', 0]]) for s in ([1], [3], [2, 2])]
for _f in ('add', 'sub', 'mul', 'div'):
    FORMS += [(_f, [s, s], {}, [P, M]) for s in ([1], [3], [2, 2])]
for _c in (2, 3, -1, 0.5, -2, 1, 0, {'a': [2, 3, -1]}, {'a': [0.5, 2., 1.5]}):
    FORMS += [('pow', [[3]], {'c': _c}, [P, U])]
for _f in ('addc', 'subc', 'mulc', 'divc'):
    FORMS += [(_f, [[3]], {'c': c}, [P, M]) for c in (2, -0.5, {'a': [2., -1., 4.]})]
for _f in ('cadd', 'csub', 'cmul', 'cdiv', ):
    FORMS += [(_f, [[3]], {'c': 2.5}, [P, M])]
FORMS += [('neg', [[3]], {}, [P, M])]
for _f in ('sum', 'average'):
    FORMS += [(_f, [s] * n, dict(p), [M, P]) for s, p in (([3], {}), ([2, 3], {}), ([2, 3], {'axes': [0]}), ([2, 3], {'axes': [1]}),
                                                         ([2, 1, 3], {'axes': [0, 2]})) for n in (1, 2, 3)]
FORMS += [('pnorm', [s], dict(p), [M, P]) for s, p in (([3], {}), ([2, 3], {}), ([3], {'p': 4}), ([2, 2], {'p': 6}), ([2, 3], {'axis': [0]}),
                                                      ([2, 3], {'p': 4, 'axis': [1]}), ([2, 2, 3], {'axis': [0, 2]}))]
for _f in ('max', 'min'):
    FORMS += [(_f, s, dict(p), [M, P]) for s, p in (([[3]], {}), ([[2, 3]], {}), ([[2, 3]], {'axis': 0}), ([[2, 3]], {'axis': 1}),
                                                   ([[3], [3]], {}), ([[2, 2]] * 3, {}), ([[3]], {'rho': 3.}), ([[3], [3]], {'rho': 5.}))]
FORMS += [('rotmat', [s], {'axis': a}, [M, P]) for s in ([1], [2]) for a in 'xyz']
FORMS += [('cross', [s, s], {'axis': a}, [M, P]) for s, a in (([3], 0), ([2, 3], 1), ([3, 2], 0))]
FORMS += [('dot', [s, s], dict(p), [M, P]) for s, p in (([3], {}), ([2, 3], {'axis': 1}), ([3, 2], {'axis': 0}))]
FORMS += [('inner', [s, t], dict(p), [M, P]) for s, t, p in (([3], [3], {}), ([2, 3], [3, 2], {'axes': [1, 0]}), ([2, 3], [2, 3], {'axes': [[0, 1], [0, 1]]}),
                                                            ([2, 2, 3], [3, 2], {'axes': [[2, 0], [0, 1]]}))]
FORMS += [('outer', [s, t], {}, [M, P]) for s, t in (([2], [3]), ([2, 2], [3]))]
FORMS += [('matmat', [[2, 3], [3, 2]], {}, [M, P]), ('matvec', [[2, 3], [3]], {}, [M, P]), ('transpose', [[2, 3]], {}, [M, P]),
          ('reorder_axes', [[2, 3, 1]], {'op': 'ijk->kij'}, [M, P]), ('reshape', [[2, 3]], {'shape': [3, 2]}, [M, P]),
          ('expand', [[1]], {'shape': [2, 3]}, [M, P]), ('expand', [[3]], {'shape': [2, 3], 'indices': 'j->ij'}, [M, P]),
          ('if_else', [[1], [2], [2]], {}, [P, ['neg', 0]])]
FORMS += [('idx', [[4]], {'k': k}, [M, P]) for k in (0, 3, ['s', 1, 3, None], ['s', None, None, 2])]
FORMS += [('idx', [[2, 3]], {'k': k}, [M, P]) for k in (['t', 0, ['s', 0, 2, None]], ['t', ['s', None, None, None], 1])]
for _s, _sh in (('i,i->', [[3], [3]]), ('ij,jk->ik', [[2, 3], [3, 2]]), ('ij->ji', [[2, 3]]), ('ij,j->i', [[2, 3], [3]]), ('i,j->ij', [[2], [3]]),
                ('ijk,k,j->i', [[2, 2, 3], [3], [2]])):
    FORMS += [('einsum', _sh, {'s': _s, 'f': f}, [M, P]) for f in ('dense', 'sparse')]


def programs(tier):
    for op, shapes, p, pts in FORMS:
        for kind in ('in', 'std', 'reg'):
            for cons in ('reg', 'both'):
                if tier == 'quick' and (kind, cons) not in (('in', 'both'), ('std', 'reg'), ('reg', 'reg')):
                    continue
                c = gen.op_case(op, [tuple(s) for s in shapes], p, [kind] * len(shapes), cons, pts, 'fwd')
                c['pts'] = [q for q in pts if prog.well_posed(c, [q])]
                if c['pts']:
                    yield 'prog', c
    # two operations in a row, results shared
    two = ('sin', 'mul', 'sub', 'div', 'pow')
    for a, b, s in itertools.product(two, two, ([1], [3])):
        n = lambda o: [0, 1] if o in ('mul', 'sub', 'div') else [0]
        ops = [[a, n(a), {'c': 2} if a == 'pow' else {}], [b, [2, 1] if len(n(b)) == 2 else [2], {'c': 3} if b == 'pow' else {}], ['tanh', [3], {}]]
        yield 'prog', gen.case([['x', s, 'in', None], ['y', s, 'in', None]], ops, [['g', 3, 'now'], ['h', 4, 'end']], [P, ['u', 1]], 'rev')


def stories(tier):
    k = 4 if tier == 'quick' else 1
    S = [2]
    for i, c in enumerate(c09_assign.cases('quick')):
        if isinstance(c, dict) and 'story' in c and i % (29 * k) == 0 and not c.get('dead'):
            yield 'story', {'story': c['story'], 'pts': c['pts'], 'jac': 'fwd'}
    for i, c in enumerate(c08_cyclic.cases('quick')):
        if i % (11 * k) == 0:
            yield 'story', {'story': c['story'], 'pts': c['pts'], 'jac': 'rev'}
    for kind, how in itertools.product(('cls', 'pre', 'with', 'exec', 'omg'), ('all', 'io', 'list', 'conn')):
        if kind == 'with' and how != 'all':
            continue
        if kind in ('exec', 'omg'):
            if how in ('conn', 'list'):
                continue
            sub = ['sub', 'k', kind, [['q', S, [[1.5, 's'], [-2., 'x']]]]]
        else:
            sub = ['sub', 'k', kind, [['in', 's', 's', S], ['in', 'x', 'x', S], ['op', 'q1', 'cos', ['s'], {}], ['op', 'q', 'mul', ['x', 'q1'], {}],
                                      ['reg', 'q', 'q']]]
        if how == 'conn':
            sub[3] = [['in', 's', 's', S], ['op', 'q1', 'cos', ['s'], {}], ['op', 'q', 'mul', ['s', 'q1'], {}], ['reg', 'q', 'q']]
        if how != 'all':
            sub.append(how)
        q = 'k.q' if how == 'conn' else 'q'
        st = [['in', 'x', 'x', S], ['op', 's', 'sin', ['x'], {}], ['reg', 's', 's'], sub]
        if how == 'conn':
            st += [['in', 'qq', 'qq', S], ['con', q, 'qq'], ['op', 'w', 'tanh', ['qq'], {}], ['reg', 'w', 'w']]
            continue
        st += [['in', 'q', 'q', S], ['op', 'w', 'tanh', ['q'], {}], ['op', 'r', 'mul', ['w', 's'], {}], ['reg', 'r', 'r']]
        yield 'story', {'story': st, 'pts': [['pm', 0], ['u', 1]], 'jac': 'fwd'}


def residuals(tier):
    """well-conditioned residuals whose roots depend on every input"""
    lin = c11_implicit.lin
    for sh, v in itertools.product(([1], [2], [2, 2]), (None, 0.5)):
        h = [['in', 'a', sh, None], ['out', 'x', sh, v]]
        cube = [['op', 'c', 'pow', ['x'], {'c': 3}], ['op', 'd', 'mul', ['x', 'a'], {}], ['op', 'e', 'add', ['c', 'd'], {}]]
        yield h + cube + [['op', 'r', 'subc', ['e'], {'c': 3.}], ['res', 'x', 'r']]
        for f in ('sin', 'cos', 'tanh', 'arctan', 'exp'):
            yield h + [['op', 'm', 'mul', ['x', 'a'], {}], ['op', 'f', f, ['m'], {}], ['op', 'g', 'add', ['f', 'a'], {}]] + lin('r', 'x', 'g') + [['res', 'x', 'r']]
        n = [['op', 'm', 'mul', ['x', 'x'], {}], ['op', 'f', 'pnorm', ['m'], {}]]
        if sh != [1]:
            n += [['op', 'n', 'expand', ['f'], {'shape': sh}]]
        yield h + n + [['op', 'g', 'add', ['f' if sh == [1] else 'n', 'a'], {}]] + lin('r', 'x', 'g', 9.) + [['res', 'x', 'r']]
    for steps in c11_implicit.pairs('quick'):
        ops = {s[1]: s[2] for s in steps if s[0] == 'op'}
        # at least one of the residuals depends on a, and neither on b nor on nothing else
        free = sum('a' in s[3] for s in steps if s[0] == 'op')
        if free and not any('b' in s[3] for s in steps if s[0] == 'op') and ops.get('pf', 'sub') != ops.get('qf', 'sub'):
            yield [s for s in steps if s[:2] != ['in', 'b']]
    yield from (s for s in c11_implicit.chained('quick') if not any(q[0] == 'op' and q[1] == 'qd' for q in s))
    yield from c11_implicit.children('quick')


def bracketed(tier):
    for k, sgn, sh, how in itertools.product(('lin', 'cube', 'sq', 'sqn', 'exp'), (1, -1), ([1], [2], [2, 2]), ('ab', 'mix')):
        ops, x1, x2 = c12_bracketed.fam('x', 'r', k, sgn)
        yield [['in', 'a', sh, None], ['out', 'x', sh, None]] + ops + [['resb', 'x', 'r'] + list(c12_bracketed.spread(x1, x2, sh, how))]
    for k1, k2, sh in itertools.product(('lin', 'cube', 'exp'), ('sqn', 'cube'), ([1], [2])):
        o1, a1, b1 = c12_bracketed.fam('x', 'p', k1, 1)
        o2, a2, b2 = c12_bracketed.fam('y', 'q', k2, -1)
        yield ([['in', 'a', sh, None], ['out', 'x', sh, None], ['out', 'y', sh, None]] + o1 + [['resb', 'x', 'p', a1, b1]] + o2 +
               [['resb', 'y', 'q', a2, b2]])
    yield from c12_bracketed.coupled('quick')
    yield from c12_bracketed.children('quick')


def implicits(tier):
    pts = [['u', 0], ['pos', 1]]
    quick = tier == 'quick'
    for h, (host, solv) in enumerate((('om', 'own-direct'), ('ot', 'outer-direct'), ('child', 'own-direct'), ('ot', 'own-krylov'))):
        for i, steps in enumerate(residuals(tier)):
            if quick and i % 4 != h:
                continue
            c = {'steps': steps, 'solv': solv, 'host': host, 'jac': 'fwd' if host == 'om' else 'rev', 'pts': pts}
            if implicit.well_posed(c):
                yield 'imp', c
    for h, (host, solv) in enumerate((('om', 'brk-direct'), ('ot', 'brk-direct'), ('child', 'brk-gs'))):
        for i, steps in enumerate(bracketed(tier)):
            if i % ((3, 18, 18) if quick else (1, 6, 6))[h] != (0, 1, 2)[h]:
                continue
            yield 'brk', {'steps': steps, 'solv': solv, 'host': host, 'jac': 'rev' if host == 'om' else 'fwd', 'pts': pts}


def cases(tier):
    for kind, c in itertools.chain(programs(tier), stories(tier), implicits(tier)):
        for w in WAYS:
            if w[0] == 'g' and (kind in ('imp', 'brk') or kind == 'story' and any(s[0] == 'solver' or s[0] == 'sub' and any(
                    q[0] == 'solver' for q in s[3]) for s in c['story'])):
                continue  # OpenMDAO itself gets groups wrong that are approximated inside another and hold a system with a solver
            if w == 'tcs' and 'krylov' in c.get('solv', ''):
                continue  # OpenMDAO's ScipyKrylov does not solve complex systems
            if w == 'ccs' and not (kind == 'story' and any(s[0] == 'sub' and s[2] in ('cls', 'pre') and not any(
                    q[0] in ('solver', 'ind') for q in s[3]) for s in c['story'])):
                continue
            if w == 'ncs' and (kind != 'prog' or any(o[0] in ('arcsin', 'arccos') or o[2].get('c') == 0 for o in c['ops'])):
                continue  # (those two have no finite derivatives at the initial value, 1; constants need no linear solver)
            d = dict(c)
            d['way'] = w
            d['kind'] = kind
            yield d


FD = {'method': 'fd', 'form': 'central', 'step': 1e-4}
CS = {'method': 'cs'}


def run(case):
    way, kind = case['way'], case['kind']
    if kind in ('prog', 'story') and way[0] == 'g' and '"ind"' in prog_text(case):
        return 0
    how = CS if way[1:] == 'cs' else FD
    # what is iterated for is as exact as OpenMDAO's solvers leave it
    tol = 1e-3 if how is FD or prog_text(case).count('"bgs') else 1e-6
    om = prog.om

    def dress(model, *_):
        if way[0] in 'tgn':
            model.approx_totals(**how)
        if way[0] == 'n':
            model.nonlinear_solver = implicit.newton_solver()
            model.linear_solver = om.DirectSolver()
        if way[0] == 'g':
            top = om.Group()
            top.add_subsystem('m', model, promotes=['*'])
            return top
        return model

    def child(g):
        g.approx_totals(**CS)
        return g

    kw = {'force_alloc_complex': True}
    if kind in ('imp', 'brk'):
        p, used, outs = implicit.build(case, dress, **kw)
    else:
        fn = (lambda g: prog.emit(g, case)) if kind == 'prog' else (lambda g: story.play(g, case['story']))
        keep = story.made
        if way == 'ccs':
            story.made = child
        try:
            p = om.Problem(model=dress(prog.group_from(fn)()), reports=None)
            p.setup(mode=case.get('jac') or 'auto', **kw)
            p.final_setup()
        finally:
            story.made = keep
    steps = 2
    for pt in case['pts']:
        if kind == 'prog':
            vals = prog.in_values(case, pt)
            live = sorted(prog.used_inputs(case))
            for n in live:
                p.set_val(n, vals[n])

            def check_values():
                for n, v in prog.ref_outs(case, vals).items():
                    prog.check_val(p, n, v)

            def check_totals(t):
                J = p.compute_totals(of=[o[0] for o in case['outs']], wrt=live)
                prog.check_jac(J, prog.ref_jac(case, vals, live), t)
        elif kind == 'story':
            if pt is case['pts'][0]:
                ext = story.externals(case['story'])
                st, live = story.prepare(p, case, case['story'], ext)
            story.move(p, ext, live, pt)
            res = {}

            def check_values():
                res['r'] = story.check_values(p, st, ext, pt)

            def check_totals(t):
                story.check_totals(p, st, ext, live, pt, *res['r'], tol=t)
        else:
            implicit.move(case, p, used, pt)

            def check_values():
                implicit.check_values(case, p, outs, pt, case.get('tol', 1e-8), kind == 'brk')

            def check_totals(t):
                implicit.check_totals(case, p, used, outs, pt, t)
        p.run_model()
        check_values()
        if way[0] == 'p':
            partials(p, how, tol)
            check_totals(1e-6)
        else:
            check_totals(tol)
        check_values()
        p.run_model()
        check_values()
        steps += 6
    return steps


def partials(p, how, tol):
    """the derivatives every component declares equal those approximated from its values"""
    for comp, d in prog.quiet(p.check_partials, out_stream=None, **how).items():
        for (of, wrt), q in d.items():
            prog.check_jac({(comp + '.' + of, wrt): q['J_fd']}, {(comp + '.' + of, wrt): q['J_fwd']}, tol)


def prog_text(case):
    import json
    return json.dumps(case)
