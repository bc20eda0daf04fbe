"""elementary functions: values and derivatives over shapes, domains, operand kinds"""
import itertools

from mc import gen, prog, rel
from mc.ops import U

ID = 'C16'
SHAPES = [(1, ), (2, ), (3, ), (1, 1), (2, 1), (1, 3), (2, 3), (3, 2), (2, 2, 2), (1, 2, 3)]
DOMS = {
    'quick': [['u', 0], ['pm', 1], ['big', 2], ['neg', 1]],
    'thorough': [[d, s] for d in ('u', 'pm', 'pos', 'neg', 'big', 'tie', 'zero') for s in range(4)]
}


def bounds(tier):
    return ('18 elementary functions x %d shapes up to rank 3 x operand kind {input, unregistered expression, registered '
            'output} x consumer {registered, used, both; registered before / after use} x {fwd, rev} x %d domain points, minus points outside the '
            'domain of definition' % (len(SHAPES), len(DOMS[tier])))


def cases(tier):
    for f in sorted(U):
        for s in SHAPES:
            for k in ('in', 'expr', 'reg'):
                for cons in gen.CONS:
                    for jac in ('fwd', 'rev'):
                        if tier == 'quick' and (cons != 'reg' and k != 'in'):
                            continue
                        c = gen.op_case(f, [s], {}, [k], cons, DOMS[tier], jac)
                        for c in gen.late([c]):
                            c['pts'] = [p for p in c['pts'] if prog.well_posed(c, [p]) and _inside(c, p)]
                            if c['pts']:
                                yield c


def _inside(c, p):
    import numpy as np
    v = prog.in_values(c, p)
    f = [o[0] for o in c['ops'] if o[0] in U][0]
    nodes = prog.ref_nodes(c, v)
    a = nodes[[o for o in c['ops'] if o[0] == f][0][1][0]]
    if f in ('arcsin', 'arccos'):
        return bool(np.all(np.abs(a) < 0.99))
    if f in ('log', 'log10'):
        return bool(np.all(a > 0))
    if f in ('sinh', 'cosh', 'exp', 'tanh', 'sech', 'cosech', 'cotanh'):
        return bool(np.all(np.abs(a) < 20))
    if f in ('tan', 'sec'):
        return bool(np.all(np.abs(np.cos(a)) > 1e-2))
    if f in ('cosec', 'cotan'):
        return bool(np.all(np.abs(np.sin(a)) > 1e-2))
    return True


_moderate_cases = cases


def cases(tier):
    yield from _moderate_cases(tier)
    for c in gen.turns(((f, [s], {}) for s in ((12, ), (40, ), (4, 5), (1, 9), (3, 4, 5), (2, 3, 2, 2), (2, 1, 3, 1, 2)) for f in sorted(U)), ('in', 'expr', 'reg'), DOMS['quick']):
        c['pts'] = [p for p in c['pts'] if prog.well_posed(c, [p]) and _inside(c, p)]
        if c['pts']:
            yield c
    for f, s, k, jac in itertools.product(sorted(U), [(1, ), (3, ), (2, 2)], ('in', 'reg'), ('fwd', 'rev')):
        c = gen.op_case(f, [s], {}, [k], 'reg', [['tiny', 0], ['tiny', 1], ['wide', 0], ['huge', 0], ['far', 0], ['far', 1]], jac)
        c['pts'] = [q for q in c['pts'] if rel.regular(c, q)]
        if c['pts']:
            c['rel'] = 1
            if f in ('tanh', 'cotanh'):  # 1 - f**2 is a proper way to compute these
                c['jfloor'] = 1e-14
            yield c


def run(c):
    return rel.run(c) if c.get('rel') else prog.run_value_case(c)
