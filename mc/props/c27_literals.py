"""arithmetic with literal constants: numbers and arrays on either side"""
import itertools

from mc import gen, prog, rel

ID = 'C27'
SH = [(1, ), (2, ), (3, ), (2, 2), (1, 3), (2, 1, 2)]
NUM = [2, -1, 0, 1, 0.5, -3.25, 1e-3, 3, 7, -12, 63, 64, 100, 1000, 10**6, 1e6, {'np': 'int64', 'v': 3}, {'np': 'float64', 'v': 2.5}]
EXPS = [2, 3, 1, 0, -1, -2, 0.5, 1.5, -0.5, {'np': 'int64', 'v': 2}, {'np': 'float64', 'v': 3.0}]
LEFT = ('cadd', 'csub', 'cmul', 'cdiv')
RIGHT = ('addc', 'subc', 'mulc', 'divc')


def bounds(tier):
    return ('+,-,*,/ with the literal on the right (numbers and arrays, int and float) and on the left (numbers), ** with '
            'number and array exponents; %d numbers, %d shapes, operand kinds, consumers, registered before / after use, {fwd, rev}; arrays of 8 types, spread over the expression, up to 60 entries and rank 5' % (len(NUM), len(SH)))


def A(shape, dt, v=0):
    import numpy as np
    n = int(np.prod(shape))
    base = [2, -1, 3, 5, -4, 7, 1, -2, 6, 9, -3, 8]
    a = np.array([base[(i + v) % len(base)] for i in range(n)], dtype=float)
    if dt == 'float64':
        a = a + 0.25
    return {'a': (a if dt == 'float64' else a.astype(int)).reshape(shape).tolist(), 'd': dt}


def P(shape, v):
    import numpy as np
    n = int(np.prod(shape))
    base = [[2, 3, 1, 2, 4, 0], [0.5, 2., -1., 1.5, 3., 1.], [2, 2, 2, 2, 2, 2]][v]
    return {'a': np.array([base[i % 6] for i in range(n)]).reshape(shape).tolist(), 'd': 'int64' if v == 0 else 'float64'}


def cases(tier):
    pts = [['u', 0], ['pos', 1]]
    ptz = pts + [['pm', 0]]
    for s in SH:
        for kind, cons, jac in itertools.product(('in', 'std', 'reg'), gen.CONS, ('fwd', 'rev')):
            if tier == 'quick' and cons == 'both' and kind != 'in':
                continue
            for op in RIGHT + LEFT:
                lits = list(NUM)
                if op in RIGHT:
                    lits += [A(s, 'float64'), A(s, 'int64'), A(s, 'float64', 3)]
                for c in lits:
                    if op == 'divc' and c == 0:
                        continue
                    if isinstance(c, dict) and 'np' in c and op in LEFT and False:
                        continue
                    yield gen.op_case(op, [s], {'c': c}, [kind], cons, ptz, jac)
            for c in EXPS + [P(s, 0), P(s, 1), P(s, 2)]:
                yield gen.op_case('pow', [s], {'c': c}, [kind], cons, pts, jac)
            for op in ('neg', 'pos'):
                if op == 'pos' and kind == 'in':
                    continue
                if op == 'pos':
                    continue
                yield gen.op_case(op, [s], {}, [kind], cons, ptz, jac)
            # zero among the values, non-negative exponents
            for c in (0, 1, 2, 3):
                yield gen.op_case('pow', [s], {'c': c}, [kind], cons, [['hz', 0], ['zero', 0]], jac)


_plain_cases = cases


def cases(tier):
    return gen.late(_plain_cases(tier))


_moderate_cases = cases


def cases(tier):
    yield from _moderate_cases(tier)
    yield from gen.turns(large(tier), pts=[['u', 0], ['pos', 1]])
    for s, op, kind, jac in itertools.product([(1, ), (3, )], RIGHT + LEFT + ('pow', ), ('in', 'reg'), ('fwd', 'rev')):
        for c in (EXPS + [P(s, 0), P(s, 1)] if op == 'pow' else SCALED + ([A(s, 'float64'), W(s)] if op in RIGHT else [])):
            k = gen.op_case(op, [s], {'c': c}, [kind], 'reg', [['tiny', 0], ['huge', 0], ['wide', 0]], jac)
            k['pts'] = [q for q in k['pts'] if rel.regular(k, q)]
            if k['pts'] and (jac == 'fwd' or kind == 'in' or tier != 'quick'):
                k['rel'] = 1
                yield k


SCALED = [1e-13, -2e-9, 1e-20, 3e9, -1e14, 1.5, 3]


DT = ('uint8', 'int8', 'uint64', 'int32', 'float32', 'bool')


def large(tier):
    """arrays of every type, arrays spread over the expression, larger ones"""
    import numpy as np
    for s, d, op, n in itertools.product([(1, ), (3, ), (2, 2)], DT, RIGHT + ('pow', ), range(3)):
        if d == 'bool' and op in ('divc', ):
            continue
        v = np.resize([[2, 1, 3, 5], [1, 2, 4, 1], [3, 3, 1, 2]][n], s) % (2 if d == 'bool' else 9)
        for w in ([v] if op == 'divc' else [v, 0 * v, v * np.resize([0, 1], s)]):
            yield op, [s], {'c': {'a': w.astype(int).tolist(), 'd': d}}
    for op, t, v in itertools.product(RIGHT + LEFT + ('pow', ), ('int8', 'uint8', 'int32', 'uint64', 'float32', 'float16'), (0, 1, 2, 3)):
        if v == 0 and op in ('divc', ):
            continue
        for s in ((1, ), (2, 2)):
            yield op, [s], {'c': {'np': t, 'v': v}}
    for s, ls in (((2, 3), [(3, ), (1, 3), (2, 1), (1, 1), (1, )]), ((3, ), [(1, )]), ((2, 3, 2), [(2, ), (3, 1), (3, 2), (1, 3, 1), (2, 1, 1), (2, 3, 1)]), ((1, ), [()]), ((3, ), [()]), ((2, 2), [()])):
        for l, op, d, v in itertools.product(ls, RIGHT, ('float64', 'int64'), range(2)):
            yield op, [s], {'c': A(l, d, v)}
    for s in ((12, ), (40, ), (4, 5), (1, 9), (3, 4, 5), (2, 3, 2, 2), (2, 1, 3, 1, 2)):
        for op in RIGHT + LEFT:
            for c in (NUM[:7] + [A(s, 'float64'), A(s, 'int64')] if op in RIGHT else NUM[:7]):
                if not (op == 'divc' and c == 0):
                    yield op, [s], {'c': c}
        for c in EXPS + [P(s, 0), P(s, 1), P(s, 2)]:
            yield 'pow', [s], {'c': c}


def W(shape):
    import numpy as np
    return {'a': np.resize([1e-12, -3e8, 1e-16], shape).tolist(), 'd': 'float64'}


def run(c):
    return rel.run(c) if c.get('rel') else prog.run_value_case(c)
