"""every expression program of bounded size computes what it means"""
import itertools

from mc import gen, pairs, prog, rel

ID = 'C01'
B2 = ('add', 'sub', 'mul', 'div')
UN = (('neg', {}), ('sin', {}), ('pow', {'c': 2}), ('mulc', {'c': 1.5}), ('csub', {'c': 0.75}), ('cdiv', {'c': 2}))
UNQ = UN[:3] + (('csub', {'c': 0.75}), )
COMM = ('add', 'mul')
JAC = None
SH = ((1, ), (2, 2))


def bounds(tier):
    return ('all straight-line programs over two inputs: depth 1-2 with {+,-,*,/} on every ordered pair of available values '
            '(same value twice included) and 6 unary forms, shapes (1,) and (2,2), results registered immediately / at the '
            'end / only the last; depth 3 with a reduced alphabet where every value is used; depth 4 in thorough; depth 1-2 (3 in thorough) again at magnitudes from 1e-20 to 1e14, '
            'judged relative to a running rounding-error bound; every operation and parameter form (up to 55 per shape) applied to the result of every '
            'other one for 6 starting shapes, the further operands new or values that exist already, and triples of them in turn')


def steps(n, un):
    for op in B2:
        for i, j in itertools.product(range(n), repeat=2):
            if op in COMM and i > j:
                continue
            yield [op, [i, j], {}]
    for op, p in un:
        for i in range(n):
            yield [op, [i], p]


def programs(depth, n0, un, allused):
    def rec(ops):
        if len(ops) == depth:
            used = set(j for o in ops for j in o[1])
            if allused and any(n0 + k not in used for k in range(depth - 1)):
                return
            yield list(ops)
            return
        left = depth - len(ops)
        if allused and len(ops) > 1:
            # each remaining step can consume at most two pending values
            used = set(j for o in ops for j in o[1])
            pend = [k for k in range(len(ops)) if n0 + k not in used]
            if len(pend) > left + 1:
                return
        for st in steps(n0 + len(ops), un):
            ops.append(st)
            yield from rec(ops)
            ops.pop()

    yield from rec([])


def regs(n0, depth, ops):
    last = n0 + depth - 1
    yield [['f', last, 'now']]
    if depth > 1:
        yield [['v%d' % k, n0 + k, 'now'] for k in range(depth)]
        yield [['v%d' % k, n0 + k, 'end'] for k in reversed(range(depth))]


def good(c):
    import warnings
    return prog.well_posed(c, big=1e4)


def mk(s, ops, outs, jac, pts):
    ins = [['x', list(s), 'in', None], ['y', list(s), 'in', None]]
    c = gen.case(ins, ops, outs, pts, jac)
    # points where the program divides by (nearly) zero are outside its domain
    c['pts'] = [p for p in c['pts'] if conditioned(c, p)]
    return c if c['pts'] else None


def conditioned(c, p):
    import numpy as np
    try:
        v = prog.ref_nodes(c, prog.in_values(c, p))
    except Exception:
        return False
    for n in v:
        if not np.all(np.isfinite(n)) or np.max(np.abs(n)) > 1e3:
            return False
    for o in c['ops']:
        if o[0] == 'div' and np.min(np.abs(v[o[1][1]])) < 1e-3:
            return False
        if o[0] == 'cdiv' and np.min(np.abs(v[o[1][0]])) < 1e-3:
            return False
    return True


def space(tier, jac, pts):
    for s in SH:
        for depth in (1, 2):
            for ops in programs(depth, 2, UN, False):
                for outs in regs(2, depth, ops):
                    c = mk(s, ops, outs, jac, pts)
                    if c:
                        yield c
    un3 = (('sin', {}), ('csub', {'c': 0.75})) if tier == 'quick' else UN
    for i, ops in enumerate(programs(3, 2, un3, True)):
        rs = list(regs(2, 3, ops))
        for k, outs in enumerate(rs):
            if tier == 'quick' and k != i % 3:
                continue
            c = mk((2, ), ops, outs, jac, pts)
            if c:
                yield c
    if tier == 'thorough':
        for i, ops in enumerate(programs(4, 2, (('sin', {}), ), True)):
            if len(set(o[0] for o in ops)) < 3:
                continue
            if ops[0][1] not in ([0], [0, 1], [0, 0]):
                continue  # by symmetry the first step reads x first
            outs = list(regs(2, 4, ops))[i % 3]
            c = mk((2, ), ops, outs, jac, pts)
            if c:
                yield c


def cases(tier):
    yield from space(tier, None, [['pm', 0], ['u', 1]])
    yield from scaled(tier, None)
    yield from pairs.space(tier)


SCALES = [['tiny', 0], ['huge', 1], ['wide', 0]]


def scaled(tier, jac):
    """the programs of depth one and two (three) at points of very small and very large magnitude"""
    for s in ((1, ), (3, )):
        for depth in (1, 2) + ((3, ) if tier != 'quick' else ()):
            un = UN if depth < 3 else UN[:1] + UN[3:4]
            for i, ops in enumerate(programs(depth, 2, un, depth > 2)):
                for k, outs in enumerate(regs(2, depth, ops)):
                    if (tier == 'quick' or depth > 2) and depth > 1 and (k + i) % 3 != len(s) + s[0] // 2:
                        continue
                    c = gen.case([['x', list(s), 'in', None], ['y', list(s), 'in', None]], ops, outs, SCALES, jac)
                    c['pts'] = [q for q in c['pts'] if rel.regular(c, q)]
                    if c['pts']:
                        c['rel'] = 1
                        yield c


def run(c):
    return rel.run(c) if c.get('rel') else prog.run_value_case(c)
