"""smooth min / max: exact aggregate, bounds, derivatives"""
import itertools

import numpy as np

from mc import gen, prog
from mc import ops as O

ID = 'C15'
SH = [(1, ), (2, ), (3, ), (1, 3), (2, 3), (3, 2), (2, 1), (2, 2, 2), (2, 3, 1)]
RHO = (None, 1., 5., 50., 200.)


def bounds(tier):
    return ('max/min of one operand (whole, every axis, from either end) and of 2-5 operands, %d shapes up to rank 3, smoothing parameter in '
            '{default,1,5,50,200}, operands {input, expression}, result {registered, used, both}, {fwd, rev}, points with '
            'mixed signs, ties, large magnitudes; up to 60 entries, rank 5, twelve operands' % len(SH))


def cases(tier):
    pts = [['u', 0], ['pm', 1], ['big', 0], ['tie', 0]]
    for s in SH:
        for op in ('max', 'min'):
            for rho in RHO:
                base = {} if rho is None else {'rho': rho}
                conf = [(1, {})] + [(1, {'axis': a}) for a in (range(-len(s), len(s)) if len(s) > 1 else ())] + [(i, {}) for i in (2, 3, 4, 5)]
                for n, extra in conf:
                    for kinds in (['in'] * n, ['std'] * n, ['in', 'std', 'in', 'in', 'std'][:n]):
                        for cons in gen.CONS:
                            for jac in ('fwd', 'rev'):
                                if tier == 'quick' and (jac == ('fwd', 'rev')[(n + gen.CONS.index(cons)) % 2] or
                                                        (rho in (1., 50.) and kinds[0] != 'in')):
                                    continue
                                yield gen.op_case(op, [s] * n, dict(base, **extra), kinds, cons, pts, jac)


_plain_cases = cases


def cases(tier):
    yield from gen.late(_plain_cases(tier))
    yield from gen.turns(large(tier), pts=[['u', 0], ['pm', 1], ['tie', 0]])


def large(tier):
    for s in ((12, ), (40, ), (4, 5), (5, 4), (1, 9), (3, 4, 5), (5, 1, 4), (2, 3, 2, 4), (2, 1, 3, 2, 2)):
        for op, rho in itertools.product(('max', 'min'), RHO):
            p = {} if rho is None else {'rho': rho}
            for n in (1, 2, 3):
                yield op, [s] * n, p
            for a in range(-len(s), len(s)) if len(s) > 1 else ():
                yield op, [s], dict(p, axis=a)
    for s, op, n, rho in itertools.product(((1, ), (3, ), (2, 3)), ('max', 'min'), range(6, 13), RHO):
        yield op, [s] * n, {} if rho is None else {'rho': rho}


def run(case):
    n = prog.run_value_case(case)
    # independent of the aggregate's formula: it bounds the true extremum from
    # the safe side and is within log(count)/rho of it
    op = [o for o in case['ops'] if o[0] in ('max', 'min')][0]
    if any(o[0] == 'f' for o in case['outs']):
        p = prog.problem(lambda g: prog.emit(g, case))
        rho = op[2].get('rho', 20.)
        for pt in case['pts']:
            vals = prog.in_values(case, pt)
            for k, v in vals.items():
                p.set_val(k, v)
            p.run_model()
            args = [prog.ref_nodes(case, vals)[j] for j in op[1]]
            sg = 1. if op[0] == 'max' else -1.
            if len(args) > 1:
                st = np.stack([sg * a for a in args])
                t, cnt = st.max(axis=0), len(args)
            elif op[2].get('axis') is not None:
                t, cnt = (sg * args[0]).max(axis=op[2]['axis']), args[0].shape[op[2]['axis']]
            else:
                t, cnt = (sg * args[0]).max().reshape((1, )), args[0].size
            got = sg * prog.get(p, 'f')
            eps = 1e-9 * (1 + np.max(np.abs(t)))
            if np.any(got < t - eps) or np.any(got > t + np.log(cnt) / rho + eps):
                raise prog.Bad('%s outside [extremum, extremum + log(n)/rho]: %s vs %s' % (op[0], got.tolist(), t.tolist()))
            n += 1
    return n
