"""rotation matrices: entries, orthogonality, determinant one, derivative"""
import numpy as np

from mc import gen, prog

ID = 'C18'
SH = [(1, ), (2, ), (3, ), (5, ), (1, 1), (2, 3), (3, 1), (1, 2), (2, 2, 2), (1, 2, 3)]


def bounds(tier):
    return ('3 axes x registered before / after use x %d angle shapes up to rank 3 x operand kind x consumer x {fwd,rev} x angle points in every quadrant, '
            'zero, multiples of pi/2 and large angles; composition R(a)R(b) via matmat; angles of 7 larger shapes (to 24 entries, rank 4)' % len(SH))


def cases(tier):
    pts = [['u', 0], ['pm', 1], ['neg', 0], ['big', 1], ['zero', 0], ['tie', 0]]
    for ax in 'xyz':
        for s in SH:
            for kind in ('in', 'expr', 'std', 'reg'):
                for cons in gen.CONS:
                    for jac in ('fwd', 'rev'):
                        yield gen.op_case('rotmat', [s], {'axis': ax}, [kind], cons, pts, jac)
    for a in 'xyz':
        for b in 'xyz':
            for jac in ('fwd', 'rev'):
                yield gen.case([['x0', [1], 'in', None], ['x1', [1], 'in', None]],
                               [['rotmat', [0], {'axis': a}], ['rotmat', [1], {'axis': b}], ['matmat', [2, 3], {}]],
                               [['f', 2, 'now'], ['h', 4, 'end']], pts, jac)


_plain_cases = cases


def cases(tier):
    yield from gen.late(_plain_cases(tier))
    yield from gen.turns((('rotmat', [s], {'axis': a}) for s in ((12, ), (40, ), (4, 5), (1, 7), (2, 3, 4), (5, 1, 2), (2, 1, 2, 3)) for k in range(3) for a in 'xyz'),
                         ('in', 'std', 'reg', 'expr'), [['pm', 0], ['big', 1], ['zero', 0], ['tie', 0]])


def run(case):
    n = prog.run_value_case(case)
    if any(o[0] == 'f' for o in case['outs']):
        p = prog.problem(lambda g: prog.emit(g, case))
        for pt in case['pts']:
            for k, v in prog.in_values(case, pt).items():
                p.set_val(k, v)
            p.run_model()
            R = prog.get(p, 'f').reshape((-1, 3, 3))
            for M in R:
                if not (np.allclose(M @ M.T, np.eye(3), atol=1e-9) and abs(np.linalg.det(M) - 1) < 1e-9):
                    raise prog.Bad('not a rotation: %s' % M.tolist())
            n += 2
    return n
