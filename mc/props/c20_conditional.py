"""if_else: the branch chosen by the sign of the condition, value and derivative"""
import itertools

from mc import gen, prog

ID = 'C20'
SH = [(1, ), (2, ), (3, ), (2, 2), (1, 3), (2, 1, 2)]


def bounds(tier):
    return ('if_else with scalar condition {input, expression, registered} on both sides of zero and at zero, branch operands '
            '{input, expression} x %d shapes, shared/nested conditionals, result {registered, used, both}, registered before / after use, {fwd, rev}; branches of up to 60 entries and rank 5; conditions of magnitudes 1e-300 to 1e300' % len(SH))


PTS = [['u', 0], ['neg', 0], ['zero', 0], ['neg', 1], ['pos', 1]]


def cases(tier):
    for s in SH:
        for ck in ('in', 'std', 'reg'):
            for kt, kf in itertools.product(('in', 'std'), repeat=2):
                for cons in gen.CONS:
                    for jac in ('fwd', 'rev'):
                        yield gen.op_case('if_else', [(1, ), s, s], {}, [ck, kt, kf], cons, PTS, jac)
        for jac in ('fwd', 'rev'):
            s_ = list(s)
            ins = [['c', [1], 'in', None], ['d', [1], 'in', None], ['t', s_, 'in', None], ['u', s_, 'in', None]]
            pts = [['pm', 0], ['pm', 1], ['neg', 0], ['pos', 0], ['zero', 1]]
            # one expression in several roles (relu, clipping, both branches equal)
            if s_ == [1]:
                yield gen.case(ins, [['if_else', [0, 0, 1], {}]], [['f', 4, 'end']], pts, jac)
                yield gen.case(ins, [['if_else', [0, 1, 0], {}]], [['f', 4, 'end']], pts, jac)
                yield gen.case(ins, [['tanh', [0], {}], ['mulc', [4], {'c': 0.25}], ['if_else', [4, 4, 5], {}]],
                               [['f', 6, 'end']], pts, jac)
            yield gen.case(ins, [['if_else', [0, 2, 2], {}]], [['f', 4, 'end']], pts, jac)
            # nested in the false / true branch, and two conditionals sharing a condition
            yield gen.case(ins, [['mul', [2, 3], {}], ['if_else', [1, 2, 3], {}], ['if_else', [0, 4, 5], {}]],
                           [['f', 6, 'end']], pts, jac)
            yield gen.case(ins, [['if_else', [1, 2, 3], {}], ['if_else', [0, 4, 2], {}], ['neg', [5], {}]],
                           [['f', 5, 'now'], ['g', 6, 'now']], pts, jac)
            yield gen.case(ins, [['sub', [0, 1], {}], ['if_else', [4, 2, 3], {}], ['if_else', [4, 3, 2], {}],
                                 ['add', [5, 6], {}]], [['f', 7, 'end'], ['g', 5, 'end']], pts, jac)


    # conditions of every magnitude: c = k * x
    for mag in (1e-300, 1e-30, 1e-14, 1e-9, 1e-6, 1e-3, 1e3, 1e9, 1e30, 1e300):
        for s in ([1], [2, 2]):
            for n in range(3):
                ins = [['c', [1], 'in', None], ['t', s, 'in', None], ['u', s, 'in', None]]
                for jac in ('fwd', 'rev'):
                    for pts in ([['pm', 0], ['pm', 1], ['neg', 0]], [['neg', 1], ['pos', 0], ['zero', 0]]):
                        yield gen.case(ins, [['mulc', [0], {'c': mag}], ['if_else', [3, 1, 2], {}]] + [['mul', [4, 1], {}]] * (n > 0) +
                                       [['if_else', [3, 2, 5], {}]] * (n > 1), [['f', 3 + (1, 2, 3)[n], 'end']], pts, jac)


_plain_cases = cases


def cases(tier):
    yield from gen.late(_plain_cases(tier))
    yield from gen.turns((('if_else', [(1, ), s, s], {}) for s in ((12, ), (40, ), (4, 5), (1, 7), (3, 4, 5), (2, 1, 2, 3), (2, 1, 2, 1, 3)) for k in range(9)),
                         pts=PTS)


run = prog.run_value_case
