"""sum / average / p-norm over shapes, axes, numbers of operands"""
import itertools

from mc import gen, prog

ID = 'C14'
SH = [(1, ), (2, ), (3, ), (1, 3), (2, 3), (3, 2), (2, 2), (2, 1), (2, 3, 2), (1, 2, 3), (3, 2, 1), (2, 2, 2, 2)]

LATER = '; operands / results registered after use; up to 60 entries, rank 5, twelve operands'


def bounds(tier):
    return ('sum/average (1-5 operands) and p-norm (p in {2,4,6,8}) over %d shapes up to rank 4, no axis and every proper '
            'non-empty subset of axes (in order, reversed, counted from the end), operands {input, expression}, result {registered, used, both}, {fwd, rev}, 2 points'
            % len(SH) + LATER)


def axsets(s):
    yield None
    for r in range(1, len(s)):
        for ax in itertools.combinations(range(len(s)), r):
            yield list(ax)
            if r > 1:
                yield list(ax)[::-1]
            yield [a - len(s) for a in ax]
            if r > 1:
                yield [ax[-1] - len(s)] + list(ax[:-1])


def cases(tier):
    for s in SH:
        for ax in axsets(s):
            for op in ('sum', 'average'):
                for n in (1, 2, 3, 4, 5):
                    if tier == 'quick' and n == 4 and ax is not None:
                        continue
                    ks = [['in'] * n, ['std'] * n] + ([['in', 'std', 'in', 'in', 'std'][:n]] if n > 1 else [])
                    for kinds in ks[:1] if n > 3 and tier == 'quick' else ks:
                        for cons in gen.CONS:
                            for jac in ('fwd', 'rev'):
                                if tier == 'quick' and jac == ('fwd', 'rev')[(n + gen.CONS.index(cons)) % 2]:
                                    continue
                                yield gen.op_case(op, [s] * n, {} if ax is None else {'axes': ax}, kinds, cons, jac=jac)
            for pn in (2, 4, 6, 8):
                for kind in ('in', 'std'):
                    for cons in gen.CONS:
                        for jac in ('fwd', 'rev'):
                            if tier == 'quick' and jac == ('fwd', 'rev')[(pn // 2 + gen.CONS.index(cons)) % 2]:
                                continue
                            p = {'p': pn}
                            if ax is not None:
                                p['axis'] = ax if len(ax) > 1 or pn % 4 else ax[0]
                            yield gen.op_case('pnorm', [s], p, [kind], cons, jac=jac)


_plain_cases = cases


def cases(tier):
    yield from gen.late(_plain_cases(tier))
    yield from gen.turns(large(tier))


def large(tier):
    for s in ((12, ), (40, ), (4, 5), (5, 4), (1, 9), (3, 4, 5), (5, 1, 4), (2, 3, 4, 2), (4, 1, 2, 3), (2, 3, 1, 2, 2)):
        for i, ax in enumerate(axsets(s)):
            if tier == 'quick' and len(s) > 4 and i % 3:
                continue
            for op in ('sum', 'average'):
                for n in (1, 2, 3):
                    yield op, [s] * n, {} if ax is None else {'axes': ax}
            for pn in (2, 4, 6, 10, 16):
                yield 'pnorm', [s], dict({'p': pn}, **({} if ax is None else {'axis': ax}))
    for s in ((1, ), (2, ), (2, 3)):
        for n in range(6, 13):
            for ax in ((None, ), (None, [0], [1], [-1]))[len(s) - 1]:
                for op in ('sum', 'average'):
                    yield op, [s] * n, {} if ax is None else {'axes': ax}


run = prog.run_value_case
