"""linear-algebra products over all small shapes, axes and operand kinds"""
import itertools

import numpy as np

from mc import gen, prog

ID = 'C13'


def bounds(tier):
    return ('matmat/matvec/inner/outer/dot/cross over every combination of dimensions in {1,2,3} (rank <= 3), every '
            'contraction axis, operands {input, expression}, result {registered, used, both}, {fwd, rev}, 2 points; axes counted from the end; operands / results registered after use; vectors up to 40, matrices up to 12 x 12, tensors up to rank 5, up to four contracted axes')


def shapes():
    R = (1, 2, 3)
    for m, k, n in itertools.product(R, R, R):
        yield 'matmat', [(m, k), (k, n)], {}
    for m, k in itertools.product(R, R):
        yield 'matmat', [(m, k), (k, )], {}
        yield 'matvec', [(m, k), (k, )], {}
    for n in (1, 2, 3, 4):
        yield 'inner', [(n, ), (n, )], {}
        yield 'dot', [(n, ), (n, )], {}
    S = [(1, ), (2, ), (3, ), (2, 2), (1, 3), (3, 2), (2, 1, 2), (2, 3, 2)]
    for a, b in itertools.product(S, S):
        yield 'outer', [a, b], {}
        for i, j in itertools.product(range(len(a)), range(len(b))):
            if a[i] == b[j] and len(a) + len(b) > 2:
                yield 'inner', [a, b], {'axes': [[i], [j]]}
                # the same axes counted from the end, in every mixture
                for u, v in ((i - len(a), j), (i, j - len(b)), (i - len(a), j - len(b))):
                    yield 'inner', [a, b], {'axes': [[u], [v]]}
        for (i, k), (j, l) in itertools.product(itertools.permutations(range(len(a)), 2),
                                                itertools.permutations(range(len(b)), 2)):
            if a[i] == b[j] and a[k] == b[l] and i < k and len(a) + len(b) > 4:
                yield 'inner', [a, b], {'axes': [[i, k], [j, l]]}
                # in the other order, from the end, and both
                yield 'inner', [a, b], {'axes': [[k, i], [l, j]]}
                yield 'inner', [a, b], {'axes': [[i - len(a), k], [j, l - len(b)]]}
                yield 'inner', [a, b], {'axes': [[k, i - len(a)], [l - len(b), j - len(b)]]}
    for s in itertools.chain([(3, )], itertools.product(R, R), itertools.product((1, 2, 3), (2, 3), (1, 2, 3))):
        for ax in range(len(s)):
            if s[ax] == 3:
                yield 'cross', [s, s], {'axis': ax}
                if len(s) > 1:
                    yield 'dot', [s, s], {'axis': ax}
                    yield 'dot', [s, s], {'axis': ax - len(s)}


def cases(tier):
    seen = set()
    for op, sh, p in shapes():
        key = (op, tuple(sh), str(p))
        if key in seen:
            continue
        seen.add(key)
        for kinds in gen.kinds_products(2):
            for cons in gen.CONS:
                for jac in ('fwd', 'rev'):
                    if tier == 'quick':
                        # one direction per (kinds, cons) pair; all of them in thorough
                        if jac != ('fwd', 'rev')[(kinds.count('std') + gen.CONS.index(cons)) % 2]:
                            continue
                        if cons == 'both' and kinds != ['in', 'in']:
                            continue
                    c = gen.op_case(op, sh, p, kinds, cons, jac=jac)
                    yield c


_plain_cases = cases


def cases(tier):
    yield from gen.late(_plain_cases(tier))
    yield from gen.turns(large(tier))


def large(tier):
    R = (1, 4, 5, 9)
    for m, k, n in itertools.product(R, R, R):
        yield 'matmat', [(m, k), (k, n)], {}
    for m, k in itertools.product(R + (2, 12), R + (2, 12)):
        yield 'matmat', [(m, k), (k, )], {}
        yield 'matvec', [(m, k), (k, )], {}
    for n in (5, 6, 7, 8, 9, 12, 17, 40):
        yield 'inner', [(n, ), (n, )], {}
        yield 'dot', [(n, ), (n, )], {}
        yield 'outer', [(n, ), (n // 3, )], {}
        yield 'outer', [(n // 3, 2), (n, )], {}
    S = [(4, ), (5, 4), (2, 3, 4), (4, 3, 2), (2, 3, 4, 5), (4, 2, 1, 3)]
    for a, b in itertools.product(S, S):
        if np.prod(a) * np.prod(b) <= 600:
            yield 'outer', [a, b], {}
        for r in (1, 2, 3, 4):
            for x in itertools.combinations(range(len(a)), r):
                for y in itertools.permutations(range(len(b)), r):
                    rest = np.prod([d for i, d in enumerate(a) if i not in x] + [d for i, d in enumerate(b) if i not in y])
                    if all(a[i] == b[j] for i, j in zip(x, y)) and r < len(a) + len(b) - r and rest <= 400:
                        yield 'inner', [a, b], {'axes': [list(x), list(y)]}
                        if r > 1:
                            yield 'inner', [a, b], {'axes': [list(x)[::-1], list(y)[::-1]]}
                        yield 'inner', [a, b], {'axes': [[i - len(a) if i % 2 else i for i in x], [j - len(b) for j in y]]}
    for s in ((3, 7), (8, 3), (3, 4, 5), (4, 3, 5), (5, 4, 3), (3, 3, 3), (2, 3, 2, 4), (3, 2, 1, 3), (2, 2, 3, 2, 2)):
        for ax in range(len(s)):
            if s[ax] == 3:
                yield 'cross', [s, s], {'axis': ax}
                yield 'dot', [s, s], {'axis': ax}
                yield 'dot', [s, s], {'axis': ax - len(s)}


run = prog.run_value_case
