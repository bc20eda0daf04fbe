"""expand / reshape / transpose / reorder_axes"""
import itertools

from mc import gen, prog

ID = 'C17'


def bounds(tier):
    return ('reshape between every pair of shapes of equal size (sizes 1..12, rank <= 3), transpose and reorder_axes for '
            'every permutation of axes up to rank 4, expand of a scalar to every shape and of an array along every set of '
            'new axes up to rank 4; operands {input, expression, registered}, result {registered, used, both}, registered before / after use, {fwd, rev}; sizes up to 120, rank 5')


def factor_shapes(n, rank):
    if rank == 1:
        yield (n, )
        return
    for d in range(1, n + 1):
        if n % d == 0:
            for r in factor_shapes(n // d, rank - 1):
                yield (d, ) + r


def space(tier):
    for n in (1, 2, 3, 4, 6, 8, 12) if tier == 'thorough' else (1, 2, 3, 6):
        sh = sorted(set(itertools.chain(*[factor_shapes(n, r) for r in (1, 2, 3)])))
        for a in sh:
            for b in sh:
                yield 'reshape', a, {'shape': list(b)}
    for r in (1, 2, 3, 4):
        dims = [(2, 3, 1, 2)[:r], (3, 2, 2, 1)[:r], (1, 2, 3, 2)[:r], (2, ) * r]
        for s in sorted(set(dims)):
            yield 'transpose', s, {}
            for perm in itertools.permutations(range(r)):
                yield 'reorder_axes', s, {'op': 'ijkl'[:r] + '->' + ''.join('ijkl'[i] for i in perm)}
                if r > 1 and s == dims[0]:
                    yield 'reorder_axes', s, {'op': 'zbya'[:r] + ' -> ' + ''.join('zbya'[i] for i in perm)}
    for s in [(1, ), (2, ), (3, ), (1, 1), (2, 3), (1, 2), (2, 1, 3), (2, 2, 2), (1, 2, 3, 2)]:
        yield 'expand', (1, ), {'shape': list(s)}
    L = 'ijkl'
    for r in (2, 3, 4):
        for full in sorted({(2, 3, 2, 3)[:r], (3, 1, 2, 2)[:r], (2, 2, 2, 2)[:r]}):
            for k in range(1, r):
                for keep in itertools.combinations(range(r), k):
                    s = tuple(full[i] for i in keep)
                    if s == (1, ):
                        yield 'expand', s, {'shape': list(full), 'indices': L[keep[0]] + '->' + L[:r]}
                        continue
                    # the kept axes appear in order: that is the supported form
                    yield 'expand', s, {'shape': list(full), 'indices': ''.join(L[i] for i in keep) + '->' + L[:r]}


def cases(tier):
    seen = set()
    for op, s, p in space(tier):
        key = (op, s, str(p))
        if key in seen:
            continue
        seen.add(key)
        for kind in ('in', 'expr', 'std', 'reg'):
            for cons in gen.CONS:
                for jac in ('fwd', 'rev'):
                    if tier == 'quick' and jac == ('fwd', 'rev')[(len(kind) + gen.CONS.index(cons)) % 2]:
                        continue
                    yield gen.op_case(op, [s], p, [kind], cons, jac=jac)


_plain_cases = cases


def cases(tier):
    yield from gen.late(_plain_cases(tier))
    yield from gen.turns(large(tier), ('in', 'std', 'reg', 'expr'))


def large(tier):
    sh = sorted(set(itertools.chain(*[factor_shapes(24, r) for r in (1, 2, 3, 4)])))
    for i, a in enumerate(sh):
        for j, b in enumerate(sh):
            if tier != 'quick' or (i + j) % 16 == 0:
                yield 'reshape', [a], {'shape': list(b)}
    for a in ((60, ), (3, 4, 5), (5, 12), (2, 3, 2, 5), (1, 2, 5, 2, 3)):
        for b in ((60, ), (20, 3), (5, 4, 3), (2, 5, 3, 2), (2, 1, 3, 2, 5)):
            yield 'reshape', [a], {'shape': list(b)}
    for s in ((7, 5), (4, 3, 5), (2, 3, 4, 5), (5, 1, 4, 3), (2, 3, 1, 4, 2), (3, 2, 2, 1, 2)):
        yield 'transpose', [s], {}
        for k, perm in enumerate(itertools.permutations(range(len(s)))):
            if tier != 'quick' or len(s) < 5 or k % 2:
                yield 'reorder_axes', [s], {'op': 'ijklm'[:len(s)] + '->' + ''.join('ijklm'[i] for i in perm)}
    for s in ((12, ), (40, ), (4, 5), (3, 4, 5), (2, 3, 4, 2), (1, 3, 1, 2, 2)):
        yield 'expand', [(1, )], {'shape': list(s)}
    L = 'ijklm'
    for full in ((7, 5), (5, 4, 3), (3, 5, 4), (2, 3, 4, 5), (4, 2, 1, 3), (2, 3, 1, 2, 3), (3, 1, 2, 2, 2)):
        r = len(full)
        for k in range(1, r):
            for keep in itertools.combinations(range(r), k):
                s = tuple(full[i] for i in keep)
                yield 'expand', [s], {'shape': list(full), 'indices': ''.join(L[i] for i in keep) + '->' + L[:r]}


run = prog.run_value_case
