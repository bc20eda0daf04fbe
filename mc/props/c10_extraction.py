"""reading elements and slices: any sequence of keys on one array"""
import itertools

import numpy as np

from mc import gen, prog
from mc.ops import as_slices

ID = 'C10'


def bounds(tier):
    return ('every int / slice(start,stop,step) key on vectors of length 1..4, every tuple of such keys on (2,3) and (2,2,2), '
            'every ordered sequence of <= 3 keys (with repetition) from a covering key set on one array; source {input, '
            'expression, registered before / after being indexed, indep}; source and results registered or used, {fwd, rev}; vectors up to 130 long with steps up to 64, arrays up to rank 5, up to 20 keys on one array')


def keys1(n, steps=(None, 1, 2)):
    ks = list(range(n))
    for a in [None] + list(range(n)):
        for b in [None] + list(range(1, n + 1)):
            for st in steps:
                if len(range(n)[slice(a, b, st)]):
                    ks.append(['s', a, b, st])
    return ks


def seq_case(shape, keys, kind, regs, jac, srcreg=None):
    ins = [['x0', list(shape), 'indep' if kind == 'indep' else 'in', None]]
    ops = []
    outs = []
    src = 0
    if kind in ('std', 'expr', 'reg'):
        ops.append(['tanh', [0], {}] if kind == 'std' else ['mulc', [0], {'c': 1.5}])
        src = 1
        if kind == 'reg':
            outs.append(['src', 1, 'now'])
    n = len(ins) + len(ops)
    seen = {}
    for i, k in enumerate(keys):
        # keys selecting the same elements may be one and the same expression: register it once
        kk = str(np.arange(int(np.prod(shape))).reshape(shape)[as_slices(k)].tolist())
        ops.append(['idx', [src], {'k': k}])
        me = n
        n += 1
        if regs == 'reg':
            if kk not in seen:
                outs.append(['f%d' % i, me, 'now'])
        else:
            ops.append(['mulc', [me], {'c': float(i + 2)}])
            outs.append(['g%d' % i, n, 'now' if i % 2 else 'end'])
            n += 1
        seen[kk] = me
    if srcreg:
        outs.append(['src2', src, 'end'])
    return gen.case(ins, ops, outs, gen.STD_PTS, jac)


def cases(tier):
    J = ('fwd', 'rev')
    for n in (1, 2, 3, 4):
        for i, k in enumerate(keys1(n)):
            for kind in ('in', 'std', 'expr', 'reg', 'indep'):
                for regs in ('reg', 'use'):
                    yield seq_case((n, ), [k], kind, regs, J[i % 2])
                    if kind in ('std', 'expr'):
                        yield seq_case((n, ), [k], kind, regs, J[i % 2], 1)
    for shape in ((2, 3), (1, 2), (3, 1), (2, 2, 2)):
        per = [keys1(d, (None, 2) if d > 2 else (None, )) for d in shape]
        if len(shape) == 3:
            per = [[0, 1, ['s', None, None, None], ['s', 1, None, None], ['s', 0, 1, None]]] * 3
        for i, k in enumerate(itertools.product(*per)):
            for kind in ('in', 'std', 'reg'):
                if tier == 'quick' and kind == 'reg' and i % 2:
                    continue
                yield seq_case(shape, [['t'] + list(k)], kind, ('reg', 'use')[i % 2], J[(i // 2) % 2])
                if kind == 'std':
                    yield seq_case(shape, [['t'] + list(k)], kind, ('reg', 'use')[i % 2], J[(i // 2) % 2], 1)
    S = [0, 2, ['s', None, None, None], ['s', 0, 2, None], ['s', 1, 3, None], ['s', None, None, 2], ['s', 1, None, None]]
    T = [['t', 0, 1], ['t', ['s', None, None, None], 0], ['t', 1, ['s', 0, 2, None]],
         ['t', ['s', None, None, None], ['s', None, None, None]], ['t', ['s', 1, 2, None], ['s', 1, 3, None]]]
    for shape, K in (((3, ), S), ((2, 3), T)):
        for r in (2, 3):
            for i, ks in enumerate(itertools.product(K, repeat=r)):
                for kind in ('in', 'std', 'reg'):
                    if tier == 'quick' and r == 3 and kind != ('in', 'std', 'reg')[i % 3]:
                        continue
                    for regs in ('reg', 'use'):
                        yield seq_case(shape, list(ks), kind, regs, J[i % 2])
                        # the source gets its name after its entries were selected
                        if kind == 'std' and (r == 2 or tier == 'thorough'):
                            yield seq_case(shape, list(ks), kind, regs, J[i % 2], 1)
    yield from large(tier)


def large(tier):
    """longer and higher-dimensional arrays, wider steps, many keys on one array"""
    K = ('in', 'std', 'reg', 'indep', 'expr')
    i = 0
    for n in (5, 6, 7, 8, 12) + ((11, 16) if tier != 'quick' else ()):
        for k in keys1(n, (None, 1, 2, 3, 4, n - 1) if n < 9 else (None, 3, 5)):
            for kind in (K if tier != 'quick' else (K[i % 5], )):
                i += 1
                yield seq_case((n, ), [k], kind, ('reg', 'use')[i % 2], ('fwd', 'rev')[i // 2 % 2])
    big = [0, 9, 10, 31, 64, 99, 100, 128, 129] + [['s', a, b, st] for a in (None, 9, 10, 64) for b in (None, 65, 100, 129) for st in (None, 2, 7, 10, 64)]
    for k in big:
        i += 1
        yield seq_case((130, ), [k], K[i % 5], ('reg', 'use')[i // 5 % 2], ('fwd', 'rev')[i // 2 % 2])
    N = ['s', None, None, None]
    for shape, per in (((4, 5), [keys1(4, (None, 3)), keys1(5, (None, 2, 3))]),
                       ((3, 4, 5), [[0, 2, N, ['s', 1, None, None]], [0, 3, N, ['s', 1, 3, None], ['s', None, None, 3]], [4, N, ['s', 2, 5, 2], ['s', 0, 3, None]]]),
                       ((2, 3, 2, 2), [[1, N, ['s', 1, 2, None]], [2, N, ['s', 0, 3, 2]], [0, N], [1, N]]),
                       ((2, 2, 3, 2, 2), [[1, N], [0, N], [2, N, ['s', 1, 3, None]], [1, N], [0, N]]),
                       ((12, 2), [[9, 10, 11, ['s', 9, 12, None], ['s', None, None, 5]], [0, 1, N]]),
                       ((2, 12), [[0, 1, N], [9, 10, 11, ['s', 9, 12, None], ['s', 1, None, 5]]])):
        for j, k in enumerate(itertools.product(*per)):
            if tier == 'quick' and shape == (4, 5) and j % 2:
                continue
            i += 1
            yield seq_case(shape, [['t'] + list(k)], K[i % 5], ('reg', 'use')[i // 5 % 2], ('fwd', 'rev')[i // 2 % 2])
    # many keys on one array
    for n in (8, 12, 20):
        for ks in (list(range(n)), list(range(n))[::-1], [['s', a, None, None] for a in range(n)], [['s', None, a + 1, None] for a in range(n)][::-1],
                   [['s', a, a + 2, None] for a in range(n - 1)], [['s', None, None, a] for a in range(1, n)]):
            for kind in K[:3]:
                for regs in ('reg', 'use'):
                    i += 1
                    yield seq_case((n, ), ks, kind, regs, ('fwd', 'rev')[i % 2])
    for ks in ([['t', a, b] for a in range(3) for b in range(4)], [['t', a, N] for a in range(3)] + [['t', N, b] for b in range(4)],
               [['t', ['s', a, None, None], ['s', None, b + 1, None]] for a in range(3) for b in range(4)]):
        for kind in K[:3]:
            for regs in ('reg', 'use'):
                i += 1
                yield seq_case((3, 4), ks, kind, regs, ('fwd', 'rev')[i % 2])


def run(case):
    return prog.run_value_case(case)
