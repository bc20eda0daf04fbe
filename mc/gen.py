"""helpers to write bounded spaces of programs"""
import itertools

from mc import prog

STD_PTS = [['u', 0], ['pm', 1]]


def case(ins, ops, outs, pts=STD_PTS, jac=None, **kw):
    d = {'ins': ins, 'ops': ops, 'outs': outs, 'pts': pts, 'jac': jac}
    d.update(kw)
    return d


CONS = ('reg', 'use', 'both')


def op_case(op, shapes, params, kinds=None, cons='reg', pts=STD_PTS, jac='fwd', vals=None, inkind='in', share=None):
    """one operation under test.

    kinds[i]: 'in' operand is a declared input; 'expr' it is an (unregistered)
    expression 1.5*input; 'reg' it is a registered output.
    cons: 'reg' result is registered; 'use' only an expression using it is;
    'both' registered first and used by another registered expression.
    share: operand i uses input number share[i] (repeated operands)
    """
    n = len(shapes)
    kinds = kinds or ['in'] * n
    share = share or list(range(n))
    uniq = sorted(set(share))
    ins = [['x%d' % u, list(shapes[share.index(u)]), inkind, None] for u in uniq]
    ops = []
    outs = []
    ref = {}
    for i in range(n):
        u = uniq.index(share[i])
        key = (u, kinds[i])
        if key in ref:
            continue
        if kinds[i] == 'in':
            ref[key] = u
        else:
            # 'expr' carries its operand's default value along, 'std' does not
            ops.append(['tanh', [u], {}] if kinds[i] == 'std' else ['mulc', [u], {'c': 1.5 if kinds[i] == 'expr' else 0.75}])
            ref[key] = len(ins) + len(ops) - 1
            if kinds[i] == 'reg':
                outs.append(['r%d' % i, ref[key], 'now'])
    ops.append([op, [ref[(uniq.index(share[i]), kinds[i])] for i in range(n)], params])
    me = len(ins) + len(ops) - 1
    if cons in ('reg', 'both'):
        outs.append(['f', me, 'now'])
    if cons in ('use', 'both'):
        ops.append(['mulc', [me], {'c': 2.5}])
        ops.append(['add', [me, me + 1], {}])
        outs.append(['h', me + 2, 'now'])
    return case(ins, ops, outs, pts, jac)


def turns(space, kinds=('in', 'std', 'reg'), pts=STD_PTS):
    """one case per operation of a space of larger operands; kinds, consumers and directions taken in turn"""
    for i, (op, shapes, params) in enumerate(space):
        n = len(shapes)
        yield op_case(op, shapes, params, [kinds[(i + j * (1 + i % 2)) % len(kinds)] for j in range(n)], CONS[i // 3 % 3], pts, ('fwd', 'rev')[i // 2 % 2])


def kinds_products(n, kinds=('in', 'std')):
    return [list(k) for k in itertools.product(kinds, repeat=n)]


def ok(c):
    return prog.well_posed(c)


def shapes_up_to(rank, sizes):
    for r in range(1, rank + 1):
        for s in itertools.product(sizes, repeat=r):
            yield s


def late(cases):
    """the cases, and for each plain one (one operation on inputs, result registered) two more, in which the
    operands are expressions registered after the operation was formed / the result is registered after its use"""
    for c in cases:
        yield c
        if len(c['ops']) != 1 or len(c['outs']) != 1 or len(c) != 5:
            continue
        n = len(c['ins'])
        op, a, p = c['ops'][0]
        ops = [['mulc', [i], {'c': 0.75}] for i in range(n)] + [[op, [n + j for j in a], p]]
        outs = [['f', 2 * n, 'now']] + [['r%d' % i, n + i, 'end'] for i in range(n)]
        yield case(c['ins'], ops, outs, c['pts'], c['jac'])
        ops = [[op, a, p], ['mulc', [n], {'c': 2.5}], ['add', [n, n + 1], {}]]
        yield case(c['ins'], ops, [['h', n + 2, 'now'], ['f', n, 'end']], c['pts'], c['jac'])
