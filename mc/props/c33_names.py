"""names carry no meaning: the same model under every assignment of names from alphabets that look alike"""
import itertools

from mc import implicit as I
from mc import story

ID = 'C33'
PTS = [['u', 0], ['pos', 1]]
ALPH = [
    ('v', 'v2', 'v22', 'v2v', 'vv', 'v222'),
    ('x', 'y', 'xy', 'yx', 'x_y', 'y_x'),
    ('a', 'A', 'b', 'B', 'ab', 'AB'),
    ('x1', 'x10', 'x01', 'x11', 'x', 'x100'),
    ('x_', '_x', '_x_', 'x__', '__x', 'x_x'),
    ('sin', 'max', 'sum', 'T', 'pi', 'e'),
    ('shape', 'val', 'value', 'default', 'out', 'expr'),
    ('root', 'group', 'comp', 'model', 'subsys', 'output'),
    ('alpha', 'beta', 'alphabeta', 'beta_alpha', 'alph', 'bet'),
    ('N', 'n', 'J1', 'j1', 'E0', 'e0'),
    tuple('n' * 60 + c for c in ('', 'n', 'm', 'nm', '0', '00')),
]
LOOSE = [('in', 'for', 'None', 'lambda', 'is', 'if')]


def bounds(tier):
    return ('%d models (every operation of two and more operands, registered and reused intermediate results, indexing, assembly, cycles, independent variables, '
            'child systems of every kind, one within the other, residuals and brackets) x %d alphabets of names that are prefixes, suffixes, '
            'concatenations and case variants of one another, Python keywords, names of functions and options, and long names x %s; '
            'values and totals at two points, {fwd, rev}' %
            (len(stories()) + len(comps()), len(ALPH) + len(LOOSE),
             'all assignments for up to three names, all rotations and reflections beyond' if tier == 'quick' else 'all assignments for up to five names, all rotations and reflections beyond'))


def stories():
    S, V, M, C = [1], [3], [2, 2], [1]
    res = []
    two = lambda op, s, t, p={}: [['in', 'a', 'N0', s], ['in', 'b', 'N1', t], ['op', 'r', op, ['a', 'b'], p], ['reg', 'N2', 'r']]
    for op in ('add', 'sub', 'mul', 'div'):
        res.append(two(op, S, S))
    res += [two('mul', V, V), two('max', V, V), two('min', M, M), two('sum', V, V), two('sum', M, M, {'axes': [0]}), two('average', V, V),
            two('average', M, M, {'axes': [1]}), two('cross', V, V, {'axis': 0}), two('dot', V, V), two('dot', [3, 2], [3, 2], {'axis': 0}),
            two('inner', V, V), two('inner', M, M, {'axes': [[1], [0]]}), two('outer', V, [2]), two('outer', M, [2]), two('matmat', M, M),
            two('matvec', M, [2]), two('einsum', M, M, {'s': 'ij,jk->ik'}), two('einsum', M, M, {'s': 'ij,jk->ik', 'f': 'sparse'})]
    three = [['in', 'a', 'N0', V], ['in', 'b', 'N1', V], ['in', 'c', 'N2', V]]
    for op, p in (('max', {}), ('min', {}), ('sum', {}), ('average', {}), ('einsum', {'s': 'i,i,i->i'}), ('einsum', {'s': 'i,i,i->', 'f': 'sparse'})):
        res.append(three + [['op', 'r', op, ['a', 'b', 'c'], p], ['reg', 'N3', 'r']])
    res.append([['in', 'c', 'N0', C], ['in', 'a', 'N1', V], ['in', 'b', 'N2', V], ['op', 'd', 'subc', ['c'], {'c': 0.5}],
                ['op', 'r', 'if_else', ['d', 'a', 'b'], {}], ['reg', 'N3', 'r']])
    # registered results that are used
    res.append([['in', 'a', 'N0', V], ['op', 's', 'sin', ['a'], {}], ['reg', 'N1', 's'], ['op', 't', 'mul', ['s', 'a'], {}], ['reg', 'N2', 't'],
                ['op', 'u', 'div', ['t', 's'], {}], ['op', 'w', 'add', ['u', 'a'], {}], ['reg', 'N3', 'w']])
    res.append([['ind', 'p', 'N0', V], ['in', 'a', 'N1', V], ['op', 't', 'mul', ['p', 'a'], {}], ['reg', 'N2', 't'], ['ind', 'q', 'N3', V],
                ['op', 'u', 'mul', ['q', 't'], {}], ['reg', 'N4', 'u']])
    # elements
    res.append([['in', 'a', 'N0', V], ['in', 'b', 'N1', V], ['op', 'i', 'idx', ['a'], {'k': 0}], ['op', 'j', 'idx', ['b'], {'k': 2}],
                ['op', 'm', 'mul', ['i', 'j'], {}], ['reg', 'N2', 'm'], ['op', 'k', 'idx', ['a'], {'k': ['s', 1, 3, None]}], ['reg', 'N3', 'k']])
    res.append([['in', 'a', 'N0', [2]], ['in', 'b', 'N1', [1]], ['out', 'y', 'N2', [4]], ['op', 's', 'sin', ['a'], {}], ['set', 'y', ['s', 0, 2, None], 's'],
                ['op', 't', 'mul', ['b', 'b'], {}], ['reg', 'N3', 't'], ['set', 'y', ['s', 2, 3, None], 't'], ['set', 'y', ['s', 3, 4, None], 'b']])
    # cycles
    cyc = [['solver', 'newton+direct'], ['in', 'x', 'N0', [2]], ['out', 'y', 'N1', [2]], ['op', 'e', 'sin', ['y'], {}], ['op', 'f', 'mulc', ['e'], {'c': 0.3}],
           ['op', 'g', 'add', ['f', 'x'], {}], ['def', 'y', 'g'], ['op', 'h', 'mul', ['y', 'x'], {}], ['reg', 'N2', 'h']]
    res.append(cyc)
    res.append([['solver', 'bgs+direct'], ['in', 'x', 'N0', [2]], ['out', 'y', 'N1', [2]], ['out', 'z', 'N2', [2]], ['op', 'a', 'mulc', ['z'], {'c': 0.3}],
                ['op', 'b', 'add', ['a', 'x'], {}], ['def', 'y', 'b'], ['op', 'c', 'sin', ['y'], {}], ['op', 'd', 'mulc', ['c'], {'c': 0.4}], ['reg', 'N3', 'd'],
                ['op', 'e', 'sub', ['d', 'x'], {}], ['def', 'z', 'e']])
    # child systems
    kid = [['in', 'x', 'N0', [2]], ['op', 'q', 'exp', ['x'], {}], ['reg', 'N1', 'q']]
    for kind in ('with', 'cls', 'pre'):
        res.append([['in', 'x', 'N0', [2]], ['sub', 'N4', kind, kid], ['in', 'q', 'N1', [2]], ['op', 'r', 'sub', ['q', 'x'], {}], ['reg', 'N2', 'r']])
        res.append([['in', 'x', 'N3', [2]], ['op', 'y', 'sin', ['x'], {}], ['reg', 'N0', 'y'], ['sub', 'N4', kind, kid],
                    ['in', 'q', 'N1', [2]], ['op', 'r', 'mul', ['q', 'x'], {}], ['reg', 'N2', 'r']])
    for kind in ('exec', 'omg'):
        res.append([['in', 'x', 'N0', [2]], ['op', 'y', 'sin', ['x'], {}], ['reg', 'N1', 'y'], ['sub', 'N4', kind, [['N2', [2], [[1.5, 'N0'], [0.5, 'N1']]]]],
                    ['in', 'q', 'N2', [2]], ['op', 'r', 'mul', ['q', 'x'], {}], ['reg', 'N3', 'r']])
    for how in ('io', 'list', 'list1'):
        res.append([['in', 'x', 'N3', [2]], ['op', 'y', 'sin', ['x'], {}], ['reg', 'N0', 'y'], ['sub', 'N4', 'cls', kid, how],
                    ['in', 'q', 'N1', [2]], ['op', 'r', 'mul', ['q', 'x'], {}], ['reg', 'N2', 'r']])
    nest = [['in', 'x', 'N0', [2]], ['sub', 'N4', 'with', kid], ['in', 'q', 'N1', [2]], ['op', 't', 'sin', ['q'], {}], ['reg', 'N2', 't']]
    res.append([['in', 'x', 'N0', [2]], ['sub', 'N5', 'with', nest], ['in', 't', 'N2', [2]], ['op', 'r', 'mul', ['t', 'x'], {}], ['reg', 'N3', 'r']])
    res.append([['in', 'x', 'N0', [2]], ['sub', 'N5', 'cls', nest], ['in', 't', 'N2', [2]], ['op', 'r', 'mul', ['t', 'x'], {}], ['reg', 'N3', 'r']])
    return res


def comps():
    sq = lambda x, a, r: [['op', r + 'c', 'mulc', [x], {'c': 2.5}], ['op', r + 's', 'sin', [a], {}], ['op', r, 'sub', [r + 'c', r + 's'], {}]]
    a, x, y = ['in', 'N0', [2], None], ['out', 'N1', [2], None], ['out', 'N2', [2], 0.5]
    res = [
        [a, x] + sq('N1', 'N0', 'r') + [['res', 'N1', 'r']],
        [a, x, y] + sq('N1', 'N0', 'r') + sq('N2', 'N1', 'q') + [['res', 'N1', 'r'], ['res', 'N2', 'q']],
        [a, x, y] + sq('N1', 'N2', 'r') + [['res', 'N1', 'r']] + sq('N2', 'N0', 'q') + [['res', 'N2', 'q']],
        [a, ['in', 'N3', [2], None], x, y, ['op', 'm', 'mul', ['N0', 'N3'], {}]] + sq('N1', 'm', 'r') + sq('N2', 'N3', 'q') + [['res', 'N2', 'q'], ['res', 'N1', 'r']],
        [a, x, ['op', 'w', 'mul', ['N1', 'N0'], {}], ['reg', 'w', 'N2'], ['op', 'c', 'mulc', ['N1'], {'c': 4.}], ['op', 's', 'add', ['c', 'w'], {}],
         ['op', 'r', 'sub', ['s', 'N0'], {}], ['res', 'N1', 'r']],
    ]
    for kind in ('with', 'make', 'cls', 'pre', 'exec'):
        res.append([a, x, ['child', 'N2', kind, ['N0', 'N1'], [0.4, 0.3]], ['op', 'c', 'mulc', ['N1'], {'c': 2.5}], ['op', 's', 'add', ['c', 'N2'], {}],
                    ['op', 'r', 'sub', ['s', 'N0'], {}], ['res', 'N1', 'r']])
    a1, x1, y1 = ['in', 'N0', [1], None], ['out', 'N1', [1], None], ['out', 'N2', [1], None]
    res.append([a1, x1, ['op', 's', 'mulc', ['N1'], {'c': 3.}], ['op', 'r', 'sub', ['s', 'N0'], {}], ['resb', 'N1', 'r', -4., 9.]])
    res.append([a1, x1, y1, ['op', 's', 'mulc', ['N1'], {'c': 3.}], ['op', 'r', 'sub', ['s', 'N0'], {}], ['resb', 'N1', 'r', -4., 9.],
                ['op', 't', 'mulc', ['N2'], {'c': -2.}], ['op', 'q', 'add', ['t', 'N0'], {}], ['resb', 'N2', 'q', -5., 8.]])
    return res


def used(v):
    if isinstance(v, str):
        return {v} if len(v) == 2 and v[0] == 'N' and v[1].isdigit() else set()
    if isinstance(v, (list, tuple)):
        return set().union(*[used(x) for x in v]) if v else set()
    return set()


def systems(t):
    return {s[1] for s in t if s[0] == 'sub'} | {n for s in t if s[0] == 'sub' and s[2] not in ('exec', 'omg') for n in systems(s[3])}


def put(v, m):
    if isinstance(v, str):
        return m.get(v, v)
    if isinstance(v, (list, tuple)):
        return [put(x, m) for x in v]
    return v


def orders(k, tier):
    if k <= (3 if tier == 'quick' else 5):
        return list(itertools.permutations(range(k)))
    res = []
    for r in range(k):
        o = [(i + r) % k for i in range(k)]
        res += [tuple(o), tuple(reversed(o))]
    return res


def cases(tier):
    n = 0
    for kind, temps in (('story', stories()), ('steps', comps())):
        for t in temps:
            ns = sorted(used(t))
            strict = kind == 'story' and any(s[0] == 'sub' and s[2] in ('exec', 'omg') for s in t) or \
                any(s[0] == 'child' and s[2] == 'exec' for s in t)
            for al in ALPH if strict else ALPH + LOOSE:
                if strict and al[0] in ('sin', 'shape'):
                    continue  # names with a meaning in an ExecComp
                for o in orders(len(ns), tier):
                    m = {a: al[i] for a, i in zip(ns, o)}
                    if any(m[x].startswith('_') for x in systems(t)):
                        continue  # OpenMDAO allows no such name of a system
                    c = {kind: put(t, m), 'pts': PTS, 'jac': ('fwd', 'rev')[n % 2]}
                    if kind == 'steps':
                        if not I.uses(c) or not I.well_posed(c):
                            raise ValueError(c)
                        c['solv'] = 'brk-direct' if any(s[0] == 'resb' for s in t) else ('own-direct', 'outer-direct')[n // 2 % 2]
                        c['host'] = 'om' if c['solv'][0] != 'o' or c['solv'] == 'outer-direct' else ('om', 'ot', 'child')[n % 3]
                        if c['host'] != 'om' and any(x.startswith(('u_', 'z_')) for x in m.values()):
                            c['host'] = 'om'
                    n += 1
                    yield c


def run(case):
    if 'story' in case:
        return story.run(case)
    return I.run(case, bracket=case['solv'].startswith('brk'))


def path(case):
    return I.path(case) if 'steps' in case else [['s'] + s for s in case['story']] + [['run', p] for p in case['pts']]
