"""the result does not depend on registration order or on where objects lie in memory"""
import itertools

from mc import elsewhere, gen, memory, prog, story
from mc.props import c03_order as D

ID = 'C04'


def bounds(tier):
    return ('for 4-node DAGs over one input: all orders of registering every output, and all placements (permutations of the '
            'hash ranks) of the first %d expression objects; for graphs with a child system, indexing, indexed assignment: all '
            'placements of the first 6 objects; every 5-node DAG with a registration order each (rotating through all 120); '
            'chains, stars, ladders, pairs and unconnected sets of 8-14 outputs in every rotation, reversal, interleaving and '
            'exchange of neighbours of the registration order x 3 placements; the same orders with one or two child systems that use 6-26 outputs; '
            'the models of C33 in processes with 12 (thorough: 48) hash seeds of strings' % (5 if tier == 'quick' else 6))


def mems(n):
    return itertools.permutations(range(n))


# graphs that are distinct as labelled graphs, chosen to contain chains, diamonds, fans and shortcuts
def some_dags(tier):
    for i, d in enumerate(D.dags(4, 1)):
        if tier == 'thorough' or i % 14 == 3 or d in (
            ((0, ), (1, ), (2, ), (3, )), ((0, ), (0, 1), (0, 1, 2), (0, 1, 2, 3)), ((0, ), (0, ), (1, 2), (0, 3)),
            ((0, ), (1, ), (1, 2), (2, 3))):
            yield d


I2 = [2]
STORIES = {
    'child': [['in', 'a', 'a', I2], ['op', 'b', 'tanh', ['a'], {}], ['reg', 'b', 'b'], ['op', 'd', 'mulc', ['a'], {'c': 3.}],
              ['reg', 'd', 'd'], ['sub', 's', 'exec', [['c', I2, [[2., 'b'], [1., 'a']]]]], ['in', 'c', 'c', I2],
              ['op', 'ee', 'add', ['c', 'd'], {}], ['reg', 'ee', 'ee']],
    'child2': [['ind', 'a', 'a', I2], ['op', 'b', 'sin', ['a'], {}], ['reg', 'b', 'b'],
               ['sub', 's', 'cls', [['in', 'b', 'b', I2], ['op', 'c', 'mulc', ['b'], {'c': 2.}], ['reg', 'c', 'c']]],
               ['in', 'c', 'c', I2], ['op', 'ee', 'mul', ['c', 'b'], {}], ['reg', 'ee', 'ee'],
               ['sub', 't', 'exec', [['ff', I2, [[1., 'ee'], [1., 'c']]]]], ['in', 'ff', 'ff', I2],
               ['op', 'g', 'sub', ['ff', 'a'], {}], ['reg', 'g', 'g']],
    'index': [['in', 'a', 'a', [3]], ['op', 'b', 'tanh', ['a'], {}], ['op', 'c', 'idx', ['b'], {'k': 0}],
              ['op', 'd', 'idx', ['b'], {'k': ['s', 1, 3, None]}], ['op', 'ee', 'idx', ['b'], {'k': 1}], ['reg', 'd', 'd'],
              ['op', 'ff', 'mul', ['c', 'ee'], {}], ['reg', 'ff', 'ff'], ['reg', 'b', 'b']],
    'assign': [['in', 'a', 'a', [2]], ['op', 'b', 'tanh', ['a'], {}], ['op', 'c', 'mulc', ['a'], {'c': 2.}],
               ['out', 'o', 'o', [4]], ['set', 'o', ['s', 0, 2, None], 'c'], ['set', 'o', ['s', 2, 4, None], 'b'],
               ['op', 'd', 'sin', ['o'], {}], ['reg', 'd', 'd'], ['reg', 'b', 'b']],
}


def cases(tier):
    n = 5 if tier == 'quick' else 6
    # 1. registration orders
    for i, d in enumerate(D.dags(4, 1)):
        if tier == 'quick' and i % 3:
            continue
        for pi in itertools.permutations(range(4)):
            c = D.build(d, 1, 0, ('in', 'ind')[i % 2], i % 2, pts=(['pm', 0], ))
            c['outs'] = [['v%d' % j, 1 + j, 'end'] for j in pi]
            yield c
    # 2. memory placements (root, input, nodes ...)
    for i, d in enumerate(some_dags(tier)):
        for r in mems(n):
            c = D.build(d, 1, i % 5, ('in', 'ind')[i % 2], i % 2, pts=(['pm', 0], ))
            c['mem'] = list(r)
            yield c
    for k, st in STORIES.items():
        for r in mems(6 if tier == 'quick' else 7):
            yield {'story': st, 'pts': [['pm', 0]], 'jac': 'rev', 'mem': list(r)}
    # 3. both for a three-output graph
    for d in list(D.dags(3, 1)):
        for pi in itertools.permutations(range(3)):
            for j, r in enumerate(mems(5)):
                if tier == 'quick' and (j % 6) != (sum(map(len, d)) + pi[0]) % 6:
                    continue
                c = D.build(d, 1, 0, 'in', 0, pts=(['pm', 0], ))
                c['outs'] = [['v%d' % q, 1 + q, 'end'] for q in pi]
                c['mem'] = list(r)
                yield c
    yield from far(tier)
    yield from systems(tier)
    yield from seeds(tier)


def wide(shape, n):
    if shape == 'chain':
        return tuple((i, ) for i in range(n))
    if shape == 'star':
        return tuple((0, ) if i == 0 else (1, ) for i in range(n))
    if shape == 'ladder':
        return tuple((max(0, i - 1), i) if i else (0, ) for i in range(n))
    if shape == 'pairs':
        return tuple((0, ) if i % 2 == 0 else (i, ) for i in range(n))
    if shape == 'join':
        return tuple((0, ) for i in range(n - 1)) + (tuple(range(1, n)), )
    return tuple((0, ) for i in range(n))


def orders(n):
    base = list(range(n))
    for k in range(n):
        yield base[k:] + base[:k]
        yield (base[k:] + base[:k])[::-1]
    for q in (2, 3, 4):
        o = [j for r in range(q) for j in base[r::q]]
        yield o
        yield o[::-1]
    for k in range(n - 1):
        o = list(base)
        o[k], o[k + 1] = o[k + 1], o[k]
        yield o


def far(tier):
    # every 5-node graph, a different registration order each
    perms = list(itertools.permutations(range(5)))
    for i, d in enumerate(D.dags(5, 1)):
        if tier == 'quick' and i % 4:
            continue
        for q in range(1 if tier == 'quick' else 4):
            c = D.build(d, 1, 0, ('in', 'ind')[i % 2], i // 2 % 2, pts=(['pm', 0], ))
            c['outs'] = [['v%d' % j, 1 + j, 'end'] for j in perms[(i // 4 * 7 + i + 31 * q) % 120]]
            yield c
    k = 0
    for n in (8, 11) if tier == 'quick' else (8, 11, 14):
        for shape in ('chain', 'star', 'ladder', 'pairs', 'join', 'flat'):
            d = wide(shape, n)
            for o in orders(n):
                for m in (None, 'up', 'down') if tier != 'quick' else ((None, 'up', 'down')[k % 3], ):
                    k += 1
                    c = D.build(d, 1, 0, ('in', 'ind')[k % 2], k // 2 % 2, pts=(['pm', 0], ))
                    c['outs'] = [['v%d' % j, 1 + j, 'end'] for j in o]
                    if m:
                        # the objects lie in the order they are made, or against it
                        c['mem'] = list(range(n + 1)) if m == 'up' else list(range(n, -1, -1))
                    yield c


def systems(tier):
    # child systems that use everything registered before, which is a lot, and what follows
    k = 0
    for n in (6, 14, 26) if tier == 'quick' else (6, 10, 14, 20, 26, 40):
        for o in orders(n):
            for kind in ('exec', 'cls', 'pre') if tier != 'quick' else (('exec', 'cls', 'pre')[k % 3], ):
                for two in (0, 1) if tier != 'quick' else (k // 3 % 2, ):
                    k += 1
                    if tier == 'quick' and k % 2 and n > 6:
                        continue
                    st = [['in', 'a', 'a', I2]]
                    st += [['op', 'o%d' % j, 'mulc', ['a'], {'c': .3 + .1 * j}] for j in range(n)]
                    st += [['reg', 'o%d' % j, 'o%d' % j] for j in o]
                    names = ['o%d' % j for j in range(n)]
                    for q in range(1 + two):
                        if kind == 'exec':
                            inner = [['s%d' % q, I2, [[.1 + .05 * (j % 7), v] for j, v in enumerate(names)]]]
                        else:
                            inner = [['in', v, v, I2] for v in names] + [['op', 't', 'sum', names, {}], ['reg', 's%d' % q, 't']]
                        st += [['sub', 'c%d' % q, kind, inner], ['in', 's%d' % q, 's%d' % q, I2], ['op', 'u%d' % q, 'sin', ['s%d' % q], {}],
                               ['reg', 'u%d' % q, 'u%d' % q]]
                        names = ['u%d' % q, 's%d' % q] + names[::2]
                    c = {'story': st, 'pts': [['pm', 0]], 'jac': ('rev', 'fwd')[k % 2]}
                    if k % 3:
                        c['mem'] = list(range(2 * n)) if k % 3 == 1 else list(range(2 * n, -1, -1))
                    yield c


def seeds(tier):
    # processes in which names hash differently: everything of which the package keeps sets or dictionaries by name
    from mc.props import c33_names as N
    pts = [['u', 0]]
    cs = []
    for kind, temps in (('story', N.stories()), ('steps', N.comps())):
        for t in temps:
            ns = sorted(N.used(t))
            for al in (('x', 'y', 'z', 'u', 'v', 'w'), ) if tier == 'quick' else (('x', 'y', 'z', 'u', 'v', 'w'), ('q1', 'q2', 'q3', 'q4', 'q5', 'q6')):
                c = {kind: N.put(t, dict(zip(ns, al))), 'pts': pts, 'jac': ('fwd', 'rev')[len(cs) % 2]}
                if kind == 'steps':
                    c['solv'] = 'brk-direct' if any(s[0] == 'resb' for s in t) else 'own-direct'
                    c['host'] = 'om'
                cs.append([N.__name__, c])
    for s in range(1, 13 if tier == 'quick' else 49):
        for k in range(0, len(cs), 40):
            yield {'seed': s, 'of': cs[k:k + 40]}


def path(c):
    from mc import drive
    if 'seed' in c:
        return [['process', c['seed']]] + c['of']
    return story.path(c) if 'story' in c else drive.default_path(c)


def run(case):
    # the order of registration must not show in the values, whatever it is
    if 'seed' in case:
        return elsewhere.run(case['seed'], case['of'])
    f = story.run if 'story' in case else prog.run_value_case
    if case.get('mem'):
        with memory.ranks(case['mem']):
            return f(case)
    return f(case)
