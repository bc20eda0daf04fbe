"""C21: results are a function of the current inputs, whatever was evaluated before"""
import itertools

from mc import gen, history, implicit as I, prog

ID = 'C21'
TITLE = 'Results depend on current inputs only, not on evaluation history'


def bounds(tier):
    return ('%d models (every operation, literals, indexing, assembled and cyclic outputs, child systems, implicit components) x '
            'every history A.w with w of length <= %d over {A, B: move to a point and run; R: run again; T: totals; C: '
            'check_partials; S: set up again; N: run on nan inputs}; values after every action; {fwd, rev} in turn; one object set up as two '
            'or three of these models in turn, by itself, in one or two OpenMDAO groups, made anew for every setup, or in an omtools group; components '
            'defined by residuals set up with other residuals, shapes and brackets; setups that end in an error at every building step, or while the model is built, and are then put right; '
            'the statements of a model split at every point into those executed before the first setup, and those executed by every setup or between two setups'
            % (len(list(models())), 3 if tier == 'quick' else 4))


def ops():
    """(op, operand shapes, params, domain of the points)"""
    for f in ('sin', 'cos', 'tan', 'exp', 'log', 'log10', 'sinh', 'cosh', 'tanh', 'sec', 'cosec', 'cotan', 'sech', 'cosech',
              'cotanh', 'arcsin', 'arccos', 'arctan'):
        yield f, [(2, 2)], {}, 'u'
    for op in ('add', 'sub', 'mul', 'div'):
        yield op, [(3, ), (3, )], {}, 'pm'
    A = {'a': [[2., -1.5, 3.], [0.5, 4., -2.]], 'd': 'float64'}
    for op in ('addc', 'subc', 'mulc', 'divc'):
        yield op, [(2, 3)], {'c': A}, 'pm'
        yield op, [(2, 3)], {'c': 1.5}, 'pm'
    for op in ('cadd', 'csub', 'cmul', 'cdiv'):
        yield op, [(2, )], {'c': 1.5}, 'pm'
    for c in (2, 3, -1, 0.5, 0, 1):
        yield 'pow', [(3, )], {'c': c}, 'pos'
    yield 'pow', [(2, 3)], {'c': {'a': [[2., 1.5, 3.], [0.5, 1., 2.]], 'd': 'float64'}}, 'pos'
    yield 'neg', [(2, )], {}, 'pm'
    for p in ({}, {'axes': [0]}, {'axes': [1]}):
        yield 'sum', [(2, 3)], p, 'pm'
        yield 'sum', [(2, 3), (2, 3)], p, 'pm'
        yield 'average', [(2, 3)], p, 'pm'
        yield 'average', [(2, 3), (2, 3)], p, 'pm'
    yield 'sum', [(2, 3, 2)], {'axes': [0, 2]}, 'pm'
    yield 'average', [(2, 3, 2)], {'axes': [0, 2]}, 'pm'
    for p in ({'p': 2}, {'p': 4}, {'p': 2, 'axis': [0]}, {'p': 6, 'axis': [1]}):
        yield 'pnorm', [(2, 3)], p, 'pos'
    for f in ('max', 'min'):
        for p in ({}, {'axis': 0}, {'axis': 1}, {'rho': 5.}, {'axis': 1, 'rho': 3.}):
            yield f, [(2, 3)], p, 'pm'
        yield f, [(2, 3), (2, 3)], {}, 'pm'
        yield f, [(3, ), (3, ), (3, )], {'rho': 4.}, 'pm'
    for ax in 'xyz':
        yield 'rotmat', [(1, )], {'axis': ax}, 'pm'
        yield 'rotmat', [(2, )], {'axis': ax}, 'pm'
    yield 'cross', [(2, 3), (2, 3)], {'axis': 1}, 'pm'
    yield 'cross', [(3, ), (3, )], {'axis': 0}, 'pm'
    yield 'dot', [(3, ), (3, )], {}, 'pm'
    yield 'dot', [(2, 3), (2, 3)], {'axis': 1}, 'pm'
    yield 'inner', [(3, ), (3, )], {}, 'pm'
    yield 'inner', [(2, 3), (3, 2)], {'axes': [[1], [0]]}, 'pm'
    yield 'outer', [(2, ), (3, )], {}, 'pm'
    yield 'outer', [(2, 2), (3, )], {}, 'pm'
    yield 'matmat', [(2, 3), (3, 2)], {}, 'pm'
    yield 'matvec', [(2, 3), (3, )], {}, 'pm'
    yield 'transpose', [(2, 3)], {}, 'pm'
    yield 'reorder_axes', [(2, 3, 2)], {'op': 'ijk->kij'}, 'pm'
    yield 'reshape', [(2, 3)], {'shape': [3, 2]}, 'pm'
    yield 'expand', [(1, )], {'shape': [2, 3]}, 'pm'
    yield 'expand', [(2, )], {'shape': [2, 3], 'indices': 'i->ij'}, 'pm'
    for f in ('dense', 'sparse'):
        yield 'einsum', [(2, 3), (3, 2)], {'s': 'ij,jk->ik', 'f': f}, 'pm'
        yield 'einsum', [(2, 3)], {'s': 'ij->j', 'f': f}, 'pm'
        yield 'einsum_new', [(2, 3), (3, )], {'o': [[0, 1], [1], [0]], 'f': f}, 'pm'
    yield 'if_else', [(1, ), (2, ), (2, )], {}, 'pm'
    yield 'idx', [(2, 3)], {'k': ['t', 0, ['s', 0, 2, None]]}, 'pm'
    yield 'idx', [(4, )], {'k': ['s', 1, 4, 2]}, 'pm'
    yield 'idx', [(4, )], {'k': 2}, 'pm'


HARD = ('max', 'min', 'pnorm', 'if_else', 'mulc', 'pow', 'idx', 'rotmat')


def stories():
    S = [2]
    base = [['in', 'x', 'x', S]]
    yield base + [['out', 'y', 'y', [4]], ['op', 's', 'sin', ['x'], {}], ['set', 'y', ['s', 0, 2, None], 's'],
                  ['op', 'c', 'cos', ['x'], {}], ['set', 'y', ['s', 2, 4, None], 'c']]
    for k in ('cls', 'pre', 'with'):
        yield base + [['op', 's', 'sin', ['x'], {}], ['reg', 's', 's'],
                      ['sub', 'k', k, [['in', 's', 's', S], ['op', 'q', 'mul', ['s', 's'], {}], ['reg', 'q', 'q']]],
                      ['in', 'q', 'q', S], ['op', 'r', 'sub', ['q', 'x'], {}], ['reg', 'r', 'r']]
    yield base + [['sub', 'k', 'exec', [['q', S, [[1.5, 'x']]]]], ['in', 'q', 'q', S], ['op', 'r', 'mul', ['q', 'x'], {}], ['reg', 'r', 'r']]
    yield [['ind', 'p', 'p', S]] + base + [['op', 'r', 'mul', ['p', 'x'], {}], ['reg', 'r', 'r']]
    for sv in ('bgs+direct', 'newton+direct', 'bgs+lbgs'):
        yield [['solver', sv], ['in', 'a', 'a', S], ['out', 'y', 'y', S], ['op', 'e', 'sin', ['y'], {}], ['op', 'f', 'mulc', ['e'], {'c': 0.3}],
               ['op', 'g', 'add', ['f', 'a'], {}], ['def', 'y', 'g'], ['op', 'h', 'mul', ['y', 'a'], {}], ['reg', 'h', 'h']]


def imps():
    S = [2]
    head = [['in', 'a', S, None], ['in', 'b', S, None], ['out', 'x', S, None], ['out', 'y', S, None]]
    r1 = [['op', 'p0', 'mulc', ['x'], {'c': 2.5}], ['op', 'p1', 'sin', ['y'], {}], ['op', 'p2', 'mul', ['p1', 'b'], {}],
          ['op', 'p3', 'add', ['p0', 'p2'], {}], ['op', 'p', 'sub', ['p3', 'a'], {}]]
    r2 = [['op', 'q0', 'mulc', ['y'], {'c': 3.}], ['op', 'q1', 'cos', ['x'], {}], ['op', 'q', 'sub', ['q0', 'q1'], {}]]
    for sv in ('own-direct', 'own-krylov', 'outer-direct', 'outer-once'):
        yield {'steps': head + r1 + r2 + [['res', 'x', 'p'], ['res', 'y', 'q']], 'solv': sv, 'host': 'om'}
    for m, n in ((5, 2), (2, 4)):
        st = [['in', 'a%d' % j, S, None] for j in range(m)] + [['out', 'x%d' % i, S, None] for i in range(n)]
        for i in range(n):
            st += [['op', 'e%d' % i, 'sin', ['x%d' % ((i + 1) % n)], {}], ['op', 'c%d' % i, 'mulc', ['x%d' % i], {'c': 2.5 + i}],
                   ['op', 'r%d_' % i, 'add', ['e%d' % i, 'c%d' % i], {}]]
            for j in range(m):
                st.append(['op', 'r%d_%s' % (i, 'a' * (j + 1)), 'sub' if j % 2 else 'add', ['r%d_%s' % (i, 'a' * j), 'a%d' % j], {}])
            st.append(['res', 'x%d' % i, 'r%d_%s' % (i, 'a' * m)])
        yield {'steps': st, 'solv': 'own-direct', 'host': 'om'}
    for h in ('ot', 'child'):
        yield {'steps': head + r1 + r2 + [['res', 'x', 'p'], ['res', 'y', 'q']], 'solv': 'own-direct', 'host': h}
    for kind in ('with', 'make', 'cls', 'exec'):
        st = [['in', 'a', S, None], ['out', 'x', S, None], ['child', 'k', kind, ['a', 'x'], [0.4, 0.3]],
              ['op', 'c', 'mulc', ['x'], {'c': 2.}], ['op', 'd', 'add', ['c', 'k'], {}], ['op', 'r', 'sub', ['d', 'a'], {}]]
        yield {'steps': st + [['res', 'x', 'r']], 'solv': 'own-direct', 'host': 'om'}
        yield {'steps': st + [['resb', 'x', 'r', -1., 4.]], 'solv': 'brk-once', 'host': 'ot'}
    yield {'steps': [['in', 'a', S, None], ['out', 'x', S, 3.], ['op', 'c', 'pow', ['x'], {'c': 3}], ['op', 'r', 'sub', ['c', 'a'], {}],
                     ['resb', 'x', 'r', [0., 4.], [5., -1.]]], 'solv': 'brk-direct', 'host': 'om'}


def models():
    for op, shapes, params, dom in ops():
        pts = [[dom, 0], [dom, 1]]
        for kinds in (['in'], ['std']):
            c = gen.op_case(op, shapes, params, kinds * len(shapes), 'both', pts, None)
            if prog.well_posed(c):
                yield 'prog', c, op in HARD and kinds == ['in']
            else:
                c = gen.op_case(op, shapes, params, ['in'] * len(shapes), 'reg', pts, None)
                if kinds == ['in'] and prog.well_posed(c):
                    yield 'prog', c, op in HARD
    for st in stories():
        yield 'story', {'story': st, 'pts': [['u', 0], ['u', 1]]}, True
    for c in imps():
        yield 'imp', dict(c, pts=[['u', 0], ['pos', 1]]), False


def words(alpha, n):
    """A.w for every w of length exactly n without a pointless repetition of R or S; shorter ones are prefixes"""
    for w in itertools.product(alpha, repeat=n):
        s = 'A' + ''.join(w)
        if 'AA' in s or 'RR' in s or 'SS' in s or 'CC' in s or 'NN' in s or 'BB' in s:
            continue
        yield s + ('T' if s[-1] != 'T' else '')


def more_imps():
    """other components with the same variables"""
    for S in ([2], [3], [1]):
        for op, c, kind in (('sin', 2.5, 'res'), ('cos', -3., 'res'), ('exp', 4., 'resb'), ('neg', 3., 'resb')):
            st = [['in', 'a', S, None], ['out', 'x', S, None], ['op', 'e', op, ['a'], {}], ['op', 'd', 'mulc', ['x'], {'c': c}], ['op', 'r', 'sub', ['d', 'e'], {}]]
            yield {'steps': st + [['res', 'x', 'r'] if kind == 'res' else ['resb', 'x', 'r', -1.5, 4.] if op == 'exp' else ['resb', 'x', 'r', 3., -6.]],
                   'solv': 'own-direct' if kind == 'res' else 'brk-direct', 'host': 'om', 'pts': [['u', 0], ['pos', 1]]}
    for S in ([2], [3]):
        st = [['in', 'a', S, None], ['in', 'b', S, None], ['out', 'x', S, None], ['out', 'y', S, None], ['op', 'c', 'mulc', ['x'], {'c': 3.}],
              ['op', 'd', 'mul', ['a', 'b'], {}], ['op', 'r', 'sub', ['c', 'd'], {}], ['op', 's0', 'mulc', ['y'], {'c': 2.}], ['op', 's', 'sub', ['s0', 'x'], {}]]
        yield {'steps': st + [['res', 'y', 's'], ['res', 'x', 'r']], 'solv': 'own-direct', 'host': 'om', 'pts': [['u', 0], ['pos', 1]]}
        yield {'steps': st + [['resb', 'y', 's', -9., 9.], ['resb', 'x', 'r', 9., -7.]], 'solv': 'brk-direct', 'host': 'om', 'pts': [['u', 0], ['pos', 1]]}


def ticks(c):
    """number of building steps"""
    if 'story' in c:
        return sum(1 + (ticks({'story': s[3]}) if s[0] == 'sub' and s[2] in ('cls', 'pre', 'with') else 0) for s in c['story'])
    return len(c['steps']) if 'steps' in c else len(c['ins']) + len(c['ops'])


def recast(tier):
    """one group or component, set up as different models in turn"""
    ms = [(k, c) for k, c, _ in models()]
    groups = [(k, c) for k, c in ms if k != 'imp']
    comps = [(k, c) for k, c in ms if k == 'imp' and c.get('host', 'om') == 'om' or k == 'imp' and c['solv'][:3] == 'brk']
    comps = [(k, dict(c, host='om')) for k, c in comps] + [('imp', c) for c in more_imps()]
    i = 0
    # components keep the names of their variables (OpenMDAO does not forget what they declared before)
    face = lambda c: sorted([s[0], s[1]] for s in c['steps'] if s[0] in ('in', 'out'))
    for pool, steps in ((groups, (1, 7, 40) if tier == 'quick' else (1, 2, 3, 5, 7, 11, 23, 40, 80, 119)), (comps, range(len(comps)))):
        hard = [m for m in pool if m[0] != 'prog']
        for a in range(len(pool)):
            for k in steps:
                i += 1
                b = (a + k) % len(pool)
                if pool is comps and face(pool[a][1]) != face(pool[b][1]):
                    continue
                for seq in ([0, 1, 0], ) if tier == 'quick' else ([0, 1, 0], [0, 1, 1, 0, 1]):
                    yield {'recast': [pool[a], pool[b]], 'seq': seq, 'mode': ('fwd', 'rev')[i // 5 % 2], 'host': i % 5}
        if pool is groups:
            for a, b in itertools.permutations(hard, 2):
                i += 1
                yield {'recast': [a, b], 'seq': [0, 1, 0], 'mode': ('fwd', 'rev')[i // 5 % 2], 'host': i % 5}
        # setups that fail part of the way, and are put right
        for a in range(len(pool)):
            for b in ((a, ) if tier == 'quick' else (a, (a + 7) % len(pool))):
                if pool is comps and face(pool[a][1]) != face(pool[b][1]):
                    continue
                c = pool[a][1]
                m = ticks(c)
                bads = ['ill', 'dup'] + list(range(1, m + 1)) if pool is groups and (tier != 'quick' or pool[a][0] != 'prog') else \
                    list(range(1, m + 1)) if pool is comps else [('ill', 'dup', 1 + a % m, m)[a % 4]]
                for q, bad in enumerate(bads):
                    i += 1
                    for seq in ([[bad, 0], 1], [1, [bad, 0], 1]) if tier != 'quick' else ([[bad, 0], 1], ) if (a + q) % 3 else ([1, [bad, 0], 1], ):
                        yield {'recast': [pool[a], pool[b]], 'seq': seq, 'mode': ('fwd', 'rev')[i // 5 % 2], 'host': i % 5}
        if pool is comps:
            continue
        for a in range(0, len(pool), 5 if tier == 'quick' else 1):
            i += 1
            yield {'recast': [pool[a], pool[(a + 3) % len(pool)], pool[(a + 11) % len(pool)]], 'seq': [2, 0, 1, 2], 'mode': ('fwd', 'rev')[i // 5 % 2], 'host': i % 5}


def more_stories():
    """child systems and assembled outputs whose statements may be split in any way"""
    S = [2]
    x = [['in', 'x', 'x', S]]
    yield x + [['op', 'a', 'sin', ['x'], {}], ['op', 'b', 'mul', ['a', 'x'], {}], ['reg', 'b', 'b'], ['op', 'c', 'cos', ['b'], {}], ['reg', 'c', 'c']]
    yield x + [['op', 'a', 'sin', ['x'], {}], ['reg', 'a', 'a'], ['op', 'b', 'exp', ['a'], {}], ['reg', 'b', 'b'],
               ['op', 'c', 'mul', ['a', 'b'], {}], ['reg', 'c', 'c'], ['op', 'd', 'add', ['c', 'a'], {}], ['reg', 'd', 'd']]
    yield [['ind', 'p', 'p', S], ['op', 'a', 'sin', ['p'], {}], ['reg', 'a', 'a'], ['ind', 'q', 'q', S], ['op', 'b', 'mul', ['a', 'q'], {}],
           ['reg', 'b', 'b'], ['op', 'c', 'idx', ['b'], {'k': 1}], ['reg', 'c', 'c']]
    yield x + [['op', 'a', 'neg', ['x'], {}], ['reg', 'a', 'a'], ['sub', 'k', 'exec', [['q', S, [[1.5, 'x']]]]], ['in', 'q', 'q', S],
               ['op', 'b', 'mul', ['q', 'a'], {}], ['reg', 'b', 'b'],
               ['sub', 'l', 'exec', [['r', S, [[2., 'b']]]]], ['in', 'r', 'r', S], ['op', 'c', 'sub', ['r', 'q'], {}], ['reg', 'c', 'c']]
    # an output filled in with the results of children added later
    yield x + [['op', 'a', 'neg', ['x'], {}], ['reg', 'a', 'a'], ['out', 'y', 'y', [4]], ['sub', 'k', 'exec', [['q', S, [[1.5, 'x']]]]], ['in', 'q', 'q', S],
               ['set', 'y', ['s', 0, 2, None], 'q'], ['sub', 'l', 'exec', [['r', S, [[2., 'q']]]]], ['in', 'r', 'r', S],
               ['set', 'y', ['s', 2, 4, None], 'r'], ['op', 'c', 'sin', ['y'], {}], ['reg', 'c', 'c']]
    for k1, k2 in (('cls', 'pre'), ('with', 'cls'), ('pre', 'with')):
        yield x + [['sub', 'k', k1, [['in', 'x', 'x', S], ['op', 'q', 'sin', ['x'], {}], ['reg', 'q', 'q']]], ['in', 'q', 'q', S],
                   ['op', 'b', 'mul', ['q', 'x'], {}], ['reg', 'b', 'b'],
                   ['sub', 'l', k2, [['in', 'b', 'b', S], ['op', 'r', 'exp', ['b'], {}], ['reg', 'r', 'r']]], ['in', 'r', 'r', S],
                   ['op', 'c', 'sub', ['r', 'q'], {}], ['reg', 'c', 'c']]


def given(tier):
    """statements executed before the problem is set up, and between its setups"""
    i = 0
    for st in list(stories()) + list(more_stories()):
        outs = {s[1]: j for j, s in enumerate(st) if s[0] == 'out'}
        # an output is created and filled in by the same party
        spans = [(outs[s[1]], j) for j, s in enumerate(st) if s[0] in ('set', 'def')]
        ok = [k for k in range(len(st) + 1) if not any(a < k <= b for a, b in spans)]
        shown = [j for j, s in enumerate(st) if s[0] in ('reg', 'out', 'sub', 'ind')]
        for k in ok:
            for host in (0, 1, 2):
                i += 1
                for mode in ('fwd', 'rev') if tier != 'quick' else (('fwd', 'rev')[i % 2], ):
                    yield {'given': st, 'cut': k, 'times': 2 if tier == 'quick' else 4, 'host': host, 'mode': mode, 'pts': [['u', 0], ['u', 1]]}
        live = [k for k in ok if shown and k > shown[0]]
        for k in live:
            for host in (0, 1, 2):
                i += 1
                m = ('fwd', 'rev')[i % 2]
                yield {'given': st, 'cut': k, 'grow': [k, len(st), len(st)], 'host': host, 'mode': m, 'pts': [['u', 0], ['u', 1]]}
                for l in live:
                    if l > k and tier != 'quick':
                        yield {'given': st, 'cut': k, 'grow': [k, k, l, len(st), len(st)], 'host': host, 'mode': m, 'pts': [['u', 0], ['u', 1]]}


def cases(tier):
    yield from recast(tier)
    yield from given(tier)
    i = 0
    for kind, c, hard in models():
        n = 2 if tier == 'quick' else 3
        # a solver restarts from where it stopped, so the models with one are not run on nan inputs
        solver = kind == 'imp' or kind == 'story' and c['story'][0][0] == 'solver'
        alpha = 'ABRTCS' if solver else 'ABRTCSN'
        if hard and kind == 'prog':
            n += 1
        ws = list(words(alpha, n))
        # one representative kind of operand gets the longer histories
        for w in ws:
            i += 1
            yield {'model': [kind, c], 'hist': w, 'mode': ('fwd', 'rev')[i % 2]}


run = history.run
path = history.path
