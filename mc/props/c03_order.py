"""one pass over the model, in the order the Group chose, is enough"""
import itertools

from mc import drive, gen, prog, story
from mc.props import c06_subsystems as C06

ID = 'C03'
COEF = [1.5, -0.75, 2.25, 0.5, -1.25, 1.75, -0.5, 0.875]


def bounds(tier):
    return ('every DAG of k nodes (node = non-empty subset of the inputs and earlier nodes): k<=%d over one input, k<=%d over two; '
            '5 registration disciplines (all at once in/against order, immediately, sinks only, mixed) x both branch orders x '
            'input kind {declared, independent, mixed}; one execution pass from initial values, then a second point; '
            'a value with up to %d users that use it in 6 patterns together with what it is computed from; operations of 3-6 operands over chains of every combination of lengths 0..3; '
            'outputs of the group used by name, in every order of the statements, around child systems; graphs with element extraction and subsets of repeated use in between'
            % ((5, 3, 40) if tier == 'quick' else (6, 4, 140)))


def subsets(n, cap=None):
    for r in range(1, n + 1):
        if cap and r > cap:
            break
        yield from itertools.combinations(range(n), r)


def dags(k, n0, cap=None):
    yield from itertools.product(*[list(subsets(n0 + i, cap)) for i in range(k)])


def node(i, pred, shape):
    if len(pred) == 1:
        return ['mulc', list(pred), {'c': COEF[i % len(COEF)]}]
    if len(pred) == 2:
        return ['sub', list(pred[::-1] if i % 2 else pred), {}]
    return ['sum', list(pred), {}]


def sinks(dag, n0):
    used = set(j for p in dag for j in p)
    return [i for i in range(len(dag)) if n0 + i not in used]


def build(dag, n0, disc, kind, rev, shape=(2, ), pts=(['pm', 0], ['u', 1])):
    k = len(dag)
    kinds = {'in': ['in'] * n0, 'ind': ['indep'] * n0, 'mix': (['indep', 'in'] * n0)[:n0]}[kind]
    ins = [['x%d' % i, list(shape), kinds[i], None] for i in range(n0)]
    ops = [node(i, p, shape) for i, p in enumerate(dag)]
    sk = sinks(dag, n0)
    if disc == 0:
        outs = [['v%d' % i, n0 + i, 'end'] for i in range(k)]
    elif disc == 1:
        outs = [['v%d' % i, n0 + i, 'now'] for i in range(k)]
    elif disc == 2:
        outs = [['v%d' % i, n0 + i, 'end'] for i in reversed(range(k))]
    elif disc == 3:
        outs = [['v%d' % i, n0 + i, 'end'] for i in sk]
    else:
        outs = [['v%d' % i, n0 + i, 'now' if i % 2 else 'end'] for i in range(k) if i in sk or i % 2 == 0]
    c = gen.case(ins, ops, outs, [list(p) for p in pts], None)
    if rev:
        c['rev'] = True
    return c


def star(lens, op, fan, rev, disc, kind):
    """chains of the given lengths, all from one input (or one each), joined by one operation of many operands"""
    m = len(lens)
    n0 = m if fan else 1
    ins = [['x%d' % i, [2], kind, None] for i in range(n0)]
    ops, tips = [], []
    for b, n in enumerate(lens):
        at = b if fan else 0
        for j in range(n):
            ops.append([('sin', 'mulc', 'tanh', 'cos', 'mulc')[(b + j) % 5], [at], {'c': COEF[b]} if (b + j) % 5 in (1, 4) else {}])
            at = n0 + len(ops) - 1
        tips.append(at)
    ops.append([op, tips, {}])
    end = n0 + len(ops) - 1
    ops.append(['mul', [end, tips[0]], {}])
    outs = [['f', end + 1, 'end']]
    if disc == 1:
        outs = [['v%d' % t, t, 'now'] for t in tips if t >= n0] + outs
    elif disc == 2:
        outs += [['v%d' % t, t, 'end'] for t in reversed(tips) if t >= n0] + [['e', end, 'end']]
    c = gen.case(ins, ops, outs, [['pm', 0], ['u', 1]], None)
    if rev:
        c['rev'] = True
    return c


def stars(tier):
    n = 0
    for m, ls in ((3, (0, 1, 2, 3)), (4, (0, 1, 2, 3)), (5, (0, 1, 2, 3)), (6, (1, 2, 3))):
        lens = itertools.product(ls, repeat=m) if m < 5 else itertools.combinations_with_replacement(ls, m)
        for l in lens:
            if l.count(0) > 1:
                continue
            for rev in (0, 1):
                n += 1
                for op in ('sum', 'max') if tier != 'quick' else (('sum', 'max', 'average')[n // 2 % 3], ):
                    for fan in (0, 1) if tier != 'quick' else (n // 6 % 2, ):
                        yield star(l, op, fan, rev, (n // 2) % 3, ('in', 'indep')[n // 4 % 2])


def wide(n, length, hub, pat, disc, rev, kind, extra):
    """one value with n users, and users of what it is computed from"""
    ins = [['x0', [2], kind, None]]
    ops = []
    for j in range(length):
        ops.append([('sin', 'cos', 'tanh')[j % 3], [len(ops)], {}])
    h = min(hub, length)
    tips = []
    for i in range(n):
        other = {'hub': None, 'in': 0, 'first': 1, 'alt': (None, 0, 1)[i % 3], 'prev': tips[-1] if tips else 0, 'end': length}[pat]
        if other is None or other == h:
            ops.append(['mulc', [h], {'c': COEF[i % 8]}])
        else:
            ops.append(['sub', [h, other] if i % 2 else [other, h], {}])
        tips.append(len(ops))
    if extra & 1:
        ops.append(['exp', [1], {}])
        tips.append(len(ops))
    if extra & 2:
        ops.append(['sum', [1, tips[0], tips[-1]], {}])
        tips.append(len(ops))
    outs = [['v%d' % t, t, ('end', 'now', 'end')[disc % 3]] for t in tips]
    if disc == 2:
        outs = outs[::-1]
    if disc == 3:
        outs = [o for o in outs if (o[1] - length) % 2] + [o for o in outs if (o[1] - length) % 2 == 0] + [['a', h, 'end']]
    c = gen.case(ins, ops, outs, [['pm', 0], ['u', 1]], None)
    if rev:
        c['rev'] = True
    return c


def wides(tier):
    k = 0
    for n in (9, 13, 17, 25, 40) if tier == 'quick' else (9, 13, 17, 25, 40, 70, 140):
        for length in (1, 2, 3):
            for hub in range(1, length + 1):
                for pat in ('hub', 'in', 'first', 'alt', 'prev', 'end'):
                    for disc in range(4):
                        for rev in (0, 1):
                            k += 1
                            for extra in ((k // 2 % 4, ) if tier == 'quick' and n > 9 else range(4)):
                                yield wide(n, length, hub, pat, disc, rev, ('in', 'indep')[k // 4 % 2], extra)


def named(tier):
    """outputs of the group that are used by name, through inputs declared earlier or later"""
    S = [2]
    J = (None, 'fwd', 'rev')
    n = 0
    for kind, own, child in itertools.product(('reg', 'asm', 'ind'), range(4), (0, 1, 2)):
        need = {'A': '', 'a': '', 'B': 'a', 'C': ('ab' if own & 1 else 'aB') + ('' if own & 2 else 'A')}
        if own & 1:
            need['b'] = ''
        if child:
            need['S'] = ''
            if child == 2:
                # the first result is computed from that of the child system
                need['A'] = 'S'
                if kind == 'ind':
                    continue
        for order in C06.extensions(need):
            n += 1
            st = [['rev']] if n % 2 else []
            st.append(['in', 'x', 'x', S])
            src = 'so' if child == 2 else 'x'
            for c in order:
                if c == 'A' and kind == 'reg':
                    st += [['op', 'ae', 'sin', [src], {}], ['op', 'af', 'mulc', ['ae'], {'c': 2.}], ['reg', 'a', 'af']]
                elif c == 'A' and kind == 'ind':
                    st.append(['ind', 'ai', 'a', S])
                elif c == 'A':
                    st += [['out', 'ao', 'a', S], ['op', 'ae', 'idx', [src], {'k': 1}], ['set', 'ao', ['s', 0, 1, None], 'ae'],
                           ['op', 'ag', 'idx', [src], {'k': 0}], ['op', 'ah', 'cos', ['ag'], {}], ['set', 'ao', ['s', 1, 2, None], 'ah']]
                elif c == 'a':
                    st.append(['in', 'va', 'a', S])
                elif c == 'B':
                    st += [['op', 'b', 'mul', ['va', 'x'], {}], ['reg', 'b', 'b']]
                elif c == 'b' and own & 1:
                    st.append(['in', 'vb', 'b', S])
                elif c == 'C':
                    other = 'va' if own & 2 else {'reg': 'af', 'asm': 'ao', 'ind': 'ai'}[kind]
                    st += [['op', 'c1', 'sub', ['vb' if own & 1 else 'b', other], {}], ['op', 'c', 'tanh', ['c1'], {}], ['reg', 'c', 'c']]
                elif c == 'S':
                    st += [['sub', 's', ('exec', 'omg')[n // 2 % 2], [['so', S, [[1.5, 'x']]]]], ['in', 'so', 'so', S]]
            if child:
                st += [['op', 'l', 'add', ['so', 'va'], {}], ['reg', 'l', 'l']]
            yield {'story': st, 'pts': [['pm', 0], ['u', 1]], 'jac': J[n % 3]}


def cases(tier):
    yield from named(tier)
    yield from stars(tier)
    yield from wides(tier)
    i = 0
    for n0, k in ([(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3)] if tier == 'quick' else
                  [(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (2, 1), (2, 2), (2, 3), (3, 2)]):
        for d in dags(k, n0):
            for disc in range(5):
                for rev in (0, 1):
                    for kind in ('in', 'ind') if n0 == 1 else ('in', 'ind', 'mix'):
                        i += 1
                        if tier == 'quick' and k + n0 == 5 and i % 3:
                            continue
                        yield build(d, n0, disc, kind, rev)
    if tier == 'quick':
        for i, d in enumerate(dags(5, 1)):
            yield build(d, 1, i % 5, ('in', 'ind')[(i // 5) % 2], (i // 10) % 2)
    else:
        for i, d in enumerate(dags(4, 2)):
            yield build(d, 2, i % 5, ('in', 'ind', 'mix')[(i // 5) % 3], (i // 15) % 2)
            yield build(d, 2, (i + 2) % 5, ('in', 'ind', 'mix')[(i // 5 + 1) % 3], (i // 15 + 1) % 2)
        for i, d in enumerate(dags(6, 1, 2)):
            if len(sinks(d, 1)) <= 2:
                yield build(d, 1, i % 5, ('in', 'ind')[(i // 5) % 2], (i // 10) % 2)


def run(case):
    return story.run(case) if 'story' in case else prog.run_value_case(case)


def path(case):
    return story.path(case) if 'story' in case else drive.default_path(case)
