"""outputs defined in terms of themselves or of each other converge to the fixed point"""
import itertools

from mc import gen, memory, pairs, prog, story
from mc.props import c03_order as D
from mc.props import c06_subsystems as C06

ID = 'C08'
UN = (('sin', {}), ('cos', {}), ('neg', {}), ('pow', {'c': 2}), ('mulc', {'c': 0.4}))
BI = ('add', 'sub', 'mul')
SH = ([1], [2])
SOLV = ('bgs+direct', 'newton+direct', 'bgs+lbgs', 'bgs+krylov')
PTS = [['u', 0], ['u', 1]]


def bounds(tier):
    return ('x := 0.3*e(x, a) + 0.2*a for every expression e of <= %d operations that uses x (contractive ones, decided by the '
            'reference); pairs and rings of coupled outputs x := f(y, a), y := g(x, a); used downstream {not, after, before '
            'the definition, sharing a sub-expression}; solvers %s; in the group itself or in a child; rings of up to eight, loops in a row, through and around child systems, mixing entries, through outputs that are other outputs unchanged or assembled from them; loops closed by assigning to elements, of one output, of two, along with defined outputs and around child systems, in every order of the statements; up to 12 entries; every second operation of the whole catalogue within a loop, also as an output of the loop; two memory placements'
            % ((2 if tier == 'quick' else 3), list(SOLV)))


def exprs(depth, n0=2):
    """op lists over nodes 0 = x, 1 = a; last node used, x used"""
    def rec(ops):
        if len(ops) == depth:
            yield list(ops)
            return
        n = n0 + len(ops)
        for op, p in UN:
            for i in range(n):
                ops.append([op, [i], p])
                yield from rec(ops)
                ops.pop()
        for op in BI:
            for i, j in itertools.product(range(n), repeat=2):
                if i == j or (op != 'sub' and i > j):
                    continue
                ops.append([op, [i, j], {}])
                yield from rec(ops)
                ops.pop()

    for ops in rec([]):
        used = set()
        st = [n0 + depth - 1]
        while st:
            j = st.pop()
            if j not in used:
                used.add(j)
                if j >= n0:
                    st += ops[j - n0][1]
        if 0 in used and all(n0 + i in used for i in range(depth)):
            yield ops


def body(ops, shape, x, a, pre):
    """steps computing 0.3*e(x, a) + 0.2*a into <pre>r"""
    names = [x, a]
    st = []
    for i, (op, args, p) in enumerate(ops):
        v = '%se%d' % (pre, i)
        st.append(['op', v, op, [names[j] for j in args], p])
        names.append(v)
    st += [['op', pre + 's', 'mulc', [names[-1]], {'c': 0.3}], ['op', pre + 'q', 'mulc', [a], {'c': 0.2}],
           ['op', pre + 'r', 'add', [pre + 's', pre + 'q'], {}]]
    return st


def single(ops, shape, solver, use, where, mem, kind='in'):
    """use: downstream consumers of x"""
    st = [[kind, 'a', 'a', shape], ['out', 'x', 'x', shape]]
    if use == 'before':
        st.append(['op', 'd', 'mulc', ['x'], {'c': 2.}])
    st += body(ops, shape, 'x', 'a', 'g')
    if use == 'shared':
        # the sub-expression e0 is registered as well
        st.append(['reg', 'd', 'ge0'])
    if use == 'regdef':
        st.append(['reg', 'd', 'gr'])
    st.append(['def', 'x', 'gr'])
    if use == 'after':
        st.append(['op', 'd', 'add', ['x', 'a'], {}])
    if use in ('after', 'before'):
        st.append(['reg', 'd', 'd'])
    return wrap(st, solver, where, mem, [['x', shape]])


def wrap(st, solver, where, mem, names):
    if where == 'top':
        full = [['solver', solver]] + st
    else:
        full = [['sub', 'c', where, [['solver', solver]] + st]]
        for n, s in names:
            full += [['in', 'p' + n, n, s], ['op', 'z' + n, 'mulc', ['p' + n], {'c': 3.}], ['reg', 'z' + n, 'z' + n]]
    return {'story': full, 'pts': PTS, 'jac': 'fwd' if mem else 'rev', 'm': mem}


def converges(case):
    st = case['story']
    ext = story.externals(st)
    for pt in case['pts']:
        try:
            s, _ = story.solve(st, story.values(ext, pt), iters=120)
        except story.Diverges:
            return False
    return True


def coupled(fs, shape, solver, where, mem, order):
    """ring of outputs: output i := 0.3*f_i(output i+1, a) + 0.2*a"""
    n = len(fs)
    st = [['in', 'a', 'a', shape]]
    names = ['x%d' % i for i in range(n)]
    if order == 'first':
        st += [['out', v, v, shape] for v in names]
    for i in range(n) if order != 'rev' else reversed(range(n)):
        nx = names[(i + 1) % n]
        for v in (names[i], nx):
            if not any(s[0] == 'out' and s[1] == v for s in st):
                st.append(['out', v, v, shape])
        st += body(fs[i], shape, nx, 'a', 'g%d' % i)
        st.append(['def', names[i], 'g%dr' % i])
    st += [['op', 'd', 'sub', [names[0], names[-1]], {}], ['reg', 'd', 'd']]
    return wrap(st, solver, where, mem, [[v, shape] for v in names])


def both(f, g, shape, solver, where, mem):
    """x := .3 f(x, y) + .2 a ; y := .3 g(y, x) + .2 a"""
    st = [['in', 'a', 'a', shape], ['out', 'x', 'x', shape], ['out', 'y', 'y', shape]]
    for u, v, e, pre in (('x', 'y', f, 'g'), ('y', 'x', g, 'h')):
        b = body(e, shape, u, v, pre)
        b[-2] = ['op', pre + 'q', 'mulc', ['a'], {'c': 0.2}]
        st += b + [['def', u, pre + 'r']]
    st += [['op', 'd', 'mul', ['x', 'y'], {}], ['reg', 'd', 'd']]
    return wrap(st, solver, where, mem, [['x', shape], ['y', shape]])


def cases(tier):
    n = 0
    for depth in (1, 2) if tier == 'quick' else (1, 2, 3):
        for ops in exprs(depth):
            n += 1
            for ui, use in enumerate(('no', 'after', 'before', 'shared', 'regdef')):
                for si, solver in enumerate(SOLV):
                    if depth > 1 and (n + ui + si) % (3 if tier == 'quick' else 3 if depth == 2 else 11):
                        continue
                    where = ('top', 'pre', 'cls')[(n + ui + 2 * si) % 3]
                    if use in ('shared', ) and ops[0][1] == [1]:
                        continue
                    c = single(ops, SH[(n + si) % 2], solver, use, where, (n + ui) % 2, ('in', 'ind')[(n // 2) % 2])
                    if converges(c):
                        yield c
    f1 = [o for o in exprs(1)]
    f2 = [o for o in exprs(2)]
    for i, (f, g) in enumerate(itertools.product(f1, repeat=2)):
        for j, order in enumerate(('first', 'lazy', 'rev')):
            c = coupled([f, g], SH[i % 2], SOLV[(i + j) % 4], ('top', 'pre', 'cls')[(i + j) % 3], (i // 2 + j) % 2, order)
            if converges(c):
                yield c
        c = both(f, g, SH[i % 2], SOLV[i % 4], ('top', 'cls')[i % 2], (i // 2) % 2)
        if converges(c):
            yield c
    for i, (f, g) in enumerate(itertools.product(f1, f2)):
        if tier == 'quick' and i % 4:
            continue
        c = both(f, g, SH[i % 2], SOLV[(i // 4) % 4], ('top', 'cls')[i // 4 % 2], (i // 8) % 2)
        if converges(c):
            yield c
    for i, fs in enumerate(itertools.product(f1, repeat=3)):
        if tier == 'quick' and i % 4:
            continue
        c = coupled(list(fs), SH[(i // 4) % 2], SOLV[(i // 4) % 4], 'top', (i // 8) % 2, ('first', 'lazy', 'rev')[(i // 4) % 3])
        if converges(c):
            yield c
    for c in large(tier, f1):
        if converges(c):
            yield c


def assembled(tier):
    """loops closed by assigning to elements: of the output itself, of each other, together with defined outputs, around child systems"""
    n = 0

    def term(v, src, f, k, arg):
        # v := 0.3 f(src[k]) + 0.2 arg
        return [['op', v + 'i', 'idx', [src], {'k': k}], ['op', v + 'f', f, [v + 'i'], {}], ['op', v + 's', 'mulc', [v + 'f'], {'c': 0.3}],
                ['op', v + 'q', 'mulc', [arg], {'c': 0.2}], ['op', v, 'add', [v + 's', v + 'q'], {}]]

    LO, HI = ['s', 0, 2, None], ['s', 2, 4, None]
    steps = {
        'Y': [['out', 'y', 'y', [4], 'loop']],
        'y': [['out', 'y', 'y', [4]]],
        'Z': [['out', 'z', 'z', [4], 'loop']],
        'z': [['out', 'z', 'z', [4]]],
        'x': [['out', 'x', 'x', [2], 'loop']],
    }
    for f, g in itertools.product(('sin', 'cos', 'neg'), ('cos', 'tanh')):
        kinds = {
            # elements from other elements, from all of them, and not at all
            'self': ({'O': '', 'P': 'O', 'Q': 'O'}, {'O': steps['Y'], 'P': term('p', 'y', f, HI, 'a') + [['set', 'y', LO, 'p']],
                                                     'Q': term('q', 'y', g, LO, 'a') + [['set', 'y', HI, 'q']]}),
            'own': ({'O': '', 'P': 'O', 'Q': 'O'}, {'O': steps['Y'], 'P': term('p', 'y', f, LO, 'a') + [['set', 'y', LO, 'p']],
                                                    'Q': term('q', 'y', g, HI, 'a') + [['set', 'y', HI, 'q']]}),
            'half': ({'O': '', 'P': 'O', 'Q': 'O'}, {'O': steps['Y'], 'P': term('p', 'y', f, HI, 'a') + [['set', 'y', LO, 'p']],
                                                     'Q': [['op', 'q', g, ['a'], {}], ['set', 'y', HI, 'q']]}),
            # of each other
            'pair': ({'O': '', 'Z': '', 'P': 'OZ', 'Q': 'O', 'R': 'OZ'},
                     {'O': steps['Y'], 'Z': steps['Z'], 'P': term('p', 'z', f, HI, 'a') + [['set', 'y', LO, 'p']],
                      'Q': [['op', 'q', g, ['a'], {}], ['set', 'y', HI, 'q']],
                      'R': [['op', 'rf', g, ['y'], {}], ['op', 'r', 'mulc', ['rf'], {'c': 0.4}], ['set', 'z', ['s', 0, 4, None], 'r']]}),
            # one assembled, one defined
            'mixed': ({'O': '', 'Z': '', 'P': 'OZ', 'R': 'OZ', 'T': 'Z'},
                      {'O': steps['y'], 'Z': steps['z'], 'P': [['op', 'pf', f, ['z'], {}], ['op', 'p', 'mulc', ['pf'], {'c': 0.3}], ['def', 'y', 'p']],
                       'R': term('r', 'y', g, HI, 'a') + [['set', 'z', LO, 'r']], 'T': [['op', 't', 'sin', ['a'], {}], ['set', 'z', HI, 't']]}),
            # around a child system which reads the output, or something computed from it
            'child': ({'O': '', 'S': 'O', 'P': 'OS', 'Q': 'O'},
                      {'O': steps['Y'], 'S': [['sub', 's', 'exec', [['so', [4], [[0.3, 'y']]]]], ['in', 'so', 'so', [4]]],
                       'P': term('p', 'so', f, HI, 'a') + [['set', 'y', LO, 'p']], 'Q': [['op', 'q', g, ['a'], {}], ['set', 'y', HI, 'q']]}),
            'outer': ({'O': '', 'H': 'O', 'S': 'H', 'P': 'S'},
                      {'O': steps['x'], 'H': [['op', 'h', g, ['x'], {}], ['reg', 'h', 'h']],
                       'S': [['sub', 's', 'cls', [['in', 'h', 'h', [2]], ['op', 'o', f, ['h'], {}], ['op', 'u', 'mulc', ['o'], {'c': 0.3}], ['reg', 'so', 'u']]],
                             ['in', 'so', 'so', [2]]],
                       'P': [['op', 'p', 'add', ['so', 'a'], {}], ['set', 'x', ['s', 0, 2, None], 'p']]}),
        }
        for kind, (need, what) in kinds.items():
            v = 'x' if kind == 'outer' else 'y'
            need = dict(need, D=need.get('D', 'O'))
            for order in C06.extensions(need):
                n += 1
                st = [['in', 'a', 'a', [2]]]
                for c in order:
                    st += what.get(c) or [['op', 'd', 'mulc', [v], {'c': 2.}], ['reg', 'd', 'd']]
                st = [list(t) for t in st]
                solvers = SOLV if tier != 'quick' else (SOLV[n % 4], )
                for sv in solvers:
                    names = [[s[2], s[3]] for s in st if s[0] == 'out']
                    yield wrap(st, sv, ('top', 'cls', 'pre')[n // 4 % 3], n % 2, names)


def large(tier, f1):
    """longer rings, loops in a row, loops through child systems and loops around loops, larger arrays"""
    i = 0
    SL = ([1], [2], [5], [2, 3], [12], [2, 1, 3])
    # rings
    for n in range(4, 9):
        for k in range(12 if tier == 'quick' else 60):
            i += 1
            fs = [f1[(k * 7 + j * (1 + k % 5)) % len(f1)] for j in range(n)]
            yield coupled(fs, SL[i % 4], SOLV[i // 2 % 4], ('top', 'pre', 'cls')[i % 3], i % 2, ('first', 'lazy', 'rev')[i // 3 % 3])
    # loops in a row, the second one reading the first one
    for f, g in itertools.product(f1, repeat=2):
        for gap in ('none', 'reg', 'child'):
            i += 1
            if tier == 'quick' and i % 2:
                continue
            s = SL[i // 2 % 6]
            st = [['in', 'a', 'a', s], ['out', 'x', 'x', s]] + body(f, s, 'x', 'a', 'g') + [['def', 'x', 'gr']]
            v = 'x'
            if gap == 'reg':
                st += [['op', 'u', 'sin', ['x'], {}], ['reg', 'u', 'u']]
                v = 'u'
            elif gap == 'child':
                st += [['sub', 'c', ('cls', 'pre', 'with')[i % 3], [['in', 'x', 'x', s], ['op', 'u', 'sin', ['x'], {}], ['reg', 'u', 'u']]],
                       ['in', 'w', 'u', s]]
                v = 'w'
            st += [['out', 'y', 'y', s]] + body(g, s, 'y', v, 'h') + [['def', 'y', 'hr'], ['op', 'd', 'mul', ['x', 'y'], {}], ['reg', 'd', 'd']]
            yield wrap(st, SOLV[i // 3 % 4], ('top', 'cls')[i % 2], i // 2 % 2, [['x', s], ['y', s]])
    # x := f(child(x)): the loop passes through one or two child systems
    for f, kind in itertools.product(f1, ('cls', 'pre', 'with', 'exec', 'omg', 'nest')):
        for two in (0, 1):
            i += 1
            s = SL[i % 6]
            st = [['in', 'a', 'a', s], ['out', 'x', 'x', s]]
            last = 'x'
            for k in range(1 + two):
                nm = 'z%d' % k
                if kind in ('exec', 'omg'):
                    inner = [[nm, s, [[0.4, last], [0.1, 'a']]]]
                else:
                    inner = [['in', 'p', last, s], ['in', 'q', 'a', s], ['op', 'm', 'mulc', ['p'], {'c': 0.7}], ['op', 't', 'sin', ['m'], {}],
                             ['op', 'n', 'mulc', ['q'], {'c': 0.2}], ['op', 'r', 'add', ['t', 'n'], {}], ['reg', nm, 'r']]
                    if kind == 'nest':
                        inner = [['sub', 'deep', 'cls', inner]]
                st += [['sub', 'c%d' % k, 'cls' if kind == 'nest' else kind, inner], ['in', nm, nm, s]]
                last = nm
            st += body(f, s, last, 'a', 'g') + [['def', 'x', 'gr'], ['op', 'd', 'sin', ['x'], {}], ['reg', 'd', 'd']]
            yield wrap(st, SOLV[i // 2 % 4], ('top', 'cls')[i // 4 % 2], i % 2, [['x', s]])
    # a loop within a child, around which there is another loop
    for f, g in itertools.product(f1, repeat=2):
        i += 1
        if tier == 'quick' and i % 2:
            continue
        s = SL[i // 2 % 6]
        sv = SOLV[i // 2 % 2]
        st = [['in', 'a', 'a', s], ['out', 'x', 'x', s],
              ['sub', 'c', ('cls', 'pre')[i // 4 % 2], [['solver', sv], ['in', 'p', 'x', s], ['out', 'y', 'y', s]] + body(f, s, 'y', 'p', 'h') + [['def', 'y', 'hr']]],
              ['in', 'w', 'y', s]] + body(g, s, 'w', 'a', 'g') + [['def', 'x', 'gr'], ['op', 'd', 'mul', ['x', 'w'], {}], ['reg', 'd', 'd']]
        yield wrap(st, 'bgs+direct', 'top', i % 2, [['x', s]])
    # outputs that are, unchanged, other outputs of the loop, or put together from them
    for f, kind, place in itertools.product(f1, ('alias', 'alias2', 'piece', 'twice', 'nested', 'pair', 'aliasfirst'), ('top', 'cls', 'pre')):
        i += 1
        if tier == 'quick' and i % 2:
            continue
        s = [[2], [1], [4], [12]][i // 2 % 4]
        n = s[0]
        sl = lambda q: ['s', q * n, (q + 1) * n, None]
        st = [['in', 'a', 'a', s], ['out', 'x', 'x', s]]
        nm = [['x', s]]
        if kind in ('alias', 'alias2', 'aliasfirst'):
            if kind == 'aliasfirst':
                st[1:1] = [['out', 'y', 'y', s]]
            else:
                st += [['out', 'y', 'y', s]]
            last = 'y'
            st += [['def', 'y', 'x']]
            if kind == 'alias2':
                st += [['out', 'z', 'z', s], ['def', 'z', 'y']]
                last = 'z'
            st += body(f, s, last, 'a', 'g') + [['def', 'x', 'gr']]
            nm += [['y', s]]
        elif kind == 'pair':
            st += [['out', 'y', 'y', s], ['out', 'v', 'v', [2 * n]], ['set', 'v', sl(0), 'x'], ['set', 'v', sl(1), 'y'], ['op', 'v0', 'idx', ['v'], {'k': sl(0)}],
                   ['op', 'v1', 'idx', ['v'], {'k': sl(1)}]]
            st += body(f, s, 'v1', 'a', 'g') + [['def', 'x', 'gr']] + body(f1[i % len(f1)], s, 'v0', 'a', 'h') + [['def', 'y', 'hr']]
            nm += [['v', [2 * n]]]
        else:
            w = 'v'
            if kind == 'twice':
                st += [['op', 'b', 'mulc', ['x'], {'c': .5}]]
            st += [['out', 'v', 'v', [2 * n]], ['set', 'v', sl(0), 'x'], ['set', 'v', sl(1), 'b' if kind == 'twice' else 'a']]
            if kind == 'nested':
                st += [['out', 'w', 'w', [3 * n]], ['set', 'w', ['s', 0, 2 * n, None], 'v'], ['set', 'w', sl(2), 'x']]
                w = 'w'
            st += [['op', 'h', 'idx', [w], {'k': sl(1 if kind != 'nested' else 2)}], ['op', 'k', 'idx', [w], {'k': sl(0)}], ['op', 'hk', 'add', ['h', 'k'], {}],
                   ['op', 'hm', 'mulc', ['hk'], {'c': .5}]]
            st += body(f, s, 'hm', 'a', 'g') + [['def', 'x', 'gr']]
            nm += [['v', [2 * n]]]
        st += [['op', 'd', 'sin', ['x'], {}], ['reg', 'd', 'd']]
        yield wrap(st, SOLV[i // 2 % 4], place, i // 3 % 2, nm)
    # operations that mix the entries
    for n, op in itertools.product((2, 3, 5), ('sum', 'average', 'matvec', 'rot', 'idx', 'pnorm', 'max')):
        for solver, where in itertools.product(SOLV, ('top', 'cls')):
            i += 1
            s = [n]
            st = [['in', 'a', 'a', s], ['out', 'x', 'x', s]]
            if op in ('sum', 'average', 'pnorm', 'max'):
                st += [['op', 'e', op, ['x'], {'p': 2} if op == 'pnorm' else {}], ['op', 'f', 'expand', ['e'], {'shape': s}]]
            elif op == 'matvec':
                st += [['in', 'M', 'M', [n, n]], ['op', 'f', 'matvec', ['M', 'x'], {}]]
            elif op == 'rot':
                st += [['op', 'e', 'reshape', ['x'], {'shape': [n, 1]}], ['op', 'f', 'outer', ['x', 'a'], {}], ['op', 'f2', 'matmat', ['f', 'e'], {}],
                       ['op', 'f', 'reshape', ['f2'], {'shape': s}]]
            else:
                st += [['out', 'sh', 'sh', s]] + [['op', 'e%d' % k, 'idx', ['x'], {'k': k}] for k in range(n)] + \
                      [['op', 'g%d' % k, 'sin', ['e%d' % k], {}] for k in range(n)] + [['set', 'sh', (k + 1) % n, 'g%d' % k] for k in range(n)] + \
                      [['op', 'f', 'mulc', ['sh'], {'c': 1.}]]
            st += [['op', 's', 'mulc', ['f'], {'c': 0.3 / n}], ['op', 'q', 'mulc', ['a'], {'c': 0.2}], ['op', 'r', 'add', ['s', 'q'], {}], ['def', 'x', 'r'],
                   ['op', 'd', 'sin', ['x'], {}], ['reg', 'd', 'd']]
            yield wrap(st, solver, where, i % 2, [['x', s]])
    # every operation within a loop
    for c in assembled(tier):
        if converges(c):
            yield c
    for n, st, names in pairs.cycle_stories(tier):
        c = pairs.safe(wrap(st, SOLV[n // 2 % 4], ('top', 'cls', 'pre')[n // 3 % 3], n // 2 % 2, names))
        if c:
            yield c


path = story.path


def run(case):
    n = 40
    with memory.ranks(list(range(n)) if case['m'] else list(reversed(range(n)))):
        return story.run(case)
