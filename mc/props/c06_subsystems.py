"""expressions, independent variables and child systems in any sequence"""
import itertools

from mc import story

ID = 'C06'
KINDS = ('cls', 'pre', 'with', 'exec', 'omg', 'nest')
SH = [2]


def bounds(tier):
    return ('every sequence of <= %d steps over {unary / binary expression, new independent variable, child system of 6 kinds '
            '(omtools class, pre-filled group, create_group, ExecComp, OpenMDAO group, nested omtools group) reading {the latest '
            'result, an external input, the latest and the first result}}, results registered {immediately, as late as allowed}; '
            'length %d over a reduced alphabet; the result of a child declared once or again by each of <= 3 users of different depth, either branch sorting; up to %d outputs before a child, results of one child, children in a row or all reading each other; outputs assembled from the results of children that are added after they were created, all orders of the statements; one pass, two points, derivatives'
            % ((3, 4, 33) if tier == 'quick' else (4, 5, 70)))


def child(name, kind, reads):
    out = name + 'o'
    if kind in ('exec', 'omg'):
        return ['sub', name, kind, [[out, SH, [[1.5 - i, r] for i, r in enumerate(reads)]]]]
    if kind == 'nest':
        inner = ['sub', name + 'i', 'exec', [[name + 'm', SH, [[2., reads[-1]]]]]]
        return ['sub', name, 'cls', [['in', r, r, SH] for r in reads] +
                [inner, ['in', 'm', name + 'm', SH], ['op', 's', 'sub', ['m', reads[0]], {}], ['op', 't', 'sin', ['s'], {}],
                 ['reg', out, 't']]]
    body = [['in', r, r, SH] for r in reads]
    if len(reads) == 2:
        body += [['op', 's', 'mul', reads, {}]]
    else:
        body += [['op', 's', 'mulc', reads, {'c': 0.75}]]
    body += [['op', 't', 'tanh', ['s'], {}], ['reg', out, 't']]
    if kind == 'cls':
        body += [['op', 'extra', 'cos', ['s'], {}], ['reg', name + 'x', 'extra']]
    return ['sub', name, kind, body]


def expand(actions, lazy):
    """-> story, or None when an action does not apply"""
    st = [['in', 'x', 'x', SH]]
    avail = ['x']  # variables; each has the promoted name of the same spelling
    pend = []

    def need(v):
        if v in pend:
            st.append(['reg', v, v])
            pend.remove(v)

    def made(v):
        avail.append(v)
        if lazy:
            pend.append(v)
        else:
            st.append(['reg', v, v])

    for i, a in enumerate(actions):
        v = 'n%d' % i
        if a == 'u':
            st.append(['op', v, 'sin', [avail[-1]], {}])
            made(v)
        elif a == 'b':
            if len(avail) < 2:
                return None
            st.append(['op', v, 'sub', [avail[-1], avail[-2]], {}])
            made(v)
        elif a == 'b0':
            if len(avail) < 3:
                return None
            st.append(['op', v, 'mul', [avail[0], avail[-1]], {}])
            made(v)
        elif a == 'I':
            st.append(['ind', 'p%d' % i, 'p%d' % i, SH])
            avail.append('p%d' % i)
        else:
            kind, what = a
            if what == 'two':
                if len(avail) < 2:
                    return None
                reads = [avail[-1], avail[0]]
            elif what == 'last':
                reads = [avail[-1]]
            else:
                reads = ['e%d' % i]
            for r in reads:
                need(r)
            c = child('c%d' % i, kind, reads)
            st.append(c)
            st.append(['in', 'c%do' % i, 'c%do' % i, SH])
            avail.append('c%do' % i)
    if pend and lazy == 2:
        pend.reverse()
    for v in list(pend):
        st.append(['reg', v, v])
    if st[-1][0] == 'in':
        # make the parent use the last child
        st.append(['op', 'fin', 'mulc', [avail[-1]], {'c': 2.}])
        st.append(['reg', 'fin', 'fin'])
    # a declared input nobody uses is not part of the model
    return st


def uses(st, name):
    for s in st:
        if s[0] == 'op' and name in s[3]:
            return True
        if s[0] == 'sub':
            if s[2] in ('exec', 'omg'):
                if any(t[1] == name for o in s[3] for t in o[2]):
                    return True
            elif any(q[0] == 'in' and q[2] == name for q in s[3]):
                return True
    return False


def mk(actions, lazy, jac):
    st = expand(actions, lazy)
    if st is None:
        return None
    return {'story': st, 'pts': [['pm', 0], ['u', 1]], 'jac': jac, 'dead': [] if uses(st, 'x') else ['x']}


ALL = ['u', 'b', 'b0', 'I'] + [(k, w) for k in KINDS for w in ('last', 'ext', 'two')]
RED = ['u', 'b0', 'I', ('cls', 'last'), ('exec', 'two'), ('with', 'two')]


def again(tier):
    """the result of a child declared once or several times, used at different depths"""
    J = (None, 'fwd', 'rev')
    n = 0
    for kind in KINDS:
        for k in (1, 2, 3):
            for uses_ in itertools.product(('l', 'd', 'p', 'q'), repeat=k):
                for own in itertools.product((0, 1), repeat=k - 1):
                    for rev in (0, 1):
                        n += 1
                        if k == 3 and (tier == 'quick' and (n % 5 or kind not in ('cls', 'exec'))):
                            continue
                        yield {'story': twice(kind, uses_, (1, ) + own, rev), 'pts': [['pm', 0], ['u', 1]], 'jac': J[n % 3 if k < 3 else 0]}


def twice(kind, uses_, own, rev):
    st = [['rev']] if rev else []
    st += [['in', 'x', 'x', SH], ['op', 'a', 'mulc', ['x'], {'c': 0.75}], ['reg', 'a', 'a'], child('c', kind, ['a'])]
    v = None
    for i, (u, o) in enumerate(zip(uses_, own)):
        if o:
            v = 'v%d' % i
            st.append(['in', v, 'co', SH])
        s = 'u%d' % i
        if u == 'l':
            st.append(['op', s, 'mulc', [v], {'c': 2.}])
        elif u == 'q':
            st.append(['op', s, 'mul', [v, 'a'], {}])
        elif u == 'd':
            st += [['op', s + 'a', 'cos', [v], {}], ['op', s + 'b', 'sin', [s + 'a'], {}], ['op', s + 'c', 'sub', [s + 'b', v], {}],
                   ['op', s, 'tanh', [s + 'c'], {}]]
        else:
            st += [child('k%d' % i, 'cls', ['co']), ['in', s + 'i', 'k%do' % i, SH], ['op', s, 'add', [s + 'i', v], {}]]
        st.append(['reg', s, s])
    return st


def later(tier):
    """assembled outputs created before child systems and filled in with their results, in every order of the statements"""
    n = 0
    J = (None, 'fwd', 'rev')
    for what in range(8):
        # steps with the steps they come after
        two, chain, sh = what & 1, what & 2, what & 4
        need = {'O': '', 'S': '', 'T': 'S', 'P': 'OS', 'Q': 'OT' if chain else 'O', 'H': 'O'}
        if two:
            need.update(Z='', R='ZO')
        if sh:
            need['V'] = 'PQ' + ('R' if two else '')
        for order in extensions(need):
            for k, kind in enumerate(('cls', 'exec', 'with', 'pre') if tier != 'quick' else (('cls', 'exec', 'with', 'pre')[n % 4], )):
                n += 1
                if tier == 'quick' and n % 2 and len(need) > 7:
                    continue
                st = [['in', 'x', 'x', SH], ['op', 'a', 'mulc', ['x'], {'c': 0.75}], ['reg', 'a', 'a']]
                for c in order:
                    if c == 'O':
                        st.append(['out', 'y', 'y', [4]])
                    elif c == 'Z':
                        st.append(['out', 'z', 'z', [4]])
                    elif c == 'S':
                        st += [child('s', kind, ['a']), ['in', 'so', 'so', SH]]
                    elif c == 'T':
                        st += [child('t', ('exec', 'cls')[n % 2], ['so']), ['in', 'to', 'to', SH]]
                    elif c == 'P':
                        if n % 3:
                            st += [['op', 'p', 'sin', ['so'], {}], ['set', 'y', ['s', 0, 2, None], 'p']]
                        else:
                            st.append(['set', 'y', ['s', 0, 2, None], 'so'])
                    elif c == 'Q':
                        st += [['op', 'q', 'cos', ['to' if chain else 'a'], {}], ['set', 'y', ['s', 2, 4, None], 'q']]
                    elif c == 'H':
                        st += [['op', 'h', 'mulc', ['y'], {'c': 2.}], ['reg', 'h', 'h']]
                    elif c == 'R':
                        st += [['op', 'r', 'tanh', ['y'], {}], ['set', 'z', ['s', 0, 4, None], 'r']]
                    elif c == 'V':
                        st += [['sub', 'v', 'exec', [['vo', [4], [[1.5, 'z' if two else 'y']]]]], ['in', 'vo', 'vo', [4]],
                               ['op', 'w', 'mul', ['vo', 'y'], {}], ['reg', 'w', 'w']]
                yield {'story': st, 'pts': [['pm', 0], ['u', 1]], 'jac': J[n % 3]}


def extensions(need):
    """all orders in which every step comes after those it needs"""
    def rec(done, rest):
        if not rest:
            yield list(done)
        for c in sorted(rest):
            if all(d in done for d in need[c]):
                yield from rec(done + [c], rest - {c})

    yield from rec([], set(need))


def wide(tier):
    """many of everything: outputs before a child system, outputs of one, child systems one after another, users"""
    J = (None, 'fwd', 'rev')
    sizes = (list(range(2, 13)) + [16, 17, 20, 33]) if tier == 'quick' else list(range(2, 41)) + [64, 65, 70]
    for n in sizes:
        for k, kind in enumerate(('cls', 'pre', 'exec', 'omg')):
            for rev in (0, 1):
                for what in ('before', 'outs', 'row', 'stairs'):
                    if tier == 'quick' and n > 12 and (k + rev + len(what)) % 2:
                        continue
                    if what in ('row', 'stairs') and n > 20:
                        continue
                    yield {'story': many(what, kind, n, rev), 'pts': [['pm', 0], ['u', 1]], 'jac': J[(n + k) % 3] if n < 8 else None}


def summing(name, kind, reads, outs):
    """a child system: outs[j] = (j + 1) * (1.5 r0 + 0.5 r1 + ...)"""
    if kind in ('exec', 'omg'):
        return ['sub', name, kind, [[o, SH, [[(j + 1) * (1.5 if i == 0 else 0.5), r] for i, r in enumerate(reads)]] for j, o in enumerate(outs)]]
    body = [['in', r, r, SH] for r in reads] + [['op', 't0', 'mulc', [reads[0]], {'c': 1.5}]]
    for i, r in enumerate(reads[1:]):
        body += [['op', 'm%d' % i, 'mulc', [r], {'c': 0.5}], ['op', 't%d' % (i + 1), 'add', ['t%d' % i, 'm%d' % i], {}]]
    for j, o in enumerate(outs):
        body += [['op', o, 'mulc', ['t%d' % (len(reads) - 1)], {'c': j + 1.}], ['reg', o, o]]
    return ['sub', name, kind, body]


def many(what, kind, n, rev):
    st = [['rev']] if rev else []
    st += [['in', 'x', 'x', SH]]
    if what == 'before':
        for i in range(n):
            st += [['op', 'o%d' % i, 'mulc', ['x'], {'c': 0.5 + i}] if i % 3 else ['op', 'o%d' % i, 'sin', ['x'], {}], ['reg', 'o%d' % i, 'o%d' % i]]
        st += [summing('c', kind, ['o%d' % i for i in range(n)], ['w']), ['in', 'w', 'w', SH], ['op', 'z', 'mulc', ['w'], {'c': 0.1}], ['reg', 'z', 'z']]
    elif what == 'outs':
        ws = ['w%d' % i for i in range(n)]
        st += [['op', 'a', 'sin', ['x'], {}], ['reg', 'a', 'a'], summing('c', kind, ['a'], ws)]
        for i, w in enumerate(ws):
            st += [['in', w, w, SH], ['op', 'z%d' % i, 'tanh', [w], {}], ['reg', 'z%d' % i, 'z%d' % i]]
    elif what == 'row':
        v = 'x'
        for i in range(n):
            st += [summing('c%d' % i, kind if i % 3 else 'cls', [v], ['w%d' % i]), ['in', 'w%d' % i, 'w%d' % i, SH]]
            v = 'w%d' % i
            if i % 2:
                st += [['op', 's%d' % i, 'sin', [v], {}], ['reg', 's%d' % i, 's%d' % i]]
                v = 's%d' % i
        st += [['op', 'z', 'mulc', [v], {'c': 2.}], ['reg', 'z', 'z']]
    else:  # every child system reads the results of all before it
        vs = ['x']
        for i in range(n):
            st += [summing('c%d' % i, kind if i % 3 else 'cls', vs, ['w%d' % i]), ['in', 'w%d' % i, 'w%d' % i, SH],
                   ['op', 's%d' % i, 'sin', ['w%d' % i], {}], ['reg', 's%d' % i, 's%d' % i]]
            vs = vs + ['s%d' % i]
    return st


def cases(tier):
    yield from again(tier)
    yield from wide(tier)
    yield from later(tier)
    J = (None, 'fwd', 'rev')
    n = 0
    for depth in (1, 2, 3):
        for acts in itertools.product(ALL, repeat=depth):
            n += 1
            for lazy in (0, 1, 2):
                if tier == 'quick' and depth == 3 and (n + lazy) % 3:
                    continue
                c = mk(acts, lazy, J[(n + lazy) % 3] if tier == 'quick' else J[1 + (n + lazy) % 2])
                if c:
                    yield c
    for depth in (4, ) if tier == 'quick' else (4, 5):
        for acts in itertools.product(RED, repeat=depth):
            n += 1
            for lazy in (0, 1):
                if tier == 'quick' and (n + lazy) % 2:
                    continue
                c = mk(acts, lazy, None)
                if c:
                    yield c
    if tier == 'thorough':
        for acts in itertools.product(ALL, repeat=4):
            n += 1
            if sum(isinstance(a, tuple) for a in acts) > 2:
                continue
            c = mk(acts, n % 3, None)
            if c:
                yield c


run = story.run
path = story.path
