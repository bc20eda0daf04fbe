"""cutting a graph into child groups, to any depth, changes nothing"""
import itertools

import numpy as np

from mc import pairs, prog, story
from mc.props import c03_order as D

ID = 'C07'
SH = [2]


def bounds(tier):
    return ('every DAG of 3 nodes over two inputs and %s 4-node DAG over one input x every way of cutting the node sequence into '
            'segments x each segment {inline, class child, pre-filled child, create_group, nested child} x promotion {all, '
            'inputs/outputs, explicit names, connected}; one child of 5 kinds x every way of handing each of two inputs (promoted in promotes / '
            'promotes_inputs / under another name / connected / left alone) and two outputs (promotes / promotes_outputs / '
            'another name / not) on, or *; 2 to %d levels of groups within groups, each of which computes before and after its child; every operation in a child system with another one on its result outside or in a second child (every %s of such pairs); values and derivatives against the flat meaning'
            % (('every 5th', 7, '9th') if tier == 'quick' else ('every', 10, '2nd')))


def cuts(k):
    for bits in itertools.product((0, 1), repeat=k - 1):
        segs = [[0]]
        for i, b in enumerate(bits):
            if b:
                segs.append([])
            segs[-1].append(i + 1)
        yield segs


def nodes_story(seg, dag, n0, local, prefix):
    """ops of the segment; `local` maps node number -> variable in this group"""
    st = []
    for i in seg:
        for j in dag[i]:
            if j not in local:
                nm = prefix(j)
                st.append(['in', nm, nm, SH])
                local[j] = nm
        op, args, par = D.node(i, dag[i], SH)
        v = 'v%d' % i
        st.append(['op', v, op, [local[j] for j in args], par])
        st.append(['reg', v, v])
        local[n0 + i] = v
    return st


def mk(dag, n0, segs, kinds, prom, jac):
    def nm(j):
        return 'x%d' % j if j < n0 else 'v%d' % (j - n0)

    st = [['in', 'x%d' % j, 'x%d' % j, SH] for j in range(n0)]
    local = {j: 'x%d' % j for j in range(n0)}
    if prom == 'conn':
        # inputs must be outputs of something to be connected
        st = [['ind', 'x%d' % j, 'x%d' % j, SH] for j in range(n0)]
    for q, (seg, kind) in enumerate(zip(segs, kinds)):
        if kind == 'flat':
            st += nodes_story(seg, dag, n0, local, nm)
            continue
        body = nodes_story(seg, dag, n0, {}, nm)
        if kind == 'nest':
            # a group inside a group: first node inside, the rest beside it
            inner = nodes_story(seg[:1], dag, n0, {}, nm)
            loc = {}
            rest = nodes_story(seg[1:], dag, n0, loc, nm)
            body = [['sub', 'in%d' % q, 'cls', inner]] + rest
            if not rest:
                v = nm(n0 + seg[0])
                body += [['in', v, v, SH], ['op', 'aux', 'neg', [v], {}], ['reg', 'aux%d' % q, 'aux']]
        how = prom
        if kind == 'with' and how != 'all':
            return None
        st.append(['sub', 'g%d' % q, 'cls' if kind == 'nest' else kind, body, how])
        last = q == len(segs) - 1
        for i in seg:
            if how == 'conn':
                used = any(n0 + i in dag[j] for s2 in segs[q + 1:] for j in s2)
                if used:
                    # hand the child's output on under its flat name, computed by the parent
                    st += [['con', 'g%d.v%d' % (q, i), 'h%d' % i], ['in', 'h%d' % i, 'h%d' % i, SH],
                           ['op', 'p%d' % i, 'mulc', ['h%d' % i], {'c': 1.}], ['reg', 'v%d' % i, 'p%d' % i]]
                    local[n0 + i] = 'p%d' % i
            else:
                used = [q2 for q2 in range(q + 1, len(segs)) if kinds[q2] == 'flat' and any(n0 + i in dag[j] for j in segs[q2])]
                if used:
                    st.append(['in', 'v%d' % i, 'v%d' % i, SH])
                    local[n0 + i] = 'v%d' % i
    return {'story': st, 'pts': [['pm', 0], ['u', 1]], 'jac': jac, 'dead': ['x%d' % j for j in range(n0) if not any(j in d for d in dag)]}


# ------------------------------------------------ one child, every way of promoting or connecting each variable
IN_MODES = ('name', 'alias', 'new', 'conn', 'free')
OUT_MODES = ('name', 'alias', 'none')
HOW = ('promotes', 'separate')


def partial(tier):
    """a, b: inputs of the child, u, v: outputs of the child; how each of them gets to the parent"""
    n = 0
    for kind in ('cls', 'pre', 'exec', 'omg', 'nest'):
        for how, *ms in itertools.product(HOW, IN_MODES, IN_MODES, OUT_MODES, OUT_MODES):
            n += 1
            if kind == 'exec' and all(m in ('conn', 'free', 'none') for m in ms):
                # a component added without any promotion argument is promoted as a whole
                continue
            if tier == 'quick' and kind != 'cls' and n % 3:
                continue
            yield {'partial': ms, 'how': how, 'kind': kind, 'jac': ('fwd', 'rev')[n % 2], 'shape': ([1], [2])[n // 2 % 2]}
        # with a wildcard for one side
        for side in ('in', 'out'):
            for ms in itertools.product(OUT_MODES if side == 'in' else IN_MODES, repeat=2):
                n += 1
                yield {'partial': ['*', '*'] + list(ms) if side == 'in' else list(ms) + ['*', '*'], 'how': 'separate', 'kind': kind,
                       'jac': ('fwd', 'rev')[n % 2], 'shape': ([1], [2])[n // 2 % 2]}


DEF = {'a': 1.5, 'b': 2.5}


def child(kind, sh):
    om, ot = prog.om, prog.ot

    def body(g):
        a = g.declare_input('a', shape=sh, val=DEF['a'])
        b = g.declare_input('b', shape=sh, val=DEF['b'])
        g.register_output('u', ot.sin(a) + 2. * b)
        g.register_output('v', a * b)

    if kind == 'cls':
        return prog.group_from(body)()
    if kind == 'pre':
        g = ot.Group()
        body(g)
        return g
    if kind == 'nest':
        def outer(g):
            g.add_subsystem('deep', prog.group_from(body)(), promotes=['*'])
        return prog.group_from(outer)()
    kw = {k: {'shape': sh} for k in 'uv'}
    kw.update({k: {'val': np.ones(sh) * DEF[k]} for k in 'ab'})
    if kind == 'exec':
        return om.ExecComp(['u = sin(a) + 2.*b', 'v = a*b'], **kw)
    g = om.Group()
    g.add_subsystem('k0', om.ExecComp('u = sin(a) + 2.*b', **{k: v for k, v in kw.items() if k != 'v'}), promotes=['*'])
    g.add_subsystem('k1', om.ExecComp('v = a*b', **{k: v for k, v in kw.items() if k != 'u'}), promotes=['*'])
    for k in 'ab':
        g.set_input_defaults(k, val=np.ones(sh) * DEF[k])
    return g


def run_partial(case):
    sh = tuple(case['shape'])
    ms = dict(zip('abuv', case['partial']))

    def setup(g):
        ind = {k: g.create_indep_var(k, shape=sh) for k in 'abq'}
        g.register_output('w', ind['a'] * ind['b'] + ind['q'])
        args = {'promotes': [], 'promotes_inputs': [], 'promotes_outputs': []}
        for k in 'abuv':
            m = ms[k]
            to = args['promotes' if case['how'] == 'promotes' else 'promotes_inputs' if k in 'ab' else 'promotes_outputs']
            e = {'name': k, '*': '*', 'alias': (k, 'q' if k in 'ab' else k + k), 'new': (k, 'n' + k)}.get(m)
            if e and e not in to:
                to.append(e)
        kw = {n: x for n, x in args.items() if x}
        g.add_subsystem('c', child(case['kind'], sh), **kw)
        for k in 'ab':
            if ms[k] == 'conn':
                g.connect('w', 'c.' + k)
        res = []
        for k in 'uv':
            n = {'alias': k + k, 'none': 'd' + k}.get(ms[k], k)
            if ms[k] == 'none':
                g.connect('c.' + k, n)
            res.append(g.declare_input(n, shape=sh))
        g.register_output('h', res[0] * 3. + res[1] * ind['a'])
        g.register_output('l', res[1] - ind['q'])

    p = prog.problem(setup, mode=case['jac'])
    free = {k: 'c.' + k if ms[k] == 'free' else 'n' + k for k in 'ab' if ms[k] in ('free', 'new')}

    def ref(d):
        w = d['a'] * d['b'] + d['q']
        e = {k: d['q'] if m.startswith('alias') else w if m == 'conn' else d['f' + k] if m in ('free', 'new') else d[k]
             for k, m in ms.items() if k in 'ab'}
        u, v = np.sin(e['a']) + 2. * e['b'], e['a'] * e['b']
        return {'w': w, 'u': u, 'v': v, 'h': u * 3. + v * d['a'], 'l': v - d['q']}

    where = {k: {'alias': k + k, 'none': 'c.' + k}.get(ms[k], k) for k in 'uv'}
    where.update({k: k for k in 'whl'})
    steps = 12
    for i in range(3):
        d = {k: prog.point(j, sh, 'pm', i) for j, k in enumerate('abq')}
        for k, n in free.items():
            if i:
                d['f' + k] = prog.point(3 + ord(k) % 2, sh, 'u', i)
                p.set_val(n, d['f' + k])
            else:
                # untouched: the child's default
                d['f' + k] = np.ones(sh) * DEF[k]
        for k in 'abq':
            p.set_val(k, d[k])
        p.run_model()
        want = ref(d)
        for k, n in where.items():
            prog.check_val(p, n, want[k])
        steps += 2
        if i == 1:
            src = dict({k: k for k in 'abq'}, **{n: 'f' + k for k, n in free.items()})
            J = p.compute_totals(of=[where[k] for k in 'huvl'], wrt=list(src))
            for n, k in src.items():
                cols = []
                for t in range(int(np.prod(sh))):
                    c = {q: np.asarray(x, dtype=complex) for q, x in d.items()}
                    c[k].reshape(-1)[t] += 1e-40j
                    r = ref(c)
                    cols.append({q: np.imag(r[q]).reshape(-1) / 1e-40 for q in 'huvl'})
                for q in 'huvl':
                    prog.check_jac({(q, n): J[where[q], n]}, {(q, n): np.array([x[q] for x in cols]).T})
            steps += 1
    return steps


KINDS = ('flat', 'cls', 'pre', 'with', 'nest')
PROMS = ('all', 'io', 'list', 'list1', 'conn')


def cases(tier):
    n = 0
    J = (None, 'fwd', 'rev')
    for n0, k in ((2, 3), (1, 4), (1, 3)):
        for di, dag in enumerate(D.dags(k, n0)):
            if tier == 'quick' and (k == 4 and di % 5 != 2 or n0 == 2 and di % 3):
                continue
            for segs in cuts(k):
                for kinds in itertools.product(KINDS, repeat=len(segs)):
                    if all(x == 'flat' for x in kinds):
                        continue
                    n += 1
                    if len(segs) >= 3 and tier == 'quick' and n % 12 != di % 12:
                        continue
                    if len(segs) == 4 and n % 9 != di % 9:
                        continue
                    for pi, prom in enumerate(PROMS):
                        if (n + pi) % (6 if tier == 'quick' else 4):
                            continue
                        c = mk(dag, n0, segs, kinds, prom, J[(n // 3 + pi) % 3])
                        if c:
                            yield c



_cuts = cases


def deep(tier):
    """groups within groups: every level computes before and after its child, from what is above and what is below"""
    n = 0
    for d in range(2, 8 if tier == 'quick' else 11):
        kinds = itertools.product(('cls', 'pre', 'with'), repeat=d) if d < 4 or d == 4 and tier != 'quick' else \
            [tuple(('cls', 'pre', 'with')[(i * a + b) % 3] for i in range(d)) for a in range(3) for b in range(3)]
        for ks in kinds:
            for reach in ('next', 'top', 'skip'):
                for prom in range(3 if tier == 'quick' else 6):
                    n += 1
                    st = None
                    for l in range(d, -1, -1):
                        up = 'a%d' % max(0, l - 1 if reach == 'next' or l < 2 else l - 2 if reach == 'skip' else 0)
                        if l == 0:
                            here = [['in', 'x', 'x', SH], ['op', 'a', 'sin', ['x'], {}], ['reg', 'a0', 'a']]
                        else:
                            here = [['in', 'u', up, SH], ['in', 'y', 'x' if l % 2 else 'a0', SH]]
                            if up == 'a0' and l % 2 == 0:
                                here[1] = ['in', 'y', 'x', SH]
                            here += [['op', 'm', 'mulc', ['u'], {'c': .5 + .1 * l}], ['op', 'a', 'add', ['m', 'y'], {}], ['reg', 'a%d' % l, 'a']]
                        if st is None:
                            here += [['op', 'b', 'cos', ['a'], {}]]
                        else:
                            k = ks[l]
                            how = 'all' if k == 'with' else ('all', 'io', 'list', 'list1')[(prom + l + n) % 4]
                            here += [['sub', 'c%d' % l, k, st, how], ['in', 'w', 'b%d' % (l + 1), SH], ['op', 'b', 'mul', ['w', 'a'], {}]]
                        st = here + [['reg', 'b%d' % l, 'b']]
                    yield {'story': st, 'pts': [['pm', 0], ['u', 1]], 'jac': ('fwd', 'rev', None)[n % 3]}


def cases(tier):
    J = ('fwd', 'rev')
    yield from partial(tier)
    yield from deep(tier)
    for n, st in pairs.split(tier):
        c = pairs.safe({'story': st, 'pts': [], 'jac': J[n // 9 % 2]})
        if c:
            yield c
    yield from _cuts(tier)


def run(case):
    return run_partial(case) if 'partial' in case else story.run(case)


def path(case):
    if 'partial' in case:
        return [['child', case['kind'], case['shape'], case['jac']]] + [[k, m] for k, m in zip('abuv', case['partial'])] + \
            [['build'], ['run', 0], ['run', 1], ['run', 2]]
    return story.path(case)
