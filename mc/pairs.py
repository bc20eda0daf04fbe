"""every operation applied to the result of every other one"""
import itertools
import warnings

import numpy as np

from mc import gen, prog
from mc import ops as O

LET = 'ijklmn'


def templates(s):
    """operations that can be applied to an array of this shape: (op, parameters, shapes of other operands, its position)"""
    s = tuple(s)
    r = len(s)
    n = int(np.prod(s))
    yield from ((op, {}, (), 0) for op in ('neg', 'sin', 'exp', 'log', 'arctan', 'cosh', 'sec', 'arcsin', 'tanh', 'cotan'))
    yield from (('pow', {'c': 2}, (), 0), ('pow', {'c': 1.5}, (), 0), ('mulc', {'c': -.5}, (), 0), ('csub', {'c': .75}, (), 0), ('cdiv', {'c': 2.}, (), 0))
    yield 'addc', {'c': {'a': (.5 + np.arange(n).reshape(s)).tolist()}}, (), 0
    yield 'divc', {'c': {'a': (1.5 + np.arange(n).reshape(s)).tolist()}}, (), 0
    yield from (('add', {}, (s, ), 0), ('sub', {}, (s, ), 1), ('mul', {}, (s, ), 0), ('div', {}, (s, ), 0), ('div', {}, (s, ), 1))
    for op in ('sum', 'average', 'pnorm', 'max', 'min'):
        yield op, {}, (), 0
    yield from (('max', {}, (s, ), 0), ('min', {}, (s, s), 1), ('sum', {}, (s, s), 2), ('average', {}, (s, ), 1))
    if r > 1:
        yield from (('sum', {'axes': [0]}, (), 0), ('average', {'axes': [r - 1]}, (), 0), ('pnorm', {'axis': [0]}, (), 0), ('max', {'axis': 0}, (), 0),
                    ('min', {'axis': r - 1}, (), 0), ('sum', {'axes': [r - 1]}, (s, ), 1))
        yield 'reorder_axes', {'op': '%s->%s' % (LET[:r], LET[:r][::-1])}, (), 0
        yield 'idx', {'k': ['t', 0] + [['s', None, None, None]] * (r - 1)}, (), 0
        yield 'idx', {'k': ['t'] + [['s', None, None, None]] * (r - 1) + [['s', 0, s[-1], 2]]}, (), 0
    else:
        yield 'idx', {'k': n - 1}, (), 0
        yield 'idx', {'k': ['s', 0, n, 2]}, (), 0
    yield 'reshape', {'shape': [n]}, (), 0
    yield 'reshape', {'shape': [1, n]}, (), 0
    yield 'rotmat', {'axis': 'y'}, (), 0
    if n == 1 and r == 1:
        yield 'expand', {'shape': [2, 2]}, (), 0
        yield 'if_else', {}, ((2, ), (2, )), 0
    else:
        yield 'expand', {'shape': [2] + list(s), 'indices': '%s->%s' % (LET[:r], 'z' + LET[:r])}, (), 0
    yield 'if_else', {}, ((1, ), s), 1
    yield 'if_else', {}, ((1, ), s), 2
    yield 'outer', {}, ((2, ), ), 0
    yield 'outer', {}, ((2, ), ), 1
    if r == 1:
        yield from (('dot', {}, (s, ), 0), ('inner', {}, (s, ), 1), ('matvec', {}, ((2, n), ), 1), ('matmat', {}, ((2, n), ), 1))
        yield 'einsum', {'s': 'i,ij->j'}, ((n, 2), ), 0
        yield 'einsum', {'s': 'i,i->', 'f': 'sparse'}, (s, ), 1
        yield 'einsum_new', {'o': [[0], [1], [1, 0]]}, ((2, ), ), 0
    if r == 2:
        yield from (('transpose', {}, (), 0), ('matmat', {}, ((s[1], 2), ), 0), ('matmat', {}, ((2, s[0]), ), 1), ('matvec', {}, ((s[1], ), ), 0),
                    ('inner', {'axes': [[1], [0]]}, ((s[1], 2), ), 0), ('inner', {'axes': [[0], [0]]}, ((s[0], ), ), 0))
        yield 'einsum', {'s': 'ij,jk->ki', 'f': 'sparse'}, ((s[1], 2), ), 0
        yield 'einsum', {'s': 'ij->ji'}, (), 0
        yield 'einsum_new', {'o': [[0, 1], [0], [1]], 'f': 'sparse'}, ((s[0], ), ), 0
    for ax in range(r):
        if s[ax] == 3:
            yield 'cross', {'axis': ax}, (s, ), ax % 2
            if r > 1:
                yield 'dot', {'axis': ax}, (s, ), 0


def domain(op, p, args, i):
    """away from the edges of the domain"""
    v = args[i]
    if op == 'log' or op == 'pow' and p['c'] == 1.5:
        return np.min(v) > 1e-2
    if op == 'arcsin':
        return np.max(np.abs(v)) < .95
    if op == 'div':
        return np.min(np.abs(args[1])) > 1e-2
    if op in ('cdiv', 'cotan', 'pnorm'):
        return np.min(np.abs(v)) > 1e-2 and np.max(np.abs(v)) < 30
    if op == 'sec':
        return np.min(np.abs(np.cos(v))) > 1e-2
    if op == 'if_else':
        return np.min(np.abs(args[0])) > 1e-3
    return True


def chain(first, second, s, own, dom, outs, jac, third=None):
    """own: other operands of later operations are, where the shape fits, values that exist already"""
    ins = [['x', list(s), 'in', None]]
    ops, nodes = [], []
    pt = list(dom)
    last = 0
    todo = [t for t in (first, second, third) if t]
    for q, t in enumerate(todo):
        if t[3] is None:
            return None
        ins += [['y%d%d' % (q, j), list(e), ('in', 'indep')[(q + j) % 2], None] for j, e in enumerate(t[2])]
    n0 = len(ins)
    vals = [prog.point(i, tuple(x[1]), pt[0], pt[1]) for i, x in enumerate(ins)]
    at = 1
    prev = 0
    used = set()
    for q, t in enumerate(todo):
        args = []
        for j, e in enumerate(t[2]):
            k = at + j
            if own and q:
                fit = [m for m in range(len(vals)) if (m == 0 or m >= n0) and m != prev and vals[m].shape == tuple(e)]
                if fit:
                    k = fit[(own + j) % len(fit)]
            args.append(k)
        at += len(t[2])
        args.insert(t[3], prev)
        if len(set(args)) < len(args) and t[0] not in ('add', 'sub', 'mul', 'div'):
            return None
        used |= set(args)
        a = [vals[k] for k in args]
        if not domain(t[0], t[1], a, t[3]):
            return None
        ops.append([t[0], args, t[1]])
        try:
            v = O.ref_op(t[0], a, t[1])
        except Exception:
            return None
        if v.ndim == 0 or not v.size or not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e3:
            return None
        vals.append(v)
        prev = len(vals) - 1
    # operands that were replaced by existing values go
    keep = [i for i in range(n0) if i in used or i == 0]
    m = {o: i for i, o in enumerate(keep + list(range(n0, len(vals))))}
    ins = [ins[i] for i in keep]
    ops = [[o, [m[k] for k in a], p] for o, a, p in ops]
    n0 = len(ins)
    f = n0 + len(ops) - 1
    os = {'last': [['f', f, 'now']], 'all': [['v%d' % k, n0 + k, 'now'] for k in range(len(ops))],
          'back': [['v%d' % k, n0 + k, 'end'] for k in reversed(range(len(ops)))]}[outs]
    c = gen.case(ins, ops, os, [pt], jac)
    return c


def result(t, s):
    args = [np.full(e, .5) for e in t[2]]
    args.insert(t[3], np.full(s, .5))
    try:
        v = O.ref_op(t[0], args, t[1])
    except Exception:
        return None
    return v.shape if v.ndim and v.size and v.size <= 24 else None


SHAPES = ((1, ), (2, ), (3, ), (2, 2), (2, 3), (3, 1, 2))
OUTS = ('last', 'all', 'back')
DOMS = (['u', 0], ['pos', 1], ['pm', 0])


def space(tier, jac=False):
    n = 0
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        for s in SHAPES:
            for a in templates(s):
                r = result(a, s)
                if r is None:
                    continue
                for b in templates(r):
                    n += 1
                    J = ('fwd', 'rev')[n % 2] if jac else None
                    if tier == 'quick':
                        combos = [(n % 3, OUTS[n // 3 % 3], n // 9 % 3)]
                    else:
                        combos = itertools.product((0, 1, 2), OUTS, (0, 1, 2))
                    for own, outs, d in combos:
                        # the next point, where the first one is outside the domain of definition
                        for e in range(3):
                            c = chain(a, b, s, own, DOMS[(d + e) % 3], outs, J)
                            if c:
                                if n % 4 == 1:
                                    c['npshape'] = 1
                                yield c
                                break
                    if tier == 'quick':
                        if n % 5:
                            continue
                    t = result(b, r)
                    if t is None:
                        continue
                    for k, e in enumerate(templates(t)):
                        if (k + n) % (31 if tier == 'quick' else 5):
                            continue
                        for q in range(3):
                            c = chain(a, b, s, (n + k) % 3, DOMS[(n + q) % 3], OUTS[(n + k) // 3 % 3], J, e)
                            if c:
                                yield c
                                break


# ------------------------------------------- every operation within residuals, cycles, assembled outputs and child systems
def put(t, x, name, n='e'):
    """(inputs, step) for one operation applied to variable x"""
    ex = ['%s%s%d' % (n, name, j) for j in range(len(t[2]))]
    args = list(ex)
    args.insert(t[3], x)
    return [[v, list(e)] for v, e in zip(ex, t[2])], ['op', name, t[0], args, t[1]]


def spread(v, r, s, name):
    """steps that bring v of shape r to shape s through the sum of its entries"""
    st = []
    if r != (1, ):
        st.append(['op', name + 's', 'sum', [v], {}])
        v = name + 's'
    if s != (1, ):
        st.append(['op', name, 'expand', [v], {'shape': list(s)}])
    else:
        st.append(['op', name, 'mulc', [v], {'c': 1.}])
    return st


def every(tier, shapes=SHAPES, keep=3):
    n = 0
    for s in shapes:
        for t in templates(s):
            r = result(t, s)
            n += 1
            if r is None or tier == 'quick' and n % keep != len(s) % keep:
                continue
            yield n, s, t, r


def residual_steps(tier, styles='ABC'):
    for n, s, t, r in every(tier, keep=2):
        ex, step = put(t, 'a' if 'A' in styles else 'x', 't')
        more = [['in', v, e, None] for v, e in ex]
        for style in styles:
            ex, step = put(t, 'a' if style == 'A' else 'x', 't')
            a, x = ['in', 'a', list(s), None], ['out', 'x', list(s), .4]
            if style == 'A':
                yield [a] + more + [['out', 'x', list(r), None], step, ['op', 'c', 'mulc', ['x'], {'c': 2.5}], ['op', 'q', 'sub', ['c', 't'], {}], ['res', 'x', 'q']]
                continue
            mid = [step]
            y = 't'
            if style == 'C':
                y = 'y'
                mid = [['out', 'y', list(r), .3], step, ['op', 'y2', 'mulc', ['y'], {'c': 1.}], ['op', 'p', 'sub', ['y2', 't'], {}]]
                if n % 2:
                    mid += [['res', 'y', 'p']]
            if style == 'B' and r == s:
                tail, c = [['op', 'd', 'mulc', ['t'], {'c': .2}]], 3.
            else:
                tail, c = spread(y, r, s, 'w') + [['op', 'd', 'mulc', ['w'], {'c': .2 / max(1, int(np.prod(r)))}]], 3.
            yield [a] + more + [x] + mid + tail + [['op', 'c', 'mulc', ['x'], {'c': c}], ['op', 'g', 'add', ['c', 'd'], {}], ['op', 'q', 'sub', ['g', 'a'], {}], ['res', 'x', 'q']] + \
                ([['res', 'y', 'p']] if style == 'C' and not n % 2 else [])


def bracket_steps(tier):
    for n, s, t, r in every(tier, keep=3):
        if t[0] == 'arcsin':
            continue
        ex, step = put(t, 'a', 't')
        lo, hi = (-60., 61.) if n % 2 else (75., -50.)
        base = [['in', 'a', list(s), None]] + [['in', v, e, None] for v, e in ex] + [['out', 'x', list(r), None]]
        yield base + [step, ['op', 'c', 'mulc', ['x'], {'c': 2.5 if n % 3 else -2.5}], ['op', 'q', 'add', ['c', 't'], {}], ['resb', 'x', 'q', lo, hi]]


def cycle_stories(tier):
    """x := 0.3 * (entries of t(x)) + 0.2 * a, and the same with t(x) an output of the loop"""
    for n, s, t, r in every(tier, keep=2):
        S, R = list(s), list(r)
        ex, step = put(t, 'x', 't')
        for own in (0, 1):
            st = [['in', 'a', 'a', S]] + [[('in', 'ind')[n % 2], v, v, e] for v, e in ex] + [['out', 'x', 'x', S]]
            names = [['x', S]]
            y = 't'
            if own:
                st += [['out', 'y', 'y', R]]
                names.append(['y', R])
                y = 'y'
            st += [step] + ([['def', 'y', 't']] if own else [])
            if r == s:
                st += [['op', 'd', 'mulc', [y], {'c': .3}]]
            else:
                st += spread(y, r, s, 'w') + [['op', 'd', 'mulc', ['w'], {'c': .3 / max(1, int(np.prod(r)))}]]
            st += [['op', 'q', 'mulc', ['a'], {'c': .2}], ['op', 'g', 'add', ['d', 'q'], {}], ['def', 'x', 'g'], ['op', 'o', 'sin', ['x'], {}], ['reg', 'o', 'o']]
            yield n + own, st, names


def assembled(tier):
    """an output put together from the results of two operations, one of which is used otherwise as well"""
    pool = {}
    for n, s, t, r in every(tier, keep=1):
        pool.setdefault(r[1:], []).append((s, t, r))
    n = 0
    for tail, ts in sorted(pool.items()):
        for i, (s, t, r) in enumerate(ts):
            for k in ((1, ) if tier == 'quick' else (1, 2, 3, 5, 8)):
                n += 1
                if tier == 'quick' and n % 2:
                    continue
                s2, t2, r2 = ts[(i * 5 + k) % len(ts)]
                ex, st1 = put(t, 'a', 't')
                ex2, st2 = put(t2, 'b', 'u')
                st = [[('in', 'ind')[n % 2], 'a', 'a', list(s)], ['in', 'b', 'b', list(s2)]] + [['in', v, v, e] for v, e in ex + ex2]
                sl = lambda lo, hi: ['s', lo, hi, None] if not tail else ['t', ['s', lo, hi, None]] + [['s', 0, d, None] for d in tail]
                sets = [['set', 'y', sl(0, r[0]), 't'], ['set', 'y', sl(r[0], r[0] + r2[0]), 'u']]
                y = [['out', 'y', 'y', [r[0] + r2[0]] + list(tail)]]
                st += [st1, st2] if n % 3 else [st2, st1]
                st += (y + sets if n % 5 else y + sets[::-1])
                if n % 4 < 2:
                    st.insert(-2 if n % 2 else len(st), ['reg', 't', 't'])
                st += [['op', 'o', 'mul', ['y', 'y'], {}], ['reg', 'o', 'o']]
                if n % 4 == 3:
                    st += [['op', 'v', 'mulc', ['u'], {'c': 2.}], ['reg', 'v', 'v']]
                yield n, st


def split(tier):
    """one operation in a child system, the next one outside or in another child system"""
    n = 0
    for s in SHAPES:
        for t in templates(s):
            r = result(t, s)
            if r is None:
                continue
            for k, t2 in enumerate(templates(r)):
                n += 1
                if n % (9 if tier == 'quick' else 2):
                    continue
                ex, st1 = put(t, 'a', 't')
                ex2, st2 = put(t2, 'm', 'u')
                kind = ('cls', 'pre', 'with')[n // 9 % 3]
                how = 'all' if kind == 'with' else ('all', 'io', 'list', 'list1')[n // 27 % 4]
                head = [['in', 'a', 'a', list(s)]] if n % 2 else [['in', 'a0', 'a0', list(s)], ['op', 'a', 'mulc', ['a0'], {'c': 1.}], ['reg', 'a', 'a']]
                one = [['in', 'a', 'a', list(s)]] + [['in', v, v, e] for v, e in ex] + [st1, ['reg', 'm', 't']]
                two = [['in', 'm', 'm', list(r)]] + [['in', v, v, e] for v, e in ex2] + [st2, ['reg', 'f', 'u']]
                st = head + [['sub', 'c1', kind, one, how]]
                if n % 4 < 2:
                    st += two
                else:
                    st += [['sub', 'c2', ('pre', 'cls', 'with')[n // 9 % 3], two] + ([how] if kind == 'with' or n // 9 % 3 < 2 else [])]
                yield n, st


class Outside(Exception):
    pass


def safe(c, most=1e3):
    """the case, at points that lie within the domains of its operations, if there are any"""
    from mc import story
    real = O.ref_op

    def checked(op, args, p):
        if not all(domain(op, p, [np.real(a) for a in args], i) for i in range(len(args)) if op in ('log', 'pow', 'arcsin', 'cotan', 'pnorm', 'sec') or not i):
            raise Outside()
        r = real(op, args, p)
        if not np.all(np.isfinite(r)) or np.max(np.abs(r)) > most:
            raise Outside()
        return r

    ext = story.externals(c['story'])
    good = []
    O.ref_op = checked
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            for pt in (['u', 0], ['pos', 1], ['pm', 0], ['u', 1]):
                try:
                    story.solve(c['story'], story.values(ext, pt))
                    good.append(pt)
                except (Outside, story.Diverges):
                    pass
                if len(good) == 2:
                    break
    finally:
        O.ref_op = real
    return dict(c, pts=good) if good else None
