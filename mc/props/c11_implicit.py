"""C11: outputs of a component defined by residuals satisfy them, and differentiate as implicit functions"""
import itertools

from mc import implicit as I
from mc import pairs as P

ID = 'C11'
TITLE = 'Implicit outputs satisfy their residuals and differentiate through them'
SOLV = ('own-direct', 'own-krylov', 'outer-direct', 'outer-once', 'outer-gs')
HOST = ('om', 'ot', 'child')
PTS = [['u', 0], ['pos', 1]]


def bounds(tier):
    return ('residuals 2.5*x + e(x, a) for every expression e of <= %d operations over {x, a} with {+, -, *, /, unary}; shapes '
            '(1,), (2,), (2,2); non-elementwise residuals (matrix-vector, sums, indexing); pairs and rings of coupled outputs '
            'sharing inputs, sub-expressions and whole residuals, in every order of definition; 5 kinds of child systems inside '
            'reading inputs, unknowns and registered expressions; initial values; residuals of up to 12 entries and rank 4; up to 8 inputs, 8 outputs and 12 registered expressions; residuals of assembled arrays and with independent variables; every second operation of the whole catalogue as the residual, applied to inputs, to the unknown, or defining a second unknown; solvers %s; embedded in {OpenMDAO group, '
            'omtools group, nested}; two points, {fwd, rev}; only cases on which the reference Newton iteration converges'
            % ((2 if tier == 'quick' else 3), list(SOLV)))


B2 = ('add', 'sub', 'mul', 'div')
UN = [('sin', {}), ('exp', {}), ('pow', {'c': 3}), ('pow', {'c': -1}), ('neg', {}), ('csub', {'c': 2.}), ('mulc', {'c': 0.5})]


def exprs(depth, leaves):
    """all op lists of exactly `depth` steps in which every value is used"""
    def rec(steps, avail):
        if len(steps) == depth:
            used = set(a for s in steps for a in s[3])
            if all(s[1] in used for s in steps[:-1]):
                yield steps
            return
        name = 'e%d' % len(steps)
        for op, p in UN:
            for a in avail:
                yield from rec(steps + [['op', name, op, [a], p]], avail + [name])
        for op in B2:
            for a, b in itertools.product(avail, repeat=2):
                if op in ('add', 'mul') and avail.index(a) > avail.index(b):
                    continue
                yield from rec(steps + [['op', name, op, [a, b], {}]], avail + [name])
    yield from rec([], list(leaves))


def lin(name, x, e, c=2.5):
    """c*x + e"""
    return [['op', name + 'c', 'mulc', [x], {'c': c}], ['op', name, 'add', [name + 'c', e], {}]]


def single(tier):
    for d in range(1, (3 if tier == 'quick' else 4)):
        for k, ops in enumerate(exprs(d, ['x', 'a'])):
            if d == 3 and k % 5:
                continue
            last = ops[-1][1]
            for form in range(2):
                # 2.5*x + e, and e itself when it depends on x
                steps = [['in', 'a', [2], None], ['out', 'x', [2], None]] + ops
                if form == 0:
                    steps = steps + lin('r', 'x', last) + [['res', 'x', 'r']]
                else:
                    steps = steps + [['res', 'x', last]]
                yield steps


def pairs(tier):
    """two outputs; residual of each couples to the other in various ways"""
    f = {
        'none': lambda r, o: [],
        'o': lambda r, o: [['op', r + 'f', 'mulc', [o], {'c': 0.5}]],
        'sino': lambda r, o: [['op', r + 'f', 'sin', [o], {}]],
        'ao': lambda r, o: [['op', r + 'f', 'mul', ['a', o], {}]],
        'a': lambda r, o: [['op', r + 'f', 'mulc', ['a'], {'c': 0.75}]],
        'b': lambda r, o: [['op', r + 'f', 'mulc', ['b'], {'c': 1.25}]],
        'abo': lambda r, o: [['op', r + 'g', 'mul', ['a', 'b'], {}], ['op', r + 'f', 'mul', [r + 'g', o], {}]],
        'sh': lambda r, o: [['op', r + 'f', 'sin', ['sh'], {}]],
    }
    for (k1, k2), sh, order, dorder in itertools.product(itertools.product(f, repeat=2), ([1], [2], [2, 2]), (0, 1), (0, 1)):
        if tier == 'quick' and sh != [1] and (order or dorder):
            continue
        head = [['in', 'a', sh, None], ['in', 'b', sh, None]]
        outs = [['out', 'x', sh, None], ['out', 'y', sh, 0.5]]
        if order:
            outs.reverse()
        body = []
        if 'sh' in (k1, k2):
            body += [['op', 'sh1', 'mul', ['x', 'a'], {}], ['op', 'sh', 'add', ['sh1', 'y'], {}]]
        defs = []
        for r, o, x, k in (('p', 'y', 'x', k1), ('q', 'x', 'y', k2)):
            st = f[k](r, o)
            if st:
                st = st + lin(r, x, r + 'f', 2.5 if r == 'p' else 3.)
            else:
                st = [['op', r + 'c', 'mulc', [x], {'c': 2.}], ['op', r, 'sub', [r + 'c', 'a'], {}]]
            defs.append(st + [['res', x, r]])
        if dorder:
            defs.reverse()
        yield head + outs + body + defs[0] + defs[1]


def chained(tier):
    """a residual that is an operand of another residual; three outputs in a ring"""
    for sh, when, o in itertools.product(([1], [2]), (0, 1), (0, 1)):
        head = [['in', 'a', sh, None], ['out', 'x', sh, None], ['out', 'y', sh, None]]
        p = [['op', 'pc', 'mulc', ['x'], {'c': 2.}], ['op', 'p', 'sub', ['pc', 'a'], {}]]
        q = [['op', 'qc', 'mulc', ['y'], {'c': 3.}], ['op', 'q', 'add', ['qc', 'p'], {}]]
        if o:
            q = [['op', 'qc', 'mul', ['y', 'p'], {}], ['op', 'qd', 'add', ['qc', 'y'], {}], ['op', 'q', 'sub', ['qd', 'x'], {}]]
        dx, dy = [['res', 'x', 'p']], [['res', 'y', 'q']]
        yield head + p + (dx + q + dy if when == 0 else q + dy + dx)
        yield head + p + q + (dx + dy if when == 0 else dy + dx)
    for perm in itertools.permutations(range(3)):
        n = 'xyz'
        head = [['in', 'a', [2], None]] + [['out', v, [2], None] for v in n]
        ds = []
        for i, v in enumerate(n):
            w = n[(i + 1) % 3]
            ds.append([['op', v + 'f', 'sin', [w], {}], ['op', v + 'g', 'sub', [v + 'f', 'a'], {}]] + lin(v + 'r', v, v + 'g') +
                      [['res', v, v + 'r']])
        yield head + [s for i in perm for s in ds[i]]


def arrays(tier):
    """residuals that mix entries"""
    v = ['in', 'a', [2], None]
    m = ['in', 'm', [2, 2], None]
    x = ['out', 'x', [2], None]
    eye = {'c': {'a': [3., 4.], 'd': 'float64'}}
    yield [v, m, x, ['op', 's', 'matvec', ['m', 'x'], {}]] + lin('r', 'x', 's', 4.)[:1] + \
        [['op', 't', 'add', ['rc', 's'], {}], ['op', 'r', 'sub', ['t', 'a'], {}], ['res', 'x', 'r']]
    yield [v, x, ['op', 's', 'sum', ['x'], {}], ['op', 'e', 'expand', ['s'], {'shape': [2]}], ['op', 'c', 'mulc', ['x'], eye],
           ['op', 't', 'add', ['c', 'e'], {}], ['op', 'r', 'sub', ['t', 'a'], {}], ['res', 'x', 'r']]
    yield [v, x, ['op', 'n', 'inner', ['x', 'a'], {}], ['op', 'e', 'expand', ['n'], {'shape': [2]}], ['op', 'c', 'mulc', ['x'], eye],
           ['op', 'r', 'sub', ['c', 'e'], {}], ['res', 'x', 'r']]
    yield [['in', 'a', [2, 2], None], ['out', 'x', [2, 2], None], ['op', 't', 'transpose', ['x'], {}],
           ['op', 'c', 'mulc', ['x'], {'c': 3.}], ['op', 's', 'add', ['c', 't'], {}], ['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']]
    yield [['in', 'a', [2, 2], None], ['out', 'x', [2, 2], None], ['op', 't', 'matmat', ['x', 'a'], {}],
           ['op', 'c', 'mulc', ['x'], {'c': 5.}], ['op', 's', 'add', ['c', 't'], {}], ['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']]
    # scalar unknown, array data; outputs of different shapes
    yield [v, ['out', 'x', [1], None], ['op', 'b', 'cos', ['a'], {}], ['op', 's', 'inner', ['a', 'b'], {}], ['op', 'q', 'mul', ['x', 's'], {}],
           ['op', 'r', 'csub', ['q'], {'c': 2.}], ['res', 'x', 'r']]
    yield [v, x, ['out', 'y', [1], None], ['op', 's', 'sum', ['x'], {}], ['op', 'c', 'mulc', ['y'], {'c': 3.}],
           ['op', 'r', 'sub', ['c', 's'], {}], ['op', 'e', 'expand', ['y'], {'shape': [2]}], ['op', 'k', 'mulc', ['x'], {'c': 5.}],
           ['op', 'l', 'add', ['k', 'e'], {}], ['op', 'q', 'sub', ['l', 'a'], {}], ['res', 'y', 'r'], ['res', 'x', 'q']]
    yield [v, x, ['op', 'i', 'idx', ['x'], {'k': 0}], ['op', 'j', 'idx', ['a'], {'k': 1}], ['op', 'k', 'mul', ['i', 'j'], {}],
           ['op', 'e', 'expand', ['k'], {'shape': [2]}], ['op', 'c', 'mulc', ['x'], {'c': 4.}], ['op', 't', 'add', ['c', 'e'], {}],
           ['op', 'r', 'subc', ['t'], {'c': 1.}], ['res', 'x', 'r']]
    for sgn in (2., -2.):
        yield [v, x, ['op', 'k', 'sum', ['a'], {}], ['op', 'u', 'subc', ['k'], {'c': sgn}],
               ['op', 'f', 'mulc', ['x'], {'c': 3.}], ['op', 'g', 'mul', ['x', 'x'], {}], ['op', 'h', 'if_else', ['u', 'f', 'g'], {}]] + \
            lin('s', 'x', 'h') + [['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']]


def larger(tier):
    """residuals of more entries and higher rank"""
    S = ([5], [12], [2, 3], [3, 2], [1, 4], [2, 1, 3], [2, 2, 3], [2, 1, 2, 2])
    E = list(exprs(1, ['x', 'a'])) + list(exprs(2, ['x', 'a']))[::23 if tier == 'quick' else 3]
    for i, ops in enumerate(E):
        for k in range(3 if tier == 'quick' else len(S)):
            s = S[(i + k) % len(S)]
            yield [['in', 'a', s, None], ['out', 'x', s, None]] + ops + lin('r', 'x', ops[-1][1]) + [['res', 'x', 'r']]
    # rows of the residual use other entries
    for s in S:
        n = len(s)
        new = list(s[::-1])
        L = 'ijkl'[:n]
        yield [['in', 'a', new, None], ['out', 'x', s, None], ['op', 't', 'reorder_axes', ['a'], {'op': L + '->' + L[::-1]}], ['op', 'u', 'mul', ['t', 'x'], {}]] + \
            lin('r', 'x', 'u') + [['res', 'x', 'r']]
        if n > 1:
            yield [['in', 'a', s, None], ['out', 'x', s, None], ['out', 'y', new, None], ['op', 't', 'reorder_axes', ['y'], {'op': L + '->' + L[::-1]}],
                   ['op', 'u', 'sin', ['t'], {}], ['op', 'v', 'add', ['u', 'a'], {}]] + lin('r', 'x', 'v') + \
                [['op', 'w', 'reorder_axes', ['x'], {'op': L + '->' + L[::-1]}], ['op', 'z', 'cos', ['w'], {}]] + lin('q', 'y', 'z', 3.) + [['res', 'y', 'q'], ['res', 'x', 'r']]
        for ax in range(n):
            if n > 1:
                keep = [d for j, d in enumerate(s) if j != ax]
                let = ''.join(c for j, c in enumerate(L) if j != ax)
                if keep == [1]:
                    continue
                yield [['in', 'a', s, None], ['out', 'x', s, None], ['op', 't', 'sum', ['x'], {'axes': [ax]}],
                       ['op', 'u', 'expand', ['t'], {'shape': s, 'indices': let + '->' + L}], ['op', 'v', 'mulc', ['u'], {'c': 0.2}],
                       ['op', 'w', 'add', ['v', 'a'], {}]] + lin('r', 'x', 'w', 4.) + [['res', 'x', 'r']]
    for n in (3, 5, 8):
        s = [n]
        a, x, m = ['in', 'a', s, None], ['out', 'x', s, None], ['in', 'm', [n, n], None]
        yield [a, m, x, ['op', 't', 'matvec', ['m', 'x'], {}]] + lin('r', 'x', 't', 2. + n)[:1] + [['op', 'u', 'add', ['rc', 't'], {}], ['op', 'r', 'sub', ['u', 'a'], {}], ['res', 'x', 'r']]
        # every entry by index, in another order
        yield [a, x] + [['op', 'i%d' % k, 'idx', ['x'], {'k': k}] for k in range(n)] + [['op', 'j%d' % k, 'idx', ['a'], {'k': n - 1 - k}] for k in range(n)] + \
            [['op', 'p0', 'mul', ['i0', 'j0'], {}]] + [s_ for k in range(1, n) for s_ in (['op', 'q%d' % k, 'mul', ['i%d' % k, 'j%d' % k], {}], ['op', 'p%d' % k, 'add', ['p%d' % (k - 1), 'q%d' % k], {}])] + \
            [['op', 'e', 'expand', ['p%d' % (n - 1)], {'shape': s}]] + lin('r', 'x', 'e', 3. + n) + [['res', 'x', 'r']]
        for lo, hi, st in ((0, n - 1, None), (1, n, None), (None, None, 2)):
            ln = len(range(n)[slice(lo, hi, st)])
            yield [a, x, ['op', 'h', 'idx', ['x'], {'k': ['s', lo, hi, st]}], ['op', 'g', 'idx', ['a'], {'k': ['s', n - ln, n, None]}], ['op', 'd', 'inner', ['h', 'g'], {}],
                   ['op', 'e', 'expand', ['d'], {'shape': s}]] + lin('r', 'x', 'e', 3. + n) + [['res', 'x', 'r']]


def children(tier):
    """child systems inside the component"""
    for kind, sh in itertools.product(('with', 'make', 'cls', 'pre', 'exec'), ([1], [2])):
        n = 1 if sh == [1] else 2
        for args, regs in ((['a'], 0), (['x'], 0), (['a', 'x'], 0), (['x', 'a'], 0), (['w'], 1), (['a', 'w'], 1), ([], 0)):
            if not args and kind not in ('with', 'pre', 'cls'):
                continue
            head = [['in', 'a', sh, None], ['out', 'x', sh, None]]
            if regs:
                head += [['op', 'w', 'mul', ['x', 'a'], {}], ['reg', 'w', 'wreg']]
            co = [0.4, 0.3][:len(args)] if args else [1.5] * n
            c = [['child', 'k', kind, args, co]]
            tail = lin('s', 'x', 'k') + [['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']]
            yield head + c + tail
            # declared after the child as well
            yield head[:1] + ([['child', 'k0', kind, ['a'], [0.7]]] if kind != 'make' or args else []) + head[1:] + c + \
                ([['op', 'r0', 'mul', ['k0', 'k'], {}]] if kind != 'make' or args else [['op', 'r0', 'neg', ['k'], {}]]) + \
                lin('s', 'x', 'r0') + [['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']]
            # a second output, defined before the child is added
            pre = [['out', 'y', sh, None], ['op', 'yc', 'mulc', ['y'], {'c': 2.}], ['op', 'yr', 'sub', ['yc', 'a'], {}], ['res', 'y', 'yr']]
            yield head + pre + c + tail
            # and one that uses the child, too
            post = [['out', 'y', sh, None], ['op', 'yc', 'mulc', ['y'], {'c': 2.}], ['op', 'yr', 'sub', ['yc', 'k'], {}], ['res', 'y', 'yr']]
            yield head + c + post + tail


def inits(tier):
    """the root that is found depends on the initial value"""
    for v in (-3., 3., -0.5, 6., [2.], [-2.]):
        yield [['in', 'a', [1], None], ['out', 'x', [1], v], ['op', 's', 'mul', ['x', 'x'], {}],
               ['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']]
    for v in ([1., -1.], [-2., 3.], -4.):
        yield [['in', 'a', [2], None], ['out', 'x', [2], v], ['op', 's', 'mul', ['x', 'x'], {}],
               ['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']]


def wide(tier):
    """many inputs, many outputs; each residual reads all inputs / its share of them / those up to its number"""
    for m, n, pat, sh in itertools.product((1, 2, 3, 4, 5, 8), (1, 2, 3, 5, 8), ('all', 'share', 'upto'), ([1], [2])):
        if m + n < 4 or sh == [1] and tier == 'quick' and (m + n) % 2:
            continue
        steps = [['in', 'a%d' % j, sh, None] for j in range(m)] + [['out', 'x%d' % i, sh, None] for i in range(n)]
        for i in range(n):
            cur = 'x%d' % ((i + 1) % n)
            steps.append(['op', 's%d' % i, 'sin', [cur], {}])
            cur = 's%d' % i
            for j in range(m):
                if pat == 'all' or pat == 'share' and j % n == i or pat == 'upto' and j <= i:
                    steps.append(['op', 'k%d_%d' % (i, j), 'mulc', ['a%d' % j], {'c': 0.25 * (i + 1) - 0.5 * (j + 1)}])
                    steps.append(['op', 't%d_%d' % (i, j), 'add', [cur, 'k%d_%d' % (i, j)], {}])
                    cur = 't%d_%d' % (i, j)
            steps += lin('r%d' % i, 'x%d' % i, cur, 2.5 + i) + [['res', 'x%d' % i, 'r%d' % i]]
        yield steps


def registered(tier):
    """many registered expressions, used by the residual or by nothing, declared before, around and after it"""
    for n, where, use, k in itertools.product((1, 2, 3, 4, 5, 6, 8, 12), ('before', 'after', 'around'), ('none', 'last', 'all', 'chain'), (1, 2)):
        if where == 'after' and use != 'none' or where == 'around' and n < 2:
            continue
        sh = [2]
        head = [['in', 'a', sh, None]] + [['out', 'x%d' % i, sh, None] for i in range(k)]
        regs, cur = [], []
        for i in range(n):
            src = cur[-1] if use == 'chain' and cur else ('x0', 'a')[i % 2]
            regs += [['op', 'w%d' % i, 'mulc', [src], {'c': 0.5 + 0.125 * i}], ['reg', 'w%d' % i, 'wreg%d' % i]]
            cur.append('w%d' % i)
        cut = {'before': n, 'after': 0, 'around': n // 2}[where]
        read = [] if use == 'none' else cur[:cut] if use == 'all' else cur[cut - 1:cut]
        body = []
        for i in range(k):
            last = 'a' if i == 0 else 'x%d' % (i - 1)
            for j, w in enumerate(read):
                body += [['op', 'q%d_%d' % (i, j), 'sin', [w], {}], ['op', 't%d_%d' % (i, j), 'add', [last, 'q%d_%d' % (i, j)], {}]]
                last = 't%d_%d' % (i, j)
            body += lin('r%d' % i, 'x%d' % i, last, 14.5 + i) + [['res', 'x%d' % i, 'r%d' % i]]
        yield head + regs[:2 * cut] + body + regs[2 * cut:]


LO, HI = ['s', 0, 2, None], ['s', 2, 4, None]


def gathered(tier, res=None):
    """residuals with assembled arrays and independent variables in them"""
    res = res or (lambda x, r: ['res', x, r])
    a, x = ['in', 'a', [4], None], ['out', 'x', [4], None]
    un = [('sin', {}), ('pow', {'c': 2}), ('neg', {}), ('exp', {})]
    for (f, p), (g, q) in itertools.product(un, repeat=2):
        for swap in (0, 1):
            # pieces: of the unknown, of the input, of both
            for what in range(4):
                st = [['op', 'i', 'idx', ['x' if what != 1 else 'a'], {'k': LO}], ['op', 'j', 'idx', ['x' if what in (0, 3) else 'a'], {'k': HI if what != 3 else LO}],
                      ['op', 'u', f, ['i'], p], ['op', 'v', g, ['j'], q]]
                if what == 3:
                    st += [['op', 'k', 'idx', ['a'], {'k': HI}], ['op', 'w', 'mul', ['v', 'k'], {}]]
                pcs = [[LO, 'u'], [HI, 'w' if what == 3 else 'v']]
                st += [['asm', 't', [4], pcs[::-1] if swap else pcs], ['op', 'm', 'mulc', ['t'], {'c': 0.3}]] + lin('n', 'x', 'm') + [['op', 'r', 'sub', ['n', 'a'], {}]]
                yield [a, x] + st + [res('x', 'r')]
        # the residuals of two unknowns from parts of one assembled array, the unknowns put together in one
        two = [a, ['out', 'x', [2], None], ['out', 'y', [2], None], ['asm', 'z', [4], [[LO, 'x'], [HI, 'y']]], ['op', 's', f, ['z'], p],
               ['op', 't', 'mulc', ['s'], {'c': 0.3}], ['op', 'c', 'mulc', ['z'], {'c': 3.}], ['op', 'e', 'add', ['t', 'c'], {}], ['op', 'd', 'sub', ['e', 'a'], {}],
               ['op', 'q', 'idx', ['d'], {'k': LO}], ['op', 'r', 'idx', ['d'], {'k': HI}]]
        if f == g:
            yield two + [res('x', 'q'), res('y', 'r')]
            yield two + [res('y', 'r'), res('x', 'q')]
        # independent variables of the component
        for pos in (0, 1, 2):
            st = [['in', 'a', [2], None], ['out', 'x', [2], None]]
            st.insert(pos, ['ind', 'w', [2], [2.5, 3.]])
            st += [['op', 's', f, ['x'], p], ['op', 'u', g, ['w'], q], ['op', 'v', 'mulc', ['u'], {'c': 0.1}], ['op', 't', 'mul', ['s', 'v'], {}],
                   ['op', 'c', 'mul', ['w', 'x'], {}], ['op', 'd', 'add', ['c', 't'], {}], ['op', 'r', 'sub', ['d', 'a'], {}]]
            yield st + [res('x', 'r')]
    # two-dimensional
    for f, p in un:
        for cols in (0, 1):
            key = [['t', [['s', 0, 2, None], ['s', i, i + 1, None]]] if cols else ['t', [['s', i, i + 1, None], ['s', 0, 2, None]]] for i in (0, 1)]
            key = [['t'] + k[1] for k in key]
            yield [['in', 'a', [2, 2], None], ['out', 'x', [2, 2], None], ['op', 'i', 'idx', ['x'], {'k': key[0]}], ['op', 'j', 'idx', ['x'], {'k': key[1]}],
                   ['op', 'u', f, ['i'], p], ['op', 'v', 'mul', ['i', 'j'], {}], ['asm', 't', [2, 2], [[key[0], 'u'], [key[1], 'v']]],
                   ['op', 'm', 'mulc', ['t'], {'c': 0.3}]] + lin('n', 'x', 'm') + [['op', 'r', 'sub', ['n', 'a'], {}], res('x', 'r')]


def cases(tier):
    n = 0
    conf = [(s, h, j) for s in SOLV for h in HOST for j in ('fwd', 'rev') if h == 'om' or s.startswith('own')]
    for fam, full in ((single, 0), (pairs, 0), (chained, 1), (arrays, 1), (children, 0), (inits, 1), (wide, 0), (registered, 0), (gathered, 0), (larger, 0), (P.residual_steps, 0)):
        for steps in fam(tier):
            c = {'steps': steps, 'pts': PTS}
            if not I.uses({'steps': steps}) or not I.well_posed(c):
                continue
            cs = conf if full else [conf[n % len(conf)], conf[(n * 7 + 11) % len(conf)]]
            n += 1
            for s, h, j in cs:
                yield dict(c, solv=s, host=h, jac=j)


run = I.run
path = I.path
