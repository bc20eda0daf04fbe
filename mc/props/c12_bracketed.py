"""C12: bracketed implicit outputs end up at a root inside their bracket, entry by entry"""
import itertools

import numpy as np

from mc import implicit as I
from mc import pairs as P
from mc.props import c11_implicit as C11

ID = 'C12'
TITLE = 'Bracketed implicit outputs find the root inside the bracket'
LIN = ('brk-once', 'brk-gs', 'brk-jac', 'brk-direct', 'brk-krylov')
HOST = ('om', 'ot', 'child')
PTS = [['u', 0], ['pos', 1]]


def bounds(tier):
    return ('8 residual families with a sign change (both signs of the residual, monotone and not) x brackets {number, list per '
            'entry, default} x which end is positive, also different per entry x shapes (1,), (2,), (2,2), more entries and axes (up to 12, rank 4) with brackets of their own for every entry; roots at an end '
            'and in the middle of the bracket; residuals scaled by 1e-12..1e9, with a triple root, and brackets up to 1e15 wide; 1-3 bracketed outputs with different brackets and shapes, sharing inputs or '
            'depending on each other, in every order of definition; child systems inside; assembled arrays and independent variables in the residual; every third operation of the whole catalogue within the residual; linear solvers %s; embedded in '
            '{OpenMDAO group, omtools group, nested}; two points; {fwd, rev}' % (list(LIN), ))


# residual of x, given data a in (0.2, 2): op list ending in 'r', bracket that contains a sign change for such a
def fam(x, r, k, sgn):
    n = lambda s: r + s
    out = {
        'lin': ([['op', n('1'), 'sub', [x, 'a'], {}]], 0., 3.),
        'cube': ([['op', n('0'), 'pow', [x], {'c': 3}], ['op', n('1'), 'sub', [n('0'), 'a'], {}]], -1., 2.5),
        'sq': ([['op', n('0'), 'pow', [x], {'c': 2}], ['op', n('1'), 'sub', [n('0'), 'a'], {}]], 0., 4.),
        'sqn': ([['op', n('0'), 'mul', [x, x], {}], ['op', n('1'), 'sub', [n('0'), 'a'], {}]], -5., 0.),
        'exp': ([['op', n('0'), 'exp', [x], {}], ['op', n('1'), 'sub', [n('0'), 'a'], {}]], -3., 2.),
        'hump': ([['op', n('0'), 'sin', [x], {}], ['op', n('2'), 'mul', ['a', x], {}], ['op', n('3'), 'subc', [n('2'), ], {'c': 4.}],
                  ['op', n('1'), 'add', [n('0'), n('3')], {}]], -2., 40.),
        'quad': ([['op', n('0'), 'mul', [x, x], {}], ['op', n('2'), 'mulc', [x], {'c': -4.}], ['op', n('3'), 'add', [n('0'), n('2')], {}],
                  ['op', n('1'), 'add', [n('3'), 'a'], {}]], 0., 2.),
        'inv': ([['op', n('0'), 'pow', [x], {'c': -1}], ['op', n('1'), 'sub', [n('0'), 'a'], {}]], 0.05, 30.),
    }[k]
    ops, x1, x2 = out
    ops = ops + [['op', r, 'neg' if sgn < 0 else 'mulc', [n('1')], {} if sgn < 0 else {'c': 2.}]]
    return ops, x1, x2


FAMS = ('lin', 'cube', 'sq', 'sqn', 'exp', 'hump', 'quad', 'inv')


def size(sh):
    return int(np.prod(sh))


def spread(x1, x2, sh, how):
    """spell a bracket: swapped ends, per entry values"""
    n = size(sh)
    if how == 'ab':
        return x1, x2
    if how == 'ba':
        return x2, x1
    lo = [x1 if x1 in (0., 0.05) else x1 - 0.25 * i for i in range(n)]
    hi = [x2 if x2 in (0., 2.) else x2 + 0.5 * i for i in range(n)]
    if how == 'arr':
        a, b = lo, hi
    elif how == 'mix':
        a = [lo[i] if i % 2 else hi[i] for i in range(n)]
        b = [hi[i] if i % 2 else lo[i] for i in range(n)]
    elif how == 'semi':  # one end a number, the other per entry
        a, b = x1, hi
    return (np.array(a).reshape(sh).tolist() if isinstance(a, list) else a,
            np.array(b).reshape(sh).tolist() if isinstance(b, list) else b)


def ok(case):
    """every residual changes sign over its bracket (entry by entry) at every point, decided by the reference"""
    for pt in case['pts']:
        ins = I.in_vals(case, pt)
        # order by dependency: find a consistent solution by bisection on the reference
        outs = I.init(case)
        for _ in range(6):
            for s in case['steps']:
                if s[0] != 'resb':
                    continue
                sh = I.shape_of(case, s[1])
                a, b = (np.array(v, dtype=float) * np.ones(sh) for v in (s[3:] if len(s) > 3 else (0., 1.)))

                def f(x):
                    return I.nodes(case, {**ins, **outs, s[1]: x})[s[2]]
                fa, fb = f(a), f(b)
                if np.any(fa * fb > 1e-12) or np.any(np.maximum(abs(fa), abs(fb)) < 1e-3):
                    if _ < 5:
                        continue
                    return False
                lo, hi = np.where(fa < fb, a, b), np.where(fa < fb, b, a)
                for __ in range(60):
                    m = 0.5 * (lo + hi)
                    fm = f(m)
                    lo, hi = np.where(fm < 0, m, lo), np.where(fm < 0, hi, m)
                outs[s[1]] = 0.5 * (lo + hi)
        if np.max(np.abs(I.R(case, ins, outs))) > 1e-8:
            return False
        if np.linalg.svd(I.dR(case, ins, outs), compute_uv=False)[-1] < 1e-2:
            return False
    return True


def single(tier):
    for k, sgn, sh, how in itertools.product(FAMS, (1, -1), ([1], [2], [2, 2]) if tier == 'quick' else ([1], [2], [3], [2, 2]),
                                        ('ab', 'ba', 'arr', 'mix', 'semi')):
        ops, x1, x2 = fam('x', 'r', k, sgn)
        b = spread(x1, x2, sh, how)
        yield [['in', 'a', sh, None], ['out', 'x', sh, None]] + ops + [['resb', 'x', 'r', b[0], b[1]]]
    for i, (k, sh, how) in enumerate(itertools.product(FAMS, ([5], [2, 3], [12], [2, 1, 2], [2, 2, 2, 1]), ('ab', 'arr', 'mix', 'semi'))):
        ops, x1, x2 = fam('x', 'r', k, (1, -1)[i // 4 % 2])
        b = spread(x1, x2, sh, how)
        yield [['in', 'a', sh, None], ['out', 'x', sh, None]] + ops + [['resb', 'x', 'r', b[0], b[1]]]
    # default bracket 0..1
    for sh, sgn in itertools.product(([1], [2], [2, 2]), (1, -1)):
        for k in ('lin', 'cube'):
            ops, _, _ = fam('x', 'r', k, sgn)
            h = [['in', 'b', sh, None], ['out', 'x', sh, None], ['op', 'a', 'mulc', ['b'], {'c': 0.45}]]
            yield h + ops + [['resb', 'x', 'r']]
            yield h + ops + [['resb', 'x', 'r', 1, 0]]
    # root at an end, in the middle, very close to an end; integer brackets
    for c, (x1, x2) in itertools.product((0., 1., 2., 0.5, 1.999999, 1e-7), ((0, 2), (2, 0), (-1, 3), (0., 8.), (-4, 2))):
        if min(x1, x2) <= c <= max(x1, x2):
            for sgn in (1., -2.):
                yield [['in', 'a', [1], None], ['out', 'x', [1], None], ['op', 'd', 'subc', ['x'], {'c': c}],
                       ['op', 'm', 'mul', ['d', 'a'], {}], ['op', 'r', 'mulc', ['m'], {'c': sgn}], ['resb', 'x', 'r', x1, x2]]
    # initial values are irrelevant
    for v in (-7., 0., 100.):
        ops, x1, x2 = fam('x', 'r', 'sq', 1)
        yield [['in', 'a', [2], None], ['out', 'x', [2], v]] + ops + [['resb', 'x', 'r', x1, x2]]


def several(tier):
    ks = ('lin', 'cube', 'sqn', 'exp') if tier == 'quick' else FAMS
    for k1, k2, s1, s2, sh, how in itertools.product(ks, ks, (1, -1), (1, -1), ([1], [2]), ('ab', 'ba', 'mix')):
        if tier == 'quick' and (sh == [2] and (s1 != 1 or how == 'ab') or k1 != k2 and s1 != s2):
            continue
        o1, a1, b1 = fam('x', 'p', k1, s1)
        o2, a2, b2 = fam('y', 'q', k2, s2)
        c1 = spread(a1, b1, sh, how)
        c2 = spread(a2, b2, sh, 'ba' if how == 'ab' else 'ab')
        head = [['in', 'a', sh, None], ['out', 'x', sh, None], ['out', 'y', sh, None]]
        yield head + o1 + [['resb', 'x', 'p'] + list(c1)] + o2 + [['resb', 'y', 'q'] + list(c2)]
        if k1 != k2:
            yield head + o1 + o2 + [['resb', 'y', 'q'] + list(c2)] + [['resb', 'x', 'p'] + list(c1)]
    # three outputs of different shapes
    for perm in itertools.permutations(range(3)):
        parts = [
            [['op', 'f', 'sub', ['x', 'a'], {}], ['resb', 'x', 'f', [-1., 5.], [4., -2.]]],
            [['op', 's', 'sum', ['a'], {}], ['op', 'y2', 'mul', ['y', 'y'], {}], ['op', 'g', 'sub', ['s', 'y2'], {}], ['resb', 'y', 'g', -3, 0]],
            [['op', 'o', 'outer', ['a', 'a2'], {}], ['op', 'z2', 'exp', ['z'], {}], ['op', 'h', 'sub', ['z2', 'o'], {}],
             ['resb', 'z', 'h', -20., [[2., 3.], [4., 5.]]]],
        ]
        yield [['in', 'a', [2], None], ['out', 'x', [2], None], ['out', 'y', [1], None], ['out', 'z', [2, 2], None],
               ['op', 'a2', 'addc', ['a'], {'c': .5}]] + [s for i in perm for s in parts[i]]


def coupled(tier):
    """outputs that depend on other outputs, defined in either order"""
    for sh in ([1], [2]):
        head = [['in', 'a', sh, None], ['out', 'x', sh, None], ['out', 'y', sh, None], ['out', 'z', sh, None]]
        dx = [['op', 'p0', 'mul', ['x', 'x'], {}], ['op', 'p', 'sub', ['p0', 'a'], {}], ['resb', 'x', 'p', 0., 3.]]
        dy = [['op', 'q0', 'mul', ['y', 'x'], {}], ['op', 'q', 'sub', ['q0', 'a'], {}], ['resb', 'y', 'q', 4., 0.]]
        dy2 = [['op', 'q0', 'mulc', ['y'], {'c': 3.}], ['op', 'q1', 'sin', ['x'], {}], ['op', 'q', 'sub', ['q1', 'q0'], {}],
               ['resb', 'y', 'q', -1., 1.]]
        dz = [['op', 't0', 'pow', ['z'], {'c': 3}], ['op', 't', 'sub', ['y', 't0'], {}], ['resb', 'z', 't', -2., 2.]]
        for mid in (dy, dy2):
            for perm in itertools.permutations((dx, mid, dz)):
                yield head + [s for d in perm for s in d]
            for perm in itertools.permutations((dx, mid)):
                yield head[:3] + [s for d in perm for s in d]
        # mutually dependent
        mx = [['op', 'p0', 'mulc', ['x'], {'c': 2.}], ['op', 'p1', 'sin', ['y'], {}], ['op', 'p2', 'sub', ['p0', 'p1'], {}],
              ['op', 'p', 'sub', ['p2', 'a'], {}], ['resb', 'x', 'p', -3., 3.]]
        my = [['op', 'q0', 'mulc', ['y'], {'c': 3.}], ['op', 'q1', 'cos', ['x'], {}], ['op', 'q', 'sub', ['q1', 'q0'], {}],
              ['resb', 'y', 'q', -1., 1.]]
        for perm in itertools.permutations((mx, my)):
            yield head[:3] + [s for d in perm for s in d]


def children(tier):
    for kind, sh in itertools.product(('with', 'make', 'cls', 'pre', 'exec'), ([1], [2])):
        n = size(sh)
        for args in (['a'], ['x'], ['a', 'x'], []):
            if not args and kind not in ('with', 'pre', 'cls'):
                continue
            head = [['in', 'a', sh, None], ['out', 'x', sh, None]]
            c = [['child', 'k', kind, args, [0.4, 0.3][:len(args)] if args else [1.5] * n]]
            tail = [['op', 's0', 'mulc', ['x'], {'c': 2.5}], ['op', 's', 'add', ['s0', 'k'], {}], ['op', 'r', 'sub', ['s', 'a'], {}],
                    ['resb', 'x', 'r', 4., -4.]]
            yield head + c + tail
            y = [['out', 'y', sh, None], ['op', 'y0', 'pow', ['y'], {'c': 3}], ['op', 'yr', 'sub', ['k', 'y0'], {}],
                 ['resb', 'y', 'yr', -9., 9.]]
            yield head + c + tail + y
            yield head + c + y + tail


def scaled(tier):
    """residuals however small, large or flat, and brackets however wide"""
    wide = ((0., 3.), (-1e6, 3e6), (7e12, -1e12), (0., 1e15))
    for k, f, (x1, x2), sh in itertools.product((1, 3), (1e-12, -1e-9, 1., -1e9), wide, ([1], [2])):
        if tier == 'quick' and (sh == [2]) != (f in (1e-12, 1.)):
            continue
        st = [['in', 'a', sh, None], ['out', 'x', sh, None], ['op', 'd', 'sub', ['x', 'a'], {}]]
        if k == 3:
            st += [['op', 'e', 'pow', ['d'], {'c': 3}]]
        yield st + [['op', 'r', 'mulc', ['e' if k == 3 else 'd'], {'c': f}], ['resb', 'x', 'r', x1, x2]]


def gathered(tier):
    """assembled arrays and independent variables in the residuals"""
    for b in ((-1., 5.), (6., -2.)):
        for st in C11.gathered(tier, lambda x, r: ['resb', x, r, *b]):
            # each entry of the residual depends on its own entry of the unknown
            if not any(s[0] == 'op' and (s[1] == 'w' or s[2] == 'mul' and s[3] == ['i', 'j']) for s in st):
                yield st


def cases(tier):
    n = 0
    for steps in scaled(tier):
        n += 1
        flat = any(s[0] == 'op' and s[2] == 'pow' for s in steps)
        yield {'steps': steps, 'pts': PTS, 'solv': LIN[:2][n % 2], 'host': HOST[n // 2 % 3], 'jac': None if flat else ('fwd', 'rev')[n // 6 % 2], 'tol': 1e300}
    conf = [(s, h, j) for s in LIN for h in HOST for j in ('fwd', 'rev')]
    conf = [c for c in conf if c[1] == 'om' or c[0] in ('brk-once', 'brk-gs', 'brk-direct')]
    for f, full in ((single, 0), (several, 0), (coupled, 1), (children, 0), (gathered, 0), (P.bracket_steps, 0)):
        for steps in f(tier):
            c = {'steps': steps, 'pts': PTS}
            if not ok(c):
                continue
            cs = conf if full and tier != 'quick' else [conf[n % len(conf)], conf[(n * 7 + 11) % len(conf)]][:1 + (tier != 'quick')]
            n += 1
            for s, h, j in cs:
                yield dict(c, solv=s, host=h, jac=j)


def run(case):
    return I.run(case, bracket=True)


path = I.path
