"""an output assembled by assigning to its indices is exactly that array"""
import itertools

import numpy as np

from mc import memory, pairs, story
from mc.ops import as_slices

ID = 'C09'
SRC = ('in', 'std', 'reg', 'late', 'part')


def bounds(tier):
    return ('every way of covering vectors of length 1..4 and a (2,3), (3,2)%s array with disjoint int / slice / stepped slice / '
            'tuple keys, every order of assignment (<= 3 pieces; reversed and rotated beyond), also leaving elements out; piece = '
            'declared input, expression, expression registered before / after, element range of another array; result used '
            '{not, before, between, after, by index, assembled into another output}; vectors up to 12 long and arrays up to rank 4 divided in regular ways (strides, up to three ranges, single entries) among up to '
            '12 pieces; arrays assembled from the results of two operations of the whole catalogue; two memory placements'
            % (', (2,2,2)' if tier == 'thorough' else ''))


def keys1(n):
    """spellings, by the set of positions they select"""
    res = {}
    for i in range(n):
        res.setdefault((i, ), []).append(i)
    for a in [None] + list(range(n)):
        for b in [None] + list(range(1, n + 1)):
            for st in (None, 1, 2, 3):
                s = tuple(range(n)[slice(a, b, st)])
                if s:
                    res.setdefault(s, []).append(['s', a, b, st])
    return res


def keysn(shape):
    if len(shape) == 1:
        return keys1(shape[0])
    res = {}
    per = [keys1(d) for d in shape]
    flat = np.arange(int(np.prod(shape))).reshape(shape)
    cnt = 0
    for combo in itertools.product(*per):
        sel = tuple(int(q) for q in flat[np.ix_(*combo)].reshape(-1))
        for j in range(3):
            cnt += 1
            res.setdefault(sel, []).append(['t'] + [per[d][c][(cnt + d + j) % len(per[d][c])] for d, c in enumerate(combo)])
    return res


def covers(n, keys, most, partial):
    """sets of disjoint selections covering range(n) (or leaving one element out)"""
    def rec(free, acc):
        if not free:
            yield list(acc)
            return
        if len(acc) == most:
            return
        f = min(free)
        for k in keys:
            if f in k and all(e in free for e in k):
                acc.append(k)
                yield from rec(free - set(k), acc)
                acc.pop()

    full = set(range(n))
    yield from rec(full, [])
    if partial:
        for e in range(n):
            if n > 1:
                yield from rec(full - {e}, [])


def orders(k):
    if k <= 3:
        return list(itertools.permutations(range(k)))
    r = list(range(k))
    return [tuple(r), tuple(reversed(r)), tuple(r[k // 2:] + r[:k // 2])]


USES = ('no', 'before', 'between', 'after', 'index', 'chain')


def mk(shape, sels, order, keys, seed, use, srcs, jac, mem):
    shape = list(shape)
    flat = np.zeros(shape)
    st = []
    pieces = []
    late = []
    for i, sel in enumerate(sels):
        key = keys[sel][(seed + i) % len(keys[sel])]
        psh = list(flat[as_slices(key)].shape)
        kind = srcs[i % len(srcs)]
        v = 'p%d' % i
        if kind == 'in':
            st.append(['in', v, 'i%d' % i, psh])
        elif kind == 'part' and len(psh) == 1:
            st += [['in', 'b%d' % i, 'i%d' % i, [psh[0] + 1]], ['op', v, 'idx', ['b%d' % i], {'k': ['s', 1, psh[0] + 1, None]}]]
        else:
            st += [['in', 'i%d' % i, 'i%d' % i, psh], ['op', v, 'tanh' if i % 2 else 'sin', ['i%d' % i], {}]]
            if kind == 'reg':
                st.append(['reg', 'r%d' % i, v])
            elif kind == 'late':
                late.append(['reg', 'r%d' % i, v])
        pieces.append((key, v))
    st.append(['out', 'o', 'o', shape])
    if use == 'before':
        st.append(['op', 'd', 'mulc', ['o'], {'c': 2.}])
    for q, i in enumerate(order):
        st.append(['set', 'o', pieces[i][0], pieces[i][1]])
        if use == 'between' and q == 0:
            st.append(['op', 'd', 'sin', ['o'], {}])
    st += late
    if use == 'after':
        st.append(['op', 'd', 'add', ['o', 'o'], {}])
    elif use == 'index':
        k = ['t'] + [['s', 0, 1, None]] * len(shape) if len(shape) > 1 else ['s', len(range(*[0, shape[0]])) - 1, None, None]
        st.append(['op', 'd', 'idx', ['o'], {'k': k}])
    elif use == 'chain':
        n = shape[0]
        full = ['t'] + [['s', None, None, None]] * len(shape) if len(shape) > 1 else ['s', None, None, None]
        st += [['op', 'e', 'mulc', ['o'], {'c': -1.}], ['out', 'o2', 'o2', shape], ['set', 'o2', full, 'e'],
               ['op', 'd', 'mul', ['o', 'o2'], {}]]
    if use != 'no':
        st.append(['reg', 'd', 'd'])
    return {'story': st, 'pts': [['pm', 0], ['u', 1]], 'jac': jac, 'm': mem}


def cases(tier):
    n = 0
    J = ('fwd', 'rev')
    sh = [(1, ), (2, ), (3, ), (4, ), (2, 3), (3, 2), (2, 2)] + ([(2, 2, 2), (5, )] if tier == 'thorough' else [])
    for shape in sh:
        keys = keysn(shape)
        size = int(np.prod(shape))
        for ci, sels in enumerate(covers(size, keys, 4 if size > 4 else 4, size <= 6)):
            if size > 4 and len(sels) > 2 and size > 6 and ci % 5:
                continue
            for oi, order in enumerate(orders(len(sels))):
                if len(sels) > 2 and size > 3 and tier == 'quick' and oi % 3 != ci % 3:
                    continue
                for r in range(5 if size <= 2 or tier == 'thorough' else 1):
                    n += 1
                    uses = USES if tier == 'thorough' or size < 5 else (USES[n % 6], USES[(n + 1) % 6], USES[(n + 3) % 6])
                    for ui, use in enumerate(uses):
                        srcs = [SRC[(n + ui + r + j * (1 + n % 3)) % 5] for j in range(len(sels))]
                        c = mk(shape, sels, order, keys, n + r, use, srcs, J[n % 2], n % 2)
                        yield c


    for i, (shape, ks, order) in enumerate(large(tier)):
        flat = np.arange(int(np.prod(shape))).reshape(shape)
        sels = [tuple(int(q) for q in flat[as_slices(k)].reshape(-1)) for k in ks]
        srcs = [SRC[(i + j * (1 + i % 3)) % 5] for j in range(len(sels))]
        yield mk(shape, sels, order, {s: [k] for s, k in zip(sels, ks)}, 0, USES[i % 6], srcs, J[i // 2 % 2], i // 3 % 2)
    for n, st in pairs.assembled(tier):
        c = pairs.safe({'story': st, 'pts': [], 'jac': J[n // 2 % 2], 'm': n % 2})
        if c:
            yield c


def parts(n, tier):
    """ways of dividing range(n) among keys"""
    full = ['s', None, None, None]
    yield [full]
    if n == 1:
        return
    yield list(range(n))
    for k in range(2, n):
        # strides, stop spelled in three ways
        for v in range(3):
            yield [['s', r if r or v else None, (None, n, r + k * ((n - 1 - r) // k) + 1)[v], k] for r in range(k)]
    for c in range(1, n):
        yield [['s', None if c % 2 else 0, c, None], ['s', c, None if c % 3 else n, None if c % 2 else 1]]
        for d in range(c + 1, n):
            yield [['s', 0, c, None], ['s', c, d, None], ['s', d, n, None]]
    # every other entry at once, the others one by one
    yield [['s', 0, None, 2]] + list(range(1, n, 2))
    yield list(range(0, n, 2)) + [['s', 1, None, 2]]


def large(tier):
    """longer and higher-dimensional arrays, divided in regular ways"""
    i = 0
    for n in (5, 6, 7, 8, 12) + ((9, 13, 16, 40) if tier != 'quick' else ()):
        for ks in parts(n, tier):
            for order in orders(len(ks))[-3:]:
                yield (n, ), ks, order
    for shape in ((4, 5), (2, 7), (7, 2), (2, 3, 4), (4, 1, 3), (2, 2, 2, 2), (3, 2, 1, 2)):
        per = [list(parts(n, tier)) for n in shape]
        if tier == 'quick' or len(shape) > 2:
            per = [p if len(p) < 6 else p[::(2 if len(shape) == 2 else 3)] for p in per]
        for combo in itertools.product(*per):
            i += 1
            if np.prod([len(c) for c in combo]) > 12 or tier == 'quick' and len(shape) > 2 and i % 3:
                continue
            ks = [['t'] + list(k) for k in itertools.product(*combo)]
            yield shape, ks, orders(len(ks))[-1 - i % min(3, len(orders(len(ks))))]


path = story.path


def run(case):
    m = list(range(60))
    with memory.ranks(m if case['m'] else m[::-1]):
        return story.run(case)
