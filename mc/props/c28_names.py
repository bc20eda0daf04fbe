"""C28: however many expressions were formed before, and however many a model has, nothing gets mixed up"""
import ctypes
import itertools
import os
import pickle
import re
import signal
import traceback

from mc import gen, implicit, prog, story

ID = 'C28'
TITLE = 'Results do not depend on how many expressions exist'
VALID = re.compile(r'^[a-zA-Z_][_a-zA-Z0-9]*$')
# generated names change their length or first characters around these counts
EDGES = {'quick': ((0, 75), (3930, 3975), (250030, 250053)), 'thorough': ((0, 200), (3890, 4040), (249960, 250100))}


def bounds(tier):
    return ('%d kinds of models (expressions, selections, assembled and cyclic outputs, child groups, residuals) built after every '
            'number of earlier expressions in %s, each in a process of its own; names of the first %d expressions; chains, fans '
            'and ladders of every length up to %d, and of the lengths %s' %
            (len(models()), list(EDGES[tier]), LAST[tier], SIZE[tier][-1], list(LONG[tier])))


LAST = {'quick': 260000, 'thorough': 1000000}
SIZE = {'quick': list(range(1, 20)) + [31, 32, 33, 62, 63, 64, 65, 66, 70, 100, 130],
        'thorough': list(range(1, 71)) + [100, 127, 128, 129, 130, 150, 200, 256, 300]}


def models():
    S = [2]
    x = [['x0', S, 'in', None], ['x1', S, 'in', None]]
    res = [
        ('prog', gen.case(x, [['sin', [0], {}], ['mul', [2, 1], {}], ['add', [2, 3], {}], ['tanh', [4], {}], ['sub', [5, 2], {}],
                              ['mulc', [6], {'c': 2.5}]], [['f', 6, 'now'], ['h', 7, 'end'], ['g', 3, 'end']], jac='fwd')),
        ('prog', gen.case(x, [['mul', [0, 1], {}], ['idx', [2], {'k': 0}], ['idx', [2], {'k': 1}], ['idx', [0], {'k': 1}],
                              ['mul', [3, 4], {}], ['add', [6, 5], {}], ['sum', [2, 0], {}], ['max', [2], {}]],
                          [['f', 7, 'now'], ['h', 8, 'end'], ['m', 9, 'end']], jac='rev')),
    ]
    base = [['in', 'x', 'x', S]]
    res.append(('story', base + [['out', 'y', 'y', [4]], ['op', 's', 'sin', ['x'], {}], ['set', 'y', ['s', 0, 2, None], 's'],
                                 ['op', 'c', 'cos', ['x'], {}], ['set', 'y', ['s', 2, 4, None], 'c'], ['op', 'z', 'mulc', ['y'], {'c': 3.}],
                                 ['reg', 'z', 'z']]))
    for k in ('cls', 'pre'):
        res.append(('story', base + [['op', 's', 'sin', ['x'], {}], ['op', 't', 'mulc', ['s'], {'c': 3.}], ['reg', 's', 's'],
                                     ['sub', 'k', k, [['in', 's', 's', S], ['op', 'q1', 'cos', ['s'], {}], ['op', 'q', 'mul', ['s', 'q1'], {}],
                                                      ['reg', 'q', 'q']]],
                                     ['in', 'q', 'q', S], ['op', 'w', 'tanh', ['q'], {}], ['op', 'r', 'sub', ['w', 't'], {}], ['reg', 'r', 'r']]))
    res.append(('story', [['solver', 'bgs+direct'], ['in', 'a', 'a', S], ['out', 'y', 'y', S], ['op', 'e', 'sin', ['y'], {}],
                          ['op', 'f', 'mulc', ['e'], {'c': 0.3}], ['op', 'g', 'add', ['f', 'a'], {}], ['def', 'y', 'g'],
                          ['op', 'h', 'mul', ['y', 'a'], {}], ['reg', 'h', 'h']]))
    res.append(('imp', [['in', 'a', S, None], ['out', 'x', S, None], ['op', 's', 'sin', ['x'], {}], ['op', 't', 'add', ['s', 'a'], {}],
                        ['op', 'c', 'mulc', ['x'], {'c': 2.5}], ['op', 'r', 'sub', ['c', 't'], {}], ['res', 'x', 'r']]))
    return res


def evaluate(kind, c):
    if kind == 'prog':
        return prog.run_value_case(c)
    if kind == 'story':
        return story.run({'story': c, 'pts': [['u', 0], ['pm', 1]], 'jac': 'fwd'})
    return implicit.run({'steps': c, 'solv': 'own-direct', 'host': 'ot', 'jac': 'rev', 'pts': [['u', 0], ['pos', 1]]})


def apart(f):
    """the result of f() in a process of its own (what exists here so far is what exists there at first)"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            # do not outlive the parent
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            try:
                # timers are not inherited
                with prog.limit(20):
                    out = ('ok', f())
            except prog.Bad as e:
                out = ('bad', str(e))
            except BaseException as e:
                out = ('bad', '%s: %s @%s' % (type(e).__name__, str(e)[:300], traceback.extract_tb(e.__traceback__)[-1].name))
            with os.fdopen(w, 'wb') as o:
                pickle.dump(out, o)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    if not data:
        raise prog.Bad('the process ended without an answer')
    st, v = pickle.loads(data)
    if st != 'ok':
        raise prog.Bad(v)
    return v


def spare(n):
    """n expressions that nothing uses; their names"""
    ot = prog.ot
    names = []
    g = ot.Group()
    for i in range(n):
        if i % 1000 == 0:
            x = g.declare_input('x')
            continue
        names.append((-x).name)
    return names


def window(case):
    kind, c = models()[case['model']]

    def body():
        n = 0
        spare(case['lo'])
        for i in range(case['lo'], case['hi'] + 1):
            try:
                n += apart(lambda: evaluate(kind, c))
            except prog.Bad as e:
                raise prog.Bad('after %d expressions: %s' % (i, e))
            spare(2)[1:]
        return n
    return apart(body)


def distinct(case):
    def body():
        names = spare(case['names'])
        if len(set(names)) != len(names):
            seen = {}
            for i, n in enumerate(names):
                if n in seen:
                    raise prog.Bad('expressions number %d and %d of a process are both called %s' % (seen[n], i, n))
                seen[n] = i
        for n in names:
            if not VALID.match(n):
                raise prog.Bad('%r is no name for a variable' % n)
        return len(names)
    return apart(body)


def big(case):
    n = case['n']
    form = case['form']
    x = [['x0', [2], 'in', None], ['x1', [2], 'in', None]]
    ops, outs = [], []
    if form == 'chain':
        for i in range(n):
            ops.append(['sin' if i % 2 else 'mulc', [0 if not i else i + 1], {} if i % 2 else {'c': 1.25}])
        outs.append(['f', n + 1, 'end'])
        if n > 2:
            outs.append(['m', n // 2 + 1, 'end'])
    elif form == 'accumulate':
        # each term is an expression of its own
        for i in range(n):
            ops.append(['mulc', [i % 2], {'c': 0.01 * (i + 1)}])
            ops.append(['add', [0 if not i else 2 * i + 1, 2 * i + 2], {}])
        outs.append(['f', 2 * n + 1, 'end'])
    elif form == 'fan':
        ops.append(['mul', [0, 1], {}])
        for i in range(n):
            ops.append(['mulc', [2], {'c': 0.1 * (i + 1)}])
            outs.append(['f%d' % i, i + 3, 'now' if i % 2 else 'end'])
    elif form == 'wide':
        for i in range(n):
            ops.append(['mulc', [i % 2], {'c': 0.1 * (i + 1)}])
        ops.append([case.get('op', 'sum'), [i + 2 for i in range(n)], {}])
        outs.append(['f', n + 2, 'end'])
    elif form == 'pick':
        x = [['x0', [n], 'in', None]]
        ops.append(['tanh', [0], {}])
        for i in range(n):
            ops.append(['idx', [1], {'k': i}])
        for i in range(n):
            ops.append(['mulc', [2 + i], {'c': 0.5 + i}])
            outs.append(['f%d' % i, n + 2 + i, 'end'])
    elif form == 'inputs':
        x = [['x%d' % i, [1], 'in', None] for i in range(n)]
        for i in range(n):
            ops.append(['mulc', [i], {'c': 0.1 * (i + 1)}])
        ops.append(['sum', [n + i for i in range(n)], {}])
        outs.append(['f', 2 * n, 'end'])
    elif form == 'ladder':
        # every step uses the previous one twice
        for i in range(n):
            a = 3 * i + 1 if i else 0
            ops += [['cos', [a], {}], ['sin', [a], {}], ['mul', [3 * i + 2, 3 * i + 3], {}]]
        outs.append(['f', 3 * n + 1, 'end'])
    return prog.run_value_case({'ins': x, 'ops': ops, 'outs': outs, 'pts': [['u', 0], ['pm', 1]],
                                'jac': case['jac'] if n < 80 or case.get('long') else None})


def pieces(case):
    """an output assembled from n pieces, in some order"""
    n = case['n']
    st = [['in', 'x', 'x', [2]], ['out', 'y', 'y', [2 * n]]]
    order = list(range(n))
    if case['order']:
        order = order[1::2] + order[::-2] if n % 2 == 0 else order[::-1]
        order = sorted(set(order), key=order.index)
    for i in order:
        st += [['op', 's%d' % i, 'mulc', ['x'], {'c': 0.25 + i}], ['set', 'y', ['s', 2 * i, 2 * i + 2, None], 's%d' % i]]
    return story.run({'story': st + [['op', 'z', 'sin', ['y'], {}], ['reg', 'z', 'z']], 'pts': [['u', 0]], 'jac': 'fwd' if n < 40 else None})


def ladder(n):
    st, y = [], 'y'
    for i in range(n):
        st += [['op', 'c%d' % i, 'cos', [y], {}], ['op', 's%d' % i, 'sin', [y], {}], ['op', 'm%d' % i, 'mul', ['c%d' % i, 's%d' % i], {}]]
        y = 'm%d' % i
    return st, y


def cycle(case):
    """n steps, each using the previous one twice, inside a cyclic definition / a residual"""
    st, y = ladder(case['n'])
    if case['kind'] == 'cyclic':
        st = [['solver', 'bgs+direct'], ['in', 'a', 'a', [2]], ['out', 'y', 'y', [2]]] + st + \
            [['op', 'e', 'mulc', [y], {'c': 0.3}], ['op', 'f', 'add', ['e', 'a'], {}], ['def', 'y', 'f'], ['op', 'h', 'mul', ['y', 'a'], {}],
             ['reg', 'h', 'h']]
        return story.run({'story': st, 'pts': [['u', 0]], 'jac': None})
    st = [['in', 'a', [2], None], ['out', 'y', [2], None]] + st + \
        [['op', 'q', 'mulc', ['y'], {'c': 2.5}], ['op', 'f', 'add', ['q', y], {}], ['op', 'r', 'sub', ['f', 'a'], {}], ['res', 'y', 'r']]
    return implicit.run({'steps': st, 'solv': 'own-direct', 'host': 'om', 'jac': None, 'pts': [['u', 0]]})


def subs(case):
    """n child groups in a row"""
    S = [2]
    st = [['in', 'x', 'x', S], ['op', 'v', 'sin', ['x'], {}], ['reg', 'v0', 'v']]
    for i in range(case['n']):
        st.append(['sub', 'g%d' % i, case['kind'], [['in', 'a', 'v%d' % i, S], ['op', 'b', 'mulc', ['a'], {'c': 1.5 - i % 2}],
                                                    ['op', 'c', 'sin', ['b'], {}], ['reg', 'v%d' % (i + 1), 'c']]])
    st += [['in', 'w', 'v%d' % case['n'], S], ['op', 'z', 'mul', ['w', 'x'], {}], ['reg', 'z', 'z']]
    return story.run({'story': st, 'pts': [['u', 0]], 'jac': 'rev' if case['n'] < 12 else None})


FORMS = ('chain', 'accumulate', 'fan', 'wide', 'pick', 'inputs', 'ladder')


# longer than any path that the interpreter would follow by calls
LONG = {'quick': (340, 520, 1040), 'thorough': (330, 340, 500, 520, 990, 1000, 1010, 1040, 1500, 2000)}


def long(tier):
    for i, n in enumerate(LONG[tier]):
        for form in ('chain', 'accumulate', 'ladder'):
            yield {'form': form, 'n': n, 'jac': ('fwd', 'rev')[i % 2], 'long': n < 600}
        for k in ('cyclic', 'residual'):
            if n < 600:
                yield {'cycle': 1, 'n': n, 'kind': k}


def cases(tier):
    yield {'names': LAST[tier]}
    # the longest first
    for lo, hi in reversed(EDGES[tier]):
        for m in range(len(models())):
            step = 12 if hi < 1000 else 40 if hi < 10000 else 24
            for a in range(lo, hi + 1, step):
                yield {'model': m, 'lo': a, 'hi': min(a + step - 1, hi)}
    yield from long(tier)
    for i, n in enumerate(SIZE[tier]):
        for form in FORMS:
            if n > 130 and form in ('accumulate', 'chain', 'ladder') and tier == 'quick':
                continue
            yield {'form': form, 'n': n, 'jac': ('fwd', 'rev')[i % 2]}
            if form == 'wide':
                for op in ('average', 'max', 'min'):
                    if n > 1:
                        yield {'form': form, 'n': n, 'jac': ('rev', 'fwd')[i % 2], 'op': op}
        if n <= 70:
            for k in ('cyclic', 'residual'):
                yield {'cycle': 1, 'n': n, 'kind': k}
        for o in (0, 1):
            yield {'pieces': 1, 'n': n, 'order': o}
        if n < (34 if tier == 'quick' else 70):
            for k in ('cls', 'pre', 'with'):
                yield {'subs': 1, 'n': n, 'kind': k}


def run(case):
    if 'names' in case:
        return distinct(case)
    if 'model' in case:
        return window(case)
    if 'form' in case:
        return apart(lambda: big(case))
    return apart(lambda: (pieces if 'pieces' in case else cycle if 'cycle' in case else subs)(case))


def path(case):
    if 'model' in case:
        return [[case['model'], i] for i in range(case['lo'], case['hi'] + 1)]
    return [case]


BATCH = 1
