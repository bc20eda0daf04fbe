"""models built side by side: all interleavings of the building steps, of the
setups and of the runs of two models, and some families of three"""
import itertools
import math

from mc import implicit as I
from mc import prog, story

ID = 'C24'
BATCH = 4


def bounds(tier):
    return ('%d models (operations, shared names, indexing, assembled and cyclic outputs, child groups open at the same time, residuals, '
            'conditions); every interleaving of the steps of %s, setup and run included, of three small ones in the thorough tier; each of %d models with a setup '
            'of its own and of %d components defined by residuals built, run and judged within the setup of another, before every step '
            'of it; the interleavings of building and running two components' %
            (len(STORIES), 'ten pairs of them' if tier == 'quick' else 'every pair of them', len(STORIES), len(IMS)))


S = [2]
X = [['in', 'x', 'x', S]]
W7 = [['in', 'x', 'x', S], ['op', 'q', 'exp', ['x'], {}], ['reg', 'q', 'q']]
STORIES = [
    # every model uses the same names
    X + [['op', 's', 'sin', ['x'], {}], ['reg', 'f', 's'], ['op', 't', 'mul', ['s', 'x'], {}], ['reg', 'g', 't']],
    X + [['op', 't', 'pow', ['x'], {'c': 2}], ['op', 's', 'addc', ['t'], {'c': 1.}], ['reg', 'g', 's'], ['op', 'u', 'div', ['x', 's'], {}], ['reg', 'f', 'u']],
    X + [['out', 'y', 'f', [4]], ['op', 'a', 'cos', ['x'], {}], ['set', 'y', ['s', 0, 2, None], 'a'], ['op', 'b', 'mulc', ['x'], {'c': 3.}],
         ['set', 'y', ['s', 2, 4, None], 'b']],
    X + [['op', 'a', 'idx', ['x'], {'k': 0}], ['op', 'b', 'idx', ['x'], {'k': 1}], ['op', 'c', 'mul', ['a', 'b'], {}], ['reg', 'g', 'c']],
    X + [['sub', 'k', 'with', [['in', 'x', 'x', S], ['op', 'q', 'exp', ['x'], {}], ['reg', 'q', 'q']]], ['in', 'q', 'q', S],
         ['op', 'r', 'sub', ['q', 'x'], {}], ['reg', 'f', 'r']],
    X + [['sub', 'k', 'exec', [['q', S, [[1.5, 'x']]]]], ['in', 'q', 'q', S], ['op', 'r', 'mul', ['q', 'x'], {}], ['reg', 'g', 'r']],
    [['solver', 'bgs+direct']] + X + [['out', 'y', 'y', S], ['op', 'e', 'sin', ['y'], {}], ['op', 'f', 'mulc', ['e'], {'c': 0.3}],
                                      ['op', 'g', 'add', ['f', 'x'], {}], ['def', 'y', 'g']],
    [['ind', 'p', 'p', S]] + X + [['op', 'r', 'mul', ['p', 'x'], {}], ['reg', 'f', 'r']],
    [['rev']] + X + [['op', 'a', 'max', ['x'], {}], ['op', 'b', 'pnorm', ['x'], {}], ['op', 'c', 'add', ['a', 'b'], {}], ['reg', 'f', 'c']],
    [['in', 'c', 'c', [1]]] + X + [['op', 'a', 'sin', ['x'], {}], ['op', 'd', 'if_else', ['c', 'a', 'x'], {}], ['reg', 'f', 'd']],
    [['sub', 'k', 'with', W7]],
]
SMALL = [
    X + [['op', 's', 'sin', ['x'], {}], ['reg', 'f', 's']],
    X + [['op', 's', 'mul', ['x', 'x'], {}], ['reg', 'f', 's']],
    X + [['op', 's', 'idx', ['x'], {'k': 1}], ['reg', 'f', 's']],
    [['ind', 'x', 'x', S], ['op', 's', 'max', ['x'], {}], ['reg', 'f', 's']],
]
PTS = [['u', 0], ['pos', 1]]


# components defined by residuals: the same names, other roots
def square(v, sh=[1]):
    return [['in', 'a', sh, None], ['out', 'x', sh, v], ['op', 's', 'mul', ['x', 'x'], {}], ['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']]


IMS = [
    square(3.),
    square(-3.),
    square([2., -2.], S),
    [['in', 'a', S, None], ['out', 'x', S, None], ['out', 'y', S, 0.5], ['op', 'e', 'sin', ['y'], {}], ['op', 'xc', 'mulc', ['x'], {'c': 2.5}],
     ['op', 'p', 'sub', ['xc', 'e'], {}], ['res', 'x', 'p'], ['op', 'yc', 'mulc', ['y'], {'c': 3.}], ['op', 'f', 'add', ['x', 'a'], {}],
     ['op', 'q', 'sub', ['yc', 'f'], {}], ['res', 'y', 'q']],
    [['in', 'a', S, None], ['out', 'y', S, None], ['op', 'yc', 'mulc', ['y'], {'c': 2.}], ['op', 'yr', 'sub', ['yc', 'a'], {}], ['res', 'y', 'yr']],
    [['in', 'a', S, None], ['out', 'x', S, None], ['child', 'k', 'with', ['a'], [0.4, 0.3]], ['op', 'sc', 'mulc', ['x'], {'c': 2.5}],
     ['op', 's', 'add', ['sc', 'k'], {}], ['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']],
    [['in', 'a', S, None], ['out', 'x', S, None], ['op', 'w', 'mul', ['x', 'a'], {}], ['reg', 'w', 'k'], ['op', 'sc', 'mulc', ['x'], {'c': 4.}],
     ['op', 's', 'add', ['sc', 'w'], {}], ['op', 'r', 'sub', ['s', 'a'], {}], ['res', 'x', 'r']],
    [['in', 'a', [1], None], ['out', 'x', [1], None], ['op', 's', 'mulc', ['x'], {'c': 3.}], ['op', 'r', 'sub', ['s', 'a'], {}],
     ['resb', 'x', 'r', -4., 9.]],
    [['in', 'a', [1], None], ['out', 'x', [1], None], ['op', 's', 'mul', ['x', 'x'], {}], ['op', 'r', 'sub', ['a', 's'], {}],
     ['resb', 'x', 'r', -5., 0.]],
]


def icase(i):
    br = any(s[0] == 'resb' for s in IMS[i])
    return {'steps': IMS[i], 'pts': PTS, 'solv': 'brk-direct' if br else 'own-direct', 'jac': 'rev' if i % 2 else 'fwd'}, br


class Whole:
    """a model of either kind, with something that happens before step k of its setup"""
    def __init__(self, kind, i, at=None, what=None):
        self.kind, self.i, self.at, self.what = kind, i, at, what

    def build(self):
        def hook(k):
            if k == self.at:
                self.what()

        if self.kind == 'im':
            self.case, self.br = icase(self.i)
            self.b = I.build(dict(self.case, hook=hook))
            return
        st = STORIES[self.i]

        class M(prog.ot.Group):
            def setup(me):
                env = {}
                for k, s in enumerate(st):
                    hook(k)
                    story.play(me, [s], env)
                hook(len(st))

        self.p = prog.om.Problem(model=M(), reports=None)
        self.p.setup(mode='fwd')

    def run(self, j):
        if self.kind == 'im':
            return I.verify(self.case, *self.b, PTS[j], bracket=self.br)
        st = STORIES[self.i]
        self.p.final_setup()
        ext = story.externals(st)
        case = {'story': st, 'pts': PTS}
        st, live = story.prepare(self.p, case, st, ext)
        story.move(self.p, ext, live, PTS[j])
        self.p.run_model()
        store, fix = story.check_values(self.p, st, ext, PTS[j])
        story.check_totals(self.p, st, ext, live, PTS[j], store, fix)
        return 3

    def all(self):
        self.build()
        return self.run(0) + self.run(1)


def within(tier):
    both = [['im', i] for i in range(len(IMS))] + [['st', i] for i in range(len(STORIES))]
    for a, b in itertools.product(both, repeat=2):
        if tier == 'quick' and a[0] == b[0] == 'st' and (a[1] + 3 * b[1]) % 4:
            continue
        n = len(IMS[a[1]] if a[0] == 'im' else STORIES[a[1]])
        for k in range(n + 1):
            yield {'outer': a, 'inner': b, 'at': k, 'path': [['outer', a]] + [['step', i] for i in range(k)] + [['inner', b]] + [['rest']]}
    for a, b in itertools.product(range(len(IMS)), repeat=2):
        for o in orders(3, 3):
            yield {'comps': [a, b], 'path': list(o)}


# ------------------------------------------------------------- interleavings
def actions(st, merged=False):
    """flat list: ('step', s) | ('open', name) | ('close',) | ('setup',) | ('run', i..)"""
    res = []
    for s in st:
        if s[0] == 'sub' and s[2] == 'with':
            res.append(('open', s[1]))
            res += [('step', t) for t in s[3]]
            res.append(('close', ))
        else:
            res.append(('step', s))
    if merged == 2:
        return res + [('setup', 0, 1)]
    return res + ([('setup', ), ('run', 0, 1)] if merged else [('setup', ), ('run', 0), ('run', 1)])


class Builder:
    def __init__(self, st, mode, merged=False):
        self.st = st
        self.mode = mode
        self.acts = actions(st, merged)
        self.k = 0
        self.stack = []
        self.env = [{}]
        self.g = None

    def act(self):
        a = self.acts[self.k]
        self.k += 1
        if self.g is None:
            self.g = prog.ot.Group()
            self.stack = [(self.g, None)]
        if a[0] == 'step':
            story.play(self.stack[-1][0], [a[1]], self.env[-1])
        elif a[0] == 'open':
            cm = self.stack[-1][0].create_group(a[1])
            self.stack.append((cm.__enter__(), cm))
            self.env.append({})
        elif a[0] == 'close':
            g, cm = self.stack.pop()
            self.env.pop()
            cm.__exit__(None, None, None)
        elif a[0] == 'setup':
            self.p = prog.om.Problem(model=self.g, reports=None)
            self.p.setup(mode=self.mode)
            self.p.final_setup()
        if a[0] in ('setup', 'run'):
            for i in a[1:]:
                self.run(PTS[i])

    def run(self, pt):
        ext = story.externals(self.st)
        case = {'story': self.st, 'pts': PTS}
        st, live = story.prepare(self.p, case, self.st, ext)
        story.move(self.p, ext, live, pt)
        self.p.run_model()
        store, fix = story.check_values(self.p, st, ext, pt)
        story.check_totals(self.p, st, ext, live, pt, store, fix)


def orders(n, m):
    for pos in itertools.combinations(range(n + m), n):
        s = ['B'] * (n + m)
        for i in pos:
            s[i] = 'A'
        yield ''.join(s)


# ---------------------------------------------------------------------- space
def cases(tier):
    yield from within(tier)
    n = len(STORIES)
    if tier == 'quick':
        pairs = [(0, 0), (3, 3), (7, 7), (0, 1), (2, 7), (6, 7), (8, 7), (9, 0), (5, 10), (10, 10)]
    else:
        pairs = itertools.combinations_with_replacement(range(n), 2)
    for a, b in pairs:
        for merged in ((True, ) if tier == 'quick' else (False, True)):
            na, nb = len(actions(STORIES[a], merged)), len(actions(STORIES[b], merged))
            if math.comb(na + nb - 2, na - 1) > (6500 if not merged else 20000):
                continue
            # the last actions, runs of separate problems, in one order
            for o in orders(na - 1, nb - 1):
                yield {'ab': [a, b], 'merged': merged, 'path': list(o) + ['A', 'B']}
            break


    if tier != 'quick':
        for t in ((0, 1, 2), (1, 1, 1), (3, 0, 2)):
            word = ''.join(c * len(actions(SMALL[i], 2)) for c, i in zip('ABC', t))
            for o in sorted(words(word)):
                yield {'small': list(t), 'merged': 2, 'path': list(o)}


def words(w):
    """all rearrangements of a word"""
    if not w:
        yield ''
    for c in sorted(set(w)):
        for r in words(w.replace(c, '', 1)):
            yield c + r


def run(case):
    if 'outer' in case:
        n = []
        a = Whole(*case['outer'], case['at'], lambda: n.append(Whole(*case['inner']).all()))
        m = a.all()
        return m + n[0] + case['at'] + 1
    if 'comps' in case:
        w = [Whole('im', i) for i in case['comps']]
        k = [0, 0]
        for c in case['path']:
            j = 'AB'.index(c)
            w[j].build() if k[j] == 0 else w[j].run(k[j] - 1)
            k[j] += 1
        return len(case['path'])
    sts = [STORIES[i] for i in case['ab']] if 'ab' in case else [SMALL[i] for i in case['small']]
    bs = [Builder(st, m, case['merged']) for st, m in zip(sts, ('fwd', 'rev', 'fwd'))]
    for c in case['path']:
        bs['ABC'.index(c)].act()
    return len(case['path'])
