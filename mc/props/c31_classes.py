"""C31: the setup of a model is the sequence of its own statements, whichever classes (base classes, derived classes, mixins)
they were collected from"""
import functools
import itertools
import types

import numpy as np

from mc import prog, story
from mc.prog import Bad

ID = 'C31'


def bounds(tier):
    return ('class hierarchies of up to %d levels: each level with a setup of two statements that calls the setup of its base first / in '
            'between / last / not at all, or without a setup; in line, as a diamond, with mixins that are plain classes on top; '
            'statements of 8 kinds for a Group (registered expression, expression kept for others, child system, independent variable, '
            'assembled output, hook overridden above, second declaration of an input, output without a definition until the level above gives it), '
            'of 3 kinds for an ImplicitComponent (linear, nonlinear, bracketed residual, coupled to those before); options declared per level, '
            'overridden at construction; class attributes overridden; the function that is the setup named otherwise, a lambda, wrapped; as the model, as a child of an OpenMDAO or omtools group, '
            'twice in one model, set up again; two points, {fwd, rev}' % (3 if tier == 'quick' else 4))


SUP = ('first', 'mid', 'last', 'none', None)
CTX = ('root', 'child', 'otchild', 'named', 'two', 'again')
PAIRS = ('oo', 'os', 'so', 'co', 'oc', 'io', 'oa', 'do', 'sc', 'ci', 'ho', 'ou')


def cases(tier):
    k = 0

    def case(levels, form='line', **kw):
        nonlocal k
        k += 1
        c = {'kind': 'group', 'levels': [list(l) for l in levels], 'form': form, 'ctx': CTX[k % 6], 'opt': k // 6 % 4,
             'attr': bool(k // 2 % 2), 'jac': ('fwd', 'rev')[k // 3 % 2], 'sp': k // 5 % 4}
        c.update(kw)
        return c

    # one and two levels
    for a in PAIRS:
        for ctx in CTX:
            for f in ('line', 'mix'):
                yield case([['none', a]], f, ctx=ctx)
                yield case([['first', a]], f, ctx=ctx)
    for a, b in itertools.product(PAIRS, repeat=2):
        for s in SUP:
            for f in ('line', 'mix'):
                for bot in (('none', 'first') if f == 'line' else ('none', )):
                    yield case([[bot, a], [s, b]], f)
                    if s is not None and f == 'line':
                        yield case([[bot, a], [s, b], [None, 'oo']], f)
    # three levels
    P3 = ('oo', 'so', 'co', 'ih') if tier == 'quick' else PAIRS
    for a, b, c in itertools.product(P3, repeat=3):
        for s, t in itertools.product(SUP, repeat=2):
            i = k % 3
            for f in ('line', 'diamond', 'mix', 'mix2') if tier != 'quick' else (('line', 'diamond'), ('line', 'mix'), ('diamond', 'mix2'))[i]:
                yield case([['none', a], [s, b], [t, c]], f)
    if tier != 'quick':
        for p in itertools.product(('oo', 'so', 'co'), repeat=4):
            for s in itertools.product(SUP, repeat=3):
                for f in ('line', 'diamond', 'mix2'):
                    yield case([['none', p[0]]] + [[x, y] for x, y in zip(s, p[1:])], f)
    # every context for a few hierarchies
    for ctx, opt, attr, f in itertools.product(CTX, range(4), (False, True), ('line', 'diamond', 'mix', 'mix2')):
        for s, t in itertools.product(('first', 'mid', 'last', 'none'), repeat=2):
            yield case([['none', 'oc'], [s, 'so'], [t, 'io']], f, ctx=ctx, opt=opt, attr=attr)
    # components defined by residuals
    IP = ('ll', 'le', 'el', 'l', 'e')
    for a in IP:
        for f in ('line', 'mix'):
            for ctx in CTX:
                yield case([['none', a]], f, kind='imp', ctx=ctx)
    for a, b in itertools.product(IP, repeat=2):
        for s in SUP:
            for f in ('line', 'mix'):
                yield case([['none', a], [s, b]], f, kind='imp')
                yield case([['none', a], [s, b], ['first', 'l']], f, kind='imp')
    for a, b, c in itertools.product(('l', 'e'), repeat=3):
        for s, t in itertools.product(SUP, repeat=2):
            for f in ('line', 'diamond', 'mix', 'mix2'):
                yield case([['none', a], [s, b], [t, c]], f, kind='imp')
    for a, b in itertools.product(('b', 'bb'), repeat=2):
        for s in SUP:
            for f in ('line', 'mix'):
                for ctx in CTX:
                    yield case([['none', a], [s, b]], f, kind='imp', ctx=ctx)


# --------------------------------------------------------------- the meaning
def trace(levels, i=None):
    """statements in the order in which they are executed: (level, number, kind)"""
    if i is None:
        i = len(levels) - 1
    if i < 0:
        return []
    sup, steps = levels[i]
    own = [(i, j, s) for j, s in enumerate(steps)]
    base = trace(levels, i - 1)
    if sup is None:
        return base
    return {'first': base + own, 'mid': own[:1] + base + own[1:], 'last': own + base, 'none': own}[sup]


def opt_default(i):
    return 1. + 0.25 * i


def coef(case, i, j, given):
    """coefficient of a statement: its own number, times the option of its level, times the class attribute"""
    k = 0.6 + 0.15 * i + 0.1 * j
    if case['opt'] & 1 or i == 0 and case['opt'] & 2:
        k *= given.get('k%d' % i, opt_default(i))
    k *= 1.5 if case['attr'] else 1.25
    return k


def given(case, which=0):
    if not case['opt']:
        return {}
    d = {}
    if case['opt'] & 2:
        d['k0'] = 0.9 + 0.3 * which
    if case['opt'] == 3:
        d['k%d' % (len(case['levels']) - 1)] = 1.1 - 0.2 * which
    return d


def ref_group(case, x, giv):
    out = {}
    last = x
    pend = None
    n = len(case['levels'])
    for i, j, s in trace(case['levels']):
        k = coef(case, i, j, giv)
        nm = '%d%d' % (i, j)
        if s == 'o':
            last = last * k + x
            out['y' + nm] = last
        elif s == 's':
            last = np.sin(last) * k
        elif s == 'c':
            z = x * x * k
            out['z' + nm] = z
            last = last + z
        elif s == 'i':
            out['v' + nm] = np.array([k]) + 0 * x
            last = last * k
        elif s == 'a':
            out['w' + nm] = np.concatenate([last, k * x])
        elif s == 'd':
            last = last - x * k
        elif s == 'h':
            last = hook(n - 1 if case['attr'] else 0, last, x)
        elif s == 'u':
            out['u' + nm] = last * last * k
    return out


def hook(level, e, x):
    return e * (2. + level) + x


def ref_imp(case, a, giv):
    out = {}
    last = 0 * a
    for i, j, s in trace(case['levels']):
        k = coef(case, i, j, giv)
        if s == 'l':
            v = (a + 0.3 * last) / k
        elif s == 'e':
            v = np.log(k + a * a + 0.2 * last * last)
        else:
            v = (k + a * a + 0.2 * last)**(1. / 3.)
        out['x%d%d' % (i, j)] = v
        last = v
    return out


# --------------------------------------------------------------- the classes
def statements(case, i, giv_names):
    steps = case['levels'][i][1]

    def k_of(self, j):
        k = 0.6 + 0.15 * i + 0.1 * j
        if case['opt'] & 1 or i == 0 and case['opt'] & 2:
            k *= self.options['k%d' % i]
        return k * self.FACTOR

    def group(self, j):
        ot, om = prog.ot, prog.om
        k = k_of(self, j)
        nm = '%d%d' % (i, j)
        if not hasattr(self, 'now') or self.now is None:
            self.x = self.now = self.declare_input('x', val=1.)
        s = steps[j]
        if s == 'o':
            self.now = self.now * k + self.x
            self.register_output('y' + nm, self.now)
        elif s == 's':
            self.now = ot.sin(self.now) * k
        elif s == 'c':
            class Child(ot.Group):
                def setup(me):
                    v = me.declare_input('x', val=1.)
                    me.register_output('z' + nm, v * v * k)
            self.add_subsystem('sys' + nm, Child(), promotes=['*'])
            self.now = self.now + self.declare_input('z' + nm)
        elif s == 'i':
            self.now = self.now * self.create_indep_var('v' + nm, val=k)
        elif s == 'a':
            w = self.create_output('w' + nm, shape=(2, ))
            w[0] = self.now
            w[1] = k * self.x
        elif s == 'd':
            self.now = self.now - self.declare_input('x', val=1.) * k
        elif s == 'h':
            self.now = self.extra(self.now)
        elif s == 'u':
            u = self.create_output('u' + nm)
            u.define(self.now * self.now * k)

    def imp(self, j):
        ot = prog.ot
        g = self.group
        k = k_of(self, j)
        nm = 'x%d%d' % (i, j)
        if getattr(self, 'a', None) is None:
            self.a = g.declare_input('a', val=1.)
            self.now = None
        s = steps[j]
        v = g.create_implicit_output(nm, val=1.)
        if s == 'l':
            r = k * v - self.a
            if self.now is not None:
                r = r - 0.3 * self.now
            v.define_residual(r)
        elif s == 'e':
            r = ot.exp(v) - k - self.a**2
            if self.now is not None:
                r = r - 0.2 * self.now**2
            v.define_residual(r)
        else:
            r = v**3 - k - self.a**2
            if self.now is not None:
                r = r - 0.2 * self.now
            v.define_residual_bracketed(r, x1=0.01, x2=4.)
        self.now = v

    return group if case['kind'] == 'group' else imp


def spelled(f, how):
    # a method is what its class says it is, whatever the function is called
    if how == 1:
        f.__name__ = f.__qualname__ = 'statements'
    elif how == 2:
        return lambda self: f(self)
    elif how == 3:
        def statements(self, *args, **kwargs):
            return f(self)
        return functools.wraps(make_class)(statements)
    return f


def make_class(case):
    ot, om = prog.ot, prog.om
    levels = case['levels']
    n = len(levels)
    form = case['form']
    root = ot.Group if case['kind'] == 'group' else ot.ImplicitComponent
    plain = {'line': 0, 'diamond': 0, 'mix': 1, 'mix2': 2}[form]

    def body(i, cell):
        sup, steps = levels[i]
        st = statements(case, i, None)
        ns = {}
        if sup is not None:
            def setup(self):
                if sup == 'first':
                    super(cell['cls'], self).setup()
                for j in range(len(steps)):
                    st(self, j)
                    if sup == 'mid' and j == 0:
                        super(cell['cls'], self).setup()
                if sup == 'last':
                    super(cell['cls'], self).setup()
            ns['setup'] = spelled(setup, (case.get('sp', 0) + i) % 4)
        if case['opt'] & 1 or i == 0 and case['opt'] & 2:
            def initialize(self):
                super(cell['cls'], self).initialize()
                self.options.declare('k%d' % i, default=opt_default(i))
            ns['initialize'] = initialize
        if i == 0:
            ns['FACTOR'] = 1.25
        if i == 0 or i == n - 1 and case['attr']:
            def extra(self, e):
                return hook(i, e, self.x)
            ns['extra'] = extra
        if i == n - 1 and case['attr']:
            ns['FACTOR'] = 1.5
        return ns

    def new(i, bases):
        cell = {}
        ns = body(i, cell)
        c = types.new_class('L%d' % i, bases, {}, lambda d: d.update(ns))
        cell['cls'] = c
        return c

    if form == 'diamond' and n >= 3:
        cs = [new(0, (root, ))]
        mid = [new(i, (cs[0], )) for i in range(1, n - 1)]
        return new(n - 1, tuple(reversed(mid)))
    if plain:
        plain = min(plain, n)
        c = root
        for i in range(n - plain):
            c = new(i, (c, ))
        mixins = []
        for i in range(n - plain, n):
            # without a class above it the lowest one has nothing to call
            mixins.append(new(i, (Base, )))
        return types.new_class('M', tuple(reversed(mixins)) + (c, ))
    c = root
    for i in range(n):
        c = new(i, (c, ))
    return c


class Base:
    """what plain mixins derive from"""


# --------------------------------------------------------------- running
def solvers(m, case):
    om = prog.om
    if case['kind'] == 'imp':
        if 'b' in case['levels'][0][1]:
            return
        m.linear_solver = om.DirectSolver()
        m.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=60, atol=1e-13, rtol=1e-13, iprint=-1)


def instance(case, cls, which=0):
    m = cls(**given(case, which))
    solvers(m, case)
    return m


def run(case):
    om, ot = prog.om, prog.ot
    cls = make_class(case)
    X = 'x' if case['kind'] == 'group' else 'a'
    ctx = case['ctx']
    if case['kind'] == 'imp' and ctx in ('root', 'again'):
        ctx = {'root': 'child', 'again': 'childagain'}[ctx]
    refs = {}

    def meaning(v, which=0):
        f = ref_group if case['kind'] == 'group' else ref_imp
        return f(case, v, given(case, which))

    names = list(meaning(np.array([1.])))
    cyc = case['kind'] == 'imp' and 'b' in case['levels'][0][1]

    def done(self_again):
        # another setup of the same instance starts afresh
        self_again.now = self_again.a = None

    where = {}   # instance prefix -> which
    inst = instance(case, cls)
    reset = [inst]
    if ctx in ('root', 'again'):
        model = inst
        where[''] = 0
    elif ctx in ('child', 'childagain'):
        model = om.Group()
        model.add_subsystem('c', inst, promotes=['*'])
        where[''] = 0
    elif ctx == 'named':
        model = om.Group()
        model.add_subsystem('c', inst)
        where['c.'] = 0
    elif ctx == 'two':
        model = om.Group()
        i2 = instance(case, cls, 1)
        reset.append(i2)
        model.add_subsystem('c', inst)
        model.add_subsystem('d', i2)
        where['c.'] = 0
        where['d.'] = 1
    else:
        class Top(ot.Group):
            def setup(self):
                v = self.create_indep_var('q', val=1.)
                self.register_output(X, 1. * v)
                self.add_subsystem('c', inst, promotes=['*'])
                for nme in names:
                    y = self.declare_input(nme, shape=meaning(np.array([1.]))[nme].shape)
                    self.register_output('t' + nme, 2. * y)
        model = Top()
        where[''] = 0
    p = om.Problem(model=model, reports=None)
    p.setup(mode=case['jac'])
    if ctx in ('again', 'childagain'):
        p.run_model()
        for r in reset:
            done(r)
        p.setup(mode=case['jac'])
    p.set_solver_print(-1)
    acts = len(trace(case['levels'])) + 2
    # what an overridden setup would have added is not there
    allnames = {t + '%d%d' % (i, j) for i, l in enumerate(case['levels']) for j in range(2) for t in 'yzvwux'}
    p.final_setup()
    have = set(story.present(p, [pre + n for pre in where for n in allnames | set(names)]))
    for pre in where:
        for n in sorted(allnames - set(names)):
            if pre + n in have:
                raise Bad('%s of an overridden setup is in the model' % (pre + n))
        for n in names:
            if pre + n not in have:
                raise Bad('%s is not in the model' % (pre + n))
    for val in (0.8, -0.45 if case['kind'] == 'group' else 1.3):
        for pre, w in where.items():
            # the input is there if an output takes it
            if any(n[0] != 'v' for n in names):
                p.set_val('q' if ctx == 'otchild' else pre + X, val + 0.2 * w)
        p.run_model()
        acts += 1
        for pre, w in where.items():
            want = meaning(np.array([val + 0.2 * w]), w)
            wantd = {n: np.imag(v) / 1e-30 for n, v in meaning(np.array([val + 0.2 * w + 1e-30j]), w).items()}
            for n in names:
                got = prog.get(p, pre + n)
                if got.shape != want[n].shape or not np.all(np.abs(got - want[n]) <= 1e-8 * (1 + np.abs(want[n]))):
                    raise Bad('%s at %g: %s expected %s' % (pre + n, val, got, want[n]))
                if ctx == 'otchild':
                    got = prog.get(p, 't' + n)
                    if not np.all(np.abs(got - 2 * want[n]) <= 1e-8 * (1 + np.abs(want[n]))):
                        raise Bad('t%s at %g: %s expected %s' % (n, val, got, 2 * want[n]))
            src = 'q' if ctx == 'otchild' else pre + X
            J = p.compute_totals(of=[pre + n for n in names if n[0] != 'v'], wrt=[src]) if any(n[0] != 'v' for n in names) else {}
            acts += 1
            for n in names:
                if n[0] != 'v':
                    g = np.asarray(J[pre + n, src]).ravel()
                    d = wantd[n].ravel()
                    if not np.all(np.abs(g - d) <= 1e-6 * (1 + np.abs(d))):
                        raise Bad('d%s/d%s at %g: %s expected %s' % (pre + n, src, val, g, d))
    return acts


def path(case):
    out = [['form', case['kind'], case['form'], case['ctx'], case['opt'], case['attr']]]
    return out + [['level', i] + list(l) for i, l in enumerate(case['levels'])] + [['run', case['jac']]]
