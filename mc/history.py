"""evaluation histories of one model.

case = {'model': ['prog'|'story'|'imp', inner case], 'hist': 'A', 'B', 'T', 'C', 'S', 'N' ..., 'mode': 'fwd'|'rev'}
  A, B  set the inputs to the first / second point and run
  R     run again
  T     total derivatives
  C     check_partials (moves inputs internally and puts them back)
  S     set up again, then set the inputs to the current point and run
  N     a run on nan inputs (nothing about it may be remembered)
"""
import contextlib
import io

import numpy as np

from mc import implicit, prog, story
from mc.prog import Bad


class ProgModel:
    def __init__(self, case, mode):
        self.c = case
        case['jac'] = mode
        self.mode = mode
        self.used = prog.used_inputs(case)

    def build(self):
        self.p = prog.problem(lambda g: prog.emit(g, self.c), mode=self.mode)

    def again(self):
        self.p.setup(mode=self.mode)

    def move(self, pt):
        for n, v in prog.in_values(self.c, pt).items():
            if n in self.used:
                self.p.set_val(n, v)

    def nan(self):
        for n, v in prog.in_values(self.c, self.c['pts'][0]).items():
            if n in self.used:
                self.p.set_val(n, v * np.nan)

    def values(self, pt):
        for n, v in prog.ref_outs(self.c, prog.in_values(self.c, pt)).items():
            prog.check_val(self.p, n, v)

    def totals(self, pt):
        wrt = [i[0] for i in self.c['ins'] if i[0] in self.used]
        if wrt:
            J = self.p.compute_totals(of=[o[0] for o in self.c['outs']], wrt=wrt)
            prog.check_jac(J, prog.ref_jac(self.c, prog.in_values(self.c, pt), wrt))


class StoryModel:
    def __init__(self, case, mode):
        self.c = case
        self.mode = mode
        self.ext = story.externals(case['story'])

    def build(self):
        self.p = prog.problem(lambda g: story.play(g, self.c['story']), mode=self.mode)
        self.p.final_setup()
        self.st, self.live = story.prepare(self.p, self.c, self.c['story'], self.ext)

    def again(self):
        self.p.setup(mode=self.mode)

    def move(self, pt):
        story.move(self.p, self.ext, self.live, pt)

    def nan(self):
        for n, v in story.values(self.ext, self.c['pts'][0]).items():
            if n in self.live:
                self.p.set_val(n, v * np.nan)

    def values(self, pt):
        self.last = story.check_values(self.p, self.st, self.ext, pt)

    def totals(self, pt):
        store, fix = story.check_values(self.p, self.st, self.ext, pt)
        story.check_totals(self.p, self.st, self.ext, self.live, pt, store, fix)


class ImpModel:
    def __init__(self, case, mode):
        self.c = dict(case, jac=mode)
        self.mode = mode

    def build(self):
        self.p, self.used, self.outs = implicit.build(self.c)

    def again(self):
        self.p.setup(mode=self.mode)
        self.p.set_solver_print(-1)

    def move(self, pt):
        implicit.move(self.c, self.p, self.used, pt)

    def nan(self):
        pass

    def values(self, pt):
        implicit.check_values(self.c, self.p, self.outs, pt, bracket=True)

    def totals(self, pt):
        implicit.check_totals(self.c, self.p, self.used, self.outs, pt)


KIND = {'prog': ProgModel, 'story': StoryModel, 'imp': ImpModel}


def run(case):
    if 'given' in case:
        return run_given(case)
    if 'recast' in case:
        return run_recast(case)
    import copy
    kind, inner = copy.deepcopy(case['model'])
    m = KIND[kind](inner, case['mode'])
    m.build()
    pts = inner['pts']
    cur = None
    n = 1
    for a in case['hist']:
        n += 1
        try:
            if a in 'AB':
                cur = pts['AB'.index(a)]
                m.move(cur)
                m.p.run_model()
                m.values(cur)
            elif a == 'R':
                m.p.run_model()
                m.values(cur)
            elif a == 'T':
                m.totals(cur)
                m.values(cur)
            elif a == 'C':
                m.p.check_partials(out_stream=None, method='fd', form='forward', step=1e-6)
                m.values(cur)
            elif a == 'S':
                m.again()
                m.move(cur)
                m.p.run_model()
                m.values(cur)
            elif a == 'N':
                m.nan()
                try:
                    m.p.run_model()
                except Exception:
                    pass
                m.move(cur)
                m.p.run_model()
                m.values(cur)
            else:
                raise ValueError(a)
        except Bad as e:
            raise Bad('action %d (%s) of history %s: %s' % (n - 1, a, case['hist'], e))
    return n


class Boom(Exception):
    """raised by the user's own setup"""


class Recast:
    """one object, set up as different models in turn"""
    def __init__(self, models, mode, host):
        import copy
        self.models = [KIND[k](copy.deepcopy(c), mode) for k, c in models]
        self.imp = models[0][0] == 'imp'
        self.mode = mode
        om, ot = prog.om, prog.ot
        me = self

        class M(ot.Group):
            def setup(self):
                self.nonlinear_solver = om.NonlinearRunOnce()
                self.linear_solver = om.LinearRunOnce()
                m = me.now
                if isinstance(m, ProgModel):
                    prog.emit(self, m.c)
                else:
                    story.play(self, m.c['story'])
                me.spoil(self)

        class C(ot.ImplicitComponent):
            def setup(self):
                self.nonlinear_solver = None
                self.linear_solver = None
                implicit.write(self, me.now.c)
                me.spoil(self)

        class Own(om.Group):
            """a new object for every setup"""
            def setup(self):
                self.add_subsystem('g', M(), promotes=['*'])

        class Same(ot.Group):
            def setup(self):
                self.add_subsystem('g', me.inner, promotes=['*'])

        # 0: the model itself; 1, 2: in one or two OpenMDAO groups; 3: a new one every time; 4: in an omtools group
        self.inner = (C if self.imp else M)()
        self.model = self.inner
        if self.imp or host in (1, 2):
            self.model = om.Group()
            at = self.model.add_subsystem('h', om.Group(), promotes=['*']) if host == 2 else self.model
            at.add_subsystem('g', self.inner, promotes=['*'])
        elif host == 3:
            self.model = om.Group()
            self.model.add_subsystem('o', Own(), promotes=['*'])
        elif host == 4:
            self.model = Same()
        self.p = om.Problem(model=self.model, reports=None)

    def spoil(self, g):
        if self.bad in ('ill', 'dup') and not self.imp:
            if self.bad == 'ill':
                g.create_output('undefined__')
            else:
                g.register_output('dup__', g.create_indep_var('y__') * 2.)
                g.register_output('dup__', g.create_indep_var('z__') * 3.)
        elif self.bad is not None:
            raise Boom()

    def fail(self, bad, i):
        """set up as model i, which fails at some point"""
        left = [bad if isinstance(bad, int) else 10**6]

        def tick():
            left[0] -= 1
            if left[0] < 0:
                raise Boom()

        old = prog.tick
        prog.tick = tick
        try:
            self.setup(i, bad)
        except Exception as e:
            return e
        finally:
            prog.tick = old
        raise Bad('setup did not fail (%s)' % bad)

    def setup(self, i, bad=None):
        self.bad = bad
        self.now = m = self.models[i]
        if self.imp:
            a, b = m.c.get('solv', 'own-direct').split('-')
            self.model.nonlinear_solver = prog.om.NonlinearRunOnce()
            self.model.linear_solver = prog.om.LinearRunOnce()
            if a == 'outer':
                self.model.nonlinear_solver = implicit.newton_solver()
            if a in ('outer', 'brk'):
                self.model.linear_solver = implicit.LIN[b]()
        self.p.setup(mode=self.mode)
        self.p.set_solver_print(-1)
        m.p = self.p
        if isinstance(m, StoryModel):
            self.p.final_setup()
            m.st, m.live = story.prepare(self.p, m.c, m.c['story'], m.ext)
        elif self.imp:
            m.used = implicit.uses(m.c)
            m.outs = [o for o, _ in implicit.residuals(m.c)]
        return m


def run_recast(case):
    r = Recast(case['recast'], case['mode'], case['host'])
    n = 0
    for i in case['seq']:
        try:
            if isinstance(i, list):
                r.fail(*i)
                n += 1
                continue
            m = r.setup(i)
            pts = m.c['pts']
            for pt in pts:
                m.move(pt)
                r.p.run_model()
                m.values(pt)
                n += 2
            m.totals(pts[-1])
            n += 2
        except Bad as e:
            raise Bad('set up as model %d in the sequence %s: %s' % (i, case['seq'], e))
    return n


def given_model(case):
    """a group on which the first statements were executed before Problem.setup(), which executes the others"""
    om, ot = prog.om, prog.ot
    st, cut = case['given'], case['cut']

    class M(ot.Group):
        def setup(self):
            story.play(self, st[cut:], dict(env))

    g = M() if cut < len(st) and not case.get('grow') else ot.Group()
    env = story.play(g, st[:cut])
    if case['host'] == 0:
        return g, g, env
    if case['host'] == 1:
        model = om.Group()
        model.add_subsystem('g', g, promotes=['*'])
        return model, g, env

    class Outer(ot.Group):
        def setup(self):
            self.add_subsystem('g', g, promotes=['*'])

    return Outer(), g, env


def run_given(case):
    st, n = case['given'], 0
    model, g, env = given_model(case)
    p = prog.om.Problem(model=model, reports=None)
    for j, upto in enumerate(case['grow'] if case.get('grow') else [len(st)] * case['times']):
        if case.get('grow') and j:
            # statements executed between two setups
            story.play(g, st[case['grow'][j - 1]:upto], env)
        try:
            p.setup(mode=case['mode'])
            p.set_solver_print(-1)
            p.final_setup()
            now = story.meaning(st[:upto])
            ext = story.externals(now)
            live = story.present(p, ext)
            if upto == len(st) and len(live) < len(ext):
                raise Bad('inputs %s are not part of the model' % sorted(set(ext) - set(live)))
            for pt in case['pts']:
                story.move(p, ext, live, pt)
                p.run_model()
                store, fix = story.check_values(p, now, ext, pt)
                n += 2
            story.check_totals(p, now, ext, live, case['pts'][-1], store, fix)
            n += 2
        except Bad as e:
            raise Bad('setup %d (%d statements): %s' % (j + 1, upto, e))
    return n


def path(case):
    if 'given' in case:
        return [[case['given'], case['mode'], case['host'], case['cut']]] + list(case.get('grow') or range(case['times']))
    if 'recast' in case:
        return [[case['recast'], case['mode'], case['host']]] + list(case['seq'])

    return [[case['model'], case['mode']]] + list(case['hist'])
