"""C29: what is handed to omtools counts as it is at the call: changing an array or list later changes nothing in the
model, and building, running and differentiating the model never changes it"""
import itertools

import numpy as np

from mc import prog

ID = 'C29'
TITLE = 'A model keeps what it was given'
N = 3
# contents of the object handed over; every entry is .5 or 2.5
CONT = [[.5, .5, 2.5], [2.5, .5, .5], [.5, 2.5, 2.5]]
INSTANTS = ('call', 'later', 'end', 'setup', 'run')


def bounds(tier):
    return ('%d places that take an array, %d that take a list of numbers, %d that take other lists; every history of at most %d changes of '
            'the object at the instants %s (to other contents, as a whole, in place, entry by entry, through the array it is a view of), '
            'and every ordered pair of places given the same object with other contents; two points, {fwd, rev}'
            % (len(ARRAY), len(LIST), len(NAMES) + len(AXES), 2 if tier == 'quick' else 5, list(INSTANTS)))


# ------------------------------------------------------------------- places
# build(g, x, t, obj): t is a tag for names; want(c, x, t, runs): values by name, given contents c
def lit(f):
    def build(g, x, t, obj):
        g.register_output('r' + t, f(x, obj))
    return build, lambda c, x, t, runs: {'r' + t: f(x, np.array(c))}


def lit1(f, k):
    """only one entry of the object is used"""
    def build(g, x, t, obj):
        g.register_output('r' + t, f(x, obj[k:k + 1]))
    return build, lambda c, x, t, runs: {'r' + t: f(x, c[k])}


def lit0(f):
    def build(g, x, t, obj):
        o = obj[:1].reshape(())
        assert np.shares_memory(o, obj)
        g.register_output('r' + t, f(x, o))
    return build, lambda c, x, t, runs: {'r' + t: f(x, c[0])}


def lit2(f):
    """(2, 3) literal: a view that repeats the object"""
    def build(g, x, t, obj):
        y = g.declare_input('m' + t, shape=(2, N), val=3.)
        g.register_output('r' + t, f(y, np.broadcast_to(obj, (2, N))))
    return build, lambda c, x, t, runs: {'r' + t: f(np.full((2, N), 3.), np.array([c, c]))}


def b_in(g, x, t, obj):
    z = g.declare_input('z' + t, shape=(N, ), val=obj)
    g.register_output('r' + t, prog.ot.sin(z))


def b_in0(g, x, t, obj):
    z = g.declare_input('z' + t, val=obj)  # shape from the value
    g.register_output('r' + t, prog.ot.sin(z))


def b_ind(g, x, t, obj):
    z = g.create_indep_var('z' + t, shape=(N, ), val=obj)
    g.register_output('r' + t, prog.ot.sin(z))


def w_val(c, x, t, runs):
    return {'z' + t: np.array(c), 'r' + t: np.sin(c)}


def b_in_slice(g, x, t, obj):
    z = g.declare_input('z' + t, shape=(N, ), val=obj)
    g.register_output('q' + t, z[0:2] * 2.)
    g.register_output('r' + t, prog.ot.sin(z))


def w_slice(c, x, t, runs):
    return {'q' + t: 2. * np.array(c[:2]), 'r' + t: np.sin(c)}


def b_out(g, x, t, obj):
    o = g.create_output('o' + t, shape=(N, ), val=obj)
    o.define(prog.ot.cos(o) * 0.5 + x)


def w_out(c, x, t, runs):
    # one pass per run, beginning from the contents
    v = np.array(c)
    for q in runs:
        v = .5 * np.cos(v) + q
    return {'o' + t: v}


def imp(define):
    def build(g, x, t, obj):
        class I(prog.ot.ImplicitComponent):
            def setup(self):
                define(self.group, t, obj)
        g.add_subsystem('imp' + t, I(), promotes=['*'])
    return build


def i_val(h, t, obj):
    a = h.declare_input('x', shape=(N, ), val=1.)
    o = h.create_implicit_output('o' + t, shape=(N, ), val=obj)
    o.define_residual(o * o - a)


def i_root(lo):
    def f(h, t, obj):
        # roots of sin are multiples of pi; scaled to whole numbers
        a = h.declare_input('x', shape=(N, ), val=1.)
        o = h.create_implicit_output('o' + t, shape=(N, ))
        r = prog.ot.sin(o * np.pi) + a * 0.
        kw = {'x1': obj, 'x2': 1.5} if lo else {'x1': 1.5, 'x2': obj}
        o.define_residual_bracketed(r, **kw)
    return f


def w_root(c, x, t, runs):
    return {'o' + t: np.where(np.array(c) == .5, 1., 2.)}


def i_in(h, t, obj):
    a = h.declare_input('d' + t, shape=(N, ), val=obj)
    o = h.create_implicit_output('o' + t, shape=(N, ))
    o.define_residual_bracketed(o * 2. - a, x1=-1., x2=4.)


def i_lit(h, t, obj):
    a = h.declare_input('x', shape=(N, ), val=1.)
    o = h.create_implicit_output('o' + t, shape=(N, ))
    o.define_residual_bracketed(o * 2. - a * obj, x1=-50., x2=50.)


def child(kind):
    def build(g, x, t, obj):
        def fill(h):
            y = h.declare_input('x', shape=(N, ), val=1.)
            z = h.declare_input('z' + t, shape=(N, ), val=obj)
            h.register_output('r' + t, prog.ot.sin(z) + y * obj)
        if kind == 'with':
            with g.create_group('g' + t) as h:
                fill(h)
        else:
            class K(prog.ot.Group):
                def setup(self):
                    fill(self)
            g.add_subsystem('g' + t, K(), promotes=['*'])
    return build


def late_obj(c, x, t, runs):
    return {'r' + t: np.sin(c) + x * np.array(c)}


ARRAY = {
    'add': lit(lambda x, c: x + c), 'sub': lit(lambda x, c: x - c), 'mul': lit(lambda x, c: x * c), 'div': lit(lambda x, c: x / c),
    'pow': lit(lambda x, c: x**c), 'add1': lit1(lambda x, c: x + c, 0), 'sub1': lit1(lambda x, c: x - c, 1),
    'mul1': lit1(lambda x, c: x * c, 2), 'div1': lit1(lambda x, c: x / c, 1), 'add0': lit0(lambda x, c: x + c), 'mul0': lit0(lambda x, c: x * c),
    'add2': lit2(lambda x, c: x + c), 'mul2': lit2(lambda x, c: x * c), 'pow2': lit2(lambda x, c: x**c),
    'in': (b_in, w_val), 'in0': (b_in0, w_val), 'ind': (b_ind, w_val), 'inslice': (b_in_slice, w_slice), 'out': (b_out, w_out),
    'impval': (imp(i_val), lambda c, x, t, runs: {'o' + t: np.array(c)}), 'lower': (imp(i_root(True)), w_root), 'upper': (imp(i_root(False)), w_root),
    'impin': (imp(i_in), lambda c, x, t, runs: {'o' + t: np.array(c) / 2.}), 'implit': (imp(i_lit), lambda c, x, t, runs: {'o' + t: x * np.array(c) / 2.}),
    'with': (child('with'), late_obj), 'cls': (child('cls'), late_obj),
}
# these take the object when their own setup runs
DEFERRED = ('impval', 'lower', 'upper', 'impin', 'implit', 'cls')
LIST = {k: ARRAY[k] for k in ('in', 'in0', 'ind', 'inslice', 'out', 'impval', 'lower', 'upper', 'impin')}


def promo(role, kind):
    def build(g, x, t, obj):
        eq = 'q%s=2*x' % t
        kw = {'shape': (N, )}
        if kind == 'exec':
            s = prog.om.ExecComp(eq, **kw)
        elif kind == 'om':
            s = prog.om.Group()
            s.add_subsystem('e', prog.om.ExecComp(eq, **kw), promotes=['*'])
        else:
            class K(prog.ot.Group):
                def setup(self):
                    y = self.declare_input('x', shape=(N, ), val=1.)
                    self.register_output('q' + t, y * 2.)
            s = K()
        g.add_subsystem('s' + t, s, **{role: obj})

    def want(c, x, t, runs):
        pin = 'x' in c
        return {('q' if 'q*' in c else 's%s.q' % t) + t: 2. * (x if pin else np.ones(N))}
    return build, want


CONT_N = {'promotes': [['x', 'q*'], ['x'], ['q*']], 'promotes_inputs': [['x'], [], ['x']], 'promotes_outputs': [['q*'], [], ['q*']]}
NAMES = {'%s-%s' % (r[8:], k): promo(r, k) + (CONT_N[r], ) for r in CONT_N for k in ('exec', 'om', 'ot')}


def b_inner(which):
    def build(g, x, t, obj):
        y = g.declare_input('y' + t, shape=(N, N), val=np.arange(9.).reshape(N, N))
        z = g.declare_input('v' + t, shape=(N, N), val=np.arange(9.).reshape(N, N)**2)
        g.register_output('r' + t, prog.ot.inner(y, z, axes=(obj, [1]) if which == 0 else ([1], obj)))

    def want(c, x, t, runs):
        a = np.arange(9.).reshape(N, N)
        return {'r' + t: np.tensordot(a, a**2, (c, [1]) if which == 0 else ([1], c))}
    return build, want, [[0], [1], [0]]


def b_einsum(fmt):
    def build(g, x, t, obj):
        y = g.declare_input('y' + t, shape=(N, N), val=np.arange(9.).reshape(N, N))
        g.register_output('r' + t, prog.ot.einsum_new_api(y, x, operation=obj, partial_format=fmt))

    def want(c, x, t, runs):
        a = np.arange(9.).reshape(N, N)
        return {'r' + t: (a if c[0] == (0, 1) else a.T) @ x}
    return build, want, [[(0, 1), (1, ), (0, )], [(1, 0), (1, ), (0, )], [(0, 1), (1, ), (0, )]]


AXES = {'inner0': b_inner(0), 'inner1': b_inner(1), 'einsum-dense': b_einsum('dense'), 'einsum-sparse': b_einsum('sparse')}


def place(kind, s):
    d = {'array': ARRAY, 'list': LIST, 'names': NAMES, 'axes': AXES}[kind][s]
    return d if len(d) == 3 else d + (CONT, )


# -------------------------------------------------------------------- changes
HOWS = {'array': ('whole', 'add', 'entry', 'base'), 'list': ('whole', 'entry', 'refill'), 'names': ('whole', 'refill'), 'axes': ('whole', 'entry')}


class Object:
    def __init__(self, kind, cont, how):
        self.kind, self.cont, self.how = kind, cont, how
        self.now = 0
        if kind == 'array':
            self.base = np.full((4, N), 7.)
            self.obj = self.base[1] if how == 'base' else np.array(cont[0])
            self.obj[:] = cont[0]
        else:
            self.obj = list(cont[0])

    def change(self, k):
        new = self.cont[k]
        o = self.obj
        if self.how == 'whole':
            o[:] = new
        elif self.how == 'add':
            o += np.array(new) - np.array(self.cont[self.now])
        elif self.how == 'entry':
            for i in range(len(new)):
                o[i] = new[i]
        elif self.how == 'base':
            self.base[1:2, :] = new
        else:
            o.clear()
            o.extend(new)
        self.now = k

    def intact(self, where):
        if list(self.obj) != list(self.cont[self.now]):
            raise prog.Bad('%s: the object given was changed to %s from %s' % (where, list(self.obj), self.cont[self.now]))


# ---------------------------------------------------------------------- cases
def histories(most):
    """{instant: contents} with at most that many changes, each to other contents than before"""
    for n in range(1, most + 1):
        for where in itertools.combinations(range(len(INSTANTS)), n):
            for seq in itertools.product((1, 2), repeat=n):
                now, h = 0, []
                for w, d in zip(where, seq):
                    now = (now + d) % 3
                    h.append([w, now])
                yield h


def cases(tier):
    most = 2 if tier == 'quick' else 5
    i = 0
    for kind, d in (('array', ARRAY), ('list', LIST), ('names', NAMES), ('axes', AXES)):
        for s in d:
            for h in histories(most):
                for how in HOWS[kind]:
                    i += 1
                    if tier == 'quick' and kind == 'array' and (i + len(h)) % 3 and len(h) > 1:
                        continue
                    yield {'kind': kind, 'how': how, 'path': [[s, h]], 'jac': ('fwd', 'rev')[i % 2]}
    # one object, several places
    for kind, d in (('array', ARRAY), ('list', LIST), ('axes', AXES)):
        for a, b in itertools.product(d, repeat=2):
            if a in DEFERRED and b not in DEFERRED or place(kind, a)[2] != place(kind, b)[2]:
                continue
            for w in range(len(INSTANTS)):
                i += 1
                if tier == 'quick' and w % 3 != i % 3:
                    continue
                yield {'kind': kind, 'how': HOWS[kind][i % len(HOWS[kind])], 'path': [[a, [[0, 1]]], [b, [[w, 2]]]], 'jac': ('fwd', 'rev')[i % 2]}
    for role in CONT_N:
        ks = [k for k in NAMES if NAMES[k][2] is CONT_N[role]]
        for a, b in itertools.product(ks, repeat=2):
            for w in range(len(INSTANTS)):
                for how in HOWS['names']:
                    yield {'kind': 'names', 'how': how, 'path': [[a, [[0, 1]]], [b, [[w, 2]]]], 'jac': 'fwd'}
    # three and four places fed from the same array in a loop
    seqs = itertools.product(('add', 'sub', 'mul', 'div', 'pow', 'in', 'ind', 'out', 'with'), repeat=3)
    for n, t in enumerate(seqs):
        if tier == 'quick' and n % 3:
            continue
        yield {'kind': 'array', 'how': HOWS['array'][n % 4], 'path': [[t[0], [[0, 1]]], [t[1], [[0, 2]]], [t[2], [[n % 5, 0]]]], 'jac': 'rev'}


def run(case):
    kind = case['kind']
    ob = Object(kind, place(kind, case['path'][0][0])[2], case['how'])
    taken = {}

    def changes(i, w):
        for at, k in case['path'][i][1]:
            if at == w:
                ob.intact('before change %d' % w)
                ob.change(k)
        ob.intact(INSTANTS[w])

    def fill(g):
        x = g.create_indep_var('x', shape=(N, ), val=np.array([.3, .6, .9]))
        for i, (s, _) in enumerate(case['path']):
            place(kind, s)[0](g, x, str(i), ob.obj)
            taken[i] = ob.now
            changes(i, 0)
            g.register_output('w%d' % i, prog.ot.tanh(x) * (2. + i))
            changes(i, 1)
        for i in range(len(case['path'])):
            changes(i, 2)

    p = prog.problem(fill, mode=case['jac'])
    for i, (s, _) in enumerate(case['path']):
        if s in DEFERRED:
            # their setup() ran after the one of the whole model
            taken[i] = state_after_setup(case)
    ob.intact('setup')
    for i in range(len(case['path'])):
        changes(i, 3)
    runs = []
    steps = 0
    for q, xv in enumerate((np.array([.3, .6, .9]), np.array([1.3, .4, .7]), np.array([.3, .6, .9]))):
        p.set_val('x', xv)
        p.run_model()
        runs.append(xv)
        for i, (s, _) in enumerate(case['path']):
            b, want, cont = place(kind, s)
            for name, v in want(cont[taken[i]], xv, str(i), runs).items():
                try:
                    got = np.array(p.get_val(name), float)
                except KeyError:
                    raise prog.Bad('%s: no variable %s' % (s, name))
                if got.size != v.size or np.max(np.abs(got.reshape(v.shape) - v)) > 1e-7:
                    raise prog.Bad('%s (number %d), run %d: %s is %s, expected %s, from contents %s' %
                                   (s, i, q, name, got.tolist(), v.tolist(), cont[taken[i]]))
                steps += 1
        ob.intact('run %d' % q)
        if q == 0:
            for i in range(len(case['path'])):
                changes(i, 4)
        if q == 1 and not any(s in ('impval', 'out') for s, _ in case['path']):
            J = p.compute_totals(of=['w0'], wrt=['x'])
            ob.intact('totals')
            t = np.tanh(xv)
            if np.max(np.abs(J['w0', 'x'] - np.diag(2. * (1 - t * t)))) > 1e-8:
                raise prog.Bad('derivatives of w0')
    # values set by the user do not reach the object either
    for i, (s, _) in enumerate(case['path']):
        if s in ('in', 'in0', 'ind', 'inslice'):
            p.set_val('z%d' % i, np.array([9., 8., 7.]))
            p.run_model()
            ob.intact('set_val')
            if np.max(np.abs(np.array(p.get_val('r%d' % i)) - np.sin([9., 8., 7.]))) > 1e-9:
                raise prog.Bad('%s does not follow its input' % s)
    return steps + len(INSTANTS)


def state_after_setup(case):
    """contents when the setup of the whole model is over"""
    now = 0
    seq = []
    for i, (_, h) in enumerate(case['path']):
        seq += [k for at, k in h if at == 0] + [k for at, k in h if at == 1]
    for _, h in case['path']:
        seq += [k for at, k in h if at == 2]
    return seq[-1] if seq else now
