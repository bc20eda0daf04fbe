"""what has no meaning is refused; what has one is refused or right; neighbours
that are well formed are accepted and right"""
import itertools

import numpy as np

from mc import prog, ops as O
from mc.prog import Bad

ID = 'C22'


def bounds(tier):
    return ('every operation with: all tuples of operand shapes from a set of shapes of rank 1..3, all values of its parameters from a '
            'set around and beyond the legal ones (integers -4..4, pairs, triples, lists, floats, strings, None), every operand position '
            'filled with objects that are not expressions; all keys (integers, slices, tuples, other types) for reading and assigning; '
            'all sequences of <= %d building steps (register, define, assign, finish) over a small model' % (4 if tier == 'quick' else 5))


# operations whose parameters are only looked at when they are first computed
LATE = ('sum', 'average', 'pnorm', 'max', 'min', 'einsum', 'einsum_new', 'inner', 'reshape', 'rotmat', 'if_else')


class No(Exception):
    """meaningless: must be refused"""


class Soft(Exception):
    """meaningful but not promised: refuse or be right; args[0] is the value"""


def need(ok):
    if not ok:
        raise No()


# ------------------------------------------------------------------- oracles
# each takes the operand values and parameters; returns the value, or raises
def is_int(a):
    return isinstance(a, int) and not isinstance(a, bool)


def norm_axes(ax, nd, one=False):
    """(normalised tuple, promised?)"""
    soft = False
    if is_int(ax):
        ax = (ax, )
        soft = one
    elif isinstance(ax, (list, tuple)):
        soft = isinstance(ax, list) or len(ax) == 0
        ax = tuple(ax)
    else:
        raise No()
    for a in ax:
        need(is_int(a) and -nd <= a < nd)
        soft = soft or a < 0
    n = tuple(a % nd for a in ax)
    need(len(set(n)) == len(n))
    return n, soft


def soften(v, soft):
    if soft:
        raise Soft(v)
    return v


def same_shapes(v):
    """all equal, or broadcastable (soft), or meaningless"""
    if all(a.shape == v[0].shape for a in v):
        return v, False
    try:
        return list(np.broadcast_arrays(*v)), True
    except ValueError:
        raise No()


def o_binop(f):
    def o(v, p):
        v, soft = same_shapes(v)
        return soften(f(*v), soft)

    return o


def o_literal(f, left):
    def o(v, p):
        c = real(p['c'])
        need(not np.iscomplexobj(c))
        if isinstance(c, (int, float, np.number)) and not isinstance(c, bool):
            if p['z'] == 'den':
                need(c != 0)
            return f(v[0], c) if not left else f(c, v[0])
        if isinstance(c, np.ndarray):
            if c.size == 1 and c.shape != v[0].shape:
                c = c.reshape((1, ) * v[0].ndim)
                raise Soft(f(c, v[0]) if left else f(v[0], c))
            if left:
                try:
                    r = f(c, v[0])
                except ValueError:
                    raise No()
                raise Soft(r)
            if c.shape == v[0].shape:
                return f(v[0], c)
            try:
                r = f(v[0], c)
            except ValueError:
                raise No()
            raise Soft(r)
        if isinstance(c, (list, tuple)):
            try:
                r = f(v[0], np.asarray(c, dtype=float)) if not left else f(np.asarray(c, dtype=float), v[0])
            except (ValueError, TypeError):
                raise No()
            raise Soft(r)
        if isinstance(c, bool):
            raise Soft(f(v[0], float(c)) if not left else f(float(c), v[0]))
        raise No()

    return o


def o_reduce(f):
    def o(v, p):
        ax = real(p['axes']) if 'axes' in p else None
        need(len(v) > 0)
        if len(v) > 1:
            v, soft = same_shapes(v)
        else:
            soft = False
        if ax is None:
            if len(v) == 1:
                return soften(f(v[0]).reshape((1, )), soft)
            return soften(sum(v) / (1 if f is np.sum else len(v)), soft)
        n, s = norm_axes(ax, v[0].ndim, True)
        r = sum(f(a, axis=n) for a in v) / (1 if f is np.sum else len(v))
        return soften(np.asarray(r), soft or s or len(n) == v[0].ndim)

    return o


def o_pnorm(v, p):
    n = p.get('p', 2)
    need(isinstance(n, (int, float)) and not isinstance(n, bool))
    need(n > 0 and n % 2 == 0)
    ax = real(p['axis']) if 'axis' in p else None
    if ax is None:
        return soften((np.sum(v[0]**n)**(1. / n)).reshape((1, )), isinstance(n, float))
    m, s = norm_axes(ax, v[0].ndim)
    return soften(np.asarray(np.sum(v[0]**n, axis=m)**(1. / n)), s or len(m) == v[0].ndim or isinstance(n, float))


def o_ext(sgn):
    def o(v, p):
        ax = real(p['axis']) if 'axis' in p else None
        rho = p.get('rho', 20.)
        need(len(v) > 0)
        need(isinstance(rho, (int, float)))
        need(rho > 0)
        soft = not isinstance(rho, float)
        if len(v) > 1:
            need(ax is None)
            need(all(a.shape == v[0].shape for a in v))
            return soften(O.r_ext(v, {'rho': rho}, sgn), soft)
        if ax is None:
            return soften(O.r_ext(v, {'rho': rho}, sgn), soft)
        n, s = norm_axes(ax, v[0].ndim)
        s = s or not is_int(ax) or v[0].ndim == 1
        if len(n) != 1:
            st = np.moveaxis(v[0], n, range(len(n)))
            st = st.reshape((-1, ) + st.shape[len(n):])
            raise Soft(O.r_ext([st], {'rho': rho, 'axis': 0}, sgn) if len(n) else v[0])
        return soften(np.asarray(O.r_ext(v, {'rho': rho, 'axis': n[0]}, sgn)), s or soft)

    return o


def o_dot(v, p):
    a, b = v
    need(a.shape == b.shape)
    ax = real(p['axis']) if 'axis' in p else None
    if a.ndim == 1:
        return soften(np.sum(a * b).reshape((1, )), ax is not None)
    n, s = norm_axes(ax, a.ndim)
    need(len(n) == 1 and a.shape[n[0]] == 3)
    return soften(np.sum(a * b, axis=n[0]), s or not is_int(ax))


def o_cross(v, p):
    a, b = v
    need(a.shape == b.shape)
    n, s = norm_axes(real(p['axis']), a.ndim)
    need(len(n) == 1 and a.shape[n[0]] == 3)
    return soften(O.r_cross(v, {'axis': n[0]}), s or not is_int(real(p['axis'])))


def o_inner(v, p):
    a, b = v
    ax = real(p['axes']) if 'axes' in p else None
    if a.ndim == 1 and b.ndim == 1:
        need(a.shape == b.shape)
        return soften(np.sum(a * b).reshape((1, )), ax is not None)
    need(isinstance(ax, (list, tuple)) and len(ax) == 2)
    n, s = norm_axes(ax[0], a.ndim)
    m, t = norm_axes(ax[1], b.ndim)
    need(len(n) == len(m))
    need(all(a.shape[i] == b.shape[j] for i, j in zip(n, m)))
    r = np.tensordot(a, b, axes=(n, m))
    # the axes are promised as given by the documentation: a tuple of axes per operand
    return soften(np.asarray(r), s or t or r.ndim == 0 or isinstance(ax, list))


def o_matmat(v, p):
    a, b = v
    if a.ndim == 2 and b.ndim in (1, 2):
        need(a.shape[1] == b.shape[0])
        return a @ b
    try:
        r = np.matmul(a, b)
    except ValueError:
        raise No()
    raise Soft(np.asarray(r))


def o_matvec(v, p):
    a, b = v
    if a.ndim == 2 and b.ndim == 1:
        need(a.shape[1] == b.shape[0])
        return a @ b
    need(b.ndim == 1)
    try:
        r = np.matmul(a, b)
    except ValueError:
        raise No()
    raise Soft(np.asarray(r))


def o_reshape(v, p):
    s = real(p['shape'])
    n = v[0].size
    soft = not isinstance(s, tuple)
    if is_int(s):
        s = (s, )
    need(isinstance(s, (list, tuple)))
    need(all(is_int(i) for i in s))
    if any(i == -1 for i in s):
        soft = True
    try:
        return soften(v[0].reshape(tuple(s)), soft)
    except ValueError:
        raise No()


def o_expand(v, p):
    s = real(p['shape'])
    soft = not isinstance(s, tuple)
    if is_int(s):
        s = (s, )
    need(isinstance(s, (list, tuple)) and all(is_int(i) and i > 0 for i in s))
    s = tuple(s)
    a = v[0]
    ind = p.get('indices')
    if ind is None:
        need(a.shape == (1, ))
        return soften(np.zeros(s) + a.reshape(()), soft)
    need(isinstance(ind, str))
    t = ind.replace(' ', '')
    soft = soft or t != ind
    if a.shape == (1, ):
        # one number fills whatever shape is asked for
        need('->' in ind)
        raise Soft(np.zeros(s) + a.reshape(()))
    need(t.count('->') == 1)
    i, o = t.split('->')
    need(len(o) == len(s) and len(set(o)) == len(o) and len(set(i)) == len(i))
    need(set(i) <= set(o) and o.isalpha())
    need(len(i) == a.ndim)
    need(all(a.shape[i.index(c)] == s[o.index(c)] for c in i))
    # letters of the operand in another order: a transposition comes with it
    srt = [c for c in o if c in i]
    return soften(O.r_expand([a], {'shape': list(s), 'indices': t, 'force': 1}), soft or srt != list(i))


def o_reorder(v, p):
    t = p['op']
    need(isinstance(t, str))
    t = t.replace(' ', '')
    need(t.count('->') == 1)
    i, o = t.split('->')
    need(len(i) == v[0].ndim and sorted(i) == sorted(o) and len(set(i)) == len(i))
    return np.transpose(v[0], [i.index(c) for c in o])


def o_rotmat(v, p):
    need(p['axis'] in ('x', 'y', 'z'))
    return O.r_rot(v, p)


def o_einsum(v, p):
    s = p['s']
    need(isinstance(s, str))
    if '->' not in s and s:
        # left open by the documentation: the result numpy gives
        try:
            r = np.einsum(s, *v)
        except ValueError:
            raise No()
        raise Soft(r)
    need(p.get('f', 'dense') in ('dense', 'sparse'))
    need(s.count('->') == 1)
    t = s.replace(' ', '')
    i, o = t.split('->')
    ins = i.split(',')
    return soften(esum(ins, o, v), False)


def esum(ins, o, v):
    need(len(ins) == len(v))
    dims = {}
    for w, a in zip(ins, v):
        need(len(w) == a.ndim)
        for c, n in zip(w, a.shape):
            if dims.setdefault(c, n) != n:
                # numpy repeats an axis of length one
                try:
                    r = np.einsum(','.join(ins) + '->' + o, *v)
                except ValueError:
                    raise No()
                raise Soft(r)
    need(all(c in dims for c in o) and len(set(o)) == len(o))
    return O._np_einsum(','.join(ins) + '->' + o, v)


def o_einsum_new(v, p):
    op = real(p['o'])
    need(isinstance(op, (list, tuple)) and all(isinstance(t, (list, tuple, str)) for t in op))
    need(p.get('f', 'dense') in ('dense', 'sparse'))
    need(len(op) in (len(v), len(v) + 1))
    m = {}
    w = [''.join(m.setdefault(a, 'abcdefghijkl'[len(m)]) for a in t) for t in op[:len(v)]]
    o = ''
    if len(op) > len(v):
        need(all(a in m for a in op[-1]))
        o = ''.join(m[a] for a in op[-1])
    return esum(w, o, v)


def o_ifelse(v, p):
    c, t, f = v
    need(c.size == 1)
    need(t.shape == f.shape)
    return soften(f if c.reshape(-1)[0] < 0 else t, c.shape != (1, ))


def o_unary(n):
    return lambda v, p: O.U[n](v[0])


def norm_key(k, n):
    """positions one int / slice selects on an axis of length n, promised?"""
    if isinstance(k, bool):
        raise No()
    if is_int(k):
        need(-n <= k < n)
        return [k % n], k < 0
    if isinstance(k, slice):
        need(all(i is None or is_int(i) for i in (k.start, k.stop, k.step)))
        need(k.step != 0)
        r = list(range(n)[k])
        soft = any(i is not None and (i < 0 or i > n) for i in (k.start, k.stop)) or (k.step is not None and k.step < 1) or not r
        if k.start is not None and k.start >= n:
            soft = True
        return r, soft
    raise No()


def select(k, shape):
    """index arrays for a key, one per axis; flat when one key is given for several axes"""
    if isinstance(k, tuple):
        need(0 < len(k) <= len(shape))
        rs = [norm_key(i, n) for i, n in zip(k, shape)]
        soft = any(s for _, s in rs) or len(k) < len(shape)
        rs = [r for r, _ in rs] + [list(range(n)) for n in shape[len(k):]]
        flat = np.arange(int(np.prod(shape))).reshape(shape)[np.ix_(*rs)]
        return flat, soft
    r, soft = norm_key(k, int(np.prod(shape)))
    # one key for several axes counts elements; numpy would count rows
    return np.array(r, dtype=int), soft or len(shape) > 1


def o_idx(v, p):
    k = real(p['k'])
    if k is None or k is Ellipsis or isinstance(k, (float, str)):
        raise No()
    if isinstance(k, list):
        try:
            raise Soft(v[0][k])
        except IndexError:
            raise No()
    if not isinstance(k, tuple) and v[0].ndim > 1:
        try:
            flat, _ = select(k, v[0].shape)
            alt = v[0].reshape(-1)[flat]
        except No:
            alt = None
        try:
            row = v[0][k]
        except (IndexError, TypeError, ValueError):
            row = None
        if alt is None and row is None:
            raise No()
        raise Soft(*[r for r in (alt, row) if r is not None])
    if isinstance(k, tuple) and any(i is None or i is Ellipsis or isinstance(i, (list, np.integer)) for i in k):
        # not among the keys that are promised, but numpy knows what they mean; whether or not axes are kept
        alts = []
        for t in (k, tuple(slice(i, i + 1 or None) if isinstance(i, (int, np.integer)) else i for i in k)):
            try:
                alts.append(v[0][t])
            except (IndexError, TypeError, ValueError):
                pass
        if not alts or not alts[0].size:
            raise No()
        raise Soft(*[np.reshape(r, r.shape or (1, )) for r in alts])
    flat, soft = select(k, v[0].shape)
    need(flat.size > 0)
    return soften(v[0].reshape(-1)[flat], soft)


def o_powv(v, p):
    v, _ = same_shapes(v)
    raise Soft(v[0]**v[1])


# what is called, how, with what meaning
CALL = {}
for _n, _f in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('div', lambda a, b: a / b)):
    CALL[_n] = (lambda ot, a, p, f=_f: f(*a), o_binop(_f))
    CALL[_n + 'c'] = (lambda ot, a, p, f=_f: f(a[0], real(p['c'])), o_literal(_f, False))
    CALL['c' + _n] = (lambda ot, a, p, f=_f: f(real(p['c']), a[0]), o_literal(_f, True))
CALL['pow'] = (lambda ot, a, p: a[0]**real(p['c']), o_literal(lambda a, b: a**b, False))
CALL['powv'] = (lambda ot, a, p: a[0]**a[1], o_powv)


def kw(*names):
    def f(p):
        return {k: real(p[k]) for k in names if k in p}

    return f


for _n, _f in (('sum', np.sum), ('average', np.mean)):
    CALL[_n] = (lambda ot, a, p, n=_n: getattr(ot, n)(*a, **kw('axes')(p)), o_reduce(_f))
for _n, _s in (('max', 1.), ('min', -1.)):
    CALL[_n] = (lambda ot, a, p, n=_n: getattr(ot, n)(*a, **kw('axis', 'rho')(p)), o_ext(_s))
CALL['pnorm'] = (lambda ot, a, p: ot.pnorm(a[0], **dict(([('pnorm_type', p['p'])] if 'p' in p else []) + list(kw('axis')(p).items()))), o_pnorm)
CALL['dot'] = (lambda ot, a, p: ot.dot(*a, **kw('axis')(p)), o_dot)
CALL['cross'] = (lambda ot, a, p: ot.cross(*a, **kw('axis')(p)), o_cross)
CALL['inner'] = (lambda ot, a, p: ot.inner(*a, **kw('axes')(p)), o_inner)
CALL['outer'] = (lambda ot, a, p: ot.outer(*a), lambda v, p: np.multiply.outer(*v))
CALL['matmat'] = (lambda ot, a, p: ot.matmat(*a), o_matmat)
CALL['matvec'] = (lambda ot, a, p: ot.matvec(*a), o_matvec)
CALL['transpose'] = (lambda ot, a, p: ot.transpose(*a), lambda v, p: soften(v[0].T, v[0].ndim == 1))
CALL['reshape'] = (lambda ot, a, p: ot.reshape(a[0], real(p['shape'])), o_reshape)
CALL['expand'] = (lambda ot, a, p: ot.expand(a[0], real(p['shape']), **kw('indices')(p)), o_expand)
CALL['reorder_axes'] = (lambda ot, a, p: ot.reorder_axes(a[0], p['op']), o_reorder)
CALL['rotmat'] = (lambda ot, a, p: ot.rotmat(a[0], p['axis']), o_rotmat)
CALL['einsum'] = (lambda ot, a, p: ot.einsum(*a, subscripts=p['s'], **({'partial_format': p['f']} if 'f' in p else {})), o_einsum)
CALL['einsum_new'] = (lambda ot, a, p: ot.einsum_new_api(*a, operation=real(p['o']), **({'partial_format': p['f']} if 'f' in p else {})),
                      o_einsum_new)
CALL['if_else'] = (lambda ot, a, p: ot.if_else(*a), o_ifelse)
CALL['idx'] = (lambda ot, a, p: a[0][real(p['k'])], o_idx)
for _n in O.U:
    CALL[_n] = (lambda ot, a, p, n=_n: getattr(ot, n)(*a), o_unary(_n))


def real(c):
    """JSON -> python: {'t': [..]} tuple, {'s': [a,b,c]} slice, {'a': shape} array, {'o': name} other objects"""
    if isinstance(c, dict):
        if 't' in c:
            return tuple(real(i) for i in c['t'])
        if 's' in c:
            return slice(*c['s'])
        if 'a' in c:
            return np.arange(1., 1. + np.prod(c['a'], dtype=int)).reshape(c['a']) * 0.5
        if 'ca' in c:  # not real
            v = np.arange(1., 1. + np.prod(c['ca'], dtype=int)).reshape(c['ca']) + 1j
            return v if len(c['ca']) else complex(v)
        if 'np' in c:
            return np.dtype(c['np']).type(c['v'])
        return {'ellipsis': Ellipsis, 'group': prog.ot.Group() if prog.ot else None, 'type': int,
                'comp': prog.om.ExecComp('b=a') if prog.om else None, 'dict': {}, 'set': {1}}[c['o']]
    if isinstance(c, list):
        return [real(i) for i in c]
    return c


# --------------------------------------------------------------------- space
SH = [(1, ), (2, ), (3, ), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (2, 2, 2), (2, 3, 2), (3, 1, 2)]
JUNK = [1.5, 2, 'x', None, [1.], {'t': []}, {'a': [2]}, {'o': 'group'}, {'o': 'comp'}, {'o': 'type'}, {'o': 'dict'}]
AX = [None, 0, 1, 2, 3, 4, -1, -2, -3, -4, 0.0, 1.5, 'x', {'t': []}, [0], [0, 1]]
AX += [{'t': list(t)} for t in itertools.chain(((i, ) for i in range(-3, 4)), itertools.product(range(-2, 4), repeat=2),
                                               [(0, 1, 2), (2, 1, 0), (0, 0, 1), (1, 2, 3), (0, 'x'), (0.5, ), (None, )])]
JARITY = {'add': 2, 'sub': 2, 'mul': 2, 'div': 2, 'sum': 2, 'average': 2, 'max': 2, 'min': 2, 'pnorm': 1, 'dot': 2, 'cross': 2, 'inner': 2,
          'outer': 2, 'matmat': 2, 'matvec': 2, 'transpose': 1, 'reshape': 1, 'expand': 1, 'reorder_axes': 1, 'rotmat': 1, 'einsum': 2,
          'einsum_new': 2, 'if_else': 3, **{n: 1 for n in O.U}}
LIT = [0, 0.0, 1, 2.5, -1, -0.5, True, 'x', None, [1.], [1., 2.], {'t': [1., 2.]}, {'o': 'group'}, {'o': 'comp'}, {'o': 'type'}, {'o': 'dict'},
       {'o': 'ellipsis'}] + [{'a': list(t)} for t in SH[:11]] + [{'np': 'float64', 'v': 0.0}, {'np': 'int64', 'v': 0}, {'np': 'float64', 'v': 2.0}] + [
           {'ca': list(t)} for t in ((), (1, ), (2, ), (2, 3))]
E1 = ['a->a', 'a->', 'a->b', 'a->aa', 'ab->ab', 'ab->ba', 'ab->a', 'ab->', 'aa->a', 'aa->', 'ab->abc', 'ab->c', 'ab', 'abc->cab', 'abc->b', '->',
      'a,b->ab', 'ab->aa', 'a->->a', 'ab->->a']
E2 = ['a,a->a', 'a,a->', 'a,b->ab', 'a,b->ba', 'ab,b->a', 'ab,bc->ac', 'ab,ab->', 'ab,ab->ab', 'ab,ba->a', 'a,b->c', 'a,b->abc', 'a->a', 'a,b,c->abc',
      'ab,c->abc', 'ab,c->ca', 'a,bc->cab', 'aa,b->ab', 'ab,b->aa', 'ab,bc']
BAD_OPS = [None, 1, 'ab', [['a'], 'a'], [1], [{'t': ['i']}, 3]]


def call(n, shapes, p=None, **k):
    return dict({'call': n, 'shapes': [list(s) for s in shapes], 'p': p or {}}, **k)


def keys(n):
    ks = list(range(-n - 2, n + 3))
    ab = [None] + list(range(-n - 1, n + 3))
    ks += [{'s': [a, b, st]} for a in ab for b in ab for st in (None, 1, 2, -1, 0)]
    return ks


OTHER_KEYS = [None, 1.0, 'a', [0], [0, 1], {'o': 'ellipsis'}, {'t': []}, {'t': [None]}, {'t': [0.5]}, {'t': ['a']}, {'np': 'int64', 'v': 0},
              {'s': [0.0, 1, None]}, {'s': ['a', None, None]}, {'o': 'dict'}, {'t': [[0, 1]]}]
SMALLK = [0, 1, 2, 3, -1, -2, {'s': [None, None, None]}, {'s': [0, 2, None]}, {'s': [1, 3, None]}, {'s': [1, 1, None]}, {'s': [0, -1, None]},
          {'s': [-2, None, None]}, {'s': [None, None, 2]}, {'s': [1, 5, None]}, {'s': [None, None, -1]}]


def calls(tier):
    sh = SH if tier != 'quick' else SH[:9] + SH[11:13]
    for n in ('add', 'sub', 'mul', 'div', 'powv'):
        for a, b in itertools.product(SH, repeat=2):
            yield call(n, [a, b])
    for n in ('add', 'sub', 'mul', 'div'):
        for a in SH:
            for c in LIT:
                z = 'den' if n == 'div' else ''
                yield call(n + 'c', [a], {'c': c, 'z': z})
                yield call('c' + n, [a], {'c': c, 'z': ''})
    for a in SH:
        for c in LIT:
            yield call('pow', [a], {'c': c, 'z': ''})
    for n in ('sum', 'average'):
        for a in sh:
            for x in AX:
                yield call(n, [a], {'axes': x})
        for a, b in itertools.product(sh, repeat=2):
            yield call(n, [a, b])
            for x in (0, 1, -1, {'t': [0]}, {'t': [1]}, {'t': [0, 1]}, {'t': [2]}):
                yield call(n, [a, b], {'axes': x})
        for t in itertools.product(SH[:6], repeat=3):
            yield call(n, t)
        yield call(n, [])
    for n in ('max', 'min'):
        for a in sh:
            for x in AX:
                yield call(n, [a], {'axis': x})
            for r in (1, 20, 0, 'x', None, 5.):
                yield call(n, [a], {'rho': r})
                yield call(n, [a], {'rho': r, 'axis': 0})
                yield call(n, [a, a], {'rho': r})
        for a, b in itertools.product(sh, repeat=2):
            yield call(n, [a, b])
            for x in (0, 1, -1):
                yield call(n, [a, b], {'axis': x})
        for t in itertools.product(SH[:6], repeat=3):
            yield call(n, t)
        yield call(n, [])
        yield call(n, [], {'axis': 0})
    for a in sh:
        for q in (-2, -1, 0, 1, 2, 3, 4, 2.0, 2.5, 6, 'x', None):
            yield call('pnorm', [a], {'p': q})
            yield call('pnorm', [a], {'p': q, 'axis': 0})
        for x in AX:
            yield call('pnorm', [a], {'axis': x})
    for n in ('dot', 'cross'):
        for a, b in itertools.product(SH, repeat=2):
            for x in (AX if a == b else [0, 1]):
                yield call(n, [a, b], {'axis': x})
    pairs = [None, 0, {'t': [0]}, [0, 0], {'t': [[0], [0]]}, {'t': [[0, 1], [0, 1]]}, {'t': [[0, 1], [1, 0]]}, {'t': [[0], [0, 1]]}, {'t': ['x', 0]},
             {'t': [0, 0, 0]}] + [{'t': list(t)} for t in itertools.product((-1, 0, 1, 2), repeat=2)]
    for a, b in itertools.product(sh, repeat=2):
        for x in pairs:
            yield call('inner', [a, b], {'axes': x})
    for n in ('matmat', 'matvec', 'outer'):
        for a, b in itertools.product(SH, repeat=2):
            if n != 'outer' or len(a) + len(b) < 5:
                yield call(n, [a, b])
    for a in SH:
        yield call('transpose', [a])
        for s in [{'t': list(t)} for t in SH] + [{'t': [4]}, {'t': [6]}, {'t': [-1]}, {'t': [2, -1]}, {'t': [0]}, {'t': []}, {'t': [-1, -1]}, 2, 6, [2], [6],
                                                 'x', None, {'t': [2.0]}, {'t': ['x']}, {'t': [1, 6]}, {'t': [12]}]:
            yield call('reshape', [a], {'shape': s})
            if s != {'t': []}:
                yield call('expand', [a], {'shape': s})
        for s in SH:
            for i in ('a->a', 'a->ab', 'a->ba', 'ab->ab', 'ab->abc', 'ab->cab', 'ab->acb', 'ab->ba', 'ba->abc', 'a->b', '->a', '->ab', 'a->aa', 'aa->ab',
                      'ab->a', 'a', 'a->abc', 'a->cab', 'a->bca', 'abc->abc', 'a -> ab', 5):
                yield call('expand', [a], {'shape': {'t': list(s)}, 'indices': i})
        for op in E1 + ['ba->ab', 'abc->acb', 'a b -> b a', 'abc->abc', 'abc->ab', 'abc->aab', 'ab->abb', 'ba->aba', '', 'x', None, 3]:
            yield call('reorder_axes', [a], {'op': op})
        for x in ('x', 'y', 'z', 'w', 'X', '', 'xy', 0, None):
            if len(a) < 3:
                yield call('rotmat', [a], {'axis': x})
    for f in ('dense', 'sparse', 'other', None, 0):
        fs = {'f': f}
        for a in SH:
            for s in (E1 if f in ('dense', 'sparse') else ['a->a', 'ab->ba', 'ab->']):
                yield call('einsum', [a], {'s': s, **fs})
                if s.count('->') == 1 and s != '->':
                    i, o = s.split('->')
                    yield call('einsum_new', [a], {'o': [{'t': list(w)} for w in i.split(',')] + ([{'t': list(o)}] if o else []), **fs})
        for a, b in itertools.product(sh, repeat=2):
            for s in (E2 if f in ('dense', 'sparse') else ['ab,b->a']):
                yield call('einsum', [a, b], {'s': s, **fs})
                if s.count('->') == 1 and f != 'sparse':
                    i, o = s.split('->')
                    yield call('einsum_new', [a, b], {'o': [{'t': list(w)} for w in i.split(',')] + ([{'t': list(o)}] if o else []), **fs})
    for o in BAD_OPS:
        yield call('einsum_new', [(2, )], {'o': o})
    for s in (None, 3, ''):
        yield call('einsum', [(2, )], {'s': s})
    for c, t, e in itertools.product(SH[:8], repeat=3):
        yield call('if_else', [c, t, e])
    # operands that are not expressions, in every place
    for n, k in JARITY.items():
        p = {'cross': {'axis': 0}, 'reshape': {'shape': {'t': [3]}}, 'expand': {'shape': {'t': [3, 2]}, 'indices': 'a->ab'},
             'reorder_axes': {'op': 'a->a'}, 'rotmat': {'axis': 'x'}, 'einsum': {'s': 'a,a->a'},
             'einsum_new': {'o': [{'t': ['a']}, {'t': ['a']}, {'t': ['a']}]}}.get(n, {})
        if n not in ('add', 'sub', 'mul', 'div'):
            for pos in range(k):
                for j in JUNK:
                    yield call(n, [(3, )] * k, p, junk=[pos, j])
            yield call(n, [(3, 3), (3, )][:k] if n in ('matmat', 'matvec') else [(3, )] * k, p)
            if k == 2:
                for j, i in itertools.product(JUNK[:4], repeat=2):
                    yield call(n, [(3, )] * k, p, junk=[0, j, 1, i])
    for n in ('sum', 'average', 'max', 'min'):
        for pos in range(3):
            for j in JUNK:
                yield call(n, [(2, )] * 3, junk=[pos, j])
        for j in JUNK:
            yield call(n, [(2, )], junk=[0, j])
    # reading
    for a in [(1, ), (2, ), (3, ), (4, )]:
        for k in keys(a[0]):
            yield call('idx', [a], {'k': k})
            yield call('idx', [a], {'k': {'t': [k]}})
            if tier != 'quick':
                yield call('idx', [a], {'k': {'t': [k, 0]}})
    for a in [(2, 3), (3, 2), (1, 2), (2, 2, 2)]:
        for k in keys(3) if tier != 'quick' else keys(2):
            yield call('idx', [a], {'k': k})
        for k in itertools.product(SMALLK, repeat=2):
            yield call('idx', [a], {'k': {'t': list(k)}})
        for k in SMALLK:
            yield call('idx', [a], {'k': {'t': [k]}})
            for i in SMALLK if tier != 'quick' else SMALLK[:9]:
                yield call('idx', [a], {'k': {'t': [k, i, 1]}})
    for a in SH:
        for k in OTHER_KEYS:
            yield call('idx', [a], {'k': k})
        if len(a) == 2:
            for k in OTHER_KEYS:
                yield call('idx', [a], {'k': {'t': [0, k]}})
    # one element of a tuple that is no integer or slice, or one too many
    for a in [(4, ), (1, ), (2, 3), (3, 2), (2, 2, 2)]:
        for n in range(1, len(a) + 2):
            for good in itertools.product([0, 1, {'s': [None, None, None]}, {'s': [0, 2, None]}], repeat=n - 1):
                for i in range(n):
                    for bad in ('a', 0.5, None, [0], [0, 1], [5], {'o': 'ellipsis'}, {'o': 'dict'}, {'np': 'int64', 'v': 0}, {'t': []}, {'t': [0]}):
                        yield call('idx', [a], {'k': {'t': list(good[:i]) + [bad] + list(good[i:])}})


def cases(tier):
    yield from calls(tier)
    yield from assigns(tier)
    yield from sequences(tier)
    yield from residuals(tier)
    yield from declarations(tier)


def path(c):
    return [{k: v for k, v in c.items() if k != 'path'}] + c['path'] if 'path' in c else [c]


# -------------------------------------------------------------------- verdict
def verdict(fn):
    """('ok', [v]) | ('soft', [v..]) | ('no', [])"""
    try:
        return 'ok', [np.asarray(fn())]
    except No:
        return 'no', []
    except Soft as e:
        return 'soft', [np.asarray(v) for v in e.args]


def attempt(build, inputs, outs):
    """build, set up and run on the real code: (stage, error or values)"""
    stage = 'build'
    try:
        p = prog.problem(build)
        p.final_setup()
        stage = 'run'
        for n, v in inputs.items():
            try:
                p.set_val(n, v)
            except KeyError:
                pass
        p.run_model()
        return 'ran', [prog.get(p, o) for o in outs]
    except (prog.Timeout, KeyboardInterrupt):
        raise
    except (Exception, SystemExit) as e:
        if isinstance(e, SystemExit):
            raise Bad('the process is ended by %s' % e)
        return stage, e


def same(got, want):
    if got.shape != want.shape and not (want.size == 1 and got.size == 1):
        return False
    w = np.real(want).reshape(got.shape)
    return prog.close(got, w) or (not np.all(np.isfinite(w)) and np.allclose(got, w, equal_nan=True))


def judge(kind, wants, stage, res, early=True):
    """wants: list of alternatives, each a list of values"""
    if kind == 'no':
        if stage == 'ran':
            raise Bad('has no meaning, but is accepted and gives %s' % [r.tolist() for r in res])
        if stage == 'run' and early:
            raise Bad('has no meaning, but is only found out by running: %s: %s' % (type(res).__name__, str(res)[:200]))
        return
    if stage != 'ran':
        if kind == 'ok':
            raise Bad('well formed, but refused (%s): %s: %s' % (stage, type(res).__name__, str(res)[:200]))
        return
    for w in wants:
        if len(w) == len(res) and all(same(g, x) for g, x in zip(res, w)):
            return
    raise Bad('accepted with a wrong result: %s, meaning %s' % ([r.tolist() for r in res], [[np.real(x).tolist() for x in w] for w in wants[:1]]))


def run(case):
    if 'call' in case:
        return run_call(case)
    return FAM[case['fam']](case)


def run_call(case):
    n, p = case['call'], case['p']
    vals = [prog.point(i, tuple(s), 'u', 0) for i, s in enumerate(case['shapes'])]
    junk = dict(zip(case['junk'][::2], case['junk'][1::2])) if 'junk' in case else {}
    mul = 1.5 if n == 'if_else' else None
    if junk:
        kind, wants = 'no', []
    else:
        kind, wants = verdict(lambda: CALL[n][1]([v * mul if mul else v for v in vals], p))
    ins = {'x%d' % i: v for i, v in enumerate(vals) if i not in junk}

    def build(g):
        args = []
        for i, v in enumerate(vals):
            if i in junk:
                args.append(real(junk[i]))
                continue
            x = g.declare_input('x%d' % i, shape=v.shape)
            args.append(x * mul if mul else x)
        g.register_output('f', CALL[n][0](prog.ot, args, p))

    stage, res = attempt(build, ins, ['f'])
    judge(kind, [[w] for w in wants], stage, res, n not in LATE or bool(junk))
    return len(vals) + 2


# ------------------------------------------------- assignment to parts of arrays
def assign_one(y, k, e):
    """the array after y[k] = e; No / Soft as above"""
    shape = y.shape

    def put(flat):
        z = y.copy().reshape(-1)
        z[flat.reshape(-1)] = e.reshape(-1)
        return z.reshape(shape)

    def by_numpy():
        z = y.copy()
        try:
            z[k] = e
        except (IndexError, ValueError, TypeError):
            return None
        return z

    if k is None or k is Ellipsis or isinstance(k, (float, str, list)):
        z = None if k is None else by_numpy()
        if z is None:
            raise No()
        raise Soft(z)
    if isinstance(k, tuple) or len(shape) == 1:
        flat, soft = select(k, shape)
        need(flat.size > 0)
        if flat.shape == e.shape:
            return soften(put(flat), soft)
        z = by_numpy()
        if z is None:
            raise No()
        raise Soft(z)
    # one key for several axes counts elements or rows
    alts = []
    try:
        flat, _ = select(k, shape)
        if flat.shape == e.shape and flat.size:
            alts.append(put(flat))
    except No:
        pass
    z = by_numpy()
    if z is not None:
        alts.append(z)
    if not alts:
        raise No()
    raise Soft(*alts)


def positions(k, shape):
    flat, soft = select(k, shape)
    return set(int(i) for i in flat.reshape(-1))


def assigns(tier):
    for a in [(1, ), (2, ), (3, ), (4, )]:
        for k in keys(a[0]):
            for e in [(1, ), (2, ), (3, ), (1, 1), (2, 1)]:
                yield {'fam': 'assign', 'shape': list(a), 'path': [[k, list(e)]]}
                if tier != 'quick':
                    yield {'fam': 'assign', 'shape': list(a), 'path': [[{'t': [k]}, list(e)]]}
    for a in [(2, 3), (3, 2), (2, 2, 2)]:
        for k in itertools.product(SMALLK, repeat=2):
            for e in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2), (2, ), (1, ), (2, 2, 2), (1, 2, 1)]:
                if len(e) == len(a) or tier != 'quick' or k in (SMALLK[:2], ):
                    yield {'fam': 'assign', 'shape': list(a), 'path': [[{'t': list(k)}, list(e)]]}
        for k in SMALLK + OTHER_KEYS:
            for e in [(1, ), (2, ), (3, ), (6, ), (1, 3), (2, 3), (2, 2), (1, 2)]:
                yield {'fam': 'assign', 'shape': list(a), 'path': [[k, list(e)]]}
                yield {'fam': 'assign', 'shape': list(a), 'path': [[{'t': [k]}, list(e)]]}
    for k in OTHER_KEYS:
        for e in [(1, ), (2, )]:
            yield {'fam': 'assign', 'shape': [3], 'path': [[k, list(e)]]}
    # two and three pieces: overlapping or not, an expression used twice or not
    ks = [k for k in [0, 1, 2, 3] + [{'s': [a, b, st]} for a in (None, 0, 1, 2, 3) for b in (None, 1, 2, 3, 4) for st in (None, 2)]
          if not isinstance(k, dict) or len(range(4)[slice(*k['s'])])]
    for k, m in itertools.product(ks, repeat=2):
        for again in (0, 1):
            yield {'fam': 'assign', 'shape': [4], 'again': again, 'path': [[k, ext(k, (4, ))], [m, ext(m, (4, ))]]}
    # three and four pieces, each of which may overlap with any earlier one
    part = [0, 1, 2, {'s': [0, 2, None]}, {'s': [1, 3, None]}, {'s': [None, None, 2]}, {'s': [None, 3, None]}]
    for t in itertools.product(part, repeat=3):
        yield {'fam': 'assign', 'shape': [3], 'again': 0, 'path': [[k, ext(k, (3, ))] for k in t]}
    part = [0, 1, 2, 3, {'s': [0, 2, None]}, {'s': [1, 4, 2]}]
    for t in itertools.product(part, repeat=4):
        if tier != 'quick' or t[0] in (0, 3) or isinstance(t[0], dict) and t[0]['s'][0] == 0 and t[2] != t[3]:
            yield {'fam': 'assign', 'shape': [4], 'again': 0, 'path': [[k, ext(k, (4, ))] for k in t]}
    if tier != 'quick':
        for t in itertools.product(ks[::3], repeat=3):
            for again in (0, 1, 2):
                yield {'fam': 'assign', 'shape': [4], 'again': again, 'path': [[k, ext(k, (4, ))] for k in t]}
    one = [0, 1, {'s': [None, None, None]}, {'s': [0, 1, None]}, {'s': [1, None, None]}]
    two = one + [2, {'s': [0, 2, None]}, {'s': [None, None, 2]}]
    tk = [{'t': [i, j]} for i in one for j in two]
    for k, m in itertools.product(tk, repeat=2):
        yield {'fam': 'assign', 'shape': [2, 3], 'again': 0, 'path': [[k, ext(k, (2, 3))], [m, ext(m, (2, 3))]]}


def ext(k, shape):
    flat, _ = select(real(k), shape)
    return list(flat.shape)


def run_assign(case):
    shape = tuple(case['shape'])
    ks = [real(k) for k, _ in case['path']]
    src = list(range(len(ks)))
    if case.get('again'):
        src[-1] = src[-1 - case['again']]
    es = [prog.point(src[i], tuple(e), 'u', 0) * (2. + src[i]) for i, (_, e) in enumerate(case['path'])]

    def meaning():
        y = np.ones(shape)
        soft = False
        seen = set()
        alts = [y]
        for i, (k, e) in enumerate(zip(ks, es)):
            if len(ks) > 1:
                need(src[i] == i)
                pos = positions(k, shape)
                need(not (pos & seen))
                seen |= pos
            try:
                alts = [assign_one(alts[0], k, e)]
            except Soft as s:
                soft = True
                alts = list(s.args)
        if soft:
            raise Soft(*alts)
        return alts[0]

    if case.get('again') and case['path'][-1][1] != case['path'][-1 - case['again']][1]:
        return 1
    kind, wants = verdict(meaning)
    ins = {'x%d' % i: prog.point(i, tuple(e), 'u', 0) for i, (_, e) in enumerate(case['path']) if src[i] == i}

    def build(g):
        y = g.create_output('y', shape=shape)
        n = []
        for i, (_, e) in enumerate(case['path']):
            if src[i] == i:
                n.append(g.declare_input('x%d' % i, shape=tuple(e)) * (2. + i))
            else:
                n.append(n[src[i]])
        for i, k in enumerate(ks):
            y[k] = n[i]

    stage, res = attempt(build, ins, ['y'])
    judge(kind, [[w] for w in wants], stage, res)
    return 2 * len(ks) + 1


# -------------------------------------------------- sequences of building steps
# x is a declared input of shape (2,), a, b, c expressions of that shape, d one of
# shape (4,), w an independent variable; y of shape (4,) and z of shape (2,) are
# outputs created at the start when the configuration says so
STEPS = ['f=a', 'f=b', 'g=a', 'g=x', 'g=w', 'g=1', 'w=b', 'new f', 'y[:2]=a', 'y[2:]=b', 'y[1:3]=c', 'y[:]=d', 'y[2:]=a', 'y[2:]=d', 'y[2:]=1',
         'y:=d', 'y:=y', 'y:=a', 'y:=1', 'y:=cyc', 'z:=cyc', 'z:=a', 'z[:]=b', 'k=2y', 'k=2z', 'x3', 'y again', 'y[:]=y']


class Model:
    """what a user may do, and what it means"""
    def __init__(self, conf):
        self.reg = {'w': 'w'}
        self.exprs = {'w'}
        self.y = self.z = None
        if 'y' in conf:
            self.y = {'pos': {}, 'def': None, 'used': set()}
        if 'z' in conf:
            self.z = {'pos': {}, 'def': None, 'used': set()}
        self.made = set(conf)
        self.soft = False

    def can(self, s):
        if s[0] == 'y' or s == 'k=2y':
            return self.y is not None
        if s[0] == 'z' or s == 'k=2z':
            return self.z is not None
        return True

    def step(self, s):
        """raises No where the step has no meaning in this state"""
        if s in ('g=x', 'g=1', 'g=w', 'x3', 'y again', 'y:=1', 'y[2:]=1', 'y:=y', 'y:=a', 'y[2:]=d', 'w=b', 'new f', 'y[:]=y'):
            # new f is an output that nothing computes
            raise No()
        if s[:2] in ('f=', 'g=', 'k='):
            n, e = s.split('=')
            need(e not in self.exprs and n not in self.reg)
            self.exprs.add(e)
            self.reg[n] = e
            return
        v = self.y if s[0] == 'y' else self.z
        if ':=' in s:
            need(v['def'] is None and not v['pos'])
            v['def'] = s.split('=')[1]
            return
        need(v['def'] is None)
        k, e = s[2:].split(']=')
        pos = range(4 if s[0] == 'y' else 2)[slice(*[int(i) if i else None for i in k.split(':')])]
        need(e not in v['used'] and not set(pos) & set(v['pos']))
        v['used'].add(e)
        for i, p in enumerate(pos):
            v['pos'][p] = (e, i)

    def end(self):
        for v in (self.y, self.z):
            need(v is None or v['def'] is not None or v['pos'])

    def values(self, x, w):
        val = {'a': x * 2., 'b': np.sin(x), 'c': np.cos(x), 'd': np.array([x[0], x[1], x[0] * 3., 2.]), 'w': w}
        val['d'] = np.concatenate([x * 3., x * x])
        for n, v, m in (('y', self.y, 4), ('z', self.z, 2)):
            if v is None:
                continue
            if v['def'] == 'cyc':
                t = np.ones(m)
                base = val['d'] if n == 'y' else x
                for _ in range(200):
                    t = 0.3 * np.sin(t) + base
                val[n] = t
            elif v['def']:
                val[n] = val[v['def']]
            else:
                t = np.ones(m)
                for p, (e, i) in v['pos'].items():
                    t[p] = val[e][i]
                val[n] = t
            val['2' + n] = 2. * val[n]
        res = {n: val[e] for n, e in self.reg.items()}
        for n, v in (('y', self.y), ('z', self.z)):
            if v is not None:
                res[n] = val[n]
        return res


def perform(g, conf, steps):
    ot, om = prog.ot, prog.om
    g.nonlinear_solver = om.NonlinearBlockGS(maxiter=60, atol=1e-14, rtol=1e-14, iprint=-1)
    g.linear_solver = om.DirectSolver()
    w = g.create_indep_var('w', shape=(2, ), val=np.array([3., 4.]))
    x = g.declare_input('x', shape=(2, ))
    e = {'x': x, 'w': w, 'a': x * 2., 'b': ot.sin(x), 'c': ot.cos(x), '1': 1.}
    d = g.create_output('d', shape=(4, ))
    d[0:2] = x * 3.
    d[2:4] = x * x
    e['d'] = d
    if 'y' in conf:
        e['y'] = g.create_output('y', shape=(4, ))
    if 'z' in conf:
        e['z'] = g.create_output('z', shape=(2, ))
    for s in steps:
        if s == 'new f':
            g.create_output('f', shape=(2, ))
        elif s == 'y again':
            y2 = g.create_output('y', shape=(4, ))
            y2[0:4] = d * 2.
        elif s == 'x3':
            g.register_output('x3', ot.sum(g.declare_input('x', shape=(3, ))))
            g.register_output('x2', ot.sum(x))
        elif s in ('k=2y', 'k=2z'):
            g.register_output('k', e.setdefault('2' + s[-1], 2. * e[s[-1]]))
        elif ':=' in s:
            v = e[s[0]]
            t = s.split('=')[1]
            v.define(0.3 * ot.sin(v) + (d if s[0] == 'y' else x) if t == 'cyc' else e[t])
        elif '[' in s:
            k, t = s[2:].split(']=')
            k = slice(*[int(i) if i else None for i in k.split(':')])
            e[s[0]][k] = e[t]
        else:
            n, t = s.split('=')
            g.register_output(n, e[t])


def sequences(tier):
    depth = 3 if tier == 'quick' else 4
    for conf in ('', 'y', 'z', 'yz'):
        def rec(pre):
            m = Model(conf)
            ok = True
            try:
                for s in pre:
                    m.step(s)
            except No:
                ok = False
            if pre or conf == '':
                yield {'fam': 'seq', 'conf': conf, 'path': pre}
            if ok and len(pre) < depth:
                for s in STEPS:
                    if m.can(s):
                        yield from rec(pre + [s])

        yield from rec([])


def run_seq(case):
    m = Model(case['conf'])
    x, w = prog.point(0, (2, ), 'u', 1), np.array([3., 4.])

    def meaning():
        for s in case['path']:
            m.step(s)
        m.end()
        return 0

    kind, _ = verdict(meaning)
    want = m.values(x, w) if kind == 'ok' else {}
    names = sorted(want)
    stage, res = attempt(lambda g: perform(g, case['conf'], case['path']), {'x': x}, names)
    if stage == 'ran' and kind == 'no':
        raise Bad('has no meaning, but is accepted')
    judge(kind, [[want[n] for n in names]], stage, res)
    return len(case['path']) + 2


# ------------------------------------------------------------------- residuals
def residuals(tier):
    R = ['p:rp', 'q:rq', 'p:rp2', 'p:p', 'p:w', 'p:1', 'p:rq', 'q:rp', 'q:q', 'rp=rp', 'rq=rq', 'rp=rp2', 'q:rqp']
    for kind in ('res', 'resb'):
        for n in range(0, 4 if tier != 'quick' else 3):
            for t in itertools.product(R, repeat=n):
                yield {'fam': 'res', 'kind': kind, 'path': list(t)}


def run_res(case):
    kind = case['kind']
    a, b = 1.7, 0.9

    def meaning():
        res, reg, out = {}, set(), set()
        twice = False
        for s in case['path']:
            if '=' in s:
                n, t = s.split('=')
                need(t not in reg)
                # names that never reach the model do no harm
                twice = twice or n in out
                out.add(n)
                reg.add(t)
                continue
            o, r = s.split(':')
            need(o not in res and r not in reg and r not in ('p', 'q', 'w', '1'))
            reg.add(r)
            res[o] = r
        if not res or twice:
            raise Soft()
        # q without a residual is a number nobody computes
        need(not any(r == 'rqp' for r in res.values()) or 'p' in res)
        if not (res.get('p') in (None, 'rp', 'rp2') and res.get('q') in (None, 'rq', 'rqp')):
            raise Soft()
        if any('=' in s for s in case['path']):
            raise Soft()
        return res

    res = None
    try:
        res = meaning()
        verd = 'ok'
    except No:
        verd = 'no'
    except Soft:
        verd = 'soft'

    class Comp(prog.ot.ImplicitComponent):
        def setup(self):
            ot = prog.ot
            g = self.group
            A, B = g.declare_input('a'), g.declare_input('b')
            p, q = g.create_implicit_output('p'), g.create_implicit_output('q')
            e = {'rp': 3. * p + ot.sin(p) - A, 'rp2': 2. * p + p * p - A, 'rq': q * 4. - B, 'rqp': q + 0.5 * q * q * q - B * p, 'p': p, 'q': q, '1': 1.}
            wide = ot.expand(p, (2, )) - ot.expand(A, (2, ))
            e['w'] = wide
            for s in case['path']:
                if '=' in s:
                    n, t = s.split('=')
                    g.register_output('out_' + n, e[t])
                else:
                    o, t = s.split(':')
                    v = {'p': p, 'q': q}[o]
                    if kind == 'res':
                        v.define_residual(e[t])
                    else:
                        v.define_residual_bracketed(e[t], x1=0., x2=2.)
            if kind == 'res':
                self.linear_solver = prog.om.DirectSolver()
                self.nonlinear_solver = prog.om.NewtonSolver(solve_subsystems=False, maxiter=50, atol=1e-13, rtol=1e-13, iprint=-1)

    stage = 'build'
    try:
        m = prog.om.Group()
        m.add_subsystem('c', Comp(), promotes=['*'])
        pr = prog.om.Problem(model=m, reports=None)
        pr.setup()
        pr.set_solver_print(-1)
        pr.final_setup()
        stage = 'run'
        for n, v in (('a', a), ('b', b)):
            try:
                pr.set_val(n, v)
            except KeyError:
                pass
        pr.run_model()
        got = {o: prog.get(pr, o) for o in (res or {s[0]: 0 for s in case['path'] if s[1] == ':'})}
        stage = 'ran'
    except (Exception, SystemExit) as e:
        if isinstance(e, SystemExit):
            raise Bad('the process is ended by %s' % e)
        err = e
    if verd == 'no':
        if stage == 'ran':
            raise Bad('has no meaning, but is accepted and gives %s' % {k: v.tolist() for k, v in got.items()})
        if stage == 'run':
            raise Bad('has no meaning, but is only found out by running: %s: %s' % (type(err).__name__, str(err)[:200]))
    elif verd == 'ok':
        if stage != 'ran':
            raise Bad('well formed, but refused (%s): %s: %s' % (stage, type(err).__name__, str(err)[:200]))
        P = got['p'] if 'p' in got else 1.
        Q = got['q'] if 'q' in got else 1.
        F = {'rp': lambda: 3. * P + np.sin(P) - a, 'rp2': lambda: 2. * P + P * P - a, 'rq': lambda: 4. * Q - b, 'rqp': lambda: Q + 0.5 * Q**3 - b * P}
        for o, r in res.items():
            if not prog.close(F[r](), np.zeros(1), 1e-8):
                raise Bad('residual of %s is %s' % (o, F[r]().tolist()))
    return len(case['path']) + 5


# ---------------------------------------------------------------- declarations
VALS = [1.5, 2, {'np': 'float64', 'v': 2.0}, {'np': 'int64', 'v': 3}, 'x', None, {'o': 'dict'}, {'t': [1., 2.]}, [1., 2.], [[1., 2.]], ['a'], [],
        {'o': 'group'}] + [{'a': list(s)} for s in SH[:11]] + [{'ca': list(s)} for s in ((), (1, ), (2, ), (2, 3))]
SHAPES = [None] + [{'t': list(s)} for s in SH[:11]] + [[2], 2, 'x', {'t': [2.0]}, {'t': [0]}, {'t': [-1]}]


def declarations(tier):
    for kind in ('in', 'ind', 'cyc', 'imp'):
        for s in SHAPES:
            for v in VALS:
                yield {'fam': 'decl', 'kind': kind, 'shape': s, 'val': v}
    for a, b in itertools.product(('in', 'ind', 'out', 'reg'), repeat=2):
        for s in (2, 3):
            yield {'fam': 'two', 'kinds': [a, b], 'n': s}


def run_decl(case):
    shape, val = real(case['shape']), real(case['val'])
    kw = {'val': val}
    if shape is not None:
        kw['shape'] = shape

    def meaning():
        sh = (1, ) if shape is None else shape
        soft = not isinstance(sh, tuple)
        if is_int(sh):
            sh = (sh, )
        need(isinstance(sh, (tuple, list)) and all(is_int(i) and i >= 0 for i in sh))
        sh = tuple(sh)
        if 0 in sh:
            raise Soft()
        need(not np.iscomplexobj(val))
        if isinstance(val, (int, float, np.number)):
            return soften(np.ones(sh) * float(val), soft)
        need(isinstance(val, (np.ndarray, list, tuple)))
        soft = soft or isinstance(val, tuple)
        try:
            v = np.array(val, dtype=float)
        except ValueError:
            raise No()
        need(v.size > 0)
        if v.shape == sh:
            return soften(v, soft)
        need(sh == (1, ) or soft)
        return soften(v, soft)

    kind, wants = verdict(meaning)
    if kind == 'soft' and not wants:
        return 1

    def body(g, h):
        if case['kind'] == 'in':
            x = h.declare_input('x', **kw)
            h.register_output('f', 2. * x)
        elif case['kind'] == 'ind':
            x = h.create_indep_var('x', **kw)
            h.register_output('f', 2. * x)
        elif case['kind'] == 'cyc':
            y = h.create_output('x', **kw)
            y.define(0. * y + y)

    if case['kind'] == 'imp':
        class Comp(prog.ot.ImplicitComponent):
            def setup(self):
                y = self.group.create_implicit_output('x', **kw)
                y.define_residual(y * 1. - y)

        def build(g):
            g.add_subsystem('c', Comp(), promotes=['*'])
    else:
        def build(g):
            body(g, g)

    if case['kind'] in ('in', 'ind'):
        stage, res = attempt(build, {}, ['x', 'f'])
        judge(kind, [[w, 2. * w] for w in wants], stage, res)
        return 3
    # the value they start at
    stage = 'build'
    try:
        p = prog.problem(build)
        p.final_setup()
        stage, res = 'ran', [prog.get(p, 'x')]
    except Exception as e:
        res = e
    judge(kind, [[w] for w in wants], stage, res)
    return 3


def run_two(case):
    """two things of one name"""
    a, b = case['kinds']
    n = case['n']
    want = None
    if set((a, b)) <= {'in'}:
        want = n == 2
    elif 'in' not in (a, b):
        want = False
    else:
        # an input and an output of one name: connected, when their shapes agree
        want = None if n == 2 else False

    def build(g):
        for i, (k, m) in enumerate(((a, 2), (b, n))):
            if k == 'in':
                g.register_output('f%d' % i, 2. * g.declare_input('x', shape=(m, )))
            elif k == 'ind':
                g.create_indep_var('x', shape=(m, ), val=3.)
            elif k == 'out':
                o = g.create_output('x', shape=(m, ))
                o[0:m] = g.declare_input('s%d' % i, shape=(m, )) + 1.
            else:
                g.register_output('x', g.declare_input('s%d' % i, shape=(m, )) + 1.)

    stage, res = attempt(build, {}, [])
    if want is False and stage != 'build':
        raise Bad('two different things of one name are accepted')
    if want is True and stage != 'ran':
        raise Bad('well formed, but refused: %s: %s' % (type(res).__name__, str(res)[:200]))
    return 3


FAM = {'assign': run_assign, 'seq': run_seq, 'res': run_res, 'decl': run_decl, 'two': run_two}
