"""Operation alphabet: how to write each operation with the public API, and what
it means (a plain-numpy reference, complex-safe so that complex step gives exact
derivatives).  The reference shares no code with omtools.
"""
import numpy as np


def tup(v):
    """JSON list -> tuple, recursively"""
    if isinstance(v, list):
        return tuple(tup(i) for i in v)
    return v


def key_of(k):
    """JSON index key: int | ['s',a,b,c] | [[...], ...] (tuple)"""
    if isinstance(k, int) or k is None:
        return k
    if k and k[0] == 's':
        return slice(*k[1:])
    if k and k[0] == 't':
        return tuple(key_of(i) for i in k[1:])
    raise ValueError(k)


def as_slices(k):
    """omtools keeps integer-indexed axes as axes of length one"""
    k = key_of(k)
    if isinstance(k, int):
        return (slice(k, k + 1 or None), )
    if isinstance(k, slice):
        return (k, )
    return tuple(slice(i, i + 1 or None) if isinstance(i, int) else i for i in k)


def arr(c):
    """JSON literal -> python literal.  {'a':[..],'d':dtype} is an ndarray,
    {'np':'int64','v':3} a numpy scalar"""
    if isinstance(c, dict):
        if 'a' in c:
            return np.array(c['a'], dtype=c.get('d', 'float64'))
        return np.dtype(c['np']).type(c['v'])
    return c


def _one(v):
    return np.asarray(v).reshape((1, ))


# ---------------------------------------------------------------- references
def _asum(p):
    ax = tup(p.get('axes'))
    return ax


def r_sum(args, p, f=np.sum):
    ax = _asum(p)
    if ax is None:
        if len(args) == 1:
            return _one(f(args[0]))
        t = args[0]
        for a in args[1:]:
            t = t + a
        return t if f is np.sum else t / len(args)
    t = args[0] * 0 if False else None
    acc = None
    for a in args:
        v = f(a, axis=ax)
        acc = v if acc is None else acc + v
    if f is not np.sum:
        acc = acc / len(args)
    return acc


def _ks(stack, axis, rho):
    """Kreisselmeier-Steinhauser aggregate of stack over axis (complex safe)"""
    m = np.max(np.real(stack), axis=axis, keepdims=True)
    s = np.sum(np.exp(rho * (stack - m)), axis=axis, keepdims=True)
    out = m + np.log(s) / rho
    return np.squeeze(out, axis=axis) if not isinstance(axis, type(None)) else out


def r_ext(args, p, sgn):
    rho = p.get('rho', 20.)
    ax = p.get('axis')
    if len(args) > 1:
        st = np.stack([sgn * a for a in args], axis=0)
        return sgn * _ks(st, 0, rho)
    a = sgn * args[0]
    if ax is None:
        return _one(sgn * _ks(a.reshape(-1), 0, rho))
    return sgn * _ks(a, ax, rho)


def r_pnorm(args, p):
    a = args[0]
    n = p.get('p', 2)
    ax = tup(p.get('axis'))
    if ax is None:
        return _one(np.sum(a**n)**(1. / n))
    return np.sum(a**n, axis=ax)**(1. / n)


def r_rot(args, p):
    a = args[0]
    c, s = np.cos(a), np.sin(a)
    z, o = 0 * a, 0 * a + 1
    M = {
        'x': [[o, z, z], [z, c, -s], [z, s, c]],
        'y': [[c, z, s], [z, o, z], [-s, z, c]],
        'z': [[c, -s, z], [s, c, z], [z, z, o]]
    }[p['axis']]
    R = np.array(M)  # 3,3,*shape
    R = np.moveaxis(R, (0, 1), (-2, -1))
    if a.shape == (1, ):
        R = R.reshape((3, 3))
    return R


def r_cross(args, p):
    # written out by hand so that complex numbers and any axis work
    ax = p['axis']
    a = np.moveaxis(args[0], ax, 0)
    b = np.moveaxis(args[1], ax, 0)
    c = np.array([
        a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0]
    ])
    return np.moveaxis(c, 0, ax)


def r_dot(args, p):
    a, b = args
    if a.ndim == 1:
        return _one(np.sum(a * b))
    return np.sum(a * b, axis=p['axis'])


def r_inner(args, p):
    a, b = args
    if a.ndim == 1 and b.ndim == 1:
        return _one(np.sum(a * b))
    ax = p['axes']
    return np.tensordot(a, b, axes=([*np.atleast_1d(ax[0])], [*np.atleast_1d(ax[1])]))


def r_matmat(args, p):
    a, b = args
    return a @ b


def r_expand(args, p):
    a = args[0]
    shape = tup(p['shape'])
    if a.shape == (1, ) and not p.get('force'):
        return np.zeros(shape) + a.reshape(())
    i, o = p['indices'].split('->')
    # value at out index (..) = a[index restricted to the shared letters]
    out = np.empty(shape, dtype=a.dtype)
    for idx in np.ndindex(*shape):
        d = dict(zip(o, idx))
        out[idx] = a[tuple(d[c] for c in i)]
    return out


def _np_einsum(sub, args):
    """einsum by definition: loop over every assignment of every letter"""
    sub = sub.replace(' ', '')
    ins, o = sub.split('->')
    ins = ins.split(',')
    dims = {}
    for t, a in zip(ins, args):
        for c, n in zip(t, a.shape):
            dims[c] = n
    letters = sorted(dims)
    out = np.zeros(tuple(dims[c] for c in o), dtype=np.result_type(*args))
    for idx in np.ndindex(*[dims[c] for c in letters]):
        d = dict(zip(letters, idx))
        v = 1.
        for t, a in zip(ins, args):
            v = v * a[tuple(d[c] for c in t)]
        out[tuple(d[c] for c in o)] += v
    return out.reshape((1, )) if o == '' else out


def new_to_old(operation, nops):
    m = {}
    letters = 'abcdefghijklmnopqrstuvwxyz'

    def w(t):
        s = ''
        for a in t:
            if a not in m:
                m[a] = letters[len(m)]
            s += m[a]
        return s

    ins = [w(t) for t in operation[:nops]]
    o = w(operation[nops]) if len(operation) > nops else ''
    return ','.join(ins) + '->' + o


def r_ifelse(args, p):
    c, t, f = args
    return f if np.real(c).flat[0] < 0 else t


def r_pow(args, p):
    e = arr(p['c'])
    a = args[0]
    if isinstance(e, np.ndarray):
        return a**e
    # exact integer powers stay exact and complex-safe
    if float(e) == int(e):
        e = int(e)
        if e >= 0:
            r = np.ones_like(a) * 1.
            for _ in range(e):
                r = r * a
            return r
        return 1. / r_pow([a], {'c': -e})
    return a**e


U = {
    'sin': np.sin,
    'cos': np.cos,
    'tan': lambda a: np.sin(a) / np.cos(a),
    'exp': np.exp,
    'log': np.log,
    'log10': lambda a: np.log(a) / np.log(10.),
    'sinh': lambda a: (np.exp(a) - np.exp(-a)) / 2,
    'cosh': lambda a: (np.exp(a) + np.exp(-a)) / 2,
    'tanh': lambda a: np.sinh(a) / np.cosh(a),
    'sec': lambda a: 1 / np.cos(a),
    'cosec': lambda a: 1 / np.sin(a),
    'cotan': lambda a: np.cos(a) / np.sin(a),
    'sech': lambda a: 1 / np.cosh(a),
    'cosech': lambda a: 1 / np.sinh(a),
    'cotanh': lambda a: np.cosh(a) / np.sinh(a),
    'arcsin': np.arcsin,
    'arccos': np.arccos,
    'arctan': np.arctan,
}

# name -> (write with API, meaning)
OPS = {
    'add': (lambda ot, a, p: a[0] + a[1], lambda a, p: a[0] + a[1]),
    'sub': (lambda ot, a, p: a[0] - a[1], lambda a, p: a[0] - a[1]),
    'mul': (lambda ot, a, p: a[0] * a[1], lambda a, p: a[0] * a[1]),
    'div': (lambda ot, a, p: a[0] / a[1], lambda a, p: a[0] / a[1]),
    'neg': (lambda ot, a, p: -a[0], lambda a, p: -a[0]),
    'pos': (lambda ot, a, p: +a[0], lambda a, p: a[0]),
    'pow': (lambda ot, a, p: a[0]**arr(p['c']), r_pow),
    'addc': (lambda ot, a, p: a[0] + arr(p['c']), lambda a, p: a[0] + arr(p['c'])),
    'subc': (lambda ot, a, p: a[0] - arr(p['c']), lambda a, p: a[0] - arr(p['c'])),
    'mulc': (lambda ot, a, p: a[0] * arr(p['c']), lambda a, p: a[0] * arr(p['c'])),
    'divc': (lambda ot, a, p: a[0] / arr(p['c']), lambda a, p: a[0] / arr(p['c'])),
    'cadd': (lambda ot, a, p: arr(p['c']) + a[0], lambda a, p: arr(p['c']) + a[0]),
    'csub': (lambda ot, a, p: arr(p['c']) - a[0], lambda a, p: arr(p['c']) - a[0]),
    'cmul': (lambda ot, a, p: arr(p['c']) * a[0], lambda a, p: arr(p['c']) * a[0]),
    'cdiv': (lambda ot, a, p: arr(p['c']) / a[0], lambda a, p: arr(p['c']) / a[0]),
    'idx': (lambda ot, a, p: a[0][key_of(p['k'])], lambda a, p: a[0][as_slices(p['k'])]
            if a[0].ndim == len(as_slices(p['k'])) else a[0].reshape(-1)[as_slices(p['k'])]),
    'sum': (lambda ot, a, p: ot.sum(*a, **({'axes': tup(p['axes'])} if 'axes' in p else {})), r_sum),
    'average': (lambda ot, a, p: ot.average(*a, **({'axes': tup(p['axes'])} if 'axes' in p else {})),
                lambda a, p: r_sum(a, p, np.mean)),
    'pnorm': (lambda ot, a, p: ot.pnorm(a[0], **{
        k: v
        for k, v in (('pnorm_type', p.get('p')), ('axis', tup(p.get('axis')))) if v is not None
    }), r_pnorm),
    'max': (lambda ot, a, p: ot.max(*a, **p), lambda a, p: r_ext(a, p, 1.)),
    'min': (lambda ot, a, p: ot.min(*a, **p), lambda a, p: r_ext(a, p, -1.)),
    'rotmat': (lambda ot, a, p: ot.rotmat(a[0], p['axis']), r_rot),
    'cross': (lambda ot, a, p: ot.cross(a[0], a[1], axis=p['axis']), r_cross),
    'dot': (lambda ot, a, p: ot.dot(a[0], a[1], **p), r_dot),
    'inner': (lambda ot, a, p: ot.inner(a[0], a[1], **{k: tup(v) for k, v in p.items()}), r_inner),
    'outer': (lambda ot, a, p: ot.outer(a[0], a[1]), lambda a, p: np.multiply.outer(a[0], a[1])),
    'matmat': (lambda ot, a, p: ot.matmat(a[0], a[1]), r_matmat),
    'matvec': (lambda ot, a, p: ot.matvec(a[0], a[1]), lambda a, p: a[0] @ a[1]),
    'transpose': (lambda ot, a, p: ot.transpose(a[0]), lambda a, p: a[0].T),
    'reorder_axes': (lambda ot, a, p: ot.reorder_axes(a[0], p['op']), lambda a, p: np.transpose(
        a[0], [p['op'].replace(' ', '').split('->')[0].index(c) for c in p['op'].replace(' ', '').split('->')[1]])),
    'reshape': (lambda ot, a, p: ot.reshape(a[0], tup(p['shape'])), lambda a, p: a[0].reshape(tup(p['shape']))),
    'expand': (lambda ot, a, p: ot.expand(a[0], tup(p['shape']), **({'indices': p['indices']} if p.get('indices') else {})),
               r_expand),
    'einsum': (lambda ot, a, p: ot.einsum(*a, subscripts=p['s'], **({'partial_format': p['f']} if 'f' in p else {})),
               lambda a, p: _np_einsum(p['s'], a)),
    'einsum_new': (lambda ot, a, p: ot.einsum_new_api(*a, operation=[tuple(t) for t in p['o']],
                                                      **({'partial_format': p['f']} if 'f' in p else {})),
                   lambda a, p: _np_einsum(new_to_old(p['o'], len(a)), a)),
    'if_else': (lambda ot, a, p: ot.if_else(a[0], a[1], a[2]), r_ifelse),
}
for _n in U:
    OPS[_n] = ((lambda n: lambda ot, a, p: getattr(ot, n)(a[0]))(_n), (lambda n: lambda a, p: U[n](a[0]))(_n))


def ref_op(name, args, p):
    return np.asarray(OPS[name][1](args, p))
