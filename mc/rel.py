"""Elementwise programs at points of very small and very large magnitude, judged relative to the size of what is computed.

Reference: extended precision (64-bit mantissa) values and derivatives, with a running bound on what ordinary
rounding of any evaluation order can change; the allowed error is a large multiple of that bound and nothing else,
so that a term is noticed to be missing however small it is.
"""
import numpy as np

from mc import ops as O
from mc import prog

L = np.longdouble
U_ = L(2.)**-52
SLACK = L(4096.)
LN10 = np.log(L(10.))

# name: (value, derivative)
F = {
    'sin': (np.sin, np.cos),
    'cos': (np.cos, lambda x: -np.sin(x)),
    'tan': (np.tan, lambda x: 1 / np.cos(x)**2),
    'exp': (np.exp, np.exp),
    'log': (np.log, lambda x: 1 / x),
    'log10': (lambda x: np.log(x) / LN10, lambda x: 1 / (x * LN10)),
    'sinh': (np.sinh, np.cosh),
    'cosh': (np.cosh, np.sinh),
    'tanh': (np.tanh, lambda x: 1 / np.cosh(x)**2),
    'sec': (lambda x: 1 / np.cos(x), lambda x: np.sin(x) / np.cos(x)**2),
    'cosec': (lambda x: 1 / np.sin(x), lambda x: -np.cos(x) / np.sin(x)**2),
    'cotan': (lambda x: 1 / np.tan(x), lambda x: -1 / np.sin(x)**2),
    'sech': (lambda x: 1 / np.cosh(x), lambda x: -np.tanh(x) / np.cosh(x)),
    'cosech': (lambda x: 1 / np.sinh(x), lambda x: -1 / (np.tanh(x) * np.sinh(x))),
    'cotanh': (lambda x: 1 / np.tanh(x), lambda x: -1 / np.sinh(x)**2),
    'arcsin': (np.arcsin, lambda x: 1 / np.sqrt(1 - x * x)),
    'arccos': (np.arccos, lambda x: -1 / np.sqrt(1 - x * x)),
    'arctan': (np.arctan, lambda x: 1 / (1 + x * x)),
}


def lit(p):
    c = O.arr(p['c'])
    return np.asarray(c, dtype=L) if not isinstance(c, np.ndarray) else c.astype(L)


def op(name, a, p):
    """value, partial derivatives"""
    one = a[0] * 0 + 1
    if name == 'add':
        return a[0] + a[1], [one, one]
    if name == 'sub':
        return a[0] - a[1], [one, -one]
    if name == 'mul':
        return a[0] * a[1], [a[1], a[0]]
    if name == 'div':
        return a[0] / a[1], [1 / a[1], -a[0] / a[1] / a[1]]
    if name == 'neg':
        return -a[0], [-one]
    if name in ('addc', 'cadd'):
        return a[0] + lit(p), [one]
    if name == 'subc':
        return a[0] - lit(p), [one]
    if name == 'csub':
        return lit(p) - a[0], [-one]
    if name in ('mulc', 'cmul'):
        return a[0] * lit(p), [one * lit(p)]
    if name == 'divc':
        return a[0] / lit(p), [one / lit(p)]
    if name == 'cdiv':
        return lit(p) / a[0], [-lit(p) / a[0] / a[0]]
    if name == 'pow':
        c = lit(p)
        d = np.where(c == 0, 0 * a[0], c * a[0]**np.where(c == 0, L(1.), c - 1))
        return a[0]**c, [d]
    f, d = F[name]
    return f(a[0]), [d(a[0])]


PERIODIC = ('sin', 'cos', 'tan', 'sec', 'cosec', 'cotan')


class Node:
    def __init__(self, v, e, j, ja):
        self.v, self.e, self.j, self.ja = v, e, j, ja


def nodes(case, vals):
    """per node: value, error bound, derivative with respect to each input, sum of absolute contributions"""
    out = []
    for n, s, k, _ in case['ins']:
        v = np.asarray(vals[n]).astype(L).reshape(tuple(s))
        out.append(Node(v, 0 * v, {n: v * 0 + 1}, {n: v * 0 + 1}))
    for name, a, p in case['ops']:
        xs = [out[i] for i in a]
        v, d = op(name, [x.v for x in xs], p)
        e = U_ * np.abs(v)
        if name in ('addc', 'cadd', 'subc', 'csub'):
            e = e + U_ * np.abs(lit(p))
        j, ja = {}, {}
        for x, q in zip(xs, d):
            e = e + np.abs(q) * (x.e + U_ * np.abs(x.v))
            for w in x.j:
                j[w] = j.get(w, 0) + q * x.j[w]
                ja[w] = ja.get(w, 0) + np.abs(q) * x.ja[w]
        out.append(Node(v, e, j, ja))
    return out


def regular(case, pt, big=1e280):
    """finite everywhere, and no operand of a curved operation is the outcome of cancellation"""
    with np.errstate(all='ignore'):
        try:
            ns = nodes(case, prog.in_values(case, pt))
        except (ValueError, KeyError, ZeroDivisionError):
            return False
        for n in ns:
            for q in [n.v, n.e] + list(n.ja.values()):
                if not np.all(np.isfinite(q)) or np.max(np.abs(q)) > big:
                    return False
            if np.any((np.abs(n.v) < 1e-280) & (n.v != 0)):
                return False
        n0 = len(case['ins'])
        for name, a, _ in case['ops']:
            if name in ('add', 'sub', 'neg', 'addc', 'cadd', 'subc', 'csub', 'mulc', 'cmul', 'divc'):
                continue
            for i in a:
                if np.any(ns[i].e > 1e-14 * np.abs(ns[i].v)):
                    return False
                # rounding of a computed argument moves it by a noticeable part of a period
                if name in PERIODIC and np.any((ns[i].e > 0) & (np.abs(ns[i].v) > 1e4)):
                    return False
    return True


def run(case):
    """run on the real code at every point, values and totals"""
    p = prog.problem(lambda g: prog.emit(g, case), mode=case.get('jac') or 'auto')
    used = prog.used_inputs(case)
    steps = prog.n_actions(case) + 1
    for pt in case['pts']:
        vals = prog.in_values(case, pt)
        for n, v in vals.items():
            if n in used:
                p.set_val(n, v)
        with np.errstate(all='ignore'):
            p.run_model()
            ns = nodes(case, vals)
            J = p.compute_totals(of=[o[0] for o in case['outs']], wrt=sorted(used)) if case.get('jac') else None
        steps += 3
        for o in case['outs']:
            n = ns[o[1]]
            got = prog.get(p, o[0])
            if got.shape != n.v.shape:
                raise prog.Bad('shape of %s: %s, expected %s' % (o[0], got.shape, n.v.shape))
            tol = SLACK * n.e + L(1e-300)
            if not np.all(np.isfinite(got)) or np.any(np.abs(got - n.v) > tol):
                raise prog.Bad('value of %s at %s: %s, expected %s (+- %s)' % (
                    o[0], pt, got.tolist(), n.v.astype(float).tolist(), tol.astype(float).tolist()))
            if J is None:
                continue
            for w in sorted(used):
                g = np.asarray(J[o[0], w])
                d = n.j.get(w, 0 * n.v).reshape(-1)
                t = case.get('jtol', 1e-9) * n.ja.get(w, 0 * n.v).reshape(-1) + L(case.get('jfloor', 1e-300))
                if g.shape != (d.size, d.size):
                    raise prog.Bad('d %s / d %s: shape %s' % (o[0], w, g.shape))
                if not np.all(np.isfinite(g)) or np.any(np.abs(np.diag(g) - d) > t) or np.any(g[~np.eye(d.size, dtype=bool)] != 0):
                    raise prog.Bad('d %s / d %s at %s: %s, expected diag %s' % (o[0], w, pt, g.tolist(), d.astype(float).tolist()))
    return steps
