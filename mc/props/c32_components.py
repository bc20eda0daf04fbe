"""stock components used by themselves: they compute what their options say, defaults included"""
import copy
import importlib
import itertools

import numpy as np

from mc import ops as O
from mc import prog

ID = 'C32'
ARITH = 'arithmetic_comps.power_combination_comp'


def bounds(tier):
    return ('every stock component with a meaning of its own, constructed directly with every form of its options (linear and power '
            'combinations of 1-12 names, repeated names, a single name as str; coefficients, powers and constants as number, list, '
            'array, dict, list of terms; optional arguments left out; in-place output shapes given or derived; several axes), '
            'alone / two from the same option objects / one component class with different options side by side / set up twice / run at a '
            'second point, in an OpenMDAO or omtools group, {fwd, rev}, at points with zeros where the derivative exists')


# ------------------------------------------------------------------ options from JSON
def dec(v):
    if isinstance(v, dict):
        if 't' in v:
            return tuple(dec(x) for x in v['t'])
        if 'a' in v:
            return np.array(v['a'], dtype=float)
        if 'd' in v:
            return {k: dec(x) for k, x in v['d']}
        if 'f' in v:  # the values handed over for inputs
            return np.full(tuple(v['f']), 0.75)
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def T(*v):
    return {'t': list(v)}


def F(s):
    return {'f': list(s)}


# ------------------------------------------------------------------ meanings
def r_lin(a, p):
    """p: constant, [[operand, coefficient], ...]"""
    t = dec(p['c']) + 0 * a[0]
    for i, c in p['terms']:
        t = t + c * a[i]
    return t


def r_pow(a, p):
    t = dec(p['c']) + 0 * a[0]
    for i, e in p['terms']:
        t = t * O.r_pow([a[i]], {'c': e})
    return t


def r_linpow(a, p):
    t = dec(p['c']) + 0 * a[0]
    for c, pw in p['terms']:
        m = c + 0 * a[0]
        for i, e in pw:
            m = m * O.r_pow([a[i]], {'c': e})
        t = t + m
    return t


REF = {'lin': r_lin, 'powc': r_pow, 'linpow': r_linpow}


def ref(kind, a, p):
    if kind in REF:
        return REF[kind](a, p)
    return O.ref_op(kind, a, {k: dec(v) for k, v in p.items()})


def ref_vals(case, vals):
    return np.asarray(ref(case['ref'][0], [np.asarray(vals[n]).reshape(tuple(s)) for n, s in case['ins']], case['ref'][1]))


def ref_jac(case, vals, wrt):
    h = 1e-40
    base = np.asarray(vals[wrt])
    cols = []
    for k in range(base.size):
        d = {n: np.asarray(v, dtype=complex) for n, v in vals.items()}
        x = base.astype(complex).reshape(-1).copy()
        x[k] += 1j * h
        d[wrt] = x.reshape(base.shape)
        cols.append(np.imag(ref_vals(case, d)).reshape(-1) / h)
    return np.array(cols).T.reshape((-1, base.size))


# ------------------------------------------------------------------ cases
SH = ([1], [3], [2, 2])


def names(pat):
    """operand numbers -> names in use, in order of first use"""
    return ['abcdhijklmnopq'[i] for i in sorted(set(pat))]


def linear(tier):
    pats = [(0, ), (0, 1), (1, 0), (0, 1, 2), (2, 0, 1), (0, 0), (0, 1, 0), (1, 0, 0), (0, 1, 2, 3), (0, 1, 0, 1), (0, 0, 0, 1), tuple(range(7)), tuple(range(12))[::-1], tuple(range(9)) + (0, 4)]
    co = [2., -1.5, 0.25, -3., 1.] * 3
    for pat, sh, cst, form in itertools.product(pats, SH, ('none', 'num', 'int', 'arr'), ('num', 'list', 'array', 'dict', 'none', 'int')):
        if form == 'dict' and len(set(pat)) < len(pat) or cst == 'int' and form != 'list':
            continue
        k = len(pat)
        o = {'out_name': 'f', 'shape': T(*sh)}
        c = {'none': 0., 'num': 1.5, 'int': 2, 'arr': {'a': (np.arange(np.prod(sh)).reshape(sh) - 0.5).tolist()}}[cst]
        if cst != 'none':
            o['constant'] = c
        cs = {'num': [-2.5] * k, 'list': co[:k], 'array': co[:k], 'dict': co[:k], 'none': [1.] * k, 'int': [3] * k}[form]
        if form == 'dict':
            o['coeffs_dict'] = {'d': [['abcdhijklmnopq'[i], x] for i, x in zip(pat, cs)]}
        else:
            o['in_names'] = 'a' if pat == (0, ) and form == 'num' else ['abcdhijklmnopq'[i] for i in pat]
            if form != 'none':
                o['coeffs'] = cs[0] if form in ('num', 'int') else {'a': cs} if form == 'array' else cs
        o['in_vals'] = [F(sh)] * k
        yield ('linearcombination_comp', 'LinearCombinationComp', o, [['abcdhijklmnopq'[i], sh] for i in sorted(set(pat))],
               ['lin', {'c': c, 'terms': [[sorted(set(pat)).index(i), x] for i, x in zip(pat, cs)]}], ['pm', 'zero'])


def powers(tier):
    pats = [(0, ), (0, 1), (1, 0), (0, 1, 2), (2, 0, 1), (0, 0), (0, 1, 0), (0, 1, 2, 3), (0, 1, 1, 0), tuple(range(7)), tuple(range(12))[::-1], tuple(range(9)) + (0, 4)]
    sets = [[2, 3, 1, 2], [1, -1, 2, -2], [0, 1, 2, 0], [0.5, -1.5, 2., 1.], [3., 0., 1., 2.], [-2, -1, 0, 1]]
    sets = [(p * 3)[:11] + [1] for p in sets]
    for pat, sh, cf, (pi, ps), form in itertools.product(pats, SH, ('none', 'num', 'int', 'arr'), enumerate(sets), ('list', 'dict', 'array', 'num')):
        if form == 'dict' and len(set(pat)) < len(pat) or cf == 'int' and form != 'list' or form == 'num' and pi > 4:
            continue
        k = len(pat)
        o = {'out_name': 'f', 'shape': T(*sh)}
        c = {'none': 1., 'num': -1.5, 'int': 2, 'arr': {'a': (np.arange(np.prod(sh)).reshape(sh) - 0.5).tolist()}}[cf]
        if cf != 'none':
            o['coeff'] = c
        es = [ps[0]] * k if form == 'num' else ps[:k]
        if form == 'dict':
            o['powers_dict'] = {'d': [['abcdhijklmnopq'[i], x] for i, x in zip(pat, es)]}
        else:
            o['in_names'] = 'a' if pat == (0, ) and form == 'num' else ['abcdhijklmnopq'[i] for i in pat]
            o['powers'] = es[0] if form == 'num' else {'a': es} if form == 'array' else es
        o['in_vals'] = [F(sh)] * k
        tot = {}
        for i, e in zip(pat, es):
            tot[i] = tot.get(i, 0) + e
        doms = ['pos'] if any(e != int(e) for e in es) else ['pm']
        if all(e in (0, 1, 2, 3) for e in es):
            doms.append('hz')
        yield (ARITH, 'PowerCombinationComp', o, [['abcdhijklmnopq'[i], sh] for i in sorted(set(pat))],
               ['powc', {'c': c, 'terms': [[sorted(set(pat)).index(i), e] for i, e in tot.items()]}], doms)


def linpow(tier):
    terms = [
        [[2., [[0, 1]]]],
        [[2., [[0, 2]]], [-1., [[1, 1]]]],
        [[1., [[0, 1], [1, 1]]], [0.5, [[0, 2]]]],
        [[1.5, [[0, 2], [1, -1]]], [-2., [[2, 3]]]],
        [[1., [[1, 1]]], [3., [[0, 1], [2, 2]]], [-1., [[2, 1], [1, 2]]]],
        [[-1., [[0, 1]]], [2., [[0, 2]]], [0.5, [[0, 3]]]],
        [[1., []], [2., [[0, 1]]]],
        [[1., [[0, 0.5], [1, -1.5]]], [2., [[1, 1]]]],
        [[1., [[0, 0], [1, 1]]], [2., [[0, 1], [1, 0]]]],
        [[1., [[0, 1], [1, 1], [2, 1], [3, 1]]], [2., [[3, 2]]]],
        [[1. + 0.5 * t, [[t, 1 + t % 3], [(t + 1) % 9, 1]]] for t in range(9)],
        [[2., [[t, 1] for t in range(8)]], [-1., [[t, 2] for t in range(0, 12, 2)]], [0.5, [[11, 1]]]],
        [[(-1.)**t, [[0, t]]] for t in range(8)],
    ]
    for ts, sh, cst, form in itertools.product(terms, SH, ('none', 'num', 'arr'), ('terms', 'array', 'list')):
        used = sorted(set(i for c, pw in ts for i, e in pw))
        nm = ['abcdhijklmnopq'[i] for i in used]
        c = {'none': 0., 'num': 1.5, 'arr': {'a': (np.arange(np.prod(sh)).reshape(sh) - 0.5).tolist()}}[cst]
        o = {'out_name': 'f', 'shape': T(*sh)}
        if cst != 'none':
            o['constant'] = c
        if form == 'terms':
            o['terms_list'] = [T(k, {'d': [['abcdhijklmnopq'[i], e] for i, e in pw]}) for k, pw in ts]
        else:
            M = np.zeros((len(ts), len(used)))
            for t, (k, pw) in enumerate(ts):
                for i, e in pw:
                    M[t, used.index(i)] = e
            o['in_names'] = nm
            o['powers'] = {'a': M.tolist()}
            o['coeffs'] = [k for k, _ in ts] if form == 'list' else {'a': [k for k, _ in ts]}
        es = [e for _, pw in ts for _, e in pw]
        doms = ['pos'] if any(e != int(e) for e in es) else ['pm']
        if all(e in (0, 1, 2, 3) for e in es):
            doms.append('hz')
        yield ('linearpowercombination', 'LinearPowerCombinationComp', o, [[n, sh] for n in nm],
               ['linpow', {'c': c, 'terms': [[k, [[used.index(i), e] for i, e in pw]] for k, pw in ts]}], doms)


UN = ['sin', 'cos', 'tan', 'exp', 'log', 'log10', 'sinh', 'cosh', 'tanh', 'sec', 'cosec', 'cotan', 'sech', 'cosech', 'cotanh', 'arcsin',
      'arccos', 'arctan']


def arrays(tier):
    one = lambda s: [['a', s]]
    two = lambda s, t: [['a', s], ['b', t]]
    for n in UN:
        for s in ([1], [4], [2, 3], [2, 1, 2]):
            yield (n + 'comp', n.capitalize() + 'Comp', {'in_name': 'a', 'out_name': 'f', 'shape': T(*s), 'val': F(s)}, one(s), [n, {}], ['u'])
    for m in (1, 2, 3, 4, 7, 12):
        for s in ([3], [2, 2]):
            for e, K in (('max', 'Max'), ('min', 'Min')):
                for rho in (5., 20.):
                    yield ('elementwise_%s_comp' % e, 'Elementwise%sComp' % K,
                           {'in_names': list('abcdhijklmnopq'[:m]), 'out_name': 'f', 'shape': T(*s), 'rho': rho, 'vals': [F(s)] * m},
                           [[x, s] for x in 'abcdhijklmnopq'[:m]], ['ext1' if m == 1 else e, {'rho': rho}], ['pm', 'tie'])
    for s, axs in (([3], [None]), ([2, 3], [None, 0, 1, -1, -2]), ([2, 3, 2], [None, 0, 1, 2, -1, -2, -3])):
        for ax in axs:
            for rho in (None, 7.):
                r = {} if rho is None else {'rho': rho}
                for e, K, lf in (('max', 'Max', None), ('min', 'Min', True), ('max', 'Max', False)):
                    if ax is None:
                        o = {'in_name': 'a', 'out_name': 'f', 'shape': T(*s), 'val': F(s)}
                        if lf is not None:
                            o['lower_flag'] = lf
                        yield ('scalar_extremum_comp', 'ScalarExtremumComp', dict(o, **r), one(s), [e, {'rho': rho}], ['pm', 'tie'])
                    elif lf is not False:
                        yield ('axiswise_%s_comp' % e, 'Axis%sComp' % K,
                               dict({'in_name': 'a', 'out_name': 'f', 'shape': T(*s), 'axis': ax, 'val': F(s)}, **r), one(s),
                               [e, {'rho': rho, 'axis': ax}], ['pm', 'tie'])
    for op, N in (('sum', 'Sum'), ('average', 'Average')):
        for s, axs in (([3], [None, [0]]), ([2, 3], [None, [0], [1], [0, 1]]), ([2, 3, 2], [None, [0], [1], [2], [0, 2], [1, 2], [0, 1]])):
            for ax in axs:
                if ax is not None and len(ax) == len(s):
                    continue
                r = {} if ax is None else {'axes': T(*ax)}
                for give in (0, 1):
                    os_ = {'out_shape': T(*[d for i, d in enumerate(s) if i not in ax])} if give and ax is not None else {}
                    if give and ax is None:
                        continue
                    yield ('single_tensor_%s_comp' % op, 'SingleTensor%sComp' % N,
                           dict({'in_name': 'a', 'out_name': 'f', 'shape': T(*s), 'val': F(s)}, **r, **os_), one(s), [op, r], ['pm'])
                    for m in (1, 2, 3, 8):
                        if m == 1 and ax is None:
                            continue
                        yield ('multiple_tensor_%s_comp' % op, 'MultipleTensor%sComp' % N,
                               dict({'in_names': list('abcdhijklmnopq'[:m]), 'out_name': 'f', 'shape': T(*s), 'vals': [F(s)] * m}, **r, **os_),
                               [[x, s] for x in 'abcdhijklmnopq'[:m]], [op, r], ['pm'])
    for p in (None, 2, 4, 6):
        r = {} if p is None else {'pnorm_type': p}
        for s, axs in (([3], [None]), ([2, 3], [None, [0], [1]]), ([2, 3, 2], [None, [0], [1], [2], [0, 2], [1, 2], [0, 1]])):
            for ax in axs:
                if ax is None:
                    yield ('vectorized_pnorm_comp', 'VectorizedPnormComp', dict({'in_name': 'a', 'out_name': 'f', 'shape': T(*s), 'val': F(s)}, **r),
                           one(s), ['pnorm', {'p': p or 2}], ['pm'])
                else:
                    for give in (0, 1):
                        os_ = {'out_shape': T(*[d for i, d in enumerate(s) if i not in ax])} if give else {}
                        yield ('vectorized_axiswise_pnorm_comp', 'VectorizedAxisWisePnormComp',
                               dict({'in_name': 'a', 'out_name': 'f', 'shape': T(*s), 'axis': T(*ax), 'val': F(s)}, **r, **os_), one(s),
                               ['pnorm', {'p': p or 2, 'axis': T(*ax)}], ['pm'])
    for x in 'xyz':
        for s in ([1], [2], [2, 2]):
            yield ('rotation_matrix_comp', 'RotationMatrixComp', {'in_name': 'a', 'out_name': 'f', 'shape': T(*s), 'axis': x, 'val': F(s)}, one(s),
                   ['rotmat', {'axis': x}], ['pm'])
    for s, ax in (([3], 0), ([3, 2], 0), ([2, 3], 1), ([3, 3], 0), ([3, 3], 1), ([2, 3, 2], 1), ([2, 2, 3], 2)):
        b = {'out_name': 'f', 'shape': T(*s), 'axis': ax}
        yield ('cross_product_comp', 'CrossProductComp', dict(b, in1_name='a', in2_name='b', in1_val=F(s), in2_val=F(s)), two(s, s),
               ['cross', {'axis': ax}], ['pm'])
        if len(s) > 1:
            for give in (0, 1):
                os_ = {'out_shape': T(*[d for i, d in enumerate(s) if i != ax])} if give else {}
                yield ('tensor_dot_product_comp', 'TensorDotProductComp',
                       dict({'in_names': ['a', 'b'], 'out_name': 'f', 'in_shape': T(*s), 'axis': ax, 'in_vals': [F(s), F(s)]}, **os_), two(s, s),
                       ['dot', {'axis': ax}], ['pm'])
    for n in (1, 2, 4):
        yield ('vector_inner_product_comp', 'VectorInnerProductComp', {'in_names': ['a', 'b'], 'out_name': 'f', 'in_shape': n,
                                                                       'in_vals': [F([n]), F([n])]}, two([n], [n]), ['inner', {}], ['pm'])
        for m in (1, 3):
            yield ('vector_outer_product_comp', 'VectorOuterProductComp', {'in_names': ['a', 'b'], 'out_name': 'f', 'in_shapes': [n, m],
                                                                           'in_vals': [F([n]), F([m])]}, two([n], [m]), ['outer', {}], ['pm'])
    for s, t in (([2, 2], [3]), ([3], [2, 2]), ([2, 1], [1, 3]), ([2, 3], [2, 2])):
        yield ('tensor_outer_product_comp', 'TensorOuterProductComp', {'in_names': ['a', 'b'], 'out_name': 'f', 'in_shapes': [T(*s), T(*t)],
                                                                       'in_vals': [F(s), F(t)]}, two(s, t), ['outer', {}], ['pm'])
    for s, t, ax in (([2, 3], [3, 2], [[1], [0]]), ([2, 3], [2, 4], [[0], [0]]), ([2, 3, 2], [3, 2], [[1, 2], [0, 1]]),
                     ([2, 3, 2], [2, 3], [[0, 1], [0, 1]]), ([2, 3], [3], [[1], [0]]), ([2, 3, 2], [2, 3, 2], [[0, 2], [0, 2]])):
        out = [d for i, d in enumerate(s) if i not in ax[0]] + [d for i, d in enumerate(t) if i not in ax[1]]
        for give in (0, 1):
            yield ('tensor_inner_product_comp', 'TensorInnerProductComp',
                   dict({'in_names': ['a', 'b'], 'out_name': 'f', 'in_shapes': [T(*s), T(*t)], 'axes': T(ax[0], ax[1]),
                         'in_vals': [F(s), F(t)]}, **({'out_shape': T(*out)} if give else {})), two(s, t), ['inner', {'axes': [ax[0], ax[1]]}], ['pm'])
    for n, k, m in ((1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 2, 3), (2, 2, 1)):
        for give in (0, 1):
            yield ('matmat_comp', 'MatMatComp', dict({'in_names': ['a', 'b'], 'out_name': 'f', 'in_shapes': [T(n, k), T(k, m)],
                                                      'in_vals': [F([n, k]), F([k, m])]}, **({'out_shape': T(n, m)} if give else {})),
                   two([n, k], [k, m]), ['matmat', {}], ['pm'])
        yield ('matvec_comp', 'MatVecComp', {'in_names': ['a', 'b'], 'out_name': 'f', 'in_shapes': [T(n, k), T(k)],
                                             'in_vals': [F([n, k]), F([k])]}, two([n, k], [k]), ['matvec', {}], ['pm'])
    for s in ([2, 3], [3, 1], [2, 3, 2]):
        for give in (0, 1):
            yield ('transpose_comp', 'TransposeComp', dict({'in_name': 'a', 'out_name': 'f', 'in_shape': T(*s), 'val': F(s)},
                                                           **({'out_shape': T(*s[::-1])} if give else {})), one(s), ['transpose', {}], ['pm'])
            L = 'ijkl'[:len(s)]
            for q in itertools.permutations(range(len(s))):
                op = L + '->' + ''.join(L[i] for i in q)
                for loc in (0, 1):
                    o = {'in_name': 'a', 'out_name': 'f', 'in_shape': T(*s), 'operation': op, 'val': F(s)}
                    if give:
                        o['out_shape'] = T(*[s[i] for i in q])
                    if loc:
                        o['new_axes_locations'] = list(q)
                    yield ('reorder_axes_comp', 'ReorderAxesComp', o, one(s), ['reorder_axes', {'op': op}], ['pm'])
    for s, t in (([6], [2, 3]), ([2, 3], [3, 2]), ([2, 3], [6]), ([1], [1, 1]), ([2, 3, 2], [4, 3])):
        yield ('reshape_comp', 'ReshapeComp', {'in_name': 'a', 'out_name': 'f', 'shape': T(*s), 'new_shape': T(*t), 'val': F(s)}, one(s),
               ['reshape', {'shape': T(*t)}], ['pm'])
    for t in ([3], [2, 3], [2, 1, 2]):
        for v in (0, 1):
            yield ('scalar_expansion_comp', 'ScalarExpansionComp', dict({'in_name': 'a', 'out_name': 'f', 'shape': T(*t)},
                                                                        **({'val': F([1])} if v else {})), one([1]),
                   ['expand', {'shape': T(*t)}], ['pm'])
    for t, ind, i in (([2, 3], [0], 'b->ab'), ([2, 3], [1], 'a->ab'), ([2, 3, 2], [0], 'bc->abc'), ([2, 3, 2], [1], 'ac->abc'),
                      ([2, 3, 2], [0, 2], 'b->abc'), ([2, 3, 2], [1, 2], 'a->abc')):
        s = [d for k, d in enumerate(t) if k not in ind]
        yield ('array_expansion_comp', 'ArrayExpansionComp', {'in_name': 'a', 'out_name': 'f', 'shape': T(*t), 'expand_indices': ind,
                                                              'val': F(s)}, one(s), ['expand', {'shape': T(*t), 'indices': i, 'force': 1}], ['pm'])
    for mod, cl in (('einsum_comp_dense_derivs', 'EinsumComp'), ('einsum_comp_sparse_derivs', 'SparsePartialEinsumComp')):
        for op, ss, out in (('ij,jk->ik', [[2, 3], [3, 2]], [2, 2]), ('ij,ij->', [[2, 3], [2, 3]], [1]), ('i,j->ij', [[2], [3]], [2, 3]),
                            ('i,i->i', [[3], [3]], [3]), ('ij->ji', [[2, 3]], [3, 2]), ('i->', [[3]], [1]), ('ijk->ik', [[2, 3, 2]], [2, 2]),
                            ('i,j,k->ijk', [[2], [3], [2]], [2, 3, 2]), ('ij,jk,kl->il', [[2, 2], [2, 3], [3, 1]], [2, 1])):
            for give, bare in itertools.product((0, 1), (0, 1)):
                if bare and len(ss) > 1:
                    continue
                o = {'in_names': 'a' if bare else list('abcdhijklmnopq'[:len(ss)]), 'out_name': 'f', 'in_shapes': T(*ss[0]) if bare else [T(*s) for s in ss],
                     'operation': op, 'in_vals': [F(s) for s in ss]}
                if give:
                    o['out_shape'] = T(*out)
                yield (mod, cl, o, [['abcdhijklmnopq'[i], s] for i, s in enumerate(ss)], ['einsum', {'s': op}], ['pm'])
    # the output assembled from pieces
    for pcs, s in (([[[2], [0, 1]], [[2], [2, 3]]], [4]), ([[[1], [3]], [[3], [2, 0, 1]]], [4]), ([[[2, 1], [0, 3]], [[2, 2], [1, 2, 4, 5]]], [2, 3]),
                   ([[[1], [2]]], [3])):
        d = {'d': [['abcdhijklmnopq'[i], T(T(*sh), {'i': ind})] for i, (sh, ind) in enumerate(pcs)]}
        yield ('indexed_pass_through_comp', 'IndexedPassThroughComp', {'out_name': 'f', 'out_shape': T(*s), 'expr_indices': d,
                                                                       'vals': {'d': [['abcdhijklmnopq'[i], F(sh)] for i, (sh, _) in enumerate(pcs)]}},
               [['abcdhijklmnopq'[i], sh] for i, (sh, _) in enumerate(pcs)], ['pieces', {'shape': T(*s), 'ind': [ind for _, ind in pcs]}], ['pm'])


def r_pieces(a, p):
    """the entries that are not assigned keep the output's initial value of one"""
    out = np.ones(int(np.prod(p['shape']['t'])), dtype=a[0].dtype)
    for x, ind in zip(a, p['ind']):
        out[ind] = x.reshape(-1)
    return out.reshape(tuple(p['shape']['t']))


REF['pieces'] = r_pieces
REF['ext1'] = lambda a, p: a[0]
_dec0 = dec


def dec(v):  # noqa: F811
    if isinstance(v, dict) and 'i' in v:
        return np.array(v['i'], dtype=int)
    return _dec0(v) if not isinstance(v, (dict, list)) else _walk(v)


def _walk(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if 't' in v:
        return tuple(dec(x) for x in v['t'])
    if 'd' in v:
        return {k: dec(x) for k, x in v['d']}
    return _dec0(v)


HOW = ('alone', 'shared', 'again', 'other')


def cases(tier):
    n = 0
    prev = {}
    conf = list(itertools.product(HOW, ('om', 'ot'), ('fwd', 'rev')))
    for fam in (linear, powers, linpow, arrays):
        for mod, cl, o, ins, rf, doms in fam(tier):
            c = {'comp': [mod, cl], 'opt': o, 'ins': ins, 'ref': rf, 'doms': doms}
            small = fam is arrays
            for how, host, jac in (conf if small or tier == 'thorough' else [conf[n % 16], conf[(n * 3 + 5) % 16]]):
                if how == 'other' and cl not in prev:
                    continue
                d = dict(c, how=how, host=host, jac=jac)
                if how == 'other':
                    d['other'] = prev[cl]
                yield d
            n += 1
            prev[cl] = {'opt': o, 'ins': ins, 'ref': rf, 'doms': doms}


# ------------------------------------------------------------------ run
def run(case):
    case = copy.deepcopy(case)
    mod, cl = case['comp']
    C = getattr(importlib.import_module('omtools.comps.' + mod), cl)
    om, ot = prog.om, prog.ot
    opts = {k: dec(v) for k, v in case['opt'].items()}
    parts = [('p', case, opts)]
    if case['how'] == 'shared':
        parts.append(('q', case, opts))
    if case['how'] == 'other':
        o = case['other']
        parts.append(('q', dict(o, ref=o['ref']), {k: dec(v) for k, v in o['opt'].items()}))

    def fill(g):
        for nm, c, o in parts:
            g.add_subsystem(nm, C(**o), promotes=[])

    if case['host'] == 'om':
        g = om.Group()
        fill(g)
    else:
        class G(ot.Group):
            def setup(self):
                fill(self)
        g = G()
    p = om.Problem(g)
    acts = 0

    def build():
        p.setup(mode=case['jac'], force_alloc_complex=False)

    prog.quiet(build)
    if case['how'] == 'again':
        # the same component objects (OpenMDAO group), new ones (omtools group)
        prog.quiet(p.run_model)
        prog.quiet(build)
    for nm, c, o in parts:
        if c['ref'][1].get('rho', 0) is None:
            # left out: what the component declares
            c = c['ref'][1]
            c['rho'] = C(**o).options['rho']
    for shift, dom in enumerate(case['doms'] + case['doms'][:1]):
        vals = {}
        for nm, c, o in parts:
            for i, (x, s) in enumerate(c['ins']):
                v = prog.point(i, tuple(s), dom if c is case else c['doms'][0], shift)
                vals[nm, x] = v
                p.set_val('%s.%s' % (nm, x), v)
        if any(not np.all(np.isfinite(ref_vals(c, {x: vals[nm, x] for x, _ in c['ins']}))) for nm, c, o in parts):
            continue
        prog.quiet(p.run_model)
        acts += 1
        of = ['%s.f' % nm for nm, c, o in parts]
        wrt = ['%s.%s' % (nm, x) for nm, c, o in parts for x, _ in c['ins']]
        for nm, c, o in parts:
            mine = {x: vals[nm, x] for x, _ in c['ins']}
            prog.check_val(p, '%s.f' % nm, ref_vals(c, mine))
        part = prog.quiet(totals, p, of, wrt)
        for nm, c, o in parts:
            mine = {x: vals[nm, x] for x, _ in c['ins']}
            for x, _ in c['ins']:
                acts += 1
                prog.check_jac(part, {('%s.f' % nm, '%s.%s' % (nm, x)): ref_jac(c, mine, x)})
    return acts


def totals(p, of, wrt):
    J = p.compute_totals(of=of, wrt=wrt)
    return {k: np.asarray(v) for k, v in J.items()}


def path(case):
    return [['component'] + case['comp'], ['options', case['opt']], ['host', case['host'], case['how'], case.get('other')]] + \
        [['run', d] for d in case['doms']] + [['totals', case['jac']]]
