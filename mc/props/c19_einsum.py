"""einsum: dense and sparse partials, old and new notation, against the definition"""
import itertools

from mc import gen, prog

ID = 'C19'


def bounds(tier):
    return ('every subscript string with 1-2 operands of rank 1-3 over 3 letters and '
            'every output selection of letters (all orders), fixed families of 3- to 5-operand strings, of letters repeated '
            'inside an operand and of rank 4, dims from {2,3,1}; three spellings of each string; '
            'dense/sparse, old/new notation, distinct and repeated operands, registered before / after use, {fwd, rev}; also with a length of its own (up to 7) for every letter; one expression as '
            'several operands (every partition of them): every way in which the places of 2 x 2, 3 x 2, 2 x 3, 3 x 1 and 4 x 1 subscripts '
            '(thorough: 4 x 2) may carry the same or different of four letters, with up to eight outputs each')


DIM = {'i': 2, 'j': 3, 'k': 2, 'l': 2}
DIM2 = {'i': 1, 'j': 2, 'k': 3, 'l': 2}


def outsel(letters, maxr=3):
    for r in range(0, min(maxr, len(letters)) + 1):
        for o in itertools.permutations(letters, r):
            yield ''.join(o)


def subs(tier):
    t1 = ['i', 'ij', 'ijk', 'ji', 'kij']
    for a in t1:
        for o in outsel(sorted(set(a))):
            yield [a], o
    ops = ['i', 'j', 'ij', 'ji', 'jk', 'ijk', 'kji']
    for a in ('i', 'ij', 'ijk', 'ji', 'jk'):
        for b in ops:
            L = sorted(set(a + b))
            for o in outsel(L):
                if tier == 'quick' and len(o) == 3 and o != ''.join(sorted(o)) and len(a + b) > 3:
                    continue
                yield [a, b], o
    for t in (['i', 'j', 'k'], ['i', 'i', 'i'], ['ij', 'j', 'jk'], ['ij', 'jk', 'ki'], ['i', 'ij', 'j'], ['ijk', 'k', 'j'],
              ['j', 'ij', 'ij']):
        for o in outsel(sorted(set(''.join(t)))):
            yield t, o
    # one letter twice in one operand (diagonals, traces)
    for t in (['ii'], ['iij'], ['iji'], ['iii'], ['ii', 'i'], ['ii', 'ij'], ['j', 'jj'], ['ii', 'jj'], ['iij', 'ji']):
        for o in outsel(sorted(set(''.join(t)))):
            yield t, o
    for t in (['i', 'j', 'k', 'l'], ['i', 'i', 'i', 'i'], ['ij', 'jk', 'kl', 'li'], ['ij', 'i', 'j', 'ij'], ['ijkl', 'l'],
              ['ij', 'kl'], ['i', 'ij', 'jk', 'k'], ['i', 'i', 'j', 'j', 'k'], ['ijkl']):
        L = sorted(set(''.join(t)))
        for o in outsel(L, 4):
            if tier == 'quick' and len(o) > 2 and o not in (''.join(L), ''.join(L[::-1]), ''.join(L[1:] + L[:1])):
                continue
            yield t, o


def spell(s, n):
    # the same string with other letters, and with spaces
    if n == 1:
        return s.translate(str.maketrans('ijkl', 'zAqB'))
    return s.replace(',', ' , ').replace('->', ' -> ')


def new_notation(t, o):
    # axis names may be any hashable: use words and numbers
    w = {'i': 'rows', 'j': 7, 'k': 'k', 'l': (1, 2)}
    op = [[w[c] for c in x] for x in t]
    if o:
        op.append([w[c] for c in o])
    return op


def cases(tier):
    for t, o in subs(tier):
        for D in (DIM, DIM2) if tier == 'thorough' else (DIM, ):
            shapes = [tuple(D[c] for c in x) for x in t]
            # which operands may be one and the same variable
            shares = [list(range(len(t)))]
            if len(t) > 1:
                for i, j in itertools.combinations(range(len(t)), 2):
                    if shapes[i] == shapes[j]:
                        sh = list(range(len(t)))
                        sh[j] = i
                        shares.append(sh)
                if len(t) == 3 and shapes[0] == shapes[1] == shapes[2]:
                    shares.append([0, 0, 0])
            for share in shares:
                for fmt in ('dense', 'sparse'):
                    for api in ('old', 'new'):
                        for cons, jac, kind in (('reg', 'fwd', 'in'), ('use', 'rev', 'std')):
                            if tier == 'quick' and api == 'new' and cons == 'use':
                                continue
                            p = {'f': fmt}
                            if api == 'old':
                                p['s'] = ','.join(t) + '->' + o
                                op = 'einsum'
                            else:
                                p['o'] = new_notation(t, o)
                                op = 'einsum_new'
                            yield gen.op_case(op, shapes, p, [kind] * len(t), cons, jac=jac, share=share)
                            if api == 'old' and cons == 'reg':
                                for n in ((1, 2) if tier == 'thorough' else (1, ) if fmt == 'dense' else (2, )):
                                    yield gen.op_case(op, shapes, dict(p, s=spell(p['s'], n)), [kind] * len(t), cons, jac=jac,
                                                      share=share)


_plain_cases = cases


def cases(tier):
    yield from gen.late(_plain_cases(tier))
    yield from gen.turns(large(tier))
    yield from powers(tier)


def words(n, most=4):
    # every way in which n places may carry the same or different letters
    def grow(s, k):
        if len(s) == n:
            yield s
            return
        for i in range(min(k + 1, most)):
            yield from grow(s + 'ijkl'[i], max(k, i + 1))

    return grow('', 0)


def powers(tier):
    # one expression as several operands: all letters have the same length
    j = 0
    for n, m in ((3, 2), (4, 1), (2, 3), (2, 2), (3, 1)) + (((4, 2), ) if tier == 'thorough' else ()):
        for w in words(n * m, 4):
            t = [w[i:i + m] for i in range(0, n * m, m)]
            L = ''.join(sorted(set(w)))
            if (n, m) == (4, 2) and len(L) < 4:
                continue
            for o in dict.fromkeys((L, L[::-1], L[1:], L[:-1], L[0], L[-1], '', L[1:] + L[0])):
                for sh in itertools.product(range(n), repeat=n):
                    # canonical partitions of the operands that share
                    if any(sh[i] != i and (sh[i] > i or sh[sh[i]] != sh[i]) for i in range(n)) or list(sh) == list(range(n)):
                        continue
                    j += 1
                    if tier == 'quick' and any(sh) and j % 5 or (n, m) == (4, 2) and any(sh) and j % 7:
                        continue
                    f = 'sparse' if tier == 'quick' and j % 4 or j % 2 else 'dense'
                    shapes = [(2, ) * m] * n
                    kind = ('in', 'std')[j // 2 % 2]
                    if j % 3:
                        yield gen.op_case('einsum', shapes, {'f': f, 's': ','.join(t) + '->' + o}, [kind] * n, ('reg', 'use')[j // 4 % 2],
                                          jac=('fwd', 'rev')[j % 2], share=list(sh))
                    else:
                        yield gen.op_case('einsum_new', shapes, {'f': f, 'o': new_notation(t, o)}, [kind] * n, ('reg', 'use')[j // 4 % 2],
                                          jac=('fwd', 'rev')[j % 2], share=list(sh))


def large(tier):
    # every letter with a length of its own
    D = ({'i': 3, 'j': 2, 'k': 4, 'l': 5}, {'i': 4, 'j': 1, 'k': 2, 'l': 3}, {'i': 2, 'j': 7, 'k': 3, 'l': 1})
    for n, (t, o) in enumerate(subs(tier)):
        for k, d in enumerate(D):
            if (n + k) % 3 == 2 and tier == 'quick':
                continue
            f = ('dense', 'sparse')[(n // 2 + k) % 2]
            shapes = [tuple(d[c] for c in x) for x in t]
            if (n + k) % 4:
                yield 'einsum', shapes, {'f': f, 's': ','.join(t) + '->' + o}
            else:
                yield 'einsum_new', shapes, {'f': f, 'o': new_notation(t, o)}


run = prog.run_value_case
