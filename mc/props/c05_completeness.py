"""every registered result is in the model, whatever the width of the group;
what is not used is not"""
import itertools

from mc import gen, memory, prog, story
from mc.prog import Bad
from mc.props import c03_order as D

ID = 'C05'


def bounds(tier):
    return ('groups of n = 6..%d outputs where each output uses the input and any subset pattern of its predecessor (all 2^(n-1) '
            'chain patterns for n = 9, 10%s), of two shared bases; all subsets of registered results of 4-node DAGs '
            '(unregistered unused parts must not become components, and must not be evaluated); '
            'under memory placements {ascending, descending, interleaved}'
            % ((10, '') if tier == 'quick' else (12, ', 11, 12')))


def wide(n, mask, far, mem, kind):
    """output i = c*x, or c*x + previous output when bit i is set; `far`: uses output 0 instead"""
    ins = [['x', [2], kind, None]]
    ops = []
    outs = []
    pos = {}
    for i in range(n):
        if i and (mask >> (i - 1)) & 1:
            ops.append(['mulc', [0], {'c': D.COEF[i % 8]}])
            ops.append(['add', [len(ops), pos[0 if far else i - 1]], {}])
        else:
            ops.append(['mulc', [0], {'c': D.COEF[i % 8]}])
        pos[i] = len(ops)
        outs.append(['v%d' % i, pos[i], 'end' if n % 2 else 'now'])
    c = gen.case(ins, ops, outs, [['pm', 0]], None)
    c['wide'] = mem
    return c


def gather(n, mask, mem, how):
    """the same outputs, all read by one child system / one operation with n operands"""
    st = [['in', 'x', 'x', [2]]]
    for i in range(n):
        st.append(['op', 'm%d' % i, 'mulc', ['x'], {'c': D.COEF[i % 8]}])
        if i and (mask >> (i - 1)) & 1:
            st.append(['op', 'v%d' % i, 'add', ['m%d' % i, 'v%d' % (i - 1)], {}])
            st.append(['reg', 'v%d' % i, 'v%d' % i])
        else:
            st[-1][1] = 'v%d' % i
            st.append(['reg', 'v%d' % i, 'v%d' % i])
    names = ['v%d' % i for i in range(n)]
    if how == 'sum':
        st += [['op', 'z', 'sum', names, {}], ['reg', 'z', 'z']]
    else:
        st += [['sub', 'child', how, [['y', [2], [[1. + i, v] for i, v in enumerate(names)]]]] if how == 'exec' else
               ['sub', 'child', how, [['in', v, v, [2]] for v in names] + [['op', 'y', 'sum', names, {}], ['reg', 'y', 'y']]],
               ['in', 'y', 'y', [2]], ['op', 'z', 'neg', ['y'], {}], ['reg', 'z', 'z']]
    return {'story': st, 'pts': [['pm', 0]], 'jac': None, 'wide': mem, 'n': n}


def shuffle(n, mem):
    m = 3 * n + 8
    return {0: list(range(m)), 1: list(reversed(range(m))), 2: [(i * 7) % m if m % 7 else (i * 5) % m for i in range(m)]}[mem]


def cases(tier):
    for n in (9, 10) if tier == 'quick' else (9, 10, 11, 12):
        for mask in range(2**(n - 1)):
            for mem in (0, 1, 2):
                if tier == 'quick' and n == 10 and mask % 3 != mem:
                    continue
                for far in (0, 1):
                    if (tier == 'quick' or n > 10) and far != mask % 2:
                        continue
                    yield wide(n, mask, far, mem, ('in', 'indep')[(mask // 2) % 2])
    for n in (6, 7, 8):
        for mask in range(2**(n - 1)):
            for mem in (0, 1):
                yield wide(n, mask, 0, mem, 'in')
    for n in (9, 10) if tier == 'quick' else (9, 10, 11):
        for mask in range(2**(n - 1)):
            for j, how in enumerate(('exec', 'sum', 'cls')):
                if how == 'cls' and mask % 4:
                    continue
                for mem in (0, 1, 2):
                    if n > 9 and (mask + j) % 3 != mem:
                        continue
                    yield gather(n, mask, mem, how)
    # subsets of registered results; the others must be neither missing nor extra
    for d in D.dags(4, 1):
        for r in range(1, 16):
            reg = [i for i in range(4) if (r >> i) & 1]
            c = D.build(d, 1, 0, 'in', 0, pts=(['pm', 0], ))
            c['outs'] = [['v%d' % i, 1 + i, 'end'] for i in reg]
            # what is not needed divides by zero: building or running it would be noticed
            c['sub'] = r
            if tier == 'quick' and r not in (1, 2, 5, 8, 12, 15, 6):
                continue
            yield c
    # several independent variables, used or not, before and after expressions and child systems
    for k in itertools.product(range(4), repeat=4):
        yield {'story': indeps(k), 'pts': [['u', 0]], 'jac': None, 'dead': ['x']}


def indeps(k):
    st = [['in', 'x', 'x', [2]]]
    last = 'x'
    for i, a in enumerate(k):
        v = 'w%d' % i
        if a == 0:  # unused independent variable
            st.append(['ind', 'p%d' % i, 'p%d' % i, [2]])
        elif a == 1:  # used one
            st += [['ind', 'p%d' % i, 'p%d' % i, [2]], ['op', v, 'add', [last, 'p%d' % i], {}], ['reg', 'r%d' % i, v]]
            last = v
        elif a == 2:  # child system reading the last registered name
            src = 'r%d' % (i - 1) if i and k[i - 1] == 1 else 'z%d' % i
            st += [['sub', 's%d' % i, 'exec', [['o%d' % i, [2], [[2., src]]]]], ['in', v, 'o%d' % i, [2]]]
            last = v
        else:
            st += [['op', v, 'mulc', [last], {'c': 1.5}], ['reg', 'r%d' % i, v]]
            last = v
    if last == 'x' or last not in [s[2] for s in st if s[0] == 'reg']:
        st += [['op', 'fin', 'neg', [last], {}], ['reg', 'fin', 'fin']]
    return st


def path(c):
    from mc import drive
    return story.path(c) if 'story' in c else drive.default_path(c)


def run(case):
    if 'story' in case:
        with memory.ranks(shuffle(case.get('n', 0), case.get('wide', 0))):
            return story.run(case)
    if 'wide' in case:
        with memory.ranks(shuffle(len(case['outs']), case['wide'])):
            return prog.run_value_case(case)
    return unused(case)


def unused(case):
    """the registered subset is right and nothing that it does not need exists"""
    om = prog.om
    n0 = len(case['ins'])
    needed = set()
    st = [o[1] for o in case['outs']]
    while st:
        j = st.pop()
        if j not in needed:
            needed.add(j)
            if j >= n0:
                st += case['ops'][j - n0][1]

    def setup(g):
        nodes = prog.emit(g, case)
        # expressions on inputs of their own, never registered
        for i in range(n0, n0 + len(case['ops'])):
            if i not in needed:
                z = g.declare_input('unused%d' % i, shape=(2, ), val=0.)
                (1. / z) + nodes[i]

    p = prog.problem(setup)
    p.final_setup()
    names = set(v['prom_name'] for _, v in p.model.list_vars(prom_name=True, out_stream=None, return_format='dict').items())
    extra = [n for n in names if n.startswith('unused')]
    if extra:
        raise Bad('unused inputs %s are in the model' % extra)
    for pt in case['pts']:
        vals = prog.in_values(case, pt)
        p.set_val('x0', vals['x0'])
        p.run_model()
        for n, v in prog.ref_outs(case, vals).items():
            prog.check_val(p, n, v)
    return prog.n_actions(case) + 4
