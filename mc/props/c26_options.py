"""option dictionaries: every sequence of operations against a reference state machine"""
import itertools

from mc.prog import Bad

ID = 'C26'
BATCH = 64

#: declarations by name: arguments of declare, and which values they admit; 'int' is a type, [..] a collection
DECL = {
    'any': {},
    'def': {'default': 1},
    'int': {'types': 'int'},
    'intd': {'types': 'int', 'default': 2},
    'tup': {'types': ['t', 'int', 'str']},
    'set': {'types': ['s', 'int']},
    'lst': {'types': ['l', 'int', 'float']},
    'nonet': {'types': 'str', 'allow_none': True, 'default': None},
    'vals': {'values': ['l', 1, 'a']},
    'valsd': {'values': ['t', 1, 2], 'default': 2},
    'nonev': {'values': ['s', 1, 2], 'allow_none': True},
    'lim': {'lower': 0, 'upper': 2, 'types': ['t', 'int', 'float']},
    'limd': {'lower': 1, 'default': 2},
    'low0': {'lower': 0, 'default': 0},
    'up0': {'upper': 0},
    'chk': {'check_valid': True},
    'chkd': {'check_valid': True, 'types': 'int', 'default': 1},
    'desc': {'desc': 'what it is', 'default': 'a'},
    # not admissible themselves
    'baddef': {'types': 'int', 'default': 'a'},
    'badval': {'values': ['l', 1], 'default': 2},
    'badnone': {'types': 'int', 'default': None},
    'badlim': {'upper': 1, 'default': 2},
    'badchk': {'check_valid': True, 'default': 3},
    'both': {'types': 'int', 'values': ['l', 1]},
    'badv': {'values': 'ab'},
    'badt': {'types': 5},
}
BAD = {'baddef', 'badval', 'badnone', 'badlim', 'badchk', 'both', 'badv', 'badt'}
VALS = [1, 2, 'a', None, 7, -1, 1.5, True, 3]
TY = {'int': int, 'str': str, 'float': float}


def bounds(tier):
    return ('%d kinds of declarations (types, values, limits, own check, none, defaults, inadmissible ones) x values %r; every '
            'sequence of {declare, set, update, undeclare} of length <= %d over two names, read back after every step '
            '(membership, iteration, item, printed table); declarations in a subclass with keyword arguments; read-only '
            'dictionaries' % (len(DECL), VALS, 3 if tier == 'quick' else 4))


def arg(v):
    if isinstance(v, list):
        k = {'t': tuple, 'l': list, 's': set}[v[0]]
        return k(TY.get(x, x) for x in v[1:])
    if v == 'int' or v == 'str':
        return TY[v]
    return v


def check(name, value):
    if value == 3:
        raise ValueError('not 3')


def kwargs(d):
    k = {}
    for n, v in DECL[d].items():
        if n == 'check_valid':
            k[n] = check
        elif n in ('types', 'values'):
            k[n] = arg(v)
        else:
            k[n] = v
    return k


def admits(d, v):
    """None if v is admissible under declaration d, else the acceptable exceptions"""
    D = DECL[d]
    if not (v is None and D.get('allow_none')):
        if 'values' in D:
            if v not in arg(D['values']):
                return (ValueError, )
        elif 'types' in D:
            t = arg(D['types'])
            if not isinstance(v, tuple(t) if not isinstance(t, type) else t):
                return (TypeError, )
        for lim, worse in (('upper', lambda a, b: a > b), ('lower', lambda a, b: a < b)):
            if lim in D:
                try:
                    if worse(v, D[lim]):
                        return (ValueError, )
                except TypeError:
                    return (TypeError, )
    if D.get('check_valid') and v == 3:
        return (ValueError, )
    return None


class Ref:
    def __init__(self, ro=False):
        self.d = {}
        self.ro = ro

    def set(self, n, v):
        if n not in self.d:
            return (KeyError, )
        if self.ro:
            return (KeyError, )
        e = admits(self.d[n][0], v)
        if e:
            return e
        self.d[n][1:] = [v]

    def do(self, a):
        if a[0] == 'declare':
            if a[2] in BAD:
                return (TypeError, ValueError, RuntimeError)
            D = DECL[a[2]]
            self.d[a[1]] = [a[2]] + ([D['default']] if 'default' in D else [])
        elif a[0] == 'set':
            return self.set(a[1], a[2])
        elif a[0] == 'update':
            for n, v in a[1]:
                e = self.set(n, v)
                if e:
                    return e
        elif a[0] == 'undeclare':
            self.d.pop(a[1], None)


def perform(o, a):
    if a[0] == 'declare':
        o.declare(a[1], **kwargs(a[2]))
    elif a[0] == 'set':
        o[a[1]] = a[2]
    elif a[0] == 'update':
        o.update(dict(map(tuple, a[1])))
    elif a[0] == 'undeclare':
        o.undeclare(a[1])


def same(a, b):
    return type(a) is type(b) and a == b


def compare(o, r, names, unknown=()):
    its = [n for n in o if n not in unknown]
    if sorted(its) != sorted(r.d):
        raise Bad('names %r, expected %r' % (sorted(its), sorted(r.d)))
    for n in names:
        if n in unknown:
            continue
        if (n in o) != (n in r.d):
            raise Bad('%r in options: %r' % (n, n in o))
        try:
            got = ('val', o[n])
        except Exception as e:
            got = ('exc', type(e))
        if n not in r.d:
            exp = ('exc', KeyError)
        elif len(r.d[n]) == 1:
            exp = ('exc', RuntimeError)
        else:
            exp = ('val', r.d[n][1])
        if got[0] != exp[0] or not (same(got[1], exp[1]) if got[0] == 'val' else got[1] is exp[1]):
            raise Bad('options[%r] is %r, expected %r' % (n, got, exp))


def table(o, r):
    s = str(o)
    repr(o)
    for n, d in r.d.items():
        rows = [l.split() for l in s.split('\n') if l.split()[:1] == [n]]
        if not rows:
            raise Bad('option %r missing from the printed table' % n)
        exp = str(d[1]) if len(d) > 1 else '**Required**'
        if rows[0][1] != exp:
            raise Bad('printed value of %r is %r, expected %r' % (n, rows[0][1], exp))


def cases(tier):
    decl = [['declare', n, d] for n in 'ab' for d in DECL]
    sets = [['set', n, v] for n in 'ab' for v in VALS]
    upds = [['update', x] for x in ([['a', 1], ['b', 2]], [['a', 'a'], ['b', 7]], [['b', None], ['a', 1]], [['c', 1]], [['a', 3]], [])]
    und = [['undeclare', n] for n in 'abc']
    alpha = decl + sets + upds + und
    # every sequence that begins with a declaration; 'a' first without loss of generality (names are symmetric)
    n = 0
    for d in DECL:
        if d in BAD:
            continue
        for w in itertools.product(alpha, repeat=2):
            yield {'path': [['declare', 'a', d]] + list(w)}
    for w in itertools.product(alpha, repeat=1):
        yield {'path': list(w)}
    for d in BAD:
        for w in itertools.product(sets, repeat=1):
            yield {'path': [['declare', 'b', 'intd'], ['declare', 'a', d]] + [['set', 'b', w[0][2]]]}
    if tier != 'quick':
        sub = [a for a in alpha if a[1] != 'b' or a[0] != 'declare' or a[2] in ('any', 'int', 'valsd', 'limd')]
        for d in DECL:
            if d in BAD:
                continue
            for w in itertools.product(sub, repeat=3):
                yield {'path': [['declare', 'a', d]] + list(w)}
    # declarations in a subclass, keyword arguments, read only
    for d in DECL:
        if d in BAD:
            continue
        for e in ('any', 'def', 'int', 'limd'):
            for kw in [[]] + [[['a', v]] for v in VALS] + [[['a', 1], ['b', 2]], [['b', 1]], [['c', 1]], [['b', 2], ['a', 'a']]]:
                for ro in (False, True):
                    for w in [[]] + [[s] for s in sets + upds + und]:
                        if tier == 'quick' and (kw and len(w) and w[0][0] != 'set' or e != 'any' and ro):
                            continue
                        yield {'kw': kw, 'sub': [['a', d], ['b', e]], 'ro': ro, 'path': w}


def run(case):
    from omtools.api import OptionsDictionary
    r = Ref(case.get('ro', False))
    n = 0
    log = []
    if 'sub' in case:
        class Sub(OptionsDictionary):
            def initialize(self):
                log.append('initialize')
                for m, d in case['sub']:
                    self.declare(m, **kwargs(d))

            def pre_setup(self):
                log.append('pre_setup')
                log.append({m: self[m] for m in self if len(r.d[m]) > 1})

        for m, d in case['sub']:
            r.do(['declare', m, d])
        exp = r.do(['update', case['kw']])
        args = {'read_only': True} if case['ro'] else {}
        try:
            o = Sub(**args, **dict(map(tuple, case['kw'])))
            err = None
        except Exception as e:
            err = e
        judge('construction', err, exp)
        n += 1
        if err is not None:
            return n
        if [x for x in log if isinstance(x, str)] != ['initialize', 'pre_setup']:
            raise Bad('construction called %r' % log)
        if log[-1] != {m: x[1] for m, x in r.d.items() if len(x) > 1}:
            raise Bad('options in pre_setup: %r' % log[-1])
        compare(o, r, 'abc')
    else:
        o = OptionsDictionary()
    unknown = set()
    for a in case['path']:
        if unknown & ({a[1]} if a[0] == 'set' else {x[0] for x in a[1]} if a[0] == 'update' else set()):
            return n
        exp = r.do(a)
        try:
            perform(o, a)
            err = None
        except Exception as e:
            err = e
        judge(a, err, exp)
        if a[0] == 'declare' and exp:
            # what a refused declaration leaves behind is not specified
            unknown.add(a[1])
            r.d.pop(a[1], None)
        elif a[0] == 'declare':
            unknown.discard(a[1])
        if a[0] == 'undeclare':
            unknown.discard(a[1])
        compare(o, r, 'abc', unknown)
        n += 1
    if not unknown:
        table(o, r)
    return n


def judge(a, err, exp):
    if exp and err is None:
        raise Bad('%r is accepted, expected to be refused with one of %r' % (a, [e.__name__ for e in exp]))
    if err is not None and not exp:
        raise Bad('%r is refused: %s: %s' % (a, type(err).__name__, err))
    if exp and not isinstance(err, exp):
        raise Bad('%r is refused with %s (%s), expected %r' % (a, type(err).__name__, err, [e.__name__ for e in exp]))
