"""total derivatives of every expression program of bounded size"""
from mc import pairs
from mc.props import c01_values as V

ID = 'C02'


def bounds(tier):
    return V.bounds(tier) + '; totals in forward or reverse mode at a point with mixed signs, and again after moving to a second point; inputs named alike and unlike'


NAMES = (('x', 'y', 'z'), ('x', 'xx', 'xxx'), ('y2', 'y', 'y22'))


def cases(tier):
    # the names of the inputs are neither alike nor unlike on purpose, the beginning and the end of one another
    for i, c in enumerate(plain(tier)):
        if len(c['ins']) < 3:
            for n, v in zip(NAMES[i // 2 % 3], c['ins']):
                v[0] = n
        yield c


def plain(tier):
    for i, c in enumerate(V.space(tier, 'fwd', [['pm', 0], ['u', 1]])):
        c['jac'] = ('fwd', 'rev')[i % 2]
        yield c
    for i, c in enumerate(V.scaled(tier, 'fwd')):
        c['jac'] = ('fwd', 'rev')[i // 2 % 2]
        yield c
    yield from pairs.space(tier, True)


run = V.run
