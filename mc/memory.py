"""controls the one source of nondeterminism of graph building: the position of
expression objects in memory, which decides the iteration order of sets of them.

With the controller on, the hash of the i-th expression seen is rank[i], so all
orders in which the objects could lie in memory can be enumerated.  Objects
that compare by identity keep doing so; programs that do not use hashes are
simply not affected.
"""
import contextlib

from mc import prog


def base_class():
    """the base class of expressions, found through the public API only"""
    g = prog.ot.Group()
    v = g.declare_input('probe_')
    mro = [c for c in type(v).__mro__ if c is not object]
    return mro[-1]


@contextlib.contextmanager
def ranks(rank):
    base = base_class()
    had = '__hash__' in base.__dict__
    old = base.__dict__.get('__hash__')
    seen = {}
    keep = []

    def h(self):
        k = id(self)
        if k not in seen:
            i = len(keep)
            keep.append(self)
            seen[k] = rank[i] if i < len(rank) else i
        return seen[k]

    base.__hash__ = h
    try:
        yield keep
    finally:
        if had:
            base.__hash__ = old
        else:
            del base.__hash__
