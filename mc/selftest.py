"""setup check: the interpreter, OpenMDAO and the implementation can be imported and the machinery's comparison works"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa
from mc import ops, prog


def main():
    om, ot, np = env.load()
    prog.bind(om, ot)
    a = ops.ref_op('sin', [np.array([0.5, 1.])], {})
    assert prog.close(a, np.sin([0.5, 1.])) and not prog.close(a, np.cos([0.5, 1.]))
    print('ready')
    return 0


if __name__ == '__main__':
    sys.exit(main())
