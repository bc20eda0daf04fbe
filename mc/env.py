"""Process environment for every check.

Must be imported before numpy / openmdao / omtools.  The code under test is
always /repo's working tree (never an installed copy); every file OpenMDAO may
want to write goes to a scratch directory that is removed when we finish.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OMT_REPO', '/repo')

os.environ['OPENMDAO_REPORTS'] = '0'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ['MPLBACKEND'] = 'Agg'
os.environ['OPENMDAO_USE_MPI'] = '0'
sys.dont_write_bytecode = True

_scratch = tempfile.mkdtemp(prefix='omtmc_')
_owner = os.getpid()
os.environ['OPENMDAO_WORKDIR'] = _scratch
os.environ['MPLCONFIGDIR'] = _scratch
os.environ['HOME'] = _scratch
os.chdir(_scratch)


@atexit.register
def _cleanup():
    if os.getpid() == _owner:
        os.chdir('/')
        shutil.rmtree(_scratch, ignore_errors=True)


warnings.simplefilter('ignore')
sys.path.insert(0, REPO)


def load():
    """import the implementation; returns (om, ot, np)"""
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        import numpy as np
        import openmdao.api as om
        # never trust bytecode lying next to the sources of the code under test
        sys.pycache_prefix = _scratch
        import omtools
        import omtools.api as ot
        sys.pycache_prefix = None
    p = os.path.realpath(omtools.__file__ or list(omtools.__path__)[0])
    if not p.startswith(os.path.realpath(REPO) + os.sep):
        sys.stderr.write('omtools imported from %s, not %s\n' % (p, REPO))
        sys.exit(2)
    np.seterr(all='ignore')
    return om, ot, np
