"""Locates the code under test (/repo's working tree) and Hypothesis, and
provides scratch space.  Nothing is written outside the scratch directory."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')     # VERIF_REPO: development aid only
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np                                # noqa: E402
np.seterr(all='ignore')


def load():
    """Import pyuff from the working tree.  Any failure to import is a failure
    of the tree, not of the harness, and is reported by the caller."""
    import pyuff
    assert os.path.realpath(pyuff.__file__).startswith(os.path.realpath(REPO) + os.sep), pyuff.__file__
    warnings.simplefilter('ignore')
    return pyuff


def scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return HERE
