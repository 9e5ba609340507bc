"""Process set-up: hypothesis from the offline tool venv, code from /repo."""
import os
import sys
import warnings

REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup(code=True):
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # appended last: numpy, scipy, shapely ... come from the repo's venv
        sys.path.append(VT)
        import hypothesis  # noqa: F401
    warnings.simplefilter('ignore')
    import numpy as np

    np.seterr(all='ignore')
    import scipy.interpolate
    import scipy.linalg
    import scipy.optimize
    import shapely.affinity
    import shapely.ops
    import triangle  # noqa: F401

    if not code:
        return
    # never trust byte code left behind from an earlier tree
    sys.pycache_prefix = f'/tmp/vf-no-cache-{os.getpid()}'
    import structuralcodes

    path = os.path.realpath(structuralcodes.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'structuralcodes is imported from {path}')
