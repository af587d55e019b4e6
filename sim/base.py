"""Paths, imports of the code under test, seeded generators, small helpers."""
import hashlib
import json
import os
import random
import sys
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'meshless') + os.sep
SCRATCH = os.environ.get('VERIF_SCRATCH') or '/tmp'


def import_code():
    """Import meshless (and its dependencies) from REPO's working tree; nothing in it is called."""
    sys.dont_write_bytecode = True
    root = os.path.realpath(REPO)
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != root]
    sys.path.insert(0, root)
    if not os.path.exists(os.path.join(PKG, 'version.py')):
        v = types.ModuleType('meshless.version')      # generated by setup.py, ignored by git
        v.__version__ = 'unknown'
        sys.modules['meshless.version'] = v
    import warnings
    warnings.simplefilter('ignore')
    random.seed(0)

    class Seeded(random.Random):
        """generators that would start from the system's entropy start from a constant (sympy numbers its dummies so)"""

        def __new__(cls, x=None):
            return super().__new__(cls, 0 if x is None else x)

        def __init__(self, x=None):
            super().__init__(0 if x is None else x)
    random.Random = Seeded
    import numpy as np
    np.random.seed(0)
    np.seterr(all='ignore')
    import scipy.spatial            # noqa
    import sympy                    # noqa
    import pyNastran.bdf.bdf        # noqa
    import composites.laminate      # noqa
    from . import engine
    from . import probes
    engine.patch_locks()
    probes.install()
    import meshless
    import meshless.espim.read_mesh
    import meshless.espim.classes
    import meshless.espim.plate2d_calc_k0
    import meshless.espim.plate2d_calc_kG
    import meshless.espim.plate2d_add_k0s
    import meshless.dev.sympytools
    import meshless.interpolate
    import meshless.utils
    from . import ids
    ids.install()
    if not os.path.realpath(meshless.__file__).startswith(PKG):
        raise RuntimeError('wrong meshless imported: %s' % meshless.__file__)


def rng_for(seed, *key):
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class HarnessError(Exception):
    """Something the harness, not the code under test, got wrong (or a resource ran out)."""
