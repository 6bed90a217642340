"""Import environment of the checks: /repo on sys.path and a stand-in for the
one scipy name missing from the scipy of python3-vt (sph_harm)."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.simplefilter('ignore')


def setup():
    import scipy.special
    if not hasattr(scipy.special, 'sph_harm'):
        def sph_harm(m, n, theta, phi):
            return scipy.special.sph_harm_y(n, m, phi, theta)
        scipy.special.sph_harm = sph_harm
    sys.setrecursionlimit(20000)


setup()
