"""Loads magpie from the current working tree with every seam in place."""
import importlib.machinery
import importlib.util
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

from . import build  # noqa: E402

magpie = None
memseam = None


def _load_ext(name, path):
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


def load():
    global magpie, memseam
    if magpie is not None:
        return magpie
    paths = build.build_all()
    memseam = _load_ext("memseam", paths["memseam"])
    import warnings
    warnings.simplefilter("ignore")
    import numpy  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import healpy  # noqa: F401
    from . import seams
    seams.install()
    for name, p in paths["ext"].items():
        sys.modules[name] = _load_ext(name, p)
    sys.path.insert(0, build.REPO)
    sys.pycache_prefix = os.path.join(build.CACHE, "none")      # never run a stale .pyc
    import magpie as m
    import magpie.densegrid  # noqa: F401
    import magpie.montecarlo  # noqa: F401
    sys.pycache_prefix = None
    if os.path.dirname(os.path.dirname(os.path.abspath(m.__file__))) != os.path.abspath(build.REPO):
        raise RuntimeError("magpie came from " + m.__file__)
    # warm up lazy imports and caches of the stubs' hosts (numpy, scipy, healpy), not of magpie
    import numpy as np
    import healpy as hp
    np.histogramdd((np.array([.5]), np.array([.5])), bins=[2, 2], range=[[0, 1], [0, 1]])
    hp.ud_grade(np.zeros(48), 1)
    hp.ang2pix(2, 0.3, 0.2)
    np.linalg.inv(np.eye(3))
    scipy.interpolate.interp1d([0., .3, .5, 1.], [0., 1., 2., 3.], kind="cubic")(0.5)
    magpie = m
    seams.magpie_loaded()
    return m
