"""Environment: deterministic, offline, and always the current working tree.

Import this module before anything else.
"""
import glob
import importlib.abc
import importlib.util
import os
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("GPCM_REPO", "/repo"))

DEFAULTS = {
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "XLA_FLAGS": "--xla_backend_optimization_level=0 "
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
}


def setup_environment():
    """Set the environment. Must happen before JAX is imported."""
    for k, v in DEFAULTS.items():
        os.environ[k] = v
    sys.dont_write_bytecode = True


_HYP_NAMES = {"hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals"}


class _HypothesisFinder(importlib.abc.MetaPathFinder):
    """Finds only Hypothesis and its dependencies in a foreign site-packages, so that
    nothing else (such as a different NumPy) leaks in from there."""

    def __init__(self, path):
        self.path = path

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] not in _HYP_NAMES or path is not None:
            return None
        return importlib.machinery.PathFinder.find_spec(fullname, [self.path])


def setup_hypothesis():
    """Make `import hypothesis` work."""
    try:
        import hypothesis  # noqa

        return
    except ImportError:
        pass
    for cand in sorted(
        glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages")
    ):
        if os.path.isdir(os.path.join(cand, "hypothesis")):
            sys.meta_path.append(_HypothesisFinder(cand))
            try:
                import hypothesis  # noqa

                return
            except ImportError:
                sys.meta_path.pop()
    # Fall back to the wheelhouse.
    wheels = []
    for name in ("hypothesis", "sortedcontainers", "attrs"):
        wheels += sorted(glob.glob(f"/opt/veriftools/wheels/{name}-*.whl"))
    d = tempfile.mkdtemp(prefix="vp_hyp_")
    for w in wheels:
        try:
            zipfile.ZipFile(w).extractall(d)
        except Exception:
            continue
    sys.meta_path.append(_HypothesisFinder(d))
    import hypothesis  # noqa


def load_sut():
    """Import the code under test from the working tree, from source."""
    import warnings

    warnings.simplefilter("ignore")
    # Import the heavy dependencies first, with their ordinary caches.
    import jax  # noqa
    import lab.jax  # noqa
    import matrix  # noqa
    import matplotlib.pyplot  # noqa
    import mlkernels  # noqa
    import numpy  # noqa
    import plum  # noqa
    import probmods  # noqa
    import scipy.signal  # noqa
    import stheno.jax  # noqa
    import varz.spec  # noqa
    import varz.jax  # noqa
    import wbml.experiment  # noqa
    import wbml.out  # noqa
    import wbml.plot  # noqa

    # Never read a bytecode cache for the code under test: the working tree counts.
    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vp_no_such_cache")
    for p in (REPO,):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    try:
        import gpcm
        import gpcm.exppoly
        import gpcm.sample
        import gpcm.util
        import gpcm.normal
        import gpcm.model
        import gpcm.approx
    finally:
        sys.pycache_prefix = old
    if not os.path.realpath(gpcm.__file__).startswith(REPO + os.sep):
        raise RuntimeError(f"Imported gpcm from {gpcm.__file__}, not from {REPO}.")
    return gpcm


def load_experiments():
    """Import the experiments harness of the code under test."""
    import lab as B

    eps = B.epsilon
    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vp_no_such_cache")
    try:
        import experiments.experiment as ex
    finally:
        sys.pycache_prefix = old
        B.epsilon = eps
    if not os.path.realpath(ex.__file__).startswith(REPO + os.sep):
        raise RuntimeError(f"Imported experiments from {ex.__file__}.")
    return ex
