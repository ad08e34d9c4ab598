"""Loads nbkode from the tree under test, interpreted or compiled.

interp: NBKODE_NONUMBA=1, the repository's own pure Python mode. The code that
        runs is the very code of the repository, numba's decorators are no-ops.
jit:    the default, compiled mode (NUMBA_OPT=0, as the test suite does).
"""

import importlib.abc
import importlib.util
import os
import sys
import warnings

REPO = os.environ.get("NBMC_REPO", "/repo")
MODE = None


class _Any:
    """Stands for any numba type expression when numba is switched off."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __call__(self, *args, **kwargs):
        if len(args) == 1 and not kwargs and callable(args[0]):
            return args[0]
        return self

    def __getitem__(self, item):
        return self


class _Typed:
    List = list
    Dict = dict


def _fallback(name):
    # Names of numba that nbkode's stand-in for numba does not have: only used
    # so that code using them still runs interpreted. It never hides a name.
    if name.startswith("__"):
        raise AttributeError(name)
    if name == "prange":
        return range
    if name == "typed":
        return _Typed
    if name in ("literal_unroll", "literally"):
        return lambda x: x
    return _Any()


class _ShimFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "nbkode.nbcompat.numbasub":
            return None
        sys.meta_path.remove(self)
        spec = importlib.util.find_spec(fullname)
        if spec is None or spec.loader is None:
            return spec
        orig = spec.loader.exec_module

        def exec_module(module):
            orig(module)
            if not hasattr(module, "__getattr__"):
                module.__getattr__ = _fallback

        spec.loader.exec_module = exec_module
        return spec


def load(mode, shim=True):
    """Import nbkode in the given mode. One mode per process."""
    global MODE
    if MODE is not None:
        assert MODE == mode, "one mode per process"
        import nbkode

        return nbkode
    sys.dont_write_bytecode = True
    if mode == "interp":
        os.environ["NBKODE_NONUMBA"] = "1"
        if shim:
            sys.meta_path.insert(0, _ShimFinder())
    else:
        os.environ.pop("NBKODE_NONUMBA", None)
        os.environ.setdefault("NUMBA_OPT", "0")
    warnings.filterwarnings("ignore")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy as np
    import scipy.integrate._ivp.rk  # noqa: F401
    import scipy.optimize  # noqa: F401

    if mode == "jit":
        import numba.experimental  # noqa: F401

    np.seterr(all="ignore")
    # nbkode itself is always read from its sources, never from a bytecode cache
    prefix, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent-nbmc"
    try:
        import nbkode
    finally:
        sys.pycache_prefix = prefix

    here = os.path.realpath(os.path.dirname(nbkode.__file__))
    assert here.startswith(os.path.realpath(REPO)), here
    MODE = mode
    return nbkode
