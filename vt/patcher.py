"""Install the symbolic stand-ins into every imported hvd module (by identity, after import)."""
import importlib
import os
import pkgutil
import sys
import types

import numpy as real_np

from . import npshim
from .npshim import NPS


class symfloat_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, *a):
        from .engine import Sym

        if a and type(a[0]) is Sym:
            return a[0]
        if a and isinstance(a[0], real_np.ndarray) and a[0].dtype == object and a[0].size == 1:
            return a[0].reshape(-1)[0]
        return float(*a)


class symfloat(metaclass=symfloat_meta):
    """`float` inside hvd modules: the identity on symbolic reals"""


EXTRA = {}  # id(original) -> replacement, filled by stubs
_keep = []


ORIG = {}  # id(replacement) -> original


def replace(orig, new):
    _keep.append((orig, new))
    EXTRA[id(orig)] = new
    ORIG[id(new)] = orig


def install():
    import jax  # noqa: F401
    import jax.numpy  # noqa: F401
    import pymoo.algorithms.moo.moead  # noqa: F401
    import scipy.optimize  # noqa: F401
    import sklearn.cluster  # noqa: F401

    from . import jaxi, stubs

    jaxi.begin()
    try:
        import hvd

        for m in pkgutil.walk_packages(hvd.__path__, "hvd."):
            try:
                importlib.import_module(m.name)
            except Exception as e:  # optional modules
                print("note: cannot import", m.name, e, file=sys.stderr)
    finally:
        jaxi.end()
    stubs._MODS.update(jaxi.modules())
    stubs.register(replace)
    patch_all()


def patch_all():
    import math

    from . import stubs

    for name, mod in list(sys.modules.items()):
        if not (name == "hvd" or name.startswith("hvd.")) or mod is None:
            continue
        patch_module(mod)


def patch_module(mod):
    import math

    from . import stubs

    g = mod.__dict__
    g.setdefault("float", npshim.FloatType)
    for k, v in list(g.items()):
        if k.startswith("__"):
            continue
        r = EXTRA.get(id(v))
        if r is not None:
            g[k] = r
            continue
        if v is real_np:
            g[k] = NPS
        elif v is real_np.linalg:
            g[k] = NPS.linalg
        elif v is real_np.random:
            g[k] = NPS.random
        elif v is math:
            g[k] = stubs.MATH
        elif isinstance(v, types.ModuleType):
            r = stubs.module_for(v)
            if r is not None:
                g[k] = r
        elif getattr(v, "__module__", None) in ("numpy", "numpy.linalg") and callable(v) and not isinstance(v, type):
            src = NPS.linalg if v.__module__ == "numpy.linalg" else NPS
            n = getattr(v, "__name__", None)
            if n and hasattr(src, n):
                g[k] = getattr(src, n)
    g.setdefault("float", symfloat)
