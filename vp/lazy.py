"""Lazy modules, so that declaring checks does not import anything heavy."""
import importlib


class Lazy:
    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        value = getattr(importlib.import_module(self._name), attr)
        self.__dict__[attr] = value
        return value


class LazyModule(Lazy):
    """Does not cache attributes."""

    def __getattr__(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        return getattr(importlib.import_module(self._name), attr)


B = LazyModule("lab.jax")
Bnp = LazyModule("lab")
st = Lazy("hypothesis.strategies")
G = LazyModule("gpcm")
E = LazyModule("gpcm.exppoly")
U = LazyModule("gpcm.util")
N = LazyModule("gpcm.normal")
S = LazyModule("gpcm.sample")
A = LazyModule("gpcm.approx")
jax = LazyModule("jax")
jnp = LazyModule("jax.numpy")
