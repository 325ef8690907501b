"""Minimal third-party array libraries that record every operation and refuse everything else."""

import sys
import types

import numpy as np

from mc import oracle


class ForeignUse(Exception):
    """Something outside the library touched one of its arrays."""


LOG = []
FAULT = {"at": None, "count": 0}


class InjectedFault(RuntimeError):
    pass


def _tick(lib, op, args):
    FAULT["count"] += 1
    if FAULT["at"] is not None and FAULT["count"] == FAULT["at"]:
        raise InjectedFault(f"{lib}.{op}")
    LOG.append((lib, op, args))


def make(name, funcs=("tensordot", "transpose", "einsum"), method_transpose=True, convertible=False):
    """Create (once) the library `name` providing `funcs`; returns its array class."""
    if name in sys.modules:
        return sys.modules[name].Array

    class Array:
        __array_ufunc__ = None
        __array_priority__ = 1000
        lib = name

        def __init__(self, a):
            self._a = np.asarray(a)

        @property
        def shape(self):
            return self._a.shape

        def __repr__(self):
            return f"{name}.Array({self._a.tolist()})"

        if convertible:

            def __array__(self, dtype=None, copy=None):
                return np.array(self._a, dtype=dtype)

        else:

            def __array__(self, *a, **k):
                raise ForeignUse(f"{name} array converted to a numpy array")

            def __iter__(self):
                raise ForeignUse(f"{name} array iterated over")

        if method_transpose:

            def transpose(self, axes):
                _tick(name, "transpose", (self.shape, tuple(axes)))
                return Array(np.transpose(self._a, axes))

    if convertible:
        del Array.__array_ufunc__
    Array.__module__ = name + ".core"
    Array.__qualname__ = "Array"

    def own(op, *xs):
        for x in xs:
            if not isinstance(x, (Array, np.ndarray, np.generic)):
                raise ForeignUse(f"{name}.{op} was given a {type(x).__module__}.{type(x).__name__}")

    def raw(x):
        return x._a if isinstance(x, Array) else x

    def wrap(res, *xs):
        return Array(res) if any(isinstance(x, Array) for x in xs) else res

    def tensordot(x, y, axes=2):
        own("tensordot", x, y)
        _tick(name, "tensordot", (x.shape, y.shape, axes))
        return wrap(np.tensordot(raw(x), raw(y), axes=axes), x, y)

    def transpose(x, axes):
        own("transpose", x)
        _tick(name, "transpose", (x.shape, tuple(axes)))
        return wrap(np.transpose(raw(x), axes), x)

    def einsum(eq, *xs):
        own("einsum", *xs)
        _tick(name, "einsum", (eq, tuple(x.shape for x in xs)))
        lhs, out = eq.split("->")
        return wrap(oracle.einsum(lhs.split(","), out, [raw(x) for x in xs]), *xs)

    mod = types.ModuleType(name)
    mod.Array = Array
    for f, fn in (("tensordot", tensordot), ("transpose", transpose), ("einsum", einsum)):
        if f in funcs:
            setattr(mod, f, fn)
    sys.modules[name] = mod
    return Array


def reset(fault_at=None):
    LOG.clear()
    FAULT["at"] = fault_at
    FAULT["count"] = 0
