"""An array library whose arrays know which operands they were made from and which of them are still alive."""

import sys
import types
import weakref

import numpy as np

from mc import oracle

OPS = []  # operations with two or more operands, in order: (function, groups of the operands, group of the result, shape of the result)
UNARY = []  # transpositions and single-operand einsums: (function, group, shape)
ALIVE = {}  # serial number -> (group, weak reference) of every array made by an operation
HOOK = [None]  # called before an operation with (function, operand arrays)
FAULT = [None]  # number of operations until the injected fault
KIND = [None]  # class of the injected fault
_serial = [0]


class InjectedFault(RuntimeError):
    pass


class InjectedValueError(ValueError):
    pass


FAULTS = (InjectedFault, InjectedValueError)


def reset(hook=None, fault=None, kind=None):
    OPS.clear()
    UNARY.clear()
    ALIVE.clear()
    HOOK[0] = hook
    FAULT[0] = fault
    KIND[0] = kind
    _serial[0] = 0


def alive():
    return [(g, r()) for g, r in list(ALIVE.values()) if r() is not None]


def make(name, funcs=("tensordot", "transpose", "einsum")):
    if name in sys.modules:
        return sys.modules[name].Array

    class Array:
        __array_ufunc__ = None

        def __init__(self, a, group):
            self._a = np.asarray(a)
            self.group = group

        @property
        def shape(self):
            return self._a.shape

        @property
        def ndim(self):
            return self._a.ndim

        def __array__(self, *a, **k):
            raise TypeError("converted to numpy")

        def transpose(self, axes):
            return transpose(self, axes)

    Array.__module__ = name
    Array.__qualname__ = "Array"

    def result(fn, value, xs):
        _serial[0] += 1
        g = frozenset().union(*(x.group for x in xs))
        r = Array(value, g)
        ALIVE[_serial[0]] = (g, weakref.ref(r))
        if len(xs) > 1:
            OPS.append((fn, frozenset(x.group for x in xs), g, r.shape))
        else:
            UNARY.append((fn, g, r.shape))
        return r

    def before(fn, xs):
        for x in xs:
            if type(x) is not Array:
                raise TypeError(f"{name}.{fn} was given a {type(x)}")
        if FAULT[0] is not None:
            FAULT[0] -= 1
            if FAULT[0] == 0:
                raise (KIND[0] or InjectedFault)(fn)
        if HOOK[0] is not None:
            HOOK[0](fn, xs)

    def tensordot(x, y, axes=2):
        before("tensordot", [x, y])
        return result("tensordot", np.tensordot(x._a, y._a, axes=axes), [x, y])

    def transpose(x, axes):
        before("transpose", [x])
        return result("transpose", np.transpose(x._a, axes), [x])

    def einsum(eq, *xs):
        before("einsum", xs)
        lhs, out = eq.split("->")
        return result("einsum", oracle.einsum(lhs.split(","), out, [x._a for x in xs]), list(xs))

    mod = types.ModuleType(name)
    mod.Array = Array
    for f, fn in (("tensordot", tensordot), ("transpose", transpose), ("einsum", einsum)):
        if f in funcs:
            setattr(mod, f, fn)
    sys.modules[name] = mod
    return Array
