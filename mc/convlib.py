"""Stand-ins for array libraries that are not installed (cupy, theano), following their documented interface, and tensorflow in graph mode."""

import importlib
import sys
import types

import numpy as np

COUNT = {"convert": 0, "build": 0}


class Misuse(Exception):
    """The stand-in was used in a way the real library does not support."""


def cupy():
    """Arrays on a 'device': no implicit conversion to or from numpy."""
    if "cupy" in sys.modules:
        return sys.modules["cupy"]

    class ndarray:
        __array_ufunc__ = None
        __hash__ = None

        def __init__(self, a):
            self._a = np.array(a)

        shape = property(lambda self: self._a.shape)
        dtype = property(lambda self: self._a.dtype)
        ndim = property(lambda self: self._a.ndim)

        def get(self):
            return np.array(self._a)

        def __array__(self, *a, **k):
            raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.")

        def transpose(self, *axes):
            return ndarray(self._a.transpose(*axes))

        def __setitem__(self, k, v):
            self._a[k] = raw(v)

    ndarray.__module__ = "cupy._core.core"

    def raw(x):
        if not isinstance(x, ndarray):
            raise TypeError(f"Unsupported type {type(x)}")
        return x._a

    def asarray(x):
        if isinstance(x, ndarray):
            return x
        COUNT["convert"] += 1
        return ndarray(x)

    m = types.ModuleType("cupy")
    m.ndarray = ndarray
    m.asarray = asarray
    m.tensordot = lambda a, b, axes=2: ndarray(np.tensordot(raw(a), raw(b), axes))
    m.transpose = lambda a, axes=None: ndarray(np.transpose(raw(a), axes))
    m.einsum = lambda eq, *xs: ndarray(np.einsum(eq, *[raw(x) for x in xs]))
    sys.modules["cupy"] = m
    return m


def theano():
    """Symbolic variables, compiled functions; no einsum."""
    if "theano" in sys.modules:
        return sys.modules["theano"]

    class TensorVariable:
        def __init__(self, ndim, fn=None, args=()):
            self.ndim, self.fn, self.args = ndim, fn, args

        def _value(self, env):
            if id(self) in env:
                return env[id(self)]
            if self.fn is None:
                raise Misuse("MissingInputError")
            r = env[id(self)] = self.fn(*[a._value(env) for a in self.args])
            return r

        def eval(self, inputs=None):
            return np.asarray(self._value({id(k): v for k, v in (inputs or {}).items()}))

        def transpose(self, *axes):
            return transpose(self, axes[0] if len(axes) == 1 and not isinstance(axes[0], int) else axes)

        @property
        def shape(self):
            raise Misuse("the shape of a variable is symbolic")

    TensorVariable.__module__ = "theano.tensor.var"

    class TensorConstant(TensorVariable):
        def __init__(self, data):
            super().__init__(np.ndim(data))
            self.data = np.array(data)

        def _value(self, env):
            return self.data

    TensorConstant.__module__ = "theano.tensor.var"

    class TensorType:
        def __init__(self, dtype, broadcastable):
            self.dtype, self.broadcastable = dtype, broadcastable

        def __call__(self):
            return TensorVariable(len(self.broadcastable))

    def var(x):
        if not isinstance(x, TensorVariable):
            raise Misuse(f"{type(x)} is not a variable")
        return x

    def tensordot(a, b, axes=2):
        axes = tuple(tuple(int(k) for k in x) for x in axes)
        return TensorVariable(var(a).ndim + var(b).ndim - 2 * len(axes[0]), lambda x, y: np.tensordot(x, y, axes), (a, b))

    def transpose(a, axes=None):
        return TensorVariable(var(a).ndim, lambda x: np.transpose(x, axes), (a,))

    def function(inputs, output):
        COUNT["build"] += 1
        if len({id(x) for x in inputs}) != len(inputs):
            raise Misuse("an input is given twice")
        for x in inputs:
            if isinstance(x, TensorConstant) or x.fn is not None:
                raise TypeError("constants and computed variables are not allowed as function inputs")

        def call(*arrays):
            if len(arrays) != len(inputs):
                raise TypeError("wrong number of arguments")
            env = {}
            for v, x in zip(inputs, arrays):
                if not isinstance(x, np.ndarray) or x.ndim != v.ndim:
                    raise TypeError(f"bad input {type(x)}")
                env[id(v)] = x
            return np.asarray(output._value(env))

        return call

    t = types.ModuleType("theano")
    tt = types.ModuleType("theano.tensor")
    tt.TensorVariable, tt.TensorConstant, tt.TensorType = TensorVariable, TensorConstant, TensorType
    tt.constant = TensorConstant
    tt.tensordot, tt.transpose = tensordot, transpose
    t.tensor, t.function = tt, function
    sys.modules["theano"], sys.modules["theano.tensor"] = t, tt
    return t


_TF = []


def tensorflow_eager():
    import tensorflow as tf

    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(1)
    return tf


def second_copy(name):
    """A separately imported copy of a package."""
    first = {k: sys.modules.pop(k) for k in list(sys.modules) if k == name or k.startswith(name + ".")}
    try:
        mod = importlib.import_module(name)
        for k in first:
            importlib.import_module(k)
        return mod
    finally:
        sys.modules.update(first)


def tensorflow_graph():
    """The installed tensorflow with its version 1 interface and no eager execution (for the whole process)."""
    if not _TF:
        import tensorflow.compat.v1 as tf

        tf.disable_eager_execution()
        tf.get_logger().setLevel("ERROR")
        sys.modules["tensorflow"] = tf
        sess = tf.Session()
        sess.__enter__()
        _TF.extend([tf, sess])
    return _TF[0]
