"""C33: expressions evaluate numpy arrays on the chosen library and return numpy arrays."""

import itertools

import numpy as np

import opt_einsum as oe

from mc import convlib, enum, oracle, util
from mc.core import Violation

ID = "C33"
TECHNIQUE = "exhaustive exploration of call histories of the real expressions on converting libraries (installed ones, tensorflow in graph mode, documented-interface stand-ins for cupy and theano); exact oracle per call, counted conversions and graph constructions"
BOUNDS = {
    "quick": "six equations of 1-4 operands x every proper subset of constants x all histories of length <=3 (jax, tensorflow <=2) over 9 operations: two operand sets, one array for all operands, an operand modified in place, output array, "
    "library-native arrays, pre-evaluation, in a sharing context (all three kinds of operands), a call with a wrong number of arrays; libraries cupy, theano, torch, jax, tensorflow eager and graph mode; "
    "cupy, theano and torch: all equations of 2 operands of rank <=2 and 3 operands of total rank <=4 x every pairwise path x every constant subset, called twice",
    "thorough": "histories of length <=4 (jax, tensorflow <=3)",
}
ASSUMPTIONS = [
    "cupy and theano are stand-ins with the documented interface (no implicit conversion; symbolic variables, compiled functions with distinct inputs, no einsum)",
    "inside a sharing context arrays are not modified", "tensorflow graph mode keeps the shapes of the first call",
]

EQS = [(["ab", "bc"], "ac"), (["ab", "ab"], ""), (["ab", "bc", "cd"], "da"), (["ab", "bc", "ca"], ""), (["ab"], "ba"), (["ab", "bc", "cd", "de"], "ae")]
OPS = ["n0", "n1", "same", "mod", "out", "native", "ev", "few", "shared"]


class Lib:
    counts = None

    def __init__(self, name):
        self.name = self.backend = name
        self.oe = oe
        if name == "cupy":
            self.mod = convlib.cupy()
        elif name == "theano":
            self.mod = convlib.theano()
        elif name == "tensorflow":
            self.mod = convlib.tensorflow_graph()
            self.oe = convlib.second_copy("opt_einsum")  # the first one might have been used with eager execution
        elif name == "eager":
            self.mod = convlib.tensorflow_eager()
            self.backend = "tensorflow"
        elif name == "torch":
            import torch

            torch.set_num_threads(1)
            self.mod = torch
        else:
            import jax

            jax.config.update("jax_enable_x64", True)
            self.mod = jax.numpy

    def native(self, arrays, call):
        """Calls with native operands; returns the value as numpy array and whether the result is native."""
        m = self.mod
        if self.name == "cupy":
            r = call([m.ndarray(x) for x in arrays])
            return isinstance(r, m.ndarray), r._a if isinstance(r, m.ndarray) else r
        if self.name == "theano":
            vs = [m.tensor.TensorType(x.dtype, [False] * x.ndim)() for x in arrays]
            r = call(vs)
            return isinstance(r, m.tensor.TensorVariable), r.eval(dict(zip(vs, arrays)))
        if self.name == "tensorflow":
            vs = [m.placeholder(x.dtype, x.shape) for x in arrays]
            r = call(vs)
            return isinstance(r, m.Tensor), m.get_default_session().run(r, dict(zip(vs, arrays)))
        if self.name == "eager":
            r = call([m.convert_to_tensor(x) for x in arrays])
            return isinstance(r, m.Tensor), np.asarray(r)
        if self.name == "torch":
            r = call([m.tensor(x) for x in arrays])
            return isinstance(r, m.Tensor), np.asarray(r)
        r = call([m.asarray(x) for x in arrays])
        return not isinstance(r, np.ndarray), np.asarray(r)

    def work(self):
        """A counter that must not grow once everything has been prepared, apart from converting the operands."""
        if self.name == "cupy":
            return convlib.COUNT["convert"]
        if self.name == "theano":
            return convlib.COUNT["build"]
        if self.name == "tensorflow":
            return len(self.mod.get_default_graph().get_operations())
        return 0


LIBS = {}


def lib(name):
    if name not in LIBS:
        LIBS[name] = Lib(name)
    return LIBS[name]


def twice(terms, out):
    s = "".join(terms) + out
    return len(terms) > 1 and all(len(set(t)) == len(t) for t in terms) and all(s.count(c) == 2 for c in set(s))


class World:
    def __init__(self, terms, out, const, be, opt):
        self.terms, self.out, self.const, self.kind, self.be, self.oe = terms, out, const, be, lib(be).backend, lib(be).oe
        self.var = [k for k in range(len(terms)) if k not in const]
        self.sets = [[util.data((2,) * len(t), 5 * s + k) for k, t in enumerate(terms)] for s in (0, 1)]
        self.shared = util.data((2, 2), 77)
        self.cv = {k: self.sets[0][k].copy() for k in const}
        self.eq = util.eq(terms, out)
        self.ex = self.oe.contract_expression(self.eq, *[self.cv[k] if k in const else self.sets[0][k].shape for k in range(len(terms))], constants=list(const), optimize=opt)
        self.known = False
        self.prepared = False

    def want(self, vs):
        full = dict(zip(self.var, vs))
        return oracle.einsum(self.terms, self.out, [full[k] if k in full else self.cv[k] for k in range(len(self.terms))])

    def vals(self, kind):
        if kind == "same":
            return [self.shared for k in self.var]
        return [self.sets[0 if kind in ("n0", "mod", "out", "native") else 1][k] for k in self.var]


def call(w, L, kind, st, sharing=False):
    vs = w.vals(kind)
    if kind == "mod":
        for v in vs:
            v += 3
    want = w.want(vs)
    st.transitions += 1
    n0 = L.work()
    if kind == "native":
        native, got = L.native(vs, lambda xs: w.ex(*xs, backend=w.be))
        if not native:
            raise Violation("native operands gave a result of another type")
    else:
        kw = {"out": np.full(want.shape, 99.0)} if kind == "out" else {}
        got = w.ex(*vs, backend=w.be, **kw)
        if kw and got is not kw["out"]:
            raise Violation("the output array is not returned")
        if not isinstance(got, (np.ndarray, np.generic)):
            raise Violation(f"numpy operands gave a {type(got)}")
    st.traces += 1
    if np.shape(got) != want.shape or not np.array_equal(np.asarray(got, dtype=float), want):
        raise Violation(f"got {util.show(np.asarray(got))}, want {util.show(want)}")
    new = L.work() - n0
    if kind != "native":
        if w.prepared and not sharing:
            allowed = len(vs) if w.kind == "cupy" else 0
            if new > allowed:
                what = {"cupy": "conversions", "theano": "compilations", "tensorflow": "new graph operations"}[w.kind]
                raise Violation(f"{new} {what} in a call with {len(vs)} arrays although the expression has been called before")
        w.prepared = True


def perform(w, L, op, st):
    if op == "few":
        try:
            r = w.ex(*w.vals("n0")[:-1], backend=w.be)
        except ValueError:
            return
        raise Violation(f"accepted too few arrays, returned {r!r:.100}")
    if op == "ev":
        w.ex.evaluate_constants(w.be)
    elif op == "shared":
        with w.oe.shared_intermediates():
            for kind in ("same", "n0", "n1", "same"):
                call(w, L, kind, st, True)
    else:
        call(w, L, op, st)


def run(case, st):
    be, terms, out, const, hists, opt = case
    L = lib(be)
    for hist in hists:
        w = World(terms, out, const, be, opt)
        st.states += 1
        for k, op in enumerate(hist):
            try:
                perform(w, L, op, st)
            except Violation as e:
                raise Violation(f"expression({w.eq!r}, constants={const}, optimize={opt}) on {be}, history {hist[: k + 1]}: {e}")
            except Exception as e:
                raise Violation(f"expression({w.eq!r}, constants={const}, optimize={opt}) on {be}, history {hist[: k + 1]}: unexpected {type(e).__name__}: {e}")
        for k in const:
            if not util.same(w.cv[k], util.data((2,) * len(terms[k]), k)):
                raise Violation(f"constant {k} was modified")


def subsets(n):
    return itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n))


def gen_hist(be, depth):
    def g():
        for terms, out in EQS:
            if be == "theano" and not twice(terms, out):
                continue
            for const in subsets(len(terms)):
                ops = [o for o in OPS if o != "ev" or const]
                for first in ops:
                    hists = [(first,) + h for h in itertools.product(ops, repeat=depth - 1)]
                    yield [be, terms, out, list(const), [list(h) for h in hists], "auto" if len(terms) < 4 else "greedy"]
    return g


def gen_small(be):
    def g():
        for n, total in ((2, 4), (3, 4)):
            for terms, out in enum.equations(n, 2, outs=enum.some_orders, max_total=total):
                if be == "theano" and not twice(terms, out):
                    continue
                for path in oracle.all_paths(n):
                    if any(len(s) != 2 for s in path):
                        continue
                    for const in subsets(n):
                        yield [be, terms, out, list(const), [["n0", "n1"], ["n1", "n0", "native"]], [list(p) for p in path]]
    return g


def spaces(tier):
    d = 3 if tier == "quick" else 4
    return [
        # n.b. must come first: graph mode is for the rest of the process
        ("tensorflow-eager", gen_hist("eager", d - 1), run),
        ("cupy", gen_hist("cupy", d), run),
        ("theano", gen_hist("theano", d), run),
        ("torch", gen_hist("torch", d), run),
        ("tensorflow-graph", gen_hist("tensorflow", d - 1), run),
        ("jax", gen_hist("jax", d - 1), run),
        ("cupy-small", gen_small("cupy"), run),
        ("theano-small", gen_small("theano"), run),
        ("torch-small", gen_small("torch"), run),
    ]
