"""C30: contractions can be differentiated and traced."""

import itertools
import subprocess
import sys

import numpy as np

import opt_einsum as oe

from mc import core, enum, oracle, util
from mc.core import Violation

ID = "C30"
TECHNIQUE = "exhaustive enumeration of equations x paths x routes x differentiating libraries on the real code; gradients by exact multilinear expansion of the defining sum as oracle"
BOUNDS = {
    "quick": "torch and autograd: all equations with 1 operand of rank <=3, 2 operands of rank <=3 (total <=4, two output orders) and 3 operands of total rank <=3, networks of 4 tensors with 1 index, every path, contract / expression / expression with each constant / sharing context, every subset of differentiated operands; "
    "the same operand passed twice; two calls of one expression differentiated together; tensorflow: 2 operands of total rank <=3; jax (traced by jit and differentiated): 2 operands of rank <=2 with total rank <=2, and three networks; all histories of length <=2 over 6 uses of an expression with constants inside and outside of jax.jit / tf.function (traced twice, eager, differentiated, numpy operands, pre-evaluated), each first use also in a new process",
    "thorough": "torch and autograd: 2 operands of total rank <=5, 3 operands of total rank <=4; tensorflow: 2 operands of total rank <=4, jax: <=3; histories of length <=3",
}
ASSUMPTIONS = ["constants of an expression are not differentiated", "for autograd no index is repeated within a term (its own einsum cannot differentiate that)"]


def prepare(tier):
    import autograd  # noqa: F401
    import torch

    torch.set_num_threads(1)


def oracle_grads(terms, out, raw, weight):
    """Gradient of sum(weight * result) with respect to every operand: the result is linear in each."""
    grads = []
    for k, x in enumerate(raw):
        # contract the others and the weight onto the operand's axes
        g = np.zeros(x.shape)
        for pos in np.ndindex(*x.shape):
            e = np.zeros(x.shape)
            e[pos] = 1.0
            g[pos] = (oracle.einsum(terms, out, [e if j == k else y for j, y in enumerate(raw)]) * weight).sum()
        grads.append(g)
    return grads


class Torch:
    name = "torch"

    def __init__(self):
        import torch

        self.t = torch

    def array(self, x):
        return self.t.tensor(np.asarray(x))

    def value_and_grads(self, fn, raw, weight, which):
        t = self.t
        xs = [t.tensor(np.asarray(x), requires_grad=k in which) for k, x in enumerate(raw)]
        r = fn(xs)
        if not r.requires_grad:
            raise Violation("the result is cut off from its operands")
        gs = t.autograd.grad((r * t.tensor(np.asarray(weight))).sum(), [xs[k] for k in which], allow_unused=True)
        return r.detach().numpy(), [None if g is None else g.numpy() for g in gs]


class Autograd:
    name = "autograd"

    def array(self, x):
        return x

    def value_and_grads(self, fn, raw, weight, which):
        import autograd
        import autograd.numpy as anp

        seen = []

        def f(vs):
            xs = list(raw)
            for k, v in zip(which, vs):
                xs[k] = v
            r = fn(xs)
            seen.append(r)
            return anp.sum(r * weight)

        gs = autograd.grad(f)(tuple(raw[k] for k in which))
        return np.asarray(getattr(seen[0], "_value", seen[0])), [np.asarray(g) for g in gs]


class Jax:
    name = "jax"

    def array(self, x):
        import jax.numpy as jnp

        return jnp.asarray(x)

    def value_and_grads(self, fn, raw, weight, which):
        import jax
        import jax.numpy as jnp

        def f(vs):
            xs = [jnp.asarray(x) for x in raw]
            for k, v in zip(which, vs):
                xs[k] = v
            r = fn(xs)
            return jnp.sum(r * weight), r

        (_, r), gs = jax.jit(jax.value_and_grad(f, has_aux=True))([jnp.asarray(raw[k]) for k in which])
        return np.asarray(r, dtype=float), [np.asarray(g, dtype=float) for g in gs]


class Tensorflow:
    name = "tensorflow"

    def array(self, x):
        import tensorflow as tf

        return tf.constant(x)

    def value_and_grads(self, fn, raw, weight, which):
        import tensorflow as tf

        xs = [tf.constant(x) for x in raw]
        with tf.GradientTape() as tape:
            tape.watch([xs[k] for k in which])
            r = fn(xs)
            s = tf.reduce_sum(r * weight)
        gs = tape.gradient(s, [xs[k] for k in which])
        return r.numpy(), [None if g is None else g.numpy() for g in gs]


LIBS = {c.name: c for c in (Torch, Autograd, Jax, Tensorflow)}


def compare(what, got, want, grads, ref, which):
    if not util.same(got, want):
        raise Violation(f"{what}: {util.show(got)}, should be {util.show(want)}")
    for k, g in zip(which, grads):
        if g is None:
            raise Violation(f"{what}: no gradient for operand {k}")
        if not util.same(g, ref[k]):
            raise Violation(f"{what}: gradient for operand {k} is {util.show(g)}, should be {util.show(ref[k])}")


def run(case, st):
    libname, terms, out, opts, full = case
    lib = LIBS[libname]()
    n = len(terms)
    raw = util.arrays(terms, util.sizes(enum.letters_of(terms), "mix") if n < 3 else {c: 2 for c in enum.letters_of(terms)})
    want = oracle.einsum(terms, out, raw)
    weight = util.data(want.shape, 77)
    ref = oracle_grads(terms, out, raw, weight)
    eq = util.eq(terms, out)
    shapes = [x.shape for x in raw]
    everything = list(range(n))
    subsets = [list(s) for k in range(1, n + 1) for s in itertools.combinations(everything, k)] if full else [everything]
    for opt in opts:
        if isinstance(opt, list):
            opt = [tuple(s) for s in opt]

        def direct(xs):
            return oe.contract(eq, *xs, optimize=opt)

        def sharing(xs):
            with oe.shared_intermediates():
                oe.contract(eq, *xs, optimize=opt)
                return oe.contract(eq, *xs, optimize=opt)

        def expression(xs):
            return oe.contract_expression(eq, *shapes, optimize=opt)(*xs)

        routes = [("contract", direct, w) for w in subsets] + [("sharing", sharing, everything)]
        if opt is not False:
            routes.append(("expression", expression, everything))
            if n > 1:
                for c in range(n):
                    ex = oe.contract_expression(eq, *[lib.array(raw[c]) if k == c else shapes[k] for k in range(n)], constants=[c], optimize=opt)
                    which = [k for k in range(n) if k != c]
                    for call in range(2):
                        routes.append((f"constant {c}, call {call + 1}", lambda xs, ex=ex, which=which: ex(*[xs[k] for k in which]), which))
        for name, fn, which in routes:
            st.states += 1
            st.traces += 1
            st.transitions += 1 + len(which)
            got, grads = lib.value_and_grads(fn, raw, weight, which)
            compare(f"{eq} optimize={opt} {libname} ({name}, differentiating {which})", got, want, grads, ref, which)


def run_twice(case, st):
    """One tensor as several operands, and one expression called twice in one differentiated computation."""
    import torch

    terms, out, opt = case
    n = len(terms)
    sd = {c: 2 for c in enum.letters_of(terms)}
    eq = util.eq(terms, out)
    raw = [util.data((2,) * len(terms[0]), 3)] * n
    want = oracle.einsum(terms, out, raw)
    weight = util.data(want.shape, 77)
    ref = sum(oracle_grads(terms, out, raw, weight))
    opt = [tuple(s) for s in opt] if isinstance(opt, list) else opt
    for shared in (False, True):
        x = torch.tensor(raw[0], requires_grad=True)
        w = torch.tensor(np.asarray(weight))
        if shared:
            with oe.shared_intermediates():
                r = oe.contract(eq, *[x] * n, optimize=opt)
        else:
            r = oe.contract(eq, *[x] * n, optimize=opt)
        (g,) = torch.autograd.grad((r * w).sum(), [x])
        st.states += 1
        st.traces += 1
        if not util.same(g.numpy(), ref):
            raise Violation(f"{eq} optimize={opt} with one tensor for all operands: gradient {util.show(g.numpy())}, should be {util.show(ref)}")
    ex = oe.contract_expression(eq, *[raw[0].shape] * n, optimize=opt)
    x = torch.tensor(raw[0], requires_grad=True)
    y = torch.tensor(raw[0] + 1, requires_grad=True)
    total = (ex(*[x] * n) * torch.tensor(np.asarray(weight))).sum() + 2 * (ex(*[y] * n) * torch.tensor(np.asarray(weight))).sum()
    gx, gy = torch.autograd.grad(total, [x, y])
    refy = 2 * sum(oracle_grads(terms, out, [raw[0] + 1] * n, weight))
    st.traces += 1
    st.transitions += 4
    if not util.same(gx.numpy(), ref) or not util.same(gy.numpy(), refy):
        raise Violation(f"{eq} optimize={opt}: two calls of one expression differentiated together are wrong")


# --- one expression used inside and outside of traced functions -----------------------------------------------------

HOPS = {"jax": ["jit", "other jit", "eager", "grad", "numpy", "evaluate"], "tensorflow": ["function", "other function", "eager", "tape", "numpy", "evaluate"]}


def run_history(case, st):
    """Every call of an expression gives its value, whatever function was being traced in earlier calls."""
    libname, terms, out, const, kind, hist = case
    lib = LIBS[libname]()
    n = len(terms)
    raw = [x.astype("float32") for x in util.arrays(terms, {c: 2 for c in enum.letters_of(terms)})]
    want = oracle.einsum(terms, out, raw)
    weight = util.data(want.shape, 77, dtype="float32")
    ref = oracle_grads(terms, out, raw, weight)
    var = [k for k in range(n) if k not in const]
    conv = lib.array if kind == "native" else np.asarray
    ex = oe.contract_expression(util.eq(terms, out), *[conv(raw[k]) if k in const else raw[k].shape for k in range(n)], constants=list(const))
    traced = {}
    for i, op in enumerate(hist):
        st.transitions += 1
        st.traces += 1
        what = f"{util.eq(terms, out)} constants={const} ({kind}) {libname} after {hist[: i + 1]}"
        xs = [lib.array(raw[k]) for k in var]
        try:
            if op == "evaluate":
                ex.evaluate_constants(backend=libname)
                continue
            if op == "numpy":
                got = ex(*[raw[k] for k in var], backend=libname)
            elif op == "eager":
                got = ex(*xs)
            elif op in ("jit", "other jit"):
                import jax

                f = traced.setdefault(op, jax.jit(lambda *a: ex(*a)))
                got = f(*xs)
            elif op in ("function", "other function"):
                import tensorflow as tf

                tf.get_logger().setLevel("ERROR")

                f = traced.setdefault(op, tf.function(lambda *a: ex(*a), autograph=False))
                got = f(*xs)
            else:
                got, grads = lib.value_and_grads(lambda ys: ex(*[ys[k] for k in var]), raw, weight, var)
                compare(what, got, want, grads, ref, var)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what}: {type(e).__name__}: {str(e)[:200]}")
        if not util.same(np.asarray(got), want):
            raise Violation(f"{what}: {util.show(got)}, should be {util.show(want)}")
    st.states += 1


FIRST = """
import sys
sys.path.insert(0, {verif!r})
import runpy
from mc import run
from mc.core import Stats
from mc.props import c30
try:
    c30.run_history({case!r}, Stats())
except c30.Violation as e:
    print("BROKEN", e)
else:
    print("HOLDS")
"""


def run_first(case, st):
    """As run_history in a new process: the first thing ever done with the library decides nothing."""
    code = FIRST.format(verif=core.VERIF, case=case)
    r = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, timeout=150)
    last = (r.stdout.strip().splitlines() or [""])[-1]
    st.states += 1
    st.transitions += len(case[-1])
    st.traces += 1
    if last.startswith("BROKEN"):
        raise Violation(f"in a new process: {last[7:]}")
    if last != "HOLDS":
        raise RuntimeError(f"no answer from the new process: {r.stderr[-300:]}")


def gen_history(libname, depth):
    def g():
        terms, out = BIG[0]
        for d in range(1, depth + 1):
            for const in ([0], [1, 2], [0, 2]) if d < 3 else ([1, 2],):
                for kind in ("native", "numpy") if d < 3 else ("native",):
                    for hist in itertools.product(HOPS[libname], repeat=d):
                        yield [libname, terms, out, list(const), kind, list(hist)]
    return g


def gen_first():
    terms, out = BIG[0]
    for libname, ops in HOPS.items():
        for op in ops:
            if op.startswith("other"):
                continue
            yield [libname, terms, out, [1, 2], "native", [op] + ops]


def gen(libname, n, rank, total, full, paths=True, nets=None):
    def g():
        opts = (["auto", False] if n > 1 else ["auto"]) + ([[list(s) for s in p] for p in oracle.all_paths(n)] if paths and n > 1 else [])
        if nets is None:
            for terms, out in enum.equations(n, rank, outs=enum.some_orders if n < 3 else enum.subsets, max_total=total):
                if libname != "autograd" or all(len(set(t)) == len(t) for t in terms):
                    yield [libname, terms, out, opts, full]
        else:
            for terms in enum.networks(n, nets):
                for out in enum.subsets(enum.letters_of(terms)):
                    yield [libname, terms, out, opts, full]
    return g


def gen_twice():
    for n in (2, 3):
        paths = [[list(s) for s in p] for p in oracle.all_paths(n)]
        for terms, out in enum.equations(n, 2, outs=enum.subsets):
            if len({len(t) for t in terms}) == 1 and len(enum.letters_of(terms)) < 5:
                for p in ["auto"] + paths:
                    yield [terms, out, p]


BIG = [(["ab", "bc", "cd"], "ad"), (["ab", "ac", "bcd", "d"], ""), (["abc", "bd", "dc", "a"], "b")]


def gen_big(libname):
    def g():
        for terms, out in BIG:
            yield [libname, terms, out, ["auto", "greedy", False], False]
    return g


def spaces(tier):
    q = tier == "quick"
    s = []
    for lib in ("torch", "autograd"):
        s += [
            (f"{lib}-1", gen(lib, 1, 3, None, True), run),
            (f"{lib}-2", gen(lib, 2, 3, 4 if q else 5, True), run),
            (f"{lib}-3", gen(lib, 3, 3, 3 if q else 4, lib == "torch"), run),
            (f"{lib}-4", gen(lib, 4, 0, 0, False, nets=1), run),
            (f"{lib}-big", gen_big(lib), run),
        ]
    s.append(("twice", gen_twice, run_twice))
    s += [
        ("tensorflow-2", gen("tensorflow", 2, 2, 3 if q else 4, False, paths=False), run),
        ("tensorflow-big", gen_big("tensorflow"), run),
        ("jax-2", gen("jax", 2, 2, 2 if q else 3, False, paths=False), run),
        ("jax-big", gen_big("jax"), run),
        ("jax-histories", gen_history("jax", 2 if q else 3), run_history),
        ("tensorflow-histories", gen_history("tensorflow", 2 if q else 3), run_history),
        ("first-use", gen_first, run_first),
    ]
    return s
