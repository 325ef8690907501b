"""C10: contractions stay on the caller's array library and need only tensordot."""

import itertools

import numpy as np

import opt_einsum as oe

from mc import enum, fakelib, oracle, util
from mc.core import Violation

ID = "C10"
TECHNIQUE = "exhaustive enumeration of equations x paths on the real code over instrumented array libraries (every subset of provided functions), plus the installed libraries"
BOUNDS = {
    "quick": "instrumented libraries with every relevant subset of {tensordot, transpose, einsum}; all equations with 1-2 operands of rank <=2 and 3 operands of total rank <=4, "
    "all ordered outputs, every pairwise path and optimize=False; 'each index twice' networks of 2-5 tensors with <=4 indices; explicit backend overrides; expressions with all constant subsets; "
    "torch, dask, sparse, autograd, jax, tensorflow on all equations with 1-2 operands of rank <=2 (jax, tensorflow, dask: sets of representatives), all of these representatives in four other alphabets; ten families of 8-60 tensors with up to 180 labels",
    "thorough": "2 operands of rank <=3, 3 operands of total rank <=5, 'each index twice' networks with <=5 indices",
}
ASSUMPTIONS = ["the einsum-free guarantee is for pairwise paths of two or more operands without broadcast dimensions"]


def libs():
    return {
        "full": fakelib.make("mcfull"),
        "nomethod": fakelib.make("mcnometh", method_transpose=False),
        "method": fakelib.make("mcmeth", funcs=("tensordot", "einsum")),
        "noeinsum": fakelib.make("mcnoein", funcs=("tensordot", "transpose"), method_transpose=False),
        "noeinsum-method": fakelib.make("mcnoeinm", funcs=("tensordot",)),
        "einsumonly": fakelib.make("mceinonly", funcs=("einsum",), convertible=True),
        "nothing": fakelib.make("mcnothing", funcs=(), convertible=True),
    }


def prepare(tier):
    libs()
    import torch  # noqa: F401

    torch.set_num_threads(1)


def twice(terms, out):
    """Every index appears exactly twice, counting the output, on distinct operands."""
    if any(len(set(t)) != len(t) for t in terms):
        return False
    s = "".join(terms) + out
    return all(s.count(c) == 2 for c in set(s))


def judge(st, what, call, cls, want, need_einsum_ok, foreign_ok=False):
    fakelib.reset()
    st.transitions += 1
    try:
        got = call()
    except AttributeError as e:
        if need_einsum_ok:
            st.count("needs einsum")
            return
        raise Violation(f"{what}: {type(e).__name__}: {e}")
    except fakelib.ForeignUse as e:
        raise Violation(f"{what}: {e}")
    st.traces += 1
    if not isinstance(got, cls):
        raise Violation(f"{what}: result is a {type(got).__module__}.{type(got).__name__}, expected {cls.lib}.Array")
    if not util.same(got._a, want):
        raise Violation(f"{what}: got {util.show(got._a)}, want {util.show(want)}")
    for lib, op, args in fakelib.LOG:
        st.count("ops " + op)
        if lib != cls.lib:
            raise Violation(f"{what}: called {lib}.{op}{args}")


def pairwise(n):
    for p in oracle.all_paths(n):
        if all(len(s) == 2 for s in p):
            yield p


def run(case, st):
    terms, out, pattern, ones = case
    letters = enum.letters_of(terms)
    sd = util.sizes(letters, pattern)
    raw = util.arrays(terms, sd, ones={tuple(x) for x in ones})
    want = oracle.einsum(terms, out, raw)
    eq = util.eq(terms, out)
    n = len(terms)
    st.states += 1
    L = libs()
    t2 = twice(terms, out) and n >= 2 and not ones
    opts = list(pairwise(n)) if n > 1 else ["auto"]
    for name in ("full", "nomethod", "method", "noeinsum", "noeinsum-method"):
        cls = L[name]
        ops = [cls(x) for x in raw]
        may_need = name.startswith("noeinsum") and not t2
        for opt in opts + ["auto", "greedy", False]:
            need = may_need or (opt is False and name.startswith("noeinsum"))
            judge(st, f"{name}: contract({eq!r}, optimize={opt})", lambda: oe.contract(eq, *ops, optimize=opt), cls, want, need)
        if not name.startswith("noeinsum"):
            judge(st, f"{name}: contract({eq!r}, use_blas=False)", lambda: oe.contract(eq, *ops, use_blas=False), cls, want, False)
            if n > 2:
                judge(st, f"{name}: contract({eq!r}, one step)", lambda: oe.contract(eq, *ops, optimize=[tuple(range(n))]), cls, want, False)
        shapes = [x.shape for x in raw]
        judge(st, f"{name}: expression({eq!r})", lambda: oe.contract_expression(eq, *shapes)(*ops), cls, want, may_need)
        for consts in util.powerset(range(n), 2):
            if len(consts) < n and consts:
                args = [ops[k] if k in consts else shapes[k] for k in range(n)]
                judge(st, f"{name}: expression({eq!r}, constants={consts})",
                      lambda: oe.contract_expression(eq, *args, constants=list(consts))(*[ops[k] for k in range(n) if k not in consts]), cls, want, may_need)

        def shared():
            with oe.shared_intermediates():
                oe.contract(eq, *ops)
                return oe.contract(eq, *ops)

        judge(st, f"{name}: shared contract({eq!r})", shared, cls, want, may_need)
    # libraries without tensordot: handled as numpy arrays
    for name in ("einsumonly", "nothing"):
        ops = [L[name](x) for x in raw]
        for opt in ("auto", False):
            fakelib.reset()
            got = oe.contract(eq, *ops, optimize=opt)
            st.transitions += 1
            st.traces += 1
            if isinstance(got, L[name]) or not util.same(got, want):
                raise Violation(f"library without tensordot: contract({eq!r}, optimize={opt}) gives {got!r}")
            if any(op == "einsum" for _, op, _ in fakelib.LOG):
                raise Violation(f"library without tensordot: contract({eq!r}, optimize={opt}) mixes in its einsum")
    # explicit backend overrides inference
    for name, data in (("full", raw), ("noeinsum", raw), ("full", [L["nomethod"](x) for x in raw] if False else raw)):
        cls = L[name]
        for opt in ("auto", False):
            fakelib.reset()
            try:
                got = oe.contract(eq, *data, backend=cls.lib, optimize=opt)
            except AttributeError:
                if name == "full" or (t2 and opt is not False):
                    raise Violation(f"backend={cls.lib}: contract({eq!r}, optimize={opt}) failed")
                continue
            st.traces += 1
            if not util.same(got, want):
                raise Violation(f"backend={cls.lib}: contract({eq!r}, optimize={opt}) gives {util.show(got)}, want {util.show(want)}")
            if not fakelib.LOG:
                raise Violation(f"backend={cls.lib}: contract({eq!r}, optimize={opt}) did not use that library")
            ex_ops = fakelib.LOG[:]
            if any(l != cls.lib for l, _, _ in ex_ops):
                raise Violation(f"backend={cls.lib}: contract({eq!r}) used {ex_ops}")
    # operands of several libraries: the first one decides
    for k in range(n):
        for first in ("full", "nomethod"):
            cls = L[first]
            # n.b. these libraries also take numpy arrays
            ops = [cls(x) if j <= k else x for j, x in enumerate(raw)]
            for what, call in (
                ("contract", lambda: oe.contract(eq, *ops)),
                ("contract unoptimized", lambda: oe.contract(eq, *ops, optimize=False)),
                ("expression", lambda: oe.contract_expression(eq, *[x.shape for x in raw])(*ops)),
            ):
                judge(st, f"{first} for the first {k + 1} operands, numpy for the others: {what}({eq!r})", call, cls, want, False)
    fakelib.reset()
    ex = oe.contract_expression(eq, *[x.shape for x in raw])
    got = ex(*raw, backend="mcfull")
    st.traces += 1
    if not util.same(got, want) or not fakelib.LOG:
        raise Violation(f"expression({eq!r}) called with backend=mcfull: {util.show(got)}, operations {fakelib.LOG}")
    # the numpy backend forced on an array-like
    got = oe.contract(eq, *[L["nothing"](x) for x in raw], backend="numpy")
    if not isinstance(got, (np.ndarray, np.generic)) or not util.same(got, want):
        raise Violation(f"backend='numpy' on array-likes of {eq!r} gives {got!r}")


def run_twice(case, st):
    """Only tensordot (and transposition) is available and must suffice, for every pairwise path."""
    terms, out, paths = case
    sd = util.sizes(enum.letters_of(terms), "mix")
    raw = util.arrays(terms, sd)
    want = oracle.einsum(terms, out, raw)
    eq = util.eq(terms, out)
    st.states += 1
    L = libs()
    for name in ("noeinsum", "noeinsum-method"):
        cls = L[name]
        ops = [cls(x) for x in raw]
        for opt in (list(pairwise(len(terms))) if paths else []) + ["optimal", "greedy", "dp", "branch-all", "auto", "auto-hq"]:
            judge(st, f"{name}: contract({eq!r}, optimize={opt})", lambda: oe.contract(eq, *ops, optimize=opt), cls, want, False)
        judge(st, f"{name}: expression({eq!r})", lambda: oe.contract_expression(eq, *[x.shape for x in raw])(*ops), cls, want, False)


def gen_twice(nmax, m):
    def gen():
        for n in range(2, nmax + 1):
            for k in range(m + 1):
                # each index: a pair of tensors, or one tensor and the output
                slots = list(itertools.combinations(range(n), 2)) + [(t,) for t in range(n)]
                for combo in itertools.combinations_with_replacement(slots, k):
                    terms, out = [""] * n, ""
                    for c, s in zip(enum.LETTERS, combo):
                        for t in s:
                            terms[t] = c + terms[t] if t % 2 else terms[t] + c
                        if len(s) == 1:
                            out = c + out
                    yield [terms, out, n <= 4]
    return gen


# --- installed libraries -----------------------------------------------------------------------------------


def real(lib):
    if lib == "torch":
        import torch

        return lambda x: torch.tensor(x, dtype=torch.float64), torch.Tensor, lambda r: r.numpy()
    if lib == "dask":
        import dask.array as da

        return lambda x: da.from_array(x, chunks=x.shape), da.Array, lambda r: r.compute(scheduler="synchronous")
    if lib == "sparse":
        import sparse

        return lambda x: sparse.COO.from_numpy(np.asarray(x)), sparse.SparseArray, lambda r: r.todense()
    if lib == "jax":
        import jax.numpy as jnp
        import jax

        return jnp.asarray, jax.Array, np.asarray
    if lib == "tensorflow":
        import tensorflow as tf

        return tf.convert_to_tensor, tf.Tensor, lambda r: r.numpy()
    if lib == "autograd":
        import autograd.numpy as anp

        return anp.array, (np.ndarray, np.generic), np.asarray
    raise KeyError(lib)


def run_real(case, st):
    lib, terms, out, opt, ones = case
    conv, cls, back = real(lib)
    sd = util.sizes(enum.letters_of(terms), "mix")
    raw = util.arrays(terms, sd, ones={tuple(x) for x in ones})
    want = oracle.einsum(terms, out, raw)
    eq = util.eq(terms, out)
    st.states += 1
    ops = [conv(x) for x in raw]

    def ok(what, got, native=True):
        st.traces += 1
        st.transitions += 1
        if native and not isinstance(got, cls) and not (lib == "sparse" and np.ndim(got) == 0):
            raise Violation(f"{lib} {what}: result is a {type(got)}")
        val = back(got) if native and isinstance(got, cls) else np.asarray(got)
        if np.shape(val) != want.shape or not np.array_equal(np.asarray(val, dtype=float), want):
            raise Violation(f"{lib} {what}: got {util.show(val)}, want {util.show(want)}")

    ok(f"contract({eq!r}, optimize={opt})", oe.contract(eq, *ops, optimize=opt))
    if opt == "auto":
        ex = oe.contract_expression(eq, *[x.shape for x in raw])
        ok(f"expression({eq!r})", ex(*ops))
        if lib in ("torch", "jax", "tensorflow"):
            got = ex(*raw, backend=lib)
            if not isinstance(got, (np.ndarray, np.generic)):
                raise Violation(f"{lib} expression({eq!r}) of numpy arrays returned a {type(got)}")
            ok(f"converting expression({eq!r})", got, native=False)
        if lib == "torch":
            ok(f"contract({eq!r}, use_blas=False)", oe.contract(eq, *ops, use_blas=False))
            with oe.shared_intermediates():
                oe.contract(eq, *ops)
                ok(f"shared contract({eq!r})", oe.contract(eq, *ops))


HEAVY = [
    (["ab", "bc", "cd"], "ad"), (["ab", "bc"], "ca"), (["a", "b"], "ba"), (["ab", "ab"], "ab"), (["abc", "bd"], "acd"), (["aab", "b"], "a"),
    (["ab"], "ba"), (["ab"], ""), (["", "a"], "a"), (["abc", "cab"], ""), (["ab", "cb", "db"], "acd"), (["ab", "bc", "ca"], ""), (["a", "a", "a"], "a"),
    (["abcd", "dc"], "ba"), (["abb", "c"], "ca"), (["ea", "fb", "abcd", "gc", "hd"], "hgfe"),
]


def gen_real(q):
    def gen():
        for terms, out in enum.equations(2, 2):
            yield ["torch", terms, out, "auto", []]
        for terms, out in enum.equations(1, 3):
            yield ["torch", terms, out, "auto", []]
        for terms, out in enum.equations(3, 2, max_total=4, outs=enum.some_orders):
            for opt in ("auto", False):
                yield ["torch", terms, out, opt, []]
        for terms, out in enum.equations(2, 2, outs=enum.subsets, repeats=False):
            for k, t in enumerate(terms):
                for ax in range(len(t)):
                    yield ["torch", terms, out, "auto", [[k, ax]]]
        for lib in ("dask", "sparse", "autograd", "jax", "tensorflow"):
            for terms, out in HEAVY:
                if lib == "sparse" and (len(terms) == 1 or "" in terms or any(len(set(t)) != len(t) for t in terms)):
                    continue
                for opt in ("auto",) if q else ("auto", "greedy", False):
                    yield [lib, terms, out, opt, []]
    return gen


def run_family(case, st):
    lib, n, name = case
    ((terms, out),) = [(t, o) for nm, t, o in enum.structured(n) if nm == name]
    letters = [c for c in enum._symbols() if c in set("".join(terms))]
    sd = {c: 2 if k % 5 == 0 else 1 for k, c in enumerate(letters)}
    raw = [1.0 + (util.data(tuple(sd[c] for c in t), k) > 0) for k, t in enumerate(terms)]
    want = util.fold_einsum(terms, out, raw)
    eq = util.eq(terms, out)
    st.states += 1
    for opt in ("auto", "greedy"):
        if lib == "torch":
            conv, cls, back = real(lib)
        else:
            cls = libs()[lib]
            conv, back = cls, lambda r: r._a
        ops = [conv(x) for x in raw]
        ex = oe.contract_expression(eq, *[x.shape for x in raw], optimize=opt)
        half = list(range(0, n, 2))
        exc = oe.contract_expression(eq, *[x if k % 2 == 0 else x.shape for k, x in enumerate(ops)], constants=half, optimize=opt)
        for what, call in (("contract", lambda: oe.contract(eq, *ops, optimize=opt)), ("expression", lambda: ex(*ops)), ("constants", lambda: exc(*ops[1::2]))):
            st.transitions += 1
            st.traces += 1
            got = call()
            if not isinstance(got, cls) or not np.array_equal(np.asarray(back(got), dtype=float), want):
                raise Violation(f"{lib} {name} of {n} tensors, optimize={opt} ({what}): {got!r:.200}, want {util.show(want)}")


def gen_family():
    for lib in ("torch", "full", "nomethod"):
        for n in (8, 20, 30, 60):
            for name, _, _ in enum.structured(n):
                if not (name == "star" and n > 20):
                    yield [lib, n, name]


def gen_heavy(installed):
    """The representatives (to be written in other alphabets)."""
    def gen():
        for terms, out in HEAVY:
            if not installed:
                if len(terms) < 5:
                    yield [terms, out, "mix", []]
                continue
            for lib in ("torch", "dask", "sparse", "autograd", "jax", "tensorflow"):
                if lib == "sparse" and (len(terms) == 1 or "" in terms or any(len(set(t)) != len(t) for t in terms)):
                    continue
                yield [lib, terms, out, "auto", []]
    return gen


def gen_eq(n, r, patterns, outs=enum.ordered_subsets, **kw):
    def gen():
        for terms, out in enum.equations(n, r, outs=outs, **kw):
            for p in patterns:
                yield [terms, out, p, []]
    return gen


def gen_bc():
    for terms, out in enum.equations(2, 2, outs=enum.subsets):
        for k, t in enumerate(terms):
            for ax in range(len(t)):
                if sum(c == t[ax] for c in t) == 1:
                    yield [terms, out, "mix", [[k, ax]]]


def spaces(tier):
    q = tier == "quick"
    return [
        ("one-operand", gen_eq(1, 3, ("mix", "zero")), run),
        ("two-operands", gen_eq(2, 2 if q else 3, ("mix",)), run),
        ("two-operands-sizes", gen_eq(2, 2, ("zlast", "first1")), run),
        ("large-extents", gen_eq(2, 2, ("wide:0", "wide:1", "wide:01", "wide:2")), run),
        ("three-operands", gen_eq(3, 2, ("mix",), max_total=4 if q else 5, outs=enum.some_orders), run),
        ("broadcast", gen_bc, run),
        ("each-index-twice", gen_twice(4 if q else 5, 4), run_twice),
        ("installed", gen_real(q), run_real),
        ("families", gen_family, run_family),
        ("labels", enum.relabel(gen_heavy(False)), run),
        ("installed-labels", enum.relabel(gen_heavy(True), at=1), run_real),
    ]
