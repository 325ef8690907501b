"""C27: intermediates are released once consumed, and nothing is retained after a contraction."""

import gc
import itertools
import weakref

import numpy as np

import opt_einsum as oe

from mc import enum, oracle, tracelib, util
from mc.core import Violation

ID = "C27"
TECHNIQUE = "exhaustive enumeration of equations x paths x routes x fault points and of call histories; the reachability of every array (weak references) is monitored at every operation of the real code"
BOUNDS = {
    "quick": "at every operation of every contraction of: all equations with 2 operands of rank <=3 (total <=5), 3 operands of total rank <=4, networks of 4 tensors with <=2 and 5 tensors with 1 index, all paths with steps of any arity, BLAS on/off, "
    "contract and expressions, and a fault at each operation; all histories of length <=3 over 10 operations (call, call with a RuntimeError at the 1st/2nd/3rd or a ValueError at the 1st/2nd operation, pre-evaluation, call in a sharing context, nested contexts, fault in a context) on expressions with every proper subset of constants; "
    "conversion of numpy operands to torch, jax and tensorflow: all histories of two calls, every constant subset",
    "thorough": "3 operands of total rank <=5, 4 tensors with <=3 indices, 5 tensors with <=2 indices, histories of length <=4",
}
ASSUMPTIONS = ["an array counts as released when no reference to it remains after a garbage collection; the operands of the step that is running may be alive"]
LIB = "mctrace"


def prepare(tier):
    tracelib.make(LIB)
    import torch

    torch.set_num_threads(1)


def held():
    """Arrays made by operations which are still referenced, after a collection if there is any doubt."""
    return [(g, x) for g, x in tracelib.alive()]


class Monitor:
    """At every operation: whatever an earlier operation consumed must be gone."""

    def __init__(self, keep=()):
        self.consumed = {}  # (group, weak reference, number of the step)
        self.keep = keep
        self.ops = 0
        self.bad = None

    def __call__(self, fn, xs):
        self.ops += 1
        # an operation on one array belongs to the step that made it, whose operands may still be there
        step = len(tracelib.OPS) + (len(xs) > 1)
        for again in (False, True):
            left = [g for g, r, s in self.consumed.values() if s < step and r() is not None and not any(r() is x for x in xs)]
            if not left:
                break
            gc.collect()
        if left and self.bad is None:
            self.bad = f"at operation {self.ops} ({fn} on {[sorted(x.group) for x in xs]}) the already used intermediates {sorted(sorted(g) for g in left)} are still referenced"
        for x in xs:
            if any(r() is x for _, r in tracelib.ALIVE.values()) and not any(x.group == g for g in self.keep):
                self.consumed[id(x), len(self.consumed)] = (x.group, weakref.ref(x), step)


def none_left(what, keep=()):
    left = [g for g, x in held() if not any(x is k for k in keep)]
    if left:
        gc.collect()
        left = [g for g, x in held() if not any(x is k for k in keep)]
    if left:
        raise Violation(f"{what}: intermediates {sorted(sorted(g) for g in left)} are still referenced")


def run_steps(case, st):
    terms, out, opts = case
    n = len(terms)
    raw = util.arrays(terms, util.sizes(enum.letters_of(terms), "mix"))
    want = oracle.einsum(terms, out, raw)
    eq = util.eq(terms, out)
    cls = tracelib.make(LIB)
    ops = [cls(x, frozenset([k])) for k, x in enumerate(raw)]
    for opt, kw in opts:
        path = [tuple(s) for s in opt] if isinstance(opt, list) else opt
        ex = oe.contract_expression(eq, *[x.shape for x in raw], optimize=path, **kw)

        def once(route):
            if route == "contract":
                return oe.contract(eq, *ops, optimize=path, **kw)
            return ex(*ops)

        for route in ("contract", "expr"):
            what = f"{eq} optimize={path} {kw} ({route})"
            mon = Monitor()
            tracelib.reset(hook=mon)
            got = once(route)
            total = mon.ops
            st.transitions += total
            st.traces += 1
            st.states += 1
            if mon.bad:
                raise Violation(f"{what}: {mon.bad}")
            if not util.same(got._a, want):
                raise Violation(f"{what}: wrong value")
            none_left(what + " after the call", [got])
            del got
            none_left(what + " after dropping the result")
            for f, kind in itertools.product(range(1, total + 1), tracelib.FAULTS):
                tracelib.reset(fault=f, kind=kind)
                try:
                    once(route)
                    raise Violation(f"{what}: the fault at operation {f} was swallowed")
                except tracelib.FAULTS:
                    pass
                st.traces += 1
                st.transitions += f
                none_left(f"{what} after a {kind.__bases__[0].__name__} at operation {f}")
    tracelib.reset()


def gen_eqs(n, rank, total):
    def g():
        opts = options(n)
        for terms, out in enum.equations(n, rank, outs=enum.some_orders if n < 3 else enum.subsets, max_total=total):
            yield [terms, out, opts]
    return g


def gen_nets(n, inds):
    def g():
        opts = options(n)
        for terms in enum.networks(n, inds):
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out, opts]
    return g


def options(n):
    o = [["auto", {}], ["greedy", {"memory_limit": 3}]]
    for p in oracle.all_paths(n):
        p = [list(s) for s in p]
        o += [[p, {}]] + ([[p, {"use_blas": False}]] if n < 4 else [])
    return o


# --- histories on expressions ------------------------------------------------------------------------------------

OPS = ["call", "f1", "f2", "f3", "v1", "v2", "ev", "share", "nest", "fshare"]
NETS = [(["ab", "bc", "cd"], "ad"), (["ab", "ba", "b"], "a"), (["ab", "bc", "c", "ad"], "d"), (["a", "a"], ""), (["aab", "bcc", "b"], "")]


def run_history(case, st):
    terms, out, const, opt, hist = case
    n = len(terms)
    raw = util.arrays(terms, util.sizes(enum.letters_of(terms), "mix"))
    want = oracle.einsum(terms, out, raw)
    cls = tracelib.make(LIB)
    consts = {k: cls(raw[k], frozenset([k])) for k in const}
    ex = oe.contract_expression(util.eq(terms, out), *[consts.get(k, raw[k].shape) for k in range(n)], constants=list(const), optimize=opt)
    tracelib.reset()
    inputs = []  # weak references to everything that was ever passed in

    def call(**kw):
        args = [cls(raw[k], frozenset([k])) for k in range(n) if k not in const]
        inputs.extend(weakref.ref(a) for a in args)
        return ex(*args, **kw)

    def good():
        got = call()
        if not util.same(got._a, want):
            raise Violation(f"{case}: wrong value")

    def fault(f, kind):
        tracelib.FAULT[0] = f
        tracelib.KIND[0] = kind
        try:
            call()
        except tracelib.FAULTS:
            st.count("faults delivered")
        finally:
            tracelib.FAULT[0] = None

    for i, op in enumerate(hist):
        if op == "call":
            good()
        elif op[1:].isdigit():
            fault(int(op[1:]), tracelib.FAULTS["fv".index(op[0])])
        elif op == "ev":
            if const:
                ex.evaluate_constants(backend=LIB)
        elif op == "share":
            with oe.shared_intermediates():
                good()
                good()
        elif op == "nest":
            with oe.shared_intermediates():
                good()
                with oe.shared_intermediates():
                    good()
                good()
        elif op == "fshare":
            try:
                with oe.shared_intermediates():
                    good()
                    tracelib.FAULT[0] = 1
                    call()
            except tracelib.FAULTS:
                pass
            tracelib.FAULT[0] = None
        st.transitions += 1
        st.traces += 1
        what = f"{util.eq(terms, out)} constants={const} optimize={opt} after {hist[: i + 1]}"
        for _ in range(2):
            kept = [g for g, _ in held()]
            extra = [g for g in kept if not g <= set(const)]
            twice = [g for a, g in enumerate(kept) for h in kept[:a] if g & h]
            args = sum(r() is not None for r in inputs)
            if not (extra or twice or args):
                break
            gc.collect()
        else:
            if args:
                raise Violation(f"{what}: {args} of the arrays passed in are still referenced")
            if extra:
                raise Violation(f"{what}: intermediates {[sorted(g) for g in extra]} are still referenced")
            raise Violation(f"{what}: more than the evaluated constants is referenced: {[sorted(g) for g in kept]}")
    st.states += 1
    # dropping the expression drops everything
    refs = [weakref.ref(c) for c in consts.values()]
    del ex, consts, call, good, fault
    gc.collect() if any(r() is not None for r in refs) else None
    if any(r() is not None for r in refs):
        raise Violation(f"{util.eq(terms, out)} constants={const}: constants outlive the expression after {hist}")
    none_left(f"{util.eq(terms, out)} constants={const} after dropping the expression")


def gen_history(depth):
    def g():
        for terms, out in NETS:
            n = len(terms)
            for const in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n)):
                for opt in ("auto", "greedy", "branch-1") if n > 2 else ("auto",):
                    for d in range(1, depth + 1):
                        for hist in itertools.product(OPS, repeat=d):
                            if not const and "ev" in hist:
                                continue
                            yield [terms, out, list(const), opt, list(hist)]
    return g


# --- conversion of numpy operands to other libraries --------------------------------------------------------------


def run_convert(case, st):
    be, terms, out, const, sharing = case
    n = len(terms)
    raw = util.arrays(terms, util.sizes(enum.letters_of(terms), "mix"))
    want = oracle.einsum(terms, out, raw)
    consts = {k: raw[k].copy() for k in const}
    ex = oe.contract_expression(util.eq(terms, out), *[consts.get(k, raw[k].shape) for k in range(n)], constants=list(const))
    for i, shared in enumerate(sharing):
        args = [raw[k].copy() for k in range(n) if k not in const]
        refs = [weakref.ref(a) for a in args]
        if shared:
            with oe.shared_intermediates():
                got = ex(*args, backend=be)
        else:
            got = ex(*args, backend=be)
        st.transitions += 1
        st.traces += 1
        if not util.same(np.asarray(got), want):
            raise Violation(f"{case}: wrong value in call {i + 1}")
        del args
        del got
        for _ in range(40):
            left = [k for k, r in enumerate(refs) if r() is not None]
            if not left:
                break
            gc.collect()
            import time

            time.sleep(0.05)
        if left:
            raise Violation(f"{util.eq(terms, out)} constants={const} backend={be}: the numpy arrays {left} of call {i + 1} are still referenced")
    st.states += 1


def gen_convert(libs):
    def g():
        for be in libs:
            for terms, out in NETS if be == "torch" else NETS[:2]:
                n = len(terms)
                for const in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n)):
                    for sharing in itertools.product([0, 1], repeat=2):
                        yield [be, terms, out, list(const), list(sharing)]
    return g


def spaces(tier):
    q = tier == "quick"
    return [
        ("two", gen_eqs(2, 3, 5 if q else 6), run_steps),
        ("three", gen_eqs(3, 3, 4 if q else 5), run_steps),
        ("four-nets", gen_nets(4, 2 if q else 3), run_steps),
        ("five-nets", gen_nets(5, 1 if q else 2), run_steps),
        ("histories", gen_history(3 if q else 4), run_history),
        ("convert", gen_convert(["torch", "jax", "tensorflow"]), run_convert),
    ]
