"""C13: sharing intermediates never changes a result."""

import gc
import itertools

import numpy as np

import opt_einsum as oe

from mc import enum, fakelib, oracle, util
from mc.core import Violation

ID = "C13"
TECHNIQUE = "exhaustive exploration of all operation histories up to a depth inside real sharing contexts (arrays freed and re-allocated at the same address, faults injected at every backend operation); stateless Einstein-sum reference as oracle, operation log of an instrumented array library for the no-recomputation part"
BOUNDS = {
    "quick": "all histories of length <=4 over 15 core operations and length <=3 over 40 (length <=3 over 11 with jax and tensorflow conversions) (contractions by tensordot/einsum/transposition/custom paths, BLAS off, no optimization, out and dtype options, renamed letters, "
    "expressions with constants, conversion to torch, re-allocation of any operand, leaving/re-entering the context); for 5 rank patterns one history containing every equation of two or three "
    "operands x operand choice x BLAS (x all terms at once, for three) x renaming, in both orders (covers all pairs); every equation of <=3 operands (total rank <=5) x every path repeated: no operation is redone; all length <=3 histories of an instrumented library with "
    "a fault at every operation; repeated contractions of 2-3 operands (total rank <=3) in four other alphabets",
    "thorough": "length <=5 over the core operations, <=4 over all, faults in length <=4 histories",
}
ASSUMPTIONS = ["arrays that took part in a contraction of the context are not modified in place while it is active"]


def prepare(tier):
    import torch

    torch.set_num_threads(1)
    import jax  # noqa: F401
    import tensorflow  # noqa: F401

    fakelib.make("mcfull")
    fakelib.make("mcnoein", funcs=("tensordot", "transpose"))


class World:
    """Slots hold 2x2 (v: 2) arrays; every allocation has new values, reusing the old address if the library lets go of it."""

    def __init__(self, wrap=None):
        self.salt = 0
        self.wrap = wrap
        self.slots = {}
        self.vals = {}
        self.recycled = 0
        for s in "XYZv":
            self.alloc(s)
        self.exprs = {}

    def alloc(self, s):
        self.salt += 1
        shape = (2,) if s == "v" else (2, 2)
        val = util.data(shape, self.salt)
        old = id(self.slots[s]) if s in self.slots else None
        self.slots.pop(s, None)
        keep = []
        for _ in range(4):
            a = self.wrap(val.copy()) if self.wrap else val.copy()
            if old is None or id(a) == old:
                break
            keep.append(a)
        if old is not None and id(a) == old:
            self.recycled += 1
        self.slots[s] = a
        self.vals[s] = val

    def get(self, names):
        return [self.slots[s] for s in names], [self.vals[s] for s in names]


# name: (equation, slots, keyword arguments of contract)
MENU = {
    "dot": ("ab,bc->ac", "XY", {}),
    "dotT": ("ab,bc->ca", "XY", {}),
    "dotS": ("ab,bc->ac", "YX", {}),
    "dotN": ("éß,ßz->éz", "XY", {}),
    "dotE": ("ab,bc->ac", "XY", {"use_blas": False}),
    "dotF": ("ab,bc->ac", "XY", {"optimize": False}),
    "had": ("ab,ab->ab", "XY", {}),
    "hadT": ("ab,ab->ba", "XY", {}),
    "hadX": ("ab,ba->ab", "XY", {}),
    "hadY": ("ab,ba->ab", "YX", {}),
    "self": ("ab,ba->", "XX", {}),
    "selfh": ("ab,ab->a", "XX", {}),
    "T": ("ab->ba", "X", {}),
    "tr": ("aa->", "X", {}),
    "diag": ("aa->a", "Y", {}),
    "ch01": ("ab,bc,cd->ad", "XYZ", {"optimize": [(0, 1), (0, 1)]}),
    "ch12": ("ab,bc,cd->ad", "XYZ", {"optimize": [(1, 2), (0, 1)]}),
    "ch3": ("ab,bc,cd->ad", "XYZ", {"optimize": [(0, 1, 2)]}),
    "chXX": ("ab,bc,cd->da", "XXY", {"optimize": [(0, 2), (0, 1)]}),
    "outer": ("ab,c->abc", "Xv", {}),
    "mv": ("ab,b->a", "Xv", {}),
    "vv": ("a,b->ab", "vv", {}),
    "mixed": ("ab,bc,b->ac", "XYv", {}),
    "torch": ("ab,bc,ab->c", "XYZ", {"expr": "torch"}),
    "torchd": ("ab,bc->ac", "XY", {"expr": "torch"}),
    "expr": ("ab,bc,cd->ad", "XYZ", {"expr": None}),
    "exprc": ("ab,bc,cd->ad", "XYZ", {"expr": None, "const": [1]}),
    "exprcc": ("ab,bc,ac->ac", "XYZ", {"expr": None, "const": [0, 1]}),
    "exprt": ("ab,bc,cd->ad", "XYZ", {"expr": "torch", "const": [0, 1]}),
    "dot-out": ("ab,bc->ac", "XY", {"out": True}),
    "had-out": ("ab,ab->ab", "XY", {"out": True}),
    "dot-int": ("ab,bc->ac", "XY", {"dtype": "complex128"}),
    "had-int": ("ab,ab->ab", "XY", {"dtype": "complex128"}),
    "exprout": ("ab,bc,cd->ad", "XYZ", {"expr": None, "out": True}),
}
for _lib in ("tensorflow", "jax"):
    MENU[_lib] = ("ab,bc,ab->c", "XYZ", {"expr": _lib})
    MENU[_lib + "c"] = ("ab,bc,cd->ad", "XYZ", {"expr": _lib, "const": [0, 1]})
CONV = ["tensorflow", "tensorflowc", "jax", "jaxc", "torch", "exprt", "dot", "had", "RX", "RY", "leave"]
CTL = ["RX", "RY", "RZ", "Rv", "leave", "gc"]
CORE = ["dot", "dotT", "dotF", "had", "hadT", "selfh", "T", "ch01", "exprc", "torch", "had-out", "had-int", "RX", "RY", "leave"]


EXPRS = {}  # expressions without constants are reused across histories


def expected(name, vals):
    eq = MENU[name][0]
    lhs, out = eq.split("->")
    return oracle.einsum(lhs.split(","), out, vals)


def perform(w, name, st):
    """Run one contraction of the menu; returns (got, want)."""
    eq, slots, opt = MENU[name]
    ops, vals = w.get(slots)
    opt = dict(opt)
    const, mode = opt.pop("const", ()), opt.pop("expr", "no")
    want = expected(name, vals)
    out = None
    if opt.pop("out", False):
        out = opt["out"] = np.full(want.shape, 77.0)
    st.transitions += 1
    if mode == "no":
        got = oe.contract(eq, *ops, **opt)
    else:
        key = (name, tuple(id(ops[k]) for k in const), tuple(vals[k].tobytes() for k in const))
        exprs = w.exprs if const else EXPRS
        if key not in exprs:
            args = [ops[k] if k in const else o.shape for k, o in enumerate(ops)]
            exprs[key] = oe.contract_expression(eq, *args, constants=list(const))
        ex = exprs[key]
        if const and mode:
            del exprs[key]  # used once and dropped: its constants go with it
        got = ex(*[o for k, o in enumerate(ops) if k not in const], **({"backend": mode} if mode else {}), **opt)
    if out is not None and got is not out:
        raise Violation(f"{name}: the out array was not returned")
    if "dtype" in opt and np.asarray(got).dtype != np.dtype(opt["dtype"]):
        raise Violation(f"{name}: dtype option gave {np.asarray(got).dtype}")
    return got, want


def run_history(case, st):
    w = World()
    keep = []  # results stay alive like those of a user collecting them
    cache = {}
    cm = oe.shared_intermediates(cache)
    cm.__enter__()
    try:
        for k, a in enumerate(case):
            if a[0] == "R":
                w.alloc(a[1])
                st.transitions += 1
            elif a == "gc":
                gc.collect()
                keep.clear()
            elif a == "leave":
                cm.__exit__(None, None, None)
                cm = oe.shared_intermediates(cache)
                cm.__enter__()
                st.transitions += 1
            else:
                got, want = perform(w, a, st)
                st.traces += 1
                if not util.same(got, want):
                    raise Violation(f"history {case[: k + 1]} in a sharing context: {a} gives {util.show(got)}, expected {util.show(want)}")
                keep.append(got)
    finally:
        cm.__exit__(None, None, None)
    st.states += 1
    st.count("addresses reused", w.recycled)


def gen_histories(menu, depth):
    def g():
        prods = [m for m in menu if m in MENU]
        for n in range(1, depth + 1):
            for head in itertools.product(menu, repeat=n - 1):
                for last in prods:
                    # only complete histories: a prefix is checked within its extensions
                    if n < depth and n > 1:
                        continue
                    yield list(head) + [last]
    return g


# --- one history containing every contraction of given operands: all pairs of cache keys coexist -------------


def equations_for(ranks):
    for terms in enum.inputs(len(ranks), max(ranks)):
        if tuple(map(len, terms)) != tuple(ranks):
            continue
        for out in enum.ordered_subsets(enum.letters_of(terms)):
            yield terms, out


OPTS = [{}, {"use_blas": False}]
OPTS3 = OPTS + [{"optimize": [(0, 1, 2)]}]


def run_all_pairs(case, st):
    ranks, reverse, lib, swap = case
    wrap = None if lib == "numpy" else fakelib.make(lib)
    fakelib.reset()
    pool = {r: [] for r in set(ranks)}
    vals = {}
    for r in pool:
        for k in range(2):
            v = util.data((2,) * r, 11 * r + k)
            a = wrap(v) if wrap else v
            pool[r].append(a)
            vals[id(a)] = v
    todo = []
    for terms, out in equations_for(ranks):
        for pick in itertools.product(*[range(2) for _ in ranks]):
            ops = [pool[r][p] for r, p in zip(ranks, pick)]
            for opt in OPTS if len(ranks) < 3 else OPTS3:
                todo.append((terms, out, ops, opt))
    if lib == "mcnoein":
        todo = [t for t in todo if plain(t[0], t[1]) and t[3] == {}]
    if reverse:
        todo.reverse()
    tr = str.maketrans("abcdef", "QéZzxb")
    with oe.shared_intermediates():
        for rnd in range(2):
            for terms, out, ops, opt in todo:
                e = util.eq(terms, out)
                if rnd and swap:
                    e = e.translate(tr)
                got = oe.contract(e, *ops, **opt)
                got = got._a if hasattr(got, "_a") else got
                want = oracle.einsum(terms, out, [vals[id(o)] for o in ops])
                st.transitions += 1
                st.traces += 1
                st.states += 1
                if not util.same(got, want):
                    raise Violation(f"{e} {opt} after other contractions of the same operands in a sharing context gives {util.show(got)}, expected {util.show(want)}")


def gen_all_pairs(ranks):
    def g():
        for r in ranks:
            for reverse in (False, True):
                for lib in ("numpy", "mcfull", "mcnoein"):
                    for swap in (False, True):
                        yield [list(r), reverse, lib, swap]
    return g


def plain(terms, out):
    flat = "".join(terms) + out
    return all(len(set(t)) == len(t) for t in terms) and all(flat.count(c) == 2 for c in flat)


# --- repeating computes nothing new ----------------------------------------------------------------------------


def run_repeat(case, st):
    terms, out, path, route, pattern = case if len(case) == 5 else case + ["mix"]
    path = [tuple(p) for p in path] if isinstance(path, list) else path
    cls = fakelib.make("mcfull")
    sd = util.sizes(enum.letters_of(terms), pattern)
    raw = util.arrays(terms, sd)
    ops = [cls(x) for x in raw]
    want = oracle.einsum(terms, out, raw)
    e = util.eq(terms, out)
    fakelib.reset()
    ex = oe.contract_expression(e, *[x.shape for x in raw], optimize=path) if route != "contract" else None
    first = None
    with oe.shared_intermediates() as cache:
        for rnd in range(3):
            n0 = len(fakelib.LOG)
            if route == "expr" or (route == "mixed" and rnd % 2):
                got = ex(*ops)
            else:
                got = oe.contract(e, *ops, optimize=path)
            st.transitions += 1
            st.traces += 1
            new = len(fakelib.LOG) - n0
            if not util.same(got._a, want):
                raise Violation(f"{e} path={path} repetition {rnd} in a sharing context gives {util.show(got._a)}, expected {util.show(want)}")
            if rnd and new:
                raise Violation(f"{e} path={path} ({route}): repetition {rnd} in the same sharing context performed {new} operations again: {fakelib.LOG[n0:]}")
            if rnd == 0:
                first = new
            if oe.sharing.get_sharing_cache() is not cache:
                raise Violation("the active cache is not the one of the context")
    # a fresh context does compute again
    with oe.shared_intermediates():
        n0 = len(fakelib.LOG)
        got = oe.contract(e, *ops, optimize=path)
        if not util.same(got._a, want):
            raise Violation(f"{e} path={path} in a second context gives {util.show(got._a)}")
    st.states += 1
    st.outcome("operations of the first round", first)


def gen_repeat(n, total):
    def g():
        for terms, out in enum.equations(n, 3, outs=enum.some_orders if n > 2 else enum.ordered_subsets, max_total=total):
            for path in oracle.all_paths(n) if n > 1 else ["auto"]:
                for route in ("contract", "expr", "mixed"):
                    yield [terms, out, path, route]
    return g


def gen_repeat_wide(n, total):
    def g():
        for case in gen_repeat(n, total)():
            for p in util.wide(enum.letters_of(case[0]), 2):
                yield case + [p]

    return g


# --- faults -----------------------------------------------------------------------------------------------------

FMENU = ["dot", "dotT", "dotE", "had", "T", "ch01", "exprc", "RX", "RY"]


def run_fault(case, st):
    """Inject a failure at every operation of the history in turn."""
    cls = fakelib.make("mcfull")
    at = 1
    while True:
        w = World(wrap=cls)
        fakelib.reset(at)
        failed = None
        with oe.shared_intermediates():
            for k, a in enumerate(case + [x for x in case if x[0] != "R"]):
                if a[0] == "R":
                    w.alloc(a[1])
                    continue
                try:
                    got, want = perform(w, a, st)
                except fakelib.InjectedFault:
                    if failed is not None:
                        raise Violation("an operation failed twice")
                    failed = k
                    # the arrays involved in the failure are replaced: nothing half-done may be found again
                    for s in MENU[a][1]:
                        w.alloc(s)
                    continue
                st.traces += 1
                if not util.same(got._a, want):
                    raise Violation(f"history {case}, fault at operation {at} (in step {failed}): step {k} {a} then gives {util.show(got._a)}, expected {util.show(want)}")
        st.states += 1
        total = fakelib.FAULT["count"]
        if failed is None:
            break
        at += 1
        if at > total + 3:
            break
    fakelib.reset()


def gen_fault(depth):
    def g():
        prods = [m for m in FMENU if m in MENU]
        for head in itertools.product(FMENU, repeat=depth - 1):
            for last in prods:
                yield list(head) + [last]
    return g


def spaces(tier):
    q = tier == "quick"
    allm = [m for m in MENU if not m.startswith(("tensorflow", "jax"))] + CTL
    return [
        ("all-operations", gen_histories(allm, 3 if q else 4), run_history),
        ("core-operations", gen_histories(CORE, 4 if q else 5), run_history),
        ("all-pairs", gen_all_pairs([(2, 2), (1, 2), (2, 1), (3, 1), (1, 1, 1)] + ([] if q else [(2, 3), (2, 2, 1), (3, 3)])), run_all_pairs),
        ("repeat-2", gen_repeat(2, 4 if q else 6), run_repeat),
        ("repeat-3", gen_repeat(3, 4 if q else 5), run_repeat),
        ("repeat-2-large", gen_repeat_wide(2, 3 if q else 4), run_repeat),
        ("repeat-1", gen_repeat(1, 3), run_repeat),
        ("repeat-2-labels", enum.relabel(gen_repeat(2, 3)), run_repeat),
        ("repeat-3-labels", enum.relabel(gen_repeat(3, 3), (0, 1)), run_repeat),
        ("conversions", gen_histories(CONV, 3 if q else 4), run_history),
        ("faults", gen_fault(3 if q else 4), run_fault),
    ]
