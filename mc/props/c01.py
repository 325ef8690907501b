"""C01: the value of a contraction is the Einstein sum, whatever the strategy and options."""

import numpy as np
import opt_einsum as oe

from mc import enum, oracle, util
from mc.core import Violation

ID = "C01"
BOUNDS = {
    "quick": "every equation up to index renaming with 1 term of rank<=4, 2 terms of rank<=3, 3 terms of rank<=2 "
    "(repeated indices, hyperedges, scalars included), every output order up to 4 indices; all 4-tensor networks with "
    "<=3 indices; every strategy name, BLAS on/off, six memory limits; all 0/1 sizes patterns listed; every choice of "
    "<=2 stretched dimensions; ten large families for 5..24 tensors; all equations of 2 terms of rank<=2 and 3 terms of total rank<=5 with extents of 67-131 for every choice of one (two) indices",
    "thorough": "as quick with 3 terms up to 7 indices positions, 4-tensor networks with <=4 indices, 5-tensor networks",
}
ASSUMPTIONS = [
    "control flow of the library does not depend on array values, so one generic exactly-representable value "
    "assignment per shape decides equality of the multilinear maps (C25 uses polynomial entries instead)",
    "numpy's arithmetic on small integers in float64 is exact",
]

FAST = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp",
        "dynamic-programming"]
SLOW = ["random-greedy", "random-greedy-128"]


def _one(st, terms, out, sd, opt, blas, mem, ones=(), expect=None, ops=None, dtype=float):
    if ops is None:
        ops = util.arrays(terms, sd, dtype=dtype, ones=ones)
    if expect is None:
        expect = oracle.einsum(terms, out, ops)
    try:
        got = oe.contract(util.eq(terms, out), *ops, optimize=opt, use_blas=blas, memory_limit=mem)
    except RuntimeError as e:
        # the only documented refusal: dynamic programming has no path within the memory limit
        if mem not in (None, -1) and "memory_limit" in str(e) and opt in ("dp", "dynamic-programming", "auto-hq"):
            st.count("dp refused memory limit")
            st.transitions += 1
            return expect
        raise
    st.transitions += 1
    st.traces += 1
    if not util.same(got, expect):
        raise Violation(f"{util.eq(terms, out)} sizes={sd} optimize={opt} use_blas={blas} memory_limit={mem} ones={ones}: "
                        f"got {util.show(got)} expected {util.show(expect)}")
    return expect


def gen_small(n, rank, orders, patterns, tier_kw=None):
    def gen():
        for terms, out in enum.equations(n, rank, outs=orders, **(tier_kw or {})):
            for p in patterns:
                yield [terms, out, p]
    return gen


def run_12(case, st):
    terms, out, p = case
    st.states += 1
    sd = util.sizes(enum.letters_of(terms), p)
    ops = util.arrays(terms, sd)
    expect = oracle.einsum(terms, out, ops)
    for opt in (True, False, "optimal", "dp"):
        for blas in (True, False):
            _one(st, terms, out, sd, opt, blas, None, expect=expect, ops=ops)
    iops = [o.astype(np.int64) for o in ops]
    _one(st, terms, out, sd, True, True, None, expect=expect, ops=iops)



def run_3(case, st):
    terms, out, p = case
    st.states += 1
    sd = util.sizes(enum.letters_of(terms), p)
    ops = util.arrays(terms, sd)
    expect = oracle.einsum(terms, out, ops)
    for opt in FAST:
        _one(st, terms, out, sd, opt, True, None, expect=expect, ops=ops)
    for opt in ("optimal", "greedy", "dp"):
        _one(st, terms, out, sd, opt, False, None, expect=expect, ops=ops)
    for mem in (1, 3, "max_input", 10**6, -1):
        for opt in ("optimal", "greedy", "dp"):
            _one(st, terms, out, sd, opt, True, mem, expect=expect, ops=ops)
    _one(st, terms, out, sd, False, True, None, expect=expect, ops=ops)
    _one(st, terms, out, sd, None, True, None, expect=expect, ops=ops)



def gen_net(n, m, patterns):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                for p in patterns:
                    yield [terms, out, p]
    return gen


def run_net(case, st):
    terms, out, p = case
    st.states += 1
    sd = util.sizes(enum.letters_of(terms), p)
    ops = util.arrays(terms, sd)
    expect = oracle.einsum(terms, out, ops)
    for opt in FAST:
        if opt not in ("eager", "opportunistic", "dynamic-programming"):
            _one(st, terms, out, sd, opt, True, None, expect=expect, ops=ops)
    for opt in ("optimal", "branch-all", "greedy", "dp"):
        for mem in (2, 6):
            _one(st, terms, out, sd, opt, True, mem, expect=expect, ops=ops)
    if len(terms) <= 4 and len("".join(terms)) <= 5:
        _one(st, terms, out, sd, "random-greedy", True, None, expect=expect, ops=ops)



def gen_bcast():
    for n, rank, maxtot in ((1, 3, 3), (2, 3, 5), (3, 2, 5)):
        for terms in enum.inputs(n, rank, max_total=maxtot):
            # only indices shared between different operands can be stretched
            occ = [(k, ax) for k, t in enumerate(terms) for ax, c in enumerate(t)
                   if t.count(c) == 1 and sum(c in u for u in terms) > 1]
            for ones in util.powerset(occ, 3 if n < 3 else 2):
                if not ones:
                    continue
                for out in enum.some_orders(enum.letters_of(terms)):
                    yield [terms, out, [list(o) for o in ones]]


def run_bcast(case, st):
    terms, out, ones = case
    ones = {tuple(o) for o in ones}
    st.states += 1
    sd = util.sizes(enum.letters_of(terms), "mix")
    ops = util.arrays(terms, sd, ones=ones)
    expect = oracle.einsum(terms, out, ops)
    ref = np.einsum(util.eq(terms, out), *ops)
    if not util.same(ref, expect):
        raise RuntimeError("oracle disagrees with numpy")
    for opt in ("optimal", "greedy", "dp", "branch-all", False):
        _one(st, terms, out, sd, opt, True, None, ones=ones, expect=expect, ops=ops)
    _one(st, terms, out, sd, "auto", False, None, ones=ones, expect=expect, ops=ops)



def gen_empty():
    """Zero-size and one-size dimensions, including a stretched 1 against a 0."""
    for terms in enum.inputs(3, 2, max_total=5):
        letters = enum.letters_of(terms)
        for out in enum.some_orders(letters):
            for p in ("zero", "zlast", "one", "first1", "last1"):
                yield [terms, out, p, []]
        occ = [(k, ax) for k, t in enumerate(terms) for ax, c in enumerate(t)
               if c == "a" and t.count(c) == 1 and sum(c in u for u in terms) > 1]
        for ones in util.powerset(occ, 2):
            if ones and len(ones) < len(occ):
                for out in enum.subsets(letters):
                    yield [terms, out, "zero", [list(o) for o in ones]]


def run_empty(case, st):
    terms, out, p, ones = case
    ones = {tuple(o) for o in ones}
    st.states += 1
    sd = util.sizes(enum.letters_of(terms), p)
    ops = util.arrays(terms, sd, ones=ones)
    expect = oracle.einsum(terms, out, ops)
    for opt in ("optimal", "greedy", "dp", "branch-all", "auto-hq", False):
        _one(st, terms, out, sd, opt, True, None, ones=ones, expect=expect, ops=ops)
    _one(st, terms, out, sd, "branch-1", False, None, ones=ones, expect=expect, ops=ops)



def gen_large(ns):
    def gen():
        for n in ns:
            for name, terms, out in enum.structured(n):
                for opt in FAST[:7] + ["dp"] + SLOW:
                    if opt in ("optimal", "branch-all") and n > 6:
                        continue
                    if opt == "branch-2" and n > 9:
                        continue
                    if opt in ("dp", "auto-hq") and n > 12 and name in ("star", "hyper", "hadamard", "batch-chain"):
                        continue  # exponential in these families
                    if opt in SLOW and n not in (5, 9, 17):
                        continue
                    yield [n, name, opt]
    return gen


def run_large(case, st):
    n, name, opt = case
    st.states += 1
    ((terms, out),) = [(t, o) for nm, t, o in enum.structured(n) if nm == name]
    letters = "".join(sorted(set("".join(terms))))
    sd = {c: 2 for c in letters}
    ops = [1 + 0 * util.data(tuple(sd[c] for c in t), k) + (util.data(tuple(sd[c] for c in t), k) > 0) for k, t in enumerate(terms)]
    expect = util.fold_einsum(terms, out, ops)
    for blas in (True, False):
        _one(st, terms, out, sd, opt, blas, None, expect=expect, ops=ops)



def gen_rand():
    for terms, out in enum.equations(3, 2, outs=enum.subsets, max_total=4):
        yield [terms, out, "mix"]


def run_rand(case, st):
    terms, out, p = case
    st.states += 1
    sd = util.sizes(enum.letters_of(terms), p)
    for opt in ("random-greedy",):
        _one(st, terms, out, sd, opt, True, None)



def orders4(letters):
    return enum.ordered_subsets(letters) if len(letters) <= 4 else enum.some_orders(letters)


def orders3(letters):
    return enum.ordered_subsets(letters) if len(letters) <= 3 else enum.some_orders(letters)


def gen_wide(n, r, top, **kw):
    def gen():
        for terms, out in enum.equations(n, r, outs=enum.some_orders, **kw):
            for p in util.wide(enum.letters_of(terms), top):
                yield [terms, out, p]

    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        ("one-term", gen_small(1, 4, orders4, ("mix", "two", "first1", "zero")), run_12),
        ("two-terms", gen_small(2, 3, orders4, ("mix",) if q else ("mix", "rev", "last1", "zero")), run_12),
        ("three-terms", gen_small(3, 2 if q else 3, orders3, ("mix",), None if q else dict(max_total=7)), run_3),
        ("broadcast", gen_bcast, run_bcast),
        ("empty-and-unit", gen_empty, run_empty),
        ("four-tensor-networks", gen_net(4, 3 if q else 4, ("mix",)), run_net),
        ("five-tensor-networks", gen_net(5, 2 if q else 3, ("rev",)), run_net),
        ("large-extents-2", gen_wide(2, 2 if q else 3, 2), run_12),
        ("large-extents-3", gen_wide(3, 2, 1 if q else 2, max_total=5), run_3),
        ("random-greedy", gen_rand, run_rand),
        ("large-families", gen_large((5, 6, 7, 8, 9, 12, 14, 15, 16, 17, 20, 21, 22, 24)), run_large),
    ]
