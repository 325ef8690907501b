"""C07: the path report tells the truth about the contraction."""

import itertools
import re
from decimal import Decimal

import numpy as np

import opt_einsum as oe

from mc import enum, finders, oracle, util
from mc.core import Violation

ID = "C07"
TECHNIQUE = "exhaustive enumeration of (equation, path) pairs; every field of the real report recomputed from the definition and the listed steps executed by an independent evaluator"
BOUNDS = {
    "quick": "all equations with 1-2 operands of rank <=4/<=3 and 3 operands of total rank <=5 (repeated indices included); all networks of 3 tensors/<=3 indices and "
    "4 tensors/<=2 indices; for each: every complete path with steps of arity 1 (first step) to n and every named strategy; size patterns incl. 0, 1, broadcasting, "
    "10**9; families of 5-60 tensors (around the 20-term printing threshold)",
    "thorough": "3 operands of rank <=3 with total rank <=7, 4 tensors/<=3 indices, 5 tensors/<=2 indices",
}
ASSUMPTIONS = [
    "the naive flop count is (index points) x (multiplications, at least 1, plus one if an index is shared between operands), the definition used by the project since its first release",
    "info.shapes is compared only when no dimension is broadcast",
]


def verify(st, path, info, terms, out, sd, given=None, ones=(), execute=True, broadcast=False, opt_desc=""):
    e = util.eq(terms, out)

    def bad(what, got, want):
        raise Violation(f"{e} sizes={sd} path={path} {opt_desc}: {what} is {got!r}, should be {want!r}")

    def cmp(what, got, want):
        if got != want:
            bad(what, got, want)

    st.traces += 1
    n = len(terms)
    if given is not None:
        cmp("returned path", [tuple(p) for p in path], [tuple(p) for p in given])
    cmp("info.path", list(info.path), list(path))
    msg = oracle.check_path(list(path), n)
    if msg:
        bad("path", path, msg)
    cmp("eq", info.eq, e)
    cmp("input_subscripts", info.input_subscripts, ",".join(terms))
    cmp("output_subscript", info.output_subscript, out)
    cmp("indices", set(info.indices), set("".join(terms)))
    cmp("size_dict", dict(info.size_dict), sd)
    if not broadcast:
        cmp("shapes", [tuple(s) for s in info.shapes], [tuple(sd[c] for c in t) for t in terms])
    flops, sizes, scal, results = oracle.path_costs(path, terms, out, sd)
    cmp("opt_cost", info.opt_cost, sum(flops))
    cmp("scale_list", list(info.scale_list), scal)
    cmp("size_list", list(info.size_list), sizes)
    cmp("largest_intermediate", info.largest_intermediate, max(sizes, default=1))
    shared = sum(len(set(t)) for t in terms) > len(set("".join(terms)))
    naive = oracle.size(sd, sd) * (max(1, n - 1) + (1 if shared else 0))
    cmp("naive_cost", info.naive_cost, naive)
    cmp("speedup", info.speedup, Decimal(naive) / max(Decimal(sum(flops)), Decimal(1)))
    cmp("number of steps", len(info.contraction_list), len(path))
    # the listed steps
    left, cur = list(terms), finders.isets(terms)
    ops = util.arrays(terms, sd, ones=ones) if execute else None
    orig = list(ops) if execute else None
    for k, (p, c) in enumerate(zip(path, info.contraction_list)):
        inds, idx_rm, es, remaining, _ = c
        cmp(f"step {k} positions", sorted(inds), sorted(p))
        involved, res, cur = oracle.step(cur, out, p)
        cmp(f"step {k} removed indices", set(idx_rm), set(involved - res))
        lhs, rhs = es.split("->")
        cmp(f"step {k} equation terms", lhs.split(","), [left[x] for x in inds])
        cmp(f"step {k} result indices", set(rhs), set(res))
        if len(rhs) != len(set(rhs)):
            bad(f"step {k} result", rhs, "distinct indices")
        if execute:
            val = oracle.einsum(lhs.split(","), rhs, [ops[x] for x in inds])
            ops = [o for x, o in enumerate(ops) if x not in p] + [val]
        left = [t for x, t in enumerate(left) if x not in p] + [rhs]
        if remaining is not None:
            cmp(f"step {k} remaining", list(remaining), left)
        elif len(left) <= 20:
            bad(f"step {k} remaining", None, left)
    if path:
        cmp("final result", left, [out])
    st.transitions += len(path)
    if execute and path:
        want = oracle.einsum(terms, out, orig)
        if not util.same(ops[0], want):
            bad("value of the executed steps", util.show(ops[0]), util.show(want))
    text = repr(info)
    cmp("str", str(info), text)
    for label, want in (("Complete contraction", e), ("Naive scaling", str(len(sd))), ("Optimized scaling", str(max(scal, default=0))),
                        ("Naive FLOP count", f"{Decimal(naive):.3e}"), ("Optimized FLOP count", f"{Decimal(sum(flops)):.3e}"),
                        ("Largest intermediate", f"{Decimal(max(sizes, default=1)):.3e}")):
        m = re.search(re.escape(label) + r":[ ]*(\S*)", text)
        if not m or m.group(1) != want:
            bad(f"printed {label}", m and m.group(1), want)
    pos = 0
    for c in info.contraction_list:
        pos = text.find(c[2], pos)
        if pos < 0:
            bad("printed steps", text, c[2])
    return info


def paths_of(n):
    yield from (list(p) for p in oracle.all_paths(n))
    if n == 1:
        yield [(0,)]
    elif n <= 3:
        # begin with a single-term step
        for x in range(n):
            for rest in oracle.all_paths(n):
                yield [(x,)] + list(rest)
        for x in range(n):
            yield [tuple(range(n)), (0,)]
            break


def run(case, st):
    terms, out, pattern, unary = case
    sd = util.sizes(enum.letters_of(terms), pattern)
    e = util.eq(terms, out)
    shapes = [tuple(sd[c] for c in t) for t in terms]
    st.states += 1
    n = len(terms)
    done = set()
    for path in paths_of(n):
        if not unary and any(len(p) == 1 for p in path):
            continue
        key = tuple(path)
        if key in done or not path:
            continue
        done.add(key)
        p, info = oe.contract_path(e, *shapes, shapes=True, optimize=path)
        verify(st, p, info, terms, out, sd, given=path, execute=pattern in ("mix", "zlast"))
        p2, info2 = oe.contract_path(e, *shapes, shapes=True, optimize=path, use_blas=False)
        verify(st, p2, info2, terms, out, sd, given=path, execute=False)
    arrs = util.arrays(terms, sd)
    for opt in finders.NAMES + [False, True]:
        p, info = oe.contract_path(e, *shapes, shapes=True, optimize=opt)
        verify(st, p, info, terms, out, sd, opt_desc=f"optimize={opt}", execute=False)
        if opt in ("auto", "dp"):
            p2, info2 = oe.contract_path(e, *arrs, optimize=opt)
            verify(st, p2, info2, terms, out, sd, given=p, opt_desc=f"optimize={opt} arrays", execute=False)
        if opt in ("optimal", "greedy", "branch-2"):
            for lim in (1, 3, "max_input") if oracle.size(sd, sd) else (1, 3):
                p2, info2 = oe.contract_path(e, *arrs, optimize=opt, memory_limit=lim)
                verify(st, p2, info2, terms, out, sd, opt_desc=f"optimize={opt} memory_limit={lim}", execute=False)


def run_broadcast(case, st):
    """Some operand dimensions are 1 where others are larger."""
    terms, out, ones = case
    ones = {tuple(x) for x in ones}
    base = util.sizes(enum.letters_of(terms), "mix")
    ops = util.arrays(terms, base, ones=ones)
    sd = oracle.sizes_of(terms, [o.shape for o in ops])
    e = util.eq(terms, out)
    st.states += 1
    for path in oracle.all_paths(len(terms)):
        path = list(path) or [(0,)]
        p, info = oe.contract_path(e, *ops, optimize=path)
        verify(st, p, info, terms, out, sd, given=path, broadcast=True, execute=False)
        # execute the listed steps on the real operands
        left = list(ops)
        for inds, _, es, _, _ in info.contraction_list:
            lhs, rhs = es.split("->")
            val = oracle.einsum(lhs.split(","), rhs, [left[x] for x in inds])
            left = [o for x, o in enumerate(left) if x not in inds] + [val]
        # summing over an index whose remaining extent is 1 on that operand is exact only if the other operands carry it
        st.transitions += 1
        if not util.same(left[0], oracle.einsum(terms, out, ops)):
            raise Violation(f"{e} shapes={[o.shape for o in ops]} path={p}: executed steps give a different value")


def gen_broadcast():
    for n, r in ((2, 2), (3, 1), (3, 2)):
        for terms in enum.inputs(n, r, repeats=False, max_total=4 if n == 3 else None):
            slots = [(k, ax) for k, t in enumerate(terms) for ax, c in enumerate(t) if sum(c in u for u in terms) > 1]
            if not slots:
                continue
            for out in enum.subsets(enum.letters_of(terms)):
                for ones in util.powerset(slots, 3):
                    if ones:
                        yield [terms, out, [list(x) for x in ones]]


def run_large(case, st):
    n, name, opt, big = case
    ((terms, out),) = [(t, o) for nm, t, o in enum.structured(n) if nm == name]
    letters = sorted(set("".join(terms)))
    sd = {c: big + k % 3 for k, c in enumerate(letters)}
    shapes = [tuple(sd[c] for c in t) for t in terms]
    st.states += 1
    path = None
    if opt == "left":
        path = [(0, 1)] * (n - 1)
        path = [(0, m - 1) for m in range(n, 1, -1)]
    if opt == "triples":
        m, path = n, []
        while m > 1:
            k = min(3, m)
            path.append(tuple(range(k)))
            m -= k - 1
    p, info = oe.contract_path(util.eq(terms, out), *shapes, shapes=True, optimize=path or opt)
    verify(st, p, info, terms, out, sd, given=path, execute=False, opt_desc=str(opt))


def gen_large():
    for n in (5, 8, 14, 18, 19, 20, 21, 22, 23, 25, 40, 60):
        for name, _, _ in enum.structured(n):
            for opt in ("greedy", "auto", "left", "triples", False):
                for big in (2, 10**9):
                    yield [n, name, opt, big]


def gen_eq(n, r, patterns, unary=True, **kw):
    def gen():
        for terms, out in enum.equations(n, r, **kw):
            for p in patterns:
                yield [terms, out, p, unary]
    return gen


def gen_net(n, m, patterns, unary=False):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                for p in patterns:
                    yield [terms, out, p, unary]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        ("one-operand", gen_eq(1, 4, ("mix", "zero", "one")), run),
        ("two-operands", gen_eq(2, 3, ("mix", "zlast", "first1")), run),
        ("three-operands", gen_eq(3, 2, ("mix",), outs=enum.some_orders, max_total=5) if q else gen_eq(3, 3, ("mix",), outs=enum.some_orders, max_total=6), run),
        ("three-tensors", gen_net(3, 3, ("rev", "zero")), run),
        ("four-tensors", gen_net(4, 2 if q else 3, ("mix",)), run),
        ("broadcast", gen_broadcast, run_broadcast),
        ("large", gen_large, run_large),
    ]
