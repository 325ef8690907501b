"""C06: a memory limit is never exceeded by an intermediate."""

import itertools
import math

import numpy as np

import opt_einsum as oe

from mc import enum, finders, oracle, util
from mc.core import Violation

ID = "C06"
TECHNIQUE = "exhaustive enumeration of networks x every integer memory limit on the real finders; explicit-state search of limit-respecting contraction sequences as oracle for the optimal strategy"
BOUNDS = {
    "quick": "all networks with 3 tensors/<=4 indices and 4 tensors/<=3 indices, every output, every integer limit from 1 up to the size of the "
    "whole index space (plus max_input), 8 strategies and 9 optimizer configurations; 5 tensors/<=2 indices; ten structured families "
    "of 5-16 tensors under 12 limits; limits given as int, Decimal, numpy integer; all invalid limits in a list; reused BranchBound over all ordered pairs of limits",
    "thorough": "4 tensors/<=4 indices, 5 tensors/<=3 indices",
}
ASSUMPTIONS = ["the random strategies do not implement the limit (recorded as a known finding) and are examined only on the recorded cases"]


def big_steps(path, terms, out, sd, limit):
    """Intermediates (not the final result) formed from >= 2 tensors that exceed the limit."""
    cur = finders.isets(terms)
    bad = []
    for k, p in enumerate(path):
        involved, res, cur = oracle.step(cur, out, p)
        if k < len(path) - 1 and len(p) >= 2 and oracle.size(res, sd) > limit:
            bad.append((k, "".join(sorted(res)), oracle.size(res, sd)))
    return bad


def feasible_min(terms, out, sd, limit, st):
    """Least flops over all pairwise sequences whose intermediates (final one excepted) fit the limit."""
    out = frozenset(out)
    memo = {}

    def go(state):
        if len(state) == 1:
            return 0
        if state in memo:
            return memo[state]
        best = math.inf
        for i, j in itertools.combinations(range(len(state)), 2):
            k12, either, inner = oracle.contract_pair(state, out, i, j)
            if len(state) > 2 and oracle.size(k12, sd) > limit:
                continue
            rest = [s for k, s in enumerate(state) if k not in (i, j)]
            st.transitions += 1
            c = oracle.size(either, sd) * (2 if inner else 1)
            best = min(best, c + go(tuple(sorted(rest + [k12], key=sorted))))
        memo[state] = best
        st.states += 1
        return best

    return go(tuple(sorted(finders.isets(terms), key=sorted)))


def one(st, what, find, terms, out, sd, limit, dp):
    st.transitions += 1
    try:
        path = find()
    except RuntimeError as e:
        if dp and finders.no_dp_path(e, limit):
            st.count("refused")
            return None
        raise
    st.traces += 1
    msg = oracle.check_path(path, len(terms))
    if msg:
        raise Violation(f"{what}: {msg} ({path})")
    bad = big_steps(path, terms, out, sd, limit)
    if bad:
        raise Violation(f"{util.eq(terms, out)} sizes={sd} {what} memory_limit={limit}: path {path} forms (step, indices, size) {bad}")
    return path


def shapes_of(terms, sd):
    return [tuple(sd[c] for c in t) for t in terms]


def run(case, st):
    terms, out, pattern = case
    sd = util.sizes(enum.letters_of(terms), pattern)
    shapes = shapes_of(terms, sd)
    e = util.eq(terms, out)
    top = oracle.size(sd, sd) + 1
    in_scope = all(c in out or sum(c in t for t in terms) >= 2 for c in sd)
    for limit in range(1, top + 1):
        st.states += 1
        for name in finders.NAMES:
            path = one(st, name, lambda: oe.contract_path(e, *shapes, shapes=True, optimize=name, memory_limit=limit)[0],
                       terms, out, sd, limit, name in ("dp", "auto-hq"))
            if name == "optimal" and in_scope:
                best = feasible_min(terms, out, sd, limit, st)
                if best < math.inf:
                    cost = sum(oracle.path_costs(path, terms, out, sd)[0])
                    if cost > best:
                        raise Violation(f"{e} sizes={sd} optimal memory_limit={limit}: {path} costs {cost}, a path within the limit costs {best}")
    inp, o = finders.isets(terms), frozenset(out)
    for limit in (1, 2, 3, 4, 6, 8, 12):
        for name, make in finders.optimizers().items():
            one(st, name, lambda: make()(inp, o, sd, limit), terms, out, sd, limit, "DP" in name)
    # the largest operand or result
    largest = max([oracle.size(t, sd) for t in terms] + [oracle.size(out, sd)])
    if largest:
        for name in finders.NAMES:
            try:
                path = oe.contract_path(e, *shapes, shapes=True, optimize=name, memory_limit="max_input")[0]
            except RuntimeError as err:
                if name == "dp" and finders.no_dp_path(err, 1):
                    continue
                raise
            st.traces += 1
            bad = big_steps(path, terms, out, sd, largest)
            if bad:
                raise Violation(f"{e} sizes={sd} {name} memory_limit=max_input (={largest}): path {path} forms {bad}")
    for name in finders.NAMES:
        free = oe.contract_path(e, *shapes, shapes=True, optimize=name)[0]
        minus = oe.contract_path(e, *shapes, shapes=True, optimize=name, memory_limit=-1)[0]
        none = oe.contract_path(e, *shapes, shapes=True, optimize=name, memory_limit=None)[0]
        st.transitions += 3
        if not free == minus == none:
            raise Violation(f"{e} {name}: unlimited settings differ: {free} {minus} {none}")
    # a limit nothing exceeds leaves the exhaustive searches unaffected
    for name in ("optimal", "branch-all", "dp"):
        free = oe.contract_path(e, *shapes, shapes=True, optimize=name)[1].opt_cost
        big = oe.contract_path(e, *shapes, shapes=True, optimize=name, memory_limit=10**15)[1].opt_cost
        if free != big:
            raise Violation(f"{e} sizes={sd} {name}: a limit nothing exceeds changes the cost from {free} to {big}")
    # nor does a limit that the unlimited path just respects
    for name in ("optimal", "dp") if in_scope else ():
        path, info = oe.contract_path(e, *shapes, shapes=True, optimize=name)
        cur, sizes = finders.isets(terms), [1]
        for p in path:
            _, res, cur = oracle.step(cur, out, p)
            sizes.append(oracle.size(res, sd))
        st.transitions += 2
        st.traces += 1
        try:
            tight = oe.contract_path(e, *shapes, shapes=True, optimize=name, memory_limit=max(sizes))[1].opt_cost
        except RuntimeError as err:
            raise Violation(f"{e} sizes={sd} {name} memory_limit={max(sizes)}: {err}, although {path} respects it")
        if tight != info.opt_cost:
            raise Violation(f"{e} sizes={sd} {name}: memory_limit={max(sizes)}, which {path} respects, changes the cost from {info.opt_cost} to {tight}")


def run_large(case, st):
    n, name, opt, limit = case
    ((terms, out),) = [(t, o) for nm, t, o in enum.structured(n) if nm == name]
    letters = sorted(set("".join(terms)))
    sd = {c: 2 + k % 2 for k, c in enumerate(letters)}
    st.states += 1
    one(st, opt, lambda: oe.contract_path(util.eq(terms, out), *shapes_of(terms, sd), shapes=True, optimize=opt, memory_limit=limit)[0],
        terms, out, sd, limit, opt in ("dp", "auto-hq"))


def gen_large():
    for n in (5, 6, 7, 8, 9, 12, 14, 15, 16):
        for name, terms, out in enum.structured(n):
            for opt in finders.NAMES:
                if opt == "optimal" and n > 6 or opt == "branch-all" and n > 7 or opt == "branch-2" and n > 9:
                    continue
                if opt in ("dp", "auto-hq") and n > 9 and name in ("star", "hyper", "hadamard", "batch-chain"):
                    continue
                for limit in (1, 2, 3, 4, 6, 8, 9, 12, 20, 50, 200, 1000):
                    yield [n, name, opt, limit]


def run_kinds(case, st):
    """Ways of giving the limit, and limits that must be refused."""
    from decimal import Decimal

    terms, out, name = case
    sd = util.sizes(enum.letters_of(terms), "mix")
    shapes, e = shapes_of(terms, sd), util.eq(terms, out)
    st.states += 1
    for limit in (1, 3, 7):
        ref = None
        for form in (limit, Decimal(limit), np.int64(limit), float(limit)):
            try:
                p = oe.contract_path(e, *shapes, shapes=True, optimize=name, memory_limit=form)[0]
            except RuntimeError as err:
                if not finders.no_dp_path(err, 1):
                    raise
                p = "refused"
            st.traces += 1
            st.transitions += 1
            if ref is None:
                ref = p
            elif p != ref:
                raise Violation(f"{e} {name}: memory_limit={form!r} gives {p}, {limit} gives {ref}")
    ops = util.arrays(terms, sd)
    for bad in (0, -2, -100, 0.5, -0.5, "max_output", "", "MAX_INPUT", "10"):
        for call in (
            lambda: oe.contract_path(e, *shapes, shapes=True, optimize=name, memory_limit=bad),
            lambda: oe.contract_path(e, *ops, optimize=name, memory_limit=bad),
            lambda: oe.contract(e, *ops, optimize=name, memory_limit=bad),
            lambda: oe.contract_expression(e, *shapes, optimize=name, memory_limit=bad),
        ):
            st.transitions += 1
            try:
                r = call()
            except (ValueError, TypeError):
                continue
            raise Violation(f"{e} {name}: memory_limit={bad!r} was accepted, returned {r!r}")


def gen_kinds():
    for terms, out in ((["ab", "bc", "cd", "da"], ""), (["ab", "bc", "cd"], "ad"), (["ab", "bc"], "ac"), (["a", "b", "c", "d", "e"], "abcde"), (["aa"], "")):
        for name in finders.NAMES + ["random-greedy"]:
            yield [terms, out, name]


def run_reuse(case, st):
    """One optimizer asked for different limits in turn respects each of them."""
    terms, out, pattern, kind, limits = case
    sd = util.sizes(enum.letters_of(terms), pattern)
    opt = finders.optimizers()[kind]()
    inp, o = finders.isets(terms), frozenset(out)
    st.states += 1
    for limit in limits:
        lim = limit if limit is not None else 10**9
        one(st, f"{kind} called with limits {limits}", lambda: opt(inp, o, sd, limit), terms, out, sd, lim, "DP" in kind)


def gen_reuse():
    for n, m in ((3, 3), (4, 2)):
        for terms in enum.networks(n, m, allow_empty=False):
            for out in enum.subsets(enum.letters_of(terms)):
                for kind in finders.optimizers():
                    if "DP" in kind and kind != "DP()":
                        continue
                    for limits in itertools.permutations((None, 1, 4, 12), 2):
                        yield [terms, out, "mix", kind, list(limits)]


def run_random(case, st):
    """The random strategies: only recorded cases are examined."""
    terms, out, sd, opt, limit = case
    st.states += 1
    one(st, opt, lambda: oe.contract_path(util.eq(terms, out), *shapes_of(terms, sd), shapes=True, optimize=opt, memory_limit=limit)[0],
        terms, out, sd, limit, True)


def gen_random():
    yield [["ab", "bc", "cd"], "ad", {"a": 9, "b": 2, "c": 9, "d": 2}, "random-greedy", 1]
    yield [["ab", "bc", "cd"], "ad", {"a": 9, "b": 2, "c": 9, "d": 2}, "random-greedy-128", 1]


def gen_net(n, m, patterns):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                for p in patterns:
                    yield [terms, out, p]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        ("three-tensors", gen_net(3, 3 if q else 4, ("mix",)), run),
        ("three-tensors-two", gen_net(3, 4, ("two",)), run),
        ("three-tensors-sizes", gen_net(3, 3, ("rev", "first1", "zero")), run),
        ("four-tensors", gen_net(4, 2 if q else 3, ("mix", "zlast")), run),
        ("four-tensors-two", gen_net(4, 3 if q else 4, ("two",)), run),
        ("five-tensors", gen_net(5, 1 if q else 2, ("mix",)), run),
        ("large-families", gen_large, run_large),
        ("limit-kinds", gen_kinds, run_kinds),
        ("reuse", gen_reuse, run_reuse),
        ("random-strategies", gen_random, run_random),
    ]
