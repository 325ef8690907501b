"""C20: path representations convert without loss."""

import itertools

import numpy as np

import opt_einsum as oe
from opt_einsum import paths

from mc import enum, oracle, util
from mc.core import Violation

ID = "C20"
TECHNIQUE = "complete enumeration of the executions of the path machine (all complete paths with steps of any arity and any order within a step) and of all contraction trees up to a bound; both interpreters replay every converted path"
BOUNDS = {
    "quick": "all complete paths of 1..6 tensors with steps of any arity, every order of the ids within a step for <=5 tensors, up to 2 single-term steps for <=4 tensors, all pairwise paths of 7 tensors, in both directions; "
    "structured paths of 8..64 tensors; all contraction trees of <=5 leaves (any arity, any order of children and leaves), single-child nodes at every place for <=4 leaves; every converted path of <=4 tensors contracted numerically",
    "thorough": "all orders within a step for 6 tensors, all paths of any arity of 7 tensors, all pairwise paths of 8 tensors, all trees of 6 leaves",
}
ASSUMPTIONS = ["a path is complete: it ends with one tensor", "steps are tuples or lists of ids"]


def run_linear(path, n):
    """Interpret recycled positions: the leaf sets combined at each step, or None if the path is not valid."""
    cur = [frozenset([i]) for i in range(n)]
    steps = []
    for p in path:
        if len(p) == 0 or len(set(p)) != len(p) or not all(0 <= x < len(cur) for x in p):
            return None
        steps.append(frozenset(cur[x] for x in p))
        new = frozenset().union(*(cur[x] for x in p))
        cur = [t for k, t in enumerate(cur) if k not in p] + [new]
    return steps if len(cur) == 1 else None


def run_ssa(path, n):
    """Interpret single-assignment ids."""
    cur = {i: frozenset([i]) for i in range(n)}
    steps = []
    nxt = n
    for p in path:
        if len(p) == 0 or len(set(p)) != len(p) or not all(x in cur for x in p):
            return None
        steps.append(frozenset(cur[x] for x in p))
        cur[nxt] = frozenset().union(*(cur.pop(x) for x in p))
        nxt += 1
    return steps if len(cur) == 1 else None


def to_ssa(path, n):
    """The definition of the single-assignment form (oracle, keeps the order within a step)."""
    ids, nxt, out = list(range(n)), n, []
    for p in path:
        out.append(tuple(ids[x] for x in p))
        ids = [i for k, i in enumerate(ids) if k not in p] + [nxt]
        nxt += 1
    return out


def well_formed(path, what):
    if not isinstance(path, (list, tuple)):
        raise Violation(f"{what} is a {type(path).__name__}")
    for p in path:
        if not isinstance(p, tuple) or not all(isinstance(x, (int, np.integer)) for x in p):
            raise Violation(f"{what} has the step {p!r}, not a tuple of ints")


def check(linear, n, st):
    want = run_linear(linear, n)
    ssa0 = to_ssa(linear, n)
    assert run_ssa(ssa0, n) == want

    def same(got, interp, what):
        well_formed(got, what)
        if len(got) != len(linear) or interp(got, n) != want:
            raise Violation(f"{what} is {got}, which does not perform the same contractions")
        st.transitions += len(got)

    keep_l, keep_s = [tuple(p) for p in linear], list(ssa0)
    ssa = paths.linear_to_ssa(linear)
    same(ssa, run_ssa, f"linear_to_ssa({linear})")
    lin = paths.ssa_to_linear(ssa0)
    same(lin, run_linear, f"ssa_to_linear({ssa0})")
    same(paths.ssa_to_linear(ssa), run_linear, f"ssa_to_linear(linear_to_ssa({linear}))")
    same(paths.linear_to_ssa(lin), run_ssa, f"linear_to_ssa(ssa_to_linear({ssa0}))")
    if [tuple(p) for p in linear] != keep_l or ssa0 != keep_s:
        raise Violation(f"converting {keep_l} modified the path that was passed in")
    st.states += 1
    st.traces += 4
    st.outcome("trees", hash(tuple(want)) & 0xFFFFFF)


def orders(path):
    return itertools.product(*(list(itertools.permutations(p)) for p in path))


def rec(n, pairs, singles):
    if n == 1 and not singles:
        yield []
        return
    if n == 1:
        yield []
    if singles:
        for i in range(n):
            for rest in rec(n, pairs, singles - 1):
                yield [(i,)] + rest
    for k in range(2, (2 if pairs else n) + 1):
        for c in itertools.combinations(range(n), k):
            for rest in rec(n - k + 1, pairs, singles):
                yield [c] + rest


def gen_any(tier):
    for n in range(1, (7 if tier == "thorough" else 6) + 1):
        for p in rec(n, False, 0):
            yield [n, p]


def gen_pairs(tier):
    for n in (7, 8) if tier == "thorough" else (7,):
        # group by first two steps to keep the cases coarse
        for a in itertools.combinations(range(n), 2):
            for b in itertools.combinations(range(n - 1), 2):
                yield [n, [a, b]]


def gen_singles(tier):
    for n in range(1, 5):
        for s in (1, 2) if n < 4 else (1, 2):
            for p in rec(n, False, s):
                if any(len(x) == 1 for x in p):
                    yield [n, p]


def gen_structured():
    for n in range(8, 65):
        fam = {
            "left": [(0, 1)] + [(0, n - 2 - k) for k in range(n - 2)],
            "front": [(0, 1)] * (n - 1),
            "back": [(n - 2 - k, n - 1 - k) for k in range(n - 1)],
            "ends": [(0, n - 1 - k) for k in range(n - 1)],
            "all": [tuple(range(n))],
            "reversed": [tuple(range(n))[::-1]],
            "threes": [(0, 1, 2)] * ((n - 1) // 2) + ([(0, 1)] if (n - 1) % 2 else []),
            "middle": [tuple(sorted({(n - k) // 2, (n - k) // 2 - 1})) for k in range(n - 1)],
            "alternate": [(0, n - 1 - k) if k % 2 else (n - 1 - k, 0) for k in range(n - 1)],
        }
        for name in fam:
            yield [n, fam[name]]


def run_plain(case, st):
    n, path = case
    path = [tuple(p) for p in path]
    check(path, n, st)
    if n <= 3:
        check([list(p) for p in path], n, st)


def run_orders(top):
    def run(case, st):
        n, path = case
        if n > top:
            return run_plain(case, st)
        for p in orders(path):
            check(list(p), n, st)

    return run


def run_pairs(case, st):
    n, head = case
    head = [tuple(p) for p in head]
    for rest in rec(n - 2, True, 0):
        check(head + rest, n, st)


# --- contraction trees ---------------------------------------------------------------------------


def leaves(t):
    return frozenset([t]) if isinstance(t, int) else frozenset().union(*(leaves(c) for c in t))


def nodes(t):
    if isinstance(t, int):
        return []
    return [frozenset(leaves(c) for c in t)] + [x for c in t for x in nodes(c)]


def to_tree(x):
    return x if isinstance(x, int) else tuple(to_tree(c) for c in x)


def gen_trees(seq):
    """All ordered trees over the leaf sequence with nodes of >= 2 children."""
    if len(seq) == 1:
        yield seq[0]
        return
    for comp in compositions(len(seq)):
        if len(comp) < 2:
            continue
        parts, k = [], 0
        for c in comp:
            parts.append(list(gen_trees(seq[k : k + c])))
            k += c
        yield from itertools.product(*parts)


def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        comp, c = [], 1
        for b in bits:
            if b:
                comp.append(c)
                c = 1
            else:
                c += 1
        comp.append(c)
        yield comp


def with_single(t):
    """t with one single-child node inserted at each place."""
    yield (t,)
    if not isinstance(t, int):
        for k, c in enumerate(t):
            for w in with_single(c):
                yield t[:k] + (w,) + t[k + 1 :]


def gen_tree_cases(tier):
    for n in range(1, (6 if tier == "thorough" else 5) + 1):
        for perm in itertools.permutations(range(n)):
            yield ["perm", list(perm)]


def run_tree(case, st):
    fn = getattr(paths, "_tree_to_sequence", None)
    perm = tuple(case[1])
    n = len(perm)
    for t in gen_trees(perm):
        variants = [t]
        if n <= 4:
            variants += list(with_single(t))
        for v in variants:
            st.states += 1
            if fn is not None:
                got = fn(v)
                well_formed(got, f"_tree_to_sequence({v})")
                steps = run_linear(got, n)
                if steps is None or sorted(map(key, steps)) != sorted(map(key, nodes(v))):
                    raise Violation(f"the path {got} for the tree {v} does not perform exactly its contractions")
                st.transitions += len(got)
            st.traces += 1
    stt = getattr(paths, "simple_tree_tuple", None)
    if stt is not None:
        t = stt(list(perm))
        want = perm[0]
        for x in perm[1:]:
            want = (want, x)
        if t != want:
            raise Violation(f"simple_tree_tuple({list(perm)}) is {t}")


def key(s):
    return sorted(sorted(x) for x in s)


# --- converted paths contract to the same value --------------------------------------------------


def gen_numeric():
    for n in range(2, 5):
        for p in rec(n, False, 0):
            for q in orders(p):
                yield [n, [list(x) for x in q]]


def run_numeric(case, st):
    n, path = case
    path = [tuple(p) for p in path]
    terms = ["ab", "bc", "cad", "de"][:n]
    out = "eb"[: max(0, n - 2)] if n >= 4 else "a"
    ops = util.arrays(terms, util.sizes(enum.letters_of(terms)))
    want = oracle.einsum(terms, out, ops)
    got = oe.contract(util.eq(terms, out), *ops, optimize=paths.ssa_to_linear(paths.linear_to_ssa(path)))
    if not util.same(got, want):
        raise Violation(f"contracting {util.eq(terms, out)} along the converted path of {path} gives {util.show(got)}, expected {util.show(want)}")
    st.states += 1
    st.transitions += len(path)
    st.traces += 1


def spaces(tier):
    return [
        ("any-arity", lambda: gen_any(tier), run_orders(6 if tier == "thorough" else 5)),
        ("single-term-steps", lambda: gen_singles(tier), run_orders(4)),
        ("pairwise", lambda: gen_pairs(tier), run_pairs),
        ("structured", gen_structured, run_plain),
        ("trees", lambda: gen_tree_cases(tier), run_tree),
        ("numeric", gen_numeric, run_numeric),
    ]
