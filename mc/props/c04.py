"""C04: the optimal strategy attains the minimum flop count."""

import itertools

import opt_einsum as oe

from mc import enum, oracle, util
from mc.core import Violation

ID = "C04"
TECHNIQUE = "explicit-state search of the contraction game (all pairwise sequences) as oracle; real finder's reported cost compared on every network"
BOUNDS = {
    "quick": "all networks with 3 tensors/<=5 indices, 4 tensors/<=4 indices, 5 tensors/<=3 indices (each summed index on >=2 "
    "tensors, all outputs), size patterns incl. equal, unit and zero sizes; rings, chains, cliques of 5-6 tensors with all "
    "size assignments over {2,3} or {2,5}; the game model is itself validated against brute force over all paths",
    "thorough": "4 tensors/<=5 indices, 5 tensors/<=4 indices, 6 tensors/<=2 indices",
}
ASSUMPTIONS = [
    "networks in which a summed index appears on a single operand are outside the claim: there the search's cost model and the "
    "report count the extra summation differently"
]


def in_scope(terms, out):
    return all(c in out or sum(c in t for t in terms) >= 2 for c in enum.letters_of(terms))


def reported(st, terms, out, sd, opt, limit=None):
    shapes = [tuple(sd[c] for c in t) for t in terms]
    path, info = oe.contract_path(util.eq(terms, out), *shapes, shapes=True, optimize=opt, memory_limit=limit)
    st.transitions += 1
    st.traces += 1
    return path, int(info.opt_cost)


def run(case, st):
    terms, out, sd = case
    if isinstance(sd, str):
        sd = util.sizes(enum.letters_of(terms), sd)
    best = oracle.min_flops(terms, out, sd, stats=st)
    n = len(terms)
    if n <= 3:
        # conformance of the model: brute force over every pairwise path
        bf = min(sum(oracle.path_costs(p, terms, out, sd)[0]) for p in oracle.all_paths(n) if all(len(s) == 2 for s in p))
        if bf != best:
            raise RuntimeError(f"model error {bf} != {best}")
    exact = ["optimal"] + (["auto"] if n <= 4 else []) + (["auto-hq"] if n <= 5 else [])
    for opt in exact:
        path, cost = reported(st, terms, out, sd, opt)
        if cost != best:
            raise Violation(f"{util.eq(terms, out)} sizes={sd} {opt}: path {path} reports {cost} flops, minimum is {best}")
    path, cost = reported(st, terms, out, sd, "optimal", 10**12)
    if cost != best:
        raise Violation(f"{util.eq(terms, out)} sizes={sd} optimal, huge memory_limit: path {path} has {cost} flops, minimum is {best}")
    true = sum(oracle.path_costs(path, terms, out, sd)[0])
    if true != best:
        raise Violation(f"{util.eq(terms, out)} sizes={sd} optimal: path {path} really costs {true}, minimum is {best}")
    for opt in ("branch-all", "greedy", "dp", "branch-1"):
        path, cost = reported(st, terms, out, sd, opt)
        if all(len(p) == 2 for p in path) and cost < best:
            raise Violation(f"{util.eq(terms, out)} sizes={sd} {opt}: reports {cost} < minimum {best} for {path}")
        st.outcome(f"{opt} excess", cost == best)


def gen_net(n, m, patterns):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                if in_scope(terms, out):
                    for p in patterns:
                        yield [terms, out, p]
    return gen


def gen_shapes(q):
    """All size assignments of fixed topologies."""
    topo = [
        (["ab", "bc", "cd", "de"], "ae"),
        (["ab", "bc", "cd", "da"], ""),
        (["abc", "ade", "bdf", "cef"], ""),
        (["ab", "ac", "ad", "ae"], "bcde"),
        (["ea", "fb", "abcd", "gc", "hd"], "efgh"),
        (["ab", "bc", "cd", "de", "ef"], "af"),
        (["ab", "bc", "cd", "de", "ea"], ""),
        (["a", "a", "ab", "b"], ""),
        (["xab", "xbc", "xcd", "xda"], "x"),
        (["ab", "ab", "bc", "ca"], "c"),
    ]

    def gen():
        for terms, out in topo:
            letters = enum.letters_of(terms)
            for pair in ((2, 3), (2, 7), (1, 4)) if not q else ((2, 7), (1, 3)):
                for vals in itertools.product(pair, repeat=len(letters)):
                    yield [terms, out, dict(zip(letters, vals))]
    return gen


def gen_dup():
    """Networks with repeated identical index sets and nested index sets: the same pair in different contexts."""
    pool = ["a", "b", "ab", "abc", "bc", "ac", "c", ""]
    for terms in itertools.combinations_with_replacement(pool, 4):
        terms = list(terms)
        for out in enum.subsets(enum.letters_of(terms)):
            if in_scope(terms, out):
                for perm in (terms, terms[::-1]):
                    yield [perm, out, "mix"]


def spaces(tier):
    q = tier == "quick"
    return [
        ("three-tensors", gen_net(3, 4 if q else 5, ("mix", "two", "first1", "zero")), run),
        ("four-tensors", gen_net(4, 3, ("mix", "rev")) if q else gen_net(4, 4, ("mix", "rev")), run),
        ("five-tensors", gen_net(5, 2, ("mix",)) if q else gen_net(5, 3, ("mix",)), run),
        ("nested-duplicates", gen_dup, run),
        ("hyperedges", enum.hyper(5 if q else 6, ("mix", "rev"), in_scope), run),
        ("all-sizes", gen_shapes(q), run),
    ]
