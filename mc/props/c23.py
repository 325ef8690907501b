"""C23: the greedy strategy follows its documented three stages."""

import itertools

import opt_einsum as oe
from opt_einsum import paths

from mc import enum, oracle, util
from mc.core import Violation
from mc.finders import isets

ID = "C23"
TECHNIQUE = "complete enumeration of small networks and sizes; every path found by the real code is replayed move by move on the contraction game and each move checked against the moves its stage allows"
BOUNDS = {
    "quick": "all networks of 2-3 tensors with <=4 indices, 4 tensors with <=3, 5 tensors with <=2, every output, 2-4 size patterns; 4 tensors out of 8 nested index sets in all multisets; 10 topologies under all sizes from two values; 7 hypergraphs of 5-7 tensors with every output; "
    "structured families of 6..40 tensors; default, 3 custom cost functions, and random greedy at temperature zero (trials 0-3)",
    "thorough": "4 tensors with <=4 indices, 5 tensors with <=3, 6 tensors with <=2, families of up to 120 tensors",
}
ASSUMPTIONS = [
    "custom cost functions: elementwise products that only arise during the second stage need not come first (assessments of an index set that arises again may be outdated)",
    "no memory limit (with one, greedy is a single-branch search: C22, C06)",
    "a summed index occurs on at least two operands for the rule on outer products (their sizes are otherwise not the sizes of the results)",
]

COSTS = {
    "memory-removed": lambda s12, s1, s2, k12, k1, k2: s12 - s1 - s2,
    "result": lambda s12, s1, s2, k12, k1, k2: s12,
    "largest-first": lambda s12, s1, s2, k12, k1, k2: -s12,
    "rank": lambda s12, s1, s2, k12, k1, k2: (len(k12) - len(k1) - len(k2)),
}


def in_scope(terms, out):
    return all(c in out or sum(c in t for t in terms) >= 2 for c in enum.letters_of(terms))


def replay(path, fn, terms, out, sd, what, st, every_step=False, seen_wanted=False, lenient=False):
    """Play the path; raises if a move does not belong to the stage the game is in."""
    cur = isets(terms)
    n = len(cur)
    bad = oracle.check_path(list(path), n)
    where = f"{what} on {util.eq(terms, out)} sizes={sd}"
    if bad:
        raise Violation(f"{where}: {path} is not a complete path: {bad}")
    if n == 1:
        return set()
    seen = set()  # (k1, k2, result) of every pair that could be contracted at some point
    kept = frozenset(out) | frozenset.intersection(*cur)  # cannot be summed before the last step
    started = last = False
    for p in path:
        if len(p) != 2:
            raise Violation(f"{where}: step {p} of {path} is not a pair")
        i, j = p
        a, b = cur[i], cur[j]
        pairs = list(itertools.combinations(range(len(cur)), 2))
        same = [q for q in pairs if cur[q[0]] == cur[q[1]]]
        linked = [q for q in pairs if (cur[q[0]] & cur[q[1]]) - kept]
        q = (min(i, j), max(i, j))
        last = last or not (linked or (same and not (started and lenient and q not in same)))
        if seen_wanted and not last:
            for x, y in linked:
                seen.add((frozenset((cur[x], cur[y])), oracle.contract_pair(cur, out_eff(out, kept), x, y)[0]))
        if same and not last and not (started and lenient and q not in same):
            if q not in same:
                raise Violation(f"{where}: step {p} of {path} comes before the Hadamard product of tensors with the same indices")
            st.count("hadamard steps")
        elif linked and not last:
            if q not in linked:
                raise Violation(f"{where}: step {p} of {path} is an outer product while tensors sharing a contractible index remain")
            if (not started or every_step):
                cost = {}
                for x, y in linked:
                    k12 = oracle.contract_pair(cur, out_eff(out, kept), x, y)[0]
                    cost[x, y] = fn(oracle.size(k12, sd), oracle.size(cur[x], sd), oracle.size(cur[y], sd), k12, cur[x], cur[y])
                if cost[q] != min(cost.values()):
                    raise Violation(f"{where}: step {p} of {path} has cost {cost[q]}, the best pair has {min(cost.values())}")
            started = True
            st.count("contraction steps")
        else:
            if in_scope(terms, out):
                sizes = sorted(oracle.size(t & kept, sd) for t in cur)
                mine = sorted(oracle.size(cur[x] & kept, sd) for x in q)
                if mine != sizes[:2]:
                    raise Violation(f"{where}: outer product {p} of {path} joins tensors of sizes {mine}, the smallest are {sizes[:2]}")
            st.count("outer steps")
        st.transitions += 1
        # an elementwise product keeps its index set; what it sums is dropped when the result is next contracted
        nxt = oracle.step(cur, out_eff(out, kept), q)[2]
        cur = nxt if a != b or last else nxt[:-1] + [a]
    st.states += 1
    st.traces += 1
    return seen


def out_eff(out, kept):
    return frozenset(out) | kept


def run(case, st):
    terms, out, sd = case[:3]
    if isinstance(sd, str):
        sd = util.sizes(enum.letters_of(terms), sd)
    ins, o = isets(terms), frozenset(out)
    for name, fn in COSTS.items():
        wrong, asked = [], set()

        def cost(s12, s1, s2, k12, k1, k2):
            if (s12, s1, s2) != (oracle.size(k12, sd), oracle.size(k1, sd), oracle.size(k2, sd)):
                wrong.append((s12, s1, s2, sorted(k12), sorted(k1), sorted(k2)))
            asked.add((frozenset((k1, k2)), frozenset(k12)))
            return fn(s12, s1, s2, k12, k1, k2)

        path = list(paths.greedy(ins, o, dict(sd), cost_fn=cost))
        if wrong:
            raise Violation(f"greedy on {util.eq(terms, out)} sizes={sd}: the cost function was given wrong sizes {wrong[0]}")
        seen = replay(path, fn, terms, out, sd, f"greedy(cost_fn={name})", st, seen_wanted=True, lenient=name != "memory-removed")
        # for other costs an outdated assessment of a pair of index sets that came into being again may be taken
        for ks, k12 in asked - seen if name == "memory-removed" else ():
            raise Violation(
                f"greedy(cost_fn={name}) on {util.eq(terms, out)} sizes={sd}: the pair {[''.join(sorted(k)) for k in ks]} was assessed with the result {''.join(sorted(k12))!r}, "
                f"which it never has along the path {path}"
            )
    default = list(paths.greedy(ins, o, dict(sd)))
    replay(default, COSTS["memory-removed"], terms, out, sd, "greedy", st)
    if len(terms) > 2:
        shapes = [tuple(sd[c] for c in t) for t in terms]
        got = list(oe.contract_path(util.eq(terms, out), *shapes, shapes=True, optimize="greedy")[0])
        if got != default:
            replay(got, COSTS["memory-removed"], terms, out, sd, "optimize='greedy'", st)
    if len(terms) > 1 and (len(case) < 4):
        # the repeatable trials of the random search: trial 0 is plain greedy, temperature zero only takes least-cost pairs
        for nbranch in (8, 2):
            opt = oe.RandomGreedy(cost_fn="memory-removed", temperature=0, nbranch=nbranch)
            fn, args = opt.setup(ins, o, dict(sd))
            for r in range(4):
                ssa = fn(r, *args)[0]
                path = list(paths.ssa_to_linear(ssa))
                replay(path, COSTS["memory-removed"], terms, out, sd, f"RandomGreedy(temperature=0, nbranch={nbranch}) trial {r}", st, every_step=r > 0)
                if r == 0 and path != default:
                    raise Violation(f"the first trial of RandomGreedy on {util.eq(terms, out)} sizes={sd} is {path}, not the greedy path {default}")


def gen_net(n, m, patterns):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                for p in patterns:
                    yield [terms, out, p]

    return gen


def gen_dup():
    pool = ["a", "b", "ab", "abc", "bc", "ac", "c", ""]
    for terms in itertools.combinations_with_replacement(pool, 4):
        for out in enum.subsets(enum.letters_of(terms)):
            yield [list(terms)[::-1], out, "mix"]


def topologies():
    return [
        (["ab", "bc", "cd", "de"], "ae"),
        (["ab", "bc", "cd", "da"], ""),
        (["abc", "ade", "bdf", "cef"], ""),
        (["ab", "ac", "ad", "ae"], "bcde"),
        (["ab", "bc", "cd", "de", "ef"], "af"),
        (["ab", "bc", "cd", "de", "ea"], ""),
        (["a", "a", "ab", "b"], ""),
        (["xab", "xbc", "xcd", "xda"], "x"),
        (["ab", "ab", "bc", "ca"], "c"),
        (["a", "b", "c", "d", "e"], "abcde"),
    ]


def gen_sizes(q):
    def gen():
        for terms, out in topologies():
            letters = enum.letters_of(terms)
            for pair in ((2, 7),) if q else ((2, 3), (2, 7), (1, 4)):
                for vals in itertools.product(pair, repeat=len(letters)):
                    yield [terms, out, dict(zip(letters, vals))]
        for vals in itertools.permutations((2, 3, 5, 7, 11)):
            for terms, out in topologies():
                letters = enum.letters_of(terms)
                if len(letters) == 5:
                    yield [terms, out, dict(zip(letters, vals))]

    return gen


def gen_structured(top):
    def gen():
        for n in range(6, top + 1, 1 if top <= 40 else 3):
            for name, terms, out in enum.structured(n):
                for pat in ("mix", "rev"):
                    yield [terms, out, pat, "structured"]

    return gen


def gen_rings():
    from mc.props.c21 import family

    for n in range(5, 13):
        for terms, out, sd in family(n):
            yield [terms, out, sd]


def spaces(tier):
    q = tier == "quick"
    return [
        ("hyperedges", enum.hyper(), run),
        ("structured", gen_structured(40 if q else 120), run),
        ("rings", gen_rings, run),
        ("two-tensors", gen_net(2, 4, ("mix", "two", "first1", "zero")), run),
        ("three-tensors", gen_net(3, 4 if q else 5, ("mix", "first1", "zero")), run),
        ("four-tensors", gen_net(4, 3 if q else 4, ("mix",)), run),
        ("five-tensors", gen_net(5, 2 if q else 3, ("rev",)), run),
        ("nested-duplicates", gen_dup, run),
        ("all-sizes", gen_sizes(q), run),
    ] + ([] if q else [("six-tensors", gen_net(6, 2, ("rev",)), run)])
