"""C22: branch and bound returns the best path of its search space."""

import itertools
import math

import opt_einsum as oe
from opt_einsum import paths

from mc import enum, oracle, util
from mc.core import Violation
from mc.finders import isets

ID = "C22"
TECHNIQUE = "explicit-state search of the restricted contraction game (pairs sharing an index while any exist), keeping all Pareto-optimal (flops, size) outcomes, as oracle; the real search run on every network, size pattern and configuration"
BOUNDS = {
    "quick": "all networks of 2-3 tensors with <=4 indices, 4 tensors with <=3, 5 tensors with <=2 (every index kept or shared by two or more), every output, 2-4 size patterns; "
    "6 hypergraphs of 5-6 tensors with every output, 10 topologies of 4-5 tensors under all sizes from two values; rings with chords of 6-7 tensors and cliques of 4-6; x both criteria x 5 ways to switch off branching limit and cutoff; "
    "memory limits at every operand size, the result size, 1, 2 and twice the largest (flops, full branching) on networks of 3 tensors/<=4 indices, 4/<=3, 5/1 and the topologies; nbranch 1,2,3 x cutoff None,1,2,4 for validity, nbranch=1 against each of 5 cost functions step by step; rejected parameters",
    "thorough": "4 tensors with <=4 indices, 5 tensors with <=3, 6 tensors with <=2; all size assignments over three pairs of sizes",
}
ASSUMPTIONS = ["a summed index occurs on at least two operands (otherwise flop counts are model dependent)"]


def in_scope(terms, out):
    return all(c in out or sum(c in t for t in terms) >= 2 for c in enum.letters_of(terms))


def pareto(points):
    best, out = math.inf, []
    for f, s in sorted(points):
        if s < best:
            out.append((f, s))
            best = s
    return out


def outcomes(terms, out, sd, st):
    """All Pareto-optimal (total flops, largest intermediate) of pairwise paths of the restricted game."""
    out = frozenset(out)
    memo = {}

    def go(state):
        if len(state) == 1:
            return [(0, 0)]
        if state in memo:
            return memo[state]
        moves = list(itertools.combinations(range(len(state)), 2))
        moves = [m for m in moves if state[m[0]] & state[m[1]]] or moves
        points, done = set(), set()
        for i, j in moves:
            if (state[i], state[j]) in done:
                continue
            done.add((state[i], state[j]))
            k12, either, inner = oracle.contract_pair(state, out, i, j)
            nxt = tuple(sorted([s for k, s in enumerate(state) if k not in (i, j)] + [k12], key=sorted))
            c, z = oracle.size(either, sd) * (2 if inner else 1), oracle.size(k12, sd)
            st.transitions += 1
            for f, s in go(nxt):
                points.add((f + c, max(s, z)))
        memo[state] = pareto(points)
        st.states += 1
        return memo[state]

    return go(tuple(sorted(isets(terms), key=sorted)))


def measure(path, terms, out, sd):
    fl, sizes, _, _ = oracle.path_costs(path, terms, out, sd)
    return sum(fl), max(sizes)


def call(opt, terms, out, sd, st, what):
    ins = isets(terms)
    path = opt(ins, frozenset(out), dict(sd), None)
    bad = oracle.check_path(list(path), len(terms))
    st.transitions += 1
    st.traces += 1
    if bad:
        raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: {path} is not a complete path: {bad}")
    return list(path)


FULL = (
    {"nbranch": None, "cutoff_flops_factor": None},
    {"nbranch": 10**6, "cutoff_flops_factor": None},
    {"nbranch": None, "cutoff_flops_factor": 10**15},
)


def run(case, st):
    terms, out, sd = case
    if isinstance(sd, str):
        sd = util.sizes(enum.letters_of(terms), sd)
    front = outcomes(terms, out, sd, st)
    for minimize in ("flops", "size"):
        key = (lambda p: p) if minimize == "flops" else (lambda p: (p[1], p[0]))
        want = min(map(key, front))
        configs = list(FULL) + [{"nbranch": None, "cutoff_flops_factor": None, "cost_fn": c} for c in ("zero", "worst first")]
        for k, cfg in enumerate(configs):
            if k in (1, 2) and 0 in sd.values():
                continue
            kw = dict(cfg, minimize=minimize)
            if kw.get("cost_fn") == "zero":
                kw["cost_fn"] = lambda *a: 0
            elif kw.get("cost_fn") == "worst first":
                kw["cost_fn"] = lambda s12, s1, s2, *a: s1 + s2 - 10 * s12
            what = f"BranchBound({dict(cfg, minimize=minimize)})"
            path = call(oe.BranchBound(**kw), terms, out, sd, st, what)
            if any(len(p) != 2 for p in path):
                raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: {path} is not pairwise")
            got = key(measure(path, terms, out, sd))
            if got > want:
                names = ("flops", "largest intermediate") if minimize == "flops" else ("largest intermediate", "flops")
                raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: path {path} has {names}={got}, a path contracting only connected tensors reaches {want}")
            st.outcome("better than the restricted space", got < want)
    if len(front) > 1:
        st.count("criteria conflict")


def cheapest_within(terms, out, sd, limit, st):
    """Least flops of the restricted game where intermediates are limited (the result is not); the remaining tensors may be contracted all at once."""
    out = frozenset(out)
    memo = {}

    def go(state):
        if len(state) == 1:
            return 0
        if state in memo:
            return memo[state]
        moves = list(itertools.combinations(range(len(state)), 2))
        moves = [m for m in moves if state[m[0]] & state[m[1]]] or moves
        best = math.inf
        for i, j in moves:
            k12, either, inner = oracle.contract_pair(state, out, i, j)
            st.transitions += 1
            if oracle.size(k12, sd) > limit and len(state) > 2:
                involved, res, _ = oracle.step(list(state), out, tuple(range(len(state))))
                rest = oracle.size(involved, sd) * (len(state) - 1 + (1 if involved - res else 0))
                best = min(best, rest)
                continue
            nxt = tuple(sorted([s for k, s in enumerate(state) if k not in (i, j)] + [k12], key=sorted))
            best = min(best, oracle.size(either, sd) * (2 if inner else 1) + go(nxt))
        memo[state] = best
        st.states += 1
        return best

    return go(tuple(sorted(isets(terms), key=sorted)))


def run_limit(case, st):
    terms, out, sd = case
    if isinstance(sd, str):
        sd = util.sizes(enum.letters_of(terms), sd)
    sizes = sorted({oracle.size(t, sd) for t in isets(terms)} | {oracle.size(out, sd), 1, 2})
    for limit in [x for x in sizes if x > 0] + [sizes[-1] * 2]:
        want = cheapest_within(terms, out, sd, limit, st)
        for cfg in ({"nbranch": None, "cutoff_flops_factor": None}, {"nbranch": None, "cutoff_flops_factor": None, "cost_fn": lambda s12, s1, s2, *a: s1 + s2 - 10 * s12}):
            what = f"BranchBound(nbranch=None, cutoff_flops_factor=None{', worst first' if len(cfg) > 2 else ''}) with memory_limit={limit}"
            path = list(oe.BranchBound(**cfg)(isets(terms), frozenset(out), dict(sd), limit))
            st.transitions += 1
            st.traces += 1
            bad = oracle.check_path(path, len(terms))
            if bad:
                raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: {path} is not a complete path: {bad}")
            fl, szs, _, _ = oracle.path_costs(path, terms, out, sd)
            if any(z > limit for z in szs[:-1]):
                raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: {path} has intermediates of sizes {szs[:-1]}")
            if sum(fl) > want:
                raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: path {path} has {sum(fl)} flops, the search space contains one with {want}")
            st.outcome("steps", tuple(sorted(map(len, path))))


COSTS = {
    "memory-removed": lambda s12, s1, s2, k12, k1, k2: s12 - s1 - s2,
    "result": lambda s12, s1, s2, k12, k1, k2: s12,
    "largest-first": lambda s12, s1, s2, k12, k1, k2: -s12,
    "operands": lambda s12, s1, s2, k12, k1, k2: s1 * s2,
    "rank": lambda s12, s1, s2, k12, k1, k2: (len(k12), len(k1) + len(k2)),
}


def run_config(case, st):
    """Restricted searches stay valid, and a single branch follows the cost function."""
    terms, out, sd = case
    if isinstance(sd, str):
        sd = util.sizes(enum.letters_of(terms), sd)
    for nbranch in (1, 2, 3):
        for cutoff in (None, 1, 2, 4):
            for minimize in ("flops", "size"):
                what = f"BranchBound(nbranch={nbranch}, cutoff_flops_factor={cutoff}, minimize={minimize!r})"
                call(oe.BranchBound(nbranch=nbranch, cutoff_flops_factor=cutoff, minimize=minimize), terms, out, sd, st, what)
    for name, fn in COSTS.items():
        wrong = []

        def cost(s12, s1, s2, k12, k1, k2):
            if (s12, s1, s2) != (oracle.size(k12, sd), oracle.size(k1, sd), oracle.size(k2, sd)):
                wrong.append((s12, s1, s2, sorted(k12), sorted(k1), sorted(k2)))
            return fn(s12, s1, s2, k12, k1, k2)

        for arg in [cost] + ([name] if name == "memory-removed" else []):
            what = f"BranchBound(nbranch=1, cutoff_flops_factor=None, cost_fn={name})"
            path = call(oe.BranchBound(nbranch=1, cutoff_flops_factor=None, cost_fn=arg), terms, out, sd, st, what)
            if wrong:
                raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: the cost function was given wrong sizes {wrong[0]}")
            follows(path, fn, terms, out, sd, what)
            st.states += 1


def follows(path, fn, terms, out, sd, what):
    cur = isets(terms)
    for p in path:
        pairs = list(itertools.combinations(range(len(cur)), 2))
        pairs = [q for q in pairs if cur[q[0]] & cur[q[1]]] or pairs
        costs = {}
        for i, j in pairs:
            k12, _, _ = oracle.contract_pair(cur, out, i, j)
            costs[i, j] = fn(oracle.size(k12, sd), oracle.size(cur[i], sd), oracle.size(cur[j], sd), k12, cur[i], cur[j])
            if (fn(oracle.size(k12, sd), oracle.size(cur[j], sd), oracle.size(cur[i], sd), k12, cur[j], cur[i])) != costs[i, j]:
                raise RuntimeError("cost functions have to be symmetric")
        q = tuple(sorted(p))
        if q not in costs:
            raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: step {p} of {path} forms an outer product while tensors sharing an index remain")
        if costs[q] != min(costs.values()):
            raise Violation(f"{what} on {util.eq(terms, out)} sizes={sd}: step {p} of {path} has cost {costs[q]}, the cheapest is {min(costs.values())}")
        cur = oracle.step(cur, out, q)[2]


def run_reject(case, st):
    kw = dict(case)
    st.states += 1
    st.transitions += 1
    st.traces += 1
    try:
        opt = oe.BranchBound(**kw)
        opt(isets(["ab", "bc", "cd"]), frozenset("ad"), {"a": 2, "b": 3, "c": 4, "d": 5}, None)
    except Exception:
        return
    raise Violation(f"BranchBound({kw}) is accepted")


def gen_reject():
    for nb in (0, -1, -2, -100):
        for m in ("flops", "size"):
            yield {"nbranch": nb, "minimize": m}
            yield {"nbranch": nb, "minimize": m, "cutoff_flops_factor": None}
    for m in ("", "FLOP", "write", "combo", "sizes"):
        yield {"minimize": m}


def gen_net(n, m, patterns, min_inds=0):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                if in_scope(terms, out):
                    for p in patterns:
                        yield [terms, out, p]

    return gen


def topologies():
    return [
        (["ab", "bc", "cd", "de"], "ae"),
        (["ab", "bc", "cd", "da"], ""),
        (["abc", "ade", "bdf", "cef"], ""),
        (["ab", "ac", "ad", "ae"], "bcde"),
        (["ab", "bc", "cd", "de", "ef"], "af"),
        (["ab", "bc", "cd", "de", "ea"], ""),
        (["a", "a", "ab", "b"], ""),
        (["xab", "xbc", "xcd", "xda"], "x"),
        (["ab", "ab", "bc", "ca"], "c"),
        (["ab", "cd", "bce", "e"], "ad"),
    ]


def gen_sizes(q):
    def gen():
        for terms, out in topologies():
            letters = enum.letters_of(terms)
            for pair in ((2, 7),) if q else ((2, 3), (2, 7), (1, 4)):
                for vals in itertools.product(pair, repeat=len(letters)):
                    yield [terms, out, dict(zip(letters, vals))]

    return gen


def gen_rings():
    # every pair of tensors connected: many candidates at each step
    for n in (4, 5, 6):
        for pat in range(3):
            terms, sd = [""] * n, {}
            for k, (a, b) in enumerate(itertools.combinations(range(n), 2)):
                c = enum.LETTERS[k]
                terms[a] += c
                terms[b] += c
                sd[c] = (2, 3, 5, 4, 7, 2, 9)[(k * (pat + 1) + k * k) % 7]
            yield [terms, "", sd]
    for n in (6, 7):
        for skip in (2, 3):
            for pat in range(4):
                edges = [(i, (i + 1) % n) for i in range(n)] + [(i, (i + skip) % n) for i in range(0, n, 2 + pat % 2)]
                terms, sd = [""] * n, {}
                for k, (a, b) in enumerate(edges):
                    c = enum.LETTERS[k]
                    terms[a] += c
                    terms[b] += c
                    sd[c] = (2, 3, 5, 4, 7, 2, 9)[(k * (pat + 1) + k * k * (skip - 1)) % 7]
                yield [terms, "" if pat % 2 else "a", sd]


def gen_config(q):
    def gen():
        for n, m, pats in ((2, 3, ("mix", "zero")), (3, 3, ("mix", "first1", "zero")), (4, 3 if not q else 2, ("mix", "rev")), (5, 2, ("mix",))):
            yield from gen_net(n, m, pats)()
        yield from gen_sizes(q)()

    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        ("rings", gen_rings, run),
        ("small", gen_net(2, 4, ("mix", "two", "first1", "zero")), run),
        ("three-tensors", gen_net(3, 4, ("mix", "rev", "first1", "zero")), run),
        ("four-tensors", gen_net(4, 3 if q else 4, ("mix", "rev")), run),
        ("five-tensors", gen_net(5, 2 if q else 3, ("mix",)), run),
        ("all-sizes", gen_sizes(q), run),
        ("hyperedges", enum.hyper(6 if q else 7, ("mix",), in_scope), run),
        ("configurations", gen_config(q), run_config),
        ("limited-3", gen_net(3, 4, ("mix", "rev", "first1")), run_limit),
        ("limited-4", gen_net(4, 3, ("mix", "rev")), run_limit),
        ("limited-5", gen_net(5, 1 if q else 2, ("mix",)), run_limit),
        ("limited-sizes", gen_sizes(q), run_limit),
        ("rejected", gen_reject, run_reject),
    ] + ([] if q else [("six-tensors", gen_net(6, 2, ("rev",)), run)])
