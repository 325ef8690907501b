"""C34: random greedy draws each contraction with the documented probabilities."""

import itertools
import math
import random

from mc import convlib, oracle, util
from mc.core import Violation

ID = "C34"
TECHNIQUE = "explicit-state probabilistic model checking: all outcomes of all random draws of the real trial function are explored under a controlled random generator (every quantile of a grid per draw), and the resulting distribution over paths is compared with the one computed on a reference model"
BOUNDS = {
    "quick": "all graphs of 3 tensors x all subsets of open indices x batch index or not x all bond sizes from (2,5), all graphs of 4 tensors x 5 sets of open indices x 2 size patterns; 23 resp. 9 settings of temperature, its scaling, branching and cost function set one after the other on one optimizer; 100 quantiles per draw",
    "thorough": "4 tensors x all subsets of open indices x 2 size patterns x 23 settings, 200 quantiles per draw",
}
ASSUMPTIONS = [
    "every index is on at most two tensors and two tensors share at most one index at the beginning; no two tensors have the same indices at any point",
    "the noise of the jittered cost function is held at its mean",
    "the standard library's random module is the source of randomness",
    "where candidates of equal cost straddle the branching limit either may be considered: such settings are not compared",
]


class Controlled(random.Random):
    """random() follows a script; everything else of the standard generator is derived from it."""

    script, used = (), 0

    def random(self):
        k = self.used
        self.used = k + 1
        return self.script[k] if k < len(self.script) else 0.5

    def seed(self, *a, **k):
        pass

    def gauss(self, mu=0.0, sigma=1.0):
        return mu

    normalvariate = gauss


CTRL = Controlled()
OE = None


def prepare(tier):
    """Import a copy of the package that sees the controlled generator."""
    global OE
    real = {}
    for name in dir(random):
        if hasattr(random.Random, name) and callable(getattr(random, name)) and not name.startswith("_"):
            real[name] = getattr(random, name)
            setattr(random, name, getattr(CTRL, name))
    real["Random"] = random.Random
    random.Random = lambda *a: CTRL
    OE = convlib.second_copy("opt_einsum")
    OE.path_random, OE.paths  # noqa: B018


COSTS = {"memory-removed": None, "memory-removed-jitter": None, "result": lambda s12, s1, s2, k12, k1, k2: s12, "fraction": lambda s12, s1, s2, k12, k1, k2: s12 / 64, "negative": lambda s12, s1, s2, k12, k1, k2: -s12 - s1 - s2}


def cost_of(name, s12, s1, s2):
    return s12 - s1 - s2 if COSTS[name] is None else COSTS[name](s12, s1, s2, None, None, None)


class Skip(Exception):
    pass


def model(terms, out, sd, cfg, st):
    """Distribution over the sequences of contractions while connected tensors remain."""
    temp, rel, nbranch, cname = cfg
    start = {k: frozenset(t) for k, t in enumerate(terms)}
    kept = frozenset(out) | frozenset.intersection(*start.values())
    out_eff = kept
    dist = {}

    def go(cur, nxt, seq, prob):
        st.states += 1
        if len(set(cur.values())) < len(cur):
            raise Skip("same index sets")
        cand = []
        for i, j in itertools.combinations(sorted(cur), 2):
            if (cur[i] & cur[j]) - kept:
                others = [v for k, v in cur.items() if k not in (i, j)]
                k12 = (cur[i] | cur[j]) & frozenset().union(out_eff, *others)
                cand.append((cost_of(cname, oracle.size(k12, sd), oracle.size(cur[i], sd), oracle.size(cur[j], sd)), i, j, k12))
        if not cand:
            dist[seq] = dist.get(seq, 0) + prob
            return
        cand.sort(key=lambda c: c[0])
        if nbranch == 1:
            if len(cand) > 1 and cand[1][0] == cand[0][0]:
                raise Skip("tie")
        elif len(cand) > nbranch and cand[nbranch - 1][0] == cand[nbranch][0]:
            raise Skip("tie at the branching limit")
        cand = cand[:nbranch]
        cmin = cand[0][0]
        t = temp * (max(1, abs(cmin)) if rel else 1)
        w = [(1.0 if c[0] == cmin else 0.0) if t == 0 else math.exp(-(c[0] - cmin) / t) for c in cand]
        for (c, i, j, k12), x in zip(cand, w):
            st.transitions += 1
            if x > 0:
                rest = {k: v for k, v in cur.items() if k not in (i, j)}
                rest[nxt] = k12
                go(rest, nxt + 1, seq + ((i, j),), prob * x / sum(w))

    go(start, len(terms), (), 1.0)
    return dist


def explore(trial, steps, grid, st):
    """Distribution over the first steps of the paths of the real trial function."""

    def run(script):
        CTRL.script, CTRL.used = script, 0
        path = trial()
        st.traces += 1
        return tuple(tuple(sorted(p)) for p in path[:steps]), CTRL.used

    total = {}

    def go(prefix, prob):
        path, used = run(prefix)
        if used <= len(prefix) or len(prefix) >= steps:
            total[path] = total.get(path, 0) + prob
            return
        groups = {}
        for k in range(grid):
            u = (k + 0.5) / grid
            groups.setdefault(run(prefix + (u,))[0], []).append(u)
        for us in groups.values():
            go(prefix + (us[len(us) // 2],), prob * len(us) / grid)

    go((), 1.0)
    return total


def run_case(case, st):
    terms, out, sd, cfgs, grid = case
    if OE is None:
        prepare("quick")
    ins, o = [frozenset(t) for t in terms], frozenset(out)
    opt = OE.RandomGreedy()
    for cfg in cfgs:
        temp, rel, nbranch, cname = cfg
        try:
            want = model(terms, out, sd, cfg, st)
        except Skip as e:
            st.count(f"skipped: {e}")
            continue
        opt.temperature, opt.rel_temperature, opt.nbranch = temp, rel, nbranch
        opt.cost_fn = COSTS[cname] or cname
        fn, args = opt.setup(ins, o, dict(sd))
        steps = max(map(len, want))
        got = explore(lambda: fn(1, *args)[0], steps, grid, st)
        st.count("compared")
        for p in set(got) | set(want):
            a, b = got.get(p, 0.0), want.get(p, 0.0)
            if abs(a - b) > 1.2 * steps / grid or (b == 0 and a > 0) or (a == 0 and b > steps / grid):
                raise Violation(
                    f"RandomGreedy(temperature={temp}, rel_temperature={rel}, nbranch={nbranch}, cost_fn={cname}) on {util.eq(terms, out)} sizes={sd}: "
                    f"contractions {list(p)} are drawn with probability {a:.3f}, documented is {b:.3f}"
                )


ALL = [
    [t, r, n, c]
    for c in ("memory-removed", "memory-removed-jitter", "result", "negative")
    for t, r, n in ((1.0, True, 8), (0.0, True, 8), (0.3, True, 2), (20.0, False, 8), (2, False, 3))
] + [[0.5, True, 1, "memory-removed"], [0.5, True, 8, "fraction"], [0.1, False, 8, "fraction"]]
FEW = [[1.0, True, 8, "memory-removed"], [30.0, False, 8, "memory-removed-jitter"], [0.4, True, 3, "result"], [0, False, 8, "memory-removed"], [1, True, 2, "negative"], [0.2, True, 8, "memory-removed-jitter"], [1.0, True, 1, "memory-removed"], [0.7, True, 5, "negative"], [0.5, True, 8, "fraction"]]


def graphs(n):
    edges = list(itertools.combinations(range(n), 2))
    for k in range(1, len(edges) + 1):
        yield from itertools.combinations(edges, k)


def network(n, es, opened, batch, bond, free):
    terms, sd, out = [""] * n, {}, ""
    for k, (a, b) in enumerate(es):
        c = "abcdef"[k]
        terms[a] += c
        terms[b] += c
        sd[c] = bond[k % len(bond)]
    for k, v in enumerate(opened):
        c = "uvwx"[v]
        terms[v] += c
        out += c
        sd[c] = free[v % len(free)]
    if batch:
        terms = [t + "z" for t in terms]
        out, sd["z"] = out + "z", 2
    return terms, out, sd


def gen3(grid):
    def gen():
        for es in graphs(3):
            for r in range(4):
                for opened in itertools.combinations(range(3), r):
                    for batch in (False, True):
                        for bond in itertools.product((2, 5), repeat=len(es)):
                            yield [*network(3, es, opened, batch, bond, (3, 2, 7)), ALL, grid]

    return gen


def gen4(grid, opens, pats, cfgs):
    def gen():
        for es in graphs(4):
            for opened in opens:
                for k, bond in enumerate(pats):
                    yield [*network(4, es, opened, False, bond, (3, 2, 7, 4) if k % 2 else (2, 2, 3, 2)), cfgs, grid]

    return gen


PATS = ((2, 3, 5, 4, 7, 6), (3, 3, 2, 2, 5, 4), (2, 2, 2, 2, 2, 2), (9, 2, 4, 3, 2, 8))


def spaces(tier):
    q = tier == "quick"
    every = [s for r in range(5) for s in itertools.combinations(range(4), r)]
    return [
        ("three-tensors", gen3(100 if q else 200), run_case),
        ("four-tensors", gen4(100 if q else 200, [(), (0,), (1, 2), (0, 1, 2, 3), (3,)] if q else every, PATS[:2], FEW if q else ALL), run_case),
    ]
