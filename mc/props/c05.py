"""C05: dynamic programming is optimal for its objective and terminates."""

import itertools
import math

import opt_einsum as oe

from mc import core, enum, finders, oracle, util
from mc.core import Violation

ID = "C05"
TECHNIQUE = "explicit-state enumeration of all contraction trees per connected part as oracle; real dynamic programming run on every network and configuration"
BOUNDS = {
    "quick": "all networks with 2-3 tensors/<=4 indices, 4 tensors/<=3 indices, 5 tensors/<=2 indices, all outputs, objectives "
    "flops,size,write,combo,limit,combo-1,combo-256,limit-1,limit-3; cost cap on/off/0/small; outer products on/off; memory limits 1,2,4,6,12; "
    "sizes incl. 0 and 1; rings/chains/lattices of 6-8 tensors",
    "thorough": "three tensors/<=5, four tensors/<=4 indices, five tensors/<=3 indices",
}


def objective(name):
    if name in ("flops", "size", "write"):
        return name, 0
    base, _, f = name.partition("-")
    return base, float(f) if f else 64.0


def local(base, alpha, f, mem):
    if base == "flops":
        return f
    if base in ("size", "write"):
        return mem
    if base == "combo":
        return f + alpha * mem
    return max(f, alpha * mem)


def parts(terms, out, outer):
    """(reduced terms, list of connected parts, terms that reduce to a scalar on their own)."""
    cnt = {}
    for t in terms:
        for c in set(t):
            cnt[c] = cnt.get(c, 0) + 1
    single = {c for c in cnt if cnt[c] == 1 and c not in out}
    red = [frozenset(t) - single for t in terms]
    done = {k for k, t in enumerate(terms) if t and not red[k]}
    live = [k for k in range(len(terms)) if k not in done]
    if outer:
        return red, [live] if live else [], done
    comps, left = [], set(live)
    while left:
        todo, comp = [left.pop()], set()
        while todo:
            x = todo.pop()
            comp.add(x)
            nb = {y for y in left if (red[x] & red[y]) - set(out)}
            left -= nb
            todo += nb
        comps.append(sorted(comp))
    return red, comps, done


def best_tree(comp, red, out, sd, name, outer, limit, st):
    """Minimum of the objective over all binary trees of the part (math.inf if none fits the limit)."""
    base, alpha = objective(name)
    out = frozenset(out)
    memo = {}
    full = frozenset(comp)

    def legs(s):
        rest = full - s
        keep = out.union(*[red[k] for k in rest]) if rest else out
        return frozenset().union(*[red[k] for k in s]) & keep

    def go(s):
        if len(s) == 1:
            (k,) = s
            return 0
        if s in memo:
            return memo[s]
        st.states += 1
        best = math.inf
        mem = oracle.size(legs(s), sd)
        if limit is None or mem <= limit:
            items = sorted(s)
            first, rest = items[0], items[1:]
            for r in range(len(rest)):
                for sub in itertools.combinations(rest, r):
                    a = frozenset((first,) + sub)
                    b = s - a
                    la = red[next(iter(a))] if len(a) == 1 else legs(a)
                    lb = red[next(iter(b))] if len(b) == 1 else legs(b)
                    if not outer and not (la & lb) - out:
                        continue
                    st.transitions += 1
                    ca, cb = go(a), go(b)
                    if ca is math.inf or cb is math.inf:
                        continue
                    x = local(base, alpha, oracle.size(la | lb, sd), mem)
                    c = max(ca, cb, x) if base == "size" else ca + cb + x
                    best = min(best, c)
        memo[s] = best
        return best

    return go(full)


def path_value(path, red, comps, terms, out, sd, name):
    """Objective of each part as performed by the path; raises if parts are interleaved."""
    base, alpha = objective(name)
    comp_of = {k: ci for ci, comp in enumerate(comps) for k in comp}
    vals = [0] * len(comps)
    cur = [(frozenset([k]), None) for k in range(len(terms))]
    inds = [frozenset(t) for t in terms]
    outs = frozenset(out)
    for p in path:
        sel = sorted(p, reverse=True)
        chosen = [(cur.pop(x), inds.pop(x)) for x in sel]
        keep = outs.union(*inds) if inds else outs
        members = frozenset().union(*[c[0][0] for c in chosen])
        union = frozenset().union(*[c[1] for c in chosen])
        res = union & keep
        if len(p) == 2:
            ms = [c[0][0] for c in chosen]
            cs = [{comp_of.get(k, -1) for k in m} for m in ms]
            if len(cs[0]) == 1 and cs[0] == cs[1] and cs[0] != {-1}:
                (ci,) = cs[0]
                f, mem = oracle.size(union, sd), oracle.size(res, sd)
                x = local(base, alpha, f, mem)
                vals[ci] = max(vals[ci], x) if base == "size" else vals[ci] + x
            else:
                for m in ms:
                    for ci in {comp_of.get(k, -1) for k in m}:
                        if ci >= 0 and not set(comps[ci]) <= m:
                            raise Violation(f"path {path} combines part {comps[ci]} before it is complete")
        elif len(p) > 2:
            for c in chosen:
                for ci in {comp_of.get(k, -1) for k in c[0][0]}:
                    if ci >= 0 and not set(comps[ci]) <= c[0][0]:
                        raise Violation(f"path {path} combines part {comps[ci]} before it is complete")
        cur.append((members, None))
        inds.append(res)
    return vals


def check(st, terms, out, sd, name, outer, cap, limit):
    opt = oe.DynamicProgramming(minimize=name, cost_cap=cap, search_outer=outer)
    red, comps, done = parts(terms, out, outer)
    # both an explicit part optimum and, when limited, feasibility of every part
    best = [best_tree(c, red, out, sd, name, outer, limit, st) for c in comps]
    what = f"{util.eq(terms, out)} sizes={sd} minimize={name} cost_cap={cap} search_outer={outer} memory_limit={limit}"
    try:
        path = opt(finders.isets(terms), frozenset(out), dict(sd), limit)
    except RuntimeError as e:
        if not finders.no_dp_path(e, limit):
            raise
        st.traces += 1
        st.count("refused")
        if all(b < math.inf for b in best):
            raise Violation(f"{what}: refused although a path exists")
        return
    st.traces += 1
    msg = oracle.check_path(path, len(terms))
    if len(terms) > 1 and msg:
        raise Violation(f"{what}: {msg}")
    if any(b == math.inf for b in best):
        raise Violation(f"{what}: returned {path} although no path fits the limit")
    vals = path_value(path, red, comps, terms, out, sd, name)
    for ci, comp in enumerate(comps):
        if len(comp) > 1 and vals[ci] != best[ci]:
            raise Violation(f"{what}: part {comp} of path {path} has value {vals[ci]}, minimum {best[ci]}")


CONFIGS = [
    (name, outer, cap, None)
    for name in ("flops", "size", "write", "combo", "limit")
    for outer in (False, True)
    for cap in (True, False)
] + [(name, False, True, None) for name in ("combo-1", "combo-256", "limit-1", "limit-3")] + [
    ("flops", False, 0, None), ("flops", False, 3, None), ("size", False, 1, None), ("write", False, 7, None), ("combo", False, 3, None),
]
LIMITED = [
    (name, outer, cap, lim)
    for lim in (1, 2, 4, 6, 12)
    for name, outer, cap in (
        ("flops", False, True), ("flops", True, False), ("size", False, True), ("write", False, False), ("combo", False, True), ("limit", False, True),
        ("combo-2", True, False),
    )
]


def run(case, st):
    terms, out, pattern = case
    sd = util.sizes(enum.letters_of(terms), pattern) if isinstance(pattern, str) else pattern
    for cfg in CONFIGS:
        check(st, terms, out, sd, *cfg)
    for cfg in LIMITED:
        check(st, terms, out, sd, *cfg)


def run_few(case, st):
    terms, out, pattern = case
    sd = util.sizes(enum.letters_of(terms), pattern) if isinstance(pattern, str) else pattern
    for name in ("flops", "size", "write", "combo", "limit"):
        check(st, terms, out, sd, name, False, True, None)
    check(st, terms, out, sd, "flops", False, False, 12)
    check(st, terms, out, sd, "flops", False, True, 30)
    check(st, terms, out, sd, "combo", False, True, 8)


def gen_net(n, m, patterns):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                for p in patterns:
                    yield [terms, out, p]
    return gen


def gen_graphs():
    topo = [
        (["ab", "bc", "cd", "de", "ef", "fa"], ""),
        (["ab", "bc", "cd", "de", "ef", "fg"], "ag"),
        (["abc", "cde", "efg", "gha", "bd", "fh"], ""),
        (["ab", "acd", "ce", "bfg", "dfhi", "ehj", "gk", "ikl", "jl"], ""),
        (["ab", "bcx", "cdy", "dez", "e"], "xyza"),
        (["ab", "bc", "ca", "de", "ef", "fd"], ""),
        (["xab", "xbc", "xcd", "xde", "xea"], "x"),
        (["abc", "abd", "ace", "bdf", "cef"], "d"),
    ]
    for terms, out in topo:
        letters = enum.letters_of(terms)
        pats = itertools.product((2, 5), repeat=len(letters)) if len(letters) <= 7 else [
            tuple((2 + ((k * 7 + s) % 4)) for k in range(len(letters))) for s in range(8)]
        for vals in pats:
            yield [terms, out, dict(zip(letters, vals))]


def spaces(tier):
    q = tier == "quick"
    return [
        ("two-tensors", gen_net(2, 3, ("mix", "zero", "one")), run),
        ("hyperedges", enum.hyper(6 if q else 7, ("mix",)), run_few),
        ("three-tensors", gen_net(3, 3 if q else 4, ("mix", "zlast")), run),
        ("four-tensors", gen_net(4, 2 if q else 3, ("mix", "first1", "zero")), run),
        ("four-tensors-3", gen_net(4, 3 if q else 4, ("rev",)), run_few),
        ("five-tensors", gen_net(5, 2 if q else 3, ("mix",)), run_few),
        ("graphs", gen_graphs, run_few),
    ]
