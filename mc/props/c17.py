"""C17: reused optimizers refuse other contractions and only ever improve."""

import itertools

import numpy as np

import opt_einsum as oe
from opt_einsum import path_random, paths

from mc import enum, oracle, util
from mc.core import Violation

ID = "C17"
TECHNIQUE = "exhaustive exploration of all call histories up to a depth on real optimizer objects (contractions differing in inputs, order, output, sizes, number of terms, in-place modification, memory limits), compared step by step with a reference model"
BOUNDS = {
    "quick": "all histories of 3 calls over 16 operations for 10 optimizer configurations x 6 contractions; all pairs of networks of 3 tensors with <=2 indices (every output) for 4 configurations; histories of length 4 with the 9 core operations; reuse of the stateless dynamic-programming object on all pairs of small networks",
    "thorough": "histories of length 4 (5 for the core operations)",
}
ASSUMPTIONS = ["settings of the optimizer object are not changed between calls, except where the operation says so"]

BASE = [
    (["ab", "bc", "cd", "da"], ""),
    (["ab", "bc", "cd"], "ad"),
    (["abc", "bd", "ce", "de"], "a"),
    (["a", "a", "ab", "b"], "b"),
    (["ab", "cd", "e"], "ace"),
    (["abe", "bce", "cde", "dae"], "e"),
]


def configs():
    return {
        "bb": lambda: oe.BranchBound(),
        "bb-size": lambda: oe.BranchBound(minimize="size"),
        "bb-1": lambda: oe.BranchBound(nbranch=1),
        "bb-2c": lambda: oe.BranchBound(nbranch=2, cutoff_flops_factor=None),
        "rg": lambda: oe.RandomGreedy(max_repeats=2),
        "rg-size": lambda: oe.RandomGreedy(max_repeats=2, minimize="size", temperature=5.0),
        "rg-1": lambda: oe.RandomGreedy(max_repeats=1, nbranch=1),
        "rg-t": lambda: oe.RandomGreedy(max_repeats=3, max_time=1000.0, temperature=100.0),
        "dp": lambda: oe.DynamicProgramming(),
        "dp-size": lambda: oe.DynamicProgramming(minimize="size", search_outer=True, cost_cap=False),
    }


def stateful(name):
    return not name.startswith("dp")


def criterion(path, terms, out, sd, name):
    f, s, _, _ = oracle.path_costs(path, terms, out, sd)
    flops, size = sum(f), max(s)
    return (size, flops) if name.endswith("size") else (flops, size)


class World:
    def __init__(self, terms, out, sd):
        self.terms, self.out, self.sd = terms, out, dict(sd)
        # the caller's own containers, which some operations change in place
        self.inputs = [set(t) for t in terms]
        self.output = set(out)
        self.sizes = dict(sd)

    def fresh(self):
        return [set(t) for t in self.terms], set(self.out), dict(self.sd)


OPS = ["same", "tuple", "cp", "cpc", "lim", "maxin", "other-size", "other-out", "swap", "drop", "add", "rename", "mut-size", "mut-input", "mut-append", "mut-out"]
CORE = ["same", "cp", "lim", "other-size", "swap", "add", "mut-size", "mut-append", "rename"]


def variation(op, w):
    """(inputs, output, sizes, different?) of the contraction asked for."""
    ins, out, sd = w.fresh()
    letters = sorted(sd)
    if op in ("same", "cp", "cpc", "lim", "maxin"):
        return ins, out, sd, False
    if op == "tuple":
        return tuple(frozenset(t) for t in ins), frozenset(out), dict(reversed(list(sd.items()))), False
    if op == "other-size":
        sd[letters[0]] += 3
        return ins, out, sd, True
    if op == "other-out":
        c = letters[0]
        out ^= {c}
        return ins, out, sd, True
    if op == "swap":
        k = next((k for k in range(len(ins) - 1) if ins[k] != ins[k + 1]), None)
        if k is None:
            return None
        ins[k], ins[k + 1] = ins[k + 1], ins[k]
        return ins, out, sd, True
    if op == "drop":
        rest = ins[:-1]
        if len(rest) < 2 or not out <= set().union(*rest):
            return None
        return rest, out, sd, True
    if op == "add":
        return ins + [set(ins[0])], out, sd, True
    if op == "rename":
        c = letters[-1]
        tr = lambda s: {"z" if x == c else x for x in s}  # noqa: E731
        sd["z"] = sd.pop(c)
        return [tr(t) for t in ins], tr(out), sd, True
    raise ValueError(op)


def describe(ins, out, sd):
    return ["".join(sorted(t)) for t in ins], "".join(sorted(out)), sd


def run_history(case, st):
    cname, terms, out, pattern, hist = case
    sd = util.sizes(enum.letters_of(terms), pattern)
    w = World(terms, out, sd)
    opt = configs()[cname]()
    first = None  # contraction of the first call
    best = {}  # per memory limit: criterion of the last answer
    for n, op in enumerate(hist):
        what = f"{cname} on {terms}->{out} {sd}, calls {hist[: n + 1]}"
        limit = None
        if op.startswith("mut"):
            # the caller's own lists, sets and dict, first used unchanged and then changed in place
            ins, o, s = w.inputs, w.output, w.sizes
            if op == "mut-size":
                s[sorted(s)[0]] += 2
            elif op == "mut-input":
                c = next((c for c in sorted(set().union(*ins)) if c not in ins[0]), None)
                if c is None:
                    return
                ins[0].add(c)
            elif op == "mut-append":
                ins.append({sorted(s)[0]})
            elif op == "mut-out":
                o ^= {sorted(s)[-1]}
        elif op == "tuple" or first is None and op in ("same", "lim", "maxin"):
            # the first plain call hands over the caller's own containers
            if op == "tuple":
                v = variation(op, w)
            else:
                v = (w.inputs, w.output, w.sizes, False)
            ins, o, s, _ = v
        else:
            v = variation(op, w)
            if v is None:
                return
            ins, o, s, _ = v
        now = ([frozenset(t) for t in ins], frozenset(o), dict(s))
        different = first is not None and now != first
        if first is None:
            first = now
        if op == "lim":
            limit = 4
        t, u, d = describe(*now)
        st.transitions += 1
        if op in ("cp", "cpc"):
            eq = util.eq(t, u)
            shapes = [tuple(d[c] for c in x) for x in t]
            if op == "cpc":
                ops = [util.data(x, k) for k, x in enumerate(shapes)]
        try:
            if op == "cp":
                path = oe.contract_path(eq, *shapes, shapes=True, optimize=opt)[0]
            elif op == "cpc":
                val = oe.contract(eq, *ops, optimize=opt)
                path = None
            elif op == "maxin":
                path = opt(ins, o, s, max([oracle.size(x, d) for x in t] + [oracle.size(u, d)]))
                limit = "maxin"
            else:
                path = opt(ins, o, s, limit)
        except ValueError as e:
            if different and stateful(cname):
                continue  # refused, and it must stay usable for its own contraction
            raise Violation(f"{what}: refused although {'it keeps no state' if different else 'the contraction is the same'} ({e})")
        except RuntimeError as e:
            if cname.startswith("dp") and limit is not None and "memory_limit" in str(e):
                continue
            raise
        if different and stateful(cname):
            raise Violation(f"{what}: a different contraction {t}->{u} {d} was accepted (first: {describe(*first)})")
        st.traces += 1
        if path is None:
            if not util.same(val, oracle.einsum(t, u, ops)):
                raise Violation(f"{what}: contraction gives a wrong value")
            continue
        bad = oracle.check_path(path, len(t))
        if bad:
            raise Violation(f"{what}: path {path}: {bad}")
        crit = criterion(path, t, u, d, cname)
        if stateful(cname):
            if cname.startswith("rg"):
                limit = None  # takes no notice of limits
            if limit in best and crit > best[limit]:
                raise Violation(f"{what}: path {path} is worse ({crit}) than the one found before ({best[limit]})")
            best[limit] = crit
            if cname.startswith("rg"):
                f, sz = opt.best["flops"], opt.best["size"]
                if ((sz, f) if cname.endswith("size") else (f, sz)) != crit and all("".join(t).count(c) > 1 or c in u for c in d):
                    raise Violation(f"{what}: best says flops={f} size={sz}, the path has {crit}")
            if opt.path != path:
                raise Violation(f"{what}: .path is {opt.path}, returned was {path}")
        else:
            ref = configs()[cname]()(*map(lambda x: x, (ins, o, s)), limit if limit != "maxin" else max([oracle.size(x, d) for x in t] + [oracle.size(u, d)]))
            if list(ref) != list(path):
                raise Violation(f"{what}: path {path}, a fresh object gives {ref}")
    st.states += 1


def gen_history(ops, depth, bases, names, patterns=("mix",)):
    def g():
        for cname in names:
            for terms, out in bases:
                for pattern in patterns:
                    for hist in itertools.product(ops, repeat=depth):
                        yield [cname, terms, out, pattern, list(hist)]
    return g


def run_pair(case, st):
    """First one network, then any other one, then the first again."""
    cname, t1, o1, t2, o2 = case
    sd = dict.fromkeys("abc", 2) | {"b": 3}
    opt = configs()[cname]()

    def ask(o, t, u):
        return o([set(x) for x in t], set(u), {c: sd[c] for c in enum.letters_of(t)})

    p1 = ask(opt, t1, o1)
    st.transitions += 3
    st.states += 1
    st.traces += 1
    differ = [set(x) for x in t1] != [set(x) for x in t2] or set(o1) != set(o2)
    try:
        p2 = ask(opt, t2, o2)
    except ValueError:
        if not differ or not stateful(cname):
            raise Violation(f"{cname}: {t2}->{o2} refused after {t1}->{o1}")
    else:
        if differ and stateful(cname):
            raise Violation(f"{cname}: {t2}->{o2} accepted after {t1}->{o1}")
        if not stateful(cname) and p2 != ask(configs()[cname](), t2, o2):
            raise Violation(f"{cname}: {t2}->{o2} after {t1}->{o1} gives {p2}, a fresh object gives another path")
    p3 = ask(opt, t1, o1)
    c1, c3 = criterion(p1, t1, o1, sd, cname), criterion(p3, t1, o1, sd, cname)
    if c3 > c1 or oracle.check_path(p3, len(t1)):
        raise Violation(f"{cname}: {t1}->{o1} again after {t2}->{o2} gives {p3}, which is worse than {p1}")
    if not stateful(cname) and p3 != p1:
        raise Violation(f"{cname}: {t1}->{o1} again after {t2}->{o2} gives {p3}, first {p1}")


def gen_pair(names, m):
    def g():
        nets = [(t, o) for t in enum.networks(3, m) for o in enum.subsets(enum.letters_of(t))]
        for cname in names:
            for t1, o1 in nets:
                for t2, o2 in nets:
                    yield [cname, t1, o1, t2, o2]
    return g


def spaces(tier):
    q = tier == "quick"
    names = list(configs())
    return [
        ("histories", gen_history(OPS, 3 if q else 4, BASE if q else BASE[:3], names), run_history),
        ("core-histories", gen_history(CORE, 4 if q else 5, BASE[:2] if q else BASE, ["bb", "rg", "rg-size", "dp"]), run_history),
        ("pairs", gen_pair(["bb", "rg-1", "dp"], 2), run_pair),
        ("pairs-stateless", gen_pair(["dp-size"], 2 if q else 3), run_pair),
    ]
