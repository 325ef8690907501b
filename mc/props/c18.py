"""C18: results depend only on the contraction, not on labels, hash order or history."""

import itertools
import os
import pickle
import random

import numpy as np

import opt_einsum as oe
from opt_einsum import path_random, paths

from mc import enum, oracle, util
from mc.core import Violation

ID = "C18"
TECHNIQUE = "exhaustive enumeration of hash orders: index labels with controlled hashes drive every iteration order of label sets (all permutations) through the real path finders; all ordered pairs of operations for history dependence; all renamings for label dependence"
BOUNDS = {
    "quick": "all networks of 3 tensors (<=3 indices) and 4 tensors (<=3 indices, size pattern mix) and 5 tensors (<=2 indices) x outputs x all permutations of label hashes x 6 deterministic strategies, random-greedy for <=3 tensors; "
    "chains, rings, stars, hyperedges, MPS of 6-10 tensors x all rotations, reversals and adjacent transpositions of hashes; all ordered pairs of 22 preceding operations and 30 contractions x 8 strategies compared with a new process; "
    "every renaming of all networks of 3 tensors with <=3 indices through the string interface, all permutations of letters within operands",
    "thorough": "4 indices for 3 and 4 tensors, all renamings of 4 tensor networks",
}
ASSUMPTIONS = ["labels are hashable and comparable; size dictionaries list the labels in any order"]
DET = ["optimal", "branch-all", "branch-2", "branch-1", "greedy", "dp"]


class Label:
    """An index label whose hash is chosen by the explorer."""

    HASH = {}
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return Label.HASH[self.n]

    def __eq__(self, o):
        return isinstance(o, Label) and self.n == o.n

    def __lt__(self, o):
        return self.n < o.n

    def __repr__(self):
        return self.n


def find(name, inputs, out, sd, seed=None):
    if name == "rg":
        opt = oe.RandomGreedy(max_repeats=4, temperature=10.0)
        return opt(inputs, out, sd)
    if name == "rg-size":
        opt = oe.RandomGreedy(max_repeats=4, minimize="size", cost_fn="memory-removed", temperature=3.0)
        return opt(inputs, out, sd)
    if name == "dp-outer":
        return paths.DynamicProgramming(minimize="write", search_outer=True)(inputs, out, sd)
    if name == "bb-size":
        return paths.BranchBound(minimize="size", cutoff_flops_factor=None)(inputs, out, sd)
    return paths.get_path_fn(name)(inputs, out, sd, None)


def orders(letters, kind):
    k = len(letters)
    if kind == "all":
        yield from itertools.permutations(range(k))
        return
    base = list(range(k))
    for r in range(k):
        rot = base[r:] + base[:r]
        yield rot
        yield rot[::-1]
    for i in range(k - 1):
        t = list(base)
        t[i], t[i + 1] = t[i + 1], t[i]
        yield t
    # evens before odds, and collisions (every label in the same bucket)
    yield [i // 2 if i % 2 == 0 else k + i for i in range(k)]
    yield [64 * i for i in base]
    yield [64 * i for i in base[::-1]]


def run_hash(case, st):
    terms, out, pattern, names, kind = case
    letters = enum.letters_of(terms)
    letters = [c for c in enum._symbols() if c in letters]
    if kind == "few":
        sd = {c: (2, 3, 2, 4, 2)[k % 5] for k, c in enumerate(letters)} if pattern == "mix" else dict.fromkeys(letters, 2)
    else:
        sd = util.sizes(letters, pattern)
    ref = {}
    for order in orders(letters, kind):
        Label.HASH = dict(zip(letters, order))
        lab = {c: Label(c) for c in letters}
        for name in names:
            # sets built in two orders: equal hashes modulo the table size then iterate differently
            ins = [frozenset(lab[c] for c in t) for t in terms]
            p = find(name, ins, frozenset(lab[c] for c in out), {lab[c]: v for c, v in sd.items()})
            st.transitions += 1
            st.traces += 1
            p = [tuple(x) for x in p]
            if ref.setdefault(name, p) != p:
                raise Violation(f"{name} on {terms}->{out} {sd}: path {ref[name]} or {p}, depending on the hash order of the labels {Label.HASH}")
    if all(len(c) == 1 for c in letters):
        # ordinary string labels give the same path
        for name in names:
            p = [tuple(x) for x in find(name, [frozenset(t) for t in terms], frozenset(out), dict(sd))]
            if p != ref[name]:
                raise Violation(f"{name} on {terms}->{out} {sd}: path {p} for string labels, {ref[name]} for others")
    st.states += 1


def gen_hash(n, m, patterns, names):
    def g():
        for terms in enum.networks(n, m):
            letters = enum.letters_of(terms)
            if len(letters) < 2:
                continue
            for out in enum.subsets(letters):
                for p in patterns:
                    yield [terms, out, p, names, "all"]
    return g


def gen_hash_large(ns):
    def g():
        for n in ns:
            for name, terms, out in enum.structured(n):
                if name in ("outer", "scalars"):
                    continue
                names = ["greedy", "branch-1", "rg"] + (["dp"] if n <= 8 else []) + (["branch-2"] if n <= 6 else [])
                for p in ("two", "mix"):
                    yield [terms, out, p, names, "few"]
    return g


# --- history ---------------------------------------------------------------------------------------------------

NETS = [
    (["ab", "bc", "cd", "da"], ""), (["ab", "bc", "cd"], "ad"), (["ab", "bc", "ca"], ""), (["abc", "bd", "ce", "de"], "a"), (["a", "a", "ab", "b"], "b"),
    (["ab", "cd", "e"], "ace"), (["abe", "bce", "cde", "dae"], "e"), (["ab", "ab", "ab"], "ab"), (["ab", "ab", "bc", "bc"], ""), (["a", "b", "c", "d"], ""),
    (["abc", "bcd", "cda", "dab"], ""), (["ab", "ac", "ad", "ae", "bcde"], ""), (["ab", "bc", "cd", "de", "ea"], ""), (["ab", "bc", "cd", "de", "ef"], "af"),
    (["a", "ab", "abc", "abcd", "d"], ""), (["abcd", "ab", "cd", "ad", "bc"], ""), (["ab", "bc", "cd", "de", "ef", "fa"], ""), (["ab", "ab", "cd", "cd"], "ac"),
    (["ax", "bx", "cx", "ab"], "xc"), (["ab", "b", "bc", "c", "cd"], "a"), (["ab", "bc", "bd", "be"], "acde"), (["", "ab", "b"], "a"), (["aé", "éß", "ßa", "éz"], "z"),
    (["abc", "abd", "cde", "ef", "fab"], ""), (["ab", "bc", "cd", "de", "ef", "fg"], "ag"), (["a", "a", "a", "b", "b"], "a"), (["ab", "cd", "ef", "ace"], "bdf"),
    (["abcde", "ab", "c", "de"], ""), (["ij", "jk", "kl", "li", "ik"], ""), (["pq", "qr", "rs", "sp", "pr"], ""),
]
STRATS = ["optimal", "branch-all", "branch-1", "greedy", "dp", "auto", "auto-hq", "random-greedy"]


def sizes_for(k):
    return {c: (2, 3, 4, 2, 5)[(i + k) % 5] for i, c in enumerate(sorted(set("".join(NETS[k][0]))))}


def ask(k, strat):
    terms, out = NETS[k]
    sd = sizes_for(k)
    p, info = oe.contract_path(util.eq(terms, out), *[tuple(sd[c] for c in t) for t in terms], shapes=True, optimize=strat)
    return [tuple(x) for x in p], int(info.opt_cost), info.eq


def operations():
    def other(k, strat, **kw):
        terms, out = NETS[k]
        sd = sizes_for(k)
        def f():
            try:
                oe.contract_path(util.eq(terms, out), *[tuple(sd[c] for c in t) for t in terms], shapes=True, optimize=strat, **kw)
            except RuntimeError:
                pass
        return f

    def value(k, ctx=False, **kw):
        terms, out = NETS[k]
        ops = util.arrays(terms, sizes_for(k))
        def f():
            if ctx:
                with oe.shared_intermediates():
                    oe.contract(util.eq(terms, out), *ops, **kw)
            else:
                oe.contract(util.eq(terms, out), *ops, **kw)
        return f

    def rnd(seed):
        def f():
            random.seed(seed)
            np.random.seed(seed)
        return f

    def draw():
        for _ in range(7):
            random.random()

    def failing():
        try:
            oe.contract_path("ab,bc->ad", (2, 2), (3, 3), shapes=True)
        except ValueError:
            pass

    def expr():
        terms, out = NETS[3]
        ops = util.arrays(terms, sizes_for(3))
        oe.contract_expression(util.eq(terms, out), ops[0], *[x.shape for x in ops[1:]], constants=[0])(*ops[1:])

    return {
        "nothing": lambda: None,
        "seed1": rnd(1),
        "seed99": rnd(99),
        "draw": draw,
        "failing": failing,
        "expression": expr,
        "value": value(1),
        "value-noopt": value(4, optimize=False),
        "value-shared": value(6, ctx=True),
        "value-limit": value(10, memory_limit=4),
        "optimal-limit": other(10, "optimal", memory_limit=5),
        "branch-limit": other(11, "branch-all", memory_limit=5),
        "greedy-limit": other(11, "greedy", memory_limit=5),
        "dp-limit": other(11, "dp", memory_limit=7),
        "dp-other": other(15, "dp"),
        "optimal-other": other(0, "optimal"),
        "greedy-other": other(28, "greedy"),
        "branch-other": other(16, "branch-2"),
        "random-other": other(29, "random-greedy"),
        "random-128": other(12, "random-greedy-128"),
        "auto-other": other(24, "auto"),
        "bb-object": lambda: oe.BranchBound(nbranch=2)([set("ab"), set("bc"), set("ca")], set(), dict.fromkeys("abc", 2)),
    }


REF = {}


def reference():
    """The answers of a new process for each question: one forked child per question."""
    for k in range(len(NETS)):
        for strat in STRATS:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = ask(k, strat)
                    except Exception as e:
                        res = repr(e)
                    os.write(w, pickle.dumps(res))
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            REF[k, strat] = pickle.loads(data)


def prepare(tier):
    reference()


def run_after(case, st):
    op, k, strat = case
    run = operations()[op]
    for rnd in range(2):
        run()
        got = ask(k, strat)
        st.transitions += 2
        st.traces += 1
        if got != REF[k, strat]:
            raise Violation(f"{strat} on {NETS[k]} after {op} (time {rnd + 1}) gives {got[:2]}, in a new process {REF[k, strat][:2]}")
        again = ask(k, strat)
        if again != got:
            raise Violation(f"{strat} on {NETS[k]} asked twice gives {got[:2]} and {again[:2]}")
    st.states += 1


def gen_after():
    for op in operations():
        for k in range(len(NETS)):
            for strat in STRATS:
                yield [op, k, strat]


# --- trial numbers ------------------------------------------------------------------------------------------------


def run_trials(case, st):
    """Splitting the same trials over several calls, or running others in between, gives the same trials."""
    k, splits, between = case
    terms, out = NETS[k]
    sd = sizes_for(k)
    args = lambda: ([set(t) for t in terms], set(out), dict(sd))  # noqa: E731
    total = sum(splits)
    ref = oe.RandomGreedy(max_repeats=total, temperature=10.0)
    want = ref(*args())
    opt = oe.RandomGreedy(temperature=10.0)
    for s in splits:
        if between == "seed":
            random.seed(s)
        elif between == "other":
            oe.RandomGreedy(max_repeats=3)([set("ab"), set("bc"), set("ca")], set(), dict.fromkeys("abc", 2))
        opt.max_repeats = s
        got = opt(*args())
        st.transitions += 1
    st.traces += 1
    st.states += 1
    if list(got) != list(want) or list(opt.costs) != list(ref.costs) or list(opt.sizes) != list(ref.sizes):
        raise Violation(f"RandomGreedy on {terms}->{out}: trials 0..{total - 1} split as {splits} ({between} in between) give {opt.costs}, at once {ref.costs}")


def gen_trials():
    for k in range(len(NETS)):
        for splits in ([4], [1, 3], [3, 1], [2, 2], [1, 1, 2], [1, 1, 1, 1]):
            for between in ("", "seed", "other"):
                yield [k, splits, between]


# --- renaming -----------------------------------------------------------------------------------------------------


def cost(terms, out, sd, strat):
    p, info = oe.contract_path(util.eq(terms, out), *[tuple(sd[c] for c in t) for t in terms], shapes=True, optimize=strat)
    return int(info.opt_cost), int(info.largest_intermediate), p


def run_rename(case, st):
    terms, out, pattern = case
    letters = enum.letters_of(terms)
    sd = util.sizes(letters, pattern)
    exhaustive = ["optimal", "dp"]
    ref = {}
    pools = [list(p) for p in itertools.permutations(letters)] + [list("zyxw")[: len(letters)], list("ZaBc")[: len(letters)], ["é", "Ω", "ß", "A"][: len(letters)]]
    for names in pools:
        tr = dict(zip(letters, names))
        t2 = ["".join(tr[c] for c in t) for t in terms]
        o2 = "".join(tr[c] for c in out)
        s2 = {tr[c]: v for c, v in sd.items()}
        for strat in exhaustive:
            got = cost(t2, o2, s2, strat)[0]
            st.transitions += 1
            st.traces += 1
            if ref.setdefault(strat, got) != got:
                raise Violation(f"{strat}: {terms}->{out} costs {ref[strat]} flops, but renamed to {t2}->{o2} {got} ({sd})")
    # interleaved labels in any spacing, preserving the order
    for lab in ([3, 7, 9, 20], ["p", "qq", "r", "zz"], [-5, 0, 1, 2**40], [(0, 1), (0, 2), (1, 0), (2, 0)]):
        tr = dict(zip(letters, lab))
        args = [v for t in terms for v in (np.zeros([sd[c] for c in t]), [tr[c] for c in t])] + [[tr[c] for c in out]]
        for strat in DET:
            p, info = oe.contract_path(*args, optimize=strat)
            q = cost(terms, out, sd, strat)
            st.transitions += 1
            st.traces += 1
            if (int(info.opt_cost), int(info.largest_intermediate), p) != q:
                raise Violation(f"{strat}: interleaved labels {lab} for {terms}->{out} give {p} ({info.opt_cost} flops), the string form gives {q}")
    # letters permuted within the operands
    for perm in itertools.product(*[list(itertools.permutations(t)) for t in terms]):
        t2 = ["".join(x) for x in perm]
        for strat in exhaustive:
            got = cost(t2, out, sd, strat)[0]
            st.transitions += 1
            if got != ref[strat]:
                raise Violation(f"{strat}: {terms}->{out} costs {ref[strat]} flops, with letters permuted as {t2} {got}")
    st.states += 1


def gen_rename(n, m, patterns):
    def g():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                for p in patterns:
                    yield [terms, out, p]
    return g


def spaces(tier):
    q = tier == "quick"
    return [
        ("hash-2", gen_hash(2, 4, ("two", "mix"), DET + ["rg", "rg-size", "dp-outer", "bb-size"]), run_hash),
        ("hash-3", gen_hash(3, 3 if q else 4, ("two", "mix"), DET + ["rg", "rg-size", "dp-outer", "bb-size"]), run_hash),
        ("hash-4", gen_hash(4, 3 if q else 4, ("mix",) if q else ("two", "mix"), ["optimal", "branch-2", "branch-1", "greedy", "dp"] if q else DET), run_hash),
        ("hash-5", gen_hash(5, 2 if q else 3, ("two",), ["branch-2", "greedy", "dp"]), run_hash),
        ("hash-large", gen_hash_large((6, 8, 10)), run_hash),
        ("history", gen_after, run_after),
        ("trials", gen_trials, run_trials),
        ("renaming-2", gen_rename(2, 4, ("mix", "two")), run_rename),
        ("renaming-3", gen_rename(3, 3, ("mix", "two") if not q else ("mix",)), run_rename),
    ] + ([] if q else [("renaming-4", gen_rename(4, 3, ("mix",)), run_rename)])
