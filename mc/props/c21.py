"""C21: strategy names resolve as documented."""

import itertools

import opt_einsum as oe
from opt_einsum import paths

from mc import enum, util
from mc.core import Violation
from mc.finders import isets

ID = "C21"
TECHNIQUE = "exhaustive exploration of registration/lookup histories against an explicit-state model of the registry, and complete enumeration of names, letter cases and operand counts, on the real code"
BOUNDS = {
    "quick": "13 documented names in all letter cases (up to 10 letters; up to 2 changed letters for longer ones); all strings one edit away from a documented name; every operand count 1..24 x 12 families for the presets (auto up to 40); "
    "all histories of <=3 operations out of 16 (register 7 names in differing cases x 2 functions, contract by a known and an unknown name), with every name looked up after each operation",
    "thorough": "operand counts up to 40 for auto-hq and 120 for auto, histories of 4 operations",
}
ASSUMPTIONS = ["the strategy is consulted for three or more operands", "strategies are deterministic (C18)"]

DOCUMENTED = [
    "auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic",
    "dp", "dynamic-programming", "random-greedy", "random-greedy-128",
]

REFERENCE = {
    "optimal": lambda i, o, s: paths.optimal(i, o, s),
    "branch-all": lambda i, o, s: oe.BranchBound()(i, o, s),
    "branch-2": lambda i, o, s: oe.BranchBound(nbranch=2)(i, o, s),
    "branch-1": lambda i, o, s: oe.BranchBound(nbranch=1)(i, o, s),
    "greedy": lambda i, o, s: paths.greedy(i, o, s),
    "eager": lambda i, o, s: paths.greedy(i, o, s),
    "opportunistic": lambda i, o, s: paths.greedy(i, o, s),
    "dp": lambda i, o, s: oe.DynamicProgramming()(i, o, s),
    "dynamic-programming": lambda i, o, s: oe.DynamicProgramming()(i, o, s),
    "random-greedy": lambda i, o, s: oe.RandomGreedy()(i, o, s),
    "random-greedy-128": lambda i, o, s: oe.RandomGreedy(max_repeats=128)(i, o, s),
}


def auto_choice(n):
    return "optimal" if n <= 4 else "branch-all" if n <= 6 else "branch-2" if n <= 8 else "branch-1" if n <= 14 else "greedy"


def hq_choice(n):
    return "optimal" if n <= 5 else "dp" if n <= 16 else "random-greedy-128"


PRESETS = {"auto": auto_choice, "auto-hq": hq_choice}


def resolve(name, n):
    name = name.lower()
    return PRESETS[name](n) if name in PRESETS else name


def search(name, terms, out, sd):
    """The path as a list of sorted tuples, through the public entry point."""
    shapes = [tuple(sd[c] for c in t) for t in terms]
    p, _ = oe.contract_path(util.eq(terms, out), *shapes, shapes=True, optimize=name)
    return norm(p)


def norm(p):
    return [tuple(sorted(int(x) for x in s)) for s in p]


_ref = {}


def reference(strategy, terms, out, sd):
    key = (strategy, tuple(terms), out, tuple(sorted(sd.items())))
    if key not in _ref:
        if len(_ref) > 20000:
            _ref.clear()
        _ref[key] = norm(REFERENCE[strategy](isets(terms), frozenset(out), dict(sd)))
    return _ref[key]


# --- names in any letter case ----------------------------------------------------------------------

NETS = None


def sym(i):
    return enum._symbols()[i]


def family(n):
    """Deterministic contractions of n tensors on which the strategies disagree."""
    nets = []
    for skip in (2, 3):
        for pat in range(6):
            edges = [(i, (i + 1) % n) for i in range(n)] + [(i, (i + skip) % n) for i in range(0, n, 2 + pat % 2)]
            edges = [e for e in edges if e[0] != e[1]]
            terms = [""] * n
            sd = {}
            for k, (a, b) in enumerate(edges):
                c = sym(k)
                terms[a] += c
                terms[b] += c
                sd[c] = (2, 3, 5, 4, 7, 2, 9)[(k * (pat + 1) + k * k * (skip - 1)) % 7]
            out = ""
            if pat % 3 == 1:
                out = sym(0) + (sym(n // 2) if n > 2 else "")
            if pat % 3 == 2:
                h = sym(len(edges))
                sd[h] = 3
                for t in range(0, n, 2):
                    terms[t] += h
                if pat == 5:
                    out = h
            out = "".join(dict.fromkeys(c for c in out if any(c in t for t in terms)))
            nets.append((terms, out, sd))
    return nets


def probes():
    global NETS
    if NETS is None:
        NETS = [f for n in (5, 6, 7) for f in family(n)]
    return NETS


def discriminating(strategy):
    """Probe contractions whose path under `strategy` differs from most other strategies."""
    best, score = [], {}
    others = [s for s in ("optimal", "branch-all", "branch-2", "branch-1", "greedy", "dp") if s != strategy]
    remaining = set(others)
    for terms, out, sd in probes():
        mine = reference(strategy, terms, out, sd)
        diff = {s for s in remaining if reference(s, terms, out, sd) != mine}
        if diff:
            best.append((terms, out, sd))
            remaining -= diff
        if not remaining:
            break
    return best, remaining


_disc = {}


def run_case_variant(case, st):
    name = case
    low = name.lower()
    if low not in _disc:
        if low in PRESETS:
            _disc[low] = [f for n in (3, 4, 5, 6, 7, 9) for f in family(n)[:3]]
        elif low.startswith("random"):
            _disc[low] = family(6)[:2] + family(9)[:2]
        else:
            _disc[low] = discriminating(low)[0] or probes()[:2]
    for terms, out, sd in _disc[low]:
        want = reference(resolve(low, len(terms)), terms, out, sd)
        got = search(name, terms, out, sd)
        st.transitions += 1
        st.traces += 1
        if got != want:
            raise Violation(f"optimize={name!r} on {util.eq(terms, out)}: path {got}, but {resolve(low, len(terms))} gives {want}")
    st.states += 1
    if name == low and low in REFERENCE and low not in ("random-greedy",):
        st.outcome("strategies told apart", low)


def gen_cases():
    for name in DOCUMENTED:
        pos = [k for k, c in enumerate(name) if c.isalpha()]
        sub = util.powerset(pos) if len(pos) <= 10 else itertools.chain(util.powerset(pos, 2), [tuple(pos), tuple(pos[::2]), tuple(pos[1::2])])
        for s in sub:
            yield "".join(c.upper() if k in s else c for k, c in enumerate(name))


def run_true(case, st):
    """optimize=True is the default preset, for every entry point."""
    terms, out, sd = family(case[0])[case[1]]
    want = reference(auto_choice(len(terms)), terms, out, sd)
    shapes = [tuple(sd[c] for c in t) for t in terms]
    eq = util.eq(terms, out)
    got = [norm(oe.contract_path(eq, *shapes, shapes=True, optimize=True)[0]), norm(oe.contract_path(eq, *shapes, shapes=True)[0])]
    st.states += 1
    st.transitions += 2
    st.traces += 2
    for g in got:
        if g != want:
            raise Violation(f"optimize=True / default on {eq}: path {g}, the auto preset gives {want}")


# --- unknown names -----------------------------------------------------------------------------------


def gen_unknown():
    seen = set()
    alphabet = "ab0128-_ qdpg"
    for name in DOCUMENTED:
        cand = [name[:k] + name[k + 1 :] for k in range(len(name))]
        cand += [name[:k] + c + name[k:] for k in range(len(name) + 1) for c in alphabet]
        cand += [name[:k] + c + name[k + 1 :] for k in range(len(name)) for c in alphabet]
        cand += [name.replace("-", "_"), name.replace("-", ""), name + "\n", name[::-1]]
        for c in cand:
            if c.lower() not in DOCUMENTED and c not in seen:
                seen.add(c)
                yield c
    for c in ("", " ", "none", "null", "true", "random", "cheap", "fast", "branch", "random-greedy-64"):
        if c not in seen:
            yield c


TERMS3, OUT3, SD3 = ["ab", "bc", "cd"], "ad", {"a": 2, "b": 3, "c": 4, "d": 5}


def run_unknown(case, st):
    arr = util.arrays(TERMS3, SD3)
    eq = util.eq(TERMS3, OUT3)
    for what, fn in (
        ("contract_path", lambda: oe.contract_path(eq, *arr, optimize=case)),
        ("contract", lambda: oe.contract(eq, *arr, optimize=case)),
        ("contract_expression", lambda: oe.contract_expression(eq, *[a.shape for a in arr], optimize=case)),
    ):
        st.transitions += 1
        st.traces += 1
        try:
            fn()
        except Exception:
            continue
        raise Violation(f"{what}(optimize={case!r}) accepts an unknown strategy")
    st.states += 1


# --- presets by operand count --------------------------------------------------------------------------


def gen_presets(tier):
    top = {"auto": 120, "auto-hq": 40} if tier == "thorough" else {"auto": 40, "auto-hq": 24}
    for preset in PRESETS:
        for n in range(top[preset], 0, -1):
            for k in range(len(family(max(n, 2)))):
                yield [preset, n, k]


def run_preset(case, st):
    preset, n, k = case
    if n == 1:
        terms, out, sd = ["abb", "ab", "aa"][k % 3 : k % 3 + 1], ("", "a")[k % 2], {"a": 2, "b": 3}
    else:
        terms, out, sd = family(n)[k]
    choice = PRESETS[preset](n)
    want = reference(choice, terms, out, sd)
    eq = util.eq(terms, out)
    direct = norm(paths.get_path_fn(preset)(isets(terms), frozenset(out), dict(sd), None))
    st.states += 1
    st.transitions += 1
    st.traces += 1
    if direct != want:
        raise Violation(f"{preset} with {n} operands on {eq} sizes {sd}: path {direct}, but {choice} gives {want}")
    if n > 2:
        got = search(preset, terms, out, sd)
        st.traces += 1
        if got != want:
            raise Violation(f"optimize={preset!r} with {n} operands on {eq} sizes {sd}: path {got}, but {choice} gives {want}")
    # how well this case tells the choice from its neighbours
    near = {"auto": ["optimal", "branch-all", "branch-2", "branch-1", "greedy"], "auto-hq": ["optimal", "dp", "greedy", "branch-1"]}[preset]
    cap = {"optimal": 6, "branch-all": 7, "branch-2": 9, "branch-1": 16, "greedy": 60, "dp": 14}
    for s in near:
        if s != choice and n <= cap[s] and reference(s, terms, out, sd) != want:
            st.count(f"{preset}: {choice} distinguished from {s}")


# --- registry histories ---------------------------------------------------------------------------------


def make_fn(tag, log):
    path = {0: [(0, 1), (0, 1)], 1: [(1, 2), (0, 1)], 2: [(0, 2), (0, 1)]}[tag]

    def fn(inputs, output, size_dict, memory_limit=None):
        log.append((tag, [frozenset(i) for i in inputs], frozenset(output), dict(size_dict), memory_limit))
        return list(path)

    fn.path = path
    return fn


NAMES = ["foo-{u}", "FOO-{u}", "Bar{u}", "bar{u}", "optimal", "Greedy", "DYNAMIC-programming"]
REG = [["register", n, f] for n in NAMES for f in (1, 2)]
OPS = REG + [["contract", "fOO-{u}"], ["contract", "no-such-{u}"]]
LOOK = ["foo-{u}", "Foo-{u}", "bar{u}", "BAR{u}", "optimal", "OPTIMAL", "greedy", "dynamic-programming", "missing-{u}"]

_uid = itertools.count()


def builtin_path(name):
    key = ("builtin", name)
    if key not in _ref:
        _ref[key] = search(name, TERMS3, OUT3, SD3)
    return _ref[key]


def run_history(hist, st):
    u = f"u{next(_uid)}"
    # read the builtin names before the history starts
    for n in LOOK:
        if "{u}" not in n:
            builtin_path(n.lower())
    log = []
    fns = {k: make_fn(k, log) for k in (1, 2)}
    model = {}
    eq = util.eq(TERMS3, OUT3)
    arr = util.arrays(TERMS3, SD3)
    expect = None
    try:
        for k, op in enumerate(hist):
            name = op[1].format(u=u)
            low = name.lower()
            known = low in model or low in DOCUMENTED
            if op[0] == "register":
                try:
                    paths.register_path_fn(name, fns[op[2]])
                    ok = True
                except KeyError:
                    ok = False
                if ok and known:
                    raise Violation(f"history {hist[:k + 1]}: registering the existing name {name!r} again is accepted")
                if not ok and not known:
                    raise Violation(f"history {hist[:k + 1]}: registering the new name {name!r} is refused")
                if ok:
                    model[low] = op[2]
            else:
                for entry in ("contract", "expression"):
                    del log[:]
                    try:
                        if entry == "contract":
                            got = oe.contract(eq, *arr, optimize=name, memory_limit=77)
                        else:
                            got = oe.contract_expression(eq, *[a.shape for a in arr], optimize=name, memory_limit=77)(*arr)
                        ok = True
                    except KeyError:
                        ok = False
                    if ok != known:
                        raise Violation(f"history {hist[:k + 1]}: {entry} with optimize={name!r} {'succeeds' if ok else 'fails'}")
                    if ok:
                        want = [(model[low], [frozenset(t) for t in TERMS3], frozenset(OUT3), SD3, 77)]
                        if log != want:
                            raise Violation(f"history {hist[:k + 1]}: {entry} called the registered functions with {log}, expected {want}")
                        if expect is None:
                            expect = oe.contract(eq, *arr, optimize=False)
                        if not util.same(got, expect):
                            raise Violation(f"history {hist[:k + 1]}: {entry} gives {util.show(got)}")
                    st.traces += 1
            st.transitions += 1
            st.states += 1
            for look in LOOK:
                name = look.format(u=u)
                low = name.lower()
                try:
                    got = search(name, TERMS3, OUT3, SD3)
                except KeyError:
                    got = None
                want = fns[model[low]].path if low in model else builtin_path(low) if low in DOCUMENTED else None
                st.traces += 1
                if got != want:
                    raise Violation(f"after {hist[:k + 1]}: optimize={name!r} gives the path {got}, expected {want}")
    finally:
        reg = getattr(paths, "_PATH_OPTIONS", None)
        if isinstance(reg, dict):
            for n in [n for n in reg if isinstance(n, str) and u in n.lower()]:
                del reg[n]


def gen_histories(depth):
    def gen():
        for d in range(1, depth + 1):
            for h in itertools.product(OPS, repeat=d):
                if d > 1 and not any(op[0] == "register" for op in h):
                    continue
                yield list(h)

    return gen


def gen_true():
    for n in range(3, 17):
        for k in range(12):
            yield [n, k]


def spaces(tier):
    return [
        ("letter-case", gen_cases, run_case_variant),
        ("default", gen_true, run_true),
        ("unknown-names", gen_unknown, run_unknown),
        ("presets", lambda: gen_presets(tier), run_preset),
        ("registry-histories", gen_histories(4 if tier == "thorough" else 3), run_history),
    ]
