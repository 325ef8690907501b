"""C03: every path finder returns a complete, valid path."""

import heapq

import opt_einsum as oe
from opt_einsum import paths

from mc import enum, finders, oracle, util
from mc.core import Violation

ID = "C03"
TECHNIQUE = "exhaustive enumeration of networks and of all chooser decision sequences (stateless search of the greedy chooser) on the real finders"
BOUNDS = {
    "quick": "all networks with 2-3 tensors/<=4 indices, 4 tensors/<=3 indices, 5 tensors/<=2 indices, all outputs, sizes "
    "patterns with 0, 1, equal sizes and sizes beyond the range of floats, six memory limits, 8 named finders and 12 optimizer configurations; all decision "
    "sequences of the greedy chooser (every pending candidate at every step) on 2-4 tensors; cost functions scripted over "
    "{0,1,-1}; ten families up to 60 tensors",
    "thorough": "4 tensors/<=4 indices, 5 tensors/<=3 indices, 6 tensors/<=2 indices, decision sequences on 5 tensors",
}
LIMITS = [None, -1, 1, 2, 5, 12]


def validate(path, terms, what):
    msg = oracle.check_path(path, len(terms))
    if msg:
        raise Violation(f"{what} on {terms}: {msg} (path {path})")


def call(st, what, fn, terms, out, sd, limit):
    """Call a finder with mutable containers and check the path and that nothing was modified."""
    inputs = [set(t) for t in terms]
    output = set(out)
    sizes = dict(sd)
    st.transitions += 1
    try:
        path = fn(inputs, output, sizes, limit)
    except RuntimeError as e:
        if finders.no_dp_path(e, limit) and ("DP" in what or what in ("dp", "auto-hq")):
            st.count("dp refusals")
            return
        raise
    st.traces += 1
    validate(path, terms, f"{what} out={out!r} sizes={sd} memory_limit={limit}")
    if inputs != [set(t) for t in terms] or output != set(out) or sizes != sd:
        raise Violation(f"{what} modified its arguments on {terms}->{out}")


def run_net(case, st):
    terms, out, pattern = case
    st.states += 1
    sd = util.sizes(enum.letters_of(terms), pattern)
    for name in finders.NAMES:
        for limit in LIMITS if name in ("optimal", "greedy", "dp", "branch-2") else (None, 3):
            if limit == -1 and name == "dp":
                continue
            call(st, name, lambda *a: finders.by_name(name, *a), terms, out, sd, limit)
    for name, make in finders.optimizers().items():
        for limit in (None, 2):
            call(st, name, make(), terms, out, sd, limit)
    if pattern == "huge":
        for kw in ({"minimize": "combo-3"}, {"minimize": "limit-7"}, {"minimize": "combo", "cost_cap": False}):
            for limit in (None, 2):
                call(st, f"DP({kw})", oe.DynamicProgramming(**kw), terms, out, sd, limit)
    if pattern in ("mix", "zero", "huge"):
        # via the public entry point
        shapes = [tuple(sd[c] for c in t) for t in terms]
        for opt in ("optimal", "branch-all", "greedy", "dp", "auto", "auto-hq"):
            path, info = oe.contract_path(util.eq(terms, out), *shapes, shapes=True, optimize=opt)
            st.transitions += 1
            st.traces += 1
            validate(path, terms, f"contract_path(optimize={opt})")
            st.outcome("paths", tuple(path))


def gen_net(n, m, patterns):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                for p in patterns:
                    yield [terms, out, p]
    return gen


# --- all decision sequences of the greedy chooser ------------------------------------------------------


class Chooser:
    """Picks the pending valid candidate given by a decision script; records the branching degree."""

    def __init__(self, script):
        self.script, self.k, self.degrees = script, 0, []

    def __call__(self, queue, remaining):
        cand = []
        while queue:
            c = heapq.heappop(queue)
            if c[1] in remaining and c[2] in remaining:
                cand.append(c)
        if not cand:
            return None
        pick = self.script[self.k] if self.k < len(self.script) else 0
        self.k += 1
        self.degrees.append(len(cand))
        chosen = cand.pop(pick)
        for c in cand:
            heapq.heappush(queue, c)
        return chosen


def run_choices(case, st):
    terms, out, pattern = case
    sd = util.sizes(enum.letters_of(terms), pattern)
    stack = [()]
    while stack:
        script = stack.pop()
        ch = Chooser(script)
        path = oe.paths.greedy(finders.isets(terms), frozenset(out), sd, choose_fn=ch)
        st.traces += 1
        st.transitions += len(ch.degrees)
        validate(path, terms, f"greedy with chooser decisions {script} out={out!r}")
        st.states += 1
        for k in range(len(script), len(ch.degrees)):
            for alt in range(1, ch.degrees[k]):
                stack.append(script + (0,) * (k - len(script)) + (alt,))


def run_costs(case, st):
    """All scripted cost functions over {0, 1, -1} for the first few calls: every relative ordering of candidates."""
    terms, out, depth = case
    sd = util.sizes(enum.letters_of(terms), "two")
    import itertools

    for script in itertools.product((0, 1, -1), repeat=depth):
        calls = [0]

        def cost_fn(size12, size1, size2, k12, k1, k2):
            c = script[calls[0]] if calls[0] < depth else 0
            calls[0] += 1
            return c

        for what, fn in (
            ("greedy", lambda: oe.paths.greedy(finders.isets(terms), frozenset(out), sd, cost_fn=cost_fn)),
            ("BranchBound", lambda: oe.BranchBound(nbranch=1, cost_fn=cost_fn)(finders.isets(terms), frozenset(out), sd)),
        ):
            calls[0] = 0
            path = fn()
            st.transitions += calls[0]
            st.traces += 1
            validate(path, terms, f"{what} with scripted costs {script}")
        st.states += 1


def gen_costs():
    for n, m in ((3, 3), (4, 2)):
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out, 4]


# --- random greedy: every trial number in a range -------------------------------------------------------


def run_random(case, st):
    terms, out, pattern, kw, reps = case
    st.states += 1
    sd = util.sizes(enum.letters_of(terms), pattern)
    opt = oe.RandomGreedy(max_repeats=1, **kw)
    inp, o = finders.isets(terms), frozenset(out)
    for r in range(reps):
        path = opt(inp, o, sd)
        st.transitions += 1
        st.traces += 1
        validate(path, terms, f"RandomGreedy({kw}) trial {r}")
    validate(oe.path_random.random_greedy(inp, o, sd, max_repeats=2), terms, "random_greedy")


def gen_random(q):
    def gen():
        kws = [{}, {"temperature": 0.0}, {"temperature": 100.0, "rel_temperature": False}, {"nbranch": 1}, {"nbranch": 2},
               {"cost_fn": "memory-removed", "minimize": "size"}]
        for n, m in ((2, 2), (3, 3), (4, 2)):
            for terms in enum.networks(n, m):
                for out in enum.subsets(enum.letters_of(terms)):
                    for kw in kws:
                        yield [terms, out, "mix" if kw else "zero", kw, 4 if q else 12]
        for n in (6, 12, 20):
            for name, terms, out in enum.structured(n):
                for kw in kws:
                    for pat in ("two", "huge"):
                        yield [terms, out, pat, kw, 3]
        for n, m in ((3, 3), (4, 2)):
            for terms in enum.networks(n, m):
                for out in enum.subsets(enum.letters_of(terms)):
                    for kw in kws:
                        yield [terms, out, "huge", kw, 3]
    return gen


# --- large families ------------------------------------------------------------------------------------


def run_large(case, st):
    n, name, opt, limit = case
    st.states += 1
    ((terms, out),) = [(t, o) for nm, t, o in enum.structured(n) if nm == name]
    letters = sorted(set("".join(terms)))
    sd = {c: 2 + k % 2 for k, c in enumerate(letters)}
    call(st, opt, lambda *a: finders.by_name(opt, *a), terms, out, sd, limit)
    shapes = [tuple(sd[c] for c in t) for t in terms]
    try:
        path, info = oe.contract_path(util.eq(terms, out), *shapes, shapes=True, optimize=opt, memory_limit=limit)
    except RuntimeError as e:
        if finders.no_dp_path(e, limit) and opt in ("dp", "auto-hq"):
            return
        raise
    st.transitions += 1
    st.traces += 1
    validate(path, terms, f"contract_path(optimize={opt}, memory_limit={limit})")
    str(info)


def gen_large():
    for n in (5, 6, 7, 8, 9, 14, 15, 16, 17, 19, 20, 21, 33, 60):
        for name, terms, out in enum.structured(n):
            for opt in finders.NAMES + ["random-greedy"]:
                for limit in (None, 4):
                    if opt == "optimal" and n > 6 or opt == "branch-all" and n > 6 or opt == "branch-2" and n > 9:
                        continue
                    if opt in ("dp", "auto-hq", "random-greedy") and (n > 21 or limit):
                        continue
                    if opt == "dp" and n > 9 and name in ("star", "hyper", "hadamard", "batch-chain"):
                        continue
                    if opt == "dp" and n > 17:
                        continue
                    if opt == "auto-hq" and 10 < n < 17 and name in ("star", "hyper", "hadamard", "batch-chain"):
                        continue
                    if opt == "random-greedy" and n not in (7, 17):
                        continue
                    if limit and opt in ("branch-1", "greedy", "auto") and n > 33:
                        continue
                    if opt == "auto-hq" and n >= 17 and name not in ("chain", "two-components", "mps-norm"):
                        continue
                    yield [n, name, opt, limit]


def spaces(tier):
    q = tier == "quick"
    pats = ("mix", "two", "zero", "first1")
    return [
        ("two-tensors", gen_net(2, 4, pats), run_net),
        ("three-tensors", gen_net(3, 3 if q else 4, pats), run_net),
        ("four-tensors", gen_net(4, 2 if q else 3, ("mix", "zlast")), run_net),
        ("four-tensors-3", gen_net(4, 3, ("rev",)) if q else gen_net(4, 4, ("rev",)), run_net),
        ("five-tensors", gen_net(5, 1 if q else 2, ("mix", "two")), run_net),
        ("chooser-3", gen_net(3, 4, ("mix",)), run_choices),
        ("chooser-4", gen_net(4, 3 if q else 4, ("mix",)), run_choices),
        ("chooser-5", gen_net(5, 2 if q else 3, ("mix",)), run_choices),
        ("scripted-costs", gen_costs, run_costs),
        ("huge-sizes", gen_net(3, 3, ("huge",)), run_net),
        ("huge-sizes-4", gen_net(4, 2 if q else 3, ("huge",)), run_net),
        ("random-trials", gen_random(q), run_random),
        ("large-families", gen_large, run_large),
    ]
