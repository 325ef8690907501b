"""C16: random optimizers keep the best of exactly the requested trials."""

import concurrent.futures
import concurrent.futures.process
import gc
import importlib
import itertools
import sys
import time
from decimal import Decimal

from mc import enum, oracle, util
from mc.core import Violation

ID = "C16"
TECHNIQUE = "stateless model checking of the real RandomOptimizer/RandomGreedy under a controlled environment: scripted trial outcomes, all job completion orders of a scripted executor, all expiry points of a controlled clock, all call and executor-setting histories up to a depth, against a reference model"
BOUNDS = {
    "quick": "all sequences of 4 trial outcomes over cost 1-3 x size 1-2 x both criteria x every expiry point (serial); 3 and 4 trials x all completion orders x dispatch windows (0,1,2,3,4,128) x every expiry point, 5 trials for selected outcomes; "
    "all histories of 3 calls varying repeats, executor, expiry on one object x all outcome sequences over two costs; all histories of <=4 settings of the executor, then deletion; cost and size of every ssa path of every network of 2-3 tensors (<=4 indices) and 4 tensors (<=3 indices); "
    "RandomGreedy trials on all networks of 3-4 tensors",
    "thorough": "5 trials serial, 5 trials x all completion orders for four outcome scripts, networks of 4 tensors with <=4 indices, histories of 4 calls",
}
ASSUMPTIONS = [
    "trial functions are deterministic in the trial number; at least one trial is requested",
    "cost and size are compared on contractions where every summed index is on at least two operands (C04)",
    "clocks are the standard ones of the time module",
]

OFFSET = [0.0]
PR = None  # opt_einsum.path_random, imported again with controlled clocks and process pools
OE = None
POOLS = []


class FakeProcessPool:
    """Stand-in for ProcessPoolExecutor: runs jobs in this process and records its shutdown."""

    def __init__(self, max_workers=None, **kw):
        self.max_workers, self.down = max_workers, 0
        POOLS.append(self)

    def submit(self, fn, *args):
        if self.down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = concurrent.futures.Future()
        f.set_result(fn(*args))
        return f

    def shutdown(self, *a, **k):
        self.down += 1


def prepare(tier):
    global PR, OE
    for name in ("time", "monotonic", "perf_counter"):
        real = getattr(time, name)
        if not getattr(real, "_mc", False):
            fake = (lambda r: lambda: r() + OFFSET[0])(real)
            fake._mc = True
            setattr(time, name, fake)
    concurrent.futures.ProcessPoolExecutor = FakeProcessPool
    concurrent.futures.process.ProcessPoolExecutor = FakeProcessPool
    for m in [m for m in sys.modules if m == "opt_einsum" or m.startswith("opt_einsum.")]:
        del sys.modules[m]
    OE = importlib.import_module("opt_einsum")
    PR = importlib.import_module("opt_einsum.path_random")


# --- scripted executor -------------------------------------------------------------------------------------------


class Job:
    def __init__(self, pool, fn, args):
        self.pool, self.fn, self.args = pool, fn, args
        self.state, self.value, self.consumed, self.cancel_calls = "pending", None, False, 0
        self.r = args[0]

    def run(self):
        self.value = self.fn(*self.args)
        self.state = "done"

    def result(self, timeout=None):
        if self.state == "cancelled":
            raise concurrent.futures.CancelledError()
        self.pool.complete_until(self)
        if not self.consumed and self.pool.on_result:
            self.pool.on_result(self)
        self.consumed = True
        return self.value

    def done(self):
        return self.state != "pending"

    def cancelled(self):
        return self.state == "cancelled"

    def cancel(self):
        self.cancel_calls += 1
        if self.state == "done":
            return False
        self.state = "cancelled"
        return True


class Pool:
    """Jobs complete in the order given by `priority` (by submission number), as far as they are submitted."""

    def __init__(self, priority=(), on_result=None):
        self.jobs, self.priority, self.on_result, self.down = [], list(priority), on_result, 0
        self.max_outstanding = 0
        self.completions = 0

    def submit(self, fn, *args):
        if self.down:
            raise RuntimeError("pool was shut down")
        self.jobs.append(Job(self, fn, args))
        self.max_outstanding = max(self.max_outstanding, sum(not j.consumed and j.state != "cancelled" for j in self.jobs))
        return self.jobs[-1]

    def complete_until(self, job):
        while job.state == "pending":
            pend = [k for k, j in enumerate(self.jobs) if j.state == "pending"]
            k = min(pend, key=lambda k: self.priority[k] if k < len(self.priority) else 10**6 + k)
            self.jobs[k].run()
            self.completions += 1

    def shutdown(self, *a, **k):
        self.down += 1


def path_of(r):
    """A different (valid) ssa path of four tensors for every trial number."""
    ps = [p for p in itertools.permutations(range(4))]
    a, b, c, d = ps[r % len(ps)]
    return [(a, b), (c, d), (4, 5)] if r % 2 else [(a, b), (c, 4), (d, 5)]


class Scripted:
    """Builds the optimizer class lazily (PR is imported in prepare)."""

    def __new__(cls, script, expire=None, **kw):
        class Opt(PR.RandomOptimizer):
            def setup(self, inputs, output, size_dict):
                def trial(r, *args):
                    self.log.append(r)
                    if args != ("x", 7):
                        raise Violation(f"trial {r} was called with arguments {args}, setup returned ('x', 7)")
                    if self.serial_expire == len(self.log) - self.log0:
                        OFFSET[0] += 5000
                    cost, size = script[r] if r < len(script) else (9, 9)
                    return path_of(r), cost, size
                return trial, ("x", 7)

        opt = Opt(**kw)
        opt.log, opt.log0, opt.serial_expire = [], 0, None
        return opt


INPUTS, OUTPUT, SIZES = [{"a", "b"}, {"b", "c"}, {"c", "d"}, {"d", "a"}], set(), dict.fromkeys("abcd", 2)


def best_of(results, minimize, cur=None):
    """First best by (cost, size) or (size, cost)."""
    key = (lambda x: (x[1], x[2])) if minimize == "flops" else (lambda x: (x[2], x[1]))
    best = cur
    for x in results:
        if best is None or key(x) < key(best):
            best = x
    return best


def tree(path_linear, n=4):
    cur = [str(k) for k in range(n)]
    for p in path_linear:
        parts = sorted(cur[i] for i in p)
        cur = [x for i, x in enumerate(cur) if i not in p] + ["(" + "".join(parts) + ")"]
    return cur[0]


def tree_ssa(ssa, n=4):
    cur = [str(k) for k in range(n)]
    for p in ssa:
        cur.append("(" + "".join(sorted(cur[i] for i in p)) + ")")
    return cur[-1]


def one_call(opt, script, repeats, expire, model, st, what, pool=None):
    """Perform one call and compare everything with the model {'costs','sizes','best'}."""
    start = len(model["costs"])
    n = repeats if expire is None else min(repeats, expire)
    expect = [(r, *(script[r] if r < len(script) else (9, 9))) for r in range(start, start + n)]
    opt.log0 = len(opt.log)
    before = list(opt.log)
    if pool is not None:
        seen = [0]
        job0 = len(pool.jobs)

        def on_result(job):
            seen[0] += 1
            if seen[0] == expire:
                OFFSET[0] += 5000

        pool.on_result = on_result
        pool.max_outstanding = 0
        opt.serial_expire = None
    else:
        opt.serial_expire = expire
    try:
        got = opt(INPUTS, OUTPUT, SIZES)
    finally:
        OFFSET[0] = 0.0
    st.transitions += n
    st.traces += 1
    model["costs"] += [c for _, c, _ in expect]
    model["sizes"] += [s for _, _, s in expect]
    model["best"] = best_of(expect, opt.minimize, model["best"])
    if list(opt.costs) != model["costs"] or list(opt.sizes) != model["sizes"]:
        raise Violation(f"{what}: recorded costs/sizes {opt.costs} {opt.sizes}, expected {model['costs']} {model['sizes']}")
    r, c, s = model["best"]
    if opt.best["flops"] != c or opt.best["size"] != s:
        raise Violation(f"{what}: best is flops={opt.best['flops']} size={opt.best['size']}, expected {c}, {s}")
    want = tree_ssa(path_of(r))
    if tree(got) != want or tree(opt.path) != want:
        raise Violation(f"{what}: path {got} / {opt.path} is not that of the best trial {r} ({path_of(r)})")
    if pool is None:
        if opt.log[len(before):] != list(range(start, start + n)):
            raise Violation(f"{what}: trials run were {opt.log[len(before):]}, expected {list(range(start, start + n))}")
    else:
        jobs = pool.jobs[job0:]
        nums = [j.r for j in jobs]
        if nums != list(range(start, start + len(jobs))) or not n <= len(jobs) <= repeats:
            raise Violation(f"{what}: trial numbers submitted were {nums} for {repeats} repeats from {start}")
        for j in jobs:
            if not j.consumed and j.state == "pending":
                raise Violation(f"{what}: unneeded job {j.r} was left running")
            if not j.consumed and not j.cancel_calls:
                raise Violation(f"{what}: unneeded job {j.r} was not cancelled")
        limit = max(1, opt.pre_dispatch)
        if pool.max_outstanding > limit:
            raise Violation(f"{what}: {pool.max_outstanding} jobs outstanding with pre_dispatch={opt.pre_dispatch}")
        if expire is None and len([j for j in jobs if j.consumed]) != repeats:
            raise Violation(f"{what}: not every trial was used")
        if pool.down:
            raise Violation(f"{what}: the caller's executor was shut down")


def run_serial(case, st):
    script, minimize, expire = case
    script = [tuple(x) for x in script]
    kw = {} if expire == "unlimited" else {"max_time": 1000}
    expire = None if expire in ("unlimited", "never") else expire
    opt = Scripted(script, max_repeats=len(script), minimize=minimize, **kw)
    model = {"costs": [], "sizes": [], "best": None}
    one_call(opt, script, len(script), expire, model, st, f"serial trials {script} minimize={minimize} expiry={expire}")
    st.states += 1
    st.outcome("best trial", model["best"][0])


def gen_serial(n, costs, sizes):
    def g():
        outcomes = [[c, s] for c in costs for s in sizes]
        for script in itertools.product(outcomes, repeat=n):
            for minimize in ("flops", "size"):
                for expire in ["unlimited", "never", *range(1, n + 1)]:
                    yield [list(script), minimize, expire]
    return g


def run_parallel(case, st):
    script, minimize, expire, order, pre = case
    script = [tuple(x) for x in script]
    pool = Pool(order)
    opt = Scripted(script, max_repeats=len(script), minimize=minimize, parallel=pool, pre_dispatch=pre, **({} if expire is None else {"max_time": 1000}))
    model = {"costs": [], "sizes": [], "best": None}
    one_call(opt, script, len(script), expire, model, st, f"parallel trials {script} minimize={minimize} expiry={expire} completion priority={order} pre_dispatch={pre}", pool)
    st.states += 1
    st.transitions += pool.completions
    del opt
    if pool.down:
        raise Violation("deleting the optimizer shut down the caller's executor")


def gen_parallel(n, scripts, pres):
    def g():
        for script in scripts:
            for minimize in ("flops", "size"):
                for expire in [None, *range(1, n + 1)]:
                    for order in itertools.permutations(range(n)):
                        for pre in pres:
                            yield [[list(x) for x in script], minimize, expire, list(order), pre]
    return g


def run_calls(case, st):
    bits, minimize, calls = case
    script = [((1, 3), (2, 2), (3, 1))[b] for b in bits]
    opt = Scripted(script, minimize=minimize, pre_dispatch=2, max_time=1000)
    model = {"costs": [], "sizes": [], "best": None}
    for k, (repeats, mode, expire) in enumerate(calls):
        pool = Pool([2, 1, 0]) if mode == "pool" else None
        opt.parallel = pool if pool is not None else (False if mode == "serial" else mode)
        opt.max_repeats = repeats
        one_call(opt, script, repeats, expire, model, st, f"outcomes {script} minimize={minimize} calls {calls[: k + 1]}", pool)
    st.states += 1


def gen_calls(depth, nb):
    def g():
        options = [[r, m, e] for r in (1, 2) for m in ("serial", "pool") for e in (None, 1)]
        for calls in itertools.product(options, repeat=depth):
            for bits in itertools.product(range(nb), repeat=2 * depth if nb == 2 else depth + 1):
                for minimize in ("flops", "size"):
                    yield [list(bits), minimize, [list(c) for c in calls]]
    return g


# --- executor lifecycle ----------------------------------------------------------------------------------------


def run_lifecycle(case, st):
    settings, how = case
    POOLS.clear()
    users = {"poolA": Pool(), "poolB": Pool()}
    script = [(2, 2), (1, 1), (3, 3)] * 5
    decode = {"False": False, "True": True, "2": 2, "dec": Decimal(3), **users}
    opt = None
    model = {"costs": [], "sizes": [], "best": None}
    created = []
    for k, s in enumerate(settings):
        n0 = len(POOLS)
        if opt is None:
            opt = Scripted(script, max_repeats=2, parallel=decode[s])
        else:
            opt.parallel = decode[s]
        st.transitions += 1
        new = POOLS[n0:]
        if s in ("True", "2", "dec"):
            if len(new) != 1 or new[0].max_workers != {"True": None, "2": 2, "dec": 3}[s]:
                raise Violation(f"parallel settings {settings[: k + 1]}: {len(new)} process pools created (workers {[p.max_workers for p in new]})")
        elif new:
            raise Violation(f"parallel settings {settings[: k + 1]}: a process pool was created")
        for p in created:
            if not p.down:
                raise Violation(f"parallel settings {settings[: k + 1]}: the pool the optimizer created before was not shut down")
        created += new
        if opt.parallel is not decode[s] and opt.parallel != decode[s]:
            raise Violation(f"parallel reads back as {opt.parallel}")
        if how == "call":
            one_call(opt, script, 2, None, model, st, f"parallel settings {settings[: k + 1]}", users.get(s))
        if any(p.down for p in users.values()):
            raise Violation(f"parallel settings {settings[: k + 1]}: the caller's executor was shut down")
    del opt
    for p in users.values():
        p.jobs.clear()  # their functions refer to the optimizer
    gc.collect()
    st.states += 1
    st.traces += 1
    for p in created:
        if not p.down:
            raise Violation(f"parallel settings {settings}, optimizer deleted: the pool it created was not shut down")
    if any(p.down for p in users.values()):
        raise Violation(f"parallel settings {settings}, optimizer deleted: the caller's executor was shut down")


def gen_lifecycle(depth):
    def g():
        for n in range(1, depth + 1):
            for s in itertools.product(["False", "True", "2", "dec", "poolA", "poolB"], repeat=n):
                for how in ("set", "call"):
                    yield [list(s), how]
    return g


def run_reject(case, st):
    st.states += 1
    st.traces += 1
    st.transitions += 1
    for cls in (PR.RandomOptimizer, PR.RandomGreedy):
        try:
            cls(minimize=case)
        except ValueError:
            continue
        raise Violation(f"{cls.__name__}(minimize={case!r}) was accepted")


# --- recorded cost and size are the true ones --------------------------------------------------------------------


def ssa_paths(n):
    def go(avail, nxt):
        if len(avail) == 1:
            yield []
            return
        for i, j in itertools.combinations(avail, 2):
            for rest in go([x for x in avail if x not in (i, j)] + [nxt], nxt + 1):
                yield [(i, j)] + rest
    yield from go(list(range(n)), n)


def truth(ssa, terms, out, sd):
    inputs = [frozenset(t) for t in terms]
    left = set(range(len(inputs)))
    flops, size = 0, 0
    for i, j in ssa:
        left -= {i, j}
        keep = frozenset(out).union(*[inputs[k] for k in left])
        inv = inputs[i] | inputs[j]
        res = inv & keep
        flops += oracle.size(inv, sd) * (2 if inv - res else 1)
        size = max(size, oracle.size(res, sd))
        left.add(len(inputs))
        inputs.append(res)
    return flops, size


def run_truth(case, st):
    terms, out, pattern = case
    sd = util.sizes(enum.letters_of(terms), pattern)
    for ssa in ssa_paths(len(terms)):
        want = truth(ssa, terms, out, sd)
        for flip in (False, True):
            p = [(j, i) for i, j in ssa] if flip else ssa
            st.transitions += len(p)
            st.traces += 1
            got = PR.ssa_path_compute_cost(p, [frozenset(t) for t in terms], frozenset(out), sd)
            if tuple(got) != want:
                raise Violation(f"{terms}->{out} {sd}: ssa path {p} is given flops, size {got}, true values {want}")
    st.states += 1


def outputs_ok(terms):
    flat = "".join(terms)
    letters = enum.letters_of(terms)
    for out in enum.subsets(letters):
        if all(c in out or flat.count(c) >= 2 for c in letters):
            yield out


def gen_truth(n, m, patterns):
    def g():
        for terms in enum.networks(n, m):
            for out in outputs_ok(terms):
                for p in patterns:
                    yield [terms, out, p]
    return g


def run_greedy(case, st):
    """RandomGreedy: every trial's recorded cost and size are those of its path, and the best one is returned."""
    terms, out, pattern, minimize, opts = case
    sd = util.sizes(enum.letters_of(terms), pattern)
    inputs = [frozenset(t) for t in terms]
    n = 4
    pool = Pool([3, 1, 2, 0])
    kw = {"nbranch": opts[0], "temperature": opts[1], "rel_temperature": opts[2], "cost_fn": opts[3]}
    runs = []
    for par in (False, pool):
        opt = PR.RandomGreedy(max_repeats=n, minimize=minimize, parallel=par, **kw)
        path = opt(inputs, frozenset(out), sd)
        st.transitions += n
        st.traces += 1
        bad = oracle.check_path(path, len(terms))
        if bad:
            raise Violation(f"{terms}->{out}: RandomGreedy({kw}) path {path}: {bad}")
        runs.append((path, list(opt.costs), list(opt.sizes), opt.best["flops"], opt.best["size"]))
    if runs[0] != runs[1]:
        raise Violation(f"{terms}->{out} {sd} {kw}: serial {runs[0]} and executor {runs[1]} runs differ")
    path, costs, sizes, flops, size = runs[0]
    for j in pool.jobs:
        ssa, c, s = j.value
        if (c, s) != truth(ssa, terms, out, sd):
            raise Violation(f"{terms}->{out} {sd}: trial {j.r} recorded {c}, {s} for {ssa}, true values {truth(ssa, terms, out, sd)}")
    if costs != [j.value[1] for j in pool.jobs] or sizes != [j.value[2] for j in pool.jobs]:
        raise Violation(f"{terms}->{out} {sd}: recorded {costs} {sizes} are not those of the trials")
    want = min(zip(costs, sizes)) if minimize == "flops" else min(zip(sizes, costs))[::-1]
    if (flops, size) != want:
        raise Violation(f"{terms}->{out} {sd} minimize={minimize}: best {flops}, {size} of {list(zip(costs, sizes))}")
    f, s, _, _ = oracle.path_costs(path, terms, out, sd)
    if (sum(f), max(s)) != want:
        raise Violation(f"{terms}->{out} {sd} minimize={minimize}: the returned path {path} has flops {sum(f)} and size {max(s)}, the best trial {want}")
    st.states += 1


OPTS = [[8, 1.0, True, "memory-removed-jitter"], [2, 10.0, False, "memory-removed"], [1, 0.0, True, "memory-removed"], [3, 0.0, False, "memory-removed"]]


def gen_greedy(n, m, patterns, opts):
    def g():
        for terms in enum.networks(n, m):
            for out in outputs_ok(terms):
                for p in patterns:
                    for minimize in ("flops", "size"):
                        for o in opts:
                            yield [terms, out, p, minimize, o]
    return g


def spaces(tier):
    q = tier == "quick"
    three = list(itertools.product([(1, 2), (2, 1), (1, 1), (2, 2)], repeat=3))
    five = [[(4, 1), (3, 2), (2, 3), (1, 4), (1, 4)], [(2, 2)] * 5, [(2, 2), (1, 3), (2, 1), (1, 2), (2, 1)], [(3, 3), (1, 1), (1, 1), (2, 2), (1, 1)]]
    return [
        ("serial", gen_serial(4 if q else 5, (1, 2, 3) if q else (1, 2), (1, 2)), run_serial),
        ("parallel-3", gen_parallel(3, three, (0, 1, 2, 3, 128)), run_parallel),
        ("parallel-4", gen_parallel(4, list(itertools.product([(1, 2), (2, 1), (1, 1), (2, 2)], repeat=4)), (1, 2, 3, 4)), run_parallel),
        ("parallel-5", gen_parallel(5, five[:1] if q else five, (1, 2, 3, 5)), run_parallel),
        ("calls", gen_calls(3, 2), run_calls),
        ("calls-three-costs", gen_calls(2 if q else 4, 3), run_calls),
        ("lifecycle", gen_lifecycle(4 if q else 5), run_lifecycle),
        ("rejected", lambda: iter(["", "flop", "cost", None, 3, "FLOPS", "write"]), run_reject),
        ("true-cost-2", gen_truth(2, 4, ("mix", "first1", "zero")), run_truth),
        ("true-cost-3", gen_truth(3, 4, ("mix", "one")), run_truth),
        ("true-cost-4", gen_truth(4, 3 if q else 4, ("mix",)), run_truth),
        ("random-greedy-2", gen_greedy(2, 3, ("mix",), OPTS), run_greedy),
        ("random-greedy-3", gen_greedy(3, 3, ("mix", "rev"), OPTS), run_greedy),
        ("random-greedy-4", gen_greedy(4, 3 if q else 4, ("mix",), OPTS[:2]), run_greedy),
    ]
