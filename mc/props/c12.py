"""C12: a reusable expression is safe under concurrent use."""


import sys

import numpy as np

import opt_einsum as oe

from mc import fakelib, oracle, sched, spy, util
from mc.core import Violation

ID = "C12"
TECHNIQUE = "stateless model checking of the real expression code: all interleavings up to a preemption bound under a controlled scheduler (preemption at every source line and at every access to the expression's state)"
BOUNDS = {
    "quick": "19 scenarios of 2 threads (first calls evaluating constants, pre-evaluation against a call, numpy against torch conversion or an instrumented library, first use of a library, out arrays, repeated calls, "
    "sharing contexts, no constants): every schedule with <=2 preemptions at accesses to the expression's attributes and dicts, every schedule with 1 preemption at source lines (2 for four scenarios); "
    "3 preemptions at accesses for first calls; 3 threads with 2 preemptions",
    "thorough": "2 preemptions at source lines for all scenarios, 3 preemptions at accesses for five",
}
ASSUMPTIONS = ["array library calls are atomic (one operation of numpy or torch is one step)"]
EQS = {
    "chain": (["ab", "bc", "cd"], "ad"),
    "pair": (["ab", "bc"], "ac"),
    "four": (["ab", "ba", "cd", "d"], "c"),
}


def prepare(tier):
    import torch

    torch.set_num_threads(1)
    fakelib.make("mcfull")
    # warm one-time caches of the library that are not under test
    ex = oe.contract_expression("ab,bc,cd->ad", np.eye(2), np.eye(2), (2, 2), constants=[0, 1])
    ex(np.eye(2), backend="torch")


COUNT = [0]


class World:
    def __init__(self, eqname, consts):
        terms, out = EQS[eqname]
        sd = util.sizes(sorted(set("".join(terms))), "mix")
        const = util.arrays(terms, sd, salt=5)
        self.consts = consts
        self.vars, self.want = [], []
        for salt in (1, 2, 3):
            full = util.arrays(terms, sd, salt=salt)
            for k in consts:
                full[k] = const[k]
            self.vars.append([x for k, x in enumerate(full) if k not in consts])
            self.want.append(oracle.einsum(terms, out, full))
        args = [const[k] if k in consts else tuple(sd[c] for c in t) for k, t in enumerate(terms)]
        # contract the constants with each other first so that evaluating them shortens the contraction
        path, n = [], len(terms)
        if len(consts) > 1:
            path.append(tuple(consts))
            n -= len(consts) - 1
        while n > 1:
            path.append((n - 2, n - 1))
            n -= 1
        self.ex = spy.watch(oe.contract_expression(util.eq(terms, out), *args, constants=list(consts), optimize=path))


def bodies(name, w):
    """Thread bodies of a scenario; each returns [(what, got, index of the expected value)]."""
    ex = w.ex

    def call(i, **kw):
        return lambda: [("call", ex(*w.vars[i], **kw), i)]

    def twice(i):
        return lambda: [("call", ex(*w.vars[i]), i), ("second call", ex(*w.vars[(i + 1) % 3]), (i + 1) % 3)]

    def fake(i):
        cls = fakelib.make("mcfull")
        return lambda: [("library call", ex(*[cls(x) for x in w.vars[i]])._a, i)]

    def newlib(i, tag):
        # a library nothing has been looked up in before
        if not hasattr(w, "lib"):
            COUNT[0] += 1
            w.lib = fakelib.make(f"mcnew{COUNT[0]}")
            sys.modules.pop(f"mcnew{COUNT[0] - 1}", None)
        return lambda: [("library call", ex(*[w.lib(x) for x in w.vars[i]])._a, i)]

    def out(i):
        def body():
            o = np.zeros(w.want[i].shape)
            r = ex(*w.vars[i], out=o)
            return [("out", o, i), ("returned", r, i)]
        return body

    def shared(i):
        def body():
            with oe.shared_intermediates():
                a = ex(*w.vars[i])
                return [("shared", a, i), ("shared again", ex(*w.vars[i]), i)]
        return body

    def evaluate(backend="auto"):
        def body():
            ex.evaluate_constants(backend)
            return []
        return body

    return {
        "call|call": lambda: [call(0), call(1)],
        "evaluate|call": lambda: [evaluate(), call(1)],
        "call|evaluate": lambda: [call(0), evaluate("numpy")],
        "call|torch": lambda: [call(0), call(1, backend="torch")],
        "torch|call": lambda: [call(0, backend="torch"), call(1)],
        "torch|torch": lambda: [call(0, backend="torch"), call(1, backend="torch")],
        "call|fake": lambda: [call(0), fake(1)],
        "out|call": lambda: [out(0), call(1)],
        "shared|call": lambda: [shared(0), call(1)],
        "call|shared": lambda: [call(0), shared(1)],
        "call|newlib": lambda: [call(0), newlib(1, name)],
        "newlib|newlib": lambda: [newlib(0, name), newlib(1, name)],
        "shared|shared": lambda: [shared(0), shared(1)],
        "twice|call": lambda: [twice(0), call(2)],
        "call|call|call": lambda: [call(0), call(1), call(2)],
    }[name]()


def one(st, case, schedule, accesses=False):
    eqname, consts, name = case[:3]
    w = World(eqname, consts)
    r, flags = sched.execute(bodies(name, w), schedule, accesses)
    st.states += 1
    st.transitions += sum(r.steps)
    st.traces += 1
    for k in range(r.n):
        what = f"{name} on {EQS[eqname]} constants={consts}, schedule {schedule}: thread {k}"
        if r.error[k] is not None:
            raise Violation(f"{what} failed with {r.error[k]!r}")
        for lab, got, i in r.result[k]:
            if not util.same(got, w.want[i]):
                raise Violation(f"{what} {lab} gives {util.show(got)}, expected {util.show(w.want[i])}")
    # and the expression is left in a correct state
    for i in range(3):
        if not util.same(w.ex(*w.vars[i]), w.want[i]):
            raise Violation(f"{name}, schedule {schedule}: a later call gives a wrong value")
    return r, flags


def explore(st, case, prefix, threads, bound, accesses):
    """All continuations of the schedule `prefix` with at most `bound` further preemptions.

    The prefix ends with a paused thread; every other thread may be given the next 0, 1, 2, ... steps.
    """
    last = prefix[-1][0]
    for k in threads:
        if k == last:
            continue
        if bound == 0:
            one(st, case, prefix + [(k, None)], accesses)
            continue
        j = 0 if bound > 1 or len(threads) > 2 else 1
        while True:
            r, flags = one(st, case, prefix + [(k, j)], accesses)
            if flags[-1]:
                break
            if bound > 1:
                explore(st, case, prefix + [(k, j)], threads, bound - 1, accesses)
            j += 1


def run_lines(case, st):
    """First thread preempted after i steps, then up to `bound`-1 more preemptions."""
    eqname, consts, name, i, bound, accesses = case
    n = name.count("|") + 1
    one(st, case, [(0, i), (1, None)], accesses)
    if bound > 1:
        explore(st, case, [(0, i)], range(n), bound - 1, accesses)


def length(eqname, consts, name, accesses):
    w = World(eqname, consts)
    r, _ = sched.execute(bodies(name, w), [(0, None)], accesses)
    return r.steps[0]


def gen(scen, bound, accesses):
    def g():
        for eqname, consts, name in scen:
            for i in range(length(eqname, consts, name, accesses) + 1):
                yield [eqname, consts, name, i, bound, accesses]
    return g


ALL = [
    ("chain", [0, 1], "call|call"),
    ("chain", [0], "call|call"),
    ("chain", [0, 1], "evaluate|call"),
    ("chain", [1, 2], "call|evaluate"),
    ("chain", [0, 1], "call|torch"),
    ("chain", [0, 1], "torch|call"),
    ("chain", [0, 1], "torch|torch"),
    ("chain", [0, 1], "call|fake"),
    ("chain", [0, 1], "call|newlib"),
    ("chain", [0, 2], "out|call"),
    ("chain", [0, 1], "call|shared"),
    ("chain", [0, 1], "shared|call"),
    ("chain", [0, 1], "shared|shared"),
    ("chain", [0, 1], "twice|call"),
    ("chain", [], "call|call"),
    ("four", [0, 1], "call|call"),
    ("four", [0, 2, 3], "call|call"),
    ("four", [1, 3], "call|torch"),
    ("pair", [0], "newlib|newlib"),
]
QUICK = [("pair", [0], "call|call"), ("chain", [0, 1], "evaluate|call"), ("pair", [1], "call|torch"), ("pair", [], "newlib|newlib")]
DEEP = [("chain", [0, 1], "call|call"), ("chain", [0, 1], "evaluate|call"), ("chain", [0, 1], "call|torch"), ("chain", [0, 1], "torch|torch"), ("pair", [0], "call|fake")]


def spaces(tier):
    q = tier == "quick"
    out = [
        ("accesses-1", gen(ALL, 1, True), run_lines),
        ("lines-1", gen(ALL, 1, False), run_lines),
        ("accesses-2", gen(ALL, 2, True), run_lines),
        ("lines-2", gen(QUICK if q else ALL, 2, False), run_lines),
        ("three-threads", gen([("chain", [0, 1], "call|call|call")], 2, True), run_lines),
    ]
    out.append(("accesses-3", gen(DEEP[:1] if q else DEEP, 3, True), run_lines))
    return out
