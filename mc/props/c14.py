"""C14: sharing is scoped to its context and thread."""

import gc
import itertools
import threading
import weakref

import numpy as np

import opt_einsum as oe
from opt_einsum import sharing

from mc import fakelib, oracle, sched, util
from mc.core import Violation

ID = "C14"
TECHNIQUE = "explicit-state model of the per-thread stack of caches, checked in lock step with the real code over all enter/exit/raise/contract histories up to a depth and all interleavings of two threads (operation level exhaustively, source-line level up to a preemption bound)"
BOUNDS = {
    "quick": "all histories of length <=6 over enter(new cache)/enter(named cache A or B)/leave/leave by exception/three contractions, nesting <=3; all interleavings of all pairs of balanced two-thread scripts of length <=3; "
    "2 preemptions at the source lines of the sharing module (1 at those of the package) for five scenarios; new threads started in every state; release of every operand and intermediate for 18 contraction kinds x 12 context shapes",
    "thorough": "histories of length <=7; scripts of length <=4; 3 preemptions; two-contraction release histories",
}
ASSUMPTIONS = ["contexts are left in the reverse order of entering, by the thread that entered them"]

EQS = {"c": ("ab,bc->ac", ["ab", "bc"], "ac"), "d": ("ab,ab->ba", ["ab", "ab"], "ba"), "e": ("ab,bc,cd->ad", ["ab", "bc", "cd"], "ad")}


def prepare(tier):
    import torch

    torch.set_num_threads(1)
    fakelib.make("mcfull")


class Boom(Exception):
    pass


class World:
    """Arrays and named caches shared by all threads of a case."""

    def __init__(self):
        cls = fakelib.make("mcfull")
        self.vals = [util.data((2, 2), 3 + k) for k in range(3)]
        self.arrays = [cls(v) for v in self.vals]
        self.exprs = {}
        self.real = {"A": {}, "B": {}}
        self.model = {"A": set(), "B": set()}


    def expr(self, a, path):
        if a not in self.exprs:
            self.exprs[a] = oe.contract_expression(EQS[a][0], *[(2, 2)] * len(EQS[a][1]), optimize=path)
        return self.exprs[a]


class Thread:
    """One thread's view: a stack of (context manager, real cache, model cache)."""

    def __init__(self, w, name=""):
        self.w, self.stack, self.name = w, [], name

    def enabled(self, a, nest=3):
        if a in ("x", "X"):
            return bool(self.stack)
        if a in ("E", "A", "B"):
            return len(self.stack) < nest
        return True

    def do(self, a, st, hist, exact=True):
        st.transitions += 1
        if a in ("E", "A", "B"):
            given = self.w.real.get(a)
            cm = sharing.shared_intermediates() if a == "E" else sharing.shared_intermediates(given)
            got = cm.__enter__()
            if a != "E" and got is not given:
                raise Violation(f"{hist}: the context yields another cache than the one given")
            if a == "E" and any(got is c for _, c, _ in self.stack):
                raise Violation(f"{hist}: a new context yields the cache of an enclosing one")
            self.stack.append((cm, got, set() if a == "E" else self.w.model[a]))
        elif a == "x":
            cm, _, _ = self.stack.pop()
            cm.__exit__(None, None, None)
        elif a == "X":
            cm, _, _ = self.stack.pop()
            err = Boom()
            try:
                swallowed = cm.__exit__(Boom, err, None)
            except Boom:
                swallowed = False
            if swallowed:
                raise Violation(f"{hist}: the context swallowed an exception")
        else:
            eq, terms, out = EQS[a]
            ops = self.w.arrays[: len(terms)]
            n0 = len(fakelib.LOG)
            path = [(0, 1)] * (len(terms) - 1) if len(terms) > 2 else "auto"
            if exact:
                got = oe.contract(eq, *ops, optimize=path)
            else:
                got = self.w.expr(a, path)(*ops)
            new = len(fakelib.LOG) - n0
            st.traces += 1
            want = oracle.einsum(terms, out, self.w.vals[: len(terms)])
            if not util.same(got._a, want):
                raise Violation(f"{hist}: contraction gives {util.show(got._a)}, expected {util.show(want)}")
            have = self.stack[-1][2] if self.stack else set()
            if exact:
                if a in have and new:
                    raise Violation(f"{hist}: recomputed {new} operations although the active cache has the result")
                # "c" may be found as the first step of "e", depending on the order in which terms are taken
                if a not in have and not new and not (a == "c" and "e" in have):
                    raise Violation(f"{hist}: a result was shared from outside the active cache")
            if self.stack:
                have.add(a)
        self.look(hist)

    def look(self, hist):
        on = sharing.currently_sharing()
        if bool(on) != bool(self.stack):
            raise Violation(f"{hist}: currently_sharing() is {on} with {len(self.stack)} contexts entered")
        if self.stack:
            if sharing.get_sharing_cache() is not self.stack[-1][1]:
                raise Violation(f"{hist}: the active cache is not that of the innermost context")
        else:
            try:
                sharing.get_sharing_cache()
            except IndexError:
                pass
            else:
                raise Violation(f"{hist}: a cache is active outside of any context")

    def unwind(self):
        while self.stack:
            self.stack.pop()[0].__exit__(None, None, None)


ACTIONS = ["E", "A", "B", "x", "X", "c", "d", "e"]


def run_history(case, st):
    fakelib.reset()
    t = Thread(World())
    try:
        t.look(case)
        for k, a in enumerate(case):
            t.do(a, st, case[: k + 1])
    finally:
        t.unwind()
    t.look(case + ["end"])
    st.states += len(case) + 1


def valid(case, nest=3):
    d = 0
    for a in case:
        if a in "EAB":
            d += 1
        elif a in "xX":
            d -= 1
        if d < 0 or d > nest:
            return False
    return True


def gen_histories(depth, actions=ACTIONS):
    def g():
        for case in itertools.product(actions, repeat=depth):
            if valid(case):
                yield list(case)
    return g


# --- two threads -----------------------------------------------------------------------------------------------


class Puppet:
    """A real thread executing one operation at a time on command."""

    def __init__(self, w, name):
        self.t = Thread(w, name)
        self.todo = None
        self.wake, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.err = None
        self.th = threading.Thread(target=self.main, daemon=True)
        self.th.start()

    def main(self):
        while True:
            self.wake.acquire()
            if self.todo is None:
                self.done.release()
                return
            try:
                self.todo()
            except BaseException as e:
                self.err = e
            self.done.release()

    def call(self, fn):
        self.todo = fn
        self.wake.release()
        self.done.acquire()
        if self.err is not None:
            e, self.err = self.err, None
            raise e

    def stop(self):
        self.call(self.t.unwind)
        self.todo = None
        self.wake.release()
        self.done.acquire()
        self.th.join()


def scripts(length):
    """Balanced scripts over E, A, x, c of at most `length` operations (the thread's contexts are all left)."""
    for n in range(1, length + 1):
        for s in itertools.product("EAxcX", repeat=n):
            d = 0
            for a in s:
                d += 1 if a in "EA" else -1 if a in "xX" else 0
                if d < 0 or d > 2:
                    break
            else:
                if d == 0:
                    yield "".join(s)


def merges(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield "".join("0" if k in pos else "1" for k in range(n + m))


def run_threads(case, st):
    s0, s1 = case
    for order in merges(len(s0), len(s1)):
        fakelib.reset()
        w = World()
        ps = [Puppet(w, "0"), Puppet(w, "1")]
        it = [iter(s0), iter(s1)]
        hist = []
        try:
            for who in order:
                k = int(who)
                a = next(it[k])
                hist.append(f"{k}:{a}")
                ps[k].call(lambda: ps[k].t.do(a, st, hist))
                ps[1 - k].call(lambda: ps[1 - k].t.look(hist))
            # neither the main thread nor a new thread is affected
            Thread(w).look(hist)
        finally:
            for p in ps:
                p.stop()
        st.states += len(order) + 1


def gen_threads(length):
    def g():
        ss = list(scripts(length))
        for s0 in ss:
            for s1 in ss:
                if s0 <= s1 and ("c" in s0 or "c" in s1):
                    yield [s0, s1]
    return g


def run_new_thread(case, st):
    """A thread started while its parent is in any state starts outside of every context; what it does (even dying in
    the middle of a context) leaves the parent's and every later thread's sharing as it was."""
    parent, child = case
    fakelib.reset()
    w = World()
    t = Thread(w)
    err = []

    def body():
        c = Thread(w)
        try:
            c.look(["new thread"])
            for a in child:
                c.do(a, st, [parent, "child", child])
            c.unwind()
            c.look(["child end"])
        except BaseException as e:
            err.append(e)

    try:
        for a in parent:
            t.do(a, st, parent)
        for _ in range(2):  # the second thread usually gets the identifier of the first
            th = threading.Thread(target=body)
            th.start()
            th.join()
            if err:
                raise err[0]
            t.look([parent, "after child", child])
        for a in "ce":
            t.do(a, st, [parent, "after child", child, a])
    finally:
        t.unwind()
    st.states += 1


def gen_new_thread(n, m):
    def g():
        for p in range(n + 1):
            for parent in itertools.product("EAxc", repeat=p):
                if valid(parent):
                    for child in itertools.product("EAxXc", repeat=m):
                        if valid(child):
                            yield ["".join(parent), "".join(child)]
    return g


FILES = {"all": None, "sharing": ("/repo/opt_einsum/sharing.py",)}
SCEN = {
    "own|own": ("Ec", "Ec"),
    "same|same": ("Ac", "Ac"),
    "nested|own": ("AExc", "Ec"),
    "own|outside": ("Ec", "c"),
    "raise|own": ("EXc", "Ed"),
}


def run_lines(case, st):
    name, i, bound, where = case

    def attempt(schedule):
        fakelib.reset()
        w = World()
        for a in EQS:
            w.expr(a, [(0, 1)] * (len(EQS[a][1]) - 1))
        st2 = type(st)()

        def body(k):
            def run():
                t = Thread(w, str(k))
                try:
                    for n, a in enumerate(SCEN[name][k]):
                        t.do(a, st2, f"{name} schedule {schedule} thread {k} step {n}", exact=False)
                finally:
                    t.unwind()
                t.look(f"{name} schedule {schedule} thread {k} end")
            return run

        r, flags = sched.execute([body(0), body(1)], schedule, prefixes=FILES[where])
        for k in (0, 1):
            if isinstance(r.error[k], Violation):
                raise r.error[k]
            if r.error[k] is not None:
                raise Violation(f"{name} schedule {schedule}: thread {k} fails with {r.error[k]!r}")
        Thread(w).look(f"{name} schedule {schedule} after both threads")
        st.states += 1
        st.traces += 1
        st.transitions += sum(r.steps)
        return flags

    def explore(prefix, left):
        k = 1 - prefix[-1][0]
        if left == 0:
            attempt(prefix + [(k, None)])
            return
        j = 1
        while True:
            flags = attempt(prefix + [(k, j)])
            if flags[-1]:
                return
            if left > 1:
                explore(prefix + [(k, j)], left - 1)
            j += 1

    attempt([(0, i), (1, None)])
    if bound > 1:
        explore([(0, i)], bound - 1)


def gen_lines(bound, where):
    def g():
        for name in SCEN:
            w = World()
            for a in EQS:
                w.expr(a, [(0, 1)] * (len(EQS[a][1]) - 1))

            def body():
                t = Thread(w)
                for a in SCEN[name][0]:
                    t.do(a, type("S", (), {"transitions": 0, "traces": 0})(), "", exact=False)
                t.unwind()

            r, _ = sched.execute([body], [(0, None)], prefixes=FILES[where])
            for i in range(r.steps[0] + 1):
                yield [name, i, bound, where]
    return g


# --- nothing is kept alive -------------------------------------------------------------------------------------

KINDS = ["dot", "dotT", "had", "T", "tr", "chain", "noopt", "out", "dtype", "expr", "exprc", "torch", "torchc", "fake", "fakex", "torcht", "intl", "fail"]
SHAPES = ["E", "A", "EE", "AE", "EA", "AA", "E!", "AE!", "A!A", "out", "E-keep", "EEc"]


def contraction(kind, refs):
    import torch

    def track(x):
        refs.append((kind, type(x).__name__, weakref.ref(x)))
        return x

    xs = [track(util.data((2, 2), k)) for k in range(3)]
    if kind.startswith("fake"):
        cls = fakelib.make("mcfull")
        xs = [track(cls(x)) for x in xs]
    if kind == "torcht":
        xs = [track(torch.from_numpy(x)) for x in xs]
    if kind in ("dot", "fake", "torcht"):
        r = oe.contract("ab,bc->ac", *xs[:2])
    elif kind == "dotT":
        r = oe.contract("ab,bc->ca", *xs[:2])
    elif kind == "had":
        r = oe.contract("ab,ab->ba", *xs[:2])
    elif kind == "T":
        r = oe.contract("ab->ba", xs[0])
    elif kind == "tr":
        r = oe.contract("aa->a", xs[0])
    elif kind in ("chain", "fakex"):
        r = oe.contract("ab,bc,cd->ad", *xs)
    elif kind == "noopt":
        r = oe.contract("ab,bc,cd->ad", *xs, optimize=False)
    elif kind == "out":
        o = track(np.empty((2, 2)))
        r = oe.contract("ab,bc->ac", *xs[:2], out=o)
    elif kind == "dtype":
        r = oe.contract("ab,bc->ac", *xs[:2], dtype="complex128")
    elif kind == "intl":
        r = oe.contract(xs[0], [0, 1], xs[1], [1, 2], [2, 0])
    elif kind == "fail":
        try:
            oe.contract("ab,bc->ac", xs[0], xs[1], out=np.empty((3, 3, 3)), order="nonsense")
        except Exception:
            pass
        else:
            raise AssertionError("expected a failure")
        return None
    else:
        const = [1] if kind.endswith("c") else []
        args = [xs[k] if k in const else (2, 2) for k in range(3)]
        ex = oe.contract_expression("ab,bc,cd->ad", *args, constants=const)
        track(ex)
        r = ex(*[x for k, x in enumerate(xs) if k not in const], **({"backend": "torch"} if kind.startswith("torch") else {}))
    return track(r)


def run_release(case, st):
    shape, kinds = case[0], case[1:]
    fakelib.reset()
    refs = []

    def work():
        for k in kinds:
            contraction(k, refs)
            st.transitions += 1

    def whole():
        named = {}
        if shape == "out":
            work()
        elif shape == "E-keep":
            with oe.shared_intermediates() as c:
                work()
            assert isinstance(c, dict)
        elif shape == "EEc":
            with oe.shared_intermediates():
                work()
                with oe.shared_intermediates():
                    work()
        else:
            def nest(s):
                if not s:
                    work()
                elif s[0] == "!":
                    work()
                    raise Boom()
                else:
                    with oe.shared_intermediates(*([named] if s[0] == "A" else [])):
                        nest(s[1:])

            for part in (["A!", "A"] if shape == "A!A" else [shape]):
                try:
                    nest(part)
                except Boom:
                    pass

    whole()
    gc.collect()
    st.states += 1
    st.traces += 1
    for kind, typ, ref in refs:
        if ref() is not None:
            raise Violation(f"contexts {shape}, contractions {kinds}: a {typ} of contraction {kind} is still alive after the context and its cache are gone")
    st.count("objects released", len(refs))


def gen_release(n):
    def g():
        for shape in SHAPES:
            for kinds in itertools.product(KINDS, repeat=n):
                yield [shape, *kinds]
    return g


def spaces(tier):
    q = tier == "quick"
    return [
        ("histories", gen_histories(6 if q else 7), run_history),
        ("two-threads", gen_threads(3 if q else 4), run_threads),
        ("new-threads", gen_new_thread(3, 2), run_new_thread),
        ("lines-all-files", gen_lines(1 if q else 2, "all"), run_lines),
        ("lines-sharing", gen_lines(2 if q else 3, "sharing"), run_lines),
        ("release", gen_release(1 if q else 2), run_release),
    ]
