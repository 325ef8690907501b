"""C11: a reusable expression equals a fresh contraction for every call history."""

import itertools

import numpy as np

import opt_einsum as oe

from mc import enum, fakelib, oracle, util
from mc.core import Violation

ID = "C11"
TECHNIQUE = "exhaustive exploration of all call histories up to a depth on real expression objects (faults injected at every backend operation), stateless reference semantics as oracle"
BOUNDS = {
    "quick": "all histories of length <=3 over 18 operations (two operand sets, other sizes, lists, out arrays good and bad, evaluate_constants on two backends, conversion to torch, torch tensors, "
    "an instrumented library with a fault at its 1st/2nd operation, too few/many/wrong-rank arrays, sharing contexts) for 3 equations x all subsets of constants; length <=2 for all equations with 2 operands of rank <=2 and four larger networks, length 1 for 3 operands "
    "of total rank <=4, every constant subset, two strategies; three equations in four other alphabets (histories of length 2)",
    "thorough": "length <=4 for the deep configurations, length <=2 for the others",
}
ASSUMPTIONS = ["at least one operand is not constant; arrays handed over as constants are not modified afterwards"]
DEEP = [(["ab", "bc", "cd"], "ad"), (["ab", "ab", "bc"], "ca"), (["a", "ab", "b", ""], "")]
OPS = ["n0", "n1", "big", "one", "list", "out", "badout", "ev", "evt", "tc", "tt", "fk", "f1", "f2", "few", "many", "rank", "sh"]


def prepare(tier):
    import torch

    torch.set_num_threads(1)
    fakelib.make("mcfull")


class World:
    """Operand sets of one configuration and their expected values."""

    def __init__(self, terms, out, consts):
        letters = enum.letters_of(terms)
        self.terms, self.out, self.consts = terms, out, consts
        base = util.sizes(letters, "mix")
        fixed = set("".join(terms[k] for k in consts))
        self.sd = {"n": base, "big": {c: d if c in fixed else d + 2 for c, d in base.items()}, "one": {c: d if c in fixed else 1 for c, d in base.items()}}
        self.cval = {k: util.arrays(terms, base, salt=7)[k] for k in consts}
        self.sets = {}
        for name, key, salt in (("n0", "n", 1), ("n1", "n", 2), ("big", "big", 3), ("one", "one", 4)):
            full = util.arrays(terms, self.sd[key], salt=salt)
            for k in consts:
                full[k] = self.cval[k]
            var = [x for k, x in enumerate(full) if k not in consts]
            self.sets[name] = (var, oracle.einsum(terms, out, full))

    def build(self, opt):
        args = [self.cval[k] if k in self.consts else tuple(self.sd["n"][c] for c in t) for k, t in enumerate(self.terms)]
        return oe.contract_expression(util.eq(self.terms, self.out), *args, constants=list(self.consts), optimize=opt)


def perform(ex, w, op, st):
    """Perform one operation; raises Violation when the outcome is not the specified one."""
    st.transitions += 1
    var, want = w.sets["n0"]

    def eq(got, want, what):
        st.traces += 1
        if not util.same(got, want):
            raise Violation(f"{what} gives {util.show(got)}, a fresh contraction gives {util.show(want)}")

    if op in w.sets:
        v, x = w.sets[op]
        eq(ex(*v), x, op)
    elif op == "list":
        v, x = w.sets["n1"]
        eq(ex(*[a.tolist() for a in v]), x, op)
    elif op == "out":
        o = np.full(want.shape, 99.0)
        r = ex(*var, out=o)
        if r is not o:
            raise Violation("out= array was not returned")
        eq(o, want, op)
    elif op == "badout":
        o = np.full((2,) + want.shape + (3,), 99.0)
        try:
            ex(*var, out=o)
        except (ValueError, TypeError):
            pass  # too many dimensions: refused, or broadcast by assignment
    elif op == "ev":
        ex.evaluate_constants()
    elif op == "evt":
        ex.evaluate_constants("torch")
    elif op == "tc":
        v, x = w.sets["n1"]
        r = ex(*v, backend="torch")
        if not isinstance(r, np.ndarray):
            raise Violation(f"converting call returned {type(r)}")
        eq(r, x, "backend='torch'")
    elif op == "tt":
        import torch

        v, x = w.sets["n0"]
        r = ex(*[torch.tensor(a) for a in v])
        if not isinstance(r, torch.Tensor):
            raise Violation(f"call with tensors returned {type(r)}")
        eq(r.numpy(), x, "call with tensors")
    elif op in ("fk", "f1", "f2"):
        at = {"fk": None, "f1": 1, "f2": 2}[op]
        cls = fakelib.make("mcfull")
        v, x = w.sets["n1"]
        fakelib.reset(at)
        try:
            r = ex(*[cls(a) for a in v])
            if at is not None and fakelib.FAULT["count"] >= at:
                raise Violation("a failing backend operation was ignored")
            if not isinstance(r, cls):
                raise Violation(f"call with library arrays returned {type(r)}")
            eq(r._a, x, "call with library arrays")
        except fakelib.InjectedFault:
            st.count("faults")
        finally:
            fakelib.reset()
    elif op in ("few", "many", "rank"):
        v = {"few": var[:-1], "many": var + var[:1], "rank": [np.zeros((2,) * 7)] + var[1:]}[op]
        try:
            r = ex(*v)
            if op == "rank":
                return  # documented: few checks are performed
        except (ValueError, IndexError) as e:
            if op == "few" and len(v) and not isinstance(e, ValueError):
                raise Violation(f"wrong number of arrays raised {e!r}")
        else:
            raise Violation(f"{op}: accepted {len(v)} arrays, returned {util.show(r)}")
    elif op == "sh":
        v, x = w.sets["n0"]
        with oe.shared_intermediates():
            eq(ex(*v), x, "shared call")
            eq(ex(*v), x, "second shared call")
            v1, x1 = w.sets["n1"]
            eq(ex(*v1), x1, "third shared call")
    else:
        raise KeyError(op)


def run(case, st):
    terms, out, consts, opt, depth = case
    w = World(terms, out, consts)
    what = f"expression({util.eq(terms, out)!r}, constants={consts}, optimize={opt})"
    for n in range(1, depth + 1):
        for hist in itertools.product(OPS, repeat=n):
            if n < depth and n > 1:
                continue  # prefixes of the longer histories
            st.states += 1
            ex = w.build(opt)
            for k, op in enumerate(hist):
                try:
                    perform(ex, w, op, st)
                except Violation as e:
                    raise Violation(f"{what}, history {hist[: k + 1]}: {e}")
                except Exception as e:
                    raise Violation(f"{what}, history {hist[: k + 1]}: unexpected {type(e).__name__}: {e}")
            str(ex), repr(ex)
            for k, c in w.cval.items():
                if not util.same(c, util.arrays(terms, w.sd["n"], salt=7)[k]):
                    raise Violation(f"{what}, history {hist}: constant {k} was modified")


def gen_deep(depth):
    def gen():
        for terms, out in DEEP:
            for consts in util.powerset(range(len(terms))):
                if len(consts) < len(terms):
                    yield [terms, out, list(consts), "auto", depth]
    return gen


def gen_wide(n, r, depth, **kw):
    def gen():
        for terms, out in enum.equations(n, r, **kw):
            for consts in util.powerset(range(n)):
                if len(consts) < n:
                    for opt in ("auto",) if n == 2 else ("auto", [list(range(n))], [[0], [0, 1], [0, 1]][:n] if n == 3 else "auto"):
                        yield [terms, out, list(consts), [tuple(p) for p in opt] if isinstance(opt, list) else opt, depth]
    return gen


def gen_large():
    for terms, out in ((["ab", "bc", "cd", "de"], "ae"), (["ab", "bc", "cd", "da"], ""), (["ab", "ac", "ad", "bcd"], "a"), (["a", "a", "b", "b", "ab"], "ba")):
        for consts in util.powerset(range(len(terms))):
            if len(consts) < len(terms):
                for opt in ("auto", "greedy", "dp"):
                    yield [terms, out, list(consts), opt, 2]


def spaces(tier):
    q = tier == "quick"
    return [
        ("deep", gen_deep(3 if q else 4), run),
        ("two-operands", gen_wide(2, 2, 2, outs=enum.subsets), run),
        ("three-operands", gen_wide(3, 2, 1 if q else 2, max_total=4, outs=enum.subsets), run),
        ("chains", gen_large, run),
        ("labels", enum.relabel(gen_deep(2)), run),
    ]
