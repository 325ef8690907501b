"""C31: custom path finders see the contraction and decide its path."""

import decimal
import itertools

import numpy as np

import opt_einsum as oe
from opt_einsum import paths

from mc import enum, oracle, util
from mc.core import Violation

ID = "C31"
TECHNIQUE = "exhaustive enumeration of equations x notations x memory limits x every path a custom finder can answer with (the finder is the nondeterministic environment), on the real code through every entry point"
BOUNDS = {
    "quick": "all equations with 3 operands of rank <=2 and total rank <=4 (two output orders), broadcast and zero extents, and networks of 4 tensors with <=1 index; the finder answers with every complete path (steps of any arity), "
    "as list of tuples, tuple of lists, reversed positions, numpy integers; string, implicit, interleaved (integers, strings) and ellipsis notation; six memory limits; contract, contract_path (arrays and shapes), contract_expression, constants, sharing; "
    "finders as PathOptimizer objects (fresh and used for several contractions) and as registered names; finders that fail at any call, and answers that are not a path",
    "thorough": "3 operands of total rank <=5, 4 tensors with <=2 indices",
}
ASSUMPTIONS = ["a finder is consulted for three or more operands", "finders do not modify their arguments"]


class Boom(Exception):
    pass


class Finder(oe.paths.PathOptimizer):
    def __init__(self, answer):
        self.answer = answer
        self.calls = []

    def __call__(self, inputs, output, size_dict, memory_limit=None):
        self.calls.append((list(inputs), output, size_dict, memory_limit))
        if isinstance(self.answer, BaseException):
            raise self.answer
        return self.answer


REG = []


def registered(inputs, output, size_dict, memory_limit=None):
    return REG[-1](inputs, output, size_dict, memory_limit)


def prepare(tier):
    paths.register_path_fn("mc-custom", registered)


def describe(inputs, output, size_dict):
    """The contraction up to renaming of labels: per label the tensors it is on, whether it is kept, its size."""
    labels = set().union(output, *inputs)
    return sorted((tuple(c in t for t in inputs), c in output, int(size_dict[c])) for c in labels)


FORMS = {
    "tuples": lambda p: [tuple(s) for s in p],
    "lists": lambda p: tuple(list(s) for s in p),
    "reversed": lambda p: [tuple(reversed(s)) for s in p],
    "numpy": lambda p: [tuple(np.int64(x) for x in s) for s in p],
}


def notations(terms, out, ops, full):
    """(name, arguments for these operands, whether the labels are given)"""
    yield "string", lambda xs: (util.eq(terms, out), *xs), True
    if not full:
        return
    s = "".join(terms)
    if out == "".join(sorted(c for c in set(s) if s.count(c) == 1)):
        yield "implicit", lambda xs: (",".join(terms), *xs), True
    num = {c: k + 7 for k, c in enumerate(enum.letters_of(terms))}
    for nm, f in (("integers", num.get), ("strings", lambda c: "ix" + c)):
        yield nm, lambda xs, f=f: tuple(y for t, x in zip(terms, xs) for y in (x, [f(c) for c in t])) + ([f(c) for c in out],), False
    # the last index of a term spelled as dots, if it is the last everywhere and kept first
    c = out[:1]
    if c and all((c not in t) or (t.endswith(c) and t.count(c) == 1) for t in terms):
        yield "ellipsis", lambda xs: (util.eq([t[:-1] + "..." if c in t else t for t in terms], "..." + out[1:]), *xs), False


def limit_of(limit, terms, out, sd):
    if limit is None or limit == -1:
        return None
    if limit == "max_input":
        return max(oracle.size(t, sd) for t in terms + [out])
    return int(limit)


def check_call(what, f, terms, out, sd, limit, exact):
    if len(f.calls) != 1:
        raise Violation(f"{what}: the finder was consulted {len(f.calls)} times")
    inputs, output, size_dict, memory = f.calls[0]
    if len(inputs) != len(terms):
        raise Violation(f"{what}: the finder was given {len(inputs)} tensors")
    if exact:
        if [frozenset(i) for i in inputs] != [frozenset(t) for t in terms] or frozenset(output) != frozenset(out) or any(size_dict.get(c) != sd[c] for c in sd):
            raise Violation(f"{what}: the finder was given {inputs}, {output}, {size_dict}")
    elif describe(inputs, output, size_dict) != describe([set(t) for t in terms], set(out), sd):
        raise Violation(f"{what}: the finder was given {inputs}, {output}, {size_dict}")
    if not all(isinstance(t, (set, frozenset)) for t in inputs) or not isinstance(output, (set, frozenset)):
        raise Violation(f"{what}: the finder was given terms that are not sets")
    want = limit_of(limit, terms, out, sd)
    if memory != want or (want is not None and not isinstance(memory, int)):
        raise Violation(f"{what}: the finder was given memory_limit={memory!r}, not {want}")
    f.calls.clear()


def norm(p):
    return [tuple(sorted(int(x) for x in s)) for s in p]


def routes(args, raw, shapes, kw, f):
    """(name, call returning (path or None, value or None))"""
    yield "contract", lambda: (None, oe.contract(*args(raw), **kw))

    def info():
        p, i = oe.contract_path(*args(raw), **kw)
        if norm(i.path) != norm(p):
            raise Violation(f"path {p} but the report says {i.path}")
        return p, None

    yield "contract_path", info
    yield "contract_path(shapes)", lambda: (oe.contract_path(*args(shapes), shapes=True, **kw)[0], None)

    def expr():
        ex = oe.contract_expression(*args(shapes), **kw)
        ex(*raw)
        return None, ex(*raw)

    yield "expression", expr

    def shared():
        with oe.shared_intermediates():
            return None, oe.contract(*args(raw), **kw)

    yield "sharing", shared


def run(case, st):
    terms, out, pattern, ones, full = case
    n = len(terms)
    sd = util.sizes(enum.letters_of(terms), pattern)
    raw = util.arrays(terms, sd, ones={tuple(x) for x in ones})
    # a label that is 1 everywhere has size 1
    for c in sd:
        sd[c] = max([x.shape[ax] for t, x in zip(terms, raw) for ax, d in enumerate(t) if d == c and x.shape[ax] != 1], default=1)
    shapes = [x.shape for x in raw]
    want = oracle.einsum(terms, out, raw)
    e = util.eq(terms, out)
    st.states += 1
    allp = list(oracle.all_paths(n)) if n == 3 else [p for p in oracle.all_paths(n) if all(len(s) >= 2 for s in p)]
    for k, path in enumerate(allp):
        for form in FORMS if k < 3 else ("tuples",):
            answer = FORMS[form](path)
            for kind in ("object", "registered"):
                f = Finder(answer)
                REG[:] = [f]
                opt = f if kind == "object" else "mc-custom"
                for nm, args, exact in notations(terms, out, raw, full and k < 2 and form == "tuples"):
                    for limit in (None, "max_input", -1, 5, decimal.Decimal(7), 10**15) if form == "tuples" and k == 0 else (None,):
                        for route, call in routes(args, raw, shapes, dict(optimize=opt, memory_limit=limit), f):
                            st.transitions += 1
                            what = f"{route}({e!r}, {nm}, {kind} answering {answer}, memory_limit={limit})"
                            p, v = call()
                            check_call(what, f, terms, out, sd, limit, exact)
                            st.traces += 1
                            if p is not None and norm(p) != norm(path):
                                raise Violation(f"{what}: the path became {p}")
                            if v is not None and not util.same(v, want):
                                raise Violation(f"{what}: got {util.show(v)}, want {util.show(want)}")


def run_bad(case, st):
    terms, out, which = case
    sd = util.sizes(enum.letters_of(terms), "mix")
    raw = util.arrays(terms, sd)
    shapes = [x.shape for x in raw]
    n = len(terms)
    answers = {
        "fails": Boom("custom"), "fails with ValueError": ValueError("custom"), "fails with KeyError": KeyError("custom"), "fails with TypeError": TypeError("custom"),
        "nothing": None, "empty": [], "incomplete": [(0, 1)] if n > 2 else [], "out of range": [(0, n)] + [(0, 1)] * (n - 2),
        "too long": [(0, 1)] * n, "empty step": [()] + [(0, 1)] * (n - 1), "not pairs": 7,
    }
    answer = answers[which]
    for kind in ("object", "registered"):
        f = Finder(answer)
        REG[:] = [f]
        args = lambda xs: (util.eq(terms, out), *xs)
        for route, call in routes(args, raw, shapes, dict(optimize=f if kind == "object" else "mc-custom"), f):
            st.states += 1
            st.transitions += 1
            what = f"{route}({util.eq(terms, out)!r}) with a {kind} finder whose answer is {which}: {answer!r}"
            f.calls.clear()
            try:
                r = call()
            except Exception as err:
                if isinstance(answer, BaseException) and err is not answer:
                    raise Violation(f"{what}: raised {err!r} instead")
            else:
                raise Violation(f"{what}: accepted, returned {r!r:.200}")
            st.traces += 1
            # the same finder object still works
            f.answer = [(0, 1)] * (n - 1)
            v = oe.contract(util.eq(terms, out), *raw, optimize=f)
            f.answer = answer
            if not util.same(v, oracle.einsum(terms, out, raw)):
                raise Violation(f"{what}: afterwards the finder gives a wrong value")


def run_base(case, st):
    """The base classes search nothing by themselves; a finder may serve several contractions."""
    st.states += 1
    x = [util.data((2, 3), 0), util.data((3, 2), 1), util.data((2, 2), 2)]
    if case == "abstract":
        for cls in (oe.paths.PathOptimizer, oe.path_random.RandomOptimizer):
            try:
                r = oe.contract("ab,bc,cd->ad", *x, optimize=cls())
            except NotImplementedError:
                st.traces += 1
                continue
            raise Violation(f"{cls.__name__}() gives {r!r}")
        return
    eqs = [(["ab", "bc", "cd"], "ad"), (["ab", "bc", "cd"], "da"), (["ab", "bc"], "ac"), (["a", "ab", "b", "bc"], "c"), (["ab", "cd", "bc"], "ad")]

    class First(oe.paths.PathOptimizer):
        seen = 0

        def __call__(self, inputs, output, size_dict, memory_limit=None):
            self.seen += 1
            return [(0, 1)] * (len(inputs) - 1)

    for hist in itertools.product(range(len(eqs)), repeat=3):
        f = First()
        calls = 0
        for h in hist:
            terms, out = eqs[h]
            ops = util.arrays(terms, util.sizes(enum.letters_of(terms), "mix"))
            v = oe.contract(util.eq(terms, out), *ops, optimize=f)
            calls += len(terms) > 2
            st.transitions += 1
            if not util.same(v, oracle.einsum(terms, out, ops)):
                raise Violation(f"contractions {hist} with one finder: {util.eq(terms, out)} is wrong")
        st.traces += 1
        if not calls <= f.seen <= len(hist):
            raise Violation(f"contractions {hist}: the finder was consulted {f.seen} times")


def gen3(total):
    def gen():
        for terms, out in enum.equations(3, 2, outs=enum.some_orders, max_total=total):
            yield [terms, out, "mix", [], True]
    return gen


def gen_sizes():
    for terms, out in enum.equations(3, 2, outs=enum.subsets, max_total=4):
        s = "".join(terms)
        if any(len(set(t)) != len(t) for t in terms):
            continue
        for pat in ("zero", "first1"):
            yield [terms, out, pat, [], False]
        for k, t in enumerate(terms):
            for ax in range(len(t)):
                if s.count(t[ax]) > 1:
                    yield [terms, out, "mix", [[k, ax]], True]


def gen4(m):
    def gen():
        for terms in enum.networks(4, m):
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out, "mix", [], False]
    return gen


def gen_bad():
    names = ["fails", "fails with ValueError", "fails with KeyError", "fails with TypeError", "nothing", "empty", "incomplete", "out of range", "too long", "empty step", "not pairs"]
    for terms, out in ((["ab", "bc", "cd"], "ad"), (["a", "ab", "b"], ""), (["a", "b", "c"], "cab"), (["ab", "bc", "cd", "da"], ""), (["", "a", "a"], "a")):
        for w in names:
            yield [terms, out, w]


def gen_base():
    yield "abstract"
    yield "several"


def spaces(tier):
    q = tier == "quick"
    return [
        ("three-operands", gen3(4 if q else 5), run),
        ("extents", gen_sizes, run),
        ("four-tensors", gen4(1 if q else 2), run),
        ("failures", gen_bad, run_bad),
        ("base", gen_base, run_base),
    ]
