"""C25: arrays of arbitrary objects contract using only + and *."""

import functools
import itertools

import numpy as np

import opt_einsum as oe

from mc import enum, oracle, util
from mc.core import Violation

ID = "C25"
TECHNIQUE = "complete enumeration of equations and contraction paths; each run of the real code on generic (formal polynomial) entries decides the identity for all values in any commutative semiring at once"
BOUNDS = {
    "quick": "all equations of 1 term of rank <=3, 2 terms of rank <=3 with <=5 index positions, 3 terms of rank <=2 with <=5, 4-tensor networks with <=2 indices, every output (both orders), sizes 1-3, every path of any arity, BLAS on and off; "
    "every single dimension stretched; expressions, constants, sharing, optimize=False and five named strategies, strides and read-only inputs; ten families of 4-6 tensors; equations with <=3 index positions in four other alphabets",
    "thorough": "2 terms with 6 index positions, 3 terms with 6, 4-tensor networks with <=3 indices, two stretched dimensions",
}
ASSUMPTIONS = ["no dimension of size zero (an empty sum has no value without a zero object)", "addition and multiplication are associative, commutative and distributive"]


class Forbidden(Exception):
    pass


class P:
    """A formal polynomial: sum of monomials (sorted tuples of variables) with counts; only + and * with its own kind."""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __add__(self, o):
        if type(o) is not P:
            raise Forbidden(f"added to {o!r}")
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return P(d)

    def __mul__(self, o):
        if type(o) is not P:
            raise Forbidden(f"multiplied with {o!r}")
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                k = tuple(sorted(a + b))
                d[k] = d.get(k, 0) + x * y
        return P(d)

    def _no(self, *a, **k):
        raise Forbidden("an operation other than + and *")

    __radd__ = __rmul__ = __sub__ = __neg__ = __bool__ = __float__ = __int__ = __eq__ = __lt__ = __abs__ = __truediv__ = __pow__ = __complex__ = _no
    __hash__ = None

    def __repr__(self):
        return "+".join(f"{v}*{'.'.join(map(str, k))}" for k, v in sorted(self.d.items())[:4])


def variables(terms, shapes):
    ops, k = [], 0
    for s in shapes:
        a = np.empty(s, dtype=object)
        for ix in np.ndindex(*s):
            a[ix] = P({(k,): 1})
            k += 1
        ops.append(a)
    return ops


def expected(terms, out, ops):
    """The definition, monomial by monomial."""
    sd = oracle.sizes_of(terms, [o.shape for o in ops])
    inner = [c for c in sd if c not in out]
    res = {}
    for co in itertools.product(*(range(sd[c]) for c in out)):
        d = {}
        for ci in itertools.product(*(range(sd[c]) for c in inner)):
            at = dict(zip(out, co))
            at.update(zip(inner, ci))
            mono = ()
            for t, o in zip(terms, ops):
                e = o[tuple(0 if n == 1 else at[c] for c, n in zip(t, o.shape))]
                mono += next(iter(e.d))
            mono = tuple(sorted(mono))
            d[mono] = d.get(mono, 0) + 1
        res[co] = d
    return tuple(sd[c] for c in out), res


def compare(got, want, what):
    shape, entries = want
    g = got if isinstance(got, np.ndarray) else np.array(got, dtype=object)
    if g.shape != shape:
        raise Violation(f"{what}: shape {g.shape}, expected {shape}")
    for ix, d in entries.items():
        e = g[ix]
        if type(e) is not P or e.d != d:
            raise Violation(f"{what}: entry {ix} is {e!r}, expected {P(d)!r}")


def snapshot(ops):
    return [[(ix, id(o[ix])) for ix in np.ndindex(*o.shape)] for o in ops]


def run(case, st):
    terms, out, sd, ones = case[:4]
    ones = {tuple(o) for o in ones}
    if isinstance(sd, str):
        sd = util.sizes(enum.letters_of(terms), sd)
    shapes = [tuple(1 if (k, ax) in ones else sd[c] for ax, c in enumerate(t)) for k, t in enumerate(terms)]
    ops = variables(terms, shapes)
    want = expected(terms, out, ops)
    before = snapshot(ops)
    eq = util.eq(terms, out)
    n = len(terms)
    for path in oracle.all_paths(n) if n > 1 else [[(0,)]]:
        for use in (True, False):
            got = oe.contract(eq, *ops, backend="object", optimize=list(path), use_blas=use)
            compare(got, want, f"{eq} shapes={shapes} path={path} use_blas={use}")
            st.transitions += len(path)
            st.traces += 1
    st.states += 1
    if len(case) > 4:
        for opt in (False, True, "greedy", "optimal", "dp"):
            compare(oe.contract(eq, *ops, backend="object", optimize=opt), want, f"{eq} shapes={shapes} optimize={opt}")
            st.traces += 1
        ex = oe.contract_expression(eq, *shapes)
        for k in range(2):
            compare(ex(*ops, backend="object"), want, f"expression {eq} shapes={shapes}, call {k}")
            st.traces += 1
        for k in range(n):
            if n > 1:
                mixed = [o if j == k else s for j, (o, s) in enumerate(zip(ops, shapes))]
                exc = oe.contract_expression(eq, *mixed, constants=[k])
                compare(exc(*[o for j, o in enumerate(ops) if j != k], backend="object"), want, f"expression {eq} shapes={shapes} with constant {k}")
                st.traces += 1
        with oe.shared_intermediates():
            for k in range(2):
                compare(oe.contract(eq, *ops, backend="object"), want, f"{eq} shapes={shapes} in a sharing context, call {k}")
                st.traces += 1
        odd = []
        for o in ops:
            big = np.empty(tuple(2 * d for d in o.shape), dtype=object)
            v = big[tuple(slice(None, None, 2) for _ in o.shape)] if o.ndim else big
            v[...] = o
            v.flags.writeable = False
            odd.append(v)
        compare(oe.contract(eq, *odd, backend="object"), want, f"{eq} shapes={shapes} with strided read-only operands")
        st.traces += 1
    if snapshot(ops) != before:
        raise Violation(f"{eq} shapes={shapes}: the operands were modified")


def gen_small(q):
    def gen():
        for terms, out in enum.equations(1, 3):
            yield [terms, out, "mix", [], 1]
        for terms, out in enum.equations(2, 3, outs=enum.some_orders, max_total=5 if q else 6):
            yield [terms, out, "mix", [], 1]
        for terms, out in enum.equations(3, 2, outs=enum.some_orders, max_total=4 if q else 5):
            yield [terms, out, "two", [], 1]
        for terms, out in enum.equations(3, 2, outs=enum.subsets, min_total=5 if q else 6, max_total=5 if q else 6):
            yield [terms, out, "two", []]

    return gen


def gen_net(n, m):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out[::-1], "two", []]

    return gen


def gen_bcast(q):
    def gen():
        for n, total in ((1, 3), (2, 4), (3, 4)):
            for terms in enum.inputs(n, 3 if n < 3 else 2, max_total=total):
                occ = [(k, ax) for k, t in enumerate(terms) for ax, c in enumerate(t)]
                for ones in util.powerset(occ, 1 if q else 2):
                    # a diagonal must have equal extents
                    if not ones or any(sum(c == terms[k][ax] for c in terms[k]) > 1 for k, ax in ones):
                        continue
                    for out in enum.subsets(enum.letters_of(terms)):
                        yield [terms, out, "two", [list(o) for o in ones], 1]

    return gen


def gen_structured():
    for n in range(4, 7):
        for name, terms, out in enum.structured(n):
            if name not in ("star", "mps-norm") or n < 6:
                yield [terms, out, "one" if n > 5 else "last1", [], 1]


def gen_sizes():
    """All sizes 1..3 of a few equations."""
    for terms, out in ((["ab", "bc"], "ac"), (["ab", "ab"], ""), (["ab", "ba"], "a"), (["a", "b"], "ab"), (["aab", "bc"], "ca"), (["ab", "b", "a"], "")):
        letters = enum.letters_of(terms)
        for vals in itertools.product((1, 2, 3), repeat=len(letters)):
            yield [terms, out, dict(zip(letters, vals)), [], 1]


def spaces(tier):
    q = tier == "quick"
    return [
        ("small", gen_small(q), run),
        ("broadcast", gen_bcast(q), run),
        ("four-tensors", gen_net(4, 2 if q else 3), run),
        ("sizes", gen_sizes, run),
        ("families", gen_structured, run),
        ("labels", enum.relabel(lambda: (c for c in gen_small(True)() if sum(map(len, c[0])) <= 3)), run),
    ]
