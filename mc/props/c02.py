"""C02: every valid explicit path gives the same value."""

import itertools

import opt_einsum as oe

from mc import enum, oracle, util
from mc.core import Violation

ID = "C02"
TECHNIQUE = "exhaustive enumeration of all contraction paths (programs) of all small equations, executed on the real code"
BOUNDS = {
    "quick": "all paths with steps of any arity (and up to 2 extra single-term steps, both position orders) for 1-3 terms "
    "of rank<=2 and 2 terms of rank<=3, every output; all paths of all 4-tensor networks with <=3 indices; "
    "all 336 paths of the 5-tensor networks with <=2 indices; broadcasting by one stretched dimension; "
    "all incomplete paths of 1-2 terms of rank <=3/2 and of the 3- and 4-tensor networks with <=3/2 indices are rejected",
    "thorough": "4-tensor networks with <=4 indices, 5-tensor with <=3, 3 terms up to 7 index positions",
}
ASSUMPTIONS = ["control flow does not depend on array values (one generic exact assignment per shape)"]


def paths(n, singles):
    """All complete paths for n terms, steps of arity >= 2 plus at most `singles` single-term steps."""
    if n == 1:
        yield ()
        if singles:
            for rest in paths(1, singles - 1):
                yield ((0,),) + rest
        return
    for k in range(1 if singles else 2, n + 1):
        for c in itertools.combinations(range(n), k):
            for rest in paths(n - k + 1, singles - (k == 1)):
                yield (c,) + rest


_cache = {}


def all_paths(n, singles):
    if (n, singles) not in _cache:
        _cache[n, singles] = [p for p in paths(n, singles) if p]
    return _cache[n, singles]


def run(case, st):
    terms, out, pattern, singles, ones = case
    ones = {tuple(o) for o in ones}
    sd = util.sizes(enum.letters_of(terms), pattern)
    ops = util.arrays(terms, sd, ones=ones)
    expect = oracle.einsum(terms, out, ops)
    e = util.eq(terms, out)
    shapes = [o.shape for o in ops]
    st.states += 1
    for k, path in enumerate(all_paths(len(terms), singles)):
        variants = [list(path)]
        if k % 2 == 0:
            variants.append([tuple(reversed(p)) for p in path])
        for v, p in enumerate(variants):
            blas = (k + v) % 3 != 0
            got = oe.contract(e, *ops, optimize=p, use_blas=blas)
            st.transitions += len(p)
            st.traces += 1
            if not util.same(got, expect):
                raise Violation(f"{e} shapes={shapes} path={p} use_blas={blas}: got {util.show(got)} expected {util.show(expect)}")
        if not blas:
            got = oe.contract(e, *ops, optimize=list(path), use_blas=True)
            st.transitions += len(path)
            st.traces += 1
            if not util.same(got, expect):
                raise Violation(f"{e} shapes={shapes} path={path} use_blas=True: got {util.show(got)} expected {util.show(expect)}")
        if k % 4 == 1:
            got = oe.contract_expression(e, *shapes, optimize=list(path))(*ops)
            st.transitions += len(path)
            st.traces += 1
            if not util.same(got, expect):
                raise Violation(f"expression {e} shapes={shapes} path={path}: got {util.show(got)} expected {util.show(expect)}")


def orders3(letters):
    return enum.ordered_subsets(letters) if len(letters) <= 3 else enum.some_orders(letters)


def gen_small(q):
    def gen():
        for terms, out in enum.equations(1, 3, outs=orders3):
            yield [terms, out, "mix", 2, []]
        for terms, out in enum.equations(2, 3, outs=orders3, max_total=6):
            yield [terms, out, "mix", 1, []]
        for terms, out in enum.equations(3, 2, outs=enum.some_orders):
            yield [terms, out, "mix", 1 if len("".join(terms)) <= 5 else 0, []]
        if not q:
            for terms, out in enum.equations(3, 3, outs=enum.some_orders, min_total=7, max_total=7):
                yield [terms, out, "mix", 0, []]
    return gen


def gen_wide(q):
    def gen():
        for n, top in ((2, 2), (3, 1 if q else 2)):
            for terms, out in enum.equations(n, 2, outs=enum.some_orders, max_total=4):
                for p in util.wide(enum.letters_of(terms), top):
                    yield [terms, out, p, 0, []]

    return gen


def gen_net(n, m, pattern, min_inds=0):
    def gen():
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out[::-1], pattern, 0, []]
    return gen


def gen_bcast():
    for terms in enum.inputs(3, 2, max_total=5, repeats=False):
        occ = [(k, ax) for k, t in enumerate(terms) for ax, c in enumerate(t) if sum(c in u for u in terms) > 1]
        for o in occ:
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out, "mix", 0, [list(o)]]


_prefixes = {}


def prefixes(n):
    """All incomplete paths: proper prefixes of complete ones."""
    if n not in _prefixes:
        _prefixes[n] = sorted({p[:k] for p in paths(n, 1 if n < 4 else 0) for k in range(len(p) + 1) if n - sum(len(x) - 1 for x in p[:k]) > 1}) if n > 1 else [()]
    return _prefixes[n]


def run_incomplete(case, st):
    terms, out = case
    sd = util.sizes(enum.letters_of(terms))
    ops = util.arrays(terms, sd)
    e = util.eq(terms, out)
    for p in prefixes(len(terms)):
        for what, fn in (
            ("contract", lambda: oe.contract(e, *ops, optimize=list(p))),
            ("contract_expression", lambda: oe.contract_expression(e, *[o.shape for o in ops], optimize=list(p))(*ops)),
        ):
            st.transitions += 1
            st.traces += 1
            try:
                got = fn()
            except Exception:
                st.count("rejected")
                continue
            if len(terms) > 1 or not util.same(got, oracle.einsum(terms, out, ops)):
                raise Violation(f"{what}({e}, optimize={list(p)}) accepts the incomplete path and returns {util.show(got)}")
            st.count("nothing to do")
    st.states += 1


def gen_incomplete():
    for terms, out in enum.equations(1, 3, outs=orders3):
        yield [terms, out]
    for terms, out in enum.equations(2, 2, outs=orders3):
        yield [terms, out]
    for n, m in ((3, 3), (4, 2)):
        for terms in enum.networks(n, m):
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out]


def spaces(tier):
    q = tier == "quick"
    return [
        ("small-equations", gen_small(q), run),
        ("broadcast", gen_bcast, run),
        ("four-tensors", gen_net(4, 3 if q else 4, "mix"), run),
        ("large-extents", gen_wide(q), run),
        ("incomplete", gen_incomplete, run_incomplete),
        ("five-tensors", gen_net(5, 2 if q else 3, "rev"), run),
    ]
