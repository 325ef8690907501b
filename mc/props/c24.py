"""C24: BLAS routing is reported exactly when a pair is a plain tensor dot."""

import itertools

import opt_einsum as oe
from opt_einsum import blas

from mc import enum, fakelib, oracle, util
from mc.core import Violation

ID = "C24"
TECHNIQUE = "complete enumeration of index layouts (all pairs of terms x outputs x extents up to a bound) of the real classifier against the definition, and of all paths of small networks, each executed on a recording array library"
BOUNDS = {
    "quick": "all pairs of terms of rank <=4 with <=7 index positions (up to renaming), every output order (<=3 letters) or subset, without extents, with equal extents and with every single extent changed to 1; every pair of rank <=4 without repeated indices; 0, 1 and 3 terms; "
    "contract_path on all 2-operand equations of rank <=3 and all 1-2-3-tensor networks x all paths, with BLAS on and off; every plain pair contraction executed on a recording library with all four combinations of tensordot/einsum availability that are supported",
    "thorough": "pairs of terms with up to 8 index positions, 4-tensor networks",
}
ASSUMPTIONS = ["every letter of the result occurs in a term and the removed indices are exactly those not in the result"]


def classify(terms, result, shapes=None):
    """The definition."""
    if len(terms) != 2:
        return False
    a, b = terms
    if len(set(a)) != len(a) or len(set(b)) != len(b):
        return False
    shared = set(a) & set(b)
    if any(c in result for c in shared) or any(c not in result for c in set(a) ^ set(b)):
        return False
    if shapes is not None and any(shapes[0][a.index(c)] != shapes[1][b.index(c)] for c in shared):
        return False
    if not shared:
        return "OUTER/EINSUM"
    if a == b:
        return "DOT"
    if set(a) == set(b):
        return "DOT/EINSUM"
    k = len(shared)
    ends_a = [x for x in (a[:k], a[-k:]) if set(x) == shared]
    ends_b = [x for x in (b[:k], b[-k:]) if set(x) == shared]
    if any(x == y for x in ends_a for y in ends_b):
        return "GEMM"
    if set(a) == shared or set(b) == shared:
        return "GEMV/EINSUM"
    return "TDOT"


def compare(terms, result, shapes, st, ways=(frozenset,)):
    removed = set("".join(terms)) - set(result)
    want = classify(terms, result, shapes)
    for way in ways:
        args = (list(terms), result, way(removed)) + (() if shapes is None else (shapes,))
        got = blas.can_blas(*args)
        st.transitions += 1
        st.traces += 1
        if got != want or type(got) is not type(want):
            raise Violation(f"can_blas({list(terms)}, {result!r}, {sorted(removed)}, shapes={shapes}) is {got!r}, expected {want!r}")
    st.outcome("kinds", want)


def run_pair(case, st):
    terms, outs = case
    letters = enum.letters_of(terms)
    sd = {c: 2 + k for k, c in enumerate(letters)}
    shapes = [tuple(sd[c] for c in t) for t in terms]
    variants = [None, shapes]
    for k, t in enumerate(terms):
        for ax in range(len(t)):
            s = [list(x) for x in shapes]
            s[k][ax] = 1
            variants.append([tuple(x) for x in s])
    variants.append([(1,) * len(t) for t in terms])
    variants += [[tuple(x * big for x in s) for s in shapes] for big in (16, 10**3, 10**9)]
    for out in enum.ordered_subsets(letters) if outs == "orders" else enum.subsets(letters):
        st.states += 1
        for v in variants:
            compare(terms, out, v, st, (frozenset, set))


def gen_pairs(top):
    def gen():
        for terms in enum.inputs(2, 4, max_total=top):
            yield [terms, "orders" if len(enum.letters_of(terms)) <= 3 else "subsets"]
        for terms in enum.inputs(2, 4, min_total=top + 1, repeats=False):
            yield [terms, "subsets"]

    return gen


def gen_other():
    yield []
    for n, r in ((1, 4), (3, 2)):
        for terms in enum.inputs(n, r):
            yield terms


def run_other(terms, st):
    for out in enum.subsets(enum.letters_of(terms)):
        st.states += 1
        for shapes in (None, [(2,) * len(t) for t in terms]):
            compare(terms, out, shapes, st)


# --- as reported by contract_path ---------------------------------------------------------------------------


def flags(info):
    return [(c[0], c[2], c[4]) for c in info.contraction_list]


def run_report(case, st):
    terms, out, pattern = case
    sd = util.sizes(enum.letters_of(terms), "mix")
    n = len(terms)
    ones_list = [()]
    if pattern == "broadcast":
        ones_list += [((k, ax),) for k, t in enumerate(terms) for ax in range(len(t))]
    for ones in ones_list:
        ops = util.arrays(terms, sd, ones=set(ones))
        try:
            want_value = oracle.einsum(terms, out, ops)
        except (IndexError, ValueError):
            continue  # a diagonal of unequal extents
        for path in oracle.all_paths(n) if n > 1 else [[(0,)]]:
            for use in (True, False):
                info = oe.contract_path(util.eq(terms, out), *ops, optimize=list(path), use_blas=use)[1]
                st.transitions += len(path)
                st.traces += 1
                cur_shapes = [o.shape for o in ops]
                for step, (inds, eq, flag) in zip(path, flags(info)):
                    lhs, res = eq.split("->")
                    tt = lhs.split(",")
                    ss = [cur_shapes[x] for x in inds]
                    want = classify(tt, res, ss) if use else False
                    if flag != want:
                        raise Violation(f"{util.eq(terms, out)} shapes={[o.shape for o in ops]} path={path} use_blas={use}: step {eq} is reported as {flag!r}, expected {want!r}")
                    ext = oracle.sizes_of(tt, ss)
                    cur_shapes = [s for k, s in enumerate(cur_shapes) if k not in inds] + [tuple(ext[c] for c in res)]
                    st.outcome("kinds", flag)
        st.states += 1


def gen_report(q):
    def gen():
        for terms, out in enum.equations(1, 3, outs=enum.subsets):
            yield [terms, out, "plain"]
        for terms, out in enum.equations(2, 3, outs=enum.some_orders, max_total=5):
            yield [terms, out, "broadcast"]
        for terms, out in enum.equations(2, 3, outs=enum.subsets, min_total=6):
            yield [terms, out, "plain"]
        for n, m in ((3, 3), (4, 2)) if q else ((3, 4), (4, 3)):
            for terms in enum.networks(n, m):
                for out in enum.subsets(enum.letters_of(terms)):
                    yield [terms, out, "plain"]

    return gen


# --- as executed ----------------------------------------------------------------------------------------------


def run_exec(case, st):
    terms, out = case
    sd = util.sizes(enum.letters_of(terms), "mix")
    ops = util.arrays(terms, sd)
    want_value = oracle.einsum(terms, out, ops)
    info = oe.contract_path(util.eq(terms, out), *ops)[1]
    eq = info.contraction_list[0][2]
    tt, res = eq.split("->")[0].split(","), eq.split("->")[1]
    kind = classify(tt, res, None)
    for lib, funcs in (("mcfull", ("tensordot", "transpose", "einsum")), ("mcdot", ("tensordot", "transpose"))):
        if lib == "mcdot" and kind is False:
            continue
        A = fakelib.make(lib, funcs)
        for use in (True, False):
            if lib == "mcdot" and not use:
                continue
            fakelib.LOG.clear()
            got = oe.contract(util.eq(terms, out), *[A(o) for o in ops], use_blas=use)
            used = [e[1] for e in fakelib.LOG]
            st.transitions += len(used)
            st.traces += 1
            if not util.same(got._a, want_value):
                raise Violation(f"{util.eq(terms, out)} on {lib}: got {util.show(got._a)}, expected {util.show(want_value)}")
            plain = bool(kind) and "EINSUM" not in kind
            expect_dot = use and (plain or (bool(kind) and lib == "mcdot"))
            if ("tensordot" in used) != expect_dot or ("einsum" in used) == expect_dot:
                raise Violation(f"{util.eq(terms, out)} ({kind}, use_blas={use}) on a library with {funcs} used {used}")
    st.states += 1


def gen_exec():
    for terms in enum.inputs(2, 3):
        shared = [c for c in enum.letters_of(terms) if all(c in t for t in terms)]
        outs = set(enum.subsets(enum.letters_of(terms)))
        for out in sorted(outs):
            yield [terms, out]
            if len(out) > 1:
                yield [terms, out[::-1]]


def spaces(tier):
    q = tier == "quick"
    return [
        ("pairs", gen_pairs(7 if q else 8), run_pair),
        ("not-pairs", gen_other, run_other),
        ("reported", gen_report(q), run_report),
        ("executed", gen_exec, run_exec),
    ]
