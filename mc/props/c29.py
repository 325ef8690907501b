"""C29: element types and einsum options are honoured."""

import itertools
import warnings

import numpy as np

import opt_einsum as oe

from mc import enum, oracle, util
from mc.core import Violation

ID = "C29"
TECHNIQUE = "exhaustive enumeration of equations x paths x element types x option settings x call routes on the real code; exact integer oracle cast to the type the definition prescribes, acceptance decided by numpy.einsum"
BOUNDS = {
    "quick": "all equations with 1 operand of rank <=3, 2 operands of rank <=2 (total <=4, all output orders) and 3 operands of total rank <=4, every path: "
    "(types) all pairs out of ten element types, all triples out of five; (dtype) operand types int8/float32/complex64/int64 x requested types x five casting rules with values that are inexact in the operand type; "
    "(order) four orders x all operand layouts; routes contract, contract without optimization, expression, expression with every proper subset of constants, in a sharing context, into an output array",
    "thorough": "2 operands of rank <=3, 3 operands of total rank <=5, all triples out of ten element types",
}
ASSUMPTIONS = ["for a single operand numpy.einsum itself (which returns a view) is the reference", "the type of a result without dtype option is the one obtained by promoting operand types pairwise along the path", "layout is only required for order C and F and contractions of two or more operands"]

def prepare(tier):
    warnings.simplefilter("ignore", np.exceptions.ComplexWarning)


TYPES = ["?", "i1", "u1", "i4", "i8", "f2", "f4", "f8", "c8", "c16"]


def routes(terms, out, ops, path, kw, n):
    eq = util.eq(terms, out)
    shapes = [x.shape for x in ops]
    yield "contract", lambda: oe.contract(eq, *ops, optimize=path, **kw)

    def shared():
        with oe.shared_intermediates():
            oe.contract(eq, *ops, optimize=path)  # the plain result must not be reused
            return oe.contract(eq, *ops, optimize=path, **kw)

    yield "sharing", shared
    yield "expression", lambda: oe.contract_expression(eq, *shapes, optimize=path, **kw)(*ops)
    if n > 1:
        for m in range(1, n):
            for cs in itertools.combinations(range(n), m):
                yield f"constants {cs}", lambda: oe.contract_expression(eq, *[ops[k] if k in cs else shapes[k] for k in range(n)], constants=cs, optimize=path, **kw)(
                    *[x for k, x in enumerate(ops) if k not in cs], backend="numpy")


def promote(types, path):
    cur = [np.dtype(t) for t in types]
    for s in path:
        t = cur[s[0]]
        for k in s[1:]:
            t = np.promote_types(t, cur[k])
        cur = [c for k, c in enumerate(cur) if k not in s] + [t]
    return cur[0]


def cast_exact(exact, dt):
    """The exact integer value in type dt (bool: any)."""
    if np.dtype(dt) == np.bool_:
        return exact != 0
    return exact.astype(np.int64).astype(dt)


def run_types(case, st):
    terms, out, path, combos = case
    n = len(terms)
    path = [tuple(p) for p in path]
    sd = {c: 2 for c in enum.letters_of(terms)}
    pos = [1 + (util.data(tuple(sd[c] for c in t), k, dtype=np.int64) > 0) for k, t in enumerate(terms)]
    bits = [(util.data(tuple(sd[c] for c in t), k, dtype=np.int64) > 0).astype(np.int64) for k, t in enumerate(terms)]
    for types in combos:
        isb = ["?" == t for t in types]
        vals = [b if x else p for p, b, x in zip(pos, bits, isb)]
        ops = [v.astype(t) for v, t in zip(vals, types)]
        if any(isb) and len(path) > 1 or any(len(s) > 2 for s in path) and any(isb):
            # a boolean intermediate is a truth value, not a count
            dt, want = promote(types, path), None
        else:
            dt = promote(types, path)
            want = cast_exact(oracle.einsum(terms, out, [v.astype(np.int64) for v in vals]), dt)
        st.states += 1
        for name, call in routes(terms, out, ops, path, {}, n):
            got = np.asarray(call())
            st.traces += 1
            st.transitions += max(1, len(path))
            what = f"{util.eq(terms, out)} path={path} types={types} ({name})"
            if got.dtype != dt:
                raise Violation(f"{what}: result type {got.dtype}, should be {dt}")
            if want is not None and not util.same(got, want):
                raise Violation(f"{what}: {util.show(got)}, should be {util.show(want)}")


def outcome(f):
    try:
        return np.asarray(f())
    except TypeError as e:
        return e
    except ValueError as e:
        return e


# operand types, and values whose products and sums are not representable in them
HARD = {"i1": 101, "f4": 4099, "c8": 4099, "i8": 4099}


def run_dtype(case, st):
    terms, out, path, settings = case
    n = len(terms)
    opt = path if path is False else [tuple(p) for p in path]
    sd = {c: 2 for c in enum.letters_of(terms)}
    small = [util.data(tuple(sd[c] for c in t), k, dtype=np.int64) for k, t in enumerate(terms)]
    for src, dt, casting in settings:
        vals = [HARD[src] + v for v in small]
        ops = [v.astype(src) for v in vals]
        assert all((o.astype(np.int64) == v).all() for o, v in zip(ops, vals))
        exact = np.asarray(oracle.einsum(terms, out, [np.array(v, dtype=object) for v in vals]), dtype=object)
        ref = outcome(lambda: np.einsum(util.eq(terms, out), *ops, dtype=dt, casting=casting))
        kw = {"dtype": dt, "casting": casting}
        st.states += 1
        rs = list(routes(terms, out, ops, opt, kw, n)) if opt is not False else [("unoptimized", lambda: oe.contract(util.eq(terms, out), *ops, optimize=False, **kw))]

        def into():
            buf = np.zeros(ref.shape, dtype=ref.dtype)
            r = oe.contract(util.eq(terms, out), *ops, optimize=opt, out=buf, **kw)
            if r is not buf:
                raise Violation("the output array is not returned")
            return buf

        if n > 1 and not isinstance(ref, Exception):
            rs.append(("out", into))
        for name, call in rs:
            got = outcome(call)
            st.traces += 1
            st.transitions += 1
            what = f"{util.eq(terms, out)} optimize={opt} {src} operands, {kw} ({name})"
            if isinstance(ref, Exception) != isinstance(got, Exception):
                raise Violation(f"{what}: {got!r:.200}, numpy.einsum: {ref!r:.200}")
            if isinstance(ref, Exception):
                continue
            if n == 1:
                # numpy returns a view of a single operand, without conversion
                if got.dtype != ref.dtype or not util.same(got, ref):
                    raise Violation(f"{what}: {got!r:.200}, numpy.einsum: {ref!r:.200}")
                continue
            if got.dtype != np.dtype(dt):
                raise Violation(f"{what}: result type {got.dtype}")
            big = max((abs(int(x)) for x in np.ravel(exact)), default=0)
            if np.dtype(dt).kind in "fc":
                want = np.array(exact, dtype=object).astype(complex if np.dtype(dt).kind == "c" else float)
                if big < 2 ** (24 if np.dtype(dt) in (np.dtype("f4"), np.dtype("c8")) else 53):
                    ok = util.same(got, want)
                else:
                    ok = got.shape == want.shape and np.allclose(got, want, rtol=1e-5 if np.dtype(dt) in (np.dtype("f4"), np.dtype("c8")) else 1e-14, atol=0)
            else:
                ok = big >= 2**62 or util.same(got, np.array(exact, dtype=object).astype(np.int64).astype(dt))
            if not ok:
                raise Violation(f"{what}: {util.show(got)}, should be {util.show(exact)}: not computed in the requested type")


def run_order(case, st):
    terms, out, path = case
    n = len(terms)
    opt = path if path is False else [tuple(p) for p in path]
    raw = util.arrays(terms, util.sizes(enum.letters_of(terms), "mix"))
    want = oracle.einsum(terms, out, raw)
    eq = util.eq(terms, out)
    for order in "CFAK":
        for lay in itertools.product("CF", repeat=n):
            ops = [np.array(x, order=o) for x, o in zip(raw, lay)]
            st.states += 1
            rs = list(routes(terms, out, ops, opt, {"order": order}, n)) if opt is not False else [("unoptimized", lambda: oe.contract(eq, *ops, optimize=False, order=order))]
            for name, call in rs:
                got = np.asarray(call())
                st.traces += 1
                st.transitions += 1
                what = f"{eq} optimize={opt} order={order} operands laid out {lay} ({name})"
                if not util.same(got, want):
                    raise Violation(f"{what}: wrong value")
                if n > 1 and (order == "C" and not got.flags.c_contiguous or order == "F" and not got.flags.f_contiguous):
                    raise Violation(f"{what}: the result is not laid out as requested")


SETTINGS = [[s, d, c] for s in HARD for d in ("f8", "c16", "i8", "f4") for c in ("no", "equiv", "safe", "same_kind", "unsafe")]


def eqs(n, rank, total):
    yield from enum.equations(n, rank, outs=enum.ordered_subsets if n < 3 else enum.subsets, max_total=total)


def plain_paths(n):
    return [[list(s) for s in p] for p in oracle.all_paths(n)] if n > 1 else [[[0]]]


def gen_types(n, rank, total, types):
    def g():
        combos = [list(c) for c in itertools.product(types, repeat=n)]
        for terms, out in eqs(n, rank, total):
            for p in plain_paths(n):
                yield [terms, out, p, combos]
    return g


def gen_opts(n, rank, total, settings=None):
    def g():
        for terms, out in eqs(n, rank, total):
            for p in plain_paths(n) + [False]:
                yield [terms, out, p] + ([settings] if settings else [])
    return g


def spaces(tier):
    q = tier == "quick"
    s3 = [x for x in SETTINGS if x[0] in ("i1", "f4") and x[2] in ("safe", "same_kind", "unsafe")]
    return [
        ("types-1", gen_types(1, 3, None, TYPES), run_types),
        ("types-2", gen_types(2, 2 if q else 3, 3 if q else 5, TYPES), run_types),
        ("types-3", gen_types(3, 2, 2 if q else 3, ["i1", "u1", "f4", "f8", "c8"] if q else TYPES), run_types),
        ("dtype-1", gen_opts(1, 3, None, SETTINGS), run_dtype),
        ("dtype-2", gen_opts(2, 2 if q else 3, 4 if q else 5, SETTINGS), run_dtype),
        ("dtype-3", gen_opts(3, 2, 3 if q else 4, s3), run_dtype),
        ("order-1", gen_opts(1, 3, None), run_order),
        ("order-2", gen_opts(2, 3, 5), run_order),
        ("order-3", gen_opts(3, 2, 4 if q else 5), run_order),
    ]
