"""C15: output arrays are filled and returned, operands are never modified."""

import copy
import itertools

import numpy as np

import opt_einsum as oe
from opt_einsum import paths

from mc import enum, fakelib, oracle, util
from mc.core import Violation

ID = "C15"
TECHNIQUE = "exhaustive enumeration of equations x paths x BLAS routes x output-array layouts x call routes on the real code, with byte-exact monitoring of the output buffer (including the memory around it) and of every object handed over"
BOUNDS = {
    "quick": "all equations with 1-2 operands of rank <=2 (rank <=3 with plain layouts) and 3 operands of total rank <=5 x every path x BLAS on/off x {C, Fortran, strided, reversed, transposed view, sub-block, complex, object of a subclass, operand itself, transposed operand} x {contract, no optimization, "
    "expression, expression with constants, torch conversion}, sizes incl. 0 and 1 and broadcasting; torch tensors; all histories of <=3 expression calls with and without out; non-modification for every strategy, "
    "input form, explicit path, constants; 1-2 operands of total rank <=3 in four other alphabets",
    "thorough": "rank <=3 for two operands with every layout, total rank <=6 for three operands, histories of length 4",
}
ASSUMPTIONS = ["the output array has the shape of the result and a type the result can be cast to"]


def prepare(tier):
    import torch

    torch.set_num_threads(1)
    fakelib.make("mcfull")


class Sub(np.ndarray):
    pass


LAYOUTS = ["C", "F", "strided", "reversed", "viewT", "block", "complex", "sub"]
GARBAGE = 1e30


def make_out(layout, shape):
    """(output view, whole buffer, mask of the elements of the buffer that belong to the view)."""
    n = len(shape)
    dt = complex if layout == "complex" else float
    if layout == "F":
        buf = np.full(shape, GARBAGE, order="F")
        idx = (slice(None),) * n
        return buf, buf, np.ones(shape, bool)
    if layout == "strided":
        big = tuple(2 * d + 1 for d in shape)
        idx = tuple(slice(1, 2 * d + 1, 2) for d in shape)
    elif layout == "reversed":
        big = tuple(d + 2 for d in shape)
        idx = tuple(slice(d, 0, -1) if d else slice(1, 1) for d in shape)
    elif layout == "block":
        big = tuple(d + 2 for d in shape)
        idx = tuple(slice(1, d + 1) for d in shape)
    elif layout == "viewT":
        buf = np.full(shape[::-1], GARBAGE)
        return buf.T, buf, np.ones(buf.shape, bool)
    else:
        big, idx = shape, (slice(None),) * n
    buf = np.full(big, GARBAGE, dtype=dt)
    mask = np.zeros(big, bool)
    if n:
        mask[idx] = True
        view = buf[idx]
    else:
        mask[...] = True
        view = buf
    if layout == "sub":
        view = buf.view(Sub)
    return view, buf, mask


def call(route, e, ops, path, blas, out):
    shapes = [x.shape for x in ops]
    if route == "contract":
        return oe.contract(e, *ops, optimize=path, use_blas=blas, out=out)
    if route == "noopt":
        return oe.contract(e, *ops, optimize=False, out=out)
    if route == "expr":
        return oe.contract_expression(e, *shapes, optimize=path, use_blas=blas)(*ops, out=out)
    if route in ("const", "torchconst"):
        const = list(range(len(ops) - 1))
        args = [ops[k] if k in const else shapes[k] for k in range(len(ops))]
        ex = oe.contract_expression(e, *args, constants=const, optimize=path, use_blas=blas)
        kw = {"backend": "torch"} if route == "torchconst" else {}
        return ex(ops[-1], out=out, **kw)
    if route == "torch":
        return oe.contract_expression(e, *shapes, optimize=path, use_blas=blas)(*ops, out=out, backend="torch")
    if route == "shared":
        with oe.shared_intermediates():
            oe.contract(e, *ops, optimize=path, use_blas=blas)
            return oe.contract(e, *ops, optimize=path, use_blas=blas, out=out)
    if route == "ones":
        # an explicit single-term step at the end
        return oe.contract(e, *ops, optimize=list(path) + [(0,)], use_blas=blas, out=out)
    raise ValueError(route)


def run_out(case, st):
    terms, out, path, blas, layout, route, pattern = case
    path = [tuple(p) for p in path] if isinstance(path, list) else path
    letters = enum.letters_of(terms)
    ones = set()
    if pattern == "bcast":
        sd = util.sizes(letters, "mix")
        seen = set()
        for k, t in enumerate(terms):
            for ax, c in enumerate(t):
                if c in "".join(terms[:k]) and t.count(c) == 1 and c not in seen:
                    ones.add((k, ax))
                    seen.add(c)
        if not ones:
            return
    else:
        sd = util.sizes(letters, pattern)
    raw = util.arrays(terms, sd, ones=ones)
    want = oracle.einsum(terms, out, raw)
    ops = [x.copy() for x in raw]
    if layout in ("op", "opT"):
        cand = [k for k, x in enumerate(ops) if x.shape == (want.shape if layout == "op" else want.shape[::-1])]
        if not cand:
            return
        for k in cand:
            o = ops[k] if layout == "op" else ops[k].T
            got = call(route, util.eq(terms, out), ops, path, blas, o)
            st.transitions += 1
            st.traces += 1
            if got is not o or not util.same(o, want):
                raise Violation(f"{util.eq(terms, out)} path={path} blas={blas} {route} with out {'=' if layout == 'op' else 'a transposed view of'} operand {k}: {util.show(o)}, expected {util.show(want)}")
            ops = [x.copy() for x in raw]
        st.states += 1
        return
    o, buf, mask = make_out(layout, want.shape)
    for x in ops:
        x.flags.writeable = route in ("torch", "torchconst")  # torch warns about read-only memory
    what = f"{util.eq(terms, out)} shapes={[x.shape for x in raw]} path={path} blas={blas} {route} out={layout}"
    got = call(route, util.eq(terms, out), ops, path, blas, o)
    st.transitions += 1
    st.traces += 1
    st.states += 1
    if got is not o:
        raise Violation(f"{what}: the output array is not what is returned")
    if o.shape != want.shape or not (np.asarray(o) == want).all():
        raise Violation(f"{what}: output array holds {util.show(o)}, expected {util.show(want)}")
    if mask.size and not (buf[~mask] == GARBAGE).all():
        raise Violation(f"{what}: memory outside of the output array was written")
    for k, (x, y) in enumerate(zip(ops, raw)):
        if not util.same(x, y):
            raise Violation(f"{what}: operand {k} was modified")


def all_paths(n):
    return list(oracle.all_paths(n)) if n > 1 else [[(0,)]]


def gen_out(n, outs, layouts, routes, patterns, blases=(True, False), allp=True, **kw):
    def g():
        for terms, out in enum.equations(n, outs=outs, **kw):
            for path in all_paths(n) if allp else ["greedy"]:
                for blas in blases:
                    for layout in layouts:
                        for route in routes:
                            if route == "noopt" and (not blas or path != (all_paths(n)[0] if allp else "greedy")):
                                continue
                            if route in ("const", "torchconst") and n < 2:
                                continue
                            for pattern in patterns:
                                yield [terms, out, path, blas, layout, route, pattern]
    return g


# --- torch tensors as output --------------------------------------------------------------------------------


def run_torch(case, st):
    import torch

    terms, out, blas, layout = case
    sd = util.sizes(enum.letters_of(terms), "mix")
    raw = util.arrays(terms, sd)
    want = oracle.einsum(terms, out, raw)
    ops = [torch.from_numpy(x.copy()) for x in raw]
    if layout == "T":
        o = torch.full(want.shape[::-1], GARBAGE, dtype=torch.float64)
        o = o.permute(*range(len(want.shape))[::-1]) if len(want.shape) else o
    else:
        o = torch.full(want.shape, GARBAGE, dtype=torch.float64)
    e = util.eq(terms, out)
    got = oe.contract(e, *ops, use_blas=blas, out=o)
    st.transitions += 1
    st.traces += 1
    st.states += 1
    if got is not o or not util.same(o.numpy(), want):
        raise Violation(f"{e} torch blas={blas} out={layout}: output tensor holds {util.show(o.numpy())} (returned: {got is o}), expected {util.show(want)}")
    for k in range(len(ops)):
        if not util.same(ops[k].numpy(), raw[k]):
            raise Violation(f"{e} torch: operand {k} was modified")
    ex = oe.contract_expression(e, *want_shapes(raw), use_blas=blas)
    o2 = torch.full(want.shape, GARBAGE, dtype=torch.float64)
    got = ex(*ops, out=o2)
    if got is not o2 or not util.same(o2.numpy(), want):
        raise Violation(f"{e} torch expression: output tensor holds {util.show(o2.numpy())} (returned: {got is o2}), expected {util.show(want)}")


def want_shapes(raw):
    return [x.shape for x in raw]


def gen_torch():
    for n, kw in ((1, dict(max_rank=3)), (2, dict(max_rank=2)), (3, dict(max_rank=2, max_total=4))):
        for terms, out in enum.equations(n, **kw):
            for blas in (True, False):
                for layout in ("C", "T"):
                    yield [terms, out, blas, layout]


# --- histories of expression calls: earlier output arrays and results stay as they were ---------------------

HIST = [(["ab", "bc", "cd"], "ad"), (["ab", "bc"], "ca"), (["ab", "ab"], "ba"), (["ab"], "ba"), (["ab", "b", "c"], "ca")]
CALLS = ["o0", "o1", "r0", "r1", "oT", "ot", "rt", "ev"]


def run_history(case, st):
    terms, out, consts, hist = case
    sd = util.sizes(enum.letters_of(terms), "mix")
    base = util.arrays(terms, sd, salt=9)
    sets = []
    for salt in (0, 1):
        full = util.arrays(terms, sd, salt=salt)
        for k in consts:
            full[k] = base[k]
        sets.append(full)
    wants = [oracle.einsum(terms, out, f) for f in sets]
    cvals = {k: base[k].copy() for k in consts}
    ex = oe.contract_expression(util.eq(terms, out), *[cvals[k] if k in consts else sets[0][k].shape for k in range(len(terms))], constants=list(consts))
    held = []
    common = {}
    for n, h in enumerate(hist):
        i = int(h[1]) if h[1] in "01" else n % 2
        var = [x.copy() for k, x in enumerate(sets[i]) if k not in consts]
        st.transitions += 1
        if h == "ev":
            ex.evaluate_constants("numpy")
            continue
        if h[0] == "o":
            if h in ("o0", "o1"):
                o = common.setdefault(h, np.full(wants[i].shape, GARBAGE))
            else:
                o = make_out("viewT", wants[i].shape)[0]
            r = ex(*var, out=o, **({"backend": "torch"} if h == "ot" else {}))
            if r is not o:
                raise Violation(f"{util.eq(terms, out)} constants={consts} calls {hist[: n + 1]}: out not returned")
        else:
            r = ex(*var, **({"backend": "torch"} if h == "rt" else {}))
            if any(np.shares_memory(r, x) for x, _, s in held if s) and not (len(terms) == 1):
                raise Violation(f"{util.eq(terms, out)} constants={consts} calls {hist[: n + 1]}: result shares memory with an earlier output array")
        held.append((r, wants[i], h[0] == "o"))
        st.traces += 1
        for m, (x, wnt, _) in enumerate(held):
            if not util.same(x, wnt):
                raise Violation(f"{util.eq(terms, out)} constants={consts} calls {hist[: n + 1]}: the result of result-producing call {m} now reads {util.show(x)}, expected {util.show(wnt)}")
        for k, x in zip([k for k in range(len(terms)) if k not in consts], var):
            if not util.same(x, sets[i][k]):
                raise Violation(f"{util.eq(terms, out)} constants={consts} calls {hist[: n + 1]}: operand {k} was modified")
        for k in consts:
            if not util.same(cvals[k], base[k]):
                raise Violation(f"{util.eq(terms, out)} constants={consts} calls {hist[: n + 1]}: constant {k} was modified")
    st.states += 1


def gen_history(depth):
    def g():
        for terms, out in HIST:
            for consts in util.powerset(range(len(terms))):
                if len(consts) == len(terms):
                    continue
                for hist in itertools.product(CALLS, repeat=depth):
                    yield [terms, out, list(consts), list(hist)]
    return g


# --- nothing handed over is modified --------------------------------------------------------------------------

STRATS = ["optimal", "branch-all", "branch-2", "branch-1", "greedy", "dp", "auto", "auto-hq", "random-greedy", False]


def snapshot(x):
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, x.strides, x.dtype, x.tobytes(), x.flags.writeable)
    if isinstance(x, dict):
        return ("dict", [(snapshot(k), snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(x, key=repr))
    return copy.deepcopy(x)


def run_untouched(case, st):
    terms, out, strat, form = case
    sd = util.sizes(enum.letters_of(terms), "mix")
    raw = util.arrays(terms, sd)
    want = oracle.einsum(terms, out, raw)
    opt = [tuple(p) for p in strat] if isinstance(strat, list) else strat
    if form == "F":
        raw = [x.copy(order="F") for x in raw]
    elif form == "int":
        raw = [x.astype(np.int32) for x in raw]
    elif form == "lists":
        raw = [x.tolist() for x in raw]
    given = list(raw)
    kw = {"optimize": opt}
    if form == "inter":
        args = [v for t, x in zip(terms, given) for v in (x, [ord(c) for c in t])] + [[ord(c) for c in out]]
    elif form == "path":
        args = [util.eq(terms, out)] + given
        n = len(terms)
        kw["optimize"] = [[n - 1 - k, 0] if n - k > 1 else [0] for k in range(n - 1)] or [[0]]
    else:
        args = [util.eq(terms, out)] + given
    e = util.eq(terms, out)
    if form == "finder":
        fn = paths.get_path_fn(strat)
        a, b, c = [set(t) for t in terms], set(out), dict(sd)
        before = snapshot([a, b, c])
        ids = [id(x) for x in a]
        fn(a, b, c, None)
        st.transitions += 1
        if snapshot([a, b, c]) != before or ids != [id(x) for x in a]:
            raise Violation(f"{e}: the {strat} search modified its arguments: {a} {b} {c}")
    elif form in ("shapes", "expr"):
        consts = [0] if form == "expr" and len(terms) > 1 else []
        shp = [given[k] if k in consts else list(x.shape) for k, x in enumerate(given)]
        before = snapshot([shp, consts, kw, given])
        if form == "shapes":
            oe.contract_path(e, *shp, shapes=True, **kw)
        else:
            ex = oe.contract_expression(e, *shp, constants=consts, **kw)
            for _ in range(2):
                got = ex(*[x for k, x in enumerate(given) if k not in consts])
                if not util.same(got, want):
                    raise Violation(f"{e} {strat} {form} gives {util.show(got)}")
        st.transitions += 1
        if snapshot([shp, consts, kw, given]) != before:
            raise Violation(f"{e} strategy {strat}: an object handed to {'contract_path' if form == 'shapes' else 'the expression'} was modified")
    else:
        before = snapshot([args, kw])
        ids = [id(x) for x in args]
        got = oe.contract(*args, **kw)
        st.transitions += 1
        if not util.same(got, want):
            raise Violation(f"{e} strategy {strat} {form} gives {util.show(got)}, expected {util.show(want)}")
        if snapshot([args, kw]) != before or ids != [id(x) for x in args]:
            raise Violation(f"{e} strategy {strat} form {form}: an argument of contract was modified")
        if strat is not False:
            kw2 = dict(kw)
            oe.contract_path(*args, **kw2)
            if snapshot([args, kw]) != before:
                raise Violation(f"{e} strategy {strat} form {form}: an argument of contract_path was modified")
    st.traces += 1
    st.states += 1


FORMS = ["C", "F", "int", "lists", "inter", "path", "finder", "shapes", "expr"]


def gen_untouched(n, **kw):
    def g():
        for terms, out in enum.equations(n, outs=enum.some_orders, **kw):
            for strat in STRATS:
                for form in FORMS:
                    if strat is False and form in ("finder", "shapes", "expr", "path"):
                        continue
                    if form == "path" and strat != "optimal":
                        continue
                    if form == "finder" and n < 2:
                        continue
                    yield [terms, out, strat, form]
    return g


def spaces(tier):
    q = tier == "quick"
    every = ["contract", "noopt", "expr", "const", "torch", "torchconst", "shared", "ones"]
    o2 = dict(outs=enum.ordered_subsets)
    return [
        ("one-operand", gen_out(1, enum.ordered_subsets, LAYOUTS + ["op", "opT"], every, ["mix", "two", "one", "zero"], max_rank=3), run_out),
        ("two-operands", gen_out(2, enum.ordered_subsets, LAYOUTS, ["contract", "noopt", "expr", "const", "shared"], ["mix", "first1", "bcast"], max_rank=2), run_out),
        ("two-operands-rank5", gen_out(2, enum.ordered_subsets, ["C", "block"], ["contract", "const"] if q else every, ["mix"], max_rank=3, max_total=5 if q else 6, min_total=5), run_out),
        ("two-operands-other-routes", gen_out(2, enum.some_orders, ["C", "viewT"], ["torch", "torchconst", "ones"], ["mix", "zero"], max_rank=2), run_out),
        ("aliased", gen_out(2, enum.ordered_subsets, ["op", "opT"], ["contract", "noopt", "expr"], ["two", "one"], max_rank=2), run_out),
        ("aliased-3", gen_out(3, enum.some_orders, ["op", "opT"], ["contract"], ["two"], max_rank=2, max_total=5), run_out),
        ("three-operands", gen_out(3, enum.some_orders, ["block", "viewT"], ["contract", "const"], ["mix"], max_rank=2, max_total=5 if q else 6), run_out),
        ("large-1", gen_out(1, enum.ordered_subsets, ["C", "block"], every, ["wide:0", "wide:01"], max_rank=2), run_out),
        ("large-2", gen_out(2, enum.some_orders, ["C", "viewT"], ["contract", "noopt", "const"], ["wide:0", "wide:1", "wide:01"], max_rank=2), run_out),
        ("labels-1", enum.relabel(gen_out(1, enum.ordered_subsets, ["block"], every, ["mix"], max_rank=2)), run_out),
        ("labels-2", enum.relabel(gen_out(2, enum.some_orders, ["block"], every, ["mix"], max_rank=2, max_total=3)), run_out),
        ("torch", gen_torch, run_torch),
        ("histories", gen_history(3 if q else 4), run_history),
        ("untouched-1", gen_untouched(1, max_rank=2), run_untouched),
        ("untouched-2", gen_untouched(2, max_rank=2), run_untouched),
        ("untouched-3", gen_untouched(3, max_rank=2, max_total=4, max_letters=3), run_untouched),
    ]
