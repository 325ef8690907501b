"""C08: all ways of writing the same contraction are equivalent."""

import functools
import itertools

import numpy as np

import opt_einsum as oe

from mc import enum, oracle, util
from mc.core import Violation

ID = "C08"
TECHNIQUE = "exhaustive enumeration of equations and of every way of writing each of them on the real code, against the defining sum and numpy.einsum"
BOUNDS = {
    "quick": "all equations with 1 operand of rank <=4, 2 operands of rank <=2, 3 operands of total rank <=5 (repeated indices, all ordered outputs and the implicit one) x every "
    "single gap and all gaps filled with blanks x 9 interleaved label kinds x 7 Unicode alphabets x shapes/arrays/array-likes/expressions/optimize=False; "
    "ellipses: all placements in 1-2 operands (3 operands of rank <=2) with 0-2 covered dimensions, broadcast sizes, every explicit output placement and the implicit one; ten families of up to 60 operands with up to 180 labels in six forms",
    "thorough": "2 operands of rank <=3, ellipses over 3 covered dimensions",
}


@functools.total_ordering
class Label:
    """A hashable, comparable user object."""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Label) and self.k == o.k

    def __lt__(self, o):
        return self.k < o.k

    def __hash__(self):
        return 7  # all collide: only equality may be used

    def __repr__(self):
        return f"L{self.k}"


# order preserving label kinds
KINDS = {
    "int": lambda k: k,
    "int-gaps": lambda k: 3 * k + 100,
    "negative": lambda k: k - 50,
    "str": lambda k: "x" * k + "w" if False else f"n{k:02d}",
    "tuple": lambda k: ("p", k),
    "float": lambda k: k / 4 + 0.125,
    "object": Label,
    "frozen-mixed": lambda k: k if k % 2 else float(k),
    "bool": lambda k: (False, True, 2, 3, 4, 5, 6)[k],
}
ALPHABETS = {
    "upper": "ABCDEFG",
    "mixedcase": "AaBbCcD",
    "greek": "αβγδεζη",
    "latin-ext": "ÀÁŔŕǴΩÿ",
    "cjk": "京都大学東西南",
    "astral": "😀😁😂𝒜𝒷🂡🂢",
    "digits": "0123456",
}


def values_equal(st, what, got, want):
    st.traces += 1
    if not util.same(got, want):
        raise Violation(f"{what}: got {util.show(got)}, want {util.show(want)}")


def summary(info):
    return (info.opt_cost, info.naive_cost, info.largest_intermediate, list(info.scale_list), list(info.size_list), list(info.shapes))


def implicit_out(terms):
    s = "".join(terms)
    return "".join(c for c in sorted(set(s)) if s.count(c) == 1)


def interleave(ops, terms, out, lab):
    args = []
    for o, t in zip(ops, terms):
        args += [o, [lab(c) for c in t]]
    if out is not None:
        args.append([lab(c) for c in out])
    return args


def run(case, st):
    terms, out, pattern = case
    letters = enum.letters_of(terms)
    sd = util.sizes(letters, pattern)
    ops = util.arrays(terms, sd)
    impl = out is None
    o = implicit_out(terms) if impl else out
    eq = ",".join(terms) + ("" if impl else "->" + out)
    want = oracle.einsum(terms, o, ops)
    shapes = [x.shape for x in ops]
    st.states += 1
    path, info = oe.contract_path(eq, *ops)
    if info.eq != util.eq(terms, o):
        raise Violation(f"{eq!r} was read as {info.eq!r}")
    ref = (list(path), summary(info))
    values_equal(st, f"numpy.einsum({eq!r})", np.einsum(eq, *ops), want)

    def both(what, *args, expr=True, same_path=True, opt=True):
        """contract, contract_path, expression and unoptimized contraction of one way of writing it."""
        st.transitions += 1
        values_equal(st, f"contract({what})", oe.contract(*args), want)
        if opt:
            values_equal(st, f"contract({what}, optimize=False)", oe.contract(*args, optimize=False), want)
        p, i = oe.contract_path(*args)
        if same_path and (list(p), summary(i)) != ref:
            raise Violation(f"contract_path({what}) gives {p} {summary(i)}, the plain form gives {ref}")

    both(repr(eq), eq, *ops)
    # whitespace
    for k in range(len(eq) + 1):
        if 0 < k < len(eq) and eq[k - 1 : k + 1] == "->":
            continue
        w = eq[:k] + " " + eq[k:]
        both(repr(w), w, *ops)
    full = " " + " ".join(list(eq)).replace("- >", "->") + "  "
    both(repr(full), full, *ops)
    # shapes instead of arrays
    for sh in (shapes, [list(s) for s in shapes]):
        p, i = oe.contract_path(eq, *sh, shapes=True)
        if (list(p), summary(i)) != ref:
            raise Violation(f"contract_path({eq!r}, shapes={sh}) gives {p} {summary(i)}, arrays give {ref}")
    # array-likes
    listable = all(np.shape(x.tolist()) == x.shape for x in ops)
    for conv in (lambda x: x.tolist() if listable else x, lambda x: x if x.ndim != 1 else tuple(x), lambda x: (list(x) if len(x) else x) if x.ndim else float(x)):
        both(f"{eq!r} as array-likes", eq, *[conv(x) for x in ops])
    # expressions
    for e2 in (eq, full):
        ex = oe.contract_expression(e2, *shapes)
        values_equal(st, f"expression({e2!r})", ex(*ops), want)
        values_equal(st, f"expression({e2!r}) of lists", ex(*[x.tolist() if listable else x for x in ops]), want)
    # interleaved
    for kind, f in KINDS.items():
        lab = {c: f(k) for k, c in enumerate(letters)}.__getitem__
        args = interleave(ops, terms, out, lab)
        both(f"interleaved {kind} {eq}", *args)
        if kind in ("int", "object"):
            sargs = interleave(shapes, terms, out, lab)
            ex = oe.contract_expression(*sargs)
            values_equal(st, f"interleaved expression {kind} {eq}", ex(*ops), want)
            p, i = oe.contract_path(*sargs, shapes=True)
            if (list(p), summary(i)) != ref:
                raise Violation(f"interleaved shapes {kind} {eq}: {p} {summary(i)}, plain form gives {ref}")
            targs = [tuple(a) if isinstance(a, list) else a for a in args]
            both(f"interleaved tuples {kind} {eq}", *targs)
        if kind == "int":
            values_equal(st, "numpy interleaved", np.einsum(*args), want)
    if not impl:
        # labels in an order unrelated to the letters
        n = len(letters)
        lab = {c: (5 * k + 3) % 7 for k, c in enumerate(letters)}.__getitem__
        both(f"interleaved shuffled {eq}", *interleave(ops, terms, out, lab), same_path=False)
    # other alphabets (same relative order)
    for name, alpha in ALPHABETS.items():
        a = sorted(alpha)
        ren = {c: a[k] for k, c in enumerate(letters)}
        e2 = "".join(ren.get(c, c) for c in eq)
        p, i = oe.contract_path(e2, *ops)
        st.transitions += 1
        if (list(p), summary(i)) != ref:
            raise Violation(f"contract_path({e2!r}) gives {p} {summary(i)}, {eq!r} gives {ref}")
        values_equal(st, f"contract({e2!r})", oe.contract(e2, *ops), want)
        values_equal(st, f"contract({e2!r}, use_blas=False)", oe.contract(e2, *ops, use_blas=False), want)
        values_equal(st, f"contract({e2!r}, optimize=False)", oe.contract(e2, *ops, optimize=False), want)
        values_equal(st, f"expression({e2!r})", oe.contract_expression(e2, *shapes)(*ops), want)


def gen_eq(n, r, patterns, **kw):
    def gen():
        for terms in enum.inputs(n, r, **kw):
            for out in itertools.chain([None], enum.ordered_subsets(enum.letters_of(terms))):
                for p in patterns:
                    yield [terms, out, p]
    return gen


# --- ellipses ---------------------------------------------------------------------------------------------


def place(t, k):
    return t if k is None else t[:k] + "..." + t[k:]


def expand(terms, dots, extra, out, odot):
    """Definition: the covered dimensions are aligned from the right; returns explicit terms and output."""
    width = max([e for e, d in zip(extra, dots) if d is not None], default=0)
    fresh = "UVWXYZ"[:width]
    full = []
    for t, d, e in zip(terms, dots, extra):
        full.append(t if d is None else t[:d] + (fresh[width - e :] if e else "") + t[d:])
    if out is None:
        return full, fresh + implicit_out(terms)
    return full, out if odot is None else out[:odot] + fresh + out[odot:]


def run_dots(case, st):
    terms, dots, extra, ones, out, odot = case
    letters = enum.letters_of(terms)
    sd = util.sizes(letters, "mix")
    sd.update(zip("UVWXYZ", (3, 2, 4, 2, 2, 2)))
    full, fout = expand(terms, dots, extra, out, odot)
    # `ones` lists operands whose covered dimensions have size 1
    onepos = {(k, ax) for k in ones for ax, c in enumerate(full[k]) if c in "UVWXYZ"}
    ops = util.arrays(full, sd, ones=onepos)
    eq = ",".join(place(t, d) for t, d in zip(terms, dots))
    if out is not None:
        eq += "->" + place(out, odot)
    st.states += 1
    want = oracle.einsum(full, fout, ops)
    try:
        npval = np.einsum(eq, *ops)
    except ValueError:
        npval = None
        st.count("numpy rejects")
    if npval is not None and not util.same(npval, want):
        raise RuntimeError(f"oracle error {eq} {[x.shape for x in ops]}: {util.show(npval)} {util.show(want)}")
    st.transitions += 1
    shapes = [x.shape for x in ops]
    what = f"{eq!r} shapes={shapes}"
    values_equal(st, f"contract({what})", oe.contract(eq, *ops), want)
    values_equal(st, f"contract({what}, optimize=False)", oe.contract(eq, *ops, optimize=False), want)
    values_equal(st, f"contract({what}, use_blas=False)", oe.contract(eq, *ops, use_blas=False), want)
    values_equal(st, f"expression({what})", oe.contract_expression(eq, *shapes)(*ops), want)
    values_equal(st, f"contract({what} as lists)", oe.contract(eq, *[x.tolist() for x in ops]), want)
    p1, i1 = oe.contract_path(eq, *ops)
    for sh in (shapes, [list(s) for s in shapes]):
        p2, i2 = oe.contract_path(eq, *sh, shapes=True)
        if list(p1) != list(p2) or summary(i1) != summary(i2):
            raise Violation(f"{what}: shapes and arrays give different reports")
    p3, i3 = oe.contract_path(util.eq(full, fout), *ops)
    if list(p3) != list(p1) or summary(i1) != summary(i3):
        raise Violation(f"{what}: the ellipsis form and the written-out form {util.eq(full, fout)} differ: {p1} {summary(i1)} vs {p3} {summary(i3)}")
    # non-ascii labels next to ellipses
    ren = {c: "αβγδεζη"[k] for k, c in enumerate(letters)}
    e2 = "".join(ren.get(c, c) for c in eq)
    values_equal(st, f"contract({e2!r})", oe.contract(e2, *ops), want)
    values_equal(st, f"contract({e2!r}, optimize=False)", oe.contract(e2, *ops, optimize=False), want)

    # interleaved with Ellipsis
    def sub(t, d, lab):
        s = [lab(c) for c in t]
        return s if d is None else s[:d] + [Ellipsis] + s[d:]

    for kind in ("int", "tuple"):
        lab = {c: KINDS[kind](k) for k, c in enumerate(letters)}.__getitem__
        args = []
        for x, t, d in zip(ops, terms, dots):
            args += [x, sub(t, d, lab)]
        if out is not None:
            args.append(sub(out, odot, lab))
        values_equal(st, f"interleaved {kind} {what}", oe.contract(*args), want)
        values_equal(st, f"interleaved {kind} {what} optimize=False", oe.contract(*args, optimize=False), want)
        sargs = [a if k % 2 or k == 2 * len(terms) else a.shape for k, a in enumerate(args)]
        values_equal(st, f"interleaved expression {kind} {what}", oe.contract_expression(*sargs)(*ops), want)


def gen_dots(n, r, maxextra, max_total=None, all_outs=True):
    def gen():
        for terms in enum.inputs(n, r, max_total=max_total):
            letters = enum.letters_of(terms)
            for dots in itertools.product(*[[None] + list(range(len(t) + 1)) for t in terms]):
                if all(d is None for d in dots):
                    continue
                ext_opts = [range(maxextra + 1) if d is not None else [0] for d in dots]
                for extra in itertools.product(*ext_opts):
                    have = [k for k in range(n) if extra[k]]
                    onesets = [()] + [(k,) for k in have if len(have) > 1]
                    outs = [(None, None)]
                    for o in enum.ordered_subsets(letters) if all_outs else enum.subsets(letters):
                        outs += [(o, None)] + [(o, k) for k in range(len(o) + 1)]
                    for ones in onesets:
                        for o, od in outs:
                            yield [terms, list(dots), list(extra), list(ones), o, od]
    return gen


def run_many(case, st):
    """More indices than there are letters: strings beyond the 52 letters and interleaved labels."""
    n, name, opt = case
    ((terms, out),) = [(t, o) for nm, t, o in enum.structured(n) if nm == name]
    letters = sorted(set("".join(terms)))
    sd = {c: 1 + (k % 5 == 0) for k, c in enumerate(letters)}
    ops = util.arrays(terms, sd, dtype=np.int64)  # integers wrap around: exact arithmetic modulo 2**64
    want = util.fold_einsum(terms, out, ops)
    st.states += 1
    eq = util.eq(terms, out)
    forms = [("string", [eq, *ops])]
    syms = [oe.get_symbol(k) for k in range(len(letters))]
    ren = dict(zip(letters, sorted(syms)))
    forms.append(("symbols", ["".join(ren.get(c, c) for c in eq), *ops]))
    ren2 = {c: chr(0x4E00 + k) for k, c in enumerate(letters)}
    forms.append(("cjk", ["".join(ren2.get(c, c) for c in eq), *ops]))
    forms.append(("int", interleave(ops, terms, out, {c: k for k, c in enumerate(letters)}.__getitem__)))
    forms.append(("tuple", interleave(ops, terms, out, {c: (k // 7, k % 7) for k, c in enumerate(letters)}.__getitem__)))
    forms.append(("object", interleave(ops, terms, out, {c: Label(k) for k, c in enumerate(letters)}.__getitem__)))
    costs = set()
    for what, args in forms:
        st.transitions += 1
        p, i = oe.contract_path(*args, optimize=opt)
        costs.add(i.naive_cost)
        values_equal(st, f"{name} of {n} as {what}", oe.contract(*args, optimize=opt), want)
    if len(costs) != 1:
        raise Violation(f"{name} of {n}: naive costs differ between forms: {costs}")
    shapes = [x.shape for x in ops]
    values_equal(st, f"{name} of {n} expression", oe.contract_expression(forms[2][1][0], *shapes, optimize=opt)(*ops), want)
    # implicit output
    impl = util.fold_einsum(terms, implicit_out(terms), ops) if len(implicit_out(terms)) <= 8 else None
    if impl is not None:
        values_equal(st, f"{name} of {n} implicit", oe.contract(",".join(terms), *ops, optimize=opt), impl)
        values_equal(st, f"{name} of {n} implicit cjk", oe.contract(forms[2][1][0].split("->")[0], *ops, optimize=opt), impl)
        values_equal(st, f"{name} of {n} implicit int",
                     oe.contract(*interleave(ops, terms, None, {c: k for k, c in enumerate(letters)}.__getitem__), optimize=opt), impl)


def gen_many():
    for n in (4, 10, 25, 30, 53, 60):
        for name, terms, out in enum.structured(n):
            if name == "star" and n > 10 or name == "outer" and n > 25:
                continue
            for opt in ("auto", "greedy"):
                yield [n, name, opt]


def spaces(tier):
    q = tier == "quick"
    return [
        ("one-operand", gen_eq(1, 4, ("mix", "zlast")), run),
        ("two-operands", gen_eq(2, 2 if q else 3, ("mix", "zero")), run),
        ("three-operands", gen_eq(3, 2, ("mix",), max_total=5), run),
        ("dots-1", gen_dots(1, 3 if not q else 2, 3), run_dots),
        ("dots-2", gen_dots(2, 2, 2, all_outs=not q), run_dots),
        ("dots-3", gen_dots(3, 1, 2, max_total=2 if q else 3), run_dots),
        ("many-indices", gen_many, run_many),
    ]
