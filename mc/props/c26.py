"""C26: a contraction executes exactly the steps of its path."""

import itertools

import opt_einsum as oe

from mc import enum, oracle, tracelib, util
from mc.core import Violation

ID = "C26"
TECHNIQUE = "exhaustive enumeration of equations x paths/strategies x call routes; the operations the real code performs on a tracing array library are the execution, compared step by step with the moves of the path on the contraction game"
BOUNDS = {
    "quick": "all equations with 2 operands of rank <=3 (total <=5) and 3 operands of total rank <=5 (repeated indices included) and all networks of 4 tensors with <=2 indices, 5 tensors with <=1: every path with steps of any arity, "
    "every strategy name, BLAS on and off, four memory limits, libraries with and without einsum (where einsum is not needed), contract/expression/no optimization, one stretched dimension; "
    "expressions with every proper subset of constants x {direct calls, pre-evaluation first}: three calls each; ten families of 6-40 tensors under every strategy",
    "thorough": "3 operands of total rank <=6, 4 tensors with <=4 indices, 5 tensors with <=2 indices, constants on 4-tensor networks",
}
ASSUMPTIONS = ["operations on a single operand (transpositions, traces, sums) before or after a step are not constrained"]

STRATS = ["auto", "auto-hq", "optimal", "dp", "greedy", "branch-all", "branch-2", "branch-1", "random-greedy"]
LIB = "mctrace"
NOE = "mctracene"


def prepare(tier):
    tracelib.make(LIB)
    tracelib.make(NOE, funcs=("tensordot", "transpose"))


def moves(n, path):
    """The groups of operands brought together by each step with two or more terms."""
    cur = [frozenset([k]) for k in range(n)]
    for s in path:
        parts = [cur[k] for k in s]
        cur = [c for k, c in enumerate(cur) if k not in s] + [frozenset().union(*parts)]
        if len(parts) > 1:
            yield frozenset(parts), frozenset().union(*parts)


def kept(terms, out, group):
    inside = set("".join(terms[k] for k in group))
    outside = set(out).union(*(terms[k] for k in range(len(terms)) if k not in group))
    return inside & outside


def extents(terms, group, raw):
    d = {}
    for k in group:
        for c, n in zip(terms[k], raw[k].shape):
            if d.get(c, 1) == 1:
                d[c] = n
    return d


def compare(what, terms, out, raw, want_moves):
    got = [(parts, g) for _, parts, g, _ in tracelib.OPS]
    if got != want_moves:
        show = [sorted(sorted(p) for p in parts) for parts, _ in got]
        want = [sorted(sorted(p) for p in parts) for parts, _ in want_moves]
        raise Violation(f"{what}: operands brought together {show}, the path says {want}")
    for _, _, g, shape in tracelib.OPS:
        e = extents(terms, g, raw)
        ref = oracle.prod(e[c] for c in kept(terms, out, g))
        if oracle.prod(shape) != ref:
            raise Violation(f"{what}: the step making {sorted(g)} formed an array of shape {shape}, its kept indices have {ref} elements")


def run(case, st):
    terms, out, opts, ones, pattern = case if len(case) == 5 else case + ["mix"]
    n = len(terms)
    sd = util.sizes(enum.letters_of(terms), pattern)
    ones = {tuple(x) for x in ones}
    raw = util.arrays(terms, sd, ones=ones)
    want = oracle.einsum(terms, out, raw)
    eq = util.eq(terms, out)
    flat = "".join(terms) + out
    plain = not ones and all(len(set(t)) == len(t) for t in terms) and all(flat.count(c) == 2 for c in flat)
    done = {}
    for opt, kw in opts:
        if isinstance(opt, list):
            opt = [tuple(s) for s in opt]
        try:
            path, info = oe.contract_path(eq, *[x.shape for x in raw], shapes=True, optimize=opt, **kw)
        except RuntimeError:
            if "memory_limit" in kw and opt in ("dp", "auto-hq"):
                continue
            raise
        for lib in (LIB, NOE) if plain and opt is not False and not kw and all(len(s) == 2 for s in path) else (LIB,):
            cls = tracelib.make(lib)
            ops = [cls(x, frozenset([k])) for k, x in enumerate(raw)]
            key = (tuple(map(tuple, path)), lib, kw.get("use_blas", True))
            ref = list(moves(n, path))
            st.states += 1
            for route in ("contract", "expr") if opt is not False else ("contract",):
                if (key, route) in done and not isinstance(opt, str):
                    continue
                done[key, route] = True
                what = f"{eq} optimize={opt} {kw} ({route}, {lib})"
                tracelib.reset()
                if route == "contract":
                    got = oe.contract(eq, *ops, optimize=opt, **kw)
                else:
                    got = oe.contract_expression(eq, *[x.shape for x in raw], optimize=opt, **kw)(*ops)
                st.transitions += len(tracelib.OPS)
                st.traces += 1
                if not util.same(got._a, want):
                    raise Violation(f"{what}: wrong value")
                compare(what, terms, out, raw, ref)
                if not kw.get("use_blas", True) and any(o[0] == "tensordot" for o in tracelib.OPS):
                    raise Violation(f"{what}: tensordot although BLAS is off")
                if len(tracelib.OPS) == len(path):
                    # a step reported with a BLAS kind is done by tensordot, unless einsum is preferred and available
                    for o, c in zip(tracelib.OPS, info.contraction_list):
                        by = "tensordot" if c[-1] and ("EINSUM" not in str(c[-1]) or lib == NOE) else "einsum"
                        if o[0] != by:
                            raise Violation(f"{what}: the step {c[2]} reported as {c[-1]} is done by {o[0]}")
                if not ones and len(tracelib.OPS) == len(path):
                    sizes = [oracle.prod(o[3]) for o in tracelib.OPS]
                    if sizes != list(info.size_list):
                        raise Violation(f"{what}: intermediates of {sizes} elements, reported {info.size_list}")


def options(n, all_paths=True):
    o = [[s, {}] for s in STRATS] + [[False, {}], ["auto", {"use_blas": False}], ["greedy", {"use_blas": False}]]
    o += [[s, {"memory_limit": m}] for s in ("auto", "optimal", "greedy", "dp") for m in (1, 3, 8, "max_input")]
    if all_paths:
        for p in oracle.all_paths(n):
            p = [list(s) for s in p]
            o.append([p, {}])
            o.append([p, {"use_blas": False}])
    return o


def gen_eqs(n, rank, total):
    def g():
        opts = options(n)
        for terms, out in enum.equations(n, rank, outs=enum.some_orders if n < 3 else enum.subsets, max_total=total):
            yield [terms, out, opts, []]
            if n < 3:
                for k, t in enumerate(terms):
                    for ax in range(len(t)):
                        if t.count(t[ax]) == 1:
                            yield [terms, out, opts, [[k, ax]]]
    return g


def gen_large(n, rank, total):
    def gen():
        for case in gen_eqs(n, rank, total)():
            if not case[3]:
                for p in util.wide(enum.letters_of(case[0]), 2):
                    yield case + [p]

    return gen


def gen_nets(n, inds):
    def g():
        opts = options(n)
        for terms in enum.networks(n, inds):
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out, opts, []]
    return g


def gen_families(ns):
    def g():
        for n in ns:
            for _, terms, out in enum.structured(n):
                opts = [[s, {}] for s in STRATS if not (n > 8 and s in ("optimal", "branch-all") or n > 9 and s in ("dp", "auto-hq", "branch-2"))]
                opts += [["auto", {"use_blas": False}], ["greedy", {"memory_limit": "max_input"}]]
                yield [terms, out, opts, []]
    return g


def run_family(case, st):
    """As run, with unit and doubled sizes so that nothing gets large and values by pairwise folding."""
    terms, out, opts, _ = case
    letters = enum._symbols()
    letters = [c for c in letters if c in set("".join(terms))]
    sd = {c: 2 if k % 5 == 0 else 1 for k, c in enumerate(letters)}
    raw = [1 + (util.data(tuple(sd[c] for c in t), k) > 0) for k, t in enumerate(terms)]
    want = util.fold_einsum(terms, out, raw)
    eq = util.eq(terms, out)
    cls = tracelib.make(LIB)
    ops = [cls(x, frozenset([k])) for k, x in enumerate(raw)]
    for opt, kw in opts:
        path, _ = oe.contract_path(eq, *[x.shape for x in raw], shapes=True, optimize=opt, **kw)
        for route in ("contract", "expr"):
            tracelib.reset()
            got = oe.contract(eq, *ops, optimize=opt, **kw) if route == "contract" else oe.contract_expression(eq, *[x.shape for x in raw], optimize=opt, **kw)(*ops)
            st.states += 1
            st.traces += 1
            st.transitions += len(tracelib.OPS)
            what = f"{len(terms)} terms {eq[:60]} optimize={opt} {kw} ({route})"
            if not util.same(got._a, want):
                raise Violation(f"{what}: wrong value")
            compare(what, terms, out, raw, list(moves(len(terms), path)))


# --- constants ------------------------------------------------------------------------------------------------


def run_const(case, st):
    terms, out, paths = case
    n = len(terms)
    raw = util.arrays(terms, util.sizes(enum.letters_of(terms), "mix"))
    want = oracle.einsum(terms, out, raw)
    eq = util.eq(terms, out)
    cls = tracelib.make(LIB)
    ops = [cls(x, frozenset([k])) for k, x in enumerate(raw)]
    for path in paths:
        path = [tuple(s) for s in path]
        ref = list(moves(n, path))
        for const in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(1, n)):
            # the leading steps that only involve constants need to be done once
            lead = 0
            while lead < len(ref) and ref[lead][1] <= set(const):
                lead += 1
            for pre in (False, True):
                args = [ops[k] if k in const else raw[k].shape for k in range(n)]
                ex = oe.contract_expression(eq, *args, optimize=path, constants=list(const))
                tracelib.reset()
                if pre:
                    ex.evaluate_constants(backend=LIB)
                seen = []
                for call in range(3):
                    got = ex(*[ops[k] for k in range(n) if k not in const])
                    st.transitions += len(tracelib.OPS)
                    st.traces += 1
                    what = f"{eq} path={path} constants={const} pre-evaluated={pre} call {call + 1}"
                    if not util.same(got._a, want):
                        raise Violation(f"{what}: wrong value")
                    done = [(parts, g) for _, parts, g, _ in tracelib.OPS]
                    if call == 0:
                        if sorted(map(str_move, done)) != sorted(map(str_move, ref)):
                            raise Violation(f"{what}: performed {list(map(str_move, done))}, the path says {list(map(str_move, ref))}")
                    else:
                        again = [m for m in done if m in ref[:lead]]
                        if again:
                            raise Violation(f"{what}: constant steps {list(map(str_move, again))} were performed again")
                        need = [m for m in ref if not m[1] <= set(const)]
                        if [m for m in done if m in need] != need or any(m not in ref for m in done):
                            raise Violation(f"{what}: performed {list(map(str_move, done))}, remaining steps {list(map(str_move, need))}")
                    seen.append(len(done))
                    tracelib.reset()
                st.states += 1
                st.outcome("steps per call", tuple(seen))


def str_move(m):
    return str(sorted(sorted(p) for p in m[0]))


def gen_const(n, rank, total, inds=None):
    def g():
        paths = [[list(s) for s in p] for p in oracle.all_paths(n)]
        if inds is None:
            for terms, out in enum.equations(n, rank, outs=enum.subsets, max_total=total):
                yield [terms, out, paths]
        else:
            for terms in enum.networks(n, inds):
                for out in enum.subsets(enum.letters_of(terms)):
                    yield [terms, out, paths]
    return g


def spaces(tier):
    q = tier == "quick"
    s = [
        ("two", gen_eqs(2, 3, 5 if q else 6), run),
        ("three", gen_eqs(3, 3 if q else 4, 5 if q else 6), run),
        ("two-large", gen_large(2, 3, 4), run),
        ("three-large", gen_large(3, 2, 3 if q else 4), run),
        ("four-nets", gen_nets(4, 2 if q else 4), run),
        ("five-nets", gen_nets(5, 1 if q else 2), run),
        ("families", gen_families([6, 9, 14, 17, 24, 40] if q else [6, 7, 8, 9, 12, 14, 15, 16, 17, 20, 21, 24, 40, 60]), run_family),
        ("constants-2", gen_const(2, 3, 5), run_const),
        ("constants-3", gen_const(3, 3, 4 if q else 5), run_const),
    ]
    s.append(("constants-4", gen_const(4, 0, 0, inds=1 if q else 2), run_const))
    return s
