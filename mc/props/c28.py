"""C28: an expression describes itself truthfully."""

import itertools
import re

import opt_einsum as oe

from mc import enum, oracle, util
from mc.core import Violation

ID = "C28"
TECHNIQUE = "exhaustive enumeration of expressions (equation x path x constants x options) and of their states (fresh, evaluated, called); the printed form is parsed by an independent reader and compared with the steps of the path that remain"
BOUNDS = {
    "quick": "all equations with 2 operands of rank <=3 (total <=5), 3 operands of total rank <=4, networks of 4 tensors with 1 index (explicit notation, and implicit where equal), every path, every subset of constants, "
    "BLAS on/off, with and without einsum options; states: fresh, pre-evaluated, called once and twice",
    "thorough": "3 operands of total rank <=5, 4 tensors with <=3 indices",
}
ASSUMPTIONS = ["layout (white space) of the printed form is free; steps may be listed with their operands in any order"]

STEP = re.compile(r"^\s*(\d+)\.\s+'([^']*)'(?:\s+\[([^\]]*)\])?\s*$")


def parse_terms(s):
    """'ab,[bc,cd]->ad' -> (list of (term, is constant), output or None)."""
    lhs, arrow, rhs = s.partition("->")
    terms, depth, cur = [], 0, ""
    for c in lhs + ",":
        if c == "[":
            depth += 1
        elif c == "]":
            terms.append((cur, True))
            depth -= 1
            cur = None
        elif c == ",":
            if cur is not None:
                terms.append((cur, depth > 0))
            cur = ""
        else:
            cur += c
        if depth not in (0, 1):
            return None
    return terms, (rhs if arrow else None)


def steps_of(terms, out, path):
    """(terms of the step, result index set, operands it depends on) of each step, by the definition."""
    cur = [(t, frozenset([k])) for k, t in enumerate(terms)]
    for p in path:
        group = [cur[x] for x in p]
        deps = frozenset().union(*(d for _, d in group))
        inside = set("".join(t for t, _ in group))
        rest = [c for x, c in enumerate(cur) if x not in p]
        keep = set(out).union(*(t for t, _ in rest))
        res = inside & keep
        cur = rest + [("".join(sorted(res)), deps)]
        yield sorted("".join(sorted(t)) for t, _ in group), res, deps


def check(ex, what, terms, out, const, path, evaluated, kw, implicit):
    def bad(msg):
        raise Violation(f"{what}: {msg}")

    text, rep = str(ex), repr(ex)
    head = text.split("\n", 1)[0]
    if head != rep:
        bad(f"str begins with {head!r}, repr is {rep!r}")
    m = re.match(r"^<ContractExpression\('(.*?)'(?:, constants=\[([\d, ]*)\])?\)>$", rep)
    if not m:
        bad(f"repr is {rep!r}")
    if m.group(1) != ex.contraction:
        bad(f"repr shows {m.group(1)!r}, the contraction is {ex.contraction!r}")
    got = parse_terms(ex.contraction)
    if got is None:
        bad(f"unbalanced brackets in {ex.contraction!r}")
    if [t for t, _ in got[0]] != terms:
        bad(f"{ex.contraction!r} does not show the terms {terms}")
    if got[1] != (None if implicit else out):
        bad(f"{ex.contraction!r} does not show the output {out!r}")
    shown = [k for k, (_, c) in enumerate(got[0]) if c]
    if shown != list(const):
        bad(f"{ex.contraction!r} shows the constants {shown}")
    listed = [int(x) for x in (m.group(2) or "").split(",") if x.strip()]
    if listed != list(const):
        bad(f"repr lists the constants {listed}")
    if ex.num_args != len(terms) - len(const):
        bad(f"num_args is {ex.num_args}")
    # the steps
    want = list(steps_of(terms, out, path))
    if evaluated:
        k = 0
        while k < len(want) and want[k][2] <= set(const):
            k += 1
        want = want[k:]
    lines = [STEP.match(line) for line in text.split("\n")[1:]]
    lines = [x for x in lines if x]
    if [int(x.group(1)) for x in lines] != list(range(1, len(want) + 1)):
        bad(f"{len(want)} steps remain, printed: {text!r}")
    if len(ex.contraction_list) != len(want):
        bad(f"{len(want)} steps remain, contraction_list has {len(ex.contraction_list)}")
    for x, c, (ts, res, _) in zip(lines, ex.contraction_list, want):
        lhs, _, rhs = x.group(2).partition("->")
        if sorted("".join(sorted(t)) for t in lhs.split(",")) != ts or set(rhs) != res or len(rhs) != len(res):
            bad(f"step printed as {x.group(2)!r}, it contracts {ts} to {sorted(res)}")
        if x.group(2) != c[2]:
            bad(f"step printed as {x.group(2)!r}, performed as {c[2]!r}")
        if (x.group(3) or False) != c[-1]:
            bad(f"step {x.group(2)!r} printed with BLAS {x.group(3)!r}, performed with {c[-1]!r}")
        if x.group(3) and not kw.get("use_blas", True):
            bad(f"step {x.group(2)!r} printed with BLAS {x.group(3)!r} although it is disabled")
    for k, v in kw.items():
        if k != "use_blas" and want and (k not in text or repr(v) not in text):
            bad(f"option {k}={v!r} is not shown in {text!r}")


def run(case, st):
    terms, out, paths = case
    n = len(terms)
    sd = util.sizes(enum.letters_of(terms), "mix")
    raw = util.arrays(terms, sd)
    want = oracle.einsum(terms, out, raw)
    full = util.eq(terms, out)
    flat = "".join(terms)
    natural = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
    for path in paths:
        path = [tuple(p) for p in path]
        for const in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n)):
            forms = [("explicit", full, {}), ("explicit", full, {"use_blas": False}), ("explicit", full, {"dtype": "float64", "order": "C"})]
            if natural == out:
                forms.append(("implicit", ",".join(terms), {}))
            for form, eq, kw in forms:
                ex = oe.contract_expression(eq, *[raw[k] if k in const else raw[k].shape for k in range(n)], constants=list(const), optimize=path, **kw)
                st.states += 1
                var = [raw[k] for k in range(n) if k not in const]
                what = f"{eq} path={path} constants={const} {kw}"
                args = (terms, out, const, path)
                check(ex, what + " (fresh)", *args, False, kw, form == "implicit")
                st.traces += 1
                for state in (("evaluated",) if const else ()) + ("called", "called twice"):
                    if state == "evaluated":
                        ex.evaluate_constants(backend="numpy")
                    elif not util.same(ex(*var), want):
                        raise Violation(f"{what}: wrong value")
                    check(ex, f"{what} ({state})", *args, bool(const), kw, form == "implicit")
                    st.traces += 1
                    st.transitions += 1


def gen(n, rank, total):
    def g():
        paths = [[list(s) for s in p] for p in oracle.all_paths(n)]
        for terms, out in enum.equations(n, rank, outs=enum.some_orders if n < 3 else enum.subsets, max_total=total):
            yield [terms, out, paths]
    return g


def gen_nets(n, inds):
    def g():
        paths = [[list(s) for s in p] for p in oracle.all_paths(n)]
        for terms in enum.networks(n, inds):
            for out in enum.subsets(enum.letters_of(terms)):
                yield [terms, out, paths]
    return g


def spaces(tier):
    q = tier == "quick"
    return [
        ("two", gen(2, 3, 5), run),
        ("three", gen(3, 3, 4 if q else 5), run),
        ("four-nets", gen_nets(4, 1 if q else 3), run),
    ]
