"""C09: malformed contractions are rejected, well-formed ones accepted."""

import itertools

import numpy as np

import opt_einsum as oe
from opt_einsum import paths

from mc import finders, oracle, util
from mc.core import Violation

ID = "C09"
TECHNIQUE = "exhaustive enumeration of all equation strings up to a length x operand shapes x options on the real parser, against an independent grammar and numpy.einsum"
BOUNDS = {
    "quick": "all 55,987 strings of length <=6 over the alphabet 'a b , - > .' x 50 operand lists (0-3 operands, rank 0-3, sizes 1,2,3, mismatched included), through contract, "
    "contract_path (arrays and shapes) and contract_expression; all sequences of <=7 tokens from {a, b, comma, arrow, ellipsis}; eleven equations x all dimensions over {0,1,2,3}; all strings of length <=3 between the terms of seven templates; interleaved lists of labels up to length 2 (unknown, repeated, unhashable, uncomparable labels); "
    "all listed invalid strategy names, keywords, limits, path shapes",
    "thorough": "all strings of length <=7, token sequences <=8",
}

POOL1 = [(), (2,), (3,), (2, 2), (2, 3), (2, 1), (2, 2, 2), (2, 3, 2)]
POOL2 = list(itertools.product([(), (2,), (1,), (3,), (2, 2), (2, 3)], repeat=2))
LISTS = [()] + [(s,) for s in POOL1] + POOL2 + [((), (), ()), ((2,), (2,), (2,)), ((2,), (2,), (3,)), ((2,), (1,), (2,)), ((2,), (2, 2), (2,))]


def grammar(s, shapes):
    """('invalid', why) | ('valid', terms, out) | ('summed-dots', terms, out): an independent reading of the rules."""
    if s.count("->") != s.count("-") or s.count("->") != s.count(">") or s.count("->") > 1:
        return ("invalid", "arrow")
    lhs, arrow, rhs = s.partition("->")
    terms = lhs.split(",")
    if len(terms) != len(shapes):
        return ("invalid", "number of operands")
    for t in terms + ([rhs] if arrow else []):
        if "." in t and (t.count(".") != 3 or "..." not in t):
            return ("invalid", "dots")
    if "," in rhs:
        return ("invalid", "comma in output")
    width = 0
    extra = []
    for t, sh in zip(terms, shapes):
        k = len(t.replace("...", ""))
        if "." in t:
            if k > len(sh):
                return ("invalid", "rank")
            extra.append(len(sh) - k)
            width = max(width, extra[-1])
        else:
            if k != len(sh):
                return ("invalid", "rank")
            extra.append(0)
    fresh = "UVWXYZ"[:width]
    full = [t.replace("...", fresh[width - e :] if e else "") for t, e in zip(terms, extra)]
    letters = "".join(t.replace("...", "") for t in terms)
    if arrow:
        o = rhs.replace("...", "")
        if len(set(o)) != len(o) or not set(o) <= set(letters):
            return ("invalid", "output")
        out = rhs.replace("...", fresh)
    else:
        out = fresh + "".join(c for c in sorted(set(letters)) if letters.count(c) == 1)
    sd = {}
    for t, sh in zip(full, shapes):
        for c, d in zip(t, sh):
            sd.setdefault(c, set()).add(d)
    bad = any(len(v - {1}) > 1 for v in sd.values())
    for t, sh in zip(full, shapes):
        per = {}
        for c, d in zip(t, sh):
            per.setdefault(c, set()).add(d)
        if any(len(v) > 1 and 0 in v for v in per.values()):
            return ("unspecified",)  # numpy's treatment of diagonals of unequal extents is erratic when one is 0
    if bad:
        return ("invalid", "sizes")
    for t, sh in zip(full, shapes):
        per = {}
        for c, d in zip(t, sh):
            per.setdefault(c, set()).add(d)
        if any(len(v) > 1 for v in per.values()):
            return ("gray", full, out)  # a repeated index broadcasting within one operand
    if arrow and "." not in rhs and width:
        return ("summed-dots", full, out)
    return ("valid", full, out)


def attempt(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, e


def judge(st, s, shapes, thorough=True):
    ops = [util.data(sh, k) for k, sh in enumerate(shapes)]
    g = grammar(s, shapes)
    if g[0] == "unspecified":
        st.count("unspecified")
        return
    ok, val = attempt(lambda: oe.contract(s, *ops))
    np_ok, np_val = attempt(lambda: np.einsum(s, *ops)) if ops else (False, None)
    st.transitions += 1
    st.count(g[0] if g[0] != "invalid" else "invalid: " + g[1])
    what = f"contract({s!r}, shapes {list(shapes)})"
    if np_ok and g[0] == "invalid":
        raise RuntimeError(f"oracle error: numpy accepts {what} but the grammar says {g}")
    if g[0] == "valid" and not np_ok:
        raise RuntimeError(f"oracle error: numpy rejects {what}: {np_val}")
    if np_ok:
        st.traces += 1
        if not ok:
            raise Violation(f"{what} raised {val!r}, numpy.einsum accepts it")
        if not util.same(val, np_val):
            raise Violation(f"{what} gives {util.show(val)}, numpy.einsum gives {util.show(np_val)}")
    if g[0] in ("invalid", "valid"):
        must = g[0] == "valid"
        st.traces += 1
        calls = [("contract", lambda: oe.contract(s, *ops)), ("contract_path", lambda: oe.contract_path(s, *ops)[0])]
        if thorough or must:
            calls += [
                ("contract_path shapes", lambda: oe.contract_path(s, *shapes, shapes=True)[0]),
                ("contract_expression", lambda: oe.contract_expression(s, *shapes)),
                ("contract unoptimized", lambda: oe.contract(s, *ops, optimize=False)),
                ("contract greedy", lambda: oe.contract(s, *ops, optimize="greedy")),
            ]
        for name, fn in calls:
            st.transitions += 1
            o, v = attempt(fn)
            if o and not must:
                raise Violation(f"{name}({s!r}, shapes {list(shapes)}) is accepted ({v!r:.80}) though invalid: {g[1]}")
            if not o and must:
                raise Violation(f"{name}({s!r}, shapes {list(shapes)}) raised {v!r} though valid")
            if not o and not isinstance(v, (ValueError, TypeError, KeyError, IndexError)):
                raise Violation(f"{name}({s!r}, shapes {list(shapes)}) raised {v!r}")


def run(case, st):
    s = case
    st.states += 1
    for shapes in LISTS:
        judge(st, s, shapes, thorough=len(s) <= 5 or len(shapes) == s.count(",") + 1)


def gen_strings(n):
    def gen():
        for k in range(n + 1):
            for w in itertools.product("ab,->.", repeat=k):
                yield "".join(w)
    return gen


def run_tokens(case, st):
    s = "".join(case)
    n = s.count(",") + 1
    st.states += 1
    for shapes in LISTS:
        if len(shapes) == n:
            judge(st, s, shapes)


def gen_tokens(n):
    def gen():
        for k in range(1, n + 1):
            for w in itertools.product(("a", "b", ",", "->", "..."), repeat=k):
                if w.count(",") <= 2 and w.count("->") <= 2:
                    yield list(w)
    return gen


SIZED = ["ab,ba->", "ab,b->a", "ab,bc->ac", "a,a,a->a", "aab->b", "abab->ab", "ab,ab->ab", "a...,a...->...", "...a,a->...", "...,...", "ab,bc,ca->"]


def run_sizes(case, st):
    eq, dims = case
    terms = eq.split("->")[0].split(",")
    ranks = [len(t.replace("...", "xx")) for t in terms]
    shapes, k = [], 0
    for r in ranks:
        shapes.append(tuple(dims[k : k + r]))
        k += r
    st.states += 1
    judge(st, eq, tuple(shapes))


def gen_sizes():
    for eq in SIZED:
        r = sum(len(t.replace("...", "xx")) for t in eq.split("->")[0].split(","))
        vals = (0, 1, 2, 3) if r <= 4 else (0, 1, 2) if r <= 5 else (1, 2)
        for dims in itertools.product(vals, repeat=r):
            yield [eq, list(dims)]


TEMPLATES = [
    ("ab,bc{}ac", ((2, 3), (3, 2))),
    ("ab{}bc->ac", ((2, 3), (3, 2))),
    ("a{}b,bc->ac", ((2, 3), (3, 2))),
    ("ab,bc->a{}c", ((2, 3), (3, 2))),
    ("{}ab,bc->ac", ((2, 3), (3, 2))),
    ("ab,bc->ac{}", ((2, 3), (3, 2))),
    ("...a,a...{}->...", ((2, 3), (3, 2))),
]


def run_template(case, st):
    k, w = case
    t, shapes = TEMPLATES[k]
    st.states += 1
    for sh in (shapes, (shapes[0], (3, 2, 2)), ((2, 2, 3), shapes[1]), (shapes[0], (3,)), (shapes[0], (4, 2)), shapes + ((2,),)):
        judge(st, t.format(w), sh)


def gen_template():
    for k in range(len(TEMPLATES)):
        for n in range(4):
            for w in itertools.product("abc,->.", repeat=n):
                yield [k, "".join(w)]


# --- interleaved ------------------------------------------------------------------------------------------

LABELS = [0, 1, "s", ..., [], None]


def run_inter(case, st):
    la, lb, lo = [[LABELS[k] for k in x] if x is not None else None for x in case]
    st.states += 1
    x, y = util.data((2,), 0), util.data((2,), 1)
    for args in ([x, la, y, lb], [x, la, y, lb, lo], [x, la, lo]):
        if lo is None and args[-1] is None:
            continue
        labels = [v for a in args if isinstance(a, list) for v in a]
        hashable = not any(isinstance(v, list) for v in labels)
        subs = args[1::2]
        out = args[-1] if len(args) % 2 else None
        ins = {v for a in subs for v in a if not isinstance(v, list)} if hashable else set()
        comparable = hashable and (all(isinstance(v, int) for v in ins - {...}) or len(ins - {...}) <= 1)
        rank_ok = all(len([v for v in a if v is not ...]) == 1 and a.count(...) <= 1 if ... not in a else len(a) <= 2 and a.count(...) == 1 for a in subs)
        out_ok = out is None or (hashable and all(v in ins or v is ... for v in out) and len(set(out)) == len(out))
        for name, fn in (("contract", lambda: oe.contract(*args)), ("contract_path", lambda: oe.contract_path(*args)), ("contract unoptimized", lambda: oe.contract(*args, optimize=False))):
            ok, v = attempt(fn)
            st.transitions += 1
            st.traces += 1
            if not (hashable and comparable and rank_ok and out_ok):
                if ok:
                    raise Violation(f"{name} accepts interleaved subscripts {subs} output {out}")
            elif all(isinstance(v, int) for v in ins - {...}) :
                np_ok, np_val = attempt(lambda: np.einsum(*args))
                if np_ok and not ok:
                    raise Violation(f"{name} rejects interleaved subscripts {subs} output {out}: {v!r}")
                if np_ok and name != "contract_path" and not util.same(v, np_val):
                    raise Violation(f"{name} interleaved {subs} output {out}: {util.show(v)} != {util.show(np_val)}")


def gen_inter():
    lists = [list(w) for k in range(3) for w in itertools.product(range(len(LABELS)), repeat=k)]
    for la in lists:
        for lb in lists:
            for lo in [None, [], [0], [1], [0, 1], [1, 1], [3], [3, 0], [2], [5]]:
                yield [la, lb, lo]


# --- options ----------------------------------------------------------------------------------------------


def option_cases():
    eq, sh = "ab,bc,cd->ad", [(2, 3), (3, 4), (4, 2)]
    arr = [util.data(s, k) for k, s in enumerate(sh)]
    for name in ("", "nope", "optimal ", "branch", "branch-3", "branch-0", "random-greedy-3", "greedyy", "auto_hq", "dynamic", "Optima", "true", "None"):
        yield f"optimize={name!r}", lambda name=name: oe.contract(eq, *arr, optimize=name) if name else paths.get_path_fn(name)
        yield f"path optimize={name!r}", lambda name=name: oe.contract_path(eq, *arr, optimize=name) if name else paths.get_path_fn(name)
        yield f"expression optimize={name!r}", lambda name=name: oe.contract_expression(eq, *sh, optimize=name)
    for kw in ("foo", "path", "blas", "memory", "shape", "outt"):
        yield f"contract_path({kw}=1)", lambda kw=kw: oe.contract_path(eq, *arr, **{kw: 1})
        yield f"contract({kw}=1)", lambda kw=kw: oe.contract(eq, *arr, **{kw: 1})
    for kw in ("out", "order", "dtype", "casting", "backend", "constants"):
        yield f"contract_path({kw}=1)", lambda kw=kw: oe.contract_path(eq, *arr, **{kw: 1})
    yield "expression optimize=False", lambda: oe.contract_expression(eq, *sh, optimize=False)
    yield "expression out", lambda: oe.contract_expression(eq, *sh, out=np.zeros((2, 2)))
    yield "expression backend", lambda: oe.contract_expression(eq, *sh, backend="numpy")
    yield "expression constant position out of range", lambda: oe.contract_expression(eq, *sh, constants=[3])
    yield "expression constant given as shape", lambda: oe.contract_expression(eq, *sh, constants=[0])(*arr[1:])
    for e, s in (("a->a", [(2,)]), ("ab,bc->ac", sh[:2]), (eq, sh), ("ab,b,bc,a->c", [(2, 3), (3,), (3, 4), (2,)])):
        for m in range(1, len(s) + 1):
            for which in itertools.combinations(range(len(s)), m):
                yield f"shapes=True with arrays {which} of {e}", lambda e=e, s=s, which=which: oe.contract_path(e, *[util.data(x) if k in which else x for k, x in enumerate(s)], shapes=True)
    for lim in ("max_output", "", "none", "10", "max", 0, -2, 0.5, -0.5, 0.0, [3], (3,), {}):
        yield f"memory_limit={lim!r}", lambda lim=lim: oe.contract(eq, *arr, memory_limit=lim)
        yield f"path memory_limit={lim!r}", lambda lim=lim: oe.contract_path(eq, *sh, shapes=True, memory_limit=lim)
        yield f"expression memory_limit={lim!r}", lambda lim=lim: oe.contract_expression(eq, *sh, memory_limit=lim)
    yield "no operands", lambda: oe.contract(eq)
    yield "nothing", lambda: oe.contract_path()
    yield "only a string", lambda: oe.contract("")
    # explicit paths that do not describe a contraction of these operands
    for bad in ([(0, 3)], [(0, 1), (0, 2)], [(5,)], [(0, 1), (0, 1), (0, 1)], [(-4, 0), (0, 1)]):
        yield f"optimize={bad}", lambda bad=bad: oe.contract(eq, *arr, optimize=bad)
        yield f"path optimize={bad}", lambda bad=bad: oe.contract_path(eq, *arr, optimize=bad)
    ex = oe.contract_expression(eq, *sh)
    exc = oe.contract_expression(eq, arr[0], sh[1], sh[2], constants=[0])
    for k in (0, 1, 2, 4):
        yield f"expression called with {k} arrays", lambda k=k: ex(*(arr * 2)[:k])
    for k in (0, 1, 3):
        yield f"expression with a constant called with {k} arrays", lambda k=k: exc(*(arr * 2)[:k])
    yield "expression keyword", lambda: ex(*arr, foo=1)
    yield "expression keyword optimize", lambda: ex(*arr, optimize="auto")
    for k, wrong in ((0, (2,)), (1, (3, 4, 1)), (2, ()), (1, (5, 4)), (0, (2, 7))):
        yield f"expression operand {k} of shape {wrong}", lambda k=k, wrong=wrong: ex(*[util.data(wrong) if j == k else x for j, x in enumerate(arr)])
    for cls, kw in ((oe.BranchBound, {"nbranch": 0}), (oe.BranchBound, {"nbranch": -1}), (oe.BranchBound, {"minimize": "speed"}),
                    (oe.RandomGreedy, {"minimize": "speed"}), (oe.DynamicProgramming, {"minimize": "speed"})):
        yield f"{cls.__name__}({kw})", lambda cls=cls, kw=kw: oe.contract_path(eq, *arr, optimize=cls(**kw))
    yield "operand without a shape", lambda: oe.contract("a,a->", arr[0][0], object())
    yield "set as operand", lambda: oe.contract("a->a", {1, 2})
    yield "backend without functions", lambda: oe.contract(eq, *arr, backend="json")
    yield "unknown backend", lambda: oe.contract(eq, *arr, backend="no_such_library")


def run_option(case, st):
    fns = dict(option_cases())
    st.states += 1
    st.transitions += 1
    st.traces += 1
    ok, v = attempt(fns[case])
    if ok:
        raise Violation(f"{case}: accepted, returned {v!r:.100}")


def gen_options():
    for name, _ in option_cases():
        yield name


def spaces(tier):
    q = tier == "quick"
    return [
        ("strings", gen_strings(6 if q else 7), run),
        ("tokens", gen_tokens(7 if q else 8), run_tokens),
        ("sizes", gen_sizes, run_sizes),
        ("templates", gen_template, run_template),
        ("interleaved", gen_inter, run_inter),
        ("options", gen_options, run_option),
    ]
