"""C19: index symbols are unique, fresh and faithfully translated."""

import itertools
import string

import numpy as np

import opt_einsum as oe
from opt_einsum import parser

from mc import enum, oracle, util
from mc.core import Violation

ID = "C19"
TECHNIQUE = "complete enumeration of the symbol range (every integer position, every Unicode code point) and of all equation patterns up to a length over mixed alphabets, on the real functions"
BOUNDS = {
    "quick": "every position 0..1112063 (distinctness over the whole range, validity per block), every code point for character validity, a contraction using every symbol; "
    "all sets of used symbols out of 10 x every count <=60; all equations of length <=6 over {a, Z, e-acute, CJK, comma, arrow, dot} for both translations and all pairs of them for canonical forms; contractions with 1..120 distinct indices",
    "thorough": "equations of length <=7, contractions with up to 400 indices",
}
ASSUMPTIONS = ["positions are non-negative and below 1112064 (the number of Unicode characters that are not surrogates)"]
TOP = 1112064
BLOCK = 4096
SURROGATES = (55156, 55295)  # positions that map into the surrogate range (recorded finding)


def run_valid(case, st):
    lo, hi = case[1], case[2]
    for i in range(lo, hi + 1):
        s = parser.get_symbol(i)
        st.states += 1
        st.transitions += 1
        if not isinstance(s, str) or len(s) != 1:
            raise Violation(f"get_symbol({i}) is {s!r}, not a single character")
        if i < 52 and s != string.ascii_letters[i]:
            raise Violation(f"get_symbol({i}) is {s!r}, expected {string.ascii_letters[i]!r}")
        if s in ",->. \t\n" or s.isspace() and i < 52:
            raise Violation(f"get_symbol({i}) is {s!r}, which has another meaning in equations")
        if 0xD800 <= ord(s) <= 0xDFFF:
            raise Violation(f"get_symbol({i}) is the surrogate {ord(s):#x}, not a character")
    st.traces += 1


def gen_valid():
    # the positions of the recorded finding are a block of their own
    edges = [0]
    while edges[-1] < TOP:
        nxt = min(edges[-1] + BLOCK, TOP)
        for b in (SURROGATES[0], SURROGATES[1] + 1):
            if edges[-1] < b < nxt:
                nxt = b
                break
        edges.append(nxt)
    for lo, hi in zip(edges, edges[1:]):
        yield ["symbol_range", lo, hi - 1]


def run_distinct(case, st):
    seen = {}
    for i in range(TOP):
        s = parser.get_symbol(i)
        if s in seen:
            raise Violation(f"get_symbol({i}) and get_symbol({seen[s]}) are both {s!r}")
        seen[s] = i
    st.states += TOP
    st.transitions += TOP
    st.traces += 1


def run_chars(case, st):
    """Which characters are plain letters (or punctuation) of numpy.einsum."""
    lo, hi = case
    for k in range(lo, hi):
        c = chr(k)
        want = c in string.ascii_letters or c in ",->."
        for got in (parser.is_valid_einsum_char(c), parser.has_valid_einsum_chars_only(c), parser.has_valid_einsum_chars_only("ab," + c)):
            if bool(got) != want:
                raise Violation(f"character {c!r} is {'rejected' if want else 'accepted'} as valid for numpy.einsum")
        st.states += 1
        st.transitions += 1
    st.traces += 1


def run_used(case, st):
    used, n = case
    got = list(parser.gen_unused_symbols(used, n))
    st.states += 1
    st.traces += 1
    st.transitions += n
    if len(got) != n or len(set(got)) != n:
        raise Violation(f"gen_unused_symbols({used!r}, {n}) gives {got}: not {n} distinct symbols")
    if set(got) & set(used):
        raise Violation(f"gen_unused_symbols({used!r}, {n}) gives the used symbol {set(got) & set(used)}")
    want = list(itertools.islice((s for s in map(parser.get_symbol, itertools.count()) if s not in used), n))
    if got != want:
        raise Violation(f"gen_unused_symbols({used!r}, {n}) gives {got}, the first unused symbols are {want}")


def gen_used():
    pool = ["a", "b", "c", "z", "A", "Z", "À", "Á", "京", "e"]
    for k in range(len(pool) + 1):
        for used in itertools.combinations(pool, k):
            for n in (0, 1, 2, 3, 26, 50, 51, 52, 53, 60):
                yield ["".join(used), n]
    for k in range(0, 120, 7):
        for n in range(0, 61, 4):
            yield ["".join(parser.get_symbol(i) for i in range(k)), n]
            yield ["".join(parser.get_symbol(i) for i in range(60, 60 + k))[::-1], n]


# --- translations -------------------------------------------------------------------------------------------------

SYMS = ["a", "Z", "é", "京"]


def equations(length, dots):
    parts = SYMS + [","] + ([".", "->"] if dots else ["->"])
    for n in range(length + 1):
        for w in itertools.product(parts, repeat=n):
            if w.count("->") <= 1:
                yield "".join(w)


def pattern(eq):
    """The equation up to renaming: punctuation, and for every index the number of its first occurrence."""
    seen = {}
    return tuple(c if c in ".,->" else seen.setdefault(c, len(seen)) for c in eq)


def check_renaming(name, eq, got, canonical):
    if len(got) != len(eq):
        raise Violation(f"{name}({eq!r}) gives {got!r} of another length")
    fwd, back = {}, {}
    for x, y in zip(eq, got):
        if x in ".,->" or y in ".,->":
            if x != y:
                raise Violation(f"{name}({eq!r}) gives {got!r}: punctuation changed")
            continue
        if fwd.setdefault(x, y) != y or back.setdefault(y, x) != x:
            raise Violation(f"{name}({eq!r}) gives {got!r}: not a renaming")
        if len(set(eq)) < 52 and y not in string.ascii_letters:
            raise Violation(f"{name}({eq!r}) gives {got!r}: {y!r} is not a letter")


def run_translate(case, st):
    first, length = case
    for rest in ([""] if length == 0 else equations(length - 1, True)):
        eq = first + rest
        if eq.count("->") > 1:
            continue
        st.states += 1
        st.transitions += 2
        got = parser.alpha_canonicalize(eq)
        check_renaming("alpha_canonicalize", eq, got, True)
        if pattern(got) != pattern(eq):
            raise Violation(f"alpha_canonicalize({eq!r}) = {got!r} has another pattern")
        # equal canonical forms exactly for equal patterns: the canonical form is a function of the pattern ...
        letters = iter("XYWV")
        tr = {}
        ren = "".join(c if c in ".,->" else tr.setdefault(c, tr.get(c) or next(letters)) for c in eq)
        if parser.alpha_canonicalize(ren) != got:
            raise Violation(f"{eq!r} and its renaming {ren!r} have canonical forms {got!r} and {parser.alpha_canonicalize(ren)!r}")
        # ... and the pattern can be read off it (idempotence)
        if parser.alpha_canonicalize(got) != got:
            raise Violation(f"alpha_canonicalize is not idempotent on {eq!r}")
        if "." not in eq:
            got = parser.convert_to_valid_einsum_chars(eq)
            check_renaming("convert_to_valid_einsum_chars", eq, got, False)
            if not parser.has_valid_einsum_chars_only(got):
                raise Violation(f"convert_to_valid_einsum_chars({eq!r}) = {got!r} still has other characters")
    st.traces += 1


def gen_translate(length):
    def g():
        yield ["", 0]
        for f in SYMS + [",", ".", "->"]:
            for n in range(1, length + 1):
                yield [f, n]
    return g


def run_many(case, st):
    """Contractions with k distinct indices drawn from position `start` on."""
    k, start = case
    sym = [parser.get_symbol(start + i) for i in range(k + 1)]
    terms = [sym[i] + sym[i + 1] for i in range(k)]
    ops = [util.data((2, 2), i) % 3 - 1 for i in range(k)]
    want = ops[0]
    for x in ops[1:]:
        want = want @ x
    eq = ",".join(terms) + "->" + sym[0] + sym[k]
    got = oe.contract(eq, *ops, optimize="greedy")
    st.states += 1
    st.transitions += 1
    st.traces += 1
    if not util.same(got, want):
        raise Violation(f"chain of {k} matrices with symbols from position {start}: wrong value")
    if k <= 40:
        # a single step with up to 41 distinct indices translated at once
        flat = [sym[i] for i in range(k)]
        vec = [np.array([1.0 + i % 3]) for i in range(k)]
        for blas in (True, False):
            got = oe.contract(",".join(flat) + "->", *vec, optimize=[tuple(range(k))], use_blas=blas) if k <= 20 else None
            if got is not None and float(np.asarray(got)) != float(np.prod([v[0] for v in vec])):
                raise Violation(f"product over {k} indices from position {start} gives {got}")
    # operand of rank with letters of mixed alphabets, transposed
    x = util.data((2, 3, 4), start)
    a, b, c = sym[0], sym[1], sym[k] if k > 1 else parser.get_symbol(start + 5)
    got = oe.contract(f"{a}{b}{c}->{c}{a}{b}", x)
    if not util.same(got, x.transpose(2, 0, 1)):
        raise Violation(f"transposition with the symbols {a!r} {b!r} {c!r} is wrong")


def gen_many(top):
    def g():
        for k in range(1, top + 1):
            for start in (0, 20, 45, 52, 55100, 55290, 200000):
                yield [k, start]
    return g


def run_use(case, st):
    """A contraction using the three symbols from every position of the block."""
    lo, hi = case
    x, y = util.data((2, 3), 1), util.data((3, 2), 2)
    want, want2 = x @ y, np.einsum("ab,ba->ab", x, y)
    for i in range(lo, hi, 3):
        a, b, c = parser.get_symbol(i), parser.get_symbol(i + 1), parser.get_symbol(i + 2)
        got = oe.contract(f"{a}{b},{b}{c}->{a}{c}", x, y, use_blas=False)
        st.states += 1
        st.transitions += 1
        if not util.same(got, want):
            raise Violation(f"matrix product with the symbols of positions {i}..{i + 2} gives {util.show(got)}")
    st.traces += 1


def gen_blocks(top, step):
    def g():
        for lo in range(0, top, step):
            yield [lo, min(lo + step, top - 3 if step % 3 == 0 else top)]
    return g


def spaces(tier):
    q = tier == "quick"
    return [
        ("symbols-valid", gen_valid, run_valid),
        ("symbols-distinct", lambda: iter([0]), run_distinct),
        ("characters", gen_blocks(0x110000, 16384), run_chars),
        ("unused", gen_used, run_used),
        ("translation", gen_translate(6 if q else 7), run_translate),
        ("many-indices", gen_many(120 if q else 400), run_many),
        ("every-symbol", gen_blocks(TOP, 12288), run_use),
    ]
