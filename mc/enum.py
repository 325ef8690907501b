"""Complete enumerations of bounded input spaces."""

import itertools

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def rgs(length, max_letters=None):
    """Restricted growth strings: every word of `length` letters up to renaming, exactly once."""
    if length == 0:
        yield ()
        return

    def go(prefix, m):
        if len(prefix) == length:
            yield tuple(prefix)
            return
        top = m + 1 if max_letters is None else min(m + 1, max_letters)
        for x in range(top):
            prefix.append(x)
            yield from go(prefix, max(m, x + 1))
            prefix.pop()

    yield from go([], 0)


def ordered_subsets(letters):
    for k in range(len(letters) + 1):
        yield from ("".join(p) for p in itertools.permutations(letters, k))


def subsets(letters):
    for k in range(len(letters) + 1):
        yield from ("".join(p) for p in itertools.combinations(letters, k))


def some_orders(letters):
    """Every subset, in increasing and (if different) in decreasing order."""
    for s in subsets(letters):
        yield s
        if len(s) > 1:
            yield s[::-1]


def inputs(n, max_rank, max_total=None, max_letters=None, repeats=True, sorted_ranks=False, min_total=0):
    """All tuples of n index terms up to renaming of indices."""
    for ranks in itertools.product(range(max_rank + 1), repeat=n):
        if sorted_ranks and list(ranks) != sorted(ranks):
            continue
        tot = sum(ranks)
        if (max_total is not None and tot > max_total) or tot < min_total:
            continue
        for word in rgs(tot, max_letters):
            terms, k = [], 0
            for r in ranks:
                terms.append("".join(LETTERS[x] for x in word[k : k + r]))
                k += r
            if not repeats and any(len(set(t)) != len(t) for t in terms):
                continue
            yield terms


def letters_of(terms):
    return "".join(sorted(set("".join(terms))))


def equations(n, max_rank, outs=ordered_subsets, max_letters=None, **kw):
    for terms in inputs(n, max_rank, max_letters=max_letters, **kw):
        for out in outs(letters_of(terms)):
            yield terms, out


def networks(n, max_inds, max_rank=None, min_deg=1, allow_empty=True):
    """All tensor networks as index -> set of tensors incidence structures (index sets without repetition).

    Tensors are ordered; indices are unlabelled, so a network is a multiset of non-empty subsets
    of the tensors.  Yields a list of strings (terms with sorted letters).
    """
    subs = [s for s in range(1, 2**n) if bin(s).count("1") >= min_deg]
    for m in range(0, max_inds + 1):
        for combo in itertools.combinations_with_replacement(subs, m):
            terms = ["" for _ in range(n)]
            for c, s in zip(LETTERS, combo):
                for t in range(n):
                    if s >> t & 1:
                        terms[t] += c
            if max_rank is not None and any(len(t) > max_rank for t in terms):
                continue
            if not allow_empty and any(not t for t in terms):
                continue
            yield terms


def structured(n):
    """Named large families of size n: (name, terms, output)."""
    from_i = _symbols()

    def sym(i):
        return from_i[i]

    chain = [sym(i) + sym(i + 1) for i in range(n)]
    yield "chain", chain, sym(0) + sym(n)
    yield "chain-scalar", [sym(0) + sym(1)] + [sym(i) + sym(i + 1) for i in range(1, n - 1)] + [sym(n - 1) + sym(0)], ""
    yield "star", ["".join(sym(i) for i in range(n - 1))] + [sym(i) for i in range(n - 1)], ""
    yield "hyper", [sym(0)] * n, ""
    yield "hadamard", [sym(0)] * n, sym(0)
    yield "batch-chain", [sym(n + 1) + sym(i) + sym(i + 1) for i in range(n)], sym(n + 1) + sym(0) + sym(n)
    yield "outer", [sym(i) for i in range(n)], "".join(sym(i) for i in range(min(n, 3)))
    yield "scalars", ["" for _ in range(n)], ""
    yield "mps-norm", [
        t
        for i in range(n // 2)
        for t in (
            sym(3 * i) + sym(3 * i + 1) + sym(3 * i + 3),
            sym(3 * i + 2) + sym(3 * i + 1) + sym(3 * i + 5),
        )
    ] + ([sym(3 * (n // 2)) + sym(3 * (n // 2) + 2)] if n % 2 else []), ""
    yield "two-components", [sym(i) + sym(i + 1) for i in range(n // 2)] + [
        sym(50 + i) + sym(51 + i) for i in range(n - n // 2)
    ], ""


def _symbols():
    base = list(LETTERS) + [chr(c) for c in range(192, 600)]
    return base


# Alphabets for renamed equations: outside of the letters numpy accepts, mixed, in an order that is not alphabetical, beyond the basic plane.
ALPHABETS = [
    [chr(0x4E00 + k) for k in range(60)],
    ["z", "Z", chr(0xC0), "y", chr(0x1F600), "Y", chr(0x3B1), "x", chr(0xC1), "a", "A", "m"],
    [chr(0x1F600 + k) for k in range(60)],
    ["Z", "z", "A", "a", "Y", "y", "B", "b", "M", "m", "C", "c"],
]


def renamed(terms, out, alphabet):
    m = dict(zip(letters_of(terms), alphabet))
    return ["".join(m[c] for c in t) for t in terms], "".join(m[c] for c in out)


def relabel(gen, alphabets=(0, 1, 2, 3), at=0):
    """The cases of a generator with the equation (at position `at`) written in other alphabets."""
    def g():
        for case in gen():
            for a in alphabets:
                new = list(case)
                new[at], new[at + 1] = renamed(case[at], case[at + 1], ALPHABETS[a])
                yield new
    return g


HYPER = [
    ["x", "xa", "xy", "a", "ay"],
    ["xa", "xb", "xc", "ad", "d", "bc"],
    ["xa", "xb", "xc", "ad", "be", "cf", "def"],
    ["xa", "xb", "xyc", "yd", "ye", "abcde"],
    ["xya", "xb", "yc", "xyd", "bd", "ac"],
    ["xa", "xb", "x", "cd", "ce", "de"],
    ["xab", "xcd", "xac", "bd", "e", "ef", "f"],
]


def hyper(top=7, patterns=("mix", "rev", "two"), scope=lambda terms, out: True):
    """Indices on three or more tensors next to pairs that do not have them, every output."""

    def gen():
        for terms in HYPER:
            if len(terms) <= top:
                for out in subsets(letters_of(terms)):
                    if scope(terms, out):
                        for pat in patterns:
                            yield [terms, out, pat]

    return gen
