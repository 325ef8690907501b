"""Shared helpers for the property modules (test data, comparisons)."""

import functools
import itertools
import random

import numpy as np

from mc import oracle


_POOL = [v for v in range(-11, 16) if v]


@functools.lru_cache(None)
def _values(n, salt):
    """n small non-zero integers; all different for n <= 26, in an order that depends on the salt."""
    rng = random.Random(7919 * salt + 13)
    vals = []
    while len(vals) < n:
        vals += rng.sample(_POOL, len(_POOL))
    return tuple(vals[:n])


def data(shape, salt=0, dtype=float):
    """Deterministic generic data: exactly representable small integers, all different in small arrays, no zeros."""
    return np.array(_values(int(oracle.prod(shape)), salt), dtype=np.int64).reshape(shape).astype(dtype)


def arrays(terms, sd, dtype=float, ones=(), salt=0):
    """Operands for terms; `ones` is a set of (operand, axis) made 1 for broadcasting."""
    out = []
    for k, t in enumerate(terms):
        shp = tuple(1 if (k, ax) in ones else sd[c] for ax, c in enumerate(t))
        out.append(data(shp, salt * 31 + k, dtype))
    return out


def eq(terms, out):
    return ",".join(terms) + "->" + out


SIZES = (2, 3, 4, 2, 3, 2, 2, 3, 2, 2, 2, 2)


def sizes(letters, pattern="mix"):
    if pattern == "mix":
        return {c: SIZES[k % len(SIZES)] for k, c in enumerate(letters)}
    if pattern == "rev":
        return {c: (5, 2, 3, 3, 2, 2, 3, 2)[k % 8] for k, c in enumerate(letters)}
    if pattern == "two":
        return {c: 2 for c in letters}
    if pattern == "one":
        return {c: 1 for c in letters}
    if pattern == "first1":
        return {c: (1 if k == 0 else 2 + k % 2) for k, c in enumerate(letters)}
    if pattern == "last1":
        return {c: (1 if k == len(letters) - 1 else 2 + k % 2) for k, c in enumerate(letters)}
    if pattern == "zero":
        return {c: (0 if k == 0 else 2) for k, c in enumerate(letters)}
    if pattern == "zlast":
        return {c: (0 if k == len(letters) - 1 else 2 + k % 2) for k, c in enumerate(letters)}
    if pattern.startswith("wide:"):  # large extents for the letters at the given positions
        big = [int(x) for x in pattern[5:]]
        return {c: (67, 131, 72, 80)[(k + len(big)) % 4] if k in big else SIZES[k % len(SIZES)] for k, c in enumerate(letters)}
    if pattern == "huge":  # beyond what a float can hold
        return {c: 10 ** (150 + 40 * (k % 4)) + k for k, c in enumerate(letters)}
    raise ValueError(pattern)


def wide(letters, top=2):
    """The patterns that make up to `top` of the letters large."""
    for r in range(1, top + 1):
        for sub in itertools.combinations(range(len(letters)), r):
            yield "wide:" + "".join(map(str, sub))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool((a == b).all())


def show(x):
    x = np.asarray(x)
    return f"shape={x.shape} {x.ravel()[:8].tolist()}"


def fold_einsum(terms, out, ops):
    """Reference value for large networks: left-to-right pairwise folding using the defining sum."""
    terms = list(terms)
    cur_t, cur = terms[0], ops[0]
    for k in range(1, len(terms)):
        keep = set(out).union(*terms[k + 1 :]) if k + 1 < len(terms) else set(out)
        res = "".join(c for c in sorted(set(cur_t) | set(terms[k])) if c in keep)
        cur = oracle.einsum([cur_t, terms[k]], res, [cur, ops[k]])
        cur_t = res
    return oracle.einsum([cur_t], out, [cur])


def powerset(xs, max_len=None):
    xs = list(xs)
    for k in range((len(xs) if max_len is None else min(max_len, len(xs))) + 1):
        yield from itertools.combinations(xs, k)
