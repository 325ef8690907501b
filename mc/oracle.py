"""Independent reference semantics: nothing here imports opt_einsum."""

import functools
import itertools
import math

import numpy as np


def sizes_of(terms, shapes):
    """Broadcast-aware size of each index (a dimension of 1 stretches)."""
    d = {}
    for t, s in zip(terms, shapes):
        for c, n in zip(t, s):
            if c not in d or d[c] == 1:
                d[c] = n
    return d


def einsum(terms, out, arrays):
    """The definition: product of all operands over the full index space, summed over non-output indices."""
    shapes = [a.shape for a in arrays]
    sd = sizes_of(terms, shapes)
    idx = list(out) + sorted(c for c in sd if c not in out)
    pos = {c: k for k, c in enumerate(idx)}
    full = None
    for t, a in zip(terms, arrays):
        # take diagonals for repeated indices
        seen = {}
        for ax, c in enumerate(t):
            seen.setdefault(c, []).append(ax)
        letters = sorted(seen, key=pos.__getitem__)
        grids = []
        for c in t:
            n = max(a.shape[ax] for ax in seen[c]) if min(a.shape[ax] for ax in seen[c]) > 0 else 0
            grids.append((c, n))
        if t:
            ext = {c: n for c, n in grids}
            mesh = np.indices([ext[c] for c in letters]) if letters else None
            sel = []
            for ax, c in enumerate(t):
                g = mesh[letters.index(c)]
                if a.shape[ax] == 1:
                    g = np.zeros_like(g)
                sel.append(g)
            b = a[tuple(sel)]
            shp = [1] * len(idx)
            for c in letters:
                shp[pos[c]] = ext[c]
            b = b.reshape(shp)
        else:
            b = a.reshape((1,) * len(idx)) if idx else a
        full = b if full is None else full * b
    target = tuple(sd[c] for c in idx)
    if not idx:
        return np.asarray(full)
    full = np.broadcast_to(full, target)
    axes = tuple(range(len(out), len(idx)))
    if not axes:
        return np.array(full)
    return full.sum(axis=axes, dtype=full.dtype if full.dtype != object else None)


def prod(xs):
    return functools.reduce(lambda a, b: a * b, xs, 1)


def size(inds, sd):
    return prod(sd[c] for c in inds)


# --- contraction game: the explicit-state model used as an oracle for path search -------------------


def contract_pair(state, out, i, j):
    """One move of the game: returns (result indices, all indices, summed indices shared by both)."""
    k1, k2 = state[i], state[j]
    keep = set(out)
    for k, s in enumerate(state):
        if k != i and k != j:
            keep |= s
    either = k1 | k2
    return frozenset(either & keep), either, (k1 & k2) - keep


def step(inputs, out, inds):
    """Contract the terms at positions `inds`: (involved, result, remaining list with the result appended)."""
    chosen = [inputs[p] for p in inds]
    rest = [t for p, t in enumerate(inputs) if p not in set(inds)]
    involved = frozenset().union(*chosen)
    keep = frozenset(out).union(*rest)
    res = involved & keep
    return involved, res, rest + [res]


def path_costs(path, inputs, out, sd):
    """Per step (flops, result size, scaling) by the documented flop definition.

    flops = (number of index points) * (number of multiplications + 1 if an index is summed)
    """
    cur = [frozenset(t) for t in inputs]
    flops, sizes, scal, results = [], [], [], []
    for p in path:
        involved, res, cur = step(cur, out, p)
        fac = max(1, len(p) - 1) + (1 if involved - res else 0)
        flops.append(fac * size(involved, sd))
        sizes.append(size(res, sd))
        scal.append(len(involved))
        results.append(res)
    return flops, sizes, scal, results


def check_path(path, n):
    """None if path is a complete valid linear path for n terms, else a message."""
    if not isinstance(path, (list, tuple)):
        return f"path is a {type(path).__name__}"
    left = n
    for k, p in enumerate(path):
        if not isinstance(p, tuple):
            return f"step {k} is a {type(p).__name__}, not a tuple"
        if len(p) == 0:
            return f"step {k} is empty"
        for x in p:
            if not isinstance(x, int) or isinstance(x, bool):
                return f"step {k} has a non-int position {x!r}"
            if not 0 <= x < left:
                return f"step {k}={p}: position {x} out of range for {left} remaining terms"
        if len(set(p)) != len(p):
            return f"step {k}={p} repeats a position"
        left += 1 - len(p)
    if left != 1:
        return f"{left} terms left after the last step"
    return None


def all_paths(n):
    """Every linear path with steps of any arity >= 2 (as position combinations), complete for n terms."""
    if n == 1:
        yield []
        return
    for k in range(2, n + 1):
        for c in itertools.combinations(range(n), k):
            for rest in all_paths(n - k + 1):
                yield [c] + rest


def min_flops(inputs, out, sd, pair_ok=None, stats=None, objective="flops"):
    """Minimum total flops over all sequences of pairwise contractions (explicit-state search, memoised).

    A state of the game is the multiset of index sets still to be contracted.
    """
    out = frozenset(out)
    memo = {}

    def go(state):
        if len(state) == 1:
            return 0
        if state in memo:
            return memo[state]
        best = math.inf
        moves = list(itertools.combinations(range(len(state)), 2))
        if pair_ok is not None:
            ok = [m for m in moves if pair_ok(state[m[0]], state[m[1]])]
            moves = ok or moves
        done = set()
        for i, j in moves:
            key = (state[i], state[j])
            if key in done:
                continue
            done.add(key)
            k12, either, inner = contract_pair(state, out, i, j)
            rest = [s for k, s in enumerate(state) if k != i and k != j]
            nxt = tuple(sorted(rest + [k12], key=sorted))
            c = size(either, sd) * (2 if inner else 1)
            if stats is not None:
                stats.transitions += 1
            t = c + go(nxt)
            if t < best:
                best = t
        memo[state] = best
        if stats is not None:
            stats.states += 1
        return best

    return go(tuple(sorted((frozenset(t) for t in inputs), key=sorted)))
