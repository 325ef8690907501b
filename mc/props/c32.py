"""C32: generated test contractions are what was asked for, whatever the random choices."""

import itertools

import numpy as np

import opt_einsum as oe
from opt_einsum import testing

from mc import enum, oracle, util
from mc.core import Violation

ID = "C32"
TECHNIQUE = "stateless model checking: numpy's random draws are replaced by a controlled chooser and every sequence of draws is explored (depth-first, redraws bounded) on the real generator; plus complete enumeration of shape-building strings"
BOUNDS = {
    "quick": "rand_equation: every outcome of every draw for n 2-4, regularity 1-3, 0-2 outputs with at most 6 index placements, extents out of {d_min..d_max} with 1-2 values, with and without a global dimension, at most one redraw per run; "
    "the real generator for 3,000 argument and seed combinations (same seed, same contraction; every one contracted by 3 strategies); build_shapes/build_views: all strings of <=3 terms of rank <=2 over 3 labels with and without dots and outputs",
    "thorough": "up to 7 index placements, two redraws, 9,000 argument and seed combinations",
}
ASSUMPTIONS = ["two or more tensors if there are bonds, and at least as many placements as tensors (otherwise no such contraction exists)"]


class Cut(BaseException):
    pass


class Chooser:
    """Replays a prefix of decisions, then takes the first alternative; remembers the arity of each."""

    def __init__(self, prefix, redraws):
        self.prefix = prefix
        self.trace = []
        self.redraws = redraws

    def pick(self, n):
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((c, n))
        return c


class FakeRandom:
    """Stands for numpy.random inside the generator."""

    def __init__(self, chooser, n, budget):
        self.c, self.n, self.budget = chooser, n, budget

    def seed(self, s=None):
        pass

    def randint(self, low, high=None, size=None, dtype=int):
        if size is not None:
            raise Cut("unsupported draw")
        if high is None:
            low, high = 0, low
        if low >= high:
            raise ValueError("low >= high")
        self.budget -= 1
        if self.budget < 0:
            raise Cut
        return low + self.c.pick(high - low)

    def permutation(self, x):
        rest = list(range(x)) if isinstance(x, int) else list(x)
        out = []
        while rest:
            # equal items are interchangeable
            distinct = [k for k, v in enumerate(rest) if v not in rest[:k]]
            out.append(rest.pop(distinct[self.c.pick(len(distinct))] if len(distinct) > 1 else 0))
        return np.array(out) if out else np.array([])

    def __getattr__(self, name):
        raise Cut(f"unsupported draw {name}")


def examine(ret, n, reg, n_out, dmin, dmax, glob, with_sizes):
    if len(ret) != (3 if with_sizes else 2):
        raise Violation(f"{len(ret)} values returned")
    eq, shapes = ret[:2]
    if eq.count("->") != 1:
        raise Violation(f"equation {eq!r}")
    lhs, out = eq.split("->")
    terms = lhs.split(",")
    if len(terms) != n or len(shapes) != n:
        raise Violation(f"{eq!r}: {len(terms)} terms, {len(shapes)} shapes, {n} wanted")
    sd = {}
    for t, s in zip(terms, shapes):
        if len(t) != len(s):
            raise Violation(f"{eq!r}: term {t!r} has shape {s}")
        for c, d in zip(t, s):
            if sd.setdefault(c, d) != d:
                raise Violation(f"{eq!r}: label {c} has sizes {sd[c]} and {d}")
    if with_sizes and {k: int(v) for k, v in ret[2].items()} != {k: int(v) for k, v in sd.items()}:
        raise Violation(f"{eq!r}: shapes {shapes} but sizes {ret[2]}")
    if any(not dmin <= d <= dmax for d in sd.values()):
        raise Violation(f"{eq!r}: sizes {sd} outside of {dmin}..{dmax}")
    if any(not t for t in terms):
        raise Violation(f"{eq!r}: a tensor without index")
    if any(len(set(t)) != len(t) for t in terms):
        raise Violation(f"{eq!r}: trace on one tensor")
    if len(set(out)) != len(out) or len(out) != n_out + bool(glob):
        raise Violation(f"{eq!r}: {n_out} outputs wanted{' plus a global one' if glob else ''}")
    on = {c: sum(c in t for t in terms) for c in sd}
    if set(out) - set(on):
        raise Violation(f"{eq!r}: unknown output")
    kept = sorted(on[c] for c in out)
    if kept != sorted([1] * n_out + ([n] if glob else [])):
        raise Violation(f"{eq!r}: outputs are on {kept} tensors")
    bonds = [on[c] for c in on if c not in out]
    if bonds != [2] * (n * reg // 2):
        raise Violation(f"{eq!r}: bonds join {bonds} tensors, {n * reg // 2} bonds wanted")
    return terms, out, sd


def run_choices(case, st):
    n, reg, n_out, dmin, dmax, glob, redraws = case
    inds = n * reg // 2 + n_out
    places = 2 * (n * reg // 2) + n_out
    budget = inds + max(0, places - n) + bool(glob) + redraws
    stack = [()]
    real = np.random
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix, redraws)
        np.random = FakeRandom(ch, n, budget)
        try:
            ret = testing.rand_equation(n, reg, n_out=n_out, d_min=dmin, d_max=dmax, seed=None, global_dim=glob, return_size_dict=True)
        except Cut:
            ret = None
            st.count("runs cut at the redraw bound")
        finally:
            np.random = real
        st.states += len(ch.trace) - len(prefix) + 1
        st.transitions += 1
        for k in range(len(prefix), len(ch.trace)):
            c, m = ch.trace[k]
            stack.extend(tuple(x for x, _ in ch.trace[:k]) + (a,) for a in range(1, m))
        if ret is None:
            continue
        st.traces += 1
        try:
            examine(ret, n, reg, n_out, dmin, dmax, glob, True)
        except Violation as e:
            raise Violation(f"rand_equation{(n, reg, n_out, dmin, dmax)} global_dim={glob}, draws {[c for c, _ in ch.trace]}: {e}")


def gen_choices(maxplaces, redraws):
    def gen():
        for n in range(2, 5):
            for reg in (1, 2, 3):
                for n_out in range(3):
                    places = 2 * (n * reg // 2) + n_out
                    if not n <= places <= maxplaces:
                        continue
                    for dmin, dmax in ((2, 2), (3, 4)):
                        if dmax > dmin and places > 4:
                            continue
                        for glob in (False, True):
                            yield [n, reg, n_out, dmin, dmax, glob, redraws]
    return gen


def run_real(case, st):
    n, reg, n_out, dmin, dmax, glob, seed = case
    st.states += 1
    a = testing.rand_equation(n, reg, n_out=n_out, d_min=dmin, d_max=dmax, seed=seed, global_dim=glob, return_size_dict=True)
    np.random.rand(3)
    b = testing.rand_equation(n, reg, n_out=n_out, d_min=dmin, d_max=dmax, seed=seed, global_dim=glob)
    st.transitions += 2
    terms, out, sd = examine(a, n, reg, n_out, dmin, dmax, glob, True)
    examine(b, n, reg, n_out, dmin, dmax, glob, False)
    if a[0] != b[0] or [tuple(x) for x in a[1]] != [tuple(x) for x in b[1]]:
        raise Violation(f"seed {seed} gave {a[:2]} and then {b}")
    views = testing.build_arrays_from_tuples(a[1])
    if [v.shape for v in views] != [tuple(s) for s in a[1]]:
        raise Violation(f"arrays for {a[1]} have shapes {[v.shape for v in views]}")
    if oracle.size(sd, sd) <= 50000:
        ops = [util.data(tuple(int(x) for x in s), k) for k, s in enumerate(a[1])]
        want = None
        for opt in ("greedy", "optimal", "dp"):
            v = oe.contract(a[0], *ops, optimize=opt)
            st.traces += 1
            want = v if want is None else want
            if not np.allclose(v, want):
                raise Violation(f"{a[0]} with {opt}: values differ")


def gen_real(seeds):
    def gen():
        for n in (2, 3, 4, 5):
            for reg in (1, 2, 3, 4):
                for n_out in (0, 1, 3):
                    if 2 * (n * reg // 2) + n_out < n:
                        continue
                    for dmin, dmax in ((2, 3), (1, 1), (2, 9)):
                        for glob in (False, True):
                            for seed in range(seeds):
                                yield [n, reg, n_out, dmin, dmax, glob, seed]
    return gen


def run_build(case, st):
    terms, out, sd = case
    st.states += 1
    s = ",".join(terms) + ("" if out is None else "->" + out)
    dots = "..." in s
    if dots:
        for fn in (testing.build_shapes, testing.build_views):
            try:
                r = fn(s, sd)
            except ValueError:
                st.traces += 1
            else:
                raise Violation(f"{fn.__name__}({s!r}) without replace_ellipsis gives {r!r:.100}")
    full = dict(testing._default_dim_dict)
    if sd is not None:
        if dots:
            full.update(sd)
            sd = full
        else:
            full = sd
    st.transitions += 2
    shapes = testing.build_shapes(s, sd, replace_ellipsis=dots)
    asked = []
    views = testing.build_views(s, sd, array_function=lambda *d: asked.append(d) or np.ones(d), replace_ellipsis=dots)
    ranks = [len(t.replace("...", "xyz")) for t in terms]
    if [len(x) for x in shapes] != ranks:
        raise Violation(f"build_shapes({s!r}) = {shapes}")
    seen = {}
    for t, sh in zip(terms, shapes):
        for c, d in zip(t.replace("...", "xyz"), sh):
            if c in "abc" and d != full[c] or seen.setdefault(c, d) != d:
                raise Violation(f"build_shapes({s!r}, {sd}) = {shapes}")
    if [np.shape(v) for v in views] != [tuple(x) for x in shapes] or asked != [tuple(x) for x in shapes if x]:
        raise Violation(f"build_views({s!r}) has shapes {[np.shape(v) for v in views]}, asked for {asked}, not {shapes}")
    default = testing.build_views(s, sd, replace_ellipsis=dots)
    if [np.shape(v) for v in default] != [tuple(x) for x in shapes]:
        raise Violation(f"build_views({s!r}) has shapes {[np.shape(v) for v in default]}, not {shapes}")
    st.traces += 3


def gen_build():
    pool = ["", "a", "b", "ab", "ba", "aa", "abc", "...", "a...", "...b", "a...b"]
    for m in (1, 2, 3):
        for terms in itertools.product(pool, repeat=m):
            for out in (None, "", "a", "..."):
                for sd in (None, {"a": 2, "b": 3, "c": 1}):
                    yield [list(terms), out, sd]


def spaces(tier):
    q = tier == "quick"
    return [
        ("choices", gen_choices(6 if q else 7, 1 if q else 2), run_choices),
        ("seeds", gen_real(13 if q else 39), run_real),
        ("build", gen_build, run_build),
    ]
