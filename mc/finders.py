"""Path finders under their public names, with documented call signature fn(inputs, output, size_dict, memory_limit)."""

import opt_einsum as oe
from opt_einsum import paths

NAMES = ["optimal", "branch-all", "branch-2", "branch-1", "greedy", "dp", "auto", "auto-hq"]


def by_name(name, inputs, output, sd, limit=None):
    return paths.get_path_fn(name)(inputs, output, sd, limit)


def isets(terms):
    return [frozenset(t) for t in terms]


def no_dp_path(e, limit):
    """The documented refusal of dynamic programming."""
    return isinstance(e, RuntimeError) and limit not in (None, -1) and "memory_limit" in str(e)


def optimizers():
    return {
        "BranchBound()": lambda: oe.BranchBound(),
        "BranchBound(nbranch=1)": lambda: oe.BranchBound(nbranch=1),
        "BranchBound(nbranch=3,minimize=size)": lambda: oe.BranchBound(nbranch=3, minimize="size"),
        "BranchBound(cutoff=None)": lambda: oe.BranchBound(cutoff_flops_factor=None),
        "BranchBound(cutoff=1)": lambda: oe.BranchBound(cutoff_flops_factor=1),
        "DP()": lambda: oe.DynamicProgramming(),
        "DP(size)": lambda: oe.DynamicProgramming(minimize="size"),
        "DP(write)": lambda: oe.DynamicProgramming(minimize="write"),
        "DP(combo)": lambda: oe.DynamicProgramming(minimize="combo"),
        "DP(limit-2)": lambda: oe.DynamicProgramming(minimize="limit-2"),
        "DP(nocap,outer)": lambda: oe.DynamicProgramming(cost_cap=False, search_outer=True),
        "DP(cap5)": lambda: oe.DynamicProgramming(cost_cap=5),
    }
