"""Writes known_findings.json (committed; the checks only read it)."""
import json
import os

RG = "ignores memory_limit and forms an intermediate larger than the limit: "
FIND = [
    dict(property="C06", status="open", space="random-strategies",
         case=[["ab", "bc", "cd"], "ad", {"a": 9, "b": 2, "c": 9, "d": 2}, opt, 1],
         what=f"{opt} " + RG + "ab,bc,cd->ad with sizes a=9 b=2 c=9 d=2, memory_limit=1 (the random searches do not implement the limit)")
    for opt in ("random-greedy", "random-greedy-128")
] + [
    dict(property="C19", status="open", space="symbols-valid", case=["symbol_range", 55156, 55295],
         what="get_symbol(55156..55295) returns lone surrogates, which are not characters (an existing test pins get_symbol(55295), so it is not repaired)")
]
FIXED = [
    ("C02", "8cbd277", "an explicit path that does not contract all operands silently returned one of the operands"),
    ("C15", "f1b81a8", "a 0-d `out` array was rejected when the last step was a tensordot"),
    ("C15", "97539f7", "einsum options (order, dtype, casting) crashed contractions whose steps go to tensordot"),
    ("C13", "4e425f3", "einsum options and `out` were dropped inside shared_intermediates"),
    ("C14", "5c6ed06", "get_sharing_cache outside of a context left the thread marked as sharing"),
    ("C21", "16c4538", "register_path_fn with a name differing in case silently replaced an existing strategy"),
    ("C16", "f802458", "parallel random optimizers skipped trials after pre_dispatch jobs had been submitted"),
    ("C22", "4a39e4a", "BranchBound(cutoff_flops_factor=None), as documented, raised TypeError"),
    ("C04", "7c14ee0", "optimal and branch reused stale pair results: a,a,ab->b got a path that is not optimal"),
    ("C05", "705886e", "dp never terminated for combo/limit objectives with a memory limit nothing fits, and for cost_cap=0"),
    ("C05", "7926c38", "dp raised RuntimeError on disconnected contractions with a dimension of size zero"),
    ("C17", "2610229", "a reused BranchBound returned a path that ignored the new memory_limit"),
    ("C12", "d12b42a", "two threads making the first call of an expression with constants could fail or compute a wrong value"),
    ("C13", "70c7302", "arrays converted while sharing could be mistaken for a deleted array (tensorflow wrong result)"),
    ("C06", "a3f8296", "dp exceeded memory_limit when combining disconnected parts"),
    ("C10", "6732133", "optimize=False ignored backend= and mangled some equations"),
    ("C01", "6e55db1", "wrong shape recorded when a dimension of size 1 met one of size 0, so that contracting failed"),
    ("C08", "02cd5f6", "empty lists and lists of arrays were rejected as operands"),
    ("C08", "3031f94", "an ellipsis on an operand whose shape is given as [] was expanded wrongly"),
    ("C09", "ff5b0f2", "an output with two ellipses was accepted when they cover no dimension"),
    ("C08", "5739a88", "implicit output of interleaved input with more than 26 labels had the wrong index order"),
    ("C15", "d2258f7", "torch contractions ignored `out` (returning it unfilled) or raised for a 0-d one"),
    ("C17", "bc9ea45", "a reused optimizer did not notice that the contraction was changed in place"),
    ("C18", "8378328", "random greedy trials with the same number gave different paths depending on the hash order of the labels"),
    ("C25", "e5cf8bb", "object arrays with broadcast dimensions gave wrong results or failed"),
    ("C30", "be211c4", "an expression with constants first called inside jax.jit kept tracers, so that every later use failed"),
    ("C30", "80891a3", "the backend's eager-mode detection was fixed by whether the first use was inside a tf.function, so that later eager calls failed or returned graph tensors"),
    ("C30", "9b3cc5d", "an expression with constants first called inside a tf.function kept its graph's tensors, so that later uses failed"),
    ("C33", "bf82afd", "an expression first called in a sharing context with one array for two operands (tensorflow graph mode, theano) gave wrong results in later calls"),
    ("C03", "c2ea4d9", "random-greedy failed for contractions with sizes beyond the range of floats (OverflowError)"),
    ("C03", "8f99fe0", "dynamic programming with a custom objective or factor failed when the product of all dimensions is beyond the range of floats (OverflowError), e.g. a chain of 110 matrices of size 1024"),
]


def main():
    for p, c, w in FIXED:
        FIND.append(dict(property=p, status="fixed", commit=c, what=w, line=f"fixed: property={p} {c} {w}"))
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "known_findings.json"), "w") as fh:
        json.dump({"findings": FIND}, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
