From f1b81a8fc9b875ccc4a8a2f77f5cc8ad7510ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 01/31] fix: allow 0-d `out` arrays when the last contraction
 is a tensordot

---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 9ea929f..6e52cb3 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -692,7 +692,7 @@ def _core_contract(
                 new_view = _transpose(new_view, axes=transpose, backend=backend)
 
                 if handle_out:
-                    out[:] = new_view  # type: ignore
+                    out[()] = new_view  # type: ignore
 
         else:
             # Call einsum
-- 
2.43.0


From 97539f727f83041874114cc60f4cd4e51fa9bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 02/31] fix: einsum kwargs (order, dtype, casting) crashed
 contractions routed to tensordot

---
 opt_einsum/contract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 6e52cb3..c1f1611 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -644,6 +644,7 @@ def _core_contract(
 
     operands = list(operands_)
     backend = parse_backend(operands, backend)
+    kwargs = _filter_einsum_defaults(kwargs)  # type: ignore
 
     # try and do as much as possible without einsum if not available
     no_einsum = not backends.has_einsum(backend)
@@ -662,8 +663,8 @@ def _core_contract(
         # Do we need to deal with the output?
         handle_out = specified_out and ((num + 1) == len(contraction_list))
 
-        # Call tensordot (check if should prefer einsum, but only if available)
-        if blas_flag and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
+        # Call tensordot (check if should prefer einsum, but only if available), only einsum understands extra kwargs
+        if blas_flag and not kwargs and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
             # Checks have already been handled
             input_str, results_index = einsum_str.split("->")
             input_left, input_right = input_str.split(",")
@@ -684,7 +685,7 @@ def _core_contract(
                 axes = ((), ())
 
             # Contract!
-            new_view = _tensordot(*tmp_operands, axes=axes, backend=backend, **kwargs)
+            new_view = _tensordot(*tmp_operands, axes=axes, backend=backend)
 
             # Build a new view if needed
             if (tensor_result != results_index) or handle_out:
-- 
2.43.0


From 4e425f3a50209b9f3a63a20ad955415715f9c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 03/31] fix: einsum kwargs, including `out`, were dropped
 inside shared_intermediates

---
 opt_einsum/sharing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index c9ee583..bfb010d 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -163,6 +163,10 @@ def einsum_cache_wrap(einsum: Any) -> Any:
         if not currently_sharing():
             return einsum(*args, **kwargs)
 
+        # results computed with extra options (e.g. ``out`` or ``dtype``) can't be shared
+        if any(v is not None for k, v in kwargs.items() if k != "backend"):
+            return einsum(*args, **kwargs)
+
         # hash modulo commutativity by computing a canonical ordering and names
         backend = kwargs.pop("backend", "numpy")
         equation = args[0]
-- 
2.43.0


From 5c6ed06a3b0ead49f7c26d38b155d944a0f5c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 04/31] fix: get_sharing_cache outside of a context left the
 thread marked as sharing

---
 opt_einsum/sharing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index bfb010d..34625e3 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -37,6 +37,8 @@ def currently_sharing() -> bool:
 
 def get_sharing_cache() -> CacheType:
     """Return the most recent sharing cache -- thread specific."""
+    if not currently_sharing():
+        raise IndexError("There is no active sharing cache in this thread.")
     return _SHARING_STACK[threading.get_ident()][-1]
 
 
-- 
2.43.0


From 16c453868b5547af789ca2086a6b59d9496afed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 05/31] fix: register_path_fn silently replaced existing names
 that differ in case

---
 opt_einsum/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5c38c45..14d9334 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1379,7 +1379,7 @@ _PATH_OPTIONS: Dict[str, PathSearchFunctionType] = {
 
 def register_path_fn(name: str, fn: PathSearchFunctionType) -> None:
     """Add path finding function ``fn`` as an option with ``name``."""
-    if name in _PATH_OPTIONS:
+    if name.lower() in _PATH_OPTIONS:
         raise KeyError(f"Path optimizer '{name}' already exists.")
 
     _PATH_OPTIONS[name.lower()] = fn
-- 
2.43.0


From f802458c9fb48a1c5e6954c09e5bb81660700075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 06/31] fix: parallel random optimizers skipped trials once
 pre_dispatch jobs were submitted

---
 opt_einsum/path_random.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 1376822..1e0c152 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -135,10 +135,9 @@ class RandomOptimizer(paths.PathOptimizer):
         # the idea here is to submit at least ``pre_dispatch`` jobs *before* we
         # yield any results, then do both in tandem, before draining the queue
         for r in repeats:
-            if len(self._futures) < self.pre_dispatch:
-                self._futures.append(self._executor.submit(trial_fn, r, *args))
-                continue
-            yield self._futures.popleft().result()
+            if self._futures and len(self._futures) >= self.pre_dispatch:
+                yield self._futures.popleft().result()
+            self._futures.append(self._executor.submit(trial_fn, r, *args))
 
         while self._futures:
             yield self._futures.popleft().result()
-- 
2.43.0


From 4a39e4aa5d538560fb2e03ae187e0758f18ecb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 07/31] fix: BranchBound(cutoff_flops_factor=None), as
 documented, raised a TypeError

---
 opt_einsum/paths.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 14d9334..475d115 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -331,7 +331,7 @@ class BranchBound(PathOptimizer):
     def __init__(
         self,
         nbranch: Optional[int] = None,
-        cutoff_flops_factor: int = 4,
+        cutoff_flops_factor: Optional[int] = 4,
         minimize: str = "flops",
         cost_fn: str = "memory-removed",
     ):
@@ -346,7 +346,8 @@ class BranchBound(PathOptimizer):
                 each step. Defaults to None.
             cutoff_flops_factor: If at any point, a path is doing this much worse than the best path
                 found so far was, terminate it. The larger this is made, the more paths
-                will be fully explored and the slower the algorithm. Defaults to 4.
+                will be fully explored and the slower the algorithm. If None, never
+                terminate a path for this reason. Defaults to 4.
             minimize: Whether to optimize the path with regard primarily to the total
                 estimated flop-count, or the size of the largest intermediate. The
                 option not chosen will still be used as a secondary criterion.
@@ -433,7 +434,9 @@ class BranchBound(PathOptimizer):
                 if new_flops < self.best_progress[len(inputs)]:
                     self.best_progress[len(inputs)] = new_flops
                 # sieve based on current progress relative to best
-                elif new_flops > self.cutoff_flops_factor * self.best_progress[len(inputs)]:
+                elif (self.cutoff_flops_factor is not None) and (
+                    new_flops > self.cutoff_flops_factor * self.best_progress[len(inputs)]
+                ):
                     return None
 
                 # sieve based on memory limit
-- 
2.43.0


From 7c14ee0d8191d54585146dbc52e1e13067c18804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 08/31] fix: optimal and branch reused stale pair results,
 missing cheaper paths

The indices and cost of contracting a pair depend on the other remaining
terms, e.g. 'a,a,ab->b', so they can't be cached on the pair alone.
---
 opt_einsum/paths.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 475d115..c565846 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -231,7 +231,6 @@ def optimal(
     best_flops = {"flops": float("inf")}
     best_ssa_path = {"ssa_path": (tuple(range(len(inputs))),)}
     size_cache: Dict[FrozenSet[str], int] = {}
-    result_cache: Dict[Tuple[ArrayIndexType, ArrayIndexType], Tuple[FrozenSet[str], int]] = {}
 
     def _optimal_iterate(path, remaining, inputs, flops):
         # reached end of path (only ever get here if flops is best found so far)
@@ -244,11 +243,8 @@ def optimal(
         for i, j in itertools.combinations(remaining, 2):
             if i > j:
                 i, j = j, i
-            key = (inputs[i], inputs[j])
-            try:
-                k12, flops12 = result_cache[key]
-            except KeyError:
-                k12, flops12 = result_cache[key] = calc_k12_flops(inputs, output_set, remaining, i, j, size_dict)
+            # n.b. depends on which other terms remain as well as on the pair itself
+            k12, flops12 = calc_k12_flops(inputs, output_set, remaining, i, j, size_dict)
 
             # sieve based on current best flops
             new_flops = flops + flops12
@@ -401,7 +397,6 @@ class BranchBound(PathOptimizer):
         output: FrozenSet[str] = frozenset(output_)
 
         size_cache = {k: compute_size_by_dict(k, size_dict) for k in inputs}
-        result_cache: Dict[Tuple[FrozenSet[str], FrozenSet[str]], Tuple[FrozenSet[str], int]] = {}
 
         def _branch_iterate(path, inputs, remaining, flops, size):
             # reached end of path (only ever get here if flops is best found so far)
@@ -412,11 +407,8 @@ class BranchBound(PathOptimizer):
                 return
 
             def _assess_candidate(k1: FrozenSet[str], k2: FrozenSet[str], i: int, j: int) -> Any:
-                # find resulting indices and flops
-                try:
-                    k12, flops12 = result_cache[k1, k2]
-                except KeyError:
-                    k12, flops12 = result_cache[k1, k2] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                # find resulting indices and flops, n.b. these depend on which other terms remain
+                k12, flops12 = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
 
                 try:
                     size12 = size_cache[k12]
-- 
2.43.0


From 705886ea3485476cc21a2b833cefa4dfe9e89581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 09/31] fix: dp never terminated for an unsatisfiable
 memory_limit with 'combo' or 'limit'

The number of iterations was unbounded since naive_cost was infinite, also
make sure an explicit cost_cap of zero is eventually increased.
---
 opt_einsum/paths.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index c565846..786e776 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1042,8 +1042,7 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     elif minimize == "write":
         return _dp_compare_write, 1
     elif callable(minimize):
-        # default to naive_scale=inf for this and remaining options
-        # as otherwise memory_limit check can cause problems
+        # default to naive_scale=inf for this as otherwise memory_limit check can cause problems
         return minimize, float("inf")
 
     # parse out a customized value for the combination factor
@@ -1054,9 +1053,9 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     minimize, custom_factor = match.groups()
     factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), 1 + factor
     elif minimize == "limit":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=max), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=max), max(1, factor)
     else:
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
@@ -1279,7 +1278,7 @@ class DynamicProgramming(PathOptimizer):
                     raise RuntimeError("No contraction found for given `memory_limit`.")
 
                 # increase cost cap for next iteration:
-                cost_cap = cost_increment * cost_cap
+                cost_cap = max(cost_increment * cost_cap, 1)
 
             i, cost, contraction = list(x[-1].values())[0]
             subgraph_contractions.append(contraction)
-- 
2.43.0


From 7926c38ff528df5dce2710cc9d9ddcc8f3eb4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 10/31] fix: dp failed for disconnected contractions with a
 dimension of size zero

---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 786e776..dafbc0a 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1187,7 +1187,8 @@ class DynamicProgramming(PathOptimizer):
         output = frozenset(symbol2int[c] for c in output_)
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, size_dict, 1)
+        # n.b. dimensions of size 0 don't bound the cost of contracting the remaining terms
+        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From 261022984832eebe83fa1108a1f4f541f531e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 11/31] fix: a reused BranchBound returned paths that ignore
 the new memory_limit

---
 opt_einsum/paths.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index dafbc0a..b2899e6 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -393,6 +393,10 @@ class BranchBound(PathOptimizer):
         """
         self._check_args_against_first_call(inputs_, output_, size_dict)
 
+        # start afresh since e.g. the memory limit can change between calls
+        self.best = {"flops": float("inf"), "size": float("inf")}
+        self.best_progress = defaultdict(lambda: float("inf"))
+
         inputs: Tuple[FrozenSet[str]] = tuple(map(frozenset, inputs_))  # type: ignore
         output: FrozenSet[str] = frozenset(output_)
 
-- 
2.43.0


From d12b42a2d0a32be0b8b7dcc47538ca90c3ad78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 12/31] fix: race between threads making the first call of an
 expression with constants

---
 opt_einsum/contract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index c1f1611..39134d5 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -782,8 +782,9 @@ class ContractExpression:
         except KeyError:
             new_ops, new_contraction_list = self(*tmp_const_ops, backend=backend, evaluate_constants=True)
 
-        self._evaluated_constants[backend] = new_ops
+        # n.b. other threads assume the list is up to date once the constants are available
         self.contraction_list = new_contraction_list
+        self._evaluated_constants[backend] = new_ops
 
     def _get_evaluated_constants(self, backend: str) -> List[Optional[ArrayType]]:
         """Retrieve or generate the cached list of constant operators (mixed
-- 
2.43.0


From 70c73029a581e9d533267f26b5a3fc459f6073e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 13/31] fix: arrays converted while sharing could be mistaken
 for a deleted array

Conversions were keyed by id without keeping the array alive.
---
 opt_einsum/sharing.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index 34625e3..3649d4e 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -189,6 +189,21 @@ def einsum_cache_wrap(einsum: Any) -> Any:
     return cached_einsum
 
 
+class _IdentityKey:
+    """Hashable stand-in for an array that compares by identity and, unlike
+    its id, keeps the array alive so that it can't be mistaken for another.
+    """
+
+    def __init__(self, array: ArrayType):
+        self.array = array
+
+    def __hash__(self) -> int:
+        return id(self.array)
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _IdentityKey) and (self.array is other.array)
+
+
 def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any:
     """Decorates an ``to_backend()`` implementation to be memoized inside a
     :func:`shared_intermediates` context (e.g. ``to_cupy``, ``to_torch``).
@@ -204,8 +219,8 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
             if not currently_sharing():
                 return to_backend(array, constant=constant)
 
-            # hash by id
-            key = to_backend.__name__, id(array), constant
+            # hash by identity
+            key = to_backend.__name__, _IdentityKey(array), constant
             return _memoize(key, to_backend, array, constant=constant)
 
     else:
@@ -215,8 +230,8 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
             if not currently_sharing():
                 return to_backend(array)
 
-            # hash by id
-            key = to_backend.__name__, id(array)
+            # hash by identity
+            key = to_backend.__name__, _IdentityKey(array)
             return _memoize(key, to_backend, array)
 
     return cached_to_backend
-- 
2.43.0


From a3f82961b40d8a7c346f0c87dbbe7853c36e9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:13 +0000
Subject: [PATCH 14/31] fix: dp exceeded memory_limit when combining
 disconnected subgraphs

---
 opt_einsum/paths.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index b2899e6..744860f 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1204,6 +1204,7 @@ class DynamicProgramming(PathOptimizer):
         # disconnected subgraphs and their size
         subgraph_contractions = inputs_done
         subgraph_contractions_size = [1] * len(inputs_done)
+        subgraph_contractions_inds: List[FrozenSet[int]] = [frozenset()] * len(inputs_done)
 
         if self.search_outer:
             # optimize everything together if we are considering outer products
@@ -1288,20 +1289,25 @@ class DynamicProgramming(PathOptimizer):
             i, cost, contraction = list(x[-1].values())[0]
             subgraph_contractions.append(contraction)
             subgraph_contractions_size.append(compute_size_by_dict(i, size_dict))
+            subgraph_contractions_inds.append(i)
 
         # sort the subgraph contractions by the size of the subgraphs in
         # ascending order (will give the cheapest contractions); note that
         # outer products should be performed pairwise (to use BLAS functions)
-        subgraph_contractions = [
-            subgraph_contractions[j]
-            for j in sorted(
-                range(len(subgraph_contractions_size)),
-                key=subgraph_contractions_size.__getitem__,
-            )
-        ]
+        order = sorted(
+            range(len(subgraph_contractions_size)),
+            key=subgraph_contractions_size.__getitem__,
+        )
+        subgraph_contractions = [subgraph_contractions[j] for j in order]
 
         # build the final contraction tree
         tree = simple_tree_tuple(subgraph_contractions)
+
+        # the last outer product to form an intermediate is the largest, if it is too large combine all terms at once
+        inds = frozenset().union(*(subgraph_contractions_inds[j] for j in order[:-1]))
+        if len(order) > 2 and memory_limit_ is not None and compute_size_by_dict(inds, size_dict) > memory_limit_:
+            tree = tuple(subgraph_contractions)
+
         return _tree_to_sequence(tree)
 
 
-- 
2.43.0


From 6732133891a27877a08f603296ca8ff4605177bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 15/31] fix: unoptimized contractions ignored backend and
 mangled some equations

contract(..., optimize=False) always called numpy.einsum, even for e.g. torch
tensors, and if mapping symbols to letters was required treated whitespace and
ellipses as symbols.
---
 opt_einsum/contract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 39134d5..551f122 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -581,7 +581,10 @@ def contract(
 
     # If no optimization, run pure einsum
     if optimize is False:
-        return _einsum(*operands_list, out=out, **kwargs)
+        input_str, output_str, arrays = parser.parse_einsum_input(operands_list)
+        return _einsum(
+            f"{input_str}->{output_str}", *arrays, out=out, backend=parse_backend(arrays, backend), **kwargs
+        )
 
     # Grab non-einsum kwargs
     gen_expression = kwargs.pop("_gen_expression", False)
-- 
2.43.0


From 6e55db1ba5559c6ba0ca49e816ae81c7f45ffc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 16/31] fix: shape of a size 1 dimension broadcast against a
 size 0 dimension

The intermediate was assumed to have size 1, so that a later step could be
wrongly routed to tensordot and fail.
---
 opt_einsum/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 316a421..fc26ab1 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -166,7 +166,11 @@ def find_output_shape(inputs: List[str], shapes: List[TensorShapeType], output:
     >>> oe.parser.find_output_shape(["a", "a"], [(4, ), (1, )], "a")
     (4,)
     """
-    return tuple(max(shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0) for c in output)
+    # n.b. a dimension of size 1 is broadcast against any other size, including 0
+    return tuple(
+        next((shape[x.find(c)] for x, shape in zip(inputs, shapes) if c in x and shape[x.find(c)] != 1), 1)
+        for c in output
+    )
 
 
 _BaseTypes = (bool, int, float, complex, str, bytes)
-- 
2.43.0


From 02cd5f6c74097df936ceda081198d5157cb36c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:04 +0000
Subject: [PATCH 17/31] fix: empty sequences and sequences of arrays were
 rejected as operands

---
 opt_einsum/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index fc26ab1..c37cdf8 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -190,8 +190,11 @@ def get_shape(x: Any) -> TensorShapeType:
         shape = []
         while isinstance(x, Sequence) and not isinstance(x, _BaseTypes):
             shape.append(len(x))
+            if len(x) == 0:
+                break
             x = x[0]
-        return tuple(shape)
+        # n.b. the innermost elements might themselves be arrays
+        return tuple(shape) + tuple(getattr(x, "shape", ()))
     else:
         raise ValueError(f"Cannot determine the shape of {x}, can only determine the shape of array-like objects.")
 
-- 
2.43.0


From 3031f949c95a9c3250bb14b7cddfcbb686c8e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:04 +0000
Subject: [PATCH 18/31] fix: ellipsis of an operand whose shape is given as an
 empty list

---
 opt_einsum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index c37cdf8..9594bf0 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -367,7 +367,7 @@ def parse_einsum_input(operands: Any, shapes: bool = False) -> Tuple[str, str, L
                     raise ValueError("Invalid Ellipses.")
 
                 # Take into account numerical values
-                if operand_shapes[num] == ():
+                if len(operand_shapes[num]) == 0:
                     ellipse_count = 0
                 else:
                     ellipse_count = max(len(operand_shapes[num]), 1) - (len(sub) - 3)
-- 
2.43.0


From ff5b0f26b6f4c6eb8ac88c2d1b99c88a26458149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:04 +0000
Subject: [PATCH 19/31] fix: reject outputs with more than one ellipsis

---
 opt_einsum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 9594bf0..00ef7e3 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -391,7 +391,7 @@ def parse_einsum_input(operands: Any, shapes: bool = False) -> Tuple[str, str, L
             out_ellipse = ellipse_inds[-longest:]
 
         if out_sub:
-            subscripts += "->" + output_sub.replace("...", out_ellipse)
+            subscripts += "->" + output_sub.replace("...", out_ellipse, 1)
         else:
             # Special care for outputless ellipses
             output_subscript = find_output_str(subscripts)
-- 
2.43.0


From 5739a88112703b0d9c2a8d6d62fd0a73ae1e8dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:39 +0000
Subject: [PATCH 20/31] fix: implicit output order of interleaved input with
 more than 26 labels

---
 opt_einsum/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 00ef7e3..c88eae3 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -277,7 +277,9 @@ def convert_interleaved_input(operands: Sequence[Any]) -> Tuple[str, Tuple[Any,
         symbol_set.discard(Ellipsis)
 
         # build the map based on sorted user symbols, retaining the order we lost in the `set`
-        symbol_map = {symbol: get_symbol(idx) for idx, symbol in enumerate(sorted(symbol_set))}
+        # n.b. the symbols need sorting as well since 'A' is generated after, but orders before, 'a'
+        symbols = sorted(map(get_symbol, range(len(symbol_set))))
+        symbol_map = dict(zip(sorted(symbol_set), symbols))
 
     except TypeError:  # unhashable or uncomparable object
         raise TypeError(
-- 
2.43.0


From d2258f723dd59463368e22cd60243504a08add9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:06 +0000
Subject: [PATCH 21/31] fix: torch contractions ignored or rejected `out`

---
 opt_einsum/backends/torch.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index f7f01f2..791a464 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -35,7 +35,7 @@ def _get_torch_and_device():
 
 def transpose(a, axes):
     """Normal torch transpose is only valid for 2D matrices."""
-    return a.permute(*axes)
+    return a.permute(tuple(axes))
 
 
 def einsum(equation, *operands, **kwargs):
@@ -45,7 +45,15 @@ def einsum(equation, *operands, **kwargs):
     equation = convert_to_valid_einsum_chars(equation)
 
     torch, _ = _get_torch_and_device()
-    return torch.einsum(equation, operands)
+    result = torch.einsum(equation, operands)
+
+    # torch.einsum itself can't write into an existing tensor
+    out = kwargs.get("out", None)
+    if out is not None:
+        out[()] = result
+        return out
+
+    return result
 
 
 def tensordot(x, y, axes=2):
-- 
2.43.0


From e5cf8bbf324a0b5db3a37746e2cfb8425eeccd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:06 +0000
Subject: [PATCH 22/31] fix: object arrays with broadcast dimensions gave wrong
 results

---
 opt_einsum/backends/object_arrays.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/object_arrays.py b/opt_einsum/backends/object_arrays.py
index 8954a18..24c0d31 100644
--- a/opt_einsum/backends/object_arrays.py
+++ b/opt_einsum/backends/object_arrays.py
@@ -36,7 +36,9 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
     sizes = {}
     for term, array in zip(inputs, arrays):
         for k, d in zip(term, array.shape):
-            sizes[k] = d
+            # n.b. dimensions of size 1 are broadcast
+            if sizes.get(k, 1) == 1:
+                sizes[k] = d
 
     out_size = tuple(sizes[k] for k in output)
     out = np.empty(out_size, dtype=object)
@@ -50,7 +52,10 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
         def gen_inner_sum():
             for coo_i in np.ndindex(*inner_size):
                 coord.update(dict(zip(inner, coo_i)))
-                locs = (tuple(coord[k] for k in term) for term in inputs)
+                locs = (
+                    tuple(0 if d == 1 else coord[k] for k, d in zip(term, array.shape))
+                    for term, array in zip(inputs, arrays)
+                )
                 elements = (array[loc] for array, loc in zip(arrays, locs))
                 yield functools.reduce(operator.mul, elements)
 
-- 
2.43.0


From bc9ea45a4b5ddc89123983e159f035ec1cdffa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 23/31] fix: reused optimizers did not notice a contraction
 changed in place

The arguments of the first call were kept by reference, so that changing the
same lists, sets or dict and calling again returned a path of the old
contraction.
---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 744860f..3293f98 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -59,7 +59,8 @@ class PathOptimizer:
         """Utility that stateful optimizers can use to ensure they are not
         called with different contractions across separate runs.
         """
-        args = (inputs, output, size_dict)
+        # n.b. copy everything, the caller might change the originals in place
+        args = (list(map(frozenset, inputs)), frozenset(output), dict(size_dict))
         if not hasattr(self, "_first_call_args"):
             # simply set the attribute as currently there is no global PathOptimizer init
             self._first_call_args = args
-- 
2.43.0


From 8378328e36ae388d5f22a52fde53a5a2cfe99d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:45 +0000
Subject: [PATCH 24/31] fix: random greedy trials depended on the hash order of
 the index labels

Candidates were assessed in the iteration order of sets, so a trial with a
given number was not repeatable across processes.
---
 opt_einsum/paths.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 3293f98..41c1652 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -656,9 +656,10 @@ def ssa_greedy_optimize(
     footprints = {key: compute_size_by_dict(key, sizes) for key in remaining}
 
     # Find initial candidate contractions.
+    # n.b. assess them in an order that doesn't depend on hashes, since ``cost_fn`` and ``choose_fn`` can be random
     queue: List[GreedyContractionType] = []
-    for dim, dim_keys in dim_to_keys.items():
-        dim_keys_list = sorted(dim_keys, key=remaining.__getitem__)
+    all_dim_keys = [sorted(dim_keys, key=remaining.__getitem__) for dim_keys in dim_to_keys.values()]
+    for dim_keys_list in sorted(all_dim_keys, key=lambda keys: [remaining[k] for k in keys]):
         for i, k1 in enumerate(dim_keys_list[:-1]):
             k2s_guess = dim_keys_list[1 + i :]
             _push_candidate(
@@ -709,7 +710,7 @@ def ssa_greedy_optimize(
                 footprints,
                 dim_ref_counts,
                 k1,
-                list(k2s),
+                sorted(k2s, key=remaining.__getitem__),
                 queue,
                 push_all,
                 cost_fn,
-- 
2.43.0


From 8cbd27759ed170471b30ef26e09b1c8d6e03682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:20 +0000
Subject: [PATCH 25/31] fix: reject explicit paths that do not contract all
 operands instead of returning one of them

---
 opt_einsum/contract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 551f122..ff58467 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -408,6 +408,9 @@ def contract_path(
         contraction = (contract_inds, idx_removed, einsum_str, remaining, do_blas)
         contraction_list.append(contraction)
 
+    if input_list != [output_subscript]:
+        raise ValueError(f"The path {path_tuple} does not contract all {num_ops} operands into one.")
+
     opt_cost = sum(cost_list)
 
     if einsum_call_arg:
-- 
2.43.0


From be211c420495a9304dada7c826ce3ed089871243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:11 +0000
Subject: [PATCH 26/31] fix: evaluate constants outside of the jax function
 being traced

An expression with constants that was first called inside jax.jit kept tracers
as its evaluated constants and failed in every later call.
---
 opt_einsum/backends/jax.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/backends/jax.py b/opt_einsum/backends/jax.py
index 45aa4b2..828a427 100644
--- a/opt_einsum/backends/jax.py
+++ b/opt_einsum/backends/jax.py
@@ -42,4 +42,9 @@ def evaluate_constants(const_arrays, expr):  # pragma: no cover
     """
     jax, to_jax = _get_jax_and_to_jax()
 
-    return expr(*[to_jax(x) for x in const_arrays], backend="jax", evaluate_constants=True)
+    if any(isinstance(x, jax.core.Tracer) for x in const_arrays):
+        return expr(*[to_jax(x) for x in const_arrays], backend="jax", evaluate_constants=True)
+
+    # n.b. the results are kept for later calls so can't be part of a function that is currently being traced
+    with jax.ensure_compile_time_eval():
+        return expr(*[to_jax(x) for x in const_arrays], backend="jax", evaluate_constants=True)
-- 
2.43.0


From 80891a3326fd98e60621c35cec364671e3dc9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:11 +0000
Subject: [PATCH 27/31] fix: detect tensorflow's eager mode independently of
 tf.function

When first used inside a tf.function graph mode was assumed for the rest of
the process, which made every later conversion from numpy fail.
---
 opt_einsum/backends/tensorflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/backends/tensorflow.py b/opt_einsum/backends/tensorflow.py
index a6544f8..32e4f0e 100644
--- a/opt_einsum/backends/tensorflow.py
+++ b/opt_einsum/backends/tensorflow.py
@@ -15,7 +15,9 @@ def _get_tensorflow_and_device():
         import tensorflow as tf  # type: ignore
 
         try:
-            eager = tf.executing_eagerly()
+            # n.b. must not depend on whether a ``tf.function`` happens to be traced right now
+            with tf.init_scope():
+                eager = tf.executing_eagerly()
         except AttributeError:
             try:
                 eager = tf.contrib.eager.in_eager_mode()
-- 
2.43.0


From 9b3cc5d16fe08150719b2990668f7def655d8409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:36 +0000
Subject: [PATCH 28/31] fix: evaluate constants outside of the tf.function
 being traced

An expression with constants that was first called inside a tf.function kept
symbolic tensors of that function as its evaluated constants and failed later.
---
 opt_einsum/backends/tensorflow.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/backends/tensorflow.py b/opt_einsum/backends/tensorflow.py
index 32e4f0e..b71cf3e 100644
--- a/opt_einsum/backends/tensorflow.py
+++ b/opt_einsum/backends/tensorflow.py
@@ -107,7 +107,15 @@ def evaluate_constants_eager(const_arrays, expr):
     """Convert constant arguments to tensorflow_eager arrays, and perform any
     possible constant contractions.
     """
-    return expr(*[to_tensorflow(x) for x in const_arrays], backend="tensorflow", evaluate_constants=True)
+    tf, _, _ = _get_tensorflow_and_device()
+
+    # symbolic tensors, i.e. the expression belongs to the ``tf.function`` that is being traced
+    if any(hasattr(x, "graph") for x in const_arrays):
+        return expr(*[to_tensorflow(x) for x in const_arrays], backend="tensorflow", evaluate_constants=True)
+
+    # n.b. the results are kept for later calls so can't be part of a ``tf.function`` that is currently being traced
+    with tf.init_scope():
+        return expr(*[to_tensorflow(x) for x in const_arrays], backend="tensorflow", evaluate_constants=True)
 
 
 # Dispatch to eager or graph mode
-- 
2.43.0


From bf82afd3e7d735d58cdb8366a849d1d4c343b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:03 +0000
Subject: [PATCH 29/31] fix: distinct graph inputs for an array supplied twice
 while sharing intermediates

---
 opt_einsum/backends/tensorflow.py | 9 ++++++++-
 opt_einsum/backends/theano.py     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/tensorflow.py b/opt_einsum/backends/tensorflow.py
index b71cf3e..e2d71a8 100644
--- a/opt_einsum/backends/tensorflow.py
+++ b/opt_einsum/backends/tensorflow.py
@@ -61,7 +61,14 @@ def build_expression_graph(arrays, expr):
     """Build a tensorflow function based on ``arrays`` and ``expr``."""
     tf, _, _ = _get_tensorflow_and_device()
 
-    placeholders = [to_tensorflow(array) for array in arrays]
+    placeholders = []
+    for array in arrays:
+        placeholder = to_tensorflow(array)
+        # n.b. when sharing, an array supplied twice has one placeholder, but later calls might supply different arrays
+        if any(placeholder is p for p in placeholders):
+            placeholder = to_tensorflow.__wrapped__(array)
+        placeholders.append(placeholder)
+
     graph = expr._contract(placeholders, backend="tensorflow")
 
     def tensorflow_contract(*arrays):
diff --git a/opt_einsum/backends/theano.py b/opt_einsum/backends/theano.py
index 5b54aab..d2639b1 100644
--- a/opt_einsum/backends/theano.py
+++ b/opt_einsum/backends/theano.py
@@ -24,7 +24,14 @@ def build_expression(arrays, expr):
     """Build a theano function based on ``arrays`` and ``expr``."""
     import theano
 
-    in_vars = [to_theano(array) for array in arrays]
+    in_vars = []
+    for array in arrays:
+        in_var = to_theano(array)
+        # n.b. when sharing, an array supplied twice has one variable, but later calls might supply different arrays
+        if any(in_var is v for v in in_vars):
+            in_var = to_theano.__wrapped__(array)
+        in_vars.append(in_var)
+
     out_var = expr._contract(in_vars, backend="theano")
 
     # don't supply constants to graph
-- 
2.43.0


From c2ea4d9a57236e28e64fc10635128778a65c36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:41 +0000
Subject: [PATCH 30/31] fix: random-greedy with contraction sizes beyond the
 range of floats

---
 opt_einsum/path_random.py | 8 ++++++++
 opt_einsum/paths.py       | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 1e0c152..b75a8a4 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -252,6 +252,14 @@ def thermal_chooser(queue, remaining, nbranch=8, temperature=1, rel_temperature=
         return choices[0]
 
     costs = [choice[0][0] for choice in choices]
+
+    # scale down integers that exceed the range of floats
+    shift = max([c.bit_length() for c in costs if isinstance(c, int)], default=0) - 1000
+    if shift > 0:
+        costs = [c >> shift if isinstance(c, int) else math.ldexp(c, -shift) for c in costs]
+        if not rel_temperature:
+            temperature = math.ldexp(temperature, -shift)
+
     cmin = costs[0]
 
     # adjust by the overall scale to account for fluctuating absolute costs
diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 41c1652..4e07ce6 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -315,7 +315,13 @@ def cost_memory_removed_jitter(size12: int, size1: int, size2: int, k12: int, k1
     """Like memory-removed, but with a slight amount of noise that breaks ties
     and thus jumbles the contractions a bit.
     """
-    return random.gauss(1.0, 0.01) * (size12 - size1 - size2)
+    jitter = random.gauss(1.0, 0.01)
+    removed = size12 - size1 - size2
+    try:
+        return jitter * removed
+    except OverflowError:
+        # exceeds the range of floats, but not that of integers
+        return (int(jitter * 2**53) * removed) >> 53
 
 
 _COST_FNS = {
-- 
2.43.0


From 8f99fe0df5cd5ff3f8df0b6b89601c4c36a9af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:47 +0000
Subject: [PATCH 31/31] fix: dynamic programming with contraction sizes beyond
 the range of floats

---
 opt_einsum/paths.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 4e07ce6..b66a9d3 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1063,7 +1063,7 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
     minimize, custom_factor = match.groups()
-    factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
+    factor = int(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
         return functools.partial(_dp_compare_combo, factor=factor, combine=sum), 1 + factor
     elif minimize == "limit":
@@ -1200,7 +1200,9 @@ class DynamicProgramming(PathOptimizer):
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
         # n.b. dimensions of size 0 don't bound the cost of contracting the remaining terms
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
+        naive_cost = len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
+        # n.b. the product of all dimensions can exceed the range of floats
+        naive_cost = naive_scale * naive_cost if naive_scale != float("inf") else naive_scale
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0

