"""Writes properties.jsonl (kept as a script so that the statements are reviewable in one place)."""
import json
import os

C, P, PA, R, S, B, H = (
    "opt_einsum/contract.py", "opt_einsum/paths.py", "opt_einsum/parser.py", "opt_einsum/path_random.py",
    "opt_einsum/sharing.py", "opt_einsum/blas.py", "opt_einsum/helpers.py",
)
D, T, O, TF, J = (
    "opt_einsum/backends/dispatch.py", "opt_einsum/backends/torch.py", "opt_einsum/backends/object_arrays.py",
    "opt_einsum/backends/tensorflow.py", "opt_einsum/backends/jax.py",
)


def m(*pairs):
    return [{"name": a, "where": b} for a, b in pairs]


PROPS = [
    ("C01", "A contraction's value is the Einstein sum, for every strategy and option",
     "For every valid equation and operands, contracting returns exactly the Einstein-summation value and shape of that equation "
     "(the sum over all non-output indices of the product of the operands, with size-1 dimensions broadcast). "
     "This holds for every optimization strategy, with BLAS use on or off, and for every memory limit (the only permitted refusal "
     "being the dynamic-programming search reporting that no path fits the limit).",
     ["inputs", "configurations"], "all equations (repeated indices, hyperedges, batch indices, scalars, empty/unit/broadcast dimensions) x all strategies x BLAS x memory limits",
     "The tests compare a fixed list of equations with default sizes; equality must hold for every index structure, size pattern and option combination.",
     [C, B, PA, H], m(("contract / _core_contract", C), ("can_blas", B), ("find_contraction", H)), ["contract"]),
    ("C02", "Every valid explicit contraction path gives the same value",
     "When the caller supplies an explicit contraction path that contracts all operands, in any order, with steps of any arity "
     "(one, two or many terms) and positions listed in any order within a step, the result is the same Einstein-summation value. A path that leaves operands uncontracted is rejected instead of giving a value.",
     ["inputs", "programs"], "all complete paths of a contraction x all small equations, BLAS on and off",
     "Tests supply two or three hand-written paths; the number of paths grows factorially.",
     [C, B, H], m(("contract_path: explicit path branch and step construction", C), ("_core_contract", C)), ["contract(optimize=path)", "contract_expression(optimize=path)"]),
    ("C03", "Every path finder returns a complete and valid contraction path",
     "For every contraction of two or more tensors, any index sizes, and any memory limit, each path finder terminates and returns a list of int tuples in which "
     "every position exists at that point, no position is repeated, and exactly one tensor remains at the end (or, for dynamic programming under a memory limit, raises the documented error). "
     "This holds whichever candidate a custom or random chooser picks at each step, and finding a path never modifies the caller's inputs.",
     ["inputs", "configurations", "schedules"], "all small tensor networks x sizes (0, 1 included) x memory limits x finders, all choice sequences of the greedy chooser, large families",
     "Tests run random equations for a few seeds; invalid paths appear only on particular hyperedge/scalar/duplicate structures or choice sequences.",
     [P, R], m(("optimal, BranchBound, ssa_greedy_optimize, DynamicProgramming", P), ("thermal_chooser, RandomGreedy", R)), ["paths.*", "contract_path"]),
    ("C04", "The optimal strategy attains the minimum flop count",
     "For every contraction in which each summed index appears on at least two operands, the path found by the optimal strategy without a memory limit (also through the presets that select it for "
     "few operands) has the smallest total flop count, as reported for the path, among all sequences of pairwise contractions. No other built-in strategy that returns pairwise steps reports a smaller flop count.",
     ["inputs"], "all tensor networks within the bound x size patterns; minimum over all contraction sequences",
     "Tests pin a few expected paths; optimality is a claim about all alternative sequences of every network.",
     [P, H], m(("optimal: exhaustive recursion with sieving on best flops", P), ("flop_count", H)), ["contract_path"]),
    ("C05", "Dynamic programming is optimal for its objective and always terminates",
     "For every contraction, every built-in objective (flops, size, write, combo, limit, with custom factors), cost-cap setting and outer-product setting, dynamic programming terminates; "
     "the contraction tree it returns for each connected part has the smallest value of the objective among all trees in its search space (no outer products unless enabled), and enabling or disabling cost capping does not change that value.",
     ["inputs", "configurations"], "all small networks x objectives x cost cap x outer search x memory limits",
     "Tests check objective values on a handful of graphs.",
     [P], m(("DynamicProgramming.__call__", P), ("_dp_compare_*", P), ("_parse_minimize", P)), ["DynamicProgramming(...)"]),
    ("C06", "A memory limit is never exceeded by an intermediate",
     "When a positive element limit (or the max_input setting, i.e. the size of the largest operand or result) is given to the optimal, branch, greedy, dynamic-programming or preset strategies, every intermediate formed from two or more tensors by the "
     "chosen path, other than the final result, has at most that many elements (dynamic programming may instead report that no path exists), and the optimal strategy is at least as cheap as every pairwise path within the limit; a limit that the unlimited path respects does not change the cost found by the optimal and dynamic-programming strategies. Unlimited settings (none, minus one) impose nothing, and invalid limits are rejected.",
     ["inputs", "configurations"], "all small networks x sizes x every integer limit up to the full size",
     "Tests check two equations with one tiny limit.",
     [P, C], m(("_choose_memory_arg", C), ("sieve on memory_limit in optimal/BranchBound/_dp_compare", P)), ["contract_path(memory_limit=...)"]),
    ("C07", "The path report tells the truth about the contraction",
     "The information object returned with a path is consistent with that path and equation: per-step scaling, the list of step equations (which, executed in order, produce the result), the optimized and naive flop counts, "
     "the largest intermediate, the index sizes, shapes and speedup all equal the values recomputed from the definition. The path it carries is the path returned, and it prints without error.",
     ["inputs", "configurations"], "all small networks x all paths (given or found) x sizes",
     "Tests compare a few attributes on single examples.",
     [C, H], m(("contract_path / PathInfo", C), ("flop_count, find_contraction, compute_size_by_dict", H)), ["contract_path"]),
    ("C08", "All ways of writing the same contraction are equivalent",
     "The string form, the interleaved form with any hashable comparable labels, implicit or explicit output, ellipses, whitespace, and labels from any part of Unicode describe the same contraction: they give equal values, paths and reports, "
     "agreeing with numpy.einsum where it accepts the form. Giving shapes instead of arrays gives the same path, and array-likes (lists, scalars) behave like the arrays they denote.",
     ["inputs"], "all small equations x all input forms, all ellipsis placements and broadcast ranks",
     "Tests cover a list of example strings.",
     [PA, C], m(("parse_einsum_input, convert_interleaved_input, find_output_str", PA), ("_einsum char conversion", C)), ["contract", "contract_path", "contract_expression"]),
    ("C09", "Malformed contractions are rejected, well-formed ones accepted",
     "Every equation string and operand shapes combination that is not a valid contraction (wrong number of operands or of indices, inconsistent sizes, bad arrow or dots, output index repeated or unknown) raises an error rather than "
     "returning a value, and every one that numpy.einsum accepts is accepted with the same value. Invalid options (unknown strategy, unknown keyword, bad memory limit, expressions with disallowed arguments) are rejected too.",
     ["inputs"], "all strings up to a length over the alphabet of index letters, comma, arrow and dot characters, with all small operand ranks",
     "Tests list a dozen malformed strings; the grammar is infinite.",
     [PA, C], m(("parse_einsum_input checks", PA), ("size_dict consistency loop in contract_path", C)), ["contract", "contract_path"]),
    ("C10", "Contractions stay on the caller's array library and need only tensordot",
     "Operands of a third-party array type are contracted using only that library's functions, operating on its arrays throughout, and the result is that library's array with the Einstein-summation value; the library is that of the first operand unless a backend is chosen explicitly. "
     "If every index appears exactly twice (counting the output) on distinct operands, tensordot and transpose alone suffice, so libraries without einsum work; arrays from libraries without tensordot are handled as numpy arrays.",
     ["inputs", "configurations"], "all small contractions with >=2 operands x all paths x libraries with/without einsum/transpose/tensordot",
     "Tests use a few equations per installed library.",
     [C, D, T, B], m(("parse_backend, infer_backend, _core_contract no_einsum", C), ("get_func, has_einsum, has_tensordot", D)), ["contract(backend=...)", "ContractExpression.__call__"]),
    ("C11", "A reusable expression equals a fresh contraction for every call history",
     "For any choice of constant operands that leaves at least one variable operand, and any sequence of calls on one expression - mixing backends, operand values and compatible sizes, output arrays, pre-evaluation, and calls that fail - every successful call returns the value a fresh "
     "contraction of the same operands would give. A call with the wrong number of arrays raises an error and leaves the expression usable.",
     ["histories", "inputs", "fault_sequences"], "all constant subsets x all call sequences up to a depth x equations, faults at every backend operation",
     "Tests call each expression once or twice.",
     [C, D, T, TF, J], m(("ContractExpression.__call__, evaluate_constants, _get_evaluated_constants", C),), ["contract_expression"]),
    ("C12", "A reusable expression is safe under concurrent use",
     "Threads calling the same expression concurrently, including the first calls that evaluate its constants, each obtain the value of their own operands as if the calls had been made one after another; no call fails because of another.",
     ["schedules"], "all interleavings of 2-3 threads with a bounded number of preemptions at line granularity",
     "Tests are single threaded.",
     [C, D], m(("evaluate_constants publication order", C), ("function caches", D)), ["ContractExpression.__call__"]),
    ("C13", "Sharing intermediates never changes a result",
     "Inside a sharing context every contraction returns the same value it would return outside, for every sequence of contractions, including those whose operands have been deleted and replaced by new arrays, that use different backends, einsum options "
     "or output arrays, or where a backend operation failed earlier. Repeating a contraction with the same arrays inside one context computes nothing new.",
     ["histories", "fault_sequences"], "all sequences of contraction/allocate/free operations up to a depth, faults at every operation",
     "Tests check cache counters of two-call sequences.",
     [S, C], m(("_memoize and key construction", S), ("_save_tensors, _IdentityKey", S)), ["shared_intermediates"]),
    ("C14", "Sharing is scoped to its context and thread",
     "Results are shared exactly between contractions executed by the same thread within the same context (or contexts given the same cache); nested contexts use the innermost cache, leaving a context, normally or by an exception, restores the enclosing one, and other threads are unaffected. "
     "After the context and its cache are gone, no operand or intermediate is kept alive by the library.",
     ["histories", "schedules", "fault_sequences"], "all enter/exit/raise/contract sequences up to a depth per thread, all bounded-preemption interleavings of 2 threads",
     "Tests use one nesting and one thread pool run.",
     [S], m(("_SHARING_STACK keyed by thread id, shared_intermediates", S),), ["shared_intermediates", "currently_sharing", "get_sharing_cache"]),
    ("C15", "Output arrays are filled and returned, operands are never modified",
     "When an output array is supplied, the result is written into it completely and that same array is returned, with the same value as without it, for every equation, strategy, layout and expression call. "
     "No contraction, expression call or path search modifies the operands, constants, or any object the caller passed in other than the output array.",
     ["inputs", "histories"], "all small equations x paths x BLAS routes x output layouts",
     "Tests check out= on a list of equations and never check operands.",
     [C], m(("handle_out in _core_contract", C), ("_contract_with_conversion", C)), ["contract(out=...)", "expr(out=...)"]),
    ("C16", "Random optimizers keep the best of exactly the requested trials",
     "A random optimizer runs exactly the requested number of trials with consecutive fresh trial numbers unless its time budget expires (after which it stops at the first result), records every trial's cost and size in order, and returns the best path by the chosen criterion; "
     "with an executor the outcome does not depend on the order in which jobs finish, unneeded jobs are cancelled, and executors it did not create are not shut down. The recorded cost and size of a path are its true flop count and largest intermediate.",
     ["schedules", "histories", "configurations"], "all cost sequences, repeat counts, dispatch windows, job completion orders and clock behaviours up to a bound",
     "Tests run one process pool configuration and check only weak inequalities.",
     [R, P], m(("RandomOptimizer.__call__, _gen_results_parallel, _cancel_futures", R), ("ssa_path_compute_cost", R)), ["RandomOptimizer", "RandomGreedy"]),
    ("C17", "Reused optimizers refuse other contractions and only ever improve",
     "An optimizer object that keeps state across calls raises an error if called for a different contraction and otherwise each call returns a valid path for the current contraction that is never worse than its previous best; "
     "a stateless one gives the same answer as a fresh instance.",
     ["histories"], "all call sequences up to a depth over contractions differing in inputs, output, sizes or limits",
     "Tests make one or two repeat calls.",
     [P, R], m(("_check_args_against_first_call", P), ("best bookkeeping", P)), ["PathOptimizer instances"]),
    ("C18", "Results depend only on the contraction, not on labels, hash order or history",
     "For a given contraction every deterministic strategy returns the same path whatever the iteration order of sets of labels, whatever was contracted before in the process, and however often it is asked; "
     "the random strategies return the same path for the same trial numbers. Renaming indices (order-preservingly for interleaved labels) or permuting letters within an operand does not change the flop count found by an exhaustive strategy.",
     ["configurations", "histories"], "all permutations of hash order of the index labels x all small networks, all renamings",
     "Tests run with one hash seed.",
     [P, R, C], m(("tie-breaking by ssa id in greedy", P), ("trial seeding", R)), ["paths.*", "contract_path"]),
    ("C19", "Index symbols are unique, fresh and faithfully translated",
     "Symbols generated for integer positions are pairwise distinct valid characters (the 52 letters first) over the whole supported range; unused-symbol generation never returns a used symbol; and translation to plain letters or to canonical "
     "form is a consistent renaming that preserves the commas and arrow and the equality pattern of an equation, two equations having the same canonical form exactly when they differ by a renaming.",
     ["inputs"], "all positions in the supported range; all equation patterns up to a length over mixed alphabets",
     "Tests check a few symbols.",
     [PA], m(("get_symbol, gen_unused_symbols, convert_to_valid_einsum_chars, alpha_canonicalize", PA),), ["get_symbol", "parser functions", "contract with many indices"]),
    ("C20", "Path representations convert without loss",
     "Converting any complete path from recycled positions to single-assignment ids and back (or the other way round) returns an equivalent path - same tensors contracted at the same steps - and both forms denote the same contraction tree, for any arity of steps. "
     "Contraction trees are likewise turned into paths that perform exactly the tree's contractions.",
     ["programs"], "all complete paths with steps of any arity up to a number of tensors",
     "Tests convert a few random paths.",
     [P], m(("ssa_to_linear, linear_to_ssa, _tree_to_sequence", P),), ["paths.ssa_to_linear", "paths.linear_to_ssa"]),
    ("C21", "Strategy names resolve as documented",
     "Every documented strategy name, in any letter case, selects its strategy; the automatic presets select by operand count as documented (exhaustive search for few operands, then progressively cheaper searches); registering a new name makes it "
     "usable everywhere and never alters an existing name, and unknown names are rejected whenever a strategy has to be chosen (three or more operands).",
     ["histories", "configurations"], "all registration/lookup sequences up to a depth; all operand counts up to a bound",
     "Tests register one name.",
     [P, R, "opt_einsum/__init__.py"], m(("register_path_fn, get_path_fn, _PATH_OPTIONS, auto, auto_hq", P),), ["paths.register_path_fn", "contract_path(optimize=...)"]),
    ("C22", "Branch-and-bound returns the best path of its search space",
     "Branch and bound over all branches with no progress cutoff returns a path whose primary criterion (flops or largest intermediate) is at least as good as every path that contracts only tensors sharing an index while any such pair exists. "
     "With any branching limit, cutoff and cost function it still returns a complete path. Over all branches and for flops it is also under a memory limit at least as cheap as every such path whose intermediates respect the limit, where the remaining tensors may be contracted all at once in place of a pair that exceeds it. With a branching limit of one and no cutoff every step is a pair of least cost under the cost function among those sharing an index; a branching limit below one is rejected.",
     ["inputs", "configurations"], "all small networks x branching limits x cutoffs x criteria",
     "Tests compare one or two costs.",
     [P], m(("BranchBound", P),), ["BranchBound"]),
    ("C23", "The greedy strategy follows its documented three stages",
     "Without a memory limit the greedy path first multiplies together tensors with identical index sets, then contracts pairs sharing a contractible index (neither in the output nor on every tensor) as long as any exist, and only then forms outer products, always of the two smallest tensors. "
     "The first contraction taken is a pair of least cost under the cost function (by default the size increase). Random greedy's first trial with the same cost function is this greedy path, and at temperature zero every trial only takes least-cost pairs.",
     ["inputs"], "all small networks x sizes, structured large families",
     "Tests pin example paths.",
     [P], m(("ssa_greedy_optimize", P),), ["greedy"]),
    ("C24", "BLAS routing is reported exactly when a pair is a plain tensor dot",
     "A two-term step is classified as BLAS-compatible exactly when no index is repeated within a term, every index either is kept and on one term or is summed and on both, and no summed dimension is broadcast; the reported kind (dot, outer, matrix, general) and the einsum preference match the index layout. "
     "Steps with one or more than two terms, and all steps when BLAS is disabled, are never so classified.",
     ["inputs"], "all pairs of terms up to rank 3-4 x outputs x shapes",
     "Tests list about twenty pairs.",
     [B, C], m(("can_blas", B),), ["blas.can_blas", "contract_path info"]),
    ("C25", "Arrays of arbitrary objects contract using only + and *",
     "Contracting arrays of Python objects that support only addition and multiplication gives, entry by entry, the object equal to the Einstein sum, for every equation and path; equality of the resulting formal polynomials holds, i.e. the identity is independent of the values.",
     ["inputs", "programs"], "all small equations x paths with formal polynomial entries",
     "Tests use one sympy example.",
     [O, C], m(("object_einsum", O),), ["contract(backend='object')"]),
    ("C26", "A contraction executes exactly the steps of its path",
     "Evaluating an equation brings operands together in exactly the groups, and in exactly the order, of the path that was given or that contract_path reports for the same arguments: no step is split, merged, repeated, skipped or reordered, and each intermediate has the number of elements reported for it. "
     "With BLAS disabled no step is done by tensordot; otherwise the steps reported with a BLAS kind that does not prefer einsum are done by tensordot, the others by einsum where the library has it. An expression with constants performs the leading steps that involve only constants once in its lifetime per backend (upon the first call or when pre-evaluated) and in every call performs the remaining steps of the same path.",
     ["inputs", "histories"], "all small equations x all paths and strategies x BLAS x memory limits x routes; all constant subsets x three calls",
     "Results do not reveal how they were computed: a contraction that ignores its path is right but arbitrarily slow and large.",
     [C], m(("_core_contract, contract_path, ContractExpression", C),), ["contract", "contract_path", "ContractExpression"]),
    ("C27", "Intermediates are released once consumed; nothing is retained afterwards",
     "While a contraction runs, an intermediate that an earlier step consumed is no longer referenced; after it returns, or fails at any operation, nothing but the result remains referenced. An expression retains none of the arrays passed to its calls and no intermediates other than its evaluated constants (each constant part once per backend), "
     "whatever the history of successful, failing and shared calls, also when numpy arrays are converted to another library; leaving a sharing context releases its cache, and dropping the expression releases its constants.",
     ["inputs", "histories", "fault_sequences"], "all small equations x paths x fault points; all call histories up to a depth",
     "Values are unaffected by retained arrays; only memory is.",
     [C, S], m(("_core_contract, ContractExpression", C), ("shared_intermediates", S)), ["contract", "ContractExpression", "shared_intermediates"]),
    ("C28", "An expression describes itself truthfully",
     "What an expression shows of itself is true at every point of its life: its contraction string has the terms of the equation in order with exactly the constants bracketed, the listed steps are - in order - exactly the steps of its path that remain to be done per call (all of them before its constants are evaluated, those that involve a non-constant operand afterwards), "
     "each with the indices of its operands and result and its BLAS kind, the einsum options are those it was made with, and it accepts as many arrays as it says. Bracketing leaves an equation without constants as it is.",
     ["inputs", "histories"], "all small equations x paths x constant subsets x options; fresh, evaluated and called expressions",
     "Tests compare two printed expressions.",
     [C], m(("ContractExpression.__repr__, __str__, format_const_einsum_str", C),), ["repr and str of ContractExpression", "ContractExpression.contraction", "format_const_einsum_str"]),
    ("C29", "Element types and einsum options are honoured",
     "Without options the result has the element type obtained by promoting the operand types along the path. With `dtype` every step is computed in the requested type and the result has it; with `casting` a call is accepted exactly when numpy.einsum accepts the operands under that rule; with `order` C or F the result is laid out so. "
     "This holds for any path, BLAS or not, and through contract, expressions, evaluated constants, sharing contexts and output arrays alike.",
     ["inputs", "configurations"], "all small equations x paths x element types x dtype/casting/order settings x routes",
     "Tests pass one dtype to one contraction.",
     [C, S], m(("_einsum, _filter_einsum_defaults, _core_contract", C), ("einsum_cache_wrap", S)), ["contract", "ContractExpression"]),
    ("C30", "Contractions can be differentiated and traced",
     "With libraries that differentiate or trace (torch, autograd, tensorflow, jax), a contraction's result carries exact derivatives with respect to every non-constant operand for any equation, path and route (contract, expression, expression with constants, sharing context). "
     "An expression may be used inside and outside of compiled functions (jax.jit, tf.function), in any order and any number of times, also when its first use is inside one: nothing of a trace is retained, and every use gives the contraction's value.",
     ["inputs", "histories"], "all small equations x paths x routes x differentiated operands; all histories of traced and eager uses up to a depth",
     "Tests differentiate one contraction with autograd.",
     [C, S, "opt_einsum/backends/jax.py", "opt_einsum/backends/tensorflow.py", "opt_einsum/backends/torch.py"],
     m(("_core_contract, ContractExpression", C), ("build_expression, evaluate_constants", "opt_einsum/backends/jax.py")), ["contract", "ContractExpression"]),
    ("C31", "Custom path finders are given the contraction and decide its path",
     "A user-defined optimizer object or registered strategy function is consulted once per contraction of three or more operands, through every entry point and notation, and is given the contraction: the index set of every operand in order, the output's index set, the extent of every index (the non-1 one where extents broadcast) and the memory limit as a number or none. "
     "Whatever complete path it answers is reported and used unchanged; what is not a path is rejected, its exceptions reach the caller unchanged, and the same object can serve any number of different contractions.",
     ["inputs", "configurations", "histories"], "all small equations x notations x limits x all answers of the finder",
     "Tests use one custom optimizer with one path.",
     [C, P], m(("contract_path", C), ("PathOptimizer, register_path_fn", P)), ["contract_path(optimize=custom)", "contract", "contract_expression"]),
    ("C32", "Generated test contractions are what was asked for",
     "Whatever the random choices, a generated equation has the requested number of tensors, none without index and none with a repeated index; each of the n*regularity//2 bonds is on exactly two tensors and summed, each requested output index is on exactly one tensor and kept, and a global dimension is on all of them and kept; "
     "sizes lie within the requested range and shapes agree with them. The same seed gives the same contraction. Shapes and arrays built for an equation string have, term by term, the sizes asked for, with one consistent expansion of an ellipsis.",
     ["schedules", "inputs"], "all outcomes of all random draws up to a number of index placements",
     "Tests use a few seeds.",
     ["opt_einsum/testing.py"], m(("rand_equation, build_shapes, build_views", "opt_einsum/testing.py"),), ["testing.rand_equation", "testing.build_shapes", "testing.build_views"]),
    ("C33", "Expressions evaluate numpy arrays on the chosen library and back",
     "An expression called with numpy arrays and a converting backend (cupy, theano, torch, jax, tensorflow) computes on that library and returns a numpy array, or fills the given output array. Every call uses the arrays it is given, "
     "whatever the history of earlier calls: other arrays, one array for several operands, arrays modified in between, calls within sharing contexts, pre-evaluated constants, failing calls. Constants are converted, and a graph or compiled function is built, once per expression and backend, "
     "not per call; library-native arrays give a native result.",
     ["inputs", "histories", "configurations"], "all call histories up to a depth x equations x constant subsets x libraries",
     "Tests call an expression once or twice per library, most of which are not installed.",
     [C, S, "opt_einsum/backends/dispatch.py", "opt_einsum/backends/cupy.py", "opt_einsum/backends/theano.py", "opt_einsum/backends/tensorflow.py", "opt_einsum/backends/torch.py", "opt_einsum/backends/jax.py"],
     m(("ContractExpression._contract_with_conversion", C), ("build_expression, evaluate_constants", "opt_einsum/backends/dispatch.py")), ["ContractExpression.__call__", "ContractExpression.evaluate_constants"]),
    ("C34", "Random greedy draws each contraction with the documented probabilities",
     "In every trial but the first, random greedy chooses at each step among the nbranch cheapest pairs of tensors that share a contractible index, with probabilities proportional to exp(-(cost - least cost) / temperature), "
     "where with rel_temperature the temperature is multiplied by the magnitude of the least cost (at least 1). Temperature zero leaves the pairs of least cost, equally likely, and nbranch=1 the greedy path. "
     "Pairs that were not chosen remain available, settings changed between runs take effect, and the jittered cost function is the size increase up to its noise.",
     ["schedules", "inputs", "configurations"], "all outcomes of all random draws x small networks x settings",
     "Tests check one seed's cost; a skewed distribution still gives valid paths.",
     [R, P], m(("thermal_chooser, RandomGreedy", R), ("ssa_greedy_optimize, cost_memory_removed_jitter", P)), ["RandomGreedy.setup (trial function)", "RandomGreedy"]),
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for pid, title, stmt, over, text, why, files, mech, obs in PROPS:
            assert len(title) <= 80, (pid, len(title))
            fh.write(json.dumps({
                "id": pid, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": mech, "observe_at": obs, "hook_needed": None},
            }) + "\n")
