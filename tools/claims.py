claim("C01", "per-rule proof obligations generated from the real rewrite rules and function contracts on the simplifier's visitors (verification conditions from the compiler's IR), discharged by z3/cvc5",
      "Proved for all operand values: every rewrite rule (pattern, replacement, predicate), extracted from simplify_rules.h by compiling it, and the makers of nodes; "
      "every visitor of an arithmetic, comparison, logical, select, constant or variable node in simplify.cc, what is learned from conditions, "
      "the tightening of bounds by alignments, and simplify(op, operands), by function contracts over the compiler's IR. "
      "Bounded: lets, calls, the scoping of the simplifier's tables, statements. Assumes no intermediate result overflows, and the contracts of C03 and C06 for predicates.")
claim("C04", "function contracts on modulus_remainder.h, gcd and lcm: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all 64-bit moduli, remainders and members: operators + - * / % | &, gcd (loop invariant), lcm, and the tightening of an interval by an alignment. Values and results are assumed representable.")
claim("C05", "function contracts on arithmetic.h and expr.h: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all operands of int64_t and int32_t: Euclidean division, rounding and alignment helpers (positive divisors), saturating and overflow-checked "
      "arithmetic, constant folding helpers.")
claim("C06", "function contract and loop invariant on staircase_sum_bounds: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all parameters and all integers x, including that nothing in the computation overflows.")
claim("C02", "function contracts on bounds_of(op, intervals) for every operator and on the interval operators: verification conditions generated from the compiler's IR of the real code over a model of expression nodes, discharged by z3/cvc5",
      "Proved for all operand values and interval ends, including infinite ends: all bounds_of overloads of simplify_bounds.cc, match(staircase), "
      "interval_expr operators of expr_stmt.cc, the visitors of simplify.cc that combine them (bounds and alignment returned with each value), and learned bounds. "
      "Bounded: bounds of lets and calls through the traversal. Assumes C01, C03, C06 contracts for the callees.")
claim("C03", "function contracts on the visitors of constant_evaluator and on the predicates of expr_stmt.cc: verification conditions generated from the compiler's IR of the real code over a model of expression nodes, discharged by z3/cvc5",
      "Proved for all expressions (structural induction over the visitors) and all values: evaluate_constant*, constant_lower_bound, constant_upper_bound, "
      "is_positive ... is_finite, is_true, is_false, boolean, strip_boolean. Bounded: attempt_to_prove, which goes through the simplifier.")
claim("C13", "function contracts on the expression evaluator: verification conditions generated from the compiler's IR of the real code over a model of expression nodes, contexts and buffers, discharged by z3/cvc5",
      "Proved for all defined expressions (structural induction), contexts and buffers: every function of evaluator in evaluate.cc that takes an expression, "
      "except calls to user functions and the intrinsics with effects, whose contracts are assumed. Includes loop invariants for lets and calls.")
claim("C07", "function contracts on raw_buffer and dim: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all buffers of every rank and all coordinates: dim::contains, flat_offset_bytes and the like, raw_buffer::dim, address_at, contains (also of spans), "
      "slice (also of a span of dimensions), crop, translate, can_fuse, fuse. Bounded: transpose and the view functions taking several arguments.")
claim("C08", "function contracts on allocation sizes and stride assignment: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all buffers of every rank: alloc_size, size_bytes and the base offset cover every element, unrepresentable sizes are reported, init_strides' fast path "
      "gives packed strides, allocate. Bounded: the general stride assignment around preset strides.")
claim("C11", "function contracts on buffer validation: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all buffers of every rank: validation accepts exactly the buffers whose element size, dimensions and element offsets are representable.")
claim("C09", "function contracts on filling: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all values, sizes and addresses: is_repeated_byte, fill, optimize_fill_value (loop invariants over the bytes of memory), slice_dim0, unslice_dim0. "
      "Bounded: copy and pad, which compose these with C07 and C10.")
claim("C10", "function contracts on the loops over buffers: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all dimensions, folds and addresses: the linear and the non-linear loops, which visit each coordinate once with its address in each buffer (ghost cursor), "
      "the tests for fusing, slicing and linearity, the callbacks, for 1 and 2 buffers (mostly 3). Bounded: the planning of loops, other numbers of buffers.")
claim("C19", "rely/guarantee contracts on reference counts: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all histories of handles to a node on any number of threads: every operation of ref_count (and of expr and stmt, which are made of it), ref_counted and "
      "base_node::destroy keeps the count equal to the number of handles, with handles inside of nodes and aliasing; nodes are destroyed once, by the last release.")
claim("C20", "function contracts on symbol tables and scopes: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all tables and names (values that are integers): every operation of symbol_map and scoped_value_in_symbol_map, the order in which simplifier::knowledge and "
      "deshadower end their scopes; a lemma composes scopes that nest. Bounded: other types of values, deshadow and simplify as users.")
claim("C15", "rely/guarantee contracts on the thread pool: verification conditions generated from the compiler's IR of the real code, discharged by z3/cvc5",
      "Proved for all interleavings, numbers of iterations, workers and tasks: construction and allocation of tasks, shard::work, task::work, worker places, done, "
      "all_work_started, dequeue, the waits (with the protocol of the lock and the condition variables), enqueue, atomic_call, run_worker, work_until_idle, parallel_for; "
      "lemmas compose them to: each iteration is called once, and has returned when the loop returns. Bounded: termination of waits as a whole (threads on the real pool).")
claim("C12", "function contracts on matching, substitution and dependency queries: verification conditions generated from the compiler's IR of the real code over a model of expression nodes, discharged by z3/cvc5",
      "Proved for all expressions (structural induction over the visitors, loop invariants), names and replacements: match and the orders of expressions, substitution of variables, "
      "expressions and buffer fields of scalar expressions, depends_on and its variants with lets and calls, makers of nodes. Not covered: substitution in statements.")
claim("C14", "function contracts on the statement evaluator: verification conditions generated from the compiler's IR of the real code over a model of statement nodes, contexts and buffers, discharged by z3/cvc5",
      "Proved for all statements (structural induction), buffers of every rank and results of bodies: every function of evaluator in evaluate.cc that takes a statement, with "
      "what bodies see, what is restored, the order of evaluation, allocations and frees, contexts of tasks. Assumes user functions and hooks leave descriptors alone.")
NA["C16"] = ("equality of the outputs of two schedules is about the execution of statement trees that pipeline.cc, slide_and_fold_storage.cc and optimizations.cc build by mutating "
             "trees; a contract of these passes would have to relate their maps, closures and partly built statements to a denotation of statements with memory, for "
             "which this verifier has no model; running pipelines instead would be testing, another family")
NA["C17"] = ("the checks that reject inputs are built by the pipeline builder from bounds inferred for the whole pipeline; their sufficiency is a statement about all accesses of "
             "user callbacks under all schedules, which no contract within reach expresses (that a check that fails stops the evaluation before what follows is part of C14)")
NA["C18"] = ("the condition is about the access pattern of whole pipelines over time; folding and aliasing decide it through bounds simplified at build time, and a contract would need a "
             "denotation of statements with memory over the trees these passes mutate, which this verifier has no model for")
