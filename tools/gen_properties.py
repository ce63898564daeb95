#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept here so that the statements are easy to edit).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Simplifying a scalar expression never changes its value",
 "For every scalar expression and every assignment of integers to its variables for which no intermediate result overflows, evaluating the simplified expression gives the same integer as evaluating the original, also when the caller supplies true bounds or alignments for the variables. This includes every algebraic rewrite the simplifier can apply, division and modulo by negative numbers and by zero (which are defined as zero), and booleans, which are exactly 0 or 1.",
 ["inputs", "programs"], "all expressions (programs), all integer values of variables and of the constants matched by a rewrite",
 "The test suite checks a few hundred rewrites by example and fuzzes small random expressions with small constants; a rule whose side condition is wrong only for rare sign/divisibility combinations of its constants is never hit.",
 ["slinky/builder/simplify_rules.h", "slinky/builder/rewrite.h", "slinky/builder/simplify_exprs.cc", "slinky/builder/simplify.cc"],
 [("rewrite rule tables", "slinky/builder/simplify_rules.h: apply_{min,max,add,sub,mul,div,mod,less,equal,logical_*,select,call}_rules"),
  ("pattern matching/substitution engine", "slinky/builder/rewrite.h"),
  ("constant folding and rule dispatch", "slinky/builder/simplify_exprs.cc: simplify(const T*, expr, expr)"),
  ("simplifier expression visitors", "slinky/builder/simplify.cc: class simplifier, add_constant")],
 observe=["simplify(expr)", "evaluate(expr)"])

prop("C02", "Computed bounds always contain the value of the expression",
 "For every scalar expression whose variables lie in their given intervals, the interval the library computes as its bounds contains the value of the expression. The same holds for interval arithmetic, unions and intersections of intervals: any value that can arise from members of the operand intervals is a member of the result, and where an end of an interval is unknown the result never invents a finite end.",
 ["inputs", "programs"], "all operators, all intervals (including unbounded and undefined ends and ends given by expressions), all member values",
 "Tests check a handful of expressions at a handful of points; unsoundness appears for particular sign combinations of multiplier or divisor intervals, unbounded ends, or empty intervals.",
 ["slinky/builder/simplify_bounds.cc", "slinky/runtime/expr_stmt.cc", "slinky/builder/simplify.cc"],
 [("per-operator bounds", "slinky/builder/simplify_bounds.cc: bounds_of(const T*, ...)"),
  ("interval operators", "slinky/runtime/expr_stmt.cc: interval_expr operator*,/,%,+,-,|,&"),
  ("bounds propagation", "slinky/builder/simplify.cc: simplifier visitors, set_result")],
 observe=["bounds_of(expr, bounds)", "interval_expr operators"])

prop("C03", "Constant bounds and proofs about an expression hold for all its values",
 "When the library reports a constant, a constant lower bound or a constant upper bound of an expression, then for every assignment of its variables the value equals, is at least, or is at most that constant. When it reports an expression as known positive, negative, non-negative, non-positive, zero, non-zero, boolean, finite, true or false, every value of the expression agrees.",
 ["inputs", "programs"], "all expressions and all values of their free variables",
 "Such answers license deleting code and dropping checks, but tests only compare a few answers with the expected text; wrong answers arise for negative or mixed-sign operands that the examples do not contain.",
 ["slinky/builder/simplify.cc", "slinky/runtime/expr_stmt.cc"],
 [("constant evaluator", "slinky/builder/simplify.cc: class constant_evaluator, evaluate_constant*, constant_lower_bound, constant_upper_bound"),
  ("syntactic sign predicates", "slinky/runtime/expr_stmt.cc: is_positive, is_negative, is_zero, is_boolean, is_finite, ..."),
  ("proof queries", "slinky/builder/simplify.cc: prove_true, prove_false, attempt_to_prove")],
 observe=["evaluate_constant_lower_bound", "evaluate_constant_upper_bound", "prove_true", "prove_false"])

prop("C04", "Alignment facts derived for a value are true of the value",
 "Whenever x is congruent to r modulo m and y to s modulo n, the alignment the library derives for x+y, x-y, x*y, x/y, x%y, for a value known to be either of the two, or for a value known to be both is a congruence that the resulting value satisfies. Tightening an interval with such a congruence never removes a value that satisfies the congruence.",
 ["inputs"], "all moduli (including 0, exact, and 1, unknown), all remainders, all values of both signs without overflow",
 "Tests sample a few moduli; errors appear when one operand is exact, a divisor is negative, or moduli share factors.",
 ["slinky/base/modulus_remainder.h", "slinky/builder/simplify.cc", "slinky/base/arithmetic.h"],
 [("modulus/remainder arithmetic", "slinky/base/modulus_remainder.h: operators + - * / % | &"),
  ("greatest common divisor", "slinky/base/arithmetic.h: gcd, lcm"),
  ("tightening of bounds", "slinky/builder/simplify.cc: expr_info::trim_bounds_using_alignment")],
 observe=["modulus_remainder operators", "simplify(expr, bounds, alignment)"])

prop("C05", "Integer division, rounding, saturation and overflow tests are exact",
 "Division rounds so that the remainder is always in [0, |b|), with x/0 = x%0 = 0, and rounding and alignment helpers return the nearest multiple or quotient in the stated direction for every integer and every positive divisor for which their sum (or difference) is representable. Saturating operations return the exact result when it is representable and otherwise the nearest representable end, and overflow tests report overflow if and only if the exact result is not representable.",
 ["inputs"], "all 64-bit operands for which the operation is defined",
 "The domain has 2^128 points; the tests use a few hundred, and the off-by-one cases sit at sign changes and at the ends of the range.",
 ["slinky/base/arithmetic.h", "slinky/base/arithmetic.cc", "slinky/runtime/expr_stmt.cc"],
 [("Euclidean division and rounding", "slinky/base/arithmetic.h: euclidean_div, euclidean_mod, floor_div, ceil_div, round_div, align_up, align_down"),
  ("saturating and overflow-checked arithmetic", "slinky/base/arithmetic.h: add_sat, sub_sat, mul_sat, *_with_overflow; slinky/builder or runtime binary_overflows")],
 observe=["evaluate(expr)", "slinky/base/arithmetic.h"])

prop("C06", "Bounds on sums of quantized terms hold for every underlying value",
 "For a sum of two linear-then-floor-divided-then-scaled terms of the same integer, the constant interval the library derives contains the value of the sum for every integer. When it claims that one side has no bound it never claims a bound that some integer violates.",
 ["inputs"], "all integer offsets, positive divisors and multipliers, and all integers x",
 "The period of the combined staircase is the product of two divisors, so violations occur at isolated values of x far from those a test picks.",
 ["slinky/base/arithmetic.cc", "slinky/base/arithmetic.h", "slinky/builder/rewrite.h", "slinky/builder/simplify_bounds.cc"],
 [("staircase bounds", "slinky/base/arithmetic.cc: staircase_sum_bounds"),
  ("its use in rewriting", "slinky/builder/rewrite.h: replacement_staircase_sum_bound")],
 observe=["bounds_of", "simplify"])

prop("C07", "Views of a buffer address exactly the elements of the original buffer",
 "Cropping, slicing, transposing, translating or fusing dimensions of a buffer never changes the memory location of any element that remains addressable, and undoing a crop restores the buffer. A crop contains exactly the coordinates in both the old and the requested bounds, a slice at a coordinate contains exactly the elements with that coordinate, and reads outside the buffer's bounds are reported as outside.",
 ["inputs"], "all ranks, extents, strides, fold factors and coordinates (within the range in which byte offsets are representable)",
 "Tests use a few small buffers with positive dense strides and small offsets; broadcast (zero) strides, folds, negative strides and empty crops combine in unboundedly many ways.",
 ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc", "slinky/runtime/evaluate.cc"],
 [("dimension addressing", "slinky/runtime/buffer.h: dim::flat_offset_bytes, dim::contains, dim::extent"),
  ("view operations", "slinky/runtime/buffer.h, evaluate.cc: crop, slice, translate, fuse, transpose")],
 observe=["buffer::address_at", "buffer::contains", "buffer::crop/slice/translate/fuse"])

prop("C08", "Allocated buffers give distinct in-range addresses to distinct elements",
 "After strides are assigned to a buffer, distinct in-bounds coordinates of dimensions without a preset stride occupy non-overlapping bytes, every element lies inside the storage that is allocated for the buffer, and the computed size is never smaller than the span of its elements. Sizes that are not representable are reported as such rather than wrapped.",
 ["inputs", "configurations"], "all ranks, bounds, fold factors, element sizes and subsets of preset strides",
 "Tests allocate a few shapes; overlaps depend on the relative order of preset strides, alignment padding, empty and folded dimensions.",
 ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc", "slinky/runtime/evaluate.cc"],
 [("stride assignment and size", "slinky/runtime/buffer.cc: init_strides, alloc_size, size_bytes"),
  ("allocation", "slinky/runtime/buffer.cc: raw_buffer::make, allocate; evaluate.cc: visit(allocate)")],
 observe=["raw_buffer::init_strides", "raw_buffer::size_bytes", "raw_buffer::allocate"])

prop("C09", "Copy and pad write exactly the intersection and exactly the padding",
 "Copying one buffer into another makes every destination element that is within both buffers equal to the source element, makes every other destination element equal to the padding element when padding is given and leaves it unchanged otherwise, and writes nothing outside the destination. Filling a buffer sets every element and nothing else.",
 ["inputs"], "all pairs of buffers with arbitrary (possibly disjoint or empty) bounds, strides and element sizes",
 "The implementation fuses, reorders and broadcasts dimensions and has fast paths for contiguous data, so behaviour depends on combinations of shapes no finite set of examples covers.",
 ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h"],
 [("copy, pad and fill", "slinky/runtime/buffer.cc: copy, pad, fill, copy_small, optimize_dims")],
 observe=["slinky::copy", "slinky::pad", "slinky::fill"])

prop("C10", "Iteration over buffers visits every element exactly once",
 "Iterating over the elements, indices, contiguous slices or tiles of one or more buffers calls the function for every element of the first buffer exactly once, and for each gives the matching address of the same coordinates in every other buffer, or null where that buffer does not contain them.",
 ["inputs"], "all ranks, bounds, strides (including broadcast and folded dimensions) and numbers of buffers",
 "Iteration fuses dimensions and splits folded or cropped ranges; a miscount needs a particular combination of strides and bounds in several buffers.",
 ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc"],
 [("loop nest construction", "slinky/runtime/buffer.cc: make_for_each_loops; buffer.h: for_each_index, for_each_element, for_each_contiguous_slice")],
 observe=["for_each_index", "for_each_element", "for_each_contiguous_slice"])

prop("C11", "Buffer validation accepts only buffers whose addressing cannot overflow",
 "Whenever validation accepts a buffer, its element size and every dimension are in range and the byte offset of every in-bounds element relative to the buffer's base is representable without overflow. Whenever validation rejects a buffer, one of these is really violated.",
 ["inputs"], "all ranks and all 64-bit minima, maxima, strides and fold factors",
 "The failures are near the ends of the 64-bit range and depend on the interplay of several dimensions; tests try a few.",
 ["slinky/runtime/evaluate.cc", "slinky/runtime/buffer.cc", "slinky/runtime/buffer.h", "slinky/base/arithmetic.h"],
 [("validation", "slinky/runtime/evaluate.cc: validate_buffer"), ("size computation", "slinky/runtime/buffer.cc: calculate_flat_bounds")],
 observe=["call to the validate_buffer intrinsic", "raw_buffer::size_bytes"])

prop("C12", "Substitution and dependency queries agree with evaluation",
 "Substituting a value for a variable in a scalar expression, no inner let of which binds a name that the value uses, and then evaluating gives the same result as evaluating the original with the variable bound to that value; occurrences under an inner let of the same variable are left alone. An expression reported not to depend on a variable has the same value for every value of that variable, and two expressions reported structurally equal always have equal values under a consistent total order.",
 ["inputs", "programs"], "all expressions, variables and replacement expressions",
 "Capture and shadowing need specific nesting of names; tests include a few nestings only.",
 ["slinky/builder/substitute.cc", "slinky/runtime/depends_on.cc", "slinky/builder/node_mutator.cc"],
 [("structural comparison", "slinky/builder/substitute.cc: matcher"), ("substitution", "slinky/builder/substitute.cc: var_substitutor, expr_substitutor"),
  ("dependencies", "slinky/runtime/depends_on.cc")],
 observe=["substitute", "depends_on", "match", "compare"])

prop("C13", "Evaluating an expression computes its mathematical value",
 "Evaluating a scalar expression yields the mathematical value of each operator applied to the values of its operands, evaluates only the needed operand of short-circuit operators and conditionals, and leaves every variable binding as it was before. Let bindings are visible only in later bindings and in the body.",
 ["inputs", "programs"], "all expressions, all values of the bound variables without overflow",
 "Every other guarantee is stated relative to evaluation, which the tests only exercise for a few operators and values.",
 ["slinky/runtime/evaluate.cc", "slinky/runtime/evaluate.h", "slinky/runtime/expr.h"],
 [("expression evaluator", "slinky/runtime/evaluate.cc: class evaluator"), ("context", "slinky/runtime/evaluate.h: eval_context")],
 observe=["evaluate(expr, context)"])

prop("C14", "Buffers modified for a nested statement are restored afterwards",
 "After executing any statement that crops, slices, transposes, clones, allocates or makes a buffer for a nested body, the buffers and variables visible to the following statements have the bounds, strides, base and values they had before, whether or not the body failed. The body sees the buffer as the operation says. Memory obtained for an allocation is released exactly once, and the body of an allocation that failed does not run. Loops and blocks evaluate their bodies in order up to the first failure, which is their result; tasks see the variables as they were when they began.",
 ["inputs", "programs", "histories"], "all statement nestings and all failure points in the bodies",
 "Tests run successful pipelines; restoring after failure and unusual nestings are rarely exercised.",
 ["slinky/runtime/evaluate.cc"],
 [("statement visitors", "slinky/runtime/evaluate.cc: visit(crop_dim/crop_buffer/slice/transpose/allocate/...)")],
 observe=["evaluate(stmt, context)"])

prop("C15", "A parallel loop runs each iteration exactly once",
 "A parallel loop over n iterations calls its body for each index in [0, n) exactly once however the workers interleave, with no more workers than it may have; it does not return before all calls have finished, and threads that wait for a task return once it is done. Conditions that threads wait for and atomic calls run one at a time. (max_workers is at least 1, and bodies do not throw.)",
 ["schedules", "inputs"], "all interleavings of workers, all n and worker limits",
 "Tests observe a few interleavings; a duplicate or lost index needs a particular race between workers stealing shards.",
 ["slinky/base/thread_pool.h", "slinky/base/thread_pool_impl.cc", "slinky/base/thread_pool_impl.h"],
 [("shards and work stealing", "slinky/base/thread_pool_impl.h: task_impl"), ("worker loop", "slinky/base/thread_pool_impl.cc")],
 observe=["thread_pool::parallel_for", "thread_pool::enqueue", "thread_pool::wait_for", "thread_pool::atomic_call"])

prop("C16", "The result of a pipeline does not depend on its schedule",
 "For every pipeline, the values written to the output buffers are the same for every choice of loops, splits, parallelism, storage placement and computation order, and equal to computing every stage fully before its consumers.",
 ["configurations", "inputs", "schedules"], "all pipelines, all schedules, all input shapes",
 "Tests cover a fixed set of pipelines and schedules; the guarantee is over all of them.",
 ["slinky/builder/pipeline.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc"],
 [("lowering", "slinky/builder/pipeline.cc: build_pipeline"), ("sliding window", "slinky/builder/slide_and_fold_storage.cc")],
 observe=["pipeline::evaluate"])

prop("C17", "A pipeline rejects inputs that are too small instead of reading outside them",
 "Evaluating a pipeline with an input buffer that does not contain the region the outputs need fails with an error before any stage runs, and never reads or writes outside a buffer.",
 ["inputs", "programs"], "all pipelines and all input and output buffer shapes",
 "Tests try a few wrong shapes for a few pipelines.",
 ["slinky/builder/pipeline.cc", "slinky/runtime/evaluate.cc", "slinky/runtime/pipeline.cc"],
 [("generated checks", "slinky/builder/pipeline.cc: add_input_checks"), ("check evaluation", "slinky/runtime/evaluate.cc: visit(check)")],
 observe=["pipeline::evaluate"])

prop("C18", "Folded and aliased storage never overwrites a value that is still needed",
 "Whenever storage is reduced to a circular buffer or shared between two buffers, no element is overwritten before its last use, for every schedule the optimiser produces.",
 ["configurations", "inputs"], "all pipelines and schedules for which folding or aliasing is applied",
 "The condition depends on the whole access pattern of the pipeline; tests contain a few patterns.",
 ["slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc"],
 [("folding", "slinky/builder/slide_and_fold_storage.cc"), ("aliasing", "slinky/builder/optimizations.cc: alias_buffers")],
 observe=["pipeline::evaluate"])

prop("C19", "Shared expression and statement nodes are freed exactly once, when unused",
 "Every node reachable from a live handle stays valid, and is destroyed exactly once, when the last handle to it goes away, for every sequence of copies, moves, assignments (including self-assignment) and destructions of handles.",
 ["histories"], "all sequences of handle operations",
 "Tests run under no leak checking in this build and exercise only the sequences the code happens to use.",
 ["slinky/base/ref_count.h", "slinky/runtime/expr.h"],
 [("intrusive reference counting", "slinky/base/ref_count.h: ref_counted, ref_count")],
 observe=["expr/stmt copy, move, assignment, destruction"])

prop("C20", "Scoped bindings in symbol tables are always restored",
 "After a scoped binding of a name ends, looking up that name gives what it gave before the scope began, and looking up any other name gives what it gave just before the scope ended, for every nesting of scopes (scopes that began later end earlier) and every sequence of bindings, erasures and clearing of the table within them; a scope that is moved from or has ended changes nothing, and a lookup gives exactly what was last bound.",
 ["histories"], "all sequences of nested scoped bindings and lookups over all names",
 "Analyses rely on it at every let, loop and buffer declaration, but tests exercise it only indirectly.",
 ["slinky/runtime/expr.h", "slinky/runtime/evaluate.h"],
 [("symbol map", "slinky/runtime/expr.h: symbol_map"), ("scoped value", "slinky/runtime/expr.h: scoped_value_in_symbol_map")],
 observe=["symbol_map", "set_value_in_scope"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
