"""C02: bounds computed from bounds of the operands contain every value (proved per function; the traversal is bounded)."""
import os
from vlib import build, check, nodespec
from irsym import build as B, bounds, nodes, simpl


def main():
    c = check.Check("C02")
    et = check.ExprTool(c)
    c.trusted += nodespec.TRUSTED
    c.assumptions += [
        "values of expressions and of bounds are mathematical integers: nothing overflows when the bounds are evaluated (the statement of C02)",
        "the operands of a bounds_of overload have defined ends (an unknown end is an infinity); operands of && || ! are bounds of "
        "boolean values, as the callers make them (mutate_boolean); an end that is an indeterminate expression makes no claim",
        "simplify(op, operands) preserves values (C01); evaluate_constant_lower_bound, _upper_bound and is_positive, ... satisfy their contracts (C03)",
        "staircase_sum_bounds satisfies its contract (C06); equal expressions (match) have equal values (C12)",
        "handles (ref_count) are plain pointers (C19); makers of nodes make the node they name",
        "finite * infinity is 0 if the finite operand is 0, and finite / infinity is 0: an infinity stands for an unknown integer",
    ]
    ok = True
    try:
        et.build()
    except build.BuildError as e:
        c.undecided.append("the tree does not build for the driver: " + str(e)[-1500:])
        ok = False
    specs = []
    try:
        srcs = ["slinky/builder/simplify_bounds.cc", "slinky/runtime/expr_stmt.cc"]
        B.many([(os.path.join(build.REPO, s), ()) for s in srcs])
        sb, es = map(B.repo, srcs)
        specs = bounds.specs(sb, es)
        specs += simpl.repo_specs("boundsof")
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    nodespec.lemmas(c, nodes.lemma_obligations() + simpl.lemma_obligations())
    nodespec.decide(c, et if ok else None, specs)
    if ok:
        k = 6 if c.thorough else 1
        s = c.seed * 100
        et.bounded("bounds_of(expr) on generated expressions", [("boundsof", s + i, 8000) for i in range(8 * k)])
        et.bounded("interval arithmetic on generated intervals", [("interval", s + i, 20000) for i in range(8 * k)])
        et.known()
    c.finish()
