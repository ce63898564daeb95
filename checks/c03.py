"""C03: constant bounds and predicates hold for every value (proved per function; proofs by simplification are bounded)."""
import os
from vlib import build, check, nodespec
from irsym import build as B, constev, nodes


def main():
    c = check.Check("C03")
    et = check.ExprTool(c)
    c.trusted += nodespec.TRUSTED
    c.assumptions += [
        "values of expressions are mathematical integers; an indeterminate value makes no claim, and an infinity stands for an unknown "
        "integer beyond every constant",
        "a let whose lets use the names of variables that are already bound is not considered (C01)",
        "evaluation order and recursion: the visitor of a node is verified against the contract of node_mutator::mutate for the operands "
        "(structural induction; expressions are finite)",
        "equal pointers are the same expression; handles (ref_count) are plain pointers (C19); makers of nodes make the node they name",
        "euclidean_div and euclidean_mod satisfy their contracts (C05)",
        "attempt_to_prove, prove_true and prove_false go through the simplifier (C01): bounded here",
        "debugging assertions are not obligations",
    ]
    ok = True
    try:
        et.build()
    except build.BuildError as e:
        c.undecided.append("the tree does not build for the driver: " + str(e)[-1500:])
        ok = False
    specs = []
    try:
        srcs = ["slinky/builder/simplify.cc", "slinky/runtime/expr_stmt.cc", "slinky/builder/simplify_bounds.cc"]
        B.many([(os.path.join(build.REPO, s), ()) for s in srcs])
        specs = constev.specs(*map(B.repo, srcs))
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    nodespec.lemmas(c, nodes.lemma_obligations())
    nodespec.decide(c, et if ok else None, specs)
    if ok:
        k = 6 if c.thorough else 1
        s = c.seed * 100
        et.bounded("constant bounds of generated expressions", [("const", s + i, 20000) for i in range(8 * k)])
        et.bounded("answers of attempt_to_prove on generated conditions", [("prove", s + i, 8000) for i in range(8 * k)])
        et.bounded("predicates on generated expressions", [("pred", s + i, 20000) for i in range(8 * k)])
        et.known()
    c.finish()
