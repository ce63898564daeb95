"""C13: evaluating an expression computes its mathematical value (proved per function of the evaluator)."""
from vlib import build, check, nodespec
from irsym import build as B, evals


def main():
    c = check.Check("C13")
    rt = check.RtTool(c)
    c.trusted += nodespec.TRUSTED
    c.assumptions += [
        "the expression is defined: no operation on the way overflows, no infinity or indeterminate value is evaluated, and the names are "
        "bound (operands that are not needed are not considered)",
        "recursion: each evaluator function is verified against the contract of the others for the operands (structural induction)",
        "calls to user functions, and the intrinsics with effects (semaphores, wait_for, trace, free, validate_buffer), leave the context "
        "unchanged; their results are not specified here",
        "the memory suffices for the context to grow; std::vector::resize keeps the values and adds arbitrary ones",
        "equal pointers are the same expression; handles (ref_count) are plain pointers (C19)",
        "raw_buffer::size_bytes returns the size in bytes of the buffer (C08, C11); euclidean_div and euclidean_mod satisfy their contracts (C05)",
        "debugging assertions are not obligations",
    ]
    ok = True
    try:
        rt.build()
    except build.BuildError as e:
        c.undecided.append("the tree does not build for the driver: " + str(e)[-1500:])
        ok = False
    specs = []
    try:
        specs = evals.specs(B.repo("slinky/runtime/evaluate.cc"))
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    nodespec.lemmas(c, evals.lemma_obligations())
    nodespec.decide(c, rt if ok else None, specs)
    if ok:
        k = 10 if c.thorough else 1
        s = c.seed * 100
        rt.bounded("evaluation of generated expressions", [("rteval", s + i, 20000 * k) for i in range(8)])
    c.finish()
