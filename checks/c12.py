"""C12: substitution and dependency queries agree with evaluation (proved for expressions; generated expressions on the real code too)."""
import os
from vlib import build, check, nodespec
from irsym import build as B, deps, makers, match, nodes, subst


def main():
    c = check.Check("C12")
    et = check.ExprTool(c)
    c.trusted += nodespec.TRUSTED + [
        "std::vector, std::function and std::pair: their contracts in irsym (growing, copying and moving)"]
    c.assumptions += [
        "values of expressions are mathematical integers (C13), and a call is a function of what is called and of the values of its arguments; "
        "calls with user targets compare equal only if they are the same node",
        "names are below 2^40 and calls have fewer than 2^31 arguments",
        "the first argument of buffer_at is a plain variable, which only a plain variable replaces; fields of a buffer are replaced only when a "
        "plain variable is what replaces it",
        "no let binds a name that the replacement uses (other than the name replaced)",
        "expressions are finite: the visitor of a node is verified against the contracts of mutate, try_match and the visitors for the operands",
        "the order of the addresses of nodes is a total order; handles (ref_count) are plain pointers (C19)",
        "appending to the dependencies found does not disturb the iteration over those of another map",
        "substitution in statements and of expressions for buffers is not covered",
        "debugging assertions are not obligations",
    ]
    ok = True
    try:
        et.build()
    except build.BuildError as e:
        c.undecided.append("the tree does not build for the driver: " + str(e)[-1500:])
        ok = False
    specs, lem = [], []
    try:
        srcs = ["slinky/builder/substitute.cc", "slinky/builder/node_mutator.cc", "slinky/runtime/expr_stmt.cc", "slinky/runtime/depends_on.cc"]
        B.many([(os.path.join(build.REPO, s), ()) for s in srcs])
        sub, nm, es, dep = map(B.repo, srcs)
        specs = match.specs(sub) + deps.specs(es, dep) + subst.specs(sub, nm, es) + makers.specs(es)
        lem = deps.lemma_obligations(nodes.layout()) + subst.lemma_obligations(nodes.layout())
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    specs = [s for s in specs if s is not None]
    nodespec.lemmas(c, lem)
    nodespec.decide(c, et if ok else None, specs)
    if ok:
        k = 6 if c.thorough else 1
        s = c.seed * 100
        et.bounded("substitution, dependencies and comparison of generated expressions", [("subst", s + i, 20000) for i in range(8 * k)])
        et.known()
    c.finish()
