"""C05: contracts of the integer arithmetic of slinky/base/arithmetic.h and of constant folding in runtime/expr.h."""
import os
from vlib import build, check, irspec
from irsym import build as B, arith


def main():
    c = check.Check("C05")
    c.trusted += irspec.TRUSTED
    c.assumptions += [
        "rounding and alignment helpers: positive divisors, and x + n representable (x - n for align_down), as the code computes with these; "
        "euclidean_div: not (INT_MIN, -1), whose quotient is not representable",
        "the templates are proved for int64_t and int32_t",
    ]
    drv = irspec.Driver(c, "arith.cc", [], ["slinky/base/arithmetic.cc"])
    specs = []
    try:
        drv.build()
        specs = arith.c05_specs([B.load(os.path.join(build.VERIF, "probes", "arith.cc"))])
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    irspec.decide(c, specs, drv, [(s.sym, 100000) for s in specs], lemmas=arith.lemmas()[:2])
    c.finish()
