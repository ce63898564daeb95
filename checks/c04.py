"""C04: contracts of modulus_remainder's operators, gcd and lcm."""
import os
from vlib import build, check, irspec, nodespec
from irsym import build as B, arith, simpl


def main():
    c = check.Check("C04")
    c.trusted += irspec.TRUSTED
    c.assumptions += [
        "values and results are representable in 64 bits; for the intersection (&) a modulus is not the most negative integer",
        "euclidean_div and euclidean_mod satisfy their contracts (C05)",
    ]
    drv = irspec.Driver(c, "arith.cc", [], ["slinky/base/arithmetic.cc"])
    specs = []
    try:
        drv.build()
        specs = arith.c04_specs([B.load(os.path.join(build.VERIF, "probes", "arith.cc"))])
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    irspec.decide(c, specs, drv, [(s.sym, 600000 if "_mr_" in s.sym else 100000) for s in specs], lemmas=arith.lemmas())
    try:
        mod = B.repo("slinky/builder/simplify.cc")
        nodespec.decide(c, None, [simpl.trim_spec(mod)])
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    c.finish()
