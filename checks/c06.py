"""C06: contract of staircase_sum_bounds: its constant bounds hold for every integer."""
import os
from vlib import build, check, irspec
from irsym import build as B, arith


def main():
    c = check.Check("C06")
    c.trusted += irspec.TRUSTED
    c.assumptions += ["euclidean_div and lcm satisfy their contracts (C05, C04)", "values are mathematical integers (the statement of C06)"]
    drv = irspec.Driver(c, "arith.cc", [], ["slinky/base/arithmetic.cc"])
    specs = []
    try:
        drv.build()
        a = (os.path.join(build.VERIF, "probes", "arith.cc"), ())
        b = (os.path.join(build.REPO, "slinky", "base", "arithmetic.cc"), ())
        B.many([a, b])
        mods = [B.load(*a), B.load(*b)]
        specs = arith.c06_specs(mods) + [s for s in arith.c04_specs(mods) if s.sym.startswith(("p_gcd_64", "p_lcm_64"))]
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    irspec.decide(c, specs, drv, [(s.sym, 20000 if "stair" in s.sym else 50000) for s in specs], lemmas=arith.lemmas() + arith.stair_lemmas())
    c.finish()
