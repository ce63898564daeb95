"""Checks made of contracts over expression nodes; failing inputs are searched for with exprtool on the real code."""
import concurrent.futures as cf
import time
from . import check
from irsym import spec as S
from e1 import prove as P

TRUSTED = ["z3 and cvc5", "clang++-18 as the front end (C++ to LLVM IR, -O1 without optimisation passes, then opt sroa)",
           "irsym: the LLVM IR parser and the verification condition generator in /verif/irsym",
           "the denotation of expression nodes in irsym/nodes.py (what each node type means, including infinities)"]


def lemmas(c, obs):
    def one(a):
        n, h, g = a
        t = time.time()
        r, be, _ = P.prove(h, g, None, 5.0, 20.0)
        return n, r, be, time.time() - t
    for n, r, be, sec in map(one, obs):
        c.obligation(n, "discharged" if r == "unsat" else r, be, sec)
        if r != "unsat":
            c.undecided.append("lemma not discharged: " + n)


def decide(c, et, specs, budget=100, jobs=check.JOBS):
    """Runs the specs. For a function with a failed obligation, the real code is searched for a failing input; a definite
    counterexample to the obligation without one is reported as such; an obligation without an answer is undecided."""
    outs = S.run(specs, jobs) if specs else []
    failed = S.report(c, specs, outs)
    c.notes["slowest_specifications"] = sorted(((round(o["seconds"], 1), o["name"]) for o in outs), reverse=True)[:8]
    c.log("%d specifications, %d failed obligations" % (len(specs), len(failed)))
    by = {}
    for s, name, res, m in failed:
        by.setdefault(s.name, []).append((s, name, res, m))
    found = {}
    for fn, l in by.items():
        kinds = l[0][0].kinds
        key = tuple(kinds)
        if key not in found:
            found[key] = None
            if et is not None and et.plain is not None:
                fails, _ = et.search([(k, c.seed * 7700 + 31 * i, 20000) for i in range(8) for k in kinds], timeout=budget)
                for a, case, out in fails:
                    if case:
                        bad, out = et.replay(case)
                        if bad:
                            found[key] = (case, out)
                            break
        if found[key]:
            case, out = found[key]
            s, name, res, m = l[0]
            c.violation("%s: %s" % (fn, name), "failed obligations:\n%s\nfailing input on the real code: %s\n%s" %
                        ("\n".join("%s: %s: solver: %s" % (s.name, n, r) for s, n, r, _ in l), case, out))
            continue
        sat = [x for x in l if x[2] == "sat"]
        if sat:
            c.violation("%s: %s" % (fn, sat[0][1]), "failed obligations:\n%s\nno failing input was found on the real code" %
                        "\n".join("%s: %s: solver: %s: %s" % (s.name, n, r, str(m)[:800]) for s, n, r, m in sat), found=False)
        for s, n, r, m in l:
            if r != "sat":
                c.undecided.append("not discharged (%s), and no failing input was found on the real code: %s: %s" % (r, fn, n))
    return failed
