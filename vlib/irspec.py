"""Checks made of executor specifications and a driver that replays counterexamples on the real code."""
import concurrent.futures as cf
import os, re, subprocess, time
from . import build, check
from irsym import spec as S
from e1 import prove as P

TRAP = ("-O1", "-fsanitize=signed-integer-overflow,integer-divide-by-zero,null,unreachable", "-fsanitize-trap=all")
TRUSTED = ["z3 and cvc5", "clang++-18 as the front end (C++ to LLVM IR, -O1 without optimisation passes, then opt sroa)",
           "irsym: the LLVM IR parser and the verification condition generator in /verif/irsym"]


class Driver:
    """A program `one SYM args` / `search SYM SEED N` with exit 0 held, 1 violated, 3 outside of the contract."""
    def __init__(self, c, src, libs=None, extra_src=()):
        self.c = c
        self.src = os.path.join(build.VERIF, "drivers", src)
        self.exe = None
        self.extra = [os.path.join(build.REPO, s) for s in extra_src]
        self.libs = libs

    def build(self):
        self.exe = build.program([self.src] + self.extra, os.path.splitext(os.path.basename(self.src))[0], TRAP, self.libs if self.libs is not None else [])

    def run(self, args, timeout):
        try:
            r = subprocess.run([self.exe] + [str(a) for a in args], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               errors="replace")
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return None, ""

    def one(self, sym, args, timeout=60):
        rc, out = self.run(["one", sym] + list(args), timeout)
        if rc is None:
            return True, "no result after %d seconds" % timeout
        return rc == 1, out

    def search(self, sym, seed, n, timeout=200):
        """(case or None, statistics)"""
        rc, out = self.run(["search", sym, seed, n], timeout)
        m = re.search(r"^STATS cases (\d+) in-contract (\d+)", out, re.M)
        st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if rc == 1:
            m = re.search(r"^(?:FAIL|CRASH) case: (.*)$", out, re.M)
            return (m.group(1) if m else None), st, out[-1500:]
        return None, st, ""


def vacuity(c, outs):
    pass


def decide(c, specs, drv, searches, jobs=check.JOBS, lemmas=()):
    """Proves the specs; replays and searches for failing inputs; reports. searches: [(sym, n)] of the bounded part."""
    for n, h, g in lemmas:
        t = time.time()
        r, be, _ = P.prove(h, g, None, 5.0, 20.0)
        c.obligation(n, "discharged" if r == "unsat" else r, be, time.time() - t)
        if r != "unsat":
            c.undecided.append("lemma not discharged: " + n)
    failed = []
    if specs:
        outs = S.run(specs, jobs)
        failed = S.report(c, specs, outs)
        c.log("%d specifications, %d failed obligations" % (len(specs), len(failed)))
    reported = set()
    if drv is None or drv.exe is None:
        for s, name, res, m in failed:
            c.undecided.append("not discharged (%s), and no driver to replay it: %s: %s" % (res, s.name, name))
        return
    by = {}
    for s, name, res, m in failed:
        by.setdefault(s.sym, []).append((s, name, res, m))

    def confirm(sym):
        l = by[sym]
        for s, name, res, m in l:
            if m is not None:
                bad, out = drv.one(sym, [m.get(n, 0) for n in s.names])
                if bad:
                    return s, name, res, "%s %s" % (sym, " ".join(str(m.get(n, 0)) for n in s.names)), out
        for k in range(4):
            case, _, out = drv.search(sym, c.seed * 77 + k, 400000 if "staircase" not in sym else 20000, 100)
            if case:
                return l[0][0], l[0][1], l[0][2], case, out
        return None
    with cf.ThreadPoolExecutor(jobs) as ex:
        for sym, r in zip(list(by), ex.map(confirm, list(by))):
            if r:
                s, name, res, case, out = r
                reported.add(sym)
                c.violation("%s: %s" % (s.name, name), "failed obligation: %s: %s\nsolver: %s\nfailing input (replay with: %s one %s):\n%s" %
                            (s.name, name, res, os.path.relpath(drv.exe, build.VERIF), case, out))
            else:
                # A definite failure without a failing input is one violation per function; an obligation on which the solvers
                # gave up is undecided.
                sat = [x for x in by[sym] if x[2] == "sat"]
                if sat:
                    s, name, res, m = sat[0]
                    c.violation("%s: %s" % (s.name, name), "failed obligations:\n%s\nno failing input was found on the real code" %
                                "\n".join("%s: %s: solver: %s: %s" % (s.name, name, res, m) for s, name, res, m in sat), found=False)
                for s, name, res, m in by[sym]:
                    if res != "sat":
                        c.undecided.append("not discharged (%s), and no failing input was found on the real code: %s: %s" % (res, s.name, name))
        # The bounded part: runs whether or not the proof succeeded.
        st = {"what": "search for failing inputs of the same contracts on the real code", "evaluations": 0, "distinct_nontrivial": 0}
        k = 20 if c.thorough else 1
        for (sym, n), (case, (ev, inc), out) in zip(searches, ex.map(lambda a: drv.search(a[0], c.seed, a[1] * k, 600 if c.thorough else 200), searches)):
            st["evaluations"] += ev
            st["distinct_nontrivial"] += inc
            if case and sym not in reported:
                reported.add(sym)
                c.violation("contract of %s on the real code" % sym.replace("p_", "", 1), "failing input (replay with: %s one %s):\n%s" %
                            (os.path.relpath(drv.exe, build.VERIF), case, out))
        c.bounded.append(st)
