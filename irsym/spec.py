"""Runs specifications (setup, postcondition) of functions through the executor, in parallel, and collects the obligations."""
import multiprocessing as mp
import time, traceback
import z3
from . import ex as X

SPECS = None


class Spec:
    """name: of the function under contract. make(ex) -> (function, setup, post). setup(st) -> argument values; inputs is the
    list of (name, term) whose model values are a counterexample."""
    def __init__(self, name, modules, make, contracts=(), case=None, timeout=6.0, unroll=12, max_paths=4000, prover=None, budget=200.0,
                 configure=None):
        self.name, self.modules, self.make, self.contracts, self.case = name, modules, make, contracts, case
        self.timeout, self.unroll, self.max_paths, self.prover, self.budget = timeout, unroll, max_paths, prover, budget
        self.configure = configure


def run_one(k):
    s = SPECS[k]
    out = {"spec": k, "name": s.name, "results": [], "undecided": [], "inlined": [], "contracted": [], "seconds": 0.0, "paths": 0}
    t0 = time.time()
    try:
        ex = X.Executor(s.modules, timeout=s.timeout, unroll=s.unroll, max_paths=s.max_paths, deadline=time.time() + s.budget)
        ex.prover = s.prover
        ex.inputs = {}
        for c in s.contracts:
            c(ex)
        if s.configure:
            s.configure(ex)
        fn, setup, post = s.make(ex)
        if fn is None:
            out["undecided"].append("%s: not found in the compiled code" % s.name)
            return out
        ex.verify(s.name, fn, setup, post)
        if getattr(s, "finish", None) is not None and not ex.undecided:
            s.finish(ex)
        for r in ex.results:
            m = None
            if r.model is not None:
                m = {}
                for n, t in ex.inputs.items():
                    v = r.model.eval(t, model_completion=True)
                    m[n] = v.as_long() if z3.is_int_value(v) else z3.is_true(v)
            out["results"].append((r.name, r.result, r.backend, r.seconds, m))
        seen = {}
        for u in ex.undecided:
            seen[u] = seen.get(u, 0) + 1
        out["undecided"] += ["%s%s" % (u, " (%d paths)" % n if n > 1 else "") for u, n in seen.items()]
        out["inlined"] = sorted(ex.inlined)
        out["contracted"] = sorted(ex.contracted)
        out["paths"] = ex.paths
    except X.Undecided as e:
        out["undecided"].append("%s: %s" % (s.name, e))
    except Exception as e:
        out["undecided"].append("%s: internal: %s" % (s.name, traceback.format_exc()[-900:]))
    out["seconds"] = time.time() - t0
    return out


def run(specs, jobs=8):
    global SPECS
    SPECS = specs
    with mp.Pool(jobs) as pool:
        outs = list(pool.imap_unordered(run_one, range(len(specs))))
        # The solvers work against the clock: what is not discharged gets a second attempt with more time.
        bad = lambda o: sum(r[1] != "unsat" for r in o["results"]) + len(o["undecided"])
        again = [o["spec"] for o in outs if bad(o)]
        second = {o["spec"]: o for o in pool.imap_unordered(run_again, again)}
    return [second[o["spec"]] if o["spec"] in second and bad(second[o["spec"]]) <= bad(o) else o for o in outs]


def run_again(k):
    s = SPECS[k]
    t = s.timeout, s.budget
    s.timeout, s.budget = 2 * t[0], 1.5 * t[1]
    try:
        return run_one(k)
    finally:
        s.timeout, s.budget = t


def report(check, specs, outs):
    """Adds the obligations to the evidence; returns the failed ones: (spec, obligation name, result, model)."""
    failed = []
    inl, con, paths = set(), set(), 0
    for o in sorted(outs, key=lambda o: o["spec"]):
        by = {}
        for name, res, be, sec, m in o["results"]:
            d = by.setdefault(name, {"n": 0, "bad": [], "be": set(), "sec": 0.0})
            d["n"] += 1
            d["sec"] += sec
            if res == "unsat":
                d["be"].add(be)
            else:
                d["bad"].append((res, m))
        for name, d in by.items():
            res = "discharged"
            if d["bad"]:
                res = "sat" if any(r == "sat" for r, _ in d["bad"]) else "unknown"
                mod = next((m for r, m in d["bad"] if r == "sat"), None)
                failed.append((specs[o["spec"]], name, res, mod))
            check.obligation("%s: %s" % (o["name"], name), res, "+".join(sorted(d["be"])) or "-", d["sec"], function=o["name"])
        for u in o["undecided"]:
            check.undecided.append(u)
        inl.update(o["inlined"])
        con.update(o["contracted"])
        paths += o["paths"]
    n = check.notes
    n["functions_executed_inline"] = sorted(set(n.get("functions_executed_inline", [])) | inl)
    n["functions_used_by_contract"] = sorted(set(n.get("functions_used_by_contract", [])) | con)
    n["paths"] = n.get("paths", 0) + paths
    return failed
