"""C01: every rewrite rule of the simplifier and every visitor of expressions preserves values (proved); the simplifier as a
whole, on generated expressions (bounded)."""
import multiprocessing as mp
import os, re, subprocess, time
from irsym import build as B, makers, nodes, simpl
from vlib import build, check, nodespec
from e1 import rules as R, prove as P

RULES = None


def _prove(i):
    out = []
    for o in R.obligations(RULES[i]):
        t = time.time()
        if o.unknown:
            out.append((i, o.name, "unknown", "", 0.0, o.unknown, None))
            continue
        r, b, m = P.prove(o.hyps, o.goal, getattr(o, "env", None))
        vac = None
        if r == "unsat":
            # Vacuity: the hypotheses must be satisfiable.
            vr, _ = P.check(o.hyps, P.z3.BoolVal(False), 0.5)
            vac = {"sat": False, "unsat": True}.get(vr)
        case = None
        if m is not None and not o.ext:
            case = model_case(o, m)
        out.append((i, o.name, r, b, time.time() - t, str(m)[:1500] if m is not None else "", (case, vac)))
    return out


def model_case(o, m):
    """The counterexample of a failed rule obligation as an input of the real simplifier."""
    env = {}

    def val(k):
        v = o.vars.get(k)
        if v is None:
            return 0
        return m.eval(v, model_completion=True).as_long()

    def s(t):
        h = t[0]
        if h == "wild":
            i = int(t[1])
            env[i] = val(R.WN[i])
            return "(var %d)" % i
        if h == "const":
            return "(int %d)" % val("c" + t[1])
        if h in ("int", "bool"):
            return "(int %s)" % t[1]
        if h == "staircase":
            a = [s(c) for c in t[1:]]
            return "(mul (div (add %s %s) %s) %s)" % tuple(a)
        return "(%s %s)" % (h, " ".join(s(c) for c in t[1:]))
    try:
        e = s(o.variant)
    except Exception:
        return None
    for k in range(8):
        env.setdefault(k, 0)
    if any(abs(v) >= 2**63 for v in env.values()):
        return None
    return "(simplify %s (bounds) (align) (env %s))" % (e, " ".join("(%d %d)" % kv for kv in sorted(env.items())))


def prove_rules(c, et):
    global RULES
    try:
        exe = build.program(os.path.join(build.VERIF, "e1", "extract_rules.cc"), "extract_rules")
        text = subprocess.run([exe], text=True, stdout=subprocess.PIPE, timeout=120).stdout
        RULES = R.load(text)
    except Exception as e:
        c.undecided.append("the rules could not be extracted: " + str(e)[-800:])
        return None
    rf = os.path.join(build.outdir(), "rules.txt")
    open(rf, "w").write(text)
    c.log("%d rules extracted from simplify_rules.h" % len(RULES))
    # Lemmas used as hints are obligations themselves.
    for n, ob in (("lemma: products with a factor of at least one", ([], P.lemma_obligation())),
                  ("lemma: quotients of shifted dividends", P.lemma_obligation2())):
        t = time.time()
        r, _ = P.check(ob[0], ob[1], 20)
        c.obligation(n, "discharged" if r == "unsat" else r, "z3", time.time() - t)
        if r != "unsat":
            c.undecided.append("lemma not discharged: " + n)
    vac = {"nonvacuous": 0, "vacuous": [], "unknown": 0}
    failed = []
    with mp.Pool(check.JOBS) as pool:
        for l in pool.imap_unordered(_prove, range(len(RULES))):
            for i, name, r, b, dt, info, extra in l:
                c.obligation(name, "discharged" if r == "unsat" else r, b, dt, function="apply_%s_rules" % RULES[i].table)
                if r == "unsat":
                    v = extra[1] if extra else None
                    if v is None:
                        vac["unknown"] += 1
                    elif v:
                        vac["vacuous"].append(name)
                    else:
                        vac["nonvacuous"] += 1
                else:
                    failed.append((i, name, r, info, extra[0] if extra else None))
    c.notes["vacuity"] = vac
    c.log("rule obligations done, failed:", len(failed))
    for i, name, r, info, case in failed[:12]:
        found = None
        if case:
            bad, out = et.replay(case)
            if bad:
                found = (case, out)
        if not found:
            one = os.path.join(build.outdir(), "rule-%d.txt" % i)
            line = [l for l in text.split("\n") if l.startswith("(rule ")][i]
            open(one, "w").write(line + "\n")
            fails, _ = et.search([("simplify", c.seed * 1000 + k, 1500 if r != "sat" else 6000, one) for k in range(8)], timeout=100)
            for a, cs, out in fails:
                if cs:
                    bad, out = et.replay(cs)
                    if bad:
                        found = (cs, out)
                        break
        what = "%s: replaced by an expression of a different value" % name
        if found:
            c.violation(what, "failed obligation: %s\nsolver: %s %s\ncase: %s\n%s" % (name, r, info, found[0], found[1]))
        elif r == "sat":
            # A definite counterexample to the rule, which the simplifier could not be driven into.
            c.violation(what, "failed obligation: %s\nsolver: sat\n%s" % (name, info), found=False)
        else:
            c.undecided.append("not discharged, and no failing input was found: " + name + " " + str(info))
    return rf


def main():
    c = check.Check("C01")
    et = check.ExprTool(c)
    c.trusted += ["z3 and cvc5", "clang++ (the rules are extracted by compiling simplify_rules.h itself with a printing rewriter)",
                  "rewrite.h binds each wildcard to one expression and each constant to one value (checked by the bounded part)"]
    c.assumptions += [
        "no intermediate result of the original or the simplified expression overflows (the statement of C01); constants folded "
        "by a rule are computed without overflow or the rule is not applied (rewrite.h)",
        "predicates of rules (is_boolean, is_finite, is_positive, ...) satisfy their contracts (C03)",
        "staircase_sum_bounds satisfies its contract (C06)",
        "rules preserve values also for infinite operands (E1 proves them so where the rule mentions infinities)",
        "the simplifier's contracts are partial correctness: recursion on operands uses the contract of simplifier::mutate",
        "operands of the visitors are representable; the remainder of an alignment isn't the most negative integer unless its modulus is 0; "
        "a learned equality doesn't mention a remainder by the constant 0",
        "the tables of the simplifier (bounds, lets, knowledge) are true when a visitor is entered: the scoping of the tables, visit(let), "
        "visit(call), fields of buffers in add_var_info and the visitors of statements are covered by the bounded part only",
    ]
    try:
        et.build()
    except build.BuildError as e:
        c.undecided.append("the tree does not build for the driver: " + str(e)[-1500:])
        c.finish()
    rf = prove_rules(c, et)
    try:
        nodespec.decide(c, et, makers.specs(B.repo("slinky/runtime/expr_stmt.cc")))
        nodespec.lemmas(c, nodes.lemma_obligations() + simpl.lemma_obligations())
        nodespec.decide(c, et, simpl.repo_specs("simplify"))
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    k = 6 if c.thorough else 1
    s = c.seed * 100
    et.bounded("simplify(expr) on generated expressions", [("simplify", s + i, 12000) for i in range(8 * k)])
    if rf:
        et.bounded("simplify(expr) on instances of every rule", [("simplify", s + 50 + i, 60, rf) for i in range(8 * k)])
    et.known()
    c.finish()
