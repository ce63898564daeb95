"""Discharges obligations: z3 (python API), with lemma instantiation and case splits, then cvc5 as a second back end."""
import itertools, subprocess, tempfile, os, time
import z3


def product_lemmas(env, limit=400):
    """Instances of two lemmas about products (themselves proved by lemma_obligations):
         b>0, t>=1 => b*t>=b;  b>0, t<=-1 => b*t<=-b; b<0, t>=1 => b*t<=b;  b<0, t<=-1 => b*t>=-b
       for t = q_i - q_j + s, which makes quotients by the same divisor comparable (uniqueness of quotients)."""
    out = []
    by = {}
    for a, b, q, r in env.divs:
        by.setdefault(b.sexpr(), (b, []))[1].append((a, q, r))
    allq = [q for _, _, q, _ in env.divs]
    for k, (b, l) in by.items():
        sh = [z3.IntVal(0)]
        others = allq
        for q in others:
            sh += [q, -q]
        for p, q in itertools.combinations(others, 2):
            sh += [p - q, q - p]
        for name, v in env.v.items():
            if name.startswith("c") and not z3.is_int_value(v):
                sh += [v, -v]
        seen = set()
        for (a1, q1, r1), (a2, q2, r2) in itertools.combinations(l, 2):
            for s in sh:
                t = z3.simplify(q1 - q2 + s)
                if t.get_id() in seen or z3.is_int_value(t):
                    continue
                seen.add(t.get_id())
                out.append(lemma(b, t))
                if len(out) >= limit:
                    return out
    return out


def shift_lemmas(env):
    """Instances of: b != 0 and a1 == a2 + b*s and a_i == b*q_i + r_i, 0 <= r_i < |b|  =>  q1 == q2 + s and r1 == r2
    (proved by lemma_obligation2), for the s for which a1 == a2 + b*s follows by substituting r = a - b*q."""
    out = []
    by = {}
    for a, b, q, r in env.divs:
        by.setdefault(b.sexpr(), (b, []))[1].append((a, q, r))
    for k, (b, l) in by.items():
        sub = [(r, a - b * q) for a, q, r in l]

        def norm(e):
            for _ in range(4):
                e = z3.substitute(e, *sub)
            return z3.simplify(e, som=True)
        qs = [q for _, q, _ in l]
        sh = [z3.IntVal(0)]
        for n in (1, 2):
            for c in itertools.combinations(qs, n):
                for sg in itertools.product((1, -1), repeat=n):
                    sh.append(sum((x if y > 0 else -x) for x, y in zip(c, sg)))
        for (a1, q1, r1), (a2, q2, r2) in itertools.combinations(l, 2):
            d = norm(a1 - a2)
            for s in sh:
                e = z3.simplify(d - b * s, som=True)
                if z3.is_int_value(e) and e.as_long() == 0:
                    out.append(z3.Implies(z3.And(b != 0, a1 == a2 + b * s), z3.And(q1 == q2 + s, r1 == r2)))
                    break
    return out


def lemma_obligation2():
    a1, a2, b, q1, q2, r1, r2, s = z3.Ints("a1 a2 b q1 q2 r1 r2 s")
    t = q1 - q2 - s
    h = [b != 0, a1 == a2 + b * s, a1 == b * q1 + r1, a2 == b * q2 + r2, 0 <= r1, 0 <= r2,
         r1 < z3.If(b > 0, b, -b), r2 < z3.If(b > 0, b, -b), lemma(b, t)]
    return h, z3.And(q1 == q2 + s, r1 == r2)


def lemma(b, t):
    return z3.And(z3.Implies(z3.And(b > 0, t >= 1), b * t >= b), z3.Implies(z3.And(b > 0, t <= -1), b * t <= -b),
                  z3.Implies(z3.And(b < 0, t >= 1), b * t <= b), z3.Implies(z3.And(b < 0, t <= -1), b * t >= -b))


def lemma_obligation():
    b, t = z3.Ints("b t")
    return lemma(b, t)


def check(hyps, goal, timeout, extra=(), tactic=None):
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set("timeout", int(timeout * 1000))
    for h in hyps:
        s.add(h)
    for h in extra:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return str(r), (s.model() if r == z3.sat else None)


def cvc5(hyps, goal, timeout, extra=()):
    s = z3.Solver()
    for h in list(hyps) + list(extra):
        s.add(h)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "--nl-ext-tplanes", f.name], text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
        return out if out in ("sat", "unsat") else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)


def conds(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = e.arg(0)
        if not any(c.eq(x) for x in out):
            out.append(c)
    for c in e.children():
        conds(c, out, seen)


def prove(hyps, goal, env=None, t1=2.0, t2=8.0):
    """Returns (result, backend, model)."""
    r, m = check(hyps, goal, t1)
    if r == "unsat":
        return "unsat", "z3", None
    if r == "sat":
        return "sat", "z3", m
    sl = shift_lemmas(env) if env is not None else []
    if sl:
        r, m = check(hyps, goal, t1, sl)
        if r == "unsat":
            return "unsat", "z3+lemmas", None
    extra = sl + product_lemmas(env) if env is not None else []
    if extra:
        r, m = check(hyps, goal, t2, extra)
        if r == "unsat":
            return "unsat", "z3+lemmas", None
        if r == "sat":
            return "sat", "z3+lemmas", m
    r = cvc5(hyps, goal, t2)
    if r == "unsat":
        return "unsat", "cvc5", None
    if extra:
        r = cvc5(hyps, goal, t2, extra)
        if r == "unsat":
            return "unsat", "cvc5+lemmas", None
    # split on the conditions of if-then-else terms, and on the signs of divisors
    cs = []
    for h in list(hyps) + [goal]:
        conds(h, cs, set())
    if env is not None:
        for a, b, q, rr in env.divs:
            if not z3.is_int_value(b):
                for c in (b > 0, b == 0):
                    if not any(c.eq(x) for x in cs):
                        cs.append(c)
    cs = cs[:6]
    ok = True
    for vals in itertools.product([True, False], repeat=len(cs)):
        hs = list(hyps)
        subs = [(c, z3.BoolVal(v)) for c, v in zip(cs, vals)]
        hs2 = [z3.simplify(z3.substitute(h, *subs)) for h in hs] + [c if v else z3.Not(c) for c, v in zip(cs, vals)]
        g2 = z3.simplify(z3.substitute(goal, *subs))
        t = z3.Then("simplify", "solve-eqs", "smt")
        r, m = check(hs2, g2, t1, extra, t)
        if r == "sat":
            # The tactic's model may lack eliminated constants: check again without it.
            r2, m2 = check(hyps, goal, t1, [c if v else z3.Not(c) for c, v in zip(cs, vals)])
            if r2 == "sat":
                return "sat", "z3+split", m2
            r = "unknown"
        if r != "unsat":
            ok = False
            break
    return ("unsat", "z3+split", None) if ok else ("unknown", "", None)
