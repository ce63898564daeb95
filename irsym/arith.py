"""Contracts of slinky/base/arithmetic.h and modulus_remainder.h (C05, C04) and staircase_sum_bounds (C06)."""
import itertools
import z3
from . import ex as X, spec as S, poly
from e1 import prove as P

I, isc, zi = z3.IntVal, X.isc, X.zi
LO = {32: -2**31, 64: -2**63}
HI = {32: 2**31 - 1, 64: 2**63 - 1}
TY = {32: "int", 64: "long"}


class Env:
    """What e1.prove needs to instantiate its lemmas."""
    def __init__(self, divs):
        self.divs, self.v = divs, {}


def edivs(st):
    return st.ghost.get("edivs", ())


def prover(hyps, goal, st):
    r, be, m = P.prove(hyps, goal, Env([d for d in edivs(st)]), 2.0, 6.0)
    return r, be, m


def absv(b):
    return abs(b) if isc(b) else z3.If(b > 0, b, -b)


# The quotient and remainder are functions of the operands.
EDIV = z3.Function("ediv", z3.IntSort(), z3.IntSort(), z3.IntSort())
EMOD = z3.Function("emod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def euclid(ex, st, a, b):
    """Facts of Euclidean division, b != 0."""
    if isc(a) and isc(b):
        q = a // b if b > 0 else -(a // -b)
        return q, a - b * q
    za, zb = zi(a), zi(b)
    for x, y, q, r in edivs(st):
        if x.eq(za) and y.eq(zb):
            return q, r
    q, r = ex.fresh("eq"), ex.fresh("er")
    st.assume(z3.And(za == zb * q + r, r >= 0, r < absv(zb), q == EDIV(za, zb), r == EMOD(za, zb)))
    st.ghost["edivs"] = edivs(st) + ((za, zb, q, r),)
    return q, r


def divmod_contract(ex, w, mod):
    name = r"%s slinky::euclidean_%s<%s>\(%s, %s, %s\)" % ((TY[w], "mod" if mod else "div") + (TY[w],) * 4)

    def f(ex, st, v, i):
        a, b, z = v
        c = X.conc(zi(b) != 0)
        out = []
        z0 = None
        if not isc(c):
            if ex.sat(st, z3.Not(c)) != "unsat":
                z0 = st.fork()
                z0.assume(z3.Not(c))
            st.assume(c)
        elif not c:
            return z
        if ex.sat(st, True) != "unsat":
            if not mod:
                ex.oblige(st, X.not_(X.and_(X.conc(zi(a) == LO[w]), X.conc(zi(b) == -1))), "precondition of euclidean_div: the quotient is representable")
            q, r = euclid(ex, st, a, b)
            st.assume(X.inr(q, w)) if not mod else None
            out.append((st, r if mod else q))
        if z0 is not None:
            out.append((z0, z))
        return out
    ex.contract(name, f)


def gcd_contract(ex, w):
    def f(ex, st, v, i):
        a, b = zi(v[0]), zi(v[1])
        g, ka, kb, u, t = (ex.fresh(n) for n in ("g", "ka", "kb", "gu", "gt"))
        st.assume(z3.And(X.inr(g, w), a == g * ka, b == g * kb, (g == 0) == z3.And(a == 0, b == 0), z3.Implies(z3.And(a >= 0, b >= 0), g >= 0),
                         z3.Implies(g != 0, u * ka + t * kb == 1)))
        add_rule(st, a, g * ka)
        add_rule(st, b, g * kb)
        st.ghost["gcds"] = st.ghost.get("gcds", ()) + ((a, b, g, ka, kb, u, t),)
        return g
    ex.contract(r"%s slinky::gcd<%s>\(%s, %s\)" % ((TY[w],) * 4), f)


def add_rule(st, a, e):
    """The equation a == e as a rewrite rule for a variable of a."""
    rules = st.ghost.get("rules", ())
    a = poly.rewrite(a, list(rules)) if not z3.is_const(a) else a
    if z3.is_const(a) and not z3.is_int_value(a):
        st.ghost["rules"] = rules + ((a, e),)
        return
    m = poly.monomials(a)
    for c, fs in m.values():
        if c in (1, -1) and len(fs) == 1 and z3.is_const(fs[0]) and not occurs(fs[0], e):
            x = fs[0]
            rest = z3.simplify(a - c * x)
            if not occurs(x, rest):
                st.ghost["rules"] = rules + ((x, z3.simplify(c * (e - rest))),)
                return


def occurs(x, e):
    todo = [e]
    while todo:
        t = todo.pop()
        if t.eq(x):
            return True
        todo.extend(t.children())
    return False


def exact_div(ex, st, a, b):
    """a / b where a is known to be b * k (lemma "exact quotients")."""
    for x, y in st.ghost.get("rules", ()):
        if x.eq(zi(a)):
            k = poly.divide(y, zi(b))
            if k is not None:
                return k
    for x, y, q, r in edivs(st):
        if x.eq(zi(a)) and y.eq(zi(b)) and ex.must(st, r == 0):
            return q
    return None


def base_contracts(skip=()):
    def f(ex):
        ex.exact_div = exact_div
        for w in (32, 64):
            if "div" not in skip:
                divmod_contract(ex, w, False)
            if "mod" not in skip:
                divmod_contract(ex, w, True)
            if "gcd" not in skip:
                gcd_contract(ex, w)
    return f


def fn_of(mods, sym):
    for m in mods:
        if sym in m.functions:
            return m.functions[sym]
    return None


def simple(mods, sym, label, w, names, pre, post, skip=(), out=False, retw=None, timeout=6.0):
    """A function of integers. pre(*args) -> Bool; post(ex, st, ret, *args) -> list of (name, Bool)."""
    def make(ex):
        fn = fn_of(mods, sym)
        args = {}

        def setup(st):
            vs = []
            for n in names:
                v = z3.Int(n)
                st.assume(X.inr(v, w))
                ex.inputs[n] = v
                args[n] = v
                vs.append(v)
            st.assume(pre(*vs))
            if out:
                r = X.Region("result", w // 8)
                st.mem[r] = {}
                args["out"] = r
                return vs + [X.Ptr(r, 0)]
            return list(vs)

        def fin(st, ret):
            a = [args[n] for n in names]
            if out:
                o = ex.load(st, fn.mod, ("i", w), X.Ptr(args["out"], 0))
                l = post(ex, st, ret, zi(o), *a)
            else:
                l = post(ex, st, ret, *a)
            for n, c in l:
                ex.oblige(st, c, n, assume=False)
        return fn, setup, fin
    s = S.Spec(label, mods, make, [base_contracts(skip)], timeout=timeout, prover=prover, case=sym[1:])
    s.sym = sym[1:]
    s.names = list(names)
    return s


def b_(r):
    return r if isinstance(r, (bool, z3.BoolRef)) else zi(r) != 0


def clamp(x, w):
    return z3.If(x > HI[w], I(HI[w]), z3.If(x < LO[w], I(LO[w]), x))


def quotient(ex, st, q, a, b):
    """q is the Euclidean quotient of a by b != 0."""
    return z3.And(a - b * zi(q) >= 0, a - b * zi(q) < absv(b))


def c05_width(mods, w, out):
    T = lambda *a: z3.BoolVal(True)
    t = TY[w]
    s = lambda sym, names, pre, post, **k: out.append(simple(mods, "@p_%s_%d" % (sym, w), "%s<%s>" % (k.pop("label", sym), t), w, names, pre, post, **k))
    nomin = lambda a, b, *z: z3.Not(z3.And(a == LO[w], b == -1))
    s("euclidean_div", "abz", nomin, lambda ex, st, r, a, b, z: [
        ("x/0 is the value defined for it", z3.Implies(b == 0, zi(r) == z)),
        ("the remainder is in [0, |b|)", z3.Implies(b != 0, quotient(ex, st, r, a, b)))], skip=("div",))
    s("euclidean_mod", "abz", T, lambda ex, st, r, a, b, z: [
        ("x%0 is the value defined for it", z3.Implies(b == 0, zi(r) == z)),
        ("the remainder is in [0, |b|)", z3.Implies(b != 0, z3.And(zi(r) >= 0, zi(r) < absv(b)))),
        ("the remainder is congruent to a", z3.Implies(b != 0, zi(r) == euclid(ex, st, a, b)[1]))], skip=("mod",))
    s("euclidean_div_pos", "ab", lambda a, b: b > 0, lambda ex, st, r, a, b: [("the remainder is in [0, b)", quotient(ex, st, r, a, b))],
      label="euclidean_div_positive_divisor")
    s("euclidean_mod_pos", "ab", lambda a, b: b > 0, lambda ex, st, r, a, b: [
        ("the remainder is in [0, b)", z3.And(zi(r) >= 0, zi(r) < b)), ("the remainder is congruent to a", zi(r) == euclid(ex, st, a, b)[1])],
      label="euclidean_mod_positive_modulus")
    s("floor_div", "ab", nomin, lambda ex, st, r, a, b: [
        ("x/0 is 0", z3.Implies(b == 0, zi(r) == 0)), ("the remainder is in [0, |b|)", z3.Implies(b != 0, quotient(ex, st, r, a, b)))])
    s("round_div", "ab", lambda a, b: z3.And(b > 0, a + b / 2 <= HI[w]), lambda ex, st, r, a, b: [
        ("the quotient is the nearest", z3.And(2 * (a - b * zi(r)) <= b, 2 * (a - b * zi(r)) >= -b))])
    s("ceil_div", "ab", lambda a, b: z3.And(b > 0, a + b - 1 <= HI[w], a + b <= HI[w] ), lambda ex, st, r, a, b: [
        ("rounds up", z3.And(b * zi(r) - a >= 0, b * zi(r) - a < b))])
    s("align_up", "ab", lambda a, b: z3.And(b > 0, a + b <= HI[w]), lambda ex, st, r, a, b: [
        ("not below x and less than n above", z3.And(zi(r) - a >= 0, zi(r) - a < b)),
        ("is a multiple of n", multiple(ex, st, r, b))])
    s("align_down", "ab", lambda a, b: z3.And(b > 0, a - LO[w] >= b), lambda ex, st, r, a, b: [
        ("not above x and less than n below", z3.And(a - zi(r) >= 0, a - zi(r) < b)),
        ("is a multiple of n", multiple(ex, st, r, b))])
    for n, f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b)):
        s(n + "_sat", "ab", T, lambda ex, st, r, a, b, f=f: [("the exact result, or the nearest representable value", zi(r) == clamp(f(a, b), w))])
        s(n + "_overflows", "ab", T, lambda ex, st, r, a, b, f=f: [("true iff the exact result is not representable", b_(r) == z3.Not(X.inr(f(a, b), w)))])
        s(n + "_with_overflow", "ab", T, lambda ex, st, r, o, a, b, f=f: [
            ("true iff the exact result is not representable", b_(r) == z3.Not(X.inr(f(a, b), w))),
            ("the result is exact, or 0 on overflow", o == z3.If(X.inr(f(a, b), w), f(a, b), I(0)))], out=True)
    s("div_sat", "ab", T, lambda ex, st, r, a, b: [
        ("x/0 is 0", z3.Implies(b == 0, zi(r) == 0)),
        ("saturates", z3.Implies(z3.And(a == LO[w], b == -1), zi(r) == HI[w])),
        ("the remainder is in [0, |b|)", z3.Implies(z3.And(b != 0, nomin(a, b)), quotient(ex, st, r, a, b)))])
    s("sign", "a", T, lambda ex, st, r, a: [("is the sign", zi(r) == z3.If(a > 0, I(1), z3.If(a < 0, I(-1), I(0))))])


def c05_specs(mods):
    T = lambda *a: z3.BoolVal(True)
    out = []
    for w in (64, 32):
        c05_width(mods, w, out)
    ov = {"add": lambda a, b: z3.Not(X.inr(a + b)), "sub": lambda a, b: z3.Not(X.inr(a - b)), "mul": lambda a, b: z3.Not(X.inr(a * b)),
          "div": lambda a, b: z3.And(a == LO[64], b == -1)}
    val = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "min": lambda a, b: z3.If(a < b, a, b),
           "max": lambda a, b: z3.If(a < b, b, a), "equal": lambda a, b: X.b2i(a == b), "not_equal": lambda a, b: X.b2i(a != b),
           "less": lambda a, b: X.b2i(a < b), "less_equal": lambda a, b: X.b2i(a <= b),
           "logical_and": lambda a, b: X.b2i(z3.And(a != 0, b != 0)), "logical_or": lambda a, b: X.b2i(z3.Or(a != 0, b != 0))}
    for n in ("add", "sub", "mul", "div", "mod", "min", "max", "equal", "not_equal", "less", "less_equal", "logical_and", "logical_or"):
        o = ov.get(n, lambda a, b: z3.BoolVal(False))
        out.append(simple(mods, "@p_overflows_" + n, "binary_overflows<%s>" % n, 64, "ab", T, lambda ex, st, r, a, b, o=o: [
            ("true iff the exact result is not representable", b_(r) == o(a, b))]))
        if n in val:
            post = lambda ex, st, r, a, b, f=val[n]: [("is the mathematical result", zi(r) == f(a, b))]
        elif n == "div":
            post = lambda ex, st, r, a, b: [("x/0 is 0", z3.Implies(b == 0, zi(r) == 0)),
                                            ("the remainder is in [0, |b|)", z3.Implies(b != 0, quotient(ex, st, r, a, b)))]
        else:
            post = lambda ex, st, r, a, b: [("x%0 is 0", z3.Implies(b == 0, zi(r) == 0)),
                                            ("the remainder is in [0, |b|)", z3.Implies(b != 0, zi(r) == euclid(ex, st, a, b)[1]))]
        out.append(simple(mods, "@p_make_" + n, "make_binary<%s>" % n, 64, "ab", lambda a, b, o=o: z3.Not(o(a, b)), post))
    return out


def multiple(ex, st, r, n):
    """r is a multiple of n: some quotient seen on the path is the witness."""
    r = zi(r)
    c = [r == n * q for _, b, q, _ in edivs(st)] + [r == 0, r == n]
    rules = list(st.ghost.get("rules", ()))
    e = poly.rewrite(r, rules)
    for m in (n, poly.rewrite(n, rules)):
        k = poly.divide(e, m)
        if k is not None:
            c.append(r == n * k)
    return z3.Or(*c)


# --- C04 -------------------------------------------------------------------------------------------------------------
def gcd_candidates(ex, st, fn, head, entry):
    """The loop of gcd: both starting values are linear combinations of the current ones. The coefficients are ghost state."""
    a0, b0 = ex.ghost_gcd
    keys = [k for k, v in entry.items() if isinstance(v, (int, z3.ArithRef))]

    def inv(x, y):
        def c(ex, st, vals):
            a, b = zi(vals[x]), zi(vals[y])
            k = (x, y)
            mode = ex.loop_mode
            if mode == "entry":
                return z3.Or(z3.And(a == a0, b == b0), z3.And(a == b0, b == a0))

            def rel(a, b, p):
                return z3.And(a0 == a * p[0] + b * p[1], b0 == a * p[2] + b * p[3], a == a0 * p[4] + b0 * p[5], b == a0 * p[6] + b0 * p[7])
            if mode == "havoc":
                p = [ex.fresh("gh") for _ in range(8)]
                st.ghost[("gcd", k)] = (a, b, p)
                return rel(a, b, p)
            oa, ob, p = st.ghost[("gcd", k)]
            # a' = b, b' = a - b*q: the relation is preserved by the lemma "step of gcd".
            goals = []
            for x_, y_, q, r in edivs(st):
                n = [q * p[0] + p[1], p[0], q * p[2] + p[3], p[2], p[6], p[7], p[4] - q * p[6], p[5] - q * p[7]]
                goals.append(z3.And(a == ob, b == r, x_ == oa, y_ == ob))
            return z3.Or(*goals) if goals else z3.BoolVal(False)
        return ("the arguments and %s, %s are linear combinations of each other" % (x, y), c)

    def nz(x, y):
        return ("not both zero unless the arguments are", lambda ex, st, v: z3.Or(zi(v[x]) != 0, zi(v[y]) != 0, z3.And(a0 == 0, b0 == 0)))

    def zz(x):
        return ("%s is zero if the arguments are" % x, lambda ex, st, v: z3.Implies(z3.And(a0 == 0, b0 == 0), zi(v[x]) == 0))
    def pos(x):
        return ("%s is not negative if the arguments are not" % x, lambda ex, st, v: z3.Implies(z3.And(a0 >= 0, b0 >= 0), zi(v[x]) >= 0))
    return [pos(k) for k in keys] + [inv(x, y) for x, y in itertools.permutations(keys, 2)] + [nz(x, y) for x, y in itertools.combinations(keys, 2)] + [zz(k) for k in keys]


def c04_specs(mods):
    out = []
    # gcd divides both of its arguments.
    for w in (64, 32):
        out.append(gcd_spec(mods, w))
        out.append(simple(mods, "@p_lcm_%d" % w, "lcm<%s>" % TY[w], w, "ab", lambda a, b: z3.And(a > 0, b > 0, a * b <= HI[w]),
                          lambda ex, st, r, a, b: [("is a multiple of the first argument", multiple(ex, st, r, a)),
                                                   ("is a multiple of the second argument", multiple(ex, st, r, b)),
                                                   ("is positive", zi(r) > 0)]))
    for n in ("add", "sub", "mul", "div", "mod", "or", "and"):
        out.append(mr_spec(mods, n))
    return out


def lemmas():
    """(name, hypotheses, goal): facts that the proofs use by instance."""
    a, b, q, r, k, g, t = z3.Ints("a b q r k g t")
    out = [("lemma: products with a factor of at least one", [], P.lemma_obligation()), ("lemma: quotients of shifted dividends",) + P.lemma_obligation2()]
    out.append(("lemma: exact quotients", [b != 0, a == b * k, a == b * q + r, z3.If(a >= 0, z3.And(r >= 0, r < absv(b)), z3.And(r <= 0, -r < absv(b))), P.lemma(b, q - k)],
                z3.And(q == k, r == 0)))
    p = z3.Ints("p0 p1 p2 p3 p4 p5 p6 p7")
    a0, b0 = z3.Ints("a0 b0")
    n = [q * p[0] + p[1], p[0], q * p[2] + p[3], p[2], p[6], p[7], p[4] - q * p[6], p[5] - q * p[7]]

    def rel(a, b, p):
        return [a0 == a * p[0] + b * p[1], b0 == a * p[2] + b * p[3], a == a0 * p[4] + b0 * p[5], b == a0 * p[6] + b0 * p[7]]
    for i, c in enumerate(rel(b, r, n)):
        out.append(("lemma: step of gcd %d" % i, [rel(a, b, p)[j] for j in ((0,), (1,), (3,), (2, 3))[i]] + [a == b * q + r], c))
    out.append(("lemma: cofactors of gcd", [g != 0, a == g * p[0], b == g * p[1], g == a * p[2] + b * p[3]], p[2] * p[0] + p[3] * p[1] == 1))
    return out


def shift_facts(ex, st):
    """Instances of the lemma "quotients of shifted dividends" for divisions on the path, and the rules that follow."""
    rules = list(st.ghost.get("rules", ()))
    for x, y, q, r in edivs(st):
        if ex.must(st, r == 0):
            add_rule(st, x, y * q)
    l = edivs(st)
    rules = list(st.ghost.get("rules", ()))
    zero = [(z3.IntVal(0), b, z3.IntVal(0), z3.IntVal(0)) for _, b, _, _ in l]
    for (a1, b, q1, r1), (a2, b2, q2, r2) in itertools.permutations(list(l) + zero, 2):
        if not b.eq(b2) or z3.is_int_value(a1) or a1.eq(a2):
            continue
        s = poly.witness(a1 - a2, b, rules)
        if s is None:
            continue
        st.assume(z3.Implies(z3.And(b != 0, a1 == a2 + b * s, 0 <= r1, r1 < absv(b), 0 <= r2, r2 < absv(b)), z3.And(q1 == q2 + s, r1 == r2)))
        if z3.is_const(q1) and not occurs(q1, q2 + s) and not any(x.eq(q1) for x, _ in rules) and ex.must(st, q1 == q2 + s):
            st.ghost["rules"] = st.ghost.get("rules", ()) + ((q1, q2 + s),)


def member(ex, st, v, m, r, name, extra=()):
    """Obligation: v == m*k + r for some integer k."""
    v, m, r = zi(v), zi(m), zi(r)
    cm = X.conc(m)
    if isc(cm) and cm in (1, -1):
        return ex.oblige(st, True, name, assume=False)
    if isc(cm) and cm == 0:
        return ex.oblige(st, v == r, name, assume=False)
    rules = list(st.ghost.get("rules", ()))
    full = rules + [(rr, a - b * q) for a, b, q, rr in edivs(st)]
    cands = []
    for rs in (full, rules, list(reversed(full))):
        e = poly.rewrite(v - r, rs)
        for mm in (m, poly.rewrite(m, rs)):
            k = poly.divide(e, mm)
            if k is not None:
                cands.append(k)
    for k in cands:
        # The rules are equalities that hold on this path: the difference vanishes as a polynomial.
        for rs in (full, rules, list(reversed(full))):
            d = poly.rewrite(v - m * k - r, rs)
            if z3.is_int_value(d) and d.as_long() == 0:
                ex.results.append(X.Result(name, ex.cur, "unsat", "ring normalisation", 0.0))
                return
    for k in list(extra) + cands:
        if ex.must_hard(st, v == m * k + r):
            return ex.oblige(st, v == m * k + r, name, assume=False)
    ex.oblige(st, z3.If(m == 0, v == r, (v - r) % m == 0), name, assume=False)


def mr_spec(mods, op):
    names = ["am", "ar", "bm", "br", "y1", "y2"]
    V = dict(zip(names, z3.Ints(" ".join(names))))
    x = V["am"] * V["y1"] + V["ar"]
    z = V["bm"] * V["y2"] + V["br"]

    def make(ex):
        fn = fn_of(mods, "@p_mr_" + op)
        ret = X.Region("result", 16)
        ra, rb = X.Region("a", 16), X.Region("b", 16)

        def setup(st):
            for n in names:
                if n[0] != "y":
                    st.assume(X.inr(V[n]))
                ex.inputs[n] = V[n]
            st.assume(X.inr(x))
            st.assume(X.inr(z))
            if op == "and":
                # The most negative modulus has no magnitude (|modulus| must be representable).
                st.assume(z3.And(V["am"] != LO[64], V["bm"] != LO[64]))
                st.assume(x == z)
            st.mem[ret] = {}
            st.mem[ra] = {(0, 8): V["am"], (8, 8): V["ar"]}
            st.mem[rb] = {(0, 8): V["bm"], (8, 8): V["br"]}
            return [X.Ptr(ret), X.Ptr(ra), X.Ptr(rb)]

        def fin(st, _):
            m = ex.load(st, fn.mod, ("i", 64), X.Ptr(ret, 0))
            r = ex.load(st, fn.mod, ("i", 64), X.Ptr(ret, 8))
            for n in names:
                if ex.must(st, V[n] == 0):
                    add_rule(st, V[n], I(0))
            shift_facts(ex, st)
            if op in ("add", "sub", "mul"):
                v = x + z if op == "add" else x - z if op == "sub" else x * z
                st.assume(X.inr(v))
                return member(ex, st, v, m, r, "the %s is in the resulting class" % {"add": "sum", "sub": "difference", "mul": "product"}[op])
            if op == "or":
                s2 = st.fork()
                member(ex, st, x, m, r, "the first value is in the resulting class")
                return member(ex, s2, z, m, r, "the second value is in the resulting class")
            if op == "and":
                ex_ = [u * V["y2"] + t * V["y1"] for _, _, g, ka, kb, u, t in st.ghost.get("gcds", ())]
                ex_ += [V["y1"], V["y2"]]
                return member(ex, st, x, m, r, "a value in both classes is in the resulting class", ex_)
            # division and modulo
            s0 = st.fork()
            s0.assume(z == 0)
            if ex.sat(s0, True) != "unsat":
                add_rule(s0, V["br"], -V["bm"] * V["y2"])
                shift_facts(ex, s0)
                member(ex, s0, I(0), m, r, "x%s0 (which is 0) is in the resulting class" % ("/" if op == "div" else "%"))
            st.assume(z != 0)
            if ex.sat(st, True) == "unsat":
                return
            zz = z
            if ex.must(st, V["bm"] == 0):
                zz = V["br"]
            b0 = X.conc(zz)
            if op == "div" and ex.must(st, zz == -1):
                st.assume(X.inr(-x))
                return member(ex, st, -x, m, r, "the quotient is in the resulting class")
            q, rr = euclid(ex, st, x, zz)
            shift_facts(ex, st)
            st.assume(X.inr(q))
            member(ex, st, q if op == "div" else rr, m, r, "the %s is in the resulting class" % ("quotient" if op == "div" else "remainder"))
        return fn, setup, fin
    s = S.Spec("modulus_remainder operator" + {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "or": "|", "and": "&"}[op], mods, make,
               [base_contracts()], prover=prover, case="mr_" + op)
    s.sym, s.names = "p_mr_" + op, names
    return s


def gcd_spec(mods, w):
    a, b = z3.Ints("a b")

    def make(ex):
        fn = fn_of(mods, "@p_gcd_%d" % w)
        ex.ghost_gcd = (a, b)
        ex.loop_candidates[r"slinky::gcd<"] = gcd_candidates

        def setup(st):
            for n, v in (("a", a), ("b", b)):
                st.assume(X.inr(v, w))
                ex.inputs[n] = v
            return [a, b]

        def fin(st, ret):
            g = zi(ret)
            l = [v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == "gcd"]
            if not l:
                ex.undecide("the loop of gcd was not cut by its invariant")
                return
            # At the end one of the pair is zero: then g divides both (witnesses: its coefficients) and is a combination of both.
            da = []
            for x, y, p in l:
                da.append(z3.And(a == g * p[0], b == g * p[2], g == a * p[4] + b * p[5]))
                da.append(z3.And(a == g * p[1], b == g * p[3], g == a * p[6] + b * p[7]))
            ex.oblige(st, z3.Or(*da), "divides both arguments and is a combination of them", assume=False)
            ex.oblige(st, (g == 0) == z3.And(a == 0, b == 0), "is zero only when both arguments are", assume=False)
            ex.oblige(st, z3.Implies(z3.And(a >= 0, b >= 0), g >= 0), "is not negative for arguments that are not", assume=False)
        return fn, setup, fin
    s = S.Spec("gcd<%s>" % TY[w], mods, make, [base_contracts(("gcd",))], prover=prover, case="gcd_%d" % w)
    s.sym, s.names = "p_gcd_%d" % w, ["a", "b"]
    return s


# --- C06 -------------------------------------------------------------------------------------------------------------
def lcm_contract(ex):
    def f(ex, st, v, i):
        a, b = zi(v[0]), zi(v[1])
        ex.oblige(st, z3.And(a > 0, b > 0, a * b <= HI[64]), "precondition of lcm: positive arguments with a representable product")
        p, ka, kb = ex.fresh("lcm"), ex.fresh("la"), ex.fresh("lb")
        st.assume(z3.And(p == a * ka, p == b * kb, p > 0, p <= a * b))
        st.ghost["lcms"] = st.ghost.get("lcms", ()) + ((a, b, p, ka, kb),)
        return p
    ex.contract(r"long slinky::lcm<long>\(long, long\)", f)


STAIR = ["a1", "b1", "c1", "a2", "b2", "c2"]


def stair_lemmas():
    a, b, q, r, n = z3.Ints("a b q r n")
    b1, b2, s1, s2, t, c1, c2 = z3.Ints("b1 b2 s1 s2 t c1 c2")
    return [("lemma: equal slopes cancel", [b1 != 0, b2 != 0, b1 * s1 == t, b2 * s2 == t, c1 * b2 == -c2 * b1], c1 * s1 + c2 * s2 == 0),
            ("lemma: size of a quotient", [b != 0, a == b * q + r, r >= 0, r < absv(b)], quotient_size(a, b, q))]


def quotient_size(a, b, q):
    """|q| <= |a|/|b| + 1, and |q| <= |a|, by cases of |b|."""
    A = absv(a)
    return z3.And(absv(q) <= A, z3.Implies(absv(b) >= 2, 2 * absv(q) <= A + 2))


def stair_spec(mods):
    V = dict(zip(STAIR, z3.Ints(" ".join(STAIR))))
    a1, b1, c1, a2, b2, c2 = (V[n] for n in STAIR)
    X_, k = z3.Ints("x k")

    def f(ex, st, x):
        def q(a, b):
            z = ex.sat(st, b != 0)
            return z3.If(b == 0, I(0), EDIV(x + a, b))
        return q(a1, b1) * c1 + q(a2, b2) * c2

    def facts(ex, st, x):
        for a, b in ((a1, b1), (a2, b2)):
            q, r = EDIV(x + a, b), EMOD(x + a, b)
            st.assume(z3.Implies(b != 0, z3.And(x + a == b * q + r, r >= 0, r < absv(b))))

    def cands(ex, st, fn, head, entry):
        if not st.ghost.get("lcms"):
            return None       # the loop over the arguments
        P_ = st.ghost["lcms"][-1][2]
        keys = [n for n, v in entry.items() if isinstance(v, (int, z3.ArithRef))]
        F = EDIV(k + a1, b1) * c1 + EDIV(k + a2, b2) * c2
        out = []
        for n in keys:
            out.append(("%s is not negative" % n, lambda ex, st, v, n=n: zi(v[n]) >= 0))
            out.append(("%s does not exceed the period" % n, lambda ex, st, v, n=n: zi(v[n]) <= P_))
        for i, m in itertools.permutations(keys, 2):
            out.append(("%s is at most the values before %s" % (m, i), lambda ex, st, v, i=i, m=m: z3.Implies(z3.And(k >= 0, k < zi(v[i])), zi(v[m]) <= F)))
            out.append(("%s is at least the values before %s" % (m, i), lambda ex, st, v, i=i, m=m: z3.Implies(z3.And(k >= 0, k < zi(v[i])), zi(v[m]) >= F)))
        return out

    def make(ex):
        fn = fn_of(mods, "@p_staircase_sum_bounds")
        ex.loop_candidates[r"slinky::staircase_sum_bounds"] = cands
        out = X.Region("result", 32)

        def setup(st):
            for n in STAIR:
                st.assume(X.inr(V[n]))
                ex.inputs[n] = V[n]
            ex.inputs["x"] = X_
            facts(ex, st, k)
            facts(ex, st, X_)
            st.mem[out] = {}
            return [V[n] for n in STAIR] + [X.Ptr(out)]

        def fin(st, _):
            l = st.ghost.get("lcms")
            F = z3.If(b1 == 0, I(0), EDIV(X_ + a1, b1)) * c1 + z3.If(b2 == 0, I(0), EDIV(X_ + a2, b2)) * c2
            if l:
                A, B_, p, ka, kb = l[-1]
                t = ex.fresh("t")
                st.assume(z3.And(X_ == k + p * t, k >= 0, k < p))
                s1, s2 = z3.If(b1 > 0, ka * t, -ka * t), z3.If(b2 > 0, kb * t, -kb * t)
                for a, b, s in ((a1, b1, s1), (a2, b2, s2)):
                    q1, q2 = EDIV(X_ + a, b), EDIV(k + a, b)
                    r1, r2 = EMOD(X_ + a, b), EMOD(k + a, b)
                    st.assume(z3.Implies(z3.And(b != 0, X_ == k + b * s), z3.And(q1 == q2 + s, r1 == r2)))
                st.assume(z3.Implies(z3.And(b1 != 0, b2 != 0, b1 * s1 == p * t, b2 * s2 == p * t, c1 * b2 == -c2 * b1), c1 * s1 + c2 * s2 == 0))
                Fk = EDIV(k + a1, b1) * c1 + EDIV(k + a2, b2) * c2
                if ex.sat(st, True) != "unsat":
                    ex.oblige(st, F == Fk, "the sum is periodic")
            g = lambda o: ex.load(st, fn.mod, ("i", 64), X.Ptr(out, o))
            ex.oblige(st, z3.Implies(zi(g(0)) != 0, zi(g(8)) <= F), "the lower bound holds for every x", assume=False)
            ex.oblige(st, z3.Implies(zi(g(16)) != 0, zi(g(24)) >= F), "the upper bound holds for every x", assume=False)
        return fn, setup, fin
    s = S.Spec("staircase_sum_bounds", mods, make, [base_contracts(), lcm_contract], prover=prover, case="staircase_sum_bounds", unroll=8)
    s.sym, s.names = "p_staircase_sum_bounds", STAIR + ["x"]
    return s


def c06_specs(mods):
    return [stair_spec(mods)]
