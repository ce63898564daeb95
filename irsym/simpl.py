"""Contracts of the simplifier itself (builder/simplify.cc): C01 for what its visitors return, C02 for the bounds and C04 for the alignment
that they carry along.

A visitor is executed with the contract of `mutate` for its operands (the induction over expressions): the result has the value of the
operand, the bounds contain it and the alignment holds. What is said under a condition that was learned (the two values of a select) is
only promised where the condition holds."""
import os
import re
import z3
from . import arith as A, build as B, ex as X, spec as S, nodes as N, constev as CE
from vlib import build
from .nodes import I, zi, K, V, T, kv, hid, fld, eq2, above, below

Z = z3.IntSort()
MEM = z3.Function("member", Z, Z, Z, z3.BoolSort())     # member(x, m, r): x is m*k + r for some k
MEMQ = z3.Function("member_k", Z, Z, Z, Z)
SI = r"slinky::\(anonymous namespace\)::simplifier::"
CA = r"slinky::\(anonymous namespace\)::constant_adder"
MR = r"slinky::modulus_remainder<long>"


def member(st, x, m, r):
    """Assumed: x belongs to the alignment."""
    st.assume(z3.Implies(MEM(x, m, r), x == m * MEMQ(x, m, r) + r))
    return MEM(x, m, r)


def member_goal(x, m, r, ks=()):
    return z3.Or(MEM(x, m, r), x == r, m == 1, m == -1, *[x == m * k + r for k in ks])


def cast(mod, name):
    n = next((n for n in mod.raw_types if n.strip('%"') == name), None)
    if n is None:
        raise X.Undecided("type %s not found" % name)
    return ("named", n)


def offsets(mod, name):
    t = cast(mod, name)
    r = mod.resolve(t)
    return list(zip(mod.layout(t)[2], r[1])), mod.size(t)


def of_type(l, name):
    return next(o for o, f in l if f[0] == "named" and f[1].strip('%"') == name)


def vtable(ex, mod, what):
    for n in mod.raw_globals:
        if n.startswith("@_ZTV") and n.endswith(what):
            return X.Ptr(ex.global_ptr(mod, n).region, 16)
    raise X.Undecided("vtable of %s not found" % what)


def cong(A, M, R, k):
    """A, M and R are (dividend, divisor, quotient, remainder). a = m*k + r and m a multiple of the divisor."""
    (a, b, q, t), (m, b2, mq, mt), (r, b3, rq, rt) = A, M, R
    return z3.Implies(z3.And(b != 0, b == b2, b == b3, mt == 0, rt >= 0, a == m * k + r), z3.And(q == mq * k + rq, t == rt))


def multiple(A, B, c):
    """a is a multiple of the divisor: so is a*c."""
    (a, b, q, t), (d, b2, q2, t2) = A, B
    return z3.Implies(z3.And(b != 0, b == b2, t == 0, d == a * c), z3.And(q2 == q * c, t2 == 0))


def congruences(st):
    """The instances of the lemmas for the divisions of this path and the known alignments."""
    ms = {}
    for c in st.conds():
        for x in mems(c):
            ms[x.get_id()] = x
    ks = [MEMQ(*x.children()) for x in ms.values()]
    if not ks:
        return
    ed, al = list(N.edivs(st)), list(N.edivs(st)) + list(st.divs)
    mods = [x.arg(1) for x in ms.values()]
    M = [d for d in al if any(d[0].eq(m) for m in mods)]
    A = [d for d in ed if not any(d[0].eq(m) for m in mods)]
    l = list(st.ghost.get("lemmas", ()))
    for m in M:
        k = [MEMQ(*x.children()) for x in ms.values() if x.arg(1).eq(m[0])]
        for a in A:
            for r in al:
                if r in M or r is a:
                    continue
                for q in k:
                    l += [cong(a, m, r, q), cong(a, m, r, -q)]
    if M:
        for a in A:
            for b in A:
                for c in st.ghost.get("values", ())[1:]:
                    if a is not b:
                        l.append(multiple(a, b, c))
    st.ghost["lemmas"] = tuple(l)


def mems(c, seen=None):
    seen = set() if seen is None else seen
    if not z3.is_app(c) or c.get_id() in seen:
        return
    seen.add(c.get_id())
    if c.decl().eq(MEM):
        yield c
    for x in c.children():
        yield from mems(x, seen)


def lemma_obligations():
    n = iter(range(100))
    f = lambda: z3.Int("l%d" % next(n))
    out = []
    A, M, R, k = [f() for _ in range(4)], [f() for _ in range(4)], [f() for _ in range(4)], f()
    divides = lambda d: [d[0] == d[1] * d[2] + d[3], -N.absv(d[1]) < d[3], d[3] < N.absv(d[1])]
    h = divides(A) + divides(M) + divides(R) + [A[3] >= 0] + [N.P.lemma(A[1], A[2] - M[2] * k - R[2])]
    g = cong(A, M, R, k)
    pre, post = g.arg(0), g.arg(1)
    sub = lambda t: z3.substitute(t, (M[1], A[1]), (R[1], A[1]), (M[3], I(0)))
    for j, c in enumerate(post.children()):
        out.append(("lemma: dividing what is congruent (%d)" % j, [z3.simplify(sub(x), som=True) for x in h + [pre]], sub(c)))
    B, c = [f() for _ in range(4)], f()
    g = multiple(A, B, c)
    h = divides(A) + divides(B) + [A[3] >= 0, B[3] >= 0, N.P.lemma(A[1], B[2] - A[2] * c)]
    sub = lambda t: z3.substitute(t, (B[1], A[1]), (A[3], I(0)), (A[0], A[1] * A[2]))
    for j, d in enumerate(g.arg(1).children()):
        out.append(("lemma: dividing a multiple (%d)" % j, [z3.simplify(sub(x), som=True) for x in h + [g.arg(0)]], sub(d)))
    return out


# --- constant_adder --------------------------------------------------------------------------------------------------
class Adder:
    def __init__(self, mod):
        l, _ = offsets(mod, "class.slinky::node_mutator")
        self.e = of_type(l, "class.slinky::expr")
        l, self.size = offsets(mod, "class.slinky::(anonymous namespace)::constant_adder")
        self.c = next(o for o, f in l if f == ("i", 64))
        self.cancelled = next(o for o, f in l if f == ("i", 32))


def plus(x, c, r):
    """r = x + c"""
    return z3.Or(K(x) == 2, z3.And(K(r) == K(x), z3.Implies(K(x) == 0, V(r) == V(x) + c)))


def let_contract(ex, nd):
    def let_make(ex, st, v, i):
        b = hid(v[-1])
        ex.oblige(st, b != 0, "operands of new nodes are defined")
        return X.NodePtr(nd.make(st, "let", body=b))
    ex.contract(r"slinky::let::make\(std::vector<.*>, slinky::expr\)", let_make)
    ex.contract(r"std::vector<std::pair<slinky::var, slinky::expr>.*>::~?vector\(.*\)", lambda ex, st, v, i: None)


def adder_mutate(ex, nd, mod, lay):
    def mutate(ex, st, v, i):
        this = v[0]
        x = hid(ex.load(st, mod, ("ptr",), v[1]))
        c = zi(ex.load(st, mod, ("i", 64), ex.addoff(this, lay.c)))
        ex.oblige(st, x != 0, "the operand is defined")
        ex.oblige(st, hid(ex.load(st, mod, ("ptr",), ex.addoff(this, lay.e))) == 0, "no result is pending when an operand is visited")
        n = ex.fresh("cancelled")
        st.assume(z3.And(n > -2 ** 20, n < 2 ** 20))
        ex.store(st, mod, ("i", 32), n, ex.addoff(this, lay.cancelled))
        r = ex.fresh("added")
        st.assume(r >= 0)
        nd.kinds_if(st, r)
        st.assume(z3.Implies(r != 0, plus(x, c, r)))
        return X.NodePtr(r)
    ex.contract(r"slinky::node_mutator::mutate\(slinky::expr const&\)", mutate)


def adder_spec(mod, t):
    def make(ex):
        fn = N.find([mod], CA + r"::visit\(slinky::%s const\*\)" % t)
        nd = N.Nodes(ex)
        lay = Adder(mod)
        adder_mutate(ex, nd, mod, lay)
        let_contract(ex, nd)
        A.divmod_contract(ex, 64, False)
        A.divmod_contract(ex, 64, True)
        loc = {}

        def setup(st):
            op, c, n = z3.Ints("op c cancelled")
            st.assume(z3.And(op > 0, T(op) == N.ty(t)))
            nd.kinds_if(st, op)
            nd.structure(st, op)
            st.assume(z3.And(X.inr(c), c > -2 ** 63, n > -2 ** 20, n < 2 ** 20))
            st.assume(z3.Implies(K(op) == 0, z3.And(X.inr(V(op)), X.inr(V(op) + c))))
            reg = X.Region("this", lay.size)
            st.mem[reg] = {(0, 8): vtable(ex, mod, "constant_adderE"), (lay.e, 8): X.NULL, (lay.c, 8): c, (lay.cancelled, 4): n}
            loc.update(op=op, c=c, this=reg)
            return [X.Ptr(reg), X.NodePtr(op)]

        def fin(st, ret):
            r = hid(ex.load(st, mod, ("ptr",), X.Ptr(loc["this"], lay.e)))
            ex.oblige(st, z3.Implies(r != 0, plus(loc["op"], loc["c"], r)), "the result is the sum", assume=False)
            ex.oblige(st, zi(ex.load(st, mod, ("i", 64), X.Ptr(loc["this"], lay.c))) == loc["c"], "the constant is the same again", assume=False)
        return fn, setup, fin
    s = S.Spec("constant_adder::visit(const %s*)" % t, [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


def add_constant_spec(mod):
    def make(ex):
        fn = N.find([mod], r"slinky::\(anonymous namespace\)::add_constant\(slinky::expr const&, long\)")
        nd = N.Nodes(ex)
        lay = Adder(mod)
        adder_mutate(ex, nd, mod, lay)
        loc = {}

        def ctor(ex, st, v, i):
            ex.store(st, mod, ("ptr",), X.NULL, ex.addoff(v[0], lay.e))
        ex.contract(r"slinky::node_mutator::node_mutator\(\)", ctor)
        ex.contract(r"slinky::node_mutator::~node_mutator\(\)", lambda ex, st, v, i: None)
        ex.contract(CA + r"::~constant_adder\(\)", lambda ex, st, v, i: None)

        def setup(st):
            x, c = nd.value(st, "a"), z3.Int("b")
            st.assume(X.inr(c))
            reg = X.Region("a", 8)
            st.mem[reg] = {(0, 8): X.NodePtr(x)}
            loc.update(x=x, c=c)
            return [X.Ptr(reg), c]

        def fin(st, ret):
            r = hid(ret)
            ex.oblige(st, z3.Implies(r != 0, plus(loc["x"], loc["c"], r)), "the result is the sum", assume=False)
        return fn, setup, fin
    s = S.Spec("add_constant(a, b)", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s
ADDER = N.BIN + ["variable", "let", "logical_not", "select", "call", "constant"]


# --- simplifier ------------------------------------------------------------------------------------------------------
class Layout:
    def __init__(self, mod):
        l, _ = offsets(mod, "class.slinky::node_mutator")
        self.e = of_type(l, "class.slinky::expr")
        l, self.size = offsets(mod, "class.slinky::(anonymous namespace)::simplifier")
        self.info = of_type(l, "struct.slinky::(anonymous namespace)::simplifier::expr_info")
        self.proving = next(o for o, f in l if f == ("i", 8))
        self.maps = [o for o, f in l if f[0] == "named" and "symbol_map" in f[1]]
        l, self.info_size = offsets(mod, "struct.slinky::(anonymous namespace)::simplifier::expr_info")
        self.bounds = of_type(l, "struct.slinky::interval_expr")
        self.align = of_type(l, "struct.slinky::modulus_remainder")
        self.known = of_type(l, "class.slinky::expr")


class Env:
    def __init__(self, ex, mod):
        self.ex, self.mod = ex, mod
        self.nd = N.Nodes(ex)
        self.lay = Layout(mod)
        ex.contract(r"__assert_fail", lambda ex, st, v, i: X.DEAD)
        ex.node_copy = self.node_copy

    def node_copy(self, st, dst, src, n):
        if n % 8:
            raise X.Undecided("memcpy from a node")
        for o in range(0, n, 8):
            self.ex.store(st, self.mod, ("i", 64), self.nd.load(st, self.mod, self.ex.addoff(src, o), ("i", 64)), self.ex.addoff(dst, o))

    def ptr(self, st, p, off=0):
        return hid(self.ex.load(st, self.mod, ("ptr",), self.ex.addoff(p, off)))

    def info(self, st, p):
        """(min, max, modulus, remainder, known) at p."""
        L, ex = self.lay, self.ex
        i64 = lambda o: zi(ex.load(st, self.mod, ("i", 64), ex.addoff(p, o)))
        return self.ptr(st, p, L.bounds), self.ptr(st, p, L.bounds + 8), i64(L.align), i64(L.align + 8), self.ptr(st, p, L.known)

    def put_info(self, st, p, lo, hi, m, r):
        L, ex, mod = self.lay, self.ex, self.mod
        for o, v in ((L.bounds, lo), (L.bounds + 8, hi), (L.known, I(0))):
            ex.store(st, mod, ("ptr",), X.NodePtr(v), ex.addoff(p, o))
        for o, v in ((L.align, m), (L.align + 8, r)):
            ex.store(st, mod, ("i", 64), v, ex.addoff(p, o))

    def given(self, st):
        g = st.ghost.get("given", ())
        return z3.And(*g) if g else z3.BoolVal(True)

    def fresh_info(self, st, x, g, nm="m"):
        # (a remainder is only the most negative integer if it is the value)
        """The info of a result whose value is that of x, where g."""
        ex = self.ex
        lo, hi, m, r = (ex.fresh(nm + s) for s in ("_min", "_max", "_mod", "_rem"))
        for e in (lo, hi):
            st.assume(z3.And(e > 0, K(e) != 2))
            self.nd.kinds_if(st, e)
        st.assume(z3.And(X.inr(m), X.inr(r), m > -2 ** 63, z3.Implies(m != 0, r > -2 ** 63)))
        st.assume(z3.Implies(z3.And(g, K(x) == 0), z3.And(above(lo, V(x)), below(hi, V(x)), member(st, V(x), m, r))))
        return lo, hi, m, r

    def mutate(self, ex, st, v, i):
        """simplifier::mutate(x, info)"""
        L = self.lay
        this, p = v[0], v[2]
        x = self.ptr(st, v[1])
        r = ex.fresh("m")
        st.assume(z3.And(r >= 0, (r == 0) == (x == 0)))
        self.nd.kinds_if(st, r)
        g = self.given(st)
        st.assume(z3.Implies(z3.And(x != 0, g, K(x) == 0), eq2(kv(x), kv(r))))
        own = ex.addoff(this, L.info)
        if isinstance(p, X.NodePtr):
            self.put_info(st, own, I(0), I(0), I(1), I(0))
            return X.NodePtr(r)
        if not ex.must(st, x != 0):
            # an operand that is missing: its info is left alone
            if ex.must(st, x == 0):
                self.put_info(st, own, I(0), I(0), I(1), I(0))
                return X.NodePtr(r)
            raise X.Undecided("operand that may be missing")
        lo, hi, m, q = self.fresh_info(st, x, g)
        # the bounds of a boolean are booleans
        for e in (lo, hi):
            st.assume(z3.Implies(self.is_boolean(r), self.boolean_iv(st, e)))
        self.put_info(st, p, lo, hi, m, q)
        if isinstance(p, X.Ptr) and not (p.region is own.region and X.conc(zi(p.off) - zi(own.off)) == 0):
            self.put_info(st, own, I(0), I(0), m, q)
        return X.NodePtr(r)

    def contracts(self, own=()):
        ex, nd, mod = self.ex, self.nd, self.mod
        N.simplify_contracts(ex, nd)
        N.predicate_contracts(ex, nd)
        ex.contract(SI + r"mutate\(slinky::expr const&, %sexpr_info\*\)" % SI, self.mutate)

        def adder(ex, st, v, i):
            x = self.ptr(st, v[0])
            r = ex.fresh("added")
            st.assume(r >= 0)
            nd.kinds_if(st, r)
            st.assume(z3.Implies(r != 0, plus(x, zi(v[1]), r)))
            return X.NodePtr(r)
        ex.contract(r"slinky::\(anonymous namespace\)::add_constant\(slinky::expr const&, long\)", adder)

        def const(sign):
            def f(ex, st, v, i):
                x = self.ptr(st, v[0])
                ex.oblige(st, x != 0, "the argument of constant_lower/upper_bound is defined")
                r = N.fresh_value(nd, st, "cb")
                st.assume(CE.bound(x, I(sign), r))
                return X.NodePtr(r)
            return f
        ex.contract(r"slinky::constant_lower_bound\(slinky::expr const&\)", const(-1))
        ex.contract(r"slinky::constant_upper_bound\(slinky::expr const&\)", const(1))

        def match(ex, st, v, i):
            a, b = hid(v[0]), hid(v[1])
            r = ex.freshb("same")
            st.assume(z3.Implies(z3.And(r, a != 0, b != 0), z3.And(K(a) == K(b), V(a) == V(b))))
            st.assume(z3.Implies(r, (a == 0) == (b == 0)))
            return r
        ex.contract(r"slinky::match\(slinky::expr_ref, slinky::expr_ref\)", match)
        ex.contract(r"slinky::match\(slinky::expr const&, slinky::expr const&\)", lambda ex, st, v, i: match(ex, st, [ex.load(st, mod, ("ptr",), q) for q in v], i))
        self.bounds_contracts()
        self.align_contracts()
        self.proof_contracts(own)
        self.knowledge_contracts()

        def strip(ex, st, v, i):
            x = hid(v[0])
            r = ex.fresh("stripped")
            st.assume(z3.And(r >= 0, (r == 0) == (x == 0)))
            nd.kinds_if(st, r)
            st.assume(z3.Implies(x != 0, CE.strip_claim(x, r)))
            # conditions are finite
            st.assume(z3.Implies(K(x) == 0, K(r) == 0))
            return X.NodePtr(r)
        ex.contract(r"slinky::\(anonymous namespace\)::strip_boolean\(slinky::expr\)", strip)
        A.divmod_contract(ex, 64, False)
        A.divmod_contract(ex, 64, True)

    def is_boolean(self, r):
        return z3.Or(N.boolean_type(r), z3.And(T(r) == N.ty("constant"), K(r) == 0, V(r) >= 0, V(r) <= 1))

    def proof_contracts(self, own=()):
        ex = self.ex

        def proves(want):
            def f(ex, st, v, i):
                e = self.ptr(st, v[0])
                b = ex.freshb("proven")
                st.assume(z3.Implies(b, z3.And(e != 0, proof(e, want))))
                return b
            return f
        if "prove" not in own:
            ex.contract(SI + r"prove_constant_true\(slinky::expr const&\)", proves(True))
            ex.contract(SI + r"prove_constant_false\(slinky::expr const&\)", proves(False))

        def attempt(ex, st, v, i):
            lo, hi = self.ptr(st, v[0]), self.ptr(st, v[0], 8)
            has, b = ex.freshb("has"), ex.freshb("proven")
            st.assume(z3.Implies(z3.And(has, b), z3.And(lo != 0, proof(lo, True))))
            st.assume(z3.Implies(z3.And(has, z3.Not(b)), z3.And(hi != 0, proof(hi, False))))
            return X.Pack([(0, 1, X.b2i(b)), (1, 1, X.b2i(has))])
        if "attempt" not in own:
            ex.contract(SI + r"attempt_to_prove\(slinky::interval_expr const&\)", attempt)

        def trim(ex, st, v, i):
            p = v[0]
            lo, hi, m, r, known = self.info(st, p)
            n = [ex.fresh("trim_" + k) for k in ("min", "max", "mod", "rem")]
            st.assume(z3.And(X.inr(n[2]), X.inr(n[3])))
            for e, o in ((n[0], lo), (n[1], hi)):
                st.assume(z3.And(e >= 0, z3.Implies(o != 0, e != 0), z3.Implies(K(o) != 2, K(e) != 2)))
                self.nd.kinds_if(st, e)
            for z in st.ghost.get("either", ()):
                st.assume(z3.Implies(z3.And(above(lo, z), below(hi, z), member(st, z, m, r)),
                                     z3.And(above(n[0], z), below(n[1], z), member(st, z, n[2], n[3]))))
            self.put_info(st, p, *n)
            ex.store(st, self.mod, ("ptr",), X.NodePtr(known), ex.addoff(p, self.lay.known))
        for op in SUBST:
            def sb(ex, st, v, i, op=op):
                a, b = hid(v[0]), hid(v[1])
                ex.oblige(st, z3.And(a != 0, b != 0), "operands of new nodes are defined")
                r = N.fresh_value(self.nd, st, "sb_" + op)
                st.assume(substituted(self.ex, st, op, a, b, r))
                return X.NodePtr(r)
            if op not in own:
                ex.contract(r"slinky::rewrite::substitute_binary\(slinky::expr, slinky::expr, bool&, slinky::%s const&\)" % op, sb)
        if "trim" not in own:
            ex.contract(SI + r"expr_info::trim_bounds_using_alignment\(\)", trim)

    def iv(self, st, z, nm="b"):
        """An interval that contains z (a pair of (kind, value))."""
        ex = self.ex
        lo, hi = ex.fresh(nm + "_min"), ex.fresh(nm + "_max")
        for e in (lo, hi):
            st.assume(z3.And(e > 0, K(e) != 2))
            self.nd.kinds_if(st, e)
        st.assume(z3.Implies(z[0] == 0, z3.And(above(lo, z[1]), below(hi, z[1]))))
        return lo, hi

    def boolean_iv(self, st, e):
        return z3.And(K(e) == 0, z3.Or(V(e) == 0, V(e) == 1))

    def bounds_contracts(self):
        """bounds_of(op, operands): the interval contains the value for any values of the operands within theirs (bounds.op_spec)."""
        ex, nd = self.ex, self.nd

        def witness(st, lo, hi):
            """The values that the intervals are known to contain: of the operands of the node being visited."""
            return st.ghost.get("operands", ())
        for op in N.BIN:
            def f(ex, st, v, i, op=op):
                e = [hid(q) for q in v[1:5]]
                ex.oblige(st, z3.And(*[q != 0 for q in e]), "the bounds of the operands are defined")
                lo, hi = self.iv(st, (I(2), I(0)))
                if op in N.BOOLEANS:
                    for q in (lo, hi):
                        st.assume(self.boolean_iv(st, q))
                if op in ("logical_and", "logical_or"):
                    for q in (e[:2], e[2:]):
                        ex.oblige(st, z3.Or(*[K(d) == 2 for d in q], z3.And(*[self.boolean_iv(st, d) for d in q]), z3.And(K(q[0]) == K(q[1]), V(q[0]) == V(q[1]))),
                                  "the bounds of the operands are boolean, or points")
                pairs = st.ghost.get("pairs", ())
                if op in ("logical_and", "logical_or"):
                    xs, ys = zip(*pairs) if pairs else ((), ())
                    pairs += tuple((V(e[0]), y) for y in ys) + tuple((x, V(e[2])) for x in xs)
                if op == "not_equal":
                    pairs += tuple((x, I(0)) for x in st.ghost.get("singles", ()))
                for x, y in pairs:
                    z = ex.fresh("z")
                    st.assume(N.op_axiom(st, op, (ex.fresh("zk"), z), (I(0), x), (I(0), y)))
                    st.assume(z3.Implies(z3.And(above(e[0], x), below(e[1], x), above(e[2], y), below(e[3], y)), z3.And(above(lo, z), below(hi, z))))
                st.ghost["of"] = st.ghost.get("of", ()) + ((op, tuple(e), (lo, hi)),)
                return X.Agg([X.NodePtr(lo), X.NodePtr(hi)])
            ex.contract(r"slinky::bounds_of\(slinky::%s const\*, slinky::interval_expr, slinky::interval_expr\)" % op, f)

        def fnot(ex, st, v, i):
            e = [hid(q) for q in v[1:3]]
            lo, hi = self.iv(st, (I(2), I(0)))
            for q in (lo, hi):
                st.assume(self.boolean_iv(st, q))
            for q in e:
                ex.oblige(st, z3.Or(K(q) == 2, self.boolean_iv(st, q)), "the bounds of the operand are boolean")
            for x in st.ghost.get("singles", ()):
                z = N.b2i(x == 0)
                st.assume(z3.Implies(z3.And(above(e[0], x), below(e[1], x)), z3.And(above(lo, z), below(hi, z))))
            return X.Agg([X.NodePtr(lo), X.NodePtr(hi)])
        ex.contract(r"slinky::bounds_of\(slinky::logical_not const\*, slinky::interval_expr\)", fnot)

        def fsel(ex, st, v, i):
            q = list(v[1:])
            e = []
            for a in q:
                if isinstance(a, X.Ptr):
                    e += [self.ptr(st, a), self.ptr(st, a, 8)]
                else:
                    e.append(hid(a))
            if len(e) != 6:
                raise X.Undecided("operands of bounds_of(select)")
            ex.oblige(st, z3.And(*[a != 0 for a in e]), "the bounds of the operands are defined")
            for a in e[:2]:
                ex.oblige(st, z3.Or(K(a) == 2, self.boolean_iv(st, a)), "the bounds of the condition are boolean")
            lo, hi = self.iv(st, (I(2), I(0)))
            c, t, f = st.ghost["select"]
            z = z3.If(c != 0, t, f)
            st.assume(z3.Implies(z3.And(above(e[0], c), below(e[1], c), z3.Implies(c != 0, z3.And(above(e[2], t), below(e[3], t))),
                                        z3.Implies(c == 0, z3.And(above(e[4], f), below(e[5], f)))), z3.And(above(lo, z), below(hi, z))))
            return X.Agg([X.NodePtr(lo), X.NodePtr(hi)])
        ex.contract(r"slinky::bounds_of\(slinky::select const\*, .*\)", fsel)

    def align_contracts(self):
        ex = self.ex
        MATH = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "|": "or", "&": "and"}

        def arg(st, p):
            return [zi(ex.load(st, self.mod, ("i", 64), ex.addoff(p, o))) for o in (0, 8)]
        for s, op in MATH.items():
            def f(ex, st, v, i, op=op):
                a, b = arg(st, v[-2]), arg(st, v[-1])
                m, r = ex.fresh("al_mod"), ex.fresh("al_rem")
                st.assume(z3.And(X.inr(m), X.inr(r), m > -2 ** 63))
                if op in ("or", "and"):
                    for x in st.ghost.get("either", ()):
                        h = (z3.Or if op == "or" else z3.And)(member(st, x, *a), member(st, x, *b))
                        st.assume(z3.Implies(h, member(st, x, m, r)))
                else:
                    for x, y in st.ghost.get("pairs", ()):
                        z = ex.fresh("z")
                        st.assume(N.op_axiom(st, op, (I(0), z), (I(0), x), (I(0), y)))
                        st.assume(z3.Implies(z3.And(member(st, x, *a), member(st, y, *b)), member(st, z, m, r)))
                return X.Agg([m, r])
            ex.contract(MR + r" slinky::operator%s<long>\(%s const&, %s const&\)" % (re.escape(s), MR, MR), f)

    def truthful_info(self, st, x, nm):
        """Cells of an expr_info that says true things about the value x."""
        ex, L = self.ex, self.lay
        lo, hi, k = (ex.fresh(nm + s) for s in ("_min", "_max", "_known"))
        m, r = ex.fresh(nm + "_mod"), ex.fresh(nm + "_rem")
        for e in (lo, hi, k):
            st.assume(z3.And(e >= 0, z3.Implies(e != 0, K(e) != 2)))
            self.nd.kinds_if(st, e)
        st.assume(z3.And(X.inr(m), X.inr(r), m > -2 ** 63, z3.Implies(m != 0, r > -2 ** 63)))
        st.assume(z3.And(above(lo, x), below(hi, x), member(st, x, m, r), z3.Implies(k != 0, z3.And(K(k) == 0, V(k) == x))))
        return [(L.bounds, 8, X.NodePtr(lo)), (L.bounds + 8, 8, X.NodePtr(hi)), (L.align, 8, m), (L.align + 8, 8, r), (L.known, 8, X.NodePtr(k))]

    def maps(self, op):
        """The tables of what is known about variables and buffers. What they say is true."""
        ex, mod, nd, L = self.ex, self.mod, self.nd, self.lay
        HASV = z3.Function("has_info", Z, z3.BoolSort())
        HASB = z3.Function("has_buffer", Z, z3.BoolSort())
        sym = fld(nd.L["variable.sym"])(op)
        f, d = fld(nd.L["variable.field"])(op), fld(nd.L["variable.dim"])(op)
        INFO = r"slinky::symbol_map<%sexpr_info>::" % SI
        BUF = r"slinky::symbol_map<%sbuffer_info>::" % SI

        def of(v):
            return zi(v) if not isinstance(v, X.Pack) else zi(v.cells[0][2])
        ex.contract(INFO + r"contains\(slinky::var\) const", lambda ex, st, v, i: HASV(of(v[1])))

        def var_info(ex, st, v, i):
            key = ("vinfo", of(v[1]).get_id())
            if key not in st.ghost:
                s = of(v[1])
                reg = X.Region("info of variable", L.info_size + 8)
                cells = {(L.info_size, 1): z3.If(HASV(s), I(1), I(0))}
                for o, n, x in self.truthful_info(st, N.VAR(s, nd.L["field.none"], I(-1)), "vi"):
                    cells[(o, n)] = x
                    if o == L.known:
                        # a buffer that is known to be another has its fields
                        k = hid(x)
                        st.assume(z3.Implies(z3.And(k != 0, T(k) == N.ty("variable")), N.VAR(fld(nd.L["variable.sym"])(k), f, d) == N.VAR(s, f, d)))
                st.mem[reg] = cells
                st.ghost[key] = (reg, s)
            return X.Ptr(st.ghost[key][0])
        ex.contract(INFO + r"operator\[\]\(slinky::var\)( const)?", var_info)
        bl, bsize = offsets(mod, "struct.slinky::(anonymous namespace)::simplifier::buffer_info")
        b_elem = of_type(bl, "struct.slinky::(anonymous namespace)::simplifier::expr_info")
        b_decl = of_type(bl, "class.slinky::stmt")
        b_dims = next(o for o, q in bl if q[0] == "named" and "vector" in q[1])
        b_rank = next(o for o, q in bl if q == ("i", 32))

        def buffer_info(ex, st, v, i):
            s = of(v[1])
            reg = X.Region("info of buffer", bsize + 8)
            rank, decl = ex.fresh("rank"), ex.fresh("decl")
            st.assume(z3.And(X.inr(rank, 32), decl >= 0, z3.Implies(z3.And(rank >= 0, d >= rank), N.VAR(s, f, d) == 0)))
            cells = {(bsize, 1): z3.If(HASB(s), I(1), I(0)), (b_rank, 4): rank, (b_decl, 8): X.NodePtr(decl)}
            for o, n, x in self.truthful_info(st, N.VAR(s, nd.L["field.elem_size"], I(-1)), "ei"):
                cells[(b_elem + o, n)] = x
            st.mem[reg] = cells
            st.ghost[("buffer", reg)] = s
            return X.Ptr(reg)
        ex.contract(BUF + r"operator\[\]\(slinky::var\)( const)?", buffer_info)
        VEC = r"std::vector<%sdim_info, .*>::" % SI
        dl, dsize = offsets(mod, "struct.slinky::(anonymous namespace)::simplifier::dim_info")
        NDIMS = z3.Function("known_dims", Z, Z)

        def size(ex, st, v, i):
            n = NDIMS(st.ghost[("buffer", v[0].region)])
            st.assume(z3.And(n >= 0, n < 2 ** 31))
            return n

        def dim_at(ex, st, v, i):
            s = st.ghost[("buffer", v[0].region)]
            k = zi(v[1])
            ex.oblige(st, z3.And(k >= 0, k < NDIMS(s)), "the dimension is one that is known")
            reg = X.Region("info of dimension", dsize)
            cells = {}
            for (o, _), n in zip(dl, PER_DIM):
                for o2, w, x in self.truthful_info(st, N.VAR(s, nd.L["field." + n], k), n):
                    cells[(o + o2, w)] = x
            st.mem[reg] = cells
            return X.Ptr(reg)
        ex.contract(VEC + r"size\(\) const", size)
        ex.contract(VEC + r"operator\[\]\(unsigned long\)( const)?", dim_at)

        def var_make(ex, st, v, i):
            w = [of(q) for q in v]
            return X.NodePtr(nd.make(st, "variable", sym=w[0], field=w[1], dim=w[2]))
        ex.contract(r"slinky::variable::make\(slinky::var, slinky::buffer_field, int\)", var_make)

    def knowledge_contracts(self):
        """What a condition says is true where it holds."""
        ex, nd = self.ex, self.nd

        def learn(want):
            def f(ex, st, v, i):
                k, c = v[0], self.ptr(st, v[-1])
                ex.oblige(st, c != 0, "the condition is defined")
                st.ghost[("knows", k.region)] = N.truthy(kv(c)) if want else z3.Not(N.truthy(kv(c)))
                st.ghost["given"] = st.ghost.get("given", ()) + (st.ghost[("knows", k.region)],)
            return f
        ex.contract(SI + r"learn_from_true\(slinky::expr const&\)", learn(True))
        ex.contract(SI + r"learn_from_false\(slinky::expr const&\)", learn(False))

        def substitute(ex, st, v, i):
            k, x = v[0], hid(v[1])
            g = st.ghost[("knows", k.region)]
            r = ex.fresh("learned")
            st.assume(z3.And(r >= 0, (r == 0) == (x == 0)))
            nd.kinds_if(st, r)
            st.assume(z3.Implies(z3.And(x != 0, g), eq2(kv(x), kv(r))))
            return X.NodePtr(r)
        ex.contract(SI + r"knowledge::substitute\(slinky::expr\) const", substitute)

        def end(ex, st, v, i):
            g = st.ghost[("knows", v[0].region)]
            l = st.ghost["given"]
            if not l or not l[-1].eq(g):
                ex.oblige(st, z3.BoolVal(False), "what was learned last is forgotten first")
            st.ghost["given"] = l[:-1]
        ex.contract(SI + r"knowledge::~knowledge\(\)", end)

    def object(self, st, proving=None):
        L, ex = self.lay, self.ex
        reg = X.Region("this", L.size)
        st.mem[reg] = {(0, 8): vtable(ex, self.mod, "simplifierE"), (L.e, 8): X.NULL, (L.proving, 1): z3.If(z3.Bool("proving"), I(1), I(0)),
                       (L.info + L.bounds, 8): X.NULL, (L.info + L.bounds + 8, 8): X.NULL, (L.info + L.align, 8): I(1),
                       (L.info + L.align + 8, 8): I(0), (L.info + L.known, 8): X.NULL}
        return reg

    def result(self, st, this, op, label="the result"):
        """What the visitor leaves: the value, the bounds and the alignment."""
        L, ex = self.lay, self.ex
        r = self.ptr(st, X.Ptr(this, L.e))
        lo, hi, m, q, known = self.info(st, X.Ptr(this, L.info))
        ob = lambda c, n: ex.oblige(st, c, n, assume=False)
        ob(r != 0, "there is a result")
        ob(eq2(kv(op), kv(r)), "the result has the value of the expression")
        ob(z3.And(lo != 0, hi != 0), "the bounds of the result are defined")
        fin = K(op) == 0
        ob(z3.Implies(fin, above(lo, V(op))), "the lower bound holds")
        ob(z3.Implies(fin, below(hi, V(op))), "the upper bound holds")
        for e in (lo, hi):
            ob(z3.Implies(self.is_boolean(r), z3.Or(K(e) == 2, self.boolean_iv(st, e))), "the bounds of a boolean are booleans")
        ob(z3.Implies(fin, member_goal(V(op), m, q)), "the alignment holds")


FIELDS = ("none", "rank", "elem_size", "min", "max", "stride", "fold_factor")
PER_DIM = ("min", "max", "stride", "fold_factor")
SUBST = ["add", "sub", "mul", "div", "mod", "logical_and", "logical_or"]


def substituted(ex, st, op, a, b, r):
    """r has the value of a op b."""
    k, w = ex.fresh("sk"), ex.fresh("sv")
    return z3.And(N.op_axiom(st, op, (k, w), kv(a), kv(b)), eq2((k, w), kv(r)))


def substitute_spec(mod, op):
    """The rewriter's constructor of a binary operation: the value of the operation."""
    def make(ex):
        fn = N.find([mod], r"slinky::rewrite::substitute_binary\(slinky::expr, slinky::expr, bool&, slinky::%s const&\)" % op)
        nd = N.Nodes(ex)
        N.predicate_contracts(ex, nd, ["is_zero", "is_one", "is_true", "is_false"])
        # the predicates on constants
        loc = {}

        def boolean(ex, st, v, i):
            x = hid(ex.load(st, mod, ("ptr",), v[0]))
            r = N.fresh_value(nd, st, "boolean")
            st.assume(CE.boolean_claim(x, r))
            return X.NodePtr(r)
        ex.contract(r"slinky::boolean\(slinky::expr const&\)", boolean)

        def setup(st):
            a, b = nd.value(st, "a"), nd.value(st, "b")
            st.assume(z3.And(K(a) == 0, K(b) == 0))
            r = X.Region("overflowed", 1)
            st.mem[r] = {(0, 1): I(0)}
            loc.update(a=a, b=b)
            o = X.Region("op", 64)
            st.mem[o] = {}
            return [X.NodePtr(a), X.NodePtr(b), X.Ptr(r), X.Ptr(o)]

        def fin(st, ret):
            r = hid(ret)
            z = ex.fresh("z")
            st.assume(N.op_axiom(st, op, (I(0), z), kv(loc["a"]), kv(loc["b"])))
            ex.oblige(st, r != 0, "there is a result", assume=False)
            ex.oblige(st, eq2((I(0), z), kv(r)), "the result has the value of the operation", assume=False)
        return fn, setup, fin
    s = S.Spec("rewrite::substitute_binary(a, b, const %s&)" % op, [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


def proof(e, want):
    """What is proven: e is true, or false (an indeterminate value says nothing)."""
    return z3.Or(K(e) == 2, N.truthy(kv(e)) if want else z3.And(K(e) == 0, V(e) == 0))


def proof_spec(mod, want):
    def make(ex):
        fn = N.find([mod], SI + r"prove_constant_%s\(slinky::expr const&\)" % str(want).lower())
        env = Env(ex, mod)
        env.contracts(("prove",))
        loc = {}

        def setup(st):
            e = env.nd.value(st, "e", False)
            reg = X.Region("e", 8)
            st.mem[reg] = {(0, 8): X.NodePtr(e)}
            loc["e"] = e
            return [X.Ptr(reg)]

        def fin(st, ret):
            e = loc["e"]
            ex.oblige(st, z3.Implies(X.zb(ex.to_bool(ret)), z3.And(e != 0, proof(e, want))), "only what is %s is proven" % str(want).lower(), assume=False)
        return fn, setup, fin
    s = S.Spec("simplifier::prove_constant_%s" % str(want).lower(), [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify", "prove")
    return s


def attempt_spec(mod):
    def make(ex):
        fn = N.find([mod], SI + r"attempt_to_prove\(slinky::interval_expr const&\)")
        env = Env(ex, mod)
        env.contracts(("attempt",))
        loc = {}

        def setup(st):
            lo, hi = env.nd.value(st, "min", False), env.nd.value(st, "max", False)
            reg = X.Region("e", 16)
            st.mem[reg] = {(0, 8): X.NodePtr(lo), (8, 8): X.NodePtr(hi)}
            loc.update(lo=lo, hi=hi)
            return [X.Ptr(reg)]

        def fin(st, ret):
            if isinstance(ret, X.Pack):
                d = {o: zi(x) for o, n, x in ret.cells}
                val, has = d.get(0, z3.Int("any")) != 0, d[1] != 0
            else:
                w = zi(ret)
                val, has = w % 256 != 0, (w / 256) % 256 != 0
            ex.oblige(st, z3.Implies(z3.And(has, val), z3.And(loc["lo"] != 0, proof(loc["lo"], True))), "true: the lower bound is true", assume=False)
            ex.oblige(st, z3.Implies(z3.And(has, z3.Not(val)), z3.And(loc["hi"] != 0, proof(loc["hi"], False))), "false: the upper bound is false", assume=False)
        return fn, setup, fin
    s = S.Spec("simplifier::attempt_to_prove(interval)", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify", "prove")
    return s


def trim_spec(mod):
    def make(ex):
        fn = N.find([mod], SI + r"expr_info::trim_bounds_using_alignment\(\)")
        env = Env(ex, mod)
        env.contracts(("trim",))
        nd, L = env.nd, env.lay
        loc = {}

        def setup(st):
            lo, hi, known = (nd.value(st, n, False) for n in ("min", "max", "known"))
            m, r, z = z3.Ints("modulus remainder x")
            q = z3.Int("k")
            st.assume(z3.And(X.inr(m), X.inr(r), X.inr(z), m > -2 ** 63, K(lo) != 2, K(hi) != 2))
            st.assume(z3.And(above(lo, z), below(hi, z), z == m * q + r))
            reg = X.Region("this", L.info_size)
            p = X.Ptr(reg)
            st.mem[reg] = {}
            env.put_info(st, p, lo, hi, m, r)
            ex.store(st, mod, ("ptr",), X.NodePtr(known), ex.addoff(p, L.known))
            loc.update(z=z, q=q, p=p, lo=lo, hi=hi, known=known, m=m)
            return [p]

        def fin(st, ret):
            lo, hi, m, r, known = env.info(st, loc["p"])
            z = loc["z"]
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            ob(above(lo, z), "the lower bound holds")
            ob(below(hi, z), "the upper bound holds")
            ob(z3.Or(z == m * loc["q"] + r, z == r), "the alignment holds")
            ob(z3.And(z3.Implies(loc["lo"] != 0, lo != 0), z3.Implies(loc["hi"] != 0, hi != 0), K(lo) != 2, K(hi) != 2), "the bounds stay defined")
            ob(known == loc["known"], "the known value is kept")
        return fn, setup, fin
    s = S.Spec("simplifier::expr_info::trim_bounds_using_alignment", [mod], make, prover=N.prover, timeout=6.0)
    s.kinds = ("simplify", "boundsof")
    return s


def visit_spec(mod, t, field=None):
    def make(ex):
        fn = N.find([mod], SI + r"visit\(slinky::%s const\*\)" % t)
        env = Env(ex, mod)
        env.contracts()
        nd = env.nd
        loc = {}

        def setup(st):
            op = z3.Int("op")
            st.assume(z3.And(op > 0, T(op) == N.ty(t)))
            nd.kinds_if(st, op)
            nd.structure(st, op)
            # values are finite and representable
            st.assume(z3.And(K(op) == 0, X.inr(V(op))))
            if t == "logical_not":
                a = fld(nd.L["logical_not.a"])(op)
                st.assume(K(a) == 0)
                st.ghost["singles"] = (V(a), N.b2i(V(a) != 0))
            if t == "select":
                c, x, y = (fld(nd.L["select." + n])(op) for n in ("condition", "true_value", "false_value"))
                st.assume(z3.And(K(c) == 0, K(x) == 0, K(y) == 0))
                st.ghost["singles"] = (V(c), N.b2i(V(c) != 0))
                st.ghost["select"] = (N.b2i(V(c) != 0), V(x), V(y))
                st.ghost["either"] = (V(op),)
            if t == "variable":
                f, d = fld(nd.L["variable.field"])(op), fld(nd.L["variable.dim"])(op)
                lo, hi = nd.L["field.none"], nd.L["field.fold_factor"]
                st.assume(z3.And(f >= lo, f <= hi, d >= -1, X.inr(d, 32), (d >= 0) == z3.Or(*[f == nd.L["field." + n] for n in PER_DIM])))
                # the sizes of a buffer are not negative
                st.assume(z3.Implies(z3.Or(f == nd.L["field.rank"], f == nd.L["field.elem_size"]), V(op) >= 0))
                st.assume(f == nd.L["field." + field])
                env.maps(op)
            if t in N.BIN:
                a, b = (fld(nd.L["%s.%s" % (t, n)])(op) for n in "ab")
                st.assume(z3.And(K(a) == 0, K(b) == 0))
                st.ghost["pairs"] = ((V(a), V(b)),)
                st.ghost["either"] = (V(op),)
                st.ghost["values"] = (V(op), V(a), V(b))
                if t in ("logical_and", "logical_or"):
                    A1, B1 = ((V(x), N.b2i(V(x) != 0)) for x in (a, b))
                    st.ghost["pairs"] = tuple((x, y) for x in A1 for y in B1)
                    st.ghost["singles"] = A1 + B1
            this = env.object(st)
            loc.update(op=op, this=this)
            return [X.Ptr(this), X.NodePtr(op)]

        def fin(st, ret):
            congruences(st)
            env.result(st, loc["this"], loc["op"])
        return fn, setup, fin
    s = S.Spec("simplifier::visit(const %s*)%s" % (t, " of %s" % field if field else ""), [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


# --- what is learned from conditions -----------------------------------------------------------------------------------
KN = SI + r"knowledge::"
INFO = r"slinky::symbol_map<%sexpr_info>::" % SI
FACTS = r"std::vector<std::pair<slinky::expr, slinky::expr>, .*>"


def of_var(v):
    return zi(v) if not isinstance(v, X.Pack) else zi(v.cells[0][2])


class Learn(Env):
    """A knowledge object. What is added to it is true, given the condition."""
    def contracts(self, own=()):
        super().contracts(own)
        ex, nd, mod = self.ex, self.nd, self.mod

        def holds(c, want):
            return z3.And(K(c) == 0, V(c) != 0) if want else z3.And(K(c) == 0, V(c) == 0)

        def rec(want):
            def f(ex, st, v, i):
                c = self.ptr(st, v[1])
                ex.oblige(st, c != 0, "the condition is defined")
                ex.oblige(st, holds(c, want), "what is learned from is %s" % ("true" if want else "false"), assume=False)
            return f
        ex.contract(KN + r"learn_from_true\(slinky::expr const&\)", rec(True))
        ex.contract(KN + r"learn_from_false\(slinky::expr const&\)", rec(False))

        def rel(op):
            def f(ex, st, v, i):
                a, b = self.ptr(st, v[1]), self.ptr(st, v[2])
                ex.oblige(st, z3.And(a != 0, b != 0), "the operands are defined")
                z = ex.fresh("z")
                st.assume(N.op_axiom(st, op, (I(0), z), kv(a), kv(b)))
                ex.oblige(st, z == 1, "what is learned from is true", assume=False)
            return f
        for op in ("less", "less_equal", "equal"):
            ex.contract(KN + r"learn_from_%s\(slinky::expr const&, slinky::expr const&\)" % op, rel(op))

        def fact(ex, st, v, i):
            a, b = self.ptr(st, v[1]), self.ptr(st, v[1], 8)
            ex.oblige(st, z3.And(a != 0, b != 0), "a fact is defined")
            ex.oblige(st, z3.Implies(K(a) == 0, eq2(kv(a), kv(b))), "a fact is true", assume=False)
        ex.contract(FACTS + r"::push_back\(std::pair<slinky::expr, slinky::expr>&&\)", fact)

        def add(ex, st, v, i):
            x, lo, hi, m, r = hid(v[1]), hid(v[2]), hid(v[3]), zi(v[4]), zi(v[5])
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            ex.oblige(st, z3.And(x != 0, T(x) == N.ty("variable")), "bounds are learned of a variable")
            fin = K(x) == 0
            ob(z3.Implies(fin, above(lo, V(x))), "a learned lower bound holds")
            ob(z3.Implies(fin, below(hi, V(x))), "a learned upper bound holds")
            ob(z3.Implies(fin, z3.Or(member_goal(V(x), m, r, st.ghost.get("quotients", ())))), "a learned alignment holds")
        if "add" not in own:
            ex.contract(KN + r"add_var_info\(slinky::variable const\*, slinky::interval_expr, %s\)" % MR, add)

        def intersection(ex, st, v, i):
            a, b, c, d = (hid(q) for q in v)
            lo, hi = ex.fresh("in_min"), ex.fresh("in_max")
            for e in (lo, hi):
                st.assume(z3.And(e >= 0, z3.Implies(e != 0, K(e) != 2)))
                nd.kinds_if(st, e)
            for x in st.ghost.get("either", ()):
                st.assume(z3.Implies(z3.And(above(a, x), below(b, x), above(c, x), below(d, x)), z3.And(above(lo, x), below(hi, x))))
            return X.Agg([X.NodePtr(lo), X.NodePtr(hi)])
        ex.contract(r"slinky::simplify_intersection\(slinky::interval_expr, slinky::interval_expr\)", intersection)

        def merge(ex, st, v, i):
            lo, hi, m, r, known = self.info(st, v[0])
            lo2, hi2, m2, r2 = hid(v[1]), hid(v[2]), zi(v[3]), zi(v[4])
            n = [ex.fresh("merged_" + k) for k in ("min", "max", "known", "mod", "rem")]
            for e in n[:3]:
                st.assume(z3.And(e >= 0, z3.Implies(e != 0, K(e) != 2)))
                nd.kinds_if(st, e)
            st.assume(z3.And(X.inr(n[3]), X.inr(n[4])))
            for x in st.ghost.get("either", ()):
                pre = z3.And(above(lo, x), below(hi, x), above(lo2, x), below(hi2, x), member_goal(x, m, r), member_goal(x, m2, r2),
                             z3.Implies(known != 0, z3.And(K(known) == 0, V(known) == x)))
                st.assume(z3.Implies(pre, z3.And(above(n[0], x), below(n[1], x), member(st, x, n[3], n[4]),
                                                 z3.Implies(n[2] != 0, z3.And(K(n[2]) == 0, V(n[2]) == x)))))
            self.put_info(st, v[0], n[0], n[1], n[3], n[4])
            ex.store(st, mod, ("ptr",), X.NodePtr(n[2]), ex.addoff(v[0], self.lay.known))
        if "merge" not in own:
            ex.contract(SI + r"expr_info::merge\(slinky::interval_expr, %s\)" % MR, merge)

    def knowledge(self, st):
        _, size = offsets(self.mod, "class.slinky::(anonymous namespace)::simplifier::knowledge")
        reg = X.Region("this", size)
        st.mem[reg] = {}
        return X.Ptr(reg)

    def finite(self, st, e):
        """The value of e, and those of its operands, are finite and representable."""
        st.assume(z3.And(K(e) == 0, X.inr(V(e))))

    def cell(self, st, n):
        e = self.nd.value(st, n)
        reg = X.Region(n, 8)
        st.mem[reg] = {(0, 8): X.NodePtr(e)}
        return e, X.Ptr(reg)


def learn_spec(mod, want):
    nm = "learn_from_%s" % str(want).lower()

    def make(ex):
        fn = N.find([mod], KN + nm + r"\(slinky::expr const&\)")
        env = Learn(ex, mod)
        env.contracts()

        def setup(st):
            c, p = env.cell(st, "c")
            env.finite(st, c)
            st.assume((V(c) != 0) if want else (V(c) == 0))
            # conditions of finite expressions
            for t in N.BIN + ["logical_not"]:
                if t in N.BOOLEANS:
                    for n in ("a",) if t == "logical_not" else ("a", "b"):
                        st.assume(z3.Implies(T(c) == N.ty(t), K(fld(env.nd.L["%s.%s" % (t, n)])(c)) == 0))
            return [env.knowledge(st), p]
        return fn, setup, lambda st, ret: None
    s = S.Spec("knowledge::%s(c)" % nm, [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


def learn_rel_spec(mod, op):
    nm = "learn_from_%s" % op

    def make(ex):
        fn = N.find([mod], KN + nm + r"\(slinky::expr const&, slinky::expr const&\)")
        env = Learn(ex, mod)
        env.contracts()
        nd = env.nd

        def setup(st):
            (a, pa), (b, pb) = env.cell(st, "a"), env.cell(st, "b")
            for e in (a, b):
                env.finite(st, e)
            st.assume({"less": V(a) < V(b), "less_equal": V(a) <= V(b), "equal": V(a) == V(b)}[op])
            # a remainder of a finite value by something that is not zero
            x, y = (fld(nd.L["mod." + n])(a) for n in "ab")
            q, m = N.ediv(st, V(x), V(y))
            st.assume(z3.Implies(T(a) == N.ty("mod"), z3.And(K(x) == 0, K(y) == 0, V(y) != 0, X.inr(V(x)))))
            st.ghost["quotients"] = (q,)
            return [env.knowledge(st), pa, pb]
        return fn, setup, lambda st, ret: None
    s = S.Spec("knowledge::%s(a, b)" % nm, [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


def merge_spec(mod):
    def make(ex):
        fn = N.find([mod], SI + r"expr_info::merge\(slinky::interval_expr, %s\)" % MR)
        env = Learn(ex, mod)
        env.contracts(("merge",))
        nd, L = env.nd, env.lay
        loc = {}

        def setup(st):
            z = z3.Int("x")
            st.assume(X.inr(z))
            st.ghost["either"] = (z,)
            reg = X.Region("this", L.info_size)
            st.mem[reg] = {(o, n): x for o, n, x in env.truthful_info(st, z, "old")}
            lo, hi = nd.value(st, "new_min", False), nd.value(st, "new_max", False)
            m, r = z3.Ints("modulus remainder")
            st.assume(z3.And(X.inr(m), X.inr(r), m > -2 ** 63, z3.Implies(m != 0, r > -2 ** 63)))
            st.assume(z3.And(above(lo, z), below(hi, z), member(st, z, m, r)))
            loc.update(z=z, p=X.Ptr(reg))
            return [loc["p"], X.NodePtr(lo), X.NodePtr(hi), m, r]

        def fin(st, ret):
            lo, hi, m, r, known = env.info(st, loc["p"])
            z = loc["z"]
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            ob(above(lo, z), "the lower bound holds")
            ob(below(hi, z), "the upper bound holds")
            ob(member_goal(z, m, r), "the alignment holds")
            ob(z3.Implies(known != 0, z3.And(K(known) == 0, V(known) == z)), "a known value is the value")
        return fn, setup, fin
    s = S.Spec("simplifier::expr_info::merge", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


def add_var_spec(mod):
    """add_var_info of a variable that is not a field of a buffer."""
    def make(ex):
        fn = N.find([mod], KN + r"add_var_info\(slinky::variable const\*, slinky::interval_expr, %s\)" % MR)
        env = Learn(ex, mod)
        env.contracts(("add",))
        nd, L = env.nd, env.lay
        loc = {}

        def lookup(ex, st, v, i):
            out = v[0]
            s = of_var(v[-1])
            for o, n, x in env.truthful_info(st, N.VAR(s, nd.L["field.none"], I(-1)), "vi"):
                ex.put(st, out.region, X.conc(out.off) + o, n, x)
            b = ex.freshb("found")
            ex.put(st, out.region, X.conc(out.off) + L.info_size, 1, X.b2i(b))
        ex.contract(INFO + r"lookup\(slinky::var\) const", lookup)

        def setv(ex, st, v, i):
            s = of_var(v[2])
            x = N.VAR(s, nd.L["field.none"], I(-1))
            lo, hi, m, r, known = env.info(st, v[3])
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            ob(above(lo, x), "the lower bound holds")
            ob(below(hi, x), "the upper bound holds")
            ob(member_goal(x, m, r), "the alignment holds")
            ob(z3.Implies(known != 0, z3.And(K(known) == 0, V(known) == x)), "a known value is the value")
            st.ghost["set"] = s
        ex.contract(r"slinky::scoped_value_in_symbol_map<%sexpr_info> slinky::set_value_in_scope<%sexpr_info>\(.*\)" % (SI, SI), setv)
        SV = r"slinky::scoped_value_in_symbol_map<%sexpr_info>" % SI
        ex.contract(r"std::vector<%s, .*>::push_back\(%s&&\)" % (SV, SV), lambda ex, st, v, i: None)
        ex.contract(SV + r"::~scoped_value_in_symbol_map\(\)", lambda ex, st, v, i: None)

        def setup(st):
            op = z3.Int("op")
            st.assume(z3.And(op > 0, T(op) == N.ty("variable"), K(op) == 0, X.inr(V(op))))
            nd.kinds_if(st, op)
            nd.structure(st, op)
            f, d = fld(nd.L["variable.field"])(op), fld(nd.L["variable.dim"])(op)
            st.assume(z3.And(f == nd.L["field.none"], d == -1))
            st.ghost["either"] = (V(op),)
            z = V(op)
            lo, hi = nd.value(st, "min", False), nd.value(st, "max", False)
            m, r = z3.Ints("modulus remainder")
            st.assume(z3.And(X.inr(m), X.inr(r), m > -2 ** 63, z3.Implies(m != 0, r > -2 ** 63)))
            st.assume(z3.And(above(lo, z), below(hi, z), member(st, z, m, r)))
            loc["op"] = op
            p = env.knowledge(st)
            l, _ = offsets(mod, "class.slinky::(anonymous namespace)::simplifier::knowledge")
            maps = [o for o, t in l if t == ("ptr",)]
            for k, o in enumerate(maps):
                reg = X.Region("map%d" % k, 8)
                st.mem[reg] = {}
                st.wcells(p.region)[(o, 8)] = X.Ptr(reg)
            return [p, X.NodePtr(op), X.NodePtr(lo), X.NodePtr(hi), m, r]

        def fin(st, ret):
            ex.oblige(st, z3.BoolVal("set" in st.ghost) if "set" not in st.ghost else st.ghost["set"] == fld(nd.L["variable.sym"])(loc["op"]),
                      "what is learned is recorded for the variable", assume=False)
        return fn, setup, fin
    s = S.Spec("knowledge::add_var_info of a scalar", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


def mutate_spec(mod):
    def make(ex):
        fn = N.find([mod], SI + r"mutate\(slinky::expr const&, %sexpr_info\*\)" % SI)
        env = Env(ex, mod)
        nd, L = env.nd, env.lay
        loc = {}

        def inner(ex, st, v, i):
            x = env.ptr(st, v[1])
            r = ex.fresh("m")
            st.assume(z3.And(r >= 0, (r == 0) == (x == 0)))
            nd.kinds_if(st, r)
            st.assume(z3.Implies(z3.And(x != 0, K(x) == 0), eq2(kv(x), kv(r))))
            lo, hi, m, q = env.fresh_info(st, x, z3.BoolVal(True))
            st.assume(z3.Implies(x == 0, z3.And(m == 1, q == 0)))
            lo, hi = (z3.If(x == 0, I(0), e) for e in (lo, hi))
            env.put_info(st, ex.addoff(v[0], L.info), lo, hi, m, q)
            st.ghost["info"] = (r, lo, hi, m, q)
            return X.NodePtr(r)
        ex.contract(r"slinky::node_mutator::mutate\(slinky::expr const&\)", inner)

        def setup(st):
            e, p = nd.value(st, "e", False), X.Region("e", 8)
            st.mem[p] = {(0, 8): X.NodePtr(e)}
            this = env.object(st)
            out = X.Region("info", L.info_size)
            st.mem[out] = {}
            env.put_info(st, X.Ptr(out), I(0), I(0), I(1), I(0))
            which = z3.Int("which")
            loc.update(e=e, this=this, out=out)
            return [X.Ptr(this), X.Ptr(p), loc["arg"](out, this)]
        return fn, setup, loc, env

    def variant(how):
        def mk(ex):
            fn, setup, loc, env = make(ex)
            L = env.lay
            loc["arg"] = lambda out, this: {"null": X.NULL, "other": X.Ptr(out), "own": X.Ptr(this, L.info)}[how]

            def fin(st, ret):
                r, lo, hi, m, q = st.ghost["info"]
                ob = lambda c, n: ex.oblige(st, c, n, assume=False)
                ob(hid(ret) == r, "the result is that of the visitor")
                own = env.info(st, X.Ptr(loc["this"], L.info))
                if how != "own":
                    ob(z3.And(own[0] == 0, own[1] == 0), "no bounds are pending")
                if how != "null":
                    got = env.info(st, X.Ptr(loc["out"])) if how == "other" else own
                    ob(z3.Implies(loc["e"] != 0, z3.And(*[a == b for a, b in zip(got[:4], (lo, hi, m, q))])), "the bounds and the alignment are passed on")
            return fn, setup, fin
        s = S.Spec("simplifier::mutate(e, %s)" % {"null": "nullptr", "other": "info", "own": "&result_info"}[how], [mod], mk, prover=N.prover, timeout=4.0)
        s.kinds = ("simplify",)
        return s
    return [variant(h) for h in ("null", "other", "own")]


def known_spec(mod):
    """knowledge::substitute: an expression keeps its value where what was learned is true."""
    def make(ex):
        fn = N.find([mod], KN + r"substitute\(slinky::expr\) const")
        env = Env(ex, mod)
        nd = env.nd
        loc = {}
        F1, F2 = z3.Function("fact", Z, Z), z3.Function("fact_value", Z, Z)

        def subst(ex, st, v, i):
            x, a, b = (env.ptr(st, q) if isinstance(q, X.Ptr) else hid(q) for q in v)
            r = ex.fresh("substituted")
            st.assume(z3.And(r >= 0, (r == 0) == (x == 0)))
            nd.kinds_if(st, r)
            st.assume(z3.Implies(z3.And(x != 0, a != 0, b != 0, eq2(kv(a), kv(b))), eq2(kv(x), kv(r))))
            return X.NodePtr(r)
        ex.contract(r"slinky::substitute\(slinky::expr const&, slinky::expr const&, slinky::expr const&\)", subst)

        def access(ex, st, i, f, size):
            i = zi(i)
            if not ex.dry:
                ex.oblige(st, z3.And(i >= 0, i < loc["n"]), "facts are accessed within bounds")
            st.assume(z3.And(F1(i) > 0, F2(i) > 0, eq2(kv(F1(i)), kv(F2(i)))))

        def havoc(ex, s, reg, k, old):
            if isinstance(old, X.NodePtr):
                v = ex.fresh("handle")
                s.assume(v >= 0)
                nd.kinds_if(s, v)
                s.wcells(reg)[k] = X.NodePtr(v)
                return True
            return False
        ex.havoc_cell = havoc

        def cand(ex, st, fn, head, entry):
            l = []
            for k, x in entry.items():
                if k.startswith("*") and isinstance(x, X.NodePtr):
                    f = lambda ex, s, v, k=k: z3.And((hid(v[k]) == 0) == (loc["x"] == 0), z3.Implies(loc["x"] != 0, eq2(kv(loc["x"]), kv(hid(v[k])))))
                    l.append(("%s has the value of x" % k, f))
                elif isinstance(x, X.Ptr) and x.region.kind == "array":
                    idx = lambda v, k=k: ex.array_index(None, v[k].region, v[k].off)[0]
                    l.append(("%s is not before the first fact" % k, lambda ex, s, v, idx=idx: idx(v) >= 0))
                    l.append(("%s is not past the facts" % k, lambda ex, s, v, idx=idx: idx(v) <= loc["n"]))
                elif isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool):
                    l.append(("%s is an index" % k, lambda ex, s, v, k=k: z3.And(zi(v[k]) >= 0, zi(v[k]) <= loc["n"])))
            return l
        ex.loop_candidates[r".*"] = cand

        def setup(st):
            x, n = nd.value(st, "x", False), z3.Int("n")
            st.assume(z3.And(n >= 0, n < 2 ** 40))
            l, size = offsets(mod, "class.slinky::(anonymous namespace)::simplifier::knowledge")
            vec = next(o for o, t in l if t[0] == "named" and "pair" in t[1] or t[0] == "named" and t[1].strip('%"').startswith("class.std::vector") and o == max(
                q for q, w in l if w[0] == "named"))
            reg, arr = X.Region("this", size), X.Region("facts", None, "array", 16)
            arr.on_access = access
            q = z3.Int("k!")
            st.mem[arr] = {(0, 8): z3.Lambda([q], F1(q)), (8, 8): z3.Lambda([q], F2(q))}
            st.mem[reg] = {(vec, 8): X.Ptr(arr, 0), (vec + 8, 8): X.Ptr(arr, 16 * n), (vec + 16, 8): X.Ptr(arr, 16 * n)}
            loc.update(x=x, n=n)
            return [X.Ptr(reg), X.NodePtr(x)]

        def fin(st, ret):
            x, r = loc["x"], hid(ret)
            ex.oblige(st, z3.And((r == 0) == (x == 0), z3.Implies(x != 0, eq2(kv(x), kv(r)))), "the result has the value of the expression", assume=False)
        return fn, setup, fin
    s = S.Spec("knowledge::substitute", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


# --- simplify_exprs.cc: one operation --------------------------------------------------------------------------------------
OPERANDS = {"logical_not": 1, "select": 3}


def value_of(st, ex, op, ids):
    """The (kind, value) of an operation."""
    z = (ex.fresh("k"), ex.fresh("z"))
    a = [kv(x) for x in ids]
    if op == "logical_not":
        st.assume(N.not_axiom(z, *a))
    elif op == "select":
        st.assume(N.select_axiom(z, *a))
    else:
        st.assume(N.op_axiom(st, op, z, *a))
    return z


def simplify_op_spec(mod, es, op, node):
    """simplify(op, operands), for the rules applied to them (proved rule by rule)."""
    n = OPERANDS.get(op, 2)

    def make(ex):
        fn = N.find([mod], r"slinky::simplify\(slinky::%s const\*%s\)" % (op, ", slinky::expr" * n))
        nd = N.Nodes(ex)
        N.simplify_contracts(ex, nd)
        N.predicate_contracts(ex, nd)
        ex.contract(r"__assert_fail", lambda ex, st, v, i: X.DEAD)
        loc = {}

        def rules(name):
            k = OPERANDS.get(name, 2)

            def f(ex, st, v, i):
                reg, off = v[0].region, X.conc(v[0].off)
                ids = [hid(ex.load(st, mod, ("ptr",), X.Ptr(reg, off + 8 * j))) for j in range(k)]
                ex.oblige(st, z3.And(*[x != 0 for x in ids]), "operands of rules are defined")
                z = value_of(st, ex, name, ids)
                b, r = ex.freshb("applied"), N.fresh_value(nd, st, "rewritten")
                st.assume(z3.Implies(b, eq2(z, kv(r))))
                ex.store(st, mod, ("ptr",), X.NodePtr(z3.If(b, r, I(0))), X.Ptr(reg, off + 8 * k))
                return b
            ex.contract(r"bool slinky::apply_%s_rules<.*>\(.*\)" % name, f)
        for t in N.BIN + ["logical_not", "select"]:
            rules(t)
        ex.contract(r"slinky::should_commute\(.*\)", lambda ex, st, v, i: ex.freshb("commute"))

        def boolean(ex, st, v, i):
            x = hid(ex.load(st, mod, ("ptr",), v[0]))
            r = N.fresh_value(nd, st, "boolean")
            st.assume(CE.boolean_claim(x, r))
            return X.NodePtr(r)
        ex.contract(r"slinky::boolean\(slinky::expr const&\)", boolean)
        A.divmod_contract(ex, 64, False)
        A.divmod_contract(ex, 64, True)

        def setup(st):
            ids = [nd.value(st, v) for v in ("a", "b", "c")[:n]]
            for x in ids:
                # conditions are finite
                if op in ("logical_and", "logical_or", "logical_not") or op == "select" and x is ids[0]:
                    st.assume(z3.Or(K(x) == 0, K(x) == 2))
            o = I(0)
            if node:
                o = z3.Int("op")
                st.assume(z3.And(o > 0, T(o) == N.ty(op)))
                nd.kinds(st, o)
                nd.structure(st, o)
            loc["ids"] = ids
            return [X.NodePtr(o)] + [X.NodePtr(x) for x in ids]

        def fin(st, ret):
            r = hid(ret)
            z = value_of(st, ex, op, loc["ids"])
            ex.oblige(st, r != 0, "there is a result", assume=False)
            ex.oblige(st, eq2(z, kv(r)), "the result has the value of the operation", assume=False)
        return fn, setup, fin
    s = S.Spec("simplify(const %s*, operands)%s" % (op, "" if node else " without a node"), [mod, es], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify",)
    return s


def intersection_spec(mod):
    """simplify_intersection: a value that is in both intervals is in the result."""
    def make(ex):
        fn = N.find([mod], r"slinky::simplify_intersection\(slinky::interval_expr, slinky::interval_expr\)")
        nd = N.Nodes(ex)
        N.simplify_contracts(ex, nd)

        def match(ex, st, v, i):
            a, b = (hid(q) if isinstance(q, X.NodePtr) else hid(ex.load(st, mod, ("ptr",), q)) for q in v)
            r = ex.freshb("same")
            st.assume(z3.Implies(z3.And(r, a != 0, b != 0), z3.And(K(a) == K(b), V(a) == V(b))))
            st.assume(z3.Implies(r, (a == 0) == (b == 0)))
            return r
        ex.contract(r"slinky::match\(slinky::expr_ref, slinky::expr_ref\)", match)
        ex.contract(r"slinky::match\(slinky::expr const&, slinky::expr const&\)", match)
        loc = {}

        def setup(st):
            e = [nd.value(st, v, False) for v in ("a_min", "a_max", "b_min", "b_max")]
            x = z3.Int("x")
            for q in e:
                st.assume(z3.Implies(q != 0, K(q) != 2))
            st.assume(z3.And(above(e[0], x), below(e[1], x), above(e[2], x), below(e[3], x)))
            loc.update(x=x)
            return [X.NodePtr(q) for q in e]

        def fin(st, ret):
            lo, hi = (hid(q) for q in ret.v)
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            ob(above(lo, loc["x"]), "the lower bound holds")
            ob(below(hi, loc["x"]), "the upper bound holds")
            ob(z3.And(*[z3.Or(q == 0, K(q) != 2) for q in (lo, hi)]), "the bounds are determinate")
        return fn, setup, fin
    s = S.Spec("simplify_intersection(a, b)", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("interval",)
    return s


def exprs_specs(mod, es):
    return [simplify_op_spec(mod, es, op, n) for op in N.BIN + ["logical_not", "select"] for n in (False, True)] + [intersection_spec(mod)]


def specs(mod, probe):
    out = [adder_spec(mod, t) for t in ADDER] + [add_constant_spec(mod)]
    out += [learn_spec(mod, True), learn_spec(mod, False)] + [learn_rel_spec(mod, o) for o in ("less", "less_equal", "equal")]
    out += [merge_spec(mod), add_var_spec(mod), known_spec(mod)] + mutate_spec(mod)
    out += [substitute_spec(probe, op) for op in SUBST]
    out += [proof_spec(mod, True), proof_spec(mod, False), attempt_spec(mod), trim_spec(mod)]
    out += [visit_spec(mod, t) for t in N.BIN + ["constant", "logical_not", "select"]]
    out += [visit_spec(mod, "variable", f) for f in FIELDS]
    return out


def repo_specs(kind):
    """Of the build whose learn_from_less does not decompose min and max (a known finding)."""
    flags = ("-DSLINKY_VERIF_NO_LEARN_FROM_MIN_MAX",)
    probe = os.path.join(build.VERIF, "probes", "subst.cc")
    one = ["slinky/builder/simplify_exprs.cc", "slinky/runtime/expr_stmt.cc"]
    B.many([(os.path.join(build.REPO, "slinky/builder/simplify.cc"), flags), (probe, ())] + [(os.path.join(build.REPO, s), ()) for s in one])
    out = specs(B.repo("slinky/builder/simplify.cc", flags), B.load(probe)) + exprs_specs(*map(B.repo, one))
    for s in out:
        s.kinds = (kind,)
    return out
