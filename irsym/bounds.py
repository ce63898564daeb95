"""Contracts of the per-operator bounds (builder/simplify_bounds.cc) and of the interval operators (runtime/expr_stmt.cc): C02."""
import re
import z3
from . import ex as X, spec as S, nodes as N
from .nodes import I, zi, K, V, T, kv, hid, above, below, fld

IV = r"slinky::interval_expr"


def within(st, ex, iv, x, k=None):
    a, b = iv
    st.assume(z3.And(K(a) != 2, K(b) != 2))
    st.assume(z3.And(above(a, x), below(b, x)))


def staircase_contracts(ex, nodes):
    """match(staircase(x, c0, c1, c2), e) of rewrite.h and staircase_sum_bounds (C06)."""
    def match_st(ex, st, v, i):
        e = hid(ex.load(st, ex.modules[0], ("ptr",), v[1]))
        b = ex.freshb("matched")
        x, c0, c1, c2 = (ex.fresh(n) for n in ("mx", "mc0", "mc1", "mc2"))
        st.ghost[("match", v[0].region)] = (x, c0, c1, c2)
        st.assume(z3.And(x > 0, X.inr(c0), X.inr(c1), X.inr(c2)))
        nodes.kinds(st, x)
        st.assume(z3.Implies(z3.And(b, e != 0), staircase_claim(st, e, x, c0, c1, c2)))
        return b
    ex.contract(r"bool slinky::rewrite::match<slinky::rewrite::pattern_staircase<.*>, slinky::expr>\(.*\)", match_st)

    def matched_x(ex, st, v, i):
        return X.NodePtr(st.ghost[("match", v[0].region)][0])
    ex.contract(r"slinky::expr_ref slinky::rewrite::match_context::matched<0>\(slinky::rewrite::pattern_wildcard<0> const&\) const", matched_x)
    for k in range(3):
        ex.contract(r"long slinky::rewrite::match_context::matched<%d>\(slinky::rewrite::pattern_constant<%d> const&\) const" % (k, k),
                    lambda ex, st, v, i, k=k: st.ghost[("match", v[0].region)][1 + k])

    def match_expr(ex, st, v, i):
        a, b = hid(v[0]), hid(v[1])
        r = ex.freshb("same")
        st.assume(z3.Implies(r, z3.And(K(a) == K(b), V(a) == V(b))))
        return r
    ex.contract(r"slinky::match\(slinky::expr_ref, slinky::expr_ref\)", match_expr)

    def ssb(ex, st, v, i):
        a = [X.zi(x) for x in v]
        lo, hi, hl, hh = ex.fresh("sb_min"), ex.fresh("sb_max"), ex.freshb("has"), ex.freshb("has")
        st.assume(z3.And(X.inr(lo, 32), X.inr(hi, 32)))
        for k, g in list(st.ghost.items()):
            if isinstance(k, tuple) and k[0] == "match":
                t = [stairs(st, V(g[0]), *a[j:j + 3]) for j in (0, 3)]
                st.assume(z3.And(z3.Implies(hl, lo <= t[0] + t[1]), z3.Implies(hh, t[0] + t[1] <= hi)))
        return X.Agg([X.Pack([(0, 4, lo), (4, 1, X.b2i(hl))]), X.Pack([(0, 4, hi), (4, 1, X.b2i(hh))])])
    ex.contract(r"slinky::staircase_sum_bounds\(.*\)", ssb)


def stairs(st, x, c0, c1, c2):
    """((x + c0)/c1)*c2"""
    q, _ = N.ediv(st, x + c0, c1)
    return z3.If(c1 == 0, I(0), q) * c2


def staircase_claim(st, e, x, c0, c1, c2):
    """What matching staircase(x, c0, c1, c2) says about e (V of an infinite x is an arbitrary integer: it does not matter then)."""
    return z3.Implies(K(e) == 0, V(e) == stairs(st, V(x), c0, c1, c2))


def prods(st, xs, ys):
    """Sign lemma instances for the products of differences."""
    l = list(st.ghost.get("lemmas", ()))
    for u in xs:
        for v in ys:
            l.append(N.prod_lemma(u, v))
    st.ghost["lemmas"] = tuple(l)


def op_spec(mods, op, kind):
    """bounds_of(op, a, b). kind: 'null' (no node), 'node' (an op whose operands are in a and b)."""
    def make(ex):
        fn = N.find(mods, r"slinky::bounds_of\(slinky::%s const\*, %s, %s\)" % (op, IV, IV))
        nd = N.Nodes(ex)
        N.simplify_contracts(ex, nd)
        N.predicate_contracts(ex, nd)
        staircase_contracts(ex, nd)
        loc = {}

        def setup(st):
            e = [nd.value(st, n) for n in ("a_min", "a_max", "b_min", "b_max")]
            x, y = z3.Int("x"), z3.Int("y")
            within(st, ex, e[:2], x)
            within(st, ex, e[2:], y)
            if op in ("logical_and", "logical_or"):
                # booleans, or a condition that is not one, as a point
                for (a, b), w in ((e[:2], x), (e[2:], y)):
                    st.assume(z3.Or(z3.And(boolean(a), boolean(b), z3.Or(w == 0, w == 1)),
                                    z3.And(K(a) == 0, K(b) == 0, V(a) == w, V(b) == w)))
            id = I(0)
            if kind == "node":
                id = z3.Int("op")
                st.assume(z3.And(id > 0, T(id) == N.ty(op), K(id) == 0))
                nd.structure(st, id)
                fa, fb = (fld(nd.L["%s.%s" % (op, n)])(id) for n in "ab")
                st.assume(z3.And(K(fa) == 0, V(fa) == x, K(fb) == 0, V(fb) == y))
            loc.update(x=x, y=y, e=e)
            if op == "mul":
                am, aM, bm, bM = map(V, e)
                prods(st, [x - am, aM - x, x, am, aM], [y - bm, bM - y, y, bm, bM])
            return [X.NodePtr(id)] + [X.NodePtr(q) for q in e]

        def fin(st, ret):
            x, y = loc["x"], loc["y"]
            z = ex.fresh("z")
            st.assume(N.op_axiom(st, op, (I(0), z), (I(0), x), (I(0), y)))
            lo, hi = (hid(q) for q in ret.v)
            ex.oblige(st, above(lo, z), "the lower bound holds", assume=False)
            ex.oblige(st, below(hi, z), "the upper bound holds", assume=False)
            ex.oblige(st, z3.And(lo != 0, hi != 0), "the bounds are defined", assume=False)
            if op in N.BOOLEANS:
                ex.oblige(st, z3.Or(K(lo) == 2, K(hi) == 2, z3.And(boolean(lo), boolean(hi))), "the bounds of a boolean are booleans", assume=False)
        return fn, setup, fin
    s = S.Spec("bounds_of(const %s*, a, b)%s" % (op, "" if kind == "node" else " without a node"), mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("boundsof",)
    return s


def boolean(e):
    return z3.And(e != 0, K(e) == 0, z3.Or(V(e) == 0, V(e) == 1))


def not_spec(mods):
    def make(ex):
        fn = N.find(mods, r"slinky::bounds_of\(slinky::logical_not const\*, %s\)" % IV)
        nd = N.Nodes(ex)
        N.simplify_contracts(ex, nd)
        N.predicate_contracts(ex, nd)
        loc = {}

        def setup(st):
            e = [nd.value(st, n) for n in ("a_min", "a_max")]
            x = z3.Int("x")
            within(st, ex, e, x)
            for q in e:
                st.assume(z3.And(K(q) == 0, z3.Or(V(q) == 0, V(q) == 1)))
            st.assume(z3.Or(x == 0, x == 1))
            id = nd.value(st, "op", False)
            st.assume(z3.Implies(id != 0, z3.And(T(id) == N.ty("logical_not"), K(id) == 0, V(id) == N.b2i(x == 0))))
            loc.update(x=x)
            # "a is the point op" only holds when the operand is op itself
            return [X.NodePtr(id)] + [X.NodePtr(q) for q in e]

        def fin(st, ret):
            z = N.b2i(loc["x"] == 0)
            lo, hi = (hid(q) for q in ret.v)
            # a.is_point(op) is how the caller passes bounds of the node itself
            self_ = z3.And(z3.Int("a_min") == z3.Int("op"), z3.Int("a_max") == z3.Int("op"))
            ex.oblige(st, z3.Or(self_, above(lo, z)), "the lower bound holds", assume=False)
            ex.oblige(st, z3.Or(self_, below(hi, z)), "the upper bound holds", assume=False)
            ex.oblige(st, z3.Or(self_, z3.And(boolean(lo), boolean(hi))), "the bounds of a boolean are booleans", assume=False)
        return fn, setup, fin
    s = S.Spec("bounds_of(const logical_not*, a)", mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("boundsof",)
    return s


def select_iv_contract(ex, nd):
    """select(c, interval, interval): the chosen interval (select_iv_spec)."""
    def f(ex, st, v, i):
        m = ex.modules[0]
        c = hid(ex.load(st, m, ("ptr",), v[0]))
        t = [hid(v[1]), hid(v[2])]
        f = [hid(q) for q in v[3:5]] if len(v) == 5 else [hid(ex.load(st, m, ("ptr",), ex.addoff(v[3], o))) for o in (0, 8)]
        ex.oblige(st, z3.And(c != 0, *[q != 0 for q in t + f]), "the operands of select are defined")
        out = []
        for k in (0, 1):
            r = N.fresh_value(nd, st, "sel")
            st.assume(N.select_axiom(kv(r), kv(c), kv(t[k]), kv(f[k])))
            out.append(X.NodePtr(r))
        return X.Agg(out)
    ex.contract(r"slinky::select\(slinky::expr const&, slinky::interval_expr, slinky::interval_expr\)", f)


def select_spec(mods):
    def make(ex):
        fn = N.find(mods, r"slinky::bounds_of\(slinky::select const\*, %s, %s, %s\)" % (IV, IV, IV))
        nd = N.Nodes(ex)
        select_iv_contract(ex, nd)
        N.simplify_contracts(ex, nd)
        N.predicate_contracts(ex, nd)
        loc = {}

        def setup(st):
            e = [nd.value(st, n) for n in ("c_min", "c_max", "t_min", "t_max", "f_min", "f_max")]
            c, t, f = z3.Ints("c t f")
            within(st, ex, e[:2], c)
            st.assume(z3.Implies(c != 0, z3.And(above(e[2], t), below(e[3], t))))
            st.assume(z3.Implies(c == 0, z3.And(above(e[4], f), below(e[5], f))))
            for q in e[:2]:
                st.assume(z3.And(K(q) == 0, z3.Or(V(q) == 0, V(q) == 1)))
            st.assume(z3.Or(c == 0, c == 1))
            id = nd.value(st, "op", False)
            st.assume(z3.Implies(id != 0, z3.And(T(id) == N.ty("select"), K(id) == 0, V(id) == z3.If(c != 0, t, f))))
            loc.update(z=z3.If(c != 0, t, f))
            reg = X.Region("f", 16)
            st.mem[reg] = {(0, 8): X.NodePtr(e[4]), (8, 8): X.NodePtr(e[5])}
            args = [X.NodePtr(id)] + [X.NodePtr(q) for q in e[:4]]
            n = len(fn.params)
            return args + ([X.Ptr(reg)] if n == 6 else [X.NodePtr(q) for q in e[4:]])

        def fin(st, ret):
            z = loc["z"]
            lo, hi = (hid(q) for q in ret.v)
            ex.oblige(st, above(lo, z), "the lower bound holds", assume=False)
            ex.oblige(st, below(hi, z), "the upper bound holds", assume=False)
            ex.oblige(st, z3.And(lo != 0, hi != 0), "the bounds are defined", assume=False)
        return fn, setup, fin
    s = S.Spec("bounds_of(const select*, c, t, f)", mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("boundsof",)
    return s


def call_spec(mods, n):
    def make(ex):
        fn = N.find(mods, r"slinky::bounds_of\(slinky::call const\*, std::vector<.*>\)")
        nd = N.Nodes(ex)
        N.simplify_contracts(ex, nd)
        N.predicate_contracts(ex, nd)
        loc = {}

        def setup(st):
            id = nd.value(st, "op")
            st.assume(z3.And(T(id) == N.ty("call"), NARG_(id) == n, K(id) == 0))
            nd.structure(st, id)
            vec, buf = X.Region("args", 24), X.Region("args elements", 16 * n if n else 8)
            cells = {}
            for k in range(n):
                a = N.ARG(id, I(k))
                lo, hi = nd.value(st, "lo%d" % k), nd.value(st, "hi%d" % k)
                st.assume(z3.And(K(a) == 0, K(lo) != 2, K(hi) != 2, above(lo, V(a)), below(hi, V(a))))
                cells[(16 * k, 8)], cells[(16 * k + 8, 8)] = X.NodePtr(lo), X.NodePtr(hi)
            st.mem[buf] = cells
            st.mem[vec] = {(0, 8): X.Ptr(buf, 0), (8, 8): X.Ptr(buf, 16 * n), (16, 8): X.Ptr(buf, 16 * n)}
            loc["z"] = V(id)
            return [X.NodePtr(id), X.Ptr(vec)]

        def fin(st, ret):
            lo, hi = (hid(q) for q in ret.v)
            ex.oblige(st, above(lo, loc["z"]), "the lower bound holds", assume=False)
            ex.oblige(st, below(hi, loc["z"]), "the upper bound holds", assume=False)
            ex.oblige(st, z3.And(lo != 0, hi != 0), "the bounds are defined", assume=False)
        return fn, setup, fin
    s = S.Spec("bounds_of(const call*, args) with %d argument%s" % (n, "" if n == 1 else "s"), mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("boundsof",)
    return s


NARG_ = N.NARG


# --- interval operators of expr_stmt.cc ------------------------------------------------------------------------------
def interval_spec(mods, sym, inplace):
    """this op scale. sym: one of * / + -"""
    op = {"*": "mul", "/": "div", "+": "add", "-": "sub"}[sym]
    pat = r"slinky::interval_expr::operator%s\(slinky::expr const&\)" % re.escape(sym + "=") if inplace else \
        r"slinky::interval_expr::operator%s\(slinky::expr const&\) const" % re.escape(sym)

    def make(ex):
        fn = N.find(mods, pat)
        nd = N.Nodes(ex)
        N.simplify_contracts(ex, nd)
        N.predicate_contracts(ex, nd)
        loc = {}

        def setup(st):
            lo, hi = nd.value(st, "min", False), nd.value(st, "max", False)
            c = nd.value(st, "scale")
            x = z3.Int("x")
            within(st, ex, (lo, hi), x)
            st.assume(K(c) == 0)
            for e in (lo, hi):
                st.assume(K(e) != 2)
            reg, rc = X.Region("this", 16), X.Region("scale", 8)
            st.mem[reg] = {(0, 8): X.NodePtr(lo), (8, 8): X.NodePtr(hi)}
            st.mem[rc] = {(0, 8): X.NodePtr(c)}
            loc.update(x=x, c=c, reg=reg)
            if op == "mul":
                prods(st, [x - V(lo), V(hi) - x], [V(c)])
            return [X.Ptr(reg), X.Ptr(rc)]

        def fin(st, ret):
            z = ex.fresh("z")
            st.assume(N.op_axiom(st, op, (I(0), z), (I(0), loc["x"]), (I(0), V(loc["c"]))))
            if inplace:
                m = fn.mod
                lo, hi = (hid(ex.load(st, m, ("ptr",), X.Ptr(loc["reg"], o))) for o in (0, 8))
            else:
                lo, hi = (hid(q) for q in ret.v)
            ex.oblige(st, above(lo, z), "the lower bound holds", assume=False)
            ex.oblige(st, below(hi, z), "the upper bound holds", assume=False)
        return fn, setup, fin
    s = S.Spec("interval_expr operator%s%s" % (sym, "=" if inplace else ""), mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("interval",)
    return s


def setop_spec(mods, sym, inplace):
    pat = r"slinky::interval_expr::operator%s\(slinky::interval_expr\)%s" % (re.escape(sym + ("=" if inplace else "")), "" if inplace else " const")

    def make(ex):
        fn = N.find(mods, pat)
        nd = N.Nodes(ex)
        loc = {}

        def setup(st):
            e = [nd.value(st, n, False) for n in ("min", "max", "r_min", "r_max")]
            x = z3.Int("x")
            ina = z3.And(above(e[0], x), below(e[1], x))
            inb = z3.And(above(e[2], x), below(e[3], x))
            st.assume(z3.Or(ina, inb) if sym == "|" else z3.And(ina, inb))
            for q in e:
                st.assume(K(q) != 2)
            reg = X.Region("this", 16)
            st.mem[reg] = {(0, 8): X.NodePtr(e[0]), (8, 8): X.NodePtr(e[1])}
            loc.update(x=x, reg=reg, e=e)
            return [X.Ptr(reg), X.NodePtr(e[2]), X.NodePtr(e[3])]

        def fin(st, ret):
            x = loc["x"]
            if inplace:
                lo, hi = (hid(ex.load(st, fn.mod, ("ptr",), X.Ptr(loc["reg"], o))) for o in (0, 8))
            else:
                lo, hi = (hid(q) for q in ret.v)
            ex.oblige(st, above(lo, x), "the lower bound holds", assume=False)
            ex.oblige(st, below(hi, x), "the upper bound holds", assume=False)
            if sym == "&":
                # and nothing outside of either operand is in the intersection
                e = loc["e"]
                y = z3.Int("y")
                inr = z3.And(above(lo, y), below(hi, y))
                ex.oblige(st, z3.Implies(inr, z3.And(above(e[0], y), below(e[1], y), above(e[2], y), below(e[3], y))),
                          "the intersection contains nothing else", assume=False)
        return fn, setup, fin
    s = S.Spec("interval_expr operator%s%s" % (sym, "=" if inplace else ""), mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("interval",)
    return s


def neg_spec(mods):
    def make(ex):
        fn = N.find(mods, r"slinky::interval_expr::operator-\(\) const")
        nd = N.Nodes(ex)
        loc = {}

        def setup(st):
            e = [nd.value(st, n, False) for n in ("min", "max")]
            x = z3.Int("x")
            within(st, ex, e, x)
            for q in e:
                st.assume(K(q) != 2)
            reg = X.Region("this", 16)
            st.mem[reg] = {(0, 8): X.NodePtr(e[0]), (8, 8): X.NodePtr(e[1])}
            loc.update(x=x)
            return [X.Ptr(reg)]

        def fin(st, ret):
            lo, hi = (hid(q) for q in ret.v)
            ex.oblige(st, above(lo, -loc["x"]), "the lower bound holds", assume=False)
            ex.oblige(st, below(hi, -loc["x"]), "the upper bound holds", assume=False)
        return fn, setup, fin
    s = S.Spec("interval_expr operator-()", mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("interval",)
    return s


def contains_spec(mods):
    def make(ex):
        fn = N.find(mods, r"slinky::interval_expr::contains\(slinky::expr_ref\) const")
        nd = N.Nodes(ex)
        loc = {}

        def setup(st):
            e = [nd.value(st, n, False) for n in ("min", "max")]
            x = nd.value(st, "x")
            st.assume(K(x) == 0)
            for q in e:
                st.assume(K(q) != 2)
            reg = X.Region("this", 16)
            st.mem[reg] = {(0, 8): X.NodePtr(e[0]), (8, 8): X.NodePtr(e[1])}
            loc.update(x=x, e=e)
            return [X.Ptr(reg), X.NodePtr(x)]

        def fin(st, ret):
            r = hid(ret)
            e, x = loc["e"], V(loc["x"])
            ex.oblige(st, z3.And(r != 0, K(r) == 0, (V(r) != 0) == z3.And(above(e[0], x), below(e[1], x))), "is true exactly for the members", assume=False)
        return fn, setup, fin
    s = S.Spec("interval_expr::contains", mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("interval",)
    return s


def select_iv_spec(mods):
    def make(ex):
        fn = N.find(mods, r"slinky::select\(slinky::expr const&, slinky::interval_expr, slinky::interval_expr\)")
        nd = N.Nodes(ex)
        loc = {}

        def setup(st):
            c = nd.value(st, "c")
            e = [nd.value(st, n) for n in ("t_min", "t_max", "f_min", "f_max")]
            reg, r2 = X.Region("c", 8), X.Region("f", 16)
            st.mem[reg] = {(0, 8): X.NodePtr(c)}
            st.mem[r2] = {(0, 8): X.NodePtr(e[2]), (8, 8): X.NodePtr(e[3])}
            loc.update(c=c, e=e)
            l = [X.Ptr(reg)] + [X.NodePtr(q) for q in e]
            return l if len(fn.params) == 5 else l[:3] + [X.Ptr(r2)]

        def fin(st, ret):
            c, e = loc["c"], loc["e"]
            for k, n in ((0, "minimum"), (1, "maximum")):
                r = hid(ret.v[k])
                ex.oblige(st, z3.And(r != 0, N.select_axiom(kv(r), kv(c), kv(e[k]), kv(e[2 + k]))), "the %s is the chosen one" % n, assume=False)
        return fn, setup, fin
    s = S.Spec("select(c, interval, interval)", mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("interval", "boundsof")
    return s


def match_staircase_spec(mods):
    """match(ctx, staircase(x, c0, c1, c2), e)"""
    def make(ex):
        fn = N.find(mods, r"bool slinky::rewrite::match<slinky::rewrite::pattern_staircase<.*>, slinky::expr>\(.*\)")
        nd = N.Nodes(ex)
        loc = {}

        def setup(st):
            e = nd.value(st, "e")
            st.assume(K(e) == 0)
            ctx, r = X.Region("ctx", 256), X.Region("e", 8)
            st.mem[ctx], st.mem[r] = {}, {(0, 8): X.NodePtr(e)}
            loc.update(e=e, ctx=ctx)
            return [X.Ptr(ctx), X.Ptr(r)]

        def fin(st, ret):
            yes = X.zb(ex.to_bool(ret))
            if ex.sat(st, yes) == "unsat":
                return
            L = nd.L
            x = hid(ex.load(st, fn.mod, ("ptr",), X.Ptr(loc["ctx"], L["match_context.vars"])))
            c = [zi(ex.load(st, fn.mod, ("i", 64), X.Ptr(loc["ctx"], L["match_context.constants"] + 8 * k))) for k in range(3)]

            ex.oblige(st, z3.Implies(yes, z3.And(x != 0, *[X.inr(k) for k in c])), "the operands are defined", assume=False)
            st.assume(yes)
            stairs(st, V(x), *c)
            prods(st, [V(x)], [])
            ex.oblige(st, staircase_claim(st, loc["e"], x, *c), "the expression is the matched pattern", assume=False)
        return fn, setup, fin
    s = S.Spec("match(staircase(x, c0, c1, c2), e)", mods, make, prover=N.prover, timeout=4.0)
    s.kinds = ("boundsof", "simplify")
    return s


def specs(sb, es):
    out = [match_staircase_spec([sb])]
    for op in N.BIN:
        for kind in ("null", "node"):
            out.append(op_spec([sb], op, kind))
    out += [not_spec([sb]), select_spec([sb])] + [call_spec([sb], n) for n in (0, 1, 2)]
    for sym in "*/+-":
        for ip in (True, False):
            out.append(interval_spec([es], sym, ip))
    for sym in "|&":
        for ip in (True, False):
            out.append(setop_spec([es], sym, ip))
    out += [neg_spec([es]), contains_spec([es]), select_iv_spec([es])]
    return out
