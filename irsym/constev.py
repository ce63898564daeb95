"""Contracts of constant_evaluator (builder/simplify.cc), the predicates of runtime/expr_stmt.cc and the functions built on them: C03."""
import re
import z3
from . import arith as A, ex as X, spec as S, nodes as N
from .nodes import I, zi, K, V, T, kv, hid, fld, eq2, lt

CE = r"slinky::\(anonymous namespace\)::constant_evaluator"


def le(a, b):
    return z3.Not(lt(b, a))


def bound(x, s, r):
    """r is a lower bound (s < 0), the value (s == 0) or an upper bound (s > 0) of x; indeterminate values make no claim."""
    x, r = kv(x), kv(r)
    return z3.Or(x[0] == 2, r[0] == 2, z3.And(z3.Implies(s == 0, eq2(x, r)), z3.Implies(s < 0, le(r, x)), z3.Implies(s > 0, le(x, r))))


class Layout:
    """Offsets of the fields of the evaluator, from its type in the compiled code."""
    def __init__(self, mod):
        ce = next((n for n in mod.raw_types if n.strip('%"') in ("class.slinky::(anonymous namespace)::constant_evaluator",)), None)
        nm = next((n for n in mod.raw_types if n.strip('%"') == "class.slinky::node_mutator"), None)
        if ce is None or nm is None:
            raise X.Undecided("type constant_evaluator not found")
        t = mod.resolve(("named", ce))
        offs = mod.layout(("named", ce))[2]
        self.sign = next(o for o, f in zip(offs, t[1]) if f == ("i", 32))
        self.required = next(o for o, f in zip(offs, t[1]) if f == ("i", 8))
        t2 = mod.resolve(("named", nm))
        o2 = mod.layout(("named", nm))[2]
        self.e = next(o for o, f in zip(o2, t2[1]) if f[0] == "named" and f[1].strip('%"') == "class.slinky::expr")
        self.size = mod.size(("named", ce))


def vtable(ex, mod):
    for n in mod.raw_globals:
        if n.startswith("@_ZTV") and "constant_evaluator" in n:
            p = ex.global_ptr(mod, n)
            return X.Ptr(p.region, 16)
    raise X.Undecided("vtable of constant_evaluator not found")


def contracts(ex, nd, mod, lay, own=()):
    m = mod

    def mutate(ex, st, v, i):
        this = v[0]
        x = hid(ex.load(st, m, ("ptr",), v[1]))
        e = hid(ex.load(st, m, ("ptr",), ex.addoff(this, lay.e)))
        s = zi(ex.load(st, m, ("i", 32), ex.addoff(this, lay.sign)))
        q = zi(ex.load(st, m, ("i", 8), ex.addoff(this, lay.required))) != 0
        ex.oblige(st, e == 0, "no result is pending when an operand is visited")
        ex.oblige(st, z3.And(s >= -1, s <= 1), "the kind of bound is -1, 0 or 1")
        r = ex.fresh("m")
        st.assume(r >= 0)
        nd.kinds_if(st, r)
        st.assume(z3.Implies(x == 0, r == 0))
        st.assume(z3.Implies(r == 0, z3.Or(x == 0, q)))
        st.assume(z3.Implies(z3.And(x != 0, r != 0), z3.And(bound(x, s, r), boolean_result(x, r), z3.Implies(T(x) == N.ty("constant"), r == x))))
        st.ghost["muts"] = st.ghost.get("muts", ()) + ((x, r),)
        return X.NodePtr(r)
    if "mutate" not in own:
        ex.contract(r"slinky::node_mutator::mutate\(slinky::expr const&\)", mutate)

    def strip(ex, st, v, i):
        x = hid(v[0])
        r = ex.fresh("stripped")
        st.assume(z3.And(r >= 0, (r == 0) == (x == 0)))
        nd.kinds_if(st, r)
        st.assume(z3.Implies(x != 0, strip_claim(x, r)))
        return X.NodePtr(r)
    if "strip" not in own:
        ex.contract(r"slinky::\(anonymous namespace\)::strip_boolean\(slinky::expr\)", strip)

    def boolean(ex, st, v, i):
        x = hid(ex.load(st, m, ("ptr",), v[0]))
        r = ex.fresh("boolean")
        st.assume(z3.And(r >= 0, (r == 0) == (x == 0)))
        nd.kinds_if(st, r)
        st.assume(z3.Implies(x != 0, boolean_claim(x, r)))
        return X.NodePtr(r)
    if "boolean" not in own:
        ex.contract(r"slinky::boolean\(slinky::expr const&\)", boolean)

    def let_make(ex, st, v, i):
        b = hid(v[-1])
        ex.oblige(st, b != 0, "operands of new nodes are defined")
        return X.NodePtr(nd.make(st, "let", body=b))
    ex.contract(r"slinky::let::make\(std::vector<.*>, slinky::expr\)", let_make)
    ex.contract(r"std::vector<std::pair<slinky::var, slinky::expr>.*>::~?vector\(.*\)", lambda ex, st, v, i: None)

    def visit_call(ex, st, v, i):
        # rebuilds the call of the results of its operands
        this, op = v[0], hid(v[1])
        s = zi(ex.load(st, m, ("i", 32), ex.addoff(this, lay.sign)))
        q = zi(ex.load(st, m, ("i", 8), ex.addoff(this, lay.required))) != 0
        ex.oblige(st, z3.And(s == 0, z3.Not(q)), "a call is only rebuilt when its operands keep their values")
        r = N.fresh_value(nd, st, "rebuilt")
        st.assume(bound(op, I(0), r))
        ex.store(st, m, ("ptr",), X.NodePtr(r), ex.addoff(this, lay.e))
    ex.contract(r"slinky::node_mutator::visit\(slinky::call const\*\)", visit_call)
    A.divmod_contract(ex, 64, False)
    A.divmod_contract(ex, 64, True)
    # debugging assertions are not obligations of this property
    ex.contract(r"__assert_fail", lambda ex, st, v, i: X.DEAD)


def strip_claim(x, r):
    """The truth value is kept; only a boolean changes."""
    return z3.Or(r == x, z3.And(T(x) == N.ty("not_equal"), z3.If(K(x) == 2, K(r) == 2, z3.And(K(x) == 0, V(x) >= 0, V(x) <= 1, K(r) != 2, N.truthy(kv(x)) == N.truthy(kv(r))))))


def boolean_result(x, r):
    """A bound of a boolean node is 0 or 1."""
    return z3.Implies(N.boolean_type(x), z3.Or(K(r) == 2, z3.And(K(r) == 0, V(r) >= 0, V(r) <= 1)))


def boolean_claim(x, r):
    return z3.If(K(x) == 2, K(r) == 2, z3.And(K(r) == 0, V(r) == N.b2i(N.truthy(kv(x)))))


ALL = N.BIN + ["variable", "let", "logical_not", "select", "call"]


def visit_spec(mod, t):
    def make(ex):
        fn = N.find([mod], CE + r"::visit\(slinky::%s const\*\)" % t)
        nd = N.Nodes(ex)
        lay = Layout(mod)
        N.simplify_contracts(ex, nd)
        N.predicate_contracts(ex, nd)
        contracts(ex, nd, mod, lay)
        loc = {}

        def setup(st):
            op = nd.value(st, "op")
            st.assume(T(op) == N.ty(t))
            st.ghost[("type", op.get_id())] = (t, op)
            nd.structure(st, op)
            s, q = z3.Int("sign"), z3.Bool("constant_required")
            st.assume(z3.And(s >= -1, s <= 1))
            this = X.Region("this", lay.size)
            st.mem[this] = {(0, 8): vtable(ex, mod), (lay.e, 8): X.NULL, (lay.sign, 4): s, (lay.required, 1): X.b2i(q)}
            loc.update(op=op, s=s, q=q, this=this)
            return [X.Ptr(this), X.NodePtr(op)]

        def fin(st, ret):
            op, s, q = loc["op"], loc["s"], loc["q"]
            r = hid(ex.load(st, mod, ("ptr",), X.Ptr(loc["this"], lay.e)))
            if t == "mul":
                c = [V(fld(nd.L["mul." + n])(op)) for n in "ab"]
                ds, ps = [], []
                for x, y in st.ghost.get("muts", ()):
                    ds += [V(x) - V(y), V(y) - V(x), V(y), V(x)]
                prods(st, c + [V(y) for _, y in st.ghost.get("muts", ())], ds)
            ex.oblige(st, z3.Implies(r == 0, q), "there is a result unless a constant is required", assume=False)
            ex.oblige(st, z3.Implies(r != 0, bound(op, s, r)), "the result is a bound", assume=False)
            if t in N.BOOLEANS:
                nd.guarded(st, r, ["constant"] + N.BOOLEANS)
                ex.oblige(st, z3.Implies(r != 0, boolean_result(op, r)), "a bound of a boolean is 0 or 1", assume=False)
            s2 = ex.load(st, mod, ("i", 32), X.Ptr(loc["this"], lay.sign))
            ex.oblige(st, zi(s2) == s, "the kind of bound is restored", assume=False)
        return fn, setup, fin
    s = S.Spec("constant_evaluator::visit(const %s*)" % t, [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("const",)
    return s


def prods(st, xs, ys):
    l = list(st.ghost.get("lemmas", ()))
    seen = set()
    for u in xs:
        for v in ys:
            k = (u.get_id(), v.get_id())
            if k not in seen:
                seen.add(k)
                l.append(N.prod_lemma(u, v))
    st.ghost["lemmas"] = tuple(l)


def strip_spec(mod):
    def make(ex):
        fn = N.find([mod], r"slinky::\(anonymous namespace\)::strip_boolean\(slinky::expr\)")
        nd = N.Nodes(ex)
        lay = Layout(mod)
        contracts(ex, nd, mod, lay)
        loc = {}

        def setup(st):
            loc["x"] = nd.value(st, "x", False)
            return [X.NodePtr(loc["x"])]

        def fin(st, ret):
            x, r = loc["x"], hid(ret)
            ex.oblige(st, (r == 0) == (x == 0), "a defined expression has a result", assume=False)
            ex.oblige(st, z3.Implies(x != 0, strip_claim(x, r)), "the truth value is kept", assume=False)
        return fn, setup, fin
    s = S.Spec("strip_boolean(x)", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify", "const")
    return s


def boolean_spec(es):
    def make(ex):
        fn = N.find([es], r"slinky::boolean\(slinky::expr const&\)")
        nd = N.Nodes(ex)
        N.predicate_contracts(ex, nd, ["is_boolean"])
        loc = {}

        def setup(st):
            x = loc["x"] = nd.value(st, "x", False)
            reg = X.Region("x", 8)
            st.mem[reg] = {(0, 8): X.NodePtr(x)}
            return [X.Ptr(reg)]

        def fin(st, ret):
            x, r = loc["x"], hid(ret)
            ex.oblige(st, (r == 0) == (x == 0), "a defined expression has a result", assume=False)
            ex.oblige(st, z3.Implies(x != 0, boolean_claim(x, r)), "the result is 1 if x is not 0 and 0 otherwise", assume=False)
        return fn, setup, fin
    s = S.Spec("boolean(x)", [es], make, prover=N.prover, timeout=4.0)
    s.kinds = ("simplify", "const")
    return s


EXACT = {"is_positive_infinity", "is_negative_infinity"}


def pred_spec(es, n):
    def make(ex):
        fn = N.find([es], r"slinky::%s\(slinky::expr_ref\)" % n)
        nd = N.Nodes(ex)
        N.predicate_contracts(ex, nd, ["is_positive"])    # is_positive(abs(x)) asks about x
        ex.own = None
        loc = {}

        def setup(st):
            x = loc["x"] = nd.value(st, "x", n not in ("is_positive", "is_boolean", "is_finite") or True)
            return [X.NodePtr(x)]

        def fin(st, ret):
            x = loc["x"]
            nd.guarded(st, x, N.BOOLEANS + ["constant", "call"])
            ex.oblige(st, z3.Implies(X.zb(ex.to_bool(ret)), N.PRED[n](K(x), V(x))), "a true answer holds for every value", assume=False)
        return fn, setup, fin
    s = S.Spec("%s(x)" % n, [es], make, prover=N.prover, timeout=4.0)
    s.kinds = ("pred",)
    return s


def top_spec(mod, name, sign, required):
    """evaluate_constant*, constant_lower_bound, constant_upper_bound."""
    def make(ex):
        fn = N.find([mod], r"slinky::%s\(slinky::expr const&\)" % name)
        nd = N.Nodes(ex)
        lay = Layout(mod)
        contracts(ex, nd, mod, lay)
        ex.contract(r"slinky::node_mutator::~?node_mutator\(\)", lambda ex, st, v, i: None)
        ex.contract(CE + r"::~constant_evaluator\(\)", lambda ex, st, v, i: None)
        loc = {}

        def ctor(ex, st, v, i):
            ex.store(st, mod, ("ptr",), X.NULL, ex.addoff(v[0], lay.e))
        ex.contract(r"slinky::node_mutator::node_mutator\(\)", ctor)

        def setup(st):
            x = loc["x"] = nd.value(st, "x")
            reg = X.Region("x", 8)
            st.mem[reg] = {(0, 8): X.NodePtr(x)}
            return [X.Ptr(reg)]

        def fin(st, ret):
            x = loc["x"]
            if required:
                c, has = zi(ret.v[0]), X.zb(ex.to_bool(ret.v[1]))
                ex.oblige(st, z3.Implies(has, N.bound_claim(x, c, sign)), "the constant is a bound", assume=False)
            else:
                r = hid(ret)
                ex.oblige(st, r != 0, "there is a result", assume=False)
                ex.oblige(st, bound(x, I(sign), r), "the result is a bound", assume=False)
        return fn, setup, fin
    s = S.Spec("%s(x)" % name, [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("const",)
    return s


def mutate_spec(mod):
    """node_mutator::mutate as an evaluator: dispatches to the visitors."""
    def make(ex):
        fn = N.find([mod], r"slinky::node_mutator::mutate\(slinky::expr const&\)")
        nd = N.Nodes(ex)
        lay = Layout(mod)
        contracts(ex, nd, mod, lay, own=("mutate",))
        loc = {}

        def visit(ex, st, this, op):
            s = zi(ex.load(st, mod, ("i", 32), ex.addoff(this, lay.sign)))
            q = zi(ex.load(st, mod, ("i", 8), ex.addoff(this, lay.required))) != 0
            e = hid(ex.load(st, mod, ("ptr",), ex.addoff(this, lay.e)))
            ex.oblige(st, e == 0, "no result is pending when a node is visited")
            r = ex.fresh("visited")
            st.assume(r >= 0)
            nd.kinds_if(st, r)
            st.assume(z3.Implies(r == 0, q))
            st.assume(z3.Implies(r != 0, z3.And(bound(op, s, r), boolean_result(op, r))))
            ex.store(st, mod, ("ptr",), X.NodePtr(r), ex.addoff(this, lay.e))
        for t in ALL + ["constant"]:
            def f(ex, st, v, i, t=t):
                ex.oblige(st, T(hid(v[1])) == N.ty(t), "the visitor fits the node")
                visit(ex, st, v[0], hid(v[1]))
            ex.contract(CE + r"::visit\(slinky::%s const\*\)" % t, f)
        def accept(ex, st, v, i):
            e = hid(ex.load(st, mod, ("ptr",), v[0]))
            visit(ex, st, v[1], e)
        ex.contract(r"slinky::expr::accept\(slinky::expr_visitor\*\) const", accept)

        def visit_const(ex, st, v, i):
            ex.store(st, mod, ("ptr",), v[1], ex.addoff(v[0], lay.e))
        ex.contract(r"slinky::node_mutator::visit\(slinky::constant const\*\)", visit_const)

        def setup(st):
            x = nd.value(st, "x", False)
            s, q = z3.Int("sign"), z3.Bool("constant_required")
            st.assume(z3.And(s >= -1, s <= 1))
            this, reg = X.Region("this", lay.size), X.Region("x", 8)
            st.mem[this] = {(0, 8): vtable(ex, mod), (lay.e, 8): X.NULL, (lay.sign, 4): s, (lay.required, 1): X.b2i(q)}
            st.mem[reg] = {(0, 8): X.NodePtr(x)}
            loc.update(x=x, s=s, q=q, this=this)
            return [X.Ptr(this), X.Ptr(reg)]

        def fin(st, ret):
            x, s, q, r = loc["x"], loc["s"], loc["q"], hid(ret)
            ex.oblige(st, z3.Implies(x == 0, r == 0), "an undefined expression has no result", assume=False)
            ex.oblige(st, z3.Implies(r == 0, z3.Or(x == 0, q)), "there is a result unless a constant is required", assume=False)
            ex.oblige(st, z3.Implies(z3.And(x != 0, r != 0), bound(x, s, r)), "the result is a bound", assume=False)
            ex.oblige(st, z3.Implies(z3.And(x != 0, r != 0), boolean_result(x, r)), "a bound of a boolean is 0 or 1", assume=False)
            ex.oblige(st, z3.Implies(T(x) == N.ty("constant"), r == x), "a constant is its own bound", assume=False)
            e = hid(ex.load(st, mod, ("ptr",), X.Ptr(loc["this"], lay.e)))
            ex.oblige(st, e == 0, "no result is left pending", assume=False)
        return fn, setup, fin
    s = S.Spec("constant_evaluator::mutate(x)", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("const",)
    return s


def specs(sc, es, sb):
    out = [visit_spec(sc, t) for t in ALL]
    out += [strip_spec(sc), boolean_spec(es), mutate_spec(sc)]
    out += [pred_spec(es, n) for n in ("is_positive", "is_non_negative", "is_negative", "is_non_positive", "is_boolean", "is_finite",
                                       "is_positive_infinity", "is_negative_infinity", "is_indeterminate")]
    out += [pred_spec(sc, n) for n in ("is_zero", "is_one")] + [pred_spec(sb, n) for n in ("is_true", "is_false")]
    out += [top_spec(sc, *a) for a in (("evaluate_constant", 0, True), ("evaluate_constant_lower_bound", -1, True),
                                       ("evaluate_constant_upper_bound", 1, True), ("constant_lower_bound", -1, False), ("constant_upper_bound", 1, False))]
    return out
