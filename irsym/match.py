"""Contracts of the structural comparison of expressions (matcher, match and compare in builder/substitute.cc): C12.

What the comparison of two nodes results in is not fixed. The comparison of nodes of each type is executed for two arbitrary nodes, with
the comparisons of their operands by contract: CMP (operands), CMPV (their vectors) are total preorders, and operands that compare equal
have equal values in every context. From the paths of the execution follows that the same holds for the nodes themselves (finish)."""
import re
import z3
from . import ex as X, spec as S, nodes as N
from .nodes import I, Z, zi, T, fld, NARG, hid

ARR = z3.ArraySort(Z, Z)
E = z3.Function("E", Z, ARR, Z)
SYMA = z3.Function("SYMA", Z, ARR)
VALA = z3.Function("VALA", Z, ARR)
ARGA = z3.Function("ARGA", Z, ARR)
NL = z3.Function("NL", Z, Z)
CH = z3.Function("CH", ARR, ARR, Z, ARR, ARR)
TGT = z3.Function("TGT", Z, Z)
CMP = z3.Function("CMP", Z, Z, Z)
CMPV = {k: z3.Function("CMPV_" + k, Z, Z, Z) for k in ("lets", "args")}
CMPE = z3.Function("CMP_pair", Z, Z, Z, Z, Z)
MT = r"slinky::\(anonymous namespace\)::matcher::"
BIG = 2 ** 40
OPF = {t: z3.Function("op_" + t, Z, Z, Z) for t in N.BIN}
NOTF = z3.Function("op_not", Z, Z)
VARF = z3.Function("op_variable", Z, Z, Z, Z)
ALL = N.TYPES
MANGLED = {"min": "3min", "max": "3max"}


def operate(t, x, y):
    if N.comm(t):
        return OPF[t](z3.If(x <= y, x, y), z3.If(x <= y, y, x))
    return OPF[t](x, y)


def value_of(st, L, id, t, C):
    """The axiom of the value of a node of type t in the context C (calls are compared by their arguments instead)."""
    c = lambda n: fld(L["%s.%s" % (t, n)])(id)
    if t in N.BIN:
        return E(id, C) == operate(t, E(c("a"), C), E(c("b"), C))
    if t == "logical_not":
        return E(id, C) == NOTF(E(c("a"), C))
    if t == "select":
        return E(id, C) == z3.If(E(c("condition"), C) != 0, E(c("true_value"), C), E(c("false_value"), C))
    if t == "let":
        return E(id, C) == E(c("body"), CH(SYMA(id), VALA(id), NL(id), C))
    if t == "constant":
        return E(id, C) == c("value")
    if t == "variable":
        f = c("field")
        return E(id, C) == z3.If(f == L["field.none"], z3.Select(C, c("sym")), VARF(f, c("dim"), z3.Select(C, c("sym"))))
    return None


class Model(N.Nodes):
    """Nodes with values in contexts (st.ghost["CS"])."""
    def __init__(self, ex, mod):
        super().__init__(ex, Model.lets_field)
        self.mod = mod
        self.regs = {}
        ex.contract(r"__assert_fail", self.assertion)
        ex.contract(r"std::function<.*>::operator bool\(\) const", self.target)

    def assertion(self, ex, st, v, i):
        ex.oblige(st, False, "assertions hold")
        return X.DEAD

    def target(self, ex, st, v, i):
        p = v[0]
        if not isinstance(p, X.NodePtr):
            raise X.Undecided("a function that is not of a node")
        return TGT(zi(p.id)) != 0

    def array(self, st, kind, id, stride, cells):
        k = (kind, id.get_id())
        if k not in self.regs:
            r = X.Region(kind + " of node", None, "array", stride)
            r.node, r.kind_ = id, kind
            n = NL(id) if kind == "lets" else NARG(id)

            def access(ex, st, i, f, size, n=n, id=id, kind=kind):
                if not ex.dry:
                    ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < n), "%s are accessed within bounds" % kind)
                self.element(st, kind, id, zi(i))
            r.on_access = access
            self.regs[k] = r
        r = self.regs[k]
        if r not in st.mem:
            st.mem[r] = dict(cells)
        return r

    def element(self, st, kind, id, i):
        n = NL(id) if kind == "lets" else NARG(id)
        inb = z3.And(0 <= i, i < n)
        if kind == "lets":
            s = z3.Select(SYMA(id), i)
            st.assume(z3.Implies(inb, z3.And(z3.Select(VALA(id), i) > 0, s >= 0, s < BIG)))
        else:
            st.assume(z3.Implies(inb, z3.Select(ARGA(id), i) >= 0))

    def lets_field(self, st, id, off):
        a = self.L["let.lets"]
        if off not in (a, a + 8):
            return None
        r = self.array(st, "lets", id, 16, {(0, 8): SYMA(id), (8, 8): VALA(id)})
        return X.Ptr(r, 0 if off == a else 16 * NL(id))

    def load(self, st, mod, p, ty):
        id, off = zi(p.id), p.off
        if off == 0:
            t = self.decided_type(st, id)
            if t is not None:
                n = "@_ZTVN6slinky%d%sE" % (len(t), t)
                if n in mod.raw_globals:
                    return X.Ptr(self.ex.global_ptr(mod, n).region, 16)
            raise X.Undecided("the type of a node that is visited")
        a = self.L["call.args"]
        if off in (a, a + 8) and self.structure(st, id) == "call":
            r = self.array(st, "args", id, 8, {(0, 8): ARGA(id)})
            return X.Ptr(r, 0 if off == a else 8 * NARG(id))
        return super().load(st, mod, p, ty)

    def axiom(self, st, id, t):
        L = self.L
        for n in {"logical_not": ("a",), "select": ("condition", "true_value", "false_value"), "let": ("body",)}.get(t, ("a", "b") if t in N.BIN else ()):
            v = fld(L["%s.%s" % (t, n)])(id)
            st.assume(z3.And(v > 0))
        if t == "variable":
            s, f = fld(L["variable.sym"])(id), fld(L["variable.field"])(id)
            st.assume(z3.And(s >= 0, s < BIG, f >= L["field.none"], f <= L["field.fold_factor"]))
        if t == "let":
            st.assume(z3.And(NL(id) >= 0, NL(id) < BIG))
        if t == "call":
            fn = fld(L["call.intrinsic"])(id)
            st.assume(z3.And(NARG(id) >= 0, NARG(id) < BIG, fn >= 0, fn <= L["intrinsic.validate_buffer"], TGT(id) >= 0))
        for C in st.ghost.get("CS", ()):
            f = value_of(st, L, id, t, C)
            if f is not None:
                st.assume(f)

    def kinds(self, st, id):
        st.assume(z3.And(T(id) >= 1, T(id) <= len(N.TYPES)))

    def kinds_if(self, st, id):
        st.assume(z3.Implies(id != 0, z3.And(T(id) >= 1, T(id) <= len(N.TYPES))))


# --- what comparisons of operands promise ----------------------------------------------------------------------------------
def preorder(f, x, y, z):
    """f is a total preorder on x, y and z."""
    l = []
    for a in (x, y, z):
        for b in (x, y, z):
            l += [f(a, b) == -f(b, a), f(a, b) >= -1, f(a, b) <= 1]
            for c in (x, y, z):
                l.append(z3.Implies(z3.And(f(a, b) <= 0, f(b, c) <= 0), z3.And(f(a, c) <= 0, z3.Implies(z3.Or(f(a, b) < 0, f(b, c) < 0), f(a, c) < 0))))
    return z3.And(*l)


class Matcher:
    """A matcher object in memory and the contracts of its functions."""
    def __init__(self, ex, mod):
        self.ex, self.mod, self.nd = ex, mod, Model(ex, mod)
        n = next((n for n in mod.raw_types if n.strip('%"') == "class.slinky::(anonymous namespace)::matcher"), None)
        if n is None:
            raise X.Undecided("type matcher not found")
        t, offs = mod.resolve(("named", n)), mod.layout(("named", n))[2]
        self.match = next(o for o, f in zip(offs, t[1]) if f == ("i", 32))
        self.size = mod.size(("named", n))
        # the union is between the vtables and the result
        self.self_ = max(o for o in offs if o < self.match)
        ex.node_cmp = None

    def this(self, st, a=None):
        r = X.Region("this", self.size)
        v = next(n for n in self.mod.raw_globals if n.startswith("@_ZTV") and "matcher" in n)
        st.mem[r] = {(0, 8): X.Ptr(self.ex.global_ptr(self.mod, v).region, 16), (self.match, 4): I(0),
                     (self.self_, 8): X.NodePtr(a) if a is not None else X.NULL}
        return X.Ptr(r)

    def get(self, st, this):
        return zi(self.ex.load(st, self.mod, ("i", 32), self.ex.addoff(this, self.match)))

    def result(self, st, this, r):
        ex = self.ex
        ex.oblige(st, self.get(st, this) == 0, "operands are only compared while no difference has been found")
        st.assume(z3.And(r >= -1, r <= 1))
        ex.store(st, self.mod, ("i", 32), r, ex.addoff(this, self.match))
        return X.conc(r == 0)

    def operands(self):
        ex, mod = self.ex, self.mod
        N_ = N.NODE
        ex.contract(MT + r"try_match\(%s const\*, %s const\*\)" % (N_, N_), lambda ex, st, v, i: self.result(st, v[0], CMP(hid(v[1]), hid(v[2]))))

        def handles(ex, st, v, i):
            a, b = (hid(ex.load(st, mod, ("ptr",), p)) for p in v[1:])
            return self.result(st, v[0], CMP(a, b))
        ex.contract(MT + r"try_match\(slinky::expr const&, slinky::expr const&\)", handles)

    def vectors(self):
        ex = self.ex
        for k, ty in (("lets", r"std::pair<slinky::var, slinky::expr>"), ("args", r"slinky::expr")):
            def f(ex, st, v, i, k=k):
                a, b = v[1:]
                if not isinstance(a, X.NodePtr) or not isinstance(b, X.NodePtr):
                    raise X.Undecided("comparison of vectors that are not of nodes")
                off = self.nd.L["let.lets" if k == "lets" else "call.args"]
                ex.oblige(st, a.off == off and b.off == off, "the %s are compared" % k)
                return self.result(st, v[0], CMPV[k](zi(a.id), zi(b.id)))
            ex.contract(r"(bool )?" + MT + r"try_match<%s>\(std::vector<%s, .*>\)" % (ty, ty), f)
            ex.contract(r"(bool )?" + MT + r"try_match_container<std::vector<%s, .*>>\(.*\)" % ty, f)

    def pairs(self):
        ex, mod = self.ex, self.mod

        def f(ex, st, v, i):
            l = [zi(X_) for p in v[1:] for X_ in (ex.load(st, mod, ("i", 64), p), hid(ex.load(st, mod, ("ptr",), ex.addoff(p, 8))))]
            return self.result(st, v[0], CMPE(*l))
        ex.contract(r"(bool )?" + MT + r"try_match<slinky::var, slinky::expr>\(std::pair<.*\)", f)


a, b, c = z3.Ints("a b c")
C0 = z3.Array("C", Z, Z)


def relation(ex, paths, names, what, facts, equal):
    """Obligations that what the paths compute is a total preorder: paths = [(conditions, result)] over the constants of names (left, right)."""
    left, right = names
    third = [z3.Const("third." + str(x), x.sort()) for x in left]

    def P(x, y, r):
        m = list(zip(left, x)) + list(zip(right, y))
        return z3.substitute(z3.Or(*[z3.And(*(cs + [r == res])) for cs, res in paths]), *m)
    r1, r2, r3 = z3.Ints("r1 r2 r3")

    def ob(hyps, goal, name):
        st = X.State()
        for h in hyps:
            st.assume(h)
        ex.oblige(st, goal, name, assume=False)
    base = facts(left, right, third)
    ob(base + [P(left, right, r1)], z3.And(r1 >= -1, r1 <= 1), "the result of %s is -1, 0 or 1" % what)
    ob(base + [P(left, right, r1), P(right, left, r2)], r1 == -r2, "%s is antisymmetric" % what)
    ob(base + [P(left, right, r1), P(right, third, r2), P(left, third, r3), r1 <= 0, r2 <= 0],
       z3.And(r3 <= 0, z3.Implies(z3.Or(r1 < 0, r2 < 0), r3 < 0)), "%s is transitive" % what)
    h, g = equal(left, right)
    ob(base + h + [P(left, right, r1), r1 == 0], g, "%s only finds what has equal values to be equal" % what)
    # not a comparison that finds everything different
    ob(base + [P(left, right, r1)] + [x == y for x, y in zip(left, right)], r1 == 0, "%s finds the same expression to be equal" % what)


def children(L, t, id):
    if t in N.BIN:
        return [fld(L["%s.%s" % (t, n)])(id) for n in "ab"]
    return [fld(L["%s.%s" % (t, n)])(id) for n in {"logical_not": ("a",), "select": ("condition", "true_value", "false_value"), "let": ("body",)}.get(t, ())]


def type_spec(mod, t):
    """Comparison of two nodes of type t."""
    s = S.Spec("matcher: comparison of nodes of type %s" % t, [mod], None, prover=N.prover, timeout=6.0)
    paths = []

    def make(ex):
        fn = N.find([mod], MT + r"visit\(%s const\*\)" % N.NODE)
        M = Matcher(ex, mod)
        s.L = M.nd.L
        M.operands()
        M.vectors()
        loc = {}

        def setup(st):
            for x in (a, b):
                st.assume(z3.And(x > 0, T(x) == N.ty(t)))
                st.ghost[("type", x.get_id())] = (t, x)
            st.assume(a != b)
            loc["this"] = M.this(st, a)
            return [loc["this"], X.NodePtr(b)]

        def fin(st, ret):
            paths.append((st.conds(), M.get(st, loc["this"])))
        return fn, setup, fin

    def finish(ex):
        L = s.L

        def facts(l, r, o):
            x, y, z = l[0], r[0], o[0]
            out = [v > 0 for v in (x, y, z)]
            for u, v, w in zip(*[children(L, t, k) for k in (x, y, z)]):
                out.append(preorder(CMP, u, v, w))
            k = {"let": "lets", "call": "args"}.get(t)
            if k:
                out.append(preorder(CMPV[k], x, y, z))
            return out

        def equal(l, r):
            x, y = l[0], r[0]
            h = []
            if t == "call":
                # the same call, or one of the same intrinsic with equal arguments
                j = z3.Int("j")
                h.append(z3.Implies(CMPV["args"](x, y) == 0, z3.And(NARG(x) == NARG(y), z3.Implies(
                    z3.And(j >= 0, j < NARG(x)), z3.And((z3.Select(ARGA(x), j) == 0) == (z3.Select(ARGA(y), j) == 0),
                                                        E(z3.Select(ARGA(x), j), C0) == E(z3.Select(ARGA(y), j), C0))))))
                same = z3.And(TGT(x) == 0, TGT(y) == 0, fld(L["call.intrinsic"])(x) == fld(L["call.intrinsic"])(y), NARG(x) == NARG(y), z3.Implies(
                    z3.And(j >= 0, j < NARG(x)), z3.And((z3.Select(ARGA(x), j) == 0) == (z3.Select(ARGA(y), j) == 0),
                                                        E(z3.Select(ARGA(x), j), C0) == E(z3.Select(ARGA(y), j), C0))))
                return h, z3.Or(x == y, same)
            for k in (x, y):
                h.append(value_of(None, L, k, t, C0))
            if t == "let":
                n = NL(x)
                cx, cy = CH(SYMA(x), VALA(x), n, C0), CH(SYMA(y), VALA(y), NL(y), C0)
                h.append(z3.Implies(CMPV["lets"](x, y) == 0, z3.And(NL(x) == NL(y), cx == cy)))
                u, v = children(L, t, x)[0], children(L, t, y)[0]
                h.append(z3.Implies(CMP(u, v) == 0, E(u, cx) == E(v, cx)))
            else:
                for u, v in zip(children(L, t, x), children(L, t, y)):
                    h.append(z3.Implies(CMP(u, v) == 0, E(u, C0) == E(v, C0)))
            return h, E(x, C0) == E(y, C0)
        relation(ex, paths, ([a], [b]), "the comparison of nodes of type %s" % t, facts, equal)
    s.make, s.finish = make, finish
    s.kinds = ("subst",)
    return s


def top_spec(mod):
    """try_match of two handles that may be of any type: nodes of the same type are compared by visit."""
    s = S.Spec("matcher::try_match(node, node)", [mod], None, prover=N.prover, timeout=6.0)
    W = z3.Function("CMP_same_type", Z, Z, Z)
    paths = []

    def make(ex):
        fn = N.find([mod], MT + r"try_match\(%s const\*, %s const\*\)" % (N.NODE, N.NODE))
        M = Matcher(ex, mod)
        loc = {}

        def visit(ex, st, v, i):
            l = hid(ex.load(st, mod, ("ptr",), ex.addoff(v[0], M.self_)))
            ex.oblige(st, z3.And(l > 0, hid(v[1]) > 0, T(l) == T(hid(v[1]))), "nodes that are visited are of the same type")
            M.result(st, v[0], W(l, hid(v[1])))
        ex.contract(MT + r"visit\(%s const\*\)" % N.NODE, visit)

        def setup(st):
            st.assume(z3.And(a >= 0, b >= 0))
            loc["this"] = M.this(st)
            return [loc["this"], X.NodePtr(a), X.NodePtr(b)]

        def fin(st, ret):
            m = M.get(st, loc["this"])
            ex.oblige(st, X.zb(ex.to_bool(ret)) == (m == 0), "the result is true iff there is no difference", assume=False)
            paths.append((st.conds(), m))
        return fn, setup, fin

    def finish(ex):
        def facts(l, r, o):
            x, y, z = l[0], r[0], o[0]
            out = [v >= 0 for v in (x, y, z)]
            out += [W(u, v) >= -1 for u in (x, y, z) for v in (x, y, z)]
            for u in (x, y, z):
                for v in (x, y, z):
                    same = T(u) == T(v)
                    # distinct nodes of a type (the same node is not visited)
                    out.append(z3.Implies(same, z3.And(W(u, v) == -W(v, u), W(u, v) <= 1)))
                    for w in (x, y, z):
                        out.append(z3.Implies(z3.And(same, T(v) == T(w), W(u, v) <= 0, W(v, w) <= 0), z3.And(W(u, w) <= 0, z3.Implies(z3.Or(W(u, v) < 0, W(v, w) < 0), W(u, w) < 0))))
            return out

        def equal(l, r):
            x, y = l[0], r[0]
            return [z3.Implies(z3.And(x > 0, y > 0, T(x) == T(y), W(x, y) == 0), E(x, C0) == E(y, C0))], E(x, C0) == E(y, C0)
        relation(ex, paths, ([a], [b]), "the comparison", facts, equal)
    s.make, s.finish = make, finish
    s.kinds = ("subst",)
    return s


def pair_spec(mod):
    s = S.Spec("matcher::try_match(pair, pair)", [mod], None, prover=N.prover, timeout=6.0)
    n = [z3.Ints("s1 e1"), z3.Ints("s2 e2")]
    paths = []

    def make(ex):
        fn = N.find([mod], r"(bool )?" + MT + r"try_match<slinky::var, slinky::expr>\(std::pair<.*\)")
        M = Matcher(ex, mod)
        M.operands()
        loc = {}

        def setup(st):
            loc["this"] = M.this(st)
            args = [loc["this"]]
            for k, (s_, e_) in enumerate(n):
                st.assume(z3.And(s_ >= 0, s_ < BIG, e_ >= 0))
                r = X.Region("pair%d" % k, 16)
                st.mem[r] = {(0, 8): s_, (8, 8): X.NodePtr(e_)}
                args.append(X.Ptr(r))
            return args

        def fin(st, ret):
            m = M.get(st, loc["this"])
            ex.oblige(st, X.zb(ex.to_bool(ret)) == (m == 0), "the result is true iff there is no difference", assume=False)
            paths.append((st.conds(), m))
        return fn, setup, fin

    def finish(ex):
        facts = lambda l, r, o: [preorder(CMP, l[1], r[1], o[1])]
        equal = lambda l, r: ([z3.Implies(CMP(l[1], r[1]) == 0, E(l[1], C0) == E(r[1], C0))], z3.And(l[0] == r[0], E(l[1], C0) == E(r[1], C0)))
        relation(ex, paths, (list(n[0]), list(n[1])), "the comparison of pairs", facts, equal)
    s.make, s.finish = make, finish
    s.kinds = ("subst",)
    return s


LX = {k: z3.Function("LX_" + k, Z, Z, Z, Z) for k in CMPV}


def element(k, x, y, i):
    if k == "args":
        return CMP(z3.Select(ARGA(x), i), z3.Select(ARGA(y), i))
    return CMPE(z3.Select(SYMA(x), i), z3.Select(VALA(x), i), z3.Select(SYMA(y), i), z3.Select(VALA(y), i))


def step(k, x, y, i):
    """Lexicographic order of the first i + 1 elements."""
    return LX[k](x, y, i + 1) == z3.If(LX[k](x, y, i) != 0, LX[k](x, y, i), element(k, x, y, i))


def container_spec(mod, k):
    """Vectors are compared by size, and then by the first elements that differ."""
    ty = {"lets": r"std::pair<slinky::var, slinky::expr>", "args": "slinky::expr"}[k]
    s = S.Spec("matcher::try_match_container (%s)" % k, [mod], None, prover=N.prover, timeout=6.0)

    def make(ex):
        fn = N.find([mod], r"(bool )?" + MT + r"try_match_container<std::vector<%s, .*>>\(.*\)" % ty)
        M = Matcher(ex, mod)
        M.operands()
        M.pairs()
        loc = {}
        num = NL if k == "lets" else NARG
        t = "let" if k == "lets" else "call"
        off = M.nd.L["let.lets" if k == "lets" else "call.args"]

        def facts(st, i):
            st.assume(z3.Implies(z3.And(0 <= i, i < num(a)), z3.And(step(k, a, b, i), element(k, a, b, i) >= -1, element(k, a, b, i) <= 1)))
            if k == "lets":
                ca, cb = (CH(SYMA(x), VALA(x), i, C0) for x in (a, b))
                for x, cx in ((a, ca), (b, cb)):
                    st.assume(CH(SYMA(x), VALA(x), i + 1, C0) == z3.Store(cx, z3.Select(SYMA(x), i), E(z3.Select(VALA(x), i), cx)))
                # elements that compare equal have the same name, and equal values in every context
                st.assume(z3.Implies(element(k, a, b, i) == 0, z3.And(z3.Select(SYMA(a), i) == z3.Select(SYMA(b), i),
                                     E(z3.Select(VALA(a), i), ca) == E(z3.Select(VALA(b), i), ca))))
            else:
                st.assume(z3.Implies(element(k, a, b, i) == 0, z3.And((z3.Select(ARGA(a), i) == 0) == (z3.Select(ARGA(b), i) == 0),
                                     E(z3.Select(ARGA(a), i), C0) == E(z3.Select(ARGA(b), i), C0))))
        orig = M.nd.element

        def elem(st, kind, id, i):
            orig(st, kind, id, i)
            facts(st, i)
        M.nd.element = elem
        j = z3.Int("j")

        def cand(ex, st, f, head, entry):
            out = []
            for n, v in entry.items():
                if isinstance(v, X.Ptr) and v.region.kind == "array":
                    at = lambda s, w, n=n: ex.array_index(s, w[n].region, w[n].off)[0]
                elif isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool):
                    at = lambda s, w, n=n: zi(w[n])
                else:
                    continue
                out.append(("%s is not negative" % n, lambda ex, s, w, at=at: at(s, w) >= 0))
                out.append(("%s is at most the size" % n, lambda ex, s, w, at=at: at(s, w) <= num(a)))
                out.append(("no difference is found so far (%s)" % n, lambda ex, s, w, at=at: z3.And(LX[k](a, b, at(s, w)) == 0, M.get(s, loc["this"]) == 0)))
                if k == "lets":
                    out.append(("the names so far have equal values (%s)" % n, lambda ex, s, w, at=at: CH(SYMA(a), VALA(a), at(s, w), C0) == CH(SYMA(b), VALA(b), at(s, w), C0)))
                else:
                    def eq(ex, s, w, at=at):
                        x, y = z3.Select(ARGA(a), j), z3.Select(ARGA(b), j)
                        return z3.Implies(z3.And(0 <= j, j < at(s, w)), z3.And((x == 0) == (y == 0), E(x, C0) == E(y, C0)))
                    out.append(("the arguments so far have equal values (%s)" % n, eq))
                for n2, v2 in entry.items():
                    if n2 != n and isinstance(v2, X.Ptr) and v2.region.kind == "array":
                        out.append(("%s is at the same element as %s" % (n, n2), lambda ex, s, w, at=at, n2=n2: at(s, w) == ex.array_index(s, w[n2].region, w[n2].off)[0]))
            return out
        ex.loop_candidates[MT] = cand
        ex.loop_candidates[r"(bool )?" + MT] = cand

        def setup(st):
            for x in (a, b):
                st.assume(z3.And(x > 0, T(x) == N.ty(t), num(x) >= 0, num(x) < BIG))
                st.ghost[("type", x.get_id())] = (t, x)
            st.assume(LX[k](a, b, I(0)) == 0)
            for x in (a, b):
                st.assume(CH(SYMA(x), VALA(x), I(0), C0) == C0)
            loc["this"] = M.this(st)
            return [loc["this"], X.NodePtr(a, off), X.NodePtr(b, off)]

        def fin(st, ret):
            m = M.get(st, loc["this"])
            na, nb = num(a), num(b)
            ex.oblige(st, X.zb(ex.to_bool(ret)) == (m == 0), "the result is true iff there is no difference", assume=False)
            # prefixes: a difference that is found is the result (lemma: the first difference decides)
            for i in st.ghost.get("found", ()):
                pass
            lex = z3.If(na < nb, I(-1), z3.If(na > nb, I(1), LX[k](a, b, na)))
            st.assume(z3.And(*[z3.Implies(z3.And(LX[k](a, b, i) != 0, na == nb, 0 <= i, i <= na), LX[k](a, b, na) == LX[k](a, b, i)) for i in indices(st)]))
            ex.oblige(st, m == lex, "vectors are compared by size, then by the first elements that differ", assume=False)
            if k == "lets":
                g = z3.And(na == nb, CH(SYMA(a), VALA(a), na, C0) == CH(SYMA(b), VALA(b), nb, C0))
            else:
                x, y = z3.Select(ARGA(a), j), z3.Select(ARGA(b), j)
                g = z3.And(na == nb, z3.Implies(z3.And(0 <= j, j < na), z3.And((x == 0) == (y == 0), E(x, C0) == E(y, C0))))
            ex.oblige(st, z3.Implies(m == 0, g), "only vectors of equal values are found to be equal", assume=False)

        def indices(st):
            seen, out = set(), []
            for cnd in st.conds():
                stack = [cnd]
                while stack:
                    e = stack.pop()
                    if e.get_id() in seen:
                        continue
                    seen.add(e.get_id())
                    if z3.is_app(e):
                        if e.decl().eq(LX[k]):
                            out.append(e.arg(2))
                        stack += e.children()
            return out
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def wrapper_spec(mod, name, boolean):
    s = S.Spec("%s(expr_ref, expr_ref)" % name, [mod], None, prover=N.prover, timeout=6.0)

    def make(ex):
        fn = N.find([mod], r"slinky::%s\(slinky::expr_ref, slinky::expr_ref\)" % name)
        M = Matcher(ex, mod)
        M.operands()

        def setup(st):
            st.assume(z3.And(a >= 0, b >= 0))
            return [X.NodePtr(a), X.NodePtr(b)]

        def fin(st, ret):
            if boolean:
                ex.oblige(st, X.zb(ex.to_bool(ret)) == (CMP(a, b) == 0), "true iff there is no difference", assume=False)
            else:
                ex.oblige(st, zi(ret) == CMP(a, b), "the result is that of the comparison", assume=False)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def fields_spec(mod, name, n):
    """match of intervals and dims: no difference between any of the expressions."""
    s = S.Spec("match(%s, %s)" % (name, name), [mod], None, prover=N.prover, timeout=6.0)

    def make(ex):
        fn = N.find([mod], r"slinky::match\(slinky::%s const&, slinky::%s const&\)" % (name, name))
        M = Matcher(ex, mod)
        M.operands()
        xs = [z3.Int("x%d" % k) for k in range(n)]
        ys = [z3.Int("y%d" % k) for k in range(n)]

        def setup(st):
            args = []
            for l in (xs, ys):
                r = X.Region(str(l[0])[0], 8 * n)
                st.mem[r] = {(8 * k, 8): X.NodePtr(e) for k, e in enumerate(l)}
                for e in l:
                    st.assume(e >= 0)
                args.append(X.Ptr(r))
            return args

        def fin(st, ret):
            h = [z3.Implies(CMP(x, y) == 0, E(x, C0) == E(y, C0)) for x in xs for y in ys]
            for x in h:
                st.assume(x)
            ex.oblige(st, z3.Implies(X.zb(ex.to_bool(ret)), z3.And(*[E(x, C0) == E(y, C0) for x, y in zip(xs, ys)])), "only what has equal values is found to be equal", assume=False)
            ex.oblige(st, z3.Implies(z3.And(*[CMP(x, y) == 0 for x, y in zip(xs, ys)]), X.zb(ex.to_bool(ret))), "what has no difference is found to be equal", assume=False)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def lemma_obligations():
    """The lexicographic order of vectors of one size is a total preorder (induction over their length); the first difference decides."""
    p = {k: z3.Int("p_" + k) for k in ("ab", "ba", "bc", "cb", "ac", "ca")}
    e = {k: z3.Int("e_" + k) for k in p}
    nx = {k: z3.If(p[k] != 0, p[k], e[k]) for k in p}
    rng = [z3.And(x >= -1, x <= 1) for d in (p, e) for x in d.values()]
    anti = lambda d: z3.And(d["ab"] == -d["ba"], d["bc"] == -d["cb"], d["ac"] == -d["ca"])

    def tr(d):
        l = []
        for x, y, z in (("ab", "bc", "ac"), ("ba", "ac", "bc"), ("ac", "cb", "ab"), ("ca", "ab", "cb"), ("bc", "ca", "ba"), ("cb", "ba", "ca")):
            l.append(z3.Implies(z3.And(d[x] <= 0, d[y] <= 0), z3.And(d[z] <= 0, z3.Implies(z3.Or(d[x] < 0, d[y] < 0), d[z] < 0))))
        return z3.And(*l)
    q, n, el = z3.Ints("q n el")
    return [("lemma: lexicographic order is antisymmetric (step)", rng + [anti(p), anti(e)], anti(nx)),
            ("lemma: lexicographic order is transitive (step)", rng + [anti(p), anti(e), tr(p), tr(e)], tr(nx)),
            ("lemma: the first difference decides (step)", [q != 0, n == q], z3.If(n != 0, n, el) == q)]


def specs(mod):
    out = [type_spec(mod, t) for t in ALL]
    out += [top_spec(mod), pair_spec(mod), container_spec(mod, "lets"), container_spec(mod, "args"),
            wrapper_spec(mod, "match", True), wrapper_spec(mod, "compare", False), fields_spec(mod, "interval_expr", 2), fields_spec(mod, "dim_expr", 4)]
    return out
