"""Contracts of substitution in expressions (substitutor, var_substitutor, expr_substitutor in builder/substitute.cc and the visits they
inherit from node_mutator): C12.

E(e, C) is the value of an expression in a context. For the substitution of R for t: mutate(e) = r promises that for every context C
E(r, C) == E(e, C[t := E(R, C)]). For the substitution of an expression for another of the same value: E(r, C) == E(e, C). The visit of
a node of each type is executed, with the results of its operands by that contract.

Lets: the values and the names of a list of lets are arrays, CH(names, values, i, C) is the context after the first i of them.
Lemmas that the values are used by: what no name occurs in does not depend on it (deps), CH depends on the first i lets only, equal
contexts and equal lets from some index on lead to equal contexts."""
import re
import z3
from . import ex as X, spec as S, nodes as N, match as M
from .nodes import I, Z, zi, T, fld, NARG, hid
from .match import ARR, E, SYMA, VALA, ARGA, NL, CH, BIG, TGT, VARF, NOTF, operate
from .deps import OCC, NK, EMPTY, positions, UNDEF

SUB = r"slinky::\(anonymous namespace\)::"
VECE = r"std::vector<slinky::expr, std::allocator<slinky::expr>\s?>::"
VECL = r"std::vector<std::pair<slinky::var, slinky::expr>, std::allocator<std::pair<slinky::var, slinky::expr>\s?>\s?>::"
t0, R0, x0 = z3.Ints("t R x")
A0, B0 = z3.Ints("target replacement")
CN = z3.Array("CN", Z, Z)
jj = z3.Int("j")


def plain(L, e):
    return z3.And(T(e) == N.ty("variable"), fld(L["variable.field"])(e) == L["field.none"])


class Subst:
    """A substitutor in memory. kind: var or expr."""
    def __init__(self, ex, mods, kind, own=()):
        self.ex, self.mods, self.mod, self.kind = ex, mods, mods[0], kind
        ex.node_cmp = None
        self.nd = M.Model(ex, self.mod)
        ex.node_copy = self.node_copy
        ex.havoc_cell = self.havoc_cell
        self.L = self.nd.L
        n = next((n for n in self.mod.raw_types if n.strip('%"') == "class.slinky::(anonymous namespace)::%s_substitutor" % kind), None)
        if n is None:
            raise X.Undecided("type %s_substitutor not found" % kind)
        self.size = self.mod.size(("named", n))
        offs = self.mod.layout(("named", n))[2]
        self.o_target, self.o_repl = offs[-2:]
        self.o_e = self.result_offset()
        self.ghost = X.Region("ghost", 8)
        self.CO = z3.Store(CN, t0, E(R0, CN)) if kind == "var" else CN
        self.vectors()
        self.makers()
        if "mutate" not in own:
            ex.contract(r"slinky::node_mutator::mutate\(slinky::expr const&\)", lambda ex, st, v, i: self.mutate(st, v[0], v[1]))
            ex.contract(SUB + r"expr_substitutor::mutate\(slinky::expr const&\)", lambda ex, st, v, i: self.mutate(st, v[0], v[1]))
        ex.contract(r"slinky::depends_on\(slinky::expr_ref, slinky::var\)", self.depends)
        for f in ("is_variable", "as_variable"):
            pass

    def result_offset(self):
        nm = next((n for n in self.mod.raw_types if n.strip('%"') == "class.slinky::node_mutator"), None)
        if nm is None:
            raise X.Undecided("type node_mutator not found")
        t, o = self.mod.resolve(("named", nm)), self.mod.layout(("named", nm))[2]
        return next(o for o, f in zip(o, t[1]) if f[0] == "named" and f[1].strip('%"') == "class.slinky::expr")

    def node_copy(self, st, dst, src, n):
        if n % 8:
            raise X.Undecided("memcpy from a node")
        for o in range(0, n, 8):
            v = self.nd.load(st, self.mod, self.ex.addoff(src, o), ("i", 64))
            self.ex.store(st, self.mod, ("i", 64), v, self.ex.addoff(dst, o))

    def havoc_cell(self, ex, s, reg, k, old):
        if isinstance(old, X.NodePtr):
            v = ex.fresh("handle")
            s.assume(v >= 0)
            s.wcells(reg)[k] = X.NodePtr(v)
            return True
        return False

    def this(self, st):
        r = X.Region("this", self.size)
        vt = next(n for n in self.mod.raw_globals if n.startswith("@_ZTV") and n.endswith("%s_substitutorE" % self.kind))
        st.mem[r] = {(0, 8): X.Ptr(self.ex.global_ptr(self.mod, vt).region, 16), (self.o_e, 8): X.NULL}
        c = st.mem[r]
        if self.kind == "var":
            c[(self.o_target, 8)], c[(self.o_repl, 8)] = t0, X.NodePtr(R0)
        else:
            c[(self.o_target, 8)], c[(self.o_repl, 8)] = X.NodePtr(A0), X.NodePtr(B0)
        st.mem[self.ghost] = {(0, 8): I(-1)}
        self.obj = r
        return X.Ptr(r)

    def assumptions(self, st):
        """What is substituted."""
        st.ghost["CS"] = [CN, self.CO] if self.kind == "var" else [CN]
        if self.kind == "var":
            st.assume(z3.And(t0 >= 0, t0 < BIG, R0 > 0))
            self.nd.kinds(st, R0)
            # the value of a replacement that is a variable
            st.assume(z3.Implies(plain(self.L, R0), z3.And(fld(self.L["variable.sym"])(R0) >= 0, fld(self.L["variable.sym"])(R0) < BIG)))
            self.repl_value(st, CN)
        else:
            st.assume(z3.And(A0 > 0, B0 > 0))

    def repl_value(self, st, C):
        st.assume(z3.Implies(plain(self.L, R0), E(R0, C) == z3.Select(C, fld(self.L["variable.sym"])(R0))))

    def old(self, C):
        """The context in which the original has the value that the result has in C."""
        return z3.Store(C, t0, E(R0, C)) if self.kind == "var" else C

    def pending(self, st):
        return hid(self.ex.load(st, self.mod, ("ptr",), X.Ptr(self.obj, self.o_e)))

    # --- contracts ---
    def promise(self, st, x, r, Cs):
        L = self.L
        st.assume(z3.And(r >= 0, (r == 0) == (x == 0)))
        self.nd.kinds_if(st, r)
        for C in Cs:
            st.assume(z3.Implies(x != 0, E(r, C) == E(x, self.old(C))))
        if self.kind == "var":
            s = fld(L["variable.sym"])(x)
            st.assume(z3.Implies(z3.And(x != 0, plain(L, x)), z3.And(s >= 0, s < BIG, r == z3.If(s == t0, R0, x))))

    def mutate(self, st, this, p):
        ex = self.ex
        if not isinstance(this, X.Ptr) or X.conc(this.off) != 0:
            raise X.Undecided("substitutor")
        if getattr(self, "obj", None) is not this.region:
            self.obj = this.region
        if st.ghost.get("this") is not this.region:
            # what a new substitutor substitutes
            st.ghost["this"] = this.region
            vt = ex.load(st, self.mod, ("ptr",), this)
            want = next(n for n in self.mod.raw_globals if n.startswith("@_ZTV") and n.endswith("%s_substitutorE" % self.kind))
            if not isinstance(vt, X.Ptr) or vt.region is not ex.global_ptr(self.mod, want).region:
                raise X.Undecided("substitutor")
            b = ex.load(st, self.mod, ("ptr",), X.Ptr(this.region, self.o_repl))
            if self.kind == "var":
                ex.oblige(st, z3.And(zi(ex.load(st, self.mod, ("i", 64), X.Ptr(this.region, self.o_target))) == t0, hid(b) == R0),
                          "what is substituted is what is asked for")
            else:
                a = ex.load(st, self.mod, ("ptr",), X.Ptr(this.region, self.o_target))
                ex.oblige(st, z3.And(hid(a) == A0, hid(b) == B0), "what is substituted is what is asked for")
        ex.oblige(st, self.pending(st) == 0, "no result is pending when an operand is visited")
        x = hid(ex.load(st, self.mod, ("ptr",), p))
        Cs = [CN]
        if isinstance(p, X.Ptr) and p.region.kind == "array" and getattr(p.region, "elem", 0) == 16:
            i = ex.array_index(st, p.region, p.off)[0]
            st.ghost["base"] = tuple(self.lets_arrays(st)) + (i,)
            ex.put(st, self.ghost, 0, 8, i)
            Cs = [self.chain(st, i)]
        elif st.ghost.get("let") is not None:
            i = NL(st.ghost["let"])
            st.ghost["body"] = True
            Cs = [self.chain(st, i)]
        r = ex.fresh("m")
        self.promise(st, x, r, Cs)
        st.ghost["muts"] = st.ghost.get("muts", ()) + ((x, r),)
        return X.NodePtr(r)

    def depends(self, ex, st, v, i):
        e, s = hid(v[0]), zi(v[1])
        cells = []
        for k in range(NK):
            cells.append((k, 1, X.b2i(z3.And(e != 0, OCC(k, e, z3.Store(EMPTY, s, True))))))
        return X.Pack(cells)

    def promised(self, st, x, r, what, plain_=True):
        """What a contract of promise obliges."""
        ex, L = self.ex, self.L
        ex.oblige(st, (r == 0) == (x == 0), "the result is defined iff the original is" + what, assume=False)
        ex.oblige(st, z3.Implies(x != 0, E(r, CN) == E(x, self.CO)), "the result has the value of the original in the context with the replacement" + what, assume=False)
        if self.kind == "var" and plain_:
            ex.oblige(st, z3.Implies(z3.And(x != 0, plain(L, x)), r == z3.If(fld(L["variable.sym"])(x) == t0, R0, x)),
                      "a variable is replaced iff it is the target" + what, assume=False)

    # --- vectors ---
    def vec(self, st, stride, n, arrays, name):
        r = X.Region(name, None, "array", stride)
        st.mem[r] = dict(zip(((0, 8), (8, 8)), arrays))
        return r

    def bounded(self, r, p):
        r.owner = (p.region, X.conc(p.off))

        def access(ex, st, i, f, size):
            if ex.dry:
                return
            o = r.owner
            e = st.cells(o[0]).get((o[1] + 8, 8))
            if isinstance(e, X.Ptr) and e.region is r:
                ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < ex.array_index(st, r, e.off)[0]), "elements are accessed within bounds")
        r.on_access = access

    def vectors(self):
        ex, m = self.ex, self.mod

        def init(st, p, r, n):
            ex.store(st, m, ("ptr",), X.Ptr(r, 0), p)
            ex.store(st, m, ("ptr",), X.Ptr(r, X.conc(r.elem * zi(n))), ex.addoff(p, 8))
            ex.store(st, m, ("ptr",), X.Ptr(r, X.conc(r.elem * zi(n))), ex.addoff(p, 16))
            self.bounded(r, p)
        self.init_vec = init

        def num(st, p):
            e = ex.load(st, m, ("ptr",), ex.addoff(p, 8))
            if not isinstance(e, X.Ptr) or e.region.kind != "array":
                raise X.Undecided("a vector that is not modelled")
            return e.region, ex.array_index(st, e.region, e.off)[0]
        self.num = num

        def grow(st, p, r, n, vals):
            c = st.wcells(r)
            for k, v in zip(((0, 8), (8, 8)), vals):
                c[k] = z3.Store(ex.array_term(st, r, k[0], 8), n, v)
                if st.writes is not None:
                    st.writes.add((r, k))
            ex.store(st, m, ("ptr",), X.Ptr(r, z3.simplify(r.elem * (zi(n) + 1))), ex.addoff(p, 8))
        for rx, stride in ((VECE, 8), (VECL, 16)):
            nm = "args" if stride == 8 else "lets"

            def empty(ex, st, v, i, stride=stride, nm=nm):
                r = self.vec(st, stride, 0, [z3.K(Z, I(0))] * (stride // 8), "new " + nm)
                init(st, v[0], r, 0)

            def sized(ex, st, v, i, stride=stride, nm=nm):
                r = self.vec(st, stride, v[1], [z3.K(Z, I(0))] * (stride // 8), "new " + nm)
                init(st, v[0], r, zi(v[1]))

            def copy(ex, st, v, i, stride=stride, nm=nm):
                b, e = ex.load(st, m, ("ptr",), v[1]), ex.load(st, m, ("ptr",), ex.addoff(v[1], 8))
                if not isinstance(b, X.Ptr) or b.region.kind != "array" or not isinstance(e, X.Ptr) or e.region is not b.region:
                    raise X.Undecided("copy of a vector")
                src = [ex.array_term(st, b.region, k, 8) for k in range(0, stride, 8)]
                r = self.vec(st, stride, 0, src, "new " + nm)
                init(st, v[0], r, ex.array_index(st, e.region, e.off)[0])

            def move(ex, st, v, i):
                for o in (0, 8, 16):
                    ex.store(st, m, ("ptr",), ex.load(st, m, ("ptr",), ex.addoff(v[1], o)), ex.addoff(v[0], o))
                    ex.store(st, m, ("ptr",), X.NULL, ex.addoff(v[1], o))

            def reserve(ex, st, v, i):
                pass

            def push(ex, st, v, i, stride=stride):
                r, n = num(st, v[0])
                if stride == 8:
                    vals = [hid(ex.load(st, m, ("ptr",), v[1]))]
                elif len(v) == 3:
                    vals = [zi(ex.load(st, m, ("i", 64), v[1])), hid(ex.load(st, m, ("ptr",), v[2]))]
                else:
                    vals = [zi(ex.load(st, m, ("i", 64), v[1])), hid(ex.load(st, m, ("ptr",), ex.addoff(v[1], 8)))]
                grow(st, v[0], r, n, vals)
                return X.Ptr(r, z3.simplify(r.elem * zi(n)))

            def pop(ex, st, v, i):
                r, n = num(st, v[0])
                ex.oblige(st, zi(n) > 0, "only a vector that is not empty is popped")
                ex.store(st, m, ("ptr",), X.Ptr(r, z3.simplify(r.elem * (zi(n) - 1))), ex.addoff(v[0], 8))

            def resize(ex, st, v, i):
                r, n = num(st, v[0])
                ex.oblige(st, zi(v[1]) <= zi(n), "a vector is only shortened")
                ex.store(st, m, ("ptr",), X.Ptr(r, z3.simplify(r.elem * zi(v[1]))), ex.addoff(v[0], 8))
            ex.contract(rx + r"vector\(\)", empty)
            ex.contract(rx + r"vector\(unsigned long, .*\)", sized)
            ex.contract(rx + r"vector\(std::vector<.*> const&\)", copy)
            ex.contract(rx + r"vector\(std::vector<.*>&&\)", move)
            ex.contract(rx + r"~vector\(\)", reserve)
            ex.contract(rx + r"reserve\(unsigned long\)", reserve)
            ex.contract(rx + r"push_back\(.*\)", push)
            ex.contract(r"(.*& )?" + rx + r"emplace_back<.*>\(.*\)", push)
            ex.contract(rx + r"pop_back\(\)", pop)
            ex.contract(rx + r"resize\(unsigned long\)", resize)

    # --- makers ---
    def made(self, st, t, **fields):
        """A new node of type t, with its value in the contexts of interest."""
        nd = self.nd
        id = self.ex.fresh("made")
        st.assume(z3.And(id > 0, T(id) == N.ty(t)))
        for n, v in fields.items():
            st.assume(fld(self.L["%s.%s" % (t, n)])(id) == v)
        for C in st.ghost.get("CS", ()):
            f = M.value_of(None, self.L, id, t, C)
            if f is not None:
                st.assume(f)
        return id

    def makers(self):
        ex, m = self.ex, self.mod
        nonnull = lambda st, *l: ex.oblige(st, z3.And(*[x != 0 for x in l]), "operands of new nodes are defined")
        for op in N.BIN:
            def f(ex, st, v, i, op=op):
                a, b = hid(v[0]), hid(v[1])
                nonnull(st, a, b)
                if not N.comm(op):
                    return X.NodePtr(self.made(st, op, a=a, b=b))
                id = ex.fresh("made")
                st.assume(z3.And(id > 0, T(id) == N.ty(op)))
                for C in st.ghost.get("CS", ()):
                    st.assume(E(id, C) == operate(op, E(a, C), E(b, C)))
                return X.NodePtr(id)
            ex.contract(r"slinky::%s::make\(slinky::expr, slinky::expr\)" % op, f)

        def not_(ex, st, v, i):
            nonnull(st, hid(v[0]))
            return X.NodePtr(self.made(st, "logical_not", a=hid(v[0])))
        ex.contract(r"slinky::logical_not::make\(slinky::expr\)", not_)

        def select(ex, st, v, i):
            c, t, f = map(hid, v)
            nonnull(st, c, t, f)
            return X.NodePtr(self.made(st, "select", condition=c, true_value=t, false_value=f))
        ex.contract(r"slinky::select::make\(slinky::expr, slinky::expr, slinky::expr\)", select)

        def variable(ex, st, v, i):
            s, f, d = zi(v[0]), zi(v[1]) if len(v) > 1 else I(self.L["field.none"]), zi(v[2]) if len(v) > 2 else I(-1)
            return X.NodePtr(self.made(st, "variable", sym=s, field=f, dim=d))
        ex.contract(r"slinky::variable::make\(slinky::var(, slinky::buffer_field, int)?\)", variable)

        def let(ex, st, v, i):
            r, n = self.num(st, v[0])
            b = hid(v[1])
            nonnull(st, b)
            S_, V_ = (ex.array_term(st, r, k, 8) for k in (0, 8))
            id = ex.fresh("made")
            st.assume(z3.And(id > 0, T(id) == N.ty("let")))
            for C in st.ghost.get("CS", ()):
                st.assume(E(id, C) == E(b, CH(S_, V_, zi(n), C)))
            st.ghost["made"] = (id, S_, V_, zi(n), b)
            return X.NodePtr(id)
        ex.contract(r"slinky::let::make\(std::vector<.*>, slinky::expr\)", let)

        def fcopy(ex, st, v, i):
            if not isinstance(v[1], X.NodePtr) or not X.isc(X.conc(v[1].off)) or v[1].off != self.L["call.target"]:
                raise X.Undecided("a function that is not of a node")
            ex.store(st, m, ("ptr",), v[1], v[0])
        ex.contract(r"std::function<long \(slinky::call const\*, slinky::eval_context&\)>::function\(std::function<.*> const&\)", fcopy)
        ex.contract(r"std::function<long \(slinky::call const\*, slinky::eval_context&\)>::~function\(\)", lambda ex, st, v, i: None)
        ex.contract(r"std::_Function_base::~_Function_base\(\)", lambda ex, st, v, i: None)

        def call(ex, st, v, i):
            r, n = self.num(st, v[-1])
            f = ex.load(st, m, ("ptr",), v[1])
            if not isinstance(f, X.NodePtr):
                raise X.Undecided("a function that is not of a node")
            id = ex.fresh("made")
            st.assume(z3.And(id > 0, T(id) == N.ty("call")))
            st.ghost["made"] = (id, zi(v[0]), zi(f.id), ex.array_term(st, r, 0, 8), zi(n))
            return X.NodePtr(id)
        ex.contract(r"slinky::call::make\(slinky::intrinsic, std::function<.*>, std::vector<.*>\)", call)

    # --- lets ---
    def lets_arrays(self, st):
        """The names and values of the result so far."""
        r = next((r for r in st.mem if r.name == "new lets"), None)
        if r is None:
            return [SYMA(x0), VALA(x0)]
        return [self.ex.array_term(st, r, k, 8) for k in (0, 8)]

    def chain(self, st, i):
        S_, V_ = self.lets_arrays(st)
        return CH(S_, V_, i, CN)

    def lemmas(self, st):
        """Instances of the lemmas for the last entry that has changed."""
        S_, V_ = self.lets_arrays(st)
        out = [CH(S_, V_, I(0), CN) == CN, CH(SYMA(x0), VALA(x0), I(0), self.CO) == self.CO]
        b = st.ghost.get("base")
        if b:
            S0, V0, k = b
            c = CH(S_, V_, k, CN)
            s = z3.Select(S_, k)
            out.append(z3.Implies(z3.And(S_ == z3.Store(S0, k, s), V_ == z3.Store(V0, k, z3.Select(V_, k))), c == CH(S0, V0, k, CN)))
            out.append(z3.Implies(k >= 0, CH(S_, V_, k + 1, CN) == z3.Store(c, s, E(z3.Select(V_, k), c))))
            co = CH(SYMA(x0), VALA(x0), k, self.CO)
            out.append(z3.Implies(k >= 0, CH(SYMA(x0), VALA(x0), k + 1, self.CO) ==
                                  z3.Store(co, z3.Select(SYMA(x0), k), E(z3.Select(VALA(x0), k), co))))
            if self.kind == "var":
                # lets do not bind names that the replacement uses
                v = E(z3.Select(V_, k), c)
                unused = z3.And(*[z3.Not(OCC(q, R0, z3.Store(EMPTY, s, True))) for q in range(NK)])
                out.append(z3.Implies(unused, E(R0, z3.Store(c, s, v)) == E(R0, c)))
        return z3.And(*out)


def handle(st, x, name="handle"):
    h = X.Region(name, 8)
    st.mem[h] = {(0, 8): X.NodePtr(x)}
    return X.Ptr(h)


def visit_spec(mods, kind, t):
    s = S.Spec("%s_substitutor: visit of a node of type %s" % (kind, t), mods, None, prover=N.prover, timeout=8.0)

    def make(ex):
        fn = N.find(mods, r"slinky::expr::accept\(slinky::expr_visitor\*\) const")
        D = Subst(ex, mods, kind)
        if t == "let":
            lets(ex, D)
        if t == "call":
            calls(ex, D)
        loc = {}

        def setup(st):
            D.assumptions(st)
            st.assume(z3.And(x0 > 0, T(x0) == N.ty(t)))
            st.ghost[("type", x0.get_id())] = (t, x0)
            D.nd.axiom(st, x0, t)
            if t == "let":
                st.ghost["let"] = x0
                st.assume(D.lemmas(st))
            if t == "variable" and kind == "var":
                # fields of the target are only replaced by fields of another buffer
                st.assume(z3.Implies(z3.And(fld(D.L["variable.sym"])(x0) == t0, fld(D.L["variable.field"])(x0) != D.L["field.none"]), plain(D.L, R0)))
            if t == "call":
                D.call_domain(st)
            p = D.this(st)
            return [handle(st, x0), p]

        def fin(st, ret):
            r = D.pending(st)
            ex.oblige(st, r != 0, "there is a result", assume=False)
            if t == "call":
                return D.call_result(st, r)
            if t == "let":
                D.let_result(st, r)
            ex.oblige(st, E(r, CN) == E(x0, D.CO), "the result has the value of the original in the context with the replacement", assume=False)
            if t == "variable" and kind == "var":
                p = plain(D.L, x0)
                ex.oblige(st, z3.Implies(p, r == z3.If(fld(D.L["variable.sym"])(x0) == t0, R0, x0)), "only the target is replaced, by the replacement", assume=False)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def lets(ex, D):
    orig = D.nd.element

    def element(st, kd, id, i):
        orig(st, kd, id, i)
        if kd == "lets" and D.kind == "var":
            domain(st, i)

    def domain(st, i):
        s = z3.Select(SYMA(x0), i)
        st.assume(z3.Implies(z3.And(0 <= i, i < NL(x0)), z3.And(s >= 0, s < BIG, z3.Select(VALA(x0), i) > 0, z3.Or(
            s == t0, z3.And(*[z3.Not(OCC(q, R0, z3.Store(EMPTY, s, True))) for q in range(NK)])))))
    D.nd.element = element
    mutate = D.mutate

    def mut(st, this, p):
        if isinstance(p, X.Ptr) and p.region.kind == "array" and p.region.elem == 16:
            i = ex.array_index(st, p.region, p.off)[0]
            if D.kind == "var":
                domain(st, i)
            else:
                orig(st, "lets", x0, i)
        return mutate(st, this, p)
    D.mutate = mut

    def cand(ex, st, f, head, entry):
        out = []
        ps = positions(ex, entry)
        n = NL(x0)

        def add(nm, c):
            def f(ex, s, w):
                s.assume(D.lemmas(s))
                return c(s, w)
            out.append((nm, f))
        for nm, reg, at in ps:
            add("%s is in range" % nm, lambda s, w, at=at: z3.And(at(s, w) >= 0, at(s, w) <= n))
            ca = lambda s, w, at=at: (CH(*D.lets_arrays(s), at(s, w), CN), CH(SYMA(x0), VALA(x0), at(s, w), D.CO))
            add("the contexts after %s lets agree" % nm, lambda s, w, ca=ca: D.old(ca(s, w)[0]) == ca(s, w)[1])
            if D.kind == "var":
                add("the replacement has the same value after %s lets" % nm, lambda s, w, ca=ca: E(R0, ca(s, w)[0]) == E(R0, CN))
            add("the lets from %s on are those of the original" % nm, lambda s, w, at=at: z3.ForAll([jj], z3.Implies(
                z3.And(jj >= at(s, w), jj < n), z3.Select(D.lets_arrays(s)[1], jj) == z3.Select(VALA(x0), jj))))
            add("%s is a flag" % nm, lambda s, w, at=at: z3.And(at(s, w) >= 0, at(s, w) <= 1))
            add("nothing has changed if %s is not set" % nm, lambda s, w, at=at: z3.Implies(at(s, w) == 0, D.lets_arrays(s)[1] == VALA(x0)))
        for a in ps:
            for b in ps:
                if a[0] < b[0]:
                    add("%s == %s" % (a[0], b[0]), lambda s, w, a=a, b=b: a[2](s, w) == b[2](s, w))
        add("the names are those of the original", lambda s, w: D.lets_arrays(s)[0] == SYMA(x0))
        return out
    ex.loop_candidates[r"mutate_let<"] = cand
    ex.loop_candidates[r"substitutor::visit\(slinky::let const\*\)"] = cand
    ex.loop_candidates[r"node_mutator::visit\(slinky::let const\*\)"] = cand

    def result(st, r):
        st.assume(D.lemmas(st))
        n = NL(x0)
        S_, V_ = D.lets_arrays(st)
        if st.ghost.get("body") is None:
            # the rest is left alone from some let on: both contexts are equal there
            k = zi(st.cells(D.ghost)[(0, 8)])
            same = CH(S_, V_, k + 1, CN) == CH(SYMA(x0), VALA(x0), k + 1, D.CO)
            ex.oblige(st, z3.And(k >= 0, k < n), "the lets are only left alone from one of them on")
            ex.oblige(st, same, "where the rest of the lets is left alone, the contexts are the same")
            ex.oblige(st, z3.Implies(z3.And(jj > k, jj < n), z3.And(z3.Select(V_, jj) == z3.Select(VALA(x0), jj), z3.Select(S_, jj) == z3.Select(SYMA(x0), jj))),
                      "the lets from there on are those of the original")
            st.assume(z3.Implies(same, CH(S_, V_, n, CN) == CH(SYMA(x0), VALA(x0), n, D.CO)))
    D.let_result = result


def calls(ex, D):
    L = D.L
    buf = fld(L["call.intrinsic"])(x0) == L["intrinsic.buffer_at"]
    MIN = I(L["field.min"])
    old0 = z3.Select(ARGA(x0), 0)

    def arrays(st):
        r = next((r for r in st.mem if r.name == "new args"), None)
        return None if r is None else ex.array_term(st, r, 0, 8)

    def domain(st):
        # the first argument of buffer_at is the name of a buffer, and is only replaced by another
        st.assume(NARG(x0) < 1 << 31)
        st.assume(z3.Implies(buf, z3.And(NARG(x0) >= 1, old0 > 0, plain(L, old0))))
        st.assume(E(old0, D.CO) == z3.If(plain(L, old0), z3.Select(D.CO, fld(L["variable.sym"])(old0)), E(old0, D.CO)))
        st.assume(z3.Implies(plain(L, old0), E(old0, CN) == z3.Select(CN, fld(L["variable.sym"])(old0))))
        if D.kind == "var":
            st.assume(z3.Implies(z3.And(buf, fld(L["variable.sym"])(old0) == t0), plain(L, R0)))
    D.call_domain = domain

    def val(a, C, b, k):
        """The value of an argument of a buffer_at, which is the min of the dimension if it is not defined."""
        return z3.If(a == 0, VARF(MIN, k - 1, b), E(a, C))

    def cand(ex, st, f, head, entry):
        out = []
        add = lambda nm, c: out.append((nm, lambda ex, s, w, c=c: c(s, w)))
        n = NARG(x0)
        NA = arrays
        base = None
        ps = positions(ex, entry)
        for nm, reg, at in ps:
            add("%s is in range" % nm, lambda s, w, at=at: z3.And(at(s, w) >= 0, at(s, w) <= n))
            add("%s is not 0" % nm, lambda s, w, at=at: at(s, w) >= 1)
            add("the arguments before %s are visited" % nm, lambda s, w, at=at: z3.Implies(z3.And(0 <= jj, jj < at(s, w)), visited(s, jj)))
            add("the first argument before %s is visited" % nm, lambda s, w, at=at: z3.Implies(at(s, w) > 0, first(s)))
            add("%s is a flag" % nm, lambda s, w, at=at: z3.And(at(s, w) >= 0, at(s, w) <= 1))
            for nm2, _, at2 in ps:
                if nm != nm2:
                    for q in (jj, I(0)):
                        add("nothing has changed at %s before %s if %s is not set" % (q, nm, nm2), lambda s, w, at=at, at2=at2, q=q: z3.Implies(
                            z3.And(at2(s, w) == 0, 0 <= q, q < at(s, w)), z3.Select(NA(s), q) == z3.Select(ARGA(x0), q)))
                if nm < nm2:
                    add("%s == %s" % (nm, nm2), lambda s, w, at=at, at2=at2: at(s, w) == at2(s, w))
            add("if %s is not set all arguments are there" % nm, lambda s, w, at=at: z3.Implies(at(s, w) == 0, size(s) == n))
            for q in (jj, I(0)):
                add("nothing has changed at %s if %s is not set" % (q, nm), lambda s, w, at=at, q=q: z3.Implies(
                    z3.And(at(s, w) == 0, 0 <= q, q < n), z3.Select(NA(s), q) == z3.Select(ARGA(x0), q)))
        add("all arguments are there", lambda s, w: size(s) == n)
        add("there are no more arguments", lambda s, w: z3.And(size(s) >= 0, size(s) <= n))
        add("there is the first argument", lambda s, w: size(s) >= 1)
        add("the arguments are visited", lambda s, w: z3.Implies(z3.And(0 <= jj, jj < size(s)), visited(s, jj)))
        add("the first argument is visited", lambda s, w: first(s))
        add("the arguments of buffer_at have their values", lambda s, w: z3.Implies(z3.And(1 <= jj, jj < size(s)), bval(s, jj)))
        add("the arguments that are removed are the min", lambda s, w: z3.Implies(z3.And(jj >= size(s), jj < n, 1 <= jj), omitted(jj)))
        return out
    for rx in (r"substitutor::visit\(slinky::call const\*\)", r"node_mutator::visit\(slinky::call const\*\)"):
        ex.loop_candidates[rx] = cand

    def size(st):
        r = next((r for r in st.mem if r.name == "new args"), None)
        o = r.owner
        e = st.cells(o[0]).get((o[1] + 8, 8))
        return ex.array_index(st, r, e.off)[0] if isinstance(e, X.Ptr) else I(-1)

    def visited(st, k):
        a, b = z3.Select(arrays(st), k), z3.Select(ARGA(x0), k)
        return z3.And(a >= 0, (a == 0) == (b == 0), z3.Implies(b != 0, E(a, CN) == E(b, D.CO)))

    def first(st):
        a = z3.Select(arrays(st), 0)
        l = [visited(st, I(0)), a >= 0]
        if D.kind == "var":
            l.append(z3.Implies(z3.And(old0 != 0, plain(L, old0)), a == z3.If(fld(L["variable.sym"])(old0) == t0, R0, old0)))
        return z3.And(*l)

    def bval(st, k):
        b = E(old0, D.CO)
        a = z3.Select(arrays(st), k)
        return z3.And(a >= 0, val(a, CN, b, k) == val(z3.Select(ARGA(x0), k), D.CO, b, k))

    def omitted(k):
        b = E(old0, D.CO)
        return val(z3.Select(ARGA(x0), k), D.CO, b, k) == VARF(MIN, k - 1, b)

    def is_variable(ex, st, v, i):
        e = hid(v[0])
        ok = z3.And(e != 0, T(e) == N.ty("variable"), fld(L["variable.sym"])(e) == zi(v[1]), fld(L["variable.field"])(e) == zi(v[2]),
                    fld(L["variable.dim"])(e) == zi(v[3]))
        st.assume(z3.Implies(ok, E(e, CN) == VARF(fld(L["variable.field"])(e), fld(L["variable.dim"])(e), z3.Select(CN, fld(L["variable.sym"])(e)))))
        return z3.simplify(ok)
    ex.contract(r"slinky::is_variable\(slinky::expr_ref, slinky::var, slinky::buffer_field, int\)", is_variable)

    def result(st, r):
        m = st.ghost.get("made")
        n = NARG(x0)
        # a call is a function of what is called and the values of the arguments
        if m is None:
            ex.oblige(st, r == x0, "the result is a call", assume=False)
            A_, k = ARGA(x0), n
        else:
            ex.oblige(st, r == m[0], "the result is the new call", assume=False)
            ex.oblige(st, z3.And(m[1] == fld(L["call.intrinsic"])(x0), m[2] == x0), "the same function is called", assume=False)
            A_, k = m[3], m[4]
        a, b = z3.Select(A_, jj), z3.Select(ARGA(x0), jj)
        ex.oblige(st, z3.Implies(z3.Not(buf), k == n), "there are as many arguments", assume=False)
        ex.oblige(st, z3.Implies(z3.And(z3.Not(buf), 0 <= jj, jj < n), z3.And((a == 0) == (b == 0), z3.Implies(b != 0, E(a, CN) == E(b, D.CO)))),
                  "the arguments have the values of the originals", assume=False)
        a0 = z3.Select(A_, 0)
        ex.oblige(st, z3.Implies(buf, z3.And(k >= 1, k <= n, a0 != 0, E(a0, CN) == E(old0, D.CO))), "the buffer is that of the original", assume=False)
        eb = E(old0, D.CO)
        ex.oblige(st, z3.Implies(z3.And(buf, 1 <= jj, jj < n), z3.If(jj < k, val(a, CN, eb, jj), VARF(MIN, jj - 1, eb)) == val(b, D.CO, eb, jj)),
                  "the coordinates are those of the original", assume=False)
    D.call_result = result


def mutate_spec(mods, kind):
    """mutate: undefined stays undefined, others are visited according to their type."""
    s = S.Spec("%s_substitutor::mutate" % kind, mods, None, prover=N.prover, timeout=8.0)

    def make(ex):
        D = Subst(ex, mods, kind, own=("mutate",))
        if kind == "var":
            fn = N.find(mods, r"slinky::node_mutator::mutate\(slinky::expr const&\)")
        else:
            fn = N.find(mods, SUB + r"expr_substitutor::mutate\(slinky::expr const&\)")
            # the base class on a node that is not the target
            ex.contract(r"slinky::node_mutator::mutate\(slinky::expr const&\)", lambda ex, st, v, i: D.mutate(st, v[0], v[1]))

            def match(ex, st, v, i):
                a, b = hid(v[1]), hid(v[2])
                r = ex.freshb("same")
                st.assume(z3.Implies(r, z3.And((a == 0) == (b == 0), z3.Implies(a != 0, E(a, CN) == E(b, CN)))))
                return r
            ex.contract(M.MT + r"try_match\(%s const\*, %s const\*\)" % (N.NODE, N.NODE), match)
            ex.contract(M.MT + r"~?matcher\(\)", lambda ex, st, v, i: None)
        visits(ex, D)

        def setup(st):
            D.assumptions(st)
            st.assume(x0 >= 0)
            D.nd.kinds_if(st, x0)
            if kind == "expr":
                st.assume(E(A0, CN) == E(B0, CN))
            p = D.this(st)
            return [p, handle(st, x0)]

        def fin(st, ret):
            D.promised(st, x0, hid(ret), "")
            ex.oblige(st, D.pending(st) == 0, "no result is left pending", assume=False)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def visits(ex, D):
    def visit(st, this, id, t=None):
        if not isinstance(this, X.Ptr) or this.region is not D.obj:
            raise X.Undecided("another substitutor")
        ex.oblige(st, z3.And(id > 0, D.pending(st) == 0), "no result is pending when a node is visited")
        if t:
            ex.oblige(st, T(id) == N.ty(t), "the visit fits the type of the node")
        r = ex.fresh("visited")
        D.promise(st, id, r, [CN])
        ex.store(st, D.mod, ("ptr",), X.NodePtr(r), X.Ptr(D.obj, D.o_e))
    ex.contract(r"slinky::expr::accept\(slinky::expr_visitor\*\) const", lambda ex, st, v, i: visit(st, v[1], hid(ex.load(st, D.mod, ("ptr",), v[0]))))
    for t in N.TYPES:
        ex.contract(r"slinky::(\(anonymous namespace\)::var_substitutor|substitutor|node_mutator)::visit\(slinky::%s const\*\)" % t,
                    lambda ex, st, v, i, t=t: visit(st, v[0], hid(v[1]), t))


def interval_spec(mods, kind):
    s = S.Spec("%s_substitutor::mutate(interval)" % kind, mods, None, prover=N.prover, timeout=8.0)

    def make(ex):
        fn = N.find(mods, r"slinky::node_mutator::mutate\(slinky::interval_expr const&\)")
        D = Subst(ex, mods, kind)
        loc = {}

        def setup(st):
            D.assumptions(st)
            p = D.this(st)
            r, x, ends = ends_of(st, D, "interval", ("min", "max"))
            loc.update(ends=ends)
            return [p, X.Ptr(x)]

        def fin(st, ret):
            for e, r in zip(loc["ends"], ret.v):
                D.promised(st, e, hid(r), " (%s)" % e)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst", "interval")
    return s


def ends_of(st, D, name, parts):
    x, r = X.Region(name, 8 * len(parts)), X.Region("result", 8 * len(parts))
    ends = [z3.Int(p) for p in parts]
    for e in ends:
        st.assume(e >= 0)
        D.nd.kinds_if(st, e)
    st.mem[x] = {(8 * k, 8): X.NodePtr(e) for k, e in enumerate(ends)}
    st.mem[r] = {}
    return r, x, ends


def substitute_spec(mods, what):
    kind = "expr" if what == "target" else "var"
    s = S.Spec({"expr": "substitute(expr, var, expr)", "interval_expr": "substitute(interval, var, expr)", "dim_expr": "substitute(dim, var, expr)",
                "target": "substitute(expr, expr, expr)"}[what], mods, None, prover=N.prover, timeout=8.0)

    def make(ex):
        D = Subst(ex, mods, kind)
        if what == "target":
            fn = N.find(mods, r"slinky::substitute\(slinky::expr const&, slinky::expr const&, slinky::expr const&\)")
        else:
            fn = N.find(mods, r"slinky::substitute\(slinky::%s const&, slinky::var, slinky::expr const&\)" % what)
        ex.contract(r"slinky::\(anonymous namespace\)::(var|expr)_substitutor::~(var|expr)_substitutor\(\)", lambda ex, st, v, i: None)
        ex.contract(r"slinky::(node_mutator|substitutor|stmt_mutator)::~(node_mutator|substitutor|stmt_mutator)\(\)", lambda ex, st, v, i: None)

        def interval(ex, st, v, i):
            # the contract of the ends
            return X.Agg([D.mutate(st, v[0], ex.addoff(v[1], k)) for k in (0, 8)])
        ex.contract(r"slinky::node_mutator::mutate\(slinky::interval_expr const&\)", interval)
        loc = {}

        def setup(st):
            D.assumptions(st)
            D.obj = None
            st.mem[D.ghost] = {(0, 8): I(-1)}
            if what == "target":
                st.assume(E(A0, CN) == E(B0, CN))
            if what in ("expr", "target"):
                st.assume(x0 >= 0)
                D.nd.kinds_if(st, x0)
                h = handle(st, x0)
                if what == "target":
                    return [h, handle(st, A0, "target"), handle(st, B0, "replacement")]
                return [h, t0, handle(st, R0, "replacement")]
            r, x, ends = ends_of(st, D, what, ("min", "max") if what == "interval_expr" else ("min", "max", "stride", "fold_factor"))
            loc.update(r=r, ends=ends)
            return ([] if what == "interval_expr" else [X.Ptr(r)]) + [X.Ptr(x), t0, handle(st, R0, "replacement")]

        def fin(st, ret):
            if what in ("expr", "target"):
                return D.promised(st, x0, hid(ret), "", False)
            for k, e in enumerate(loc["ends"]):
                r = ret.v[k] if what == "interval_expr" else ex.load(st, D.mod, ("ptr",), X.Ptr(loc["r"], 8 * k))
                D.promised(st, e, hid(r), " (%s)" % e, False)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",) if what in ("expr", "target") else ("subst", "interval")
    return s


def is_variable_spec(es):
    s = S.Spec("is_variable(expr, var, field, dim)", [es], None, prover=N.prover, timeout=8.0)

    def make(ex):
        fn = N.find([es], r"slinky::is_variable\(slinky::expr_ref, slinky::var, slinky::buffer_field, int\)")
        nd = M.Model(ex, es)
        ex.node_cmp = None
        sym, f, d = z3.Ints("sym field dim")

        def setup(st):
            st.assume(x0 >= 0)
            nd.kinds_if(st, x0)
            return [X.NodePtr(x0), sym, f, d]

        def fin(st, ret):
            L = nd.L
            ex.oblige(st, X.zb(ex.to_bool(ret)) == z3.And(x0 != 0, T(x0) == N.ty("variable"), fld(L["variable.sym"])(x0) == sym,
                                                          fld(L["variable.field"])(x0) == f, fld(L["variable.dim"])(x0) == d), "true iff it is that variable", assume=False)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def specs(sub, nm, es=None):
    mods = [sub, nm]
    out = []
    for kind in ("var", "expr"):
        for t in N.TYPES:
            out.append(visit_spec(mods, kind, t))
        out += [mutate_spec(mods, kind), interval_spec(mods, kind)]
    out += [substitute_spec(mods, w) for w in ("expr", "interval_expr", "dim_expr", "target")]
    if es is not None:
        out.append(is_variable_spec(es))
    return out


def lemma_obligations(L):
    """The lemmas on contexts after lets, by induction over the number of lets."""
    S1, V1, S2, V2 = (z3.Const(n, ARR) for n in ("S1", "V1", "S2", "V2"))
    C, D = z3.Const("C", ARR), z3.Const("D", ARR)
    i, k, s, v = z3.Ints("i k s v")
    step = lambda S_, V_, i, C: CH(S_, V_, i + 1, C) == z3.Store(CH(S_, V_, i, C), z3.Select(S_, i), E(z3.Select(V_, i), CH(S_, V_, i, C)))
    out = []
    # an entry at k does not change the contexts up to k
    S_, V_ = z3.Store(S1, k, s), z3.Store(V1, k, v)
    out.append(("lemma: contexts only depend on the lets before (start)", [CH(S_, V_, I(0), C) == C, CH(S1, V1, I(0), C) == C], CH(S_, V_, I(0), C) == CH(S1, V1, I(0), C)))
    out.append(("lemma: contexts only depend on the lets before (step)", [i >= 0, i < k, step(S_, V_, i, C), step(S1, V1, i, C), CH(S_, V_, i, C) == CH(S1, V1, i, C)],
                CH(S_, V_, i + 1, C) == CH(S1, V1, i + 1, C)))
    # from equal contexts on, equal lets lead to equal contexts
    eq = CH(S1, V1, i, C) == CH(S2, V2, i, D)
    out.append(("lemma: equal lets keep contexts equal (step)", [i >= k, eq, z3.Select(S1, i) == z3.Select(S2, i), z3.Select(V1, i) == z3.Select(V2, i), step(S1, V1, i, C), step(S2, V2, i, D)],
                CH(S1, V1, i + 1, C) == CH(S2, V2, i + 1, D)))
    # names that do not occur may be bound: an instance of the lemma on values (deps)
    G = z3.Store(EMPTY, s, True)
    j = z3.Int("j")
    agree = lambda C, D: z3.ForAll([j], z3.Or(z3.Select(G, j), z3.Select(C, j) == z3.Select(D, j)))
    B = z3.Store(C, s, v)
    unused = z3.And(*[z3.Not(OCC(q, R0, G)) for q in range(NK)])
    out.append(("lemma: a name that does not occur may be bound", [unused, z3.Implies(z3.And(unused, agree(B, C)), E(R0, B) == E(R0, C))], E(R0, B) == E(R0, C)))
    return out
