"""Contracts of the queries of what an expression depends on (runtime/depends_on.cc): C12.

OCC(k, e, G): flag k of a result is due to some name of the set G that occurs free in e (k = 8: e is not pure). The visitor is executed
for a node of each type, with the visits of its operands by contract: each flag of the result of interest is what it was, or due to
OCC(k, e, RS(F)). F maps names to the addresses of the results of their uses: F = FF(names, addresses, n), the last of n entries decides.
RS(F) is the set of names whose uses are noted in the result of interest. Lemmas: the value of an expression does not depend on names
that do not occur in it (by induction over its structure)."""
import re
import z3
from . import ex as X, spec as S, nodes as N, match as M
from .nodes import I, Z, zi, T, fld, NARG, hid
from .match import ARR, E as VAL, SYMA, VALA, ARGA, NL, CH, BIG

SET = z3.ArraySort(Z, z3.BoolSort())
OCC = z3.Function("OCC", Z, Z, SET, z3.BoolSort())
OL = z3.Function("OCC_lets", Z, Z, Z, SET, z3.BoolSort())
OA = z3.Function("OCC_args", Z, Z, Z, SET, z3.BoolSort())
GC = z3.Function("G_lets", Z, Z, SET, SET)
FF = z3.Function("FF", ARR, ARR, Z, ARR)
RS = z3.Function("RS", ARR, SET)
MAPF = z3.Function("MAPF", Z, Z)
FLAGS = ("var", "buffer_input", "buffer_output", "buffer_src", "buffer_dst", "buffer_base", "buffer_dims", "buffer_bounds")
NK = len(FLAGS)
PURE = NK
DT = r"slinky::\(anonymous namespace\)::dependencies::"
VEC = r"std::vector<std::pair<slinky::var, slinky::depends_on_result\*>, .*>::"
RVEC = r"std::vector<std::pair<slinky::var, slinky::depends_on_result&>, .*>::"
UNDEF = -1
EMPTY = z3.K(Z, z3.BoolVal(False))
j = z3.Int("j")
e0 = z3.Int("e")


def leaf(L, k, field):
    """The flags of a use of a field of a buffer, or of a variable."""
    f = lambda *n: z3.Or(*[field == L["field." + x] for x in n])
    if k == PURE:
        return field != L["field.none"]
    return {"var": f("none", "rank", "elem_size", "size_bytes"), "buffer_dims": f("min", "max", "stride", "fold_factor"),
            "buffer_bounds": f("min", "max")}.get(FLAGS[k], z3.BoolVal(False))


def base_flag(k):
    return k == PURE or FLAGS[k] in ("buffer_base", "buffer_dims", "buffer_bounds")


def step_let(k, id, i, G):
    g = GC(id, i, G)
    return z3.And(OL(k, id, i + 1, G) == z3.Or(OL(k, id, i, G), OCC(k, z3.Select(VALA(id), i), g)),
                  GC(id, i + 1, G) == z3.Store(g, z3.Select(SYMA(id), i), False))


def step_arg(k, id, i, G):
    a = z3.Select(ARGA(id), i)
    return OA(k, id, i + 1, G) == z3.Or(OA(k, id, i, G), z3.And(a > 0, OCC(k, a, G)))


def occ_axioms(L, k, id, t, G):
    """What OCC is for a node of type t."""
    c = lambda n: fld(L["%s.%s" % (t, n)])(id)
    o = OCC(k, id, G)
    none = z3.BoolVal(False)
    if t in N.BIN:
        return [o == z3.Or(OCC(k, c("a"), G), OCC(k, c("b"), G))]
    if t == "logical_not":
        return [o == OCC(k, c("a"), G)]
    if t == "select":
        return [o == z3.Or(OCC(k, c("condition"), G), OCC(k, c("true_value"), G), OCC(k, c("false_value"), G))]
    if t == "constant":
        return [o == none]
    if t == "variable":
        x = leaf(L, k, c("field"))
        return [o == (x if k == PURE else z3.And(z3.Select(G, c("sym")), x))]
    if t == "let":
        return [GC(id, I(0), G) == G, OL(k, id, I(0), G) == none, o == z3.Or(OL(k, id, NL(id), G), OCC(k, c("body"), GC(id, NL(id), G)))]
    # the first argument of buffer_at is the name of a buffer
    buf = c("intrinsic") == L["intrinsic.buffer_at"]
    first = z3.Select(ARGA(id), 0)
    b = z3.BoolVal(base_flag(k)) if k == PURE else z3.And(z3.Select(G, fld(L["variable.sym"])(first)), z3.BoolVal(base_flag(k)))
    return [z3.Implies(buf, z3.And(NARG(id) >= 1, first > 0, T(first) == N.ty("variable"), fld(L["variable.field"])(first) == L["field.none"])),
            z3.Implies(z3.Not(buf), OA(k, id, I(0), G) == none), z3.Implies(buf, OA(k, id, I(1), G) == b), o == OA(k, id, NARG(id), G)]


class Deps:
    """The visitor in memory, and contracts of what it uses."""
    def __init__(self, ex, mods):
        self.ex, self.mods, self.mod = ex, mods, mods[0]
        ex.node_cmp = None
        self.nd = M.Model(ex, self.mod)
        ex.node_copy = self.node_copy
        self.L = self.nd.L
        n = next((n for n in self.mod.raw_types if n.strip('%"') == "class.slinky::(anonymous namespace)::dependencies"), None)
        if n is None:
            raise X.Undecided("type dependencies not found")
        offs = self.mod.layout(("named", n))[2]
        if len(offs) != 5:
            raise X.Undecided("layout of dependencies")
        self.o_pure, self.o_vec, self.o_dummy, self.o_unknown = offs[1:]
        self.size = self.mod.size(("named", n))
        self.TA, self.RA, self.UNK = z3.Ints("this_address result_address unknown_deps")
        self.DN, self.DP = z3.Array("names", Z, Z), z3.Array("results", Z, Z)
        self.n = z3.Int("n")
        self.ghost = X.Region("ghost", 8)
        orig = self.nd.axiom

        def axiom(st, id, t):
            orig(st, id, t)
            for G in st.ghost.get("GS", ()):
                for k in range(NK + 1):
                    for f in occ_axioms(self.L, k, id, t, G):
                        st.assume(f)
        self.nd.axiom = axiom
        elem = self.nd.element

        def element(st, kind, id, i):
            elem(st, kind, id, i)
            n = NL(id) if kind == "lets" else NARG(id)
            for G in st.ghost.get("GS", ()):
                for k in range(NK + 1):
                    st.assume(z3.Implies(z3.And(0 <= i, i < n), (step_let if kind == "lets" else step_arg)(k, id, i, G)))
        self.nd.element = element

    def node_copy(self, st, dst, src, n):
        if n % 8:
            raise X.Undecided("memcpy from a node")
        for o in range(0, n, 8):
            self.ex.put(st, dst.region, X.conc(dst.off) + o, 8, self.nd.load(st, self.mod, self.ex.addoff(src, o), ("i", 64)))

    # objects
    def result(self, st):
        r = X.Region("result", NK)
        r.addressed, r.addr = True, self.RA
        self.R0 = [z3.Int("flag_" + f) for f in FLAGS]
        for v in self.R0:
            st.assume(z3.And(v >= 0, v <= 1))
        st.mem[r] = {(k, 1): v for k, v in enumerate(self.R0)}
        st.assume(z3.And(self.RA > 0))
        self.R = r
        return r

    def flag(self, st, k, r=None):
        return X.zb(self.ex.to_bool(self.ex.load(st, self.mod, ("i", 8), X.Ptr(r or self.R, k))))

    def vector(self, st, DN, DP, n):
        v = X.Region("var_deps", None, "array", 16)
        st.mem[v] = {(0, 8): DN, (8, 8): DP}

        def access(ex, st, i, f, size):
            if not ex.dry:
                ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < self.num(st)), "the names are accessed within bounds")
            dn, dp = self.arrays(st)
            st.assume(FF(dn, dp, i + 1) == z3.Store(FF(dn, dp, i), z3.Select(dn, i), z3.Select(dp, i)))
            self.rs(st, FF(dn, dp, i), z3.Select(dn, i), z3.Select(dp, i))
        v.on_access = access
        self.V = v
        return v

    def this(self, st):
        """The visitor with n names whose results are at given addresses."""
        ex = self.ex
        r = X.Region("this", self.size)
        r.addressed, r.addr = True, self.TA
        v = self.vector(st, self.DN, self.DP, self.n)
        self.init_object(st, r, z3.Int("is_pure"), self.UNK)
        st.assume(z3.And(self.n >= 0, self.n < BIG, self.TA > 0, self.UNK >= 0, self.RA > 0))
        st.assume(z3.Or(self.RA + NK <= self.TA, self.RA >= self.TA + self.size))
        c = st.wcells(r)
        st.assume(z3.And(c[(self.o_pure, 1)] >= 0, c[(self.o_pure, 1)] <= 1))
        c[(self.o_vec, 8)], c[(self.o_vec + 8, 8)], c[(self.o_vec + 16, 8)] = X.Ptr(v), X.Ptr(v, 16 * self.n), X.Ptr(v, 16 * z3.Int("capacity"))
        st.mem[self.ghost] = {(0, 8): self.n}
        self.pure0 = self.pure(st)
        self.F0 = FF(self.DN, self.DP, self.n)
        self.G0 = RS(self.F0)
        st.ghost["GS"] = [self.G0]
        self.obj = r
        return X.Ptr(r)

    def init_object(self, st, r, pure, unknown):
        vt = next(n for n in self.mod.raw_globals if n.startswith("@_ZTV") and n.endswith("dependenciesE"))
        st.mem.setdefault(r, {})
        c = st.wcells(r)
        c[(0, 8)] = X.Ptr(self.ex.global_ptr(self.mod, vt).region, 16)
        c[(self.o_pure, 1)] = pure
        for k in range(NK):
            v = z3.Int("dummy%d" % k)
            c[(self.o_dummy + k, 1)] = v
            st.assume(z3.And(v >= 0, v <= 1))
        c[(self.o_unknown, 8)] = X.NodePtr(unknown)

    def pure(self, st):
        return X.zb(self.ex.to_bool(self.ex.load(st, self.mod, ("i", 8), X.Ptr(self.obj_of(st), self.o_pure))))

    def obj_of(self, st):
        return self.obj if hasattr(self, "obj") else next(r for r in st.mem if r.name == "this")

    def num(self, st):
        return zi(st.cells(self.ghost)[(0, 8)])

    def arrays(self, st):
        c = st.cells(self.V)
        return c[(0, 8)], c[(8, 8)]

    def F(self, st):
        return FF(*self.arrays(st), self.num(st))

    def rs(self, st, F, s, p):
        """What the set of names is after an entry, and what membership means."""
        st.assume(RS(z3.Store(F, s, p)) == z3.Store(RS(F), s, p == self.RA))

    def addr(self, p):
        return zi(self.ex.address(p))

    # contracts
    def visits(self):
        ex = self.ex

        def effect(st, id, p):
            o = self.obj
            if not isinstance(p, X.Ptr) or p.region is not o or X.conc(p.off) != 0:
                raise X.Undecided("an expression is visited by another visitor")
            ex.oblige(st, id > 0, "expressions that are visited are defined")
            G = RS(self.F(st))
            for k in range(NK):
                ex.put(st, self.R, k, 1, z3.If(z3.Or(self.flag(st, k), OCC(k, id, G)), I(1), I(0)))
                v = ex.fresh("dummy")
                st.assume(z3.And(v >= 0, v <= 1))
                ex.put(st, o, self.o_dummy + k, 1, v)
            ex.put(st, o, self.o_pure, 1, z3.If(z3.And(self.pure(st), z3.Not(OCC(PURE, id, G))), I(1), I(0)))

        def handle(ex, st, v, i):
            effect(st, hid(ex.load(st, self.mod, ("ptr",), v[0])), v[1])
        ex.contract(r"slinky::expr::accept\(slinky::expr_visitor\*\) const", handle)
        ex.contract(r"slinky::expr_ref::accept\(slinky::expr_visitor\*\) const", handle)

    def queries(self):
        ex = self.ex

        def find(ex, st, v, i):
            s = zi(v[1])
            F = self.F(st)
            a = z3.Select(F, s)
            self.member(st, F, s)
            other = X.Region("result of another name", NK)
            st.mem[other] = {}
            out = []
            dummy = self.TA + self.o_dummy
            for cond, p in ((z3.Or(s == UNDEF, a == 0), X.NULL), (z3.And(s != UNDEF, a == self.RA), X.Ptr(self.R)),
                            (z3.And(s != UNDEF, a == dummy), X.Ptr(self.obj, self.o_dummy)),
                            (z3.And(s != UNDEF, a != 0, a != self.RA, a != dummy), X.Ptr(other))):
                c = st.fork()
                c.assume(cond)
                out.append((c, p))
            return out
        ex.contract(DT + r"find_deps\(slinky::var\)", find)

        def shadow(ex, st, v, i):
            s = zi(v[1])
            F = self.F(st)
            self.member(st, F, s)
            b = z3.Bool("shadow!%d" % next(ex.fresh_n))
            st.assume(z3.Implies(z3.Not(b), z3.Or(z3.Select(F, s) == 0, z3.Select(F, s) == self.TA + self.o_dummy)))
            return b
        ex.contract(DT + r"decl_needs_shadow\(slinky::var\) const", shadow)

    def member(self, st, F, s):
        st.assume(z3.Select(RS(F), s) == (z3.Select(F, s) == self.RA))
        st.assume(z3.Select(F, s) >= 0)

    def growth(self, vec=VEC):
        """Contracts of the vector of names."""
        ex = self.ex

        def push(ex, st, v, i):
            s = zi(ex.load(st, self.mod, ("i", 64), v[1]))
            p = self.addr(ex.load(st, self.mod, ("ptr",), ex.addoff(v[1], 8)))
            (dn, dp), n = self.arrays(st), self.num(st)
            F = FF(dn, dp, n)
            dn2, dp2 = z3.Store(dn, n, s), z3.Store(dp, n, p)
            st.assume(FF(dn2, dp2, n + 1) == z3.Store(F, s, p))
            self.rs(st, F, s, p)
            for m in st.ghost.get("marks", ()):
                st.assume(z3.Implies(m <= n, FF(dn2, dp2, m) == FF(dn, dp, m)))
            c = st.wcells(self.V)
            c[(0, 8)], c[(8, 8)] = dn2, dp2
            if st.writes is not None:
                st.writes.add((self.V, (0, 8)))
                st.writes.add((self.V, (8, 8)))
            ex.put(st, self.ghost, 0, 8, n + 1)
        ex.contract(vec + r"push_back\(.*\)", push)
        ex.contract(vec + r"size\(\) const", lambda ex, st, v, i: self.num(st))
        ex.contract(vec + r"reserve\(unsigned long\)", lambda ex, st, v, i: None)

        def resize(ex, st, v, i):
            ex.oblige(st, z3.And(zi(v[1]) >= 0, zi(v[1]) <= self.num(st)), "names are only removed")
            ex.put(st, self.ghost, 0, 8, zi(v[1]))
        ex.contract(vec + r"resize\(unsigned long\)", resize)

    def frame(self, st):
        ex = self.ex
        dn, dp = self.arrays(st)
        ex.oblige(st, self.num(st) == self.n, "the names in scope are what they were", assume=False)
        ex.oblige(st, z3.Implies(z3.And(0 <= j, j < self.n), z3.And(z3.Select(dn, j) == z3.Select(self.DN, j), z3.Select(dp, j) == z3.Select(self.DP, j))),
                  "the names in scope are what they were", assume=False)

    def outcome(self, st, id, G=None):
        ex = self.ex
        G = self.G0 if G is None else G
        for k in range(NK):
            ex.oblige(st, self.flag(st, k) == z3.Or(self.R0[k] != 0, OCC(k, id, G)), "%s is noted iff a name is used so" % FLAGS[k], assume=False)
        ex.oblige(st, self.pure(st) == z3.And(self.pure0, z3.Not(OCC(PURE, id, G))), "is_pure iff nothing that may change is used", assume=False)


def positions(ex, entry):
    """The variables of a loop that are an index: (name, index of the current values)."""
    out = []
    for n, v in entry.items():
        if isinstance(v, X.Ptr) and v.region.kind == "array":
            out.append((n, v.region, lambda s, w, n=n: ex.array_index(s, w[n].region, w[n].off)[0]))
        elif isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool):
            out.append((n, None, lambda s, w, n=n: zi(w[n])))
    return out


def accept_spec(mods, t, entry):
    """A node of type t is visited."""
    s = S.Spec("dependencies: %s on a node of type %s" % (entry, t), mods, None, prover=N.prover, timeout=8.0)

    def make(ex):
        fn = N.find(mods, r"slinky::%s::accept\(slinky::expr_visitor\*\) const" % entry)
        D = Deps(ex, mods)
        D.visits()
        D.queries()
        D.growth()
        cand = loops(ex, D)
        ex.loop_candidates[DT] = cand
        ex.loop_candidates[r"(void )?" + DT] = cand
        ex.loop_candidates[r"slinky::recursive_node_visitor::"] = cand

        def setup(st):
            D.result(st)
            p = D.this(st)
            st.assume(z3.And(e0 > 0, T(e0) == N.ty(t)))
            st.ghost[("type", e0.get_id())] = (t, e0)
            D.nd.axiom(st, e0, t)
            st.ghost["marks"] = [D.n]
            h = X.Region("handle", 8)
            st.mem[h] = {(0, 8): X.NodePtr(e0)}
            return [X.Ptr(h), p]

        def fin(st, ret):
            D.outcome(st, e0)
            D.frame(st)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def loops(ex, D):
    def cand(ex, st, f, head, entry):
        out = []
        G = D.G0
        for n, reg, at in positions(ex, entry):
            kind = getattr(reg, "kind_", None)
            if kind is None and reg is not None:
                continue
            num = {"lets": NL(e0), "args": NARG(e0)}.get(kind, z3.If(T(e0) == N.ty("let"), NL(e0), NARG(e0)))
            out.append(("%s is in range" % n, lambda ex, s, w, at=at, num=num: z3.And(at(s, w) >= 0, at(s, w) <= num)))
            out.append(("%s is past the first" % n, lambda ex, s, w, at=at: at(s, w) >= 1))
            for kd, O in (("lets", OL), ("args", OA)):
                if kind not in (None, kd):
                    continue
                for k in range(NK + 1):
                    def noted(ex, s, w, at=at, O=O, k=k):
                        o = O(k, e0, at(s, w), G)
                        if k == PURE:
                            return D.pure(s) == z3.And(D.pure0, z3.Not(o))
                        return D.flag(s, k) == z3.Or(D.R0[k] != 0, o)
                    out.append(("flag %d is of the first %s %s" % (k, n, kd), noted))
            if kind in (None, "lets"):
                out.append(("the names in scope are those after %s lets" % n, lambda ex, s, w, at=at: RS(D.F(s)) == GC(e0, at(s, w), G)))
        out.append(("no names are removed", lambda ex, s, w: D.num(s) >= D.n))
        out.append(("the names before are as they were", lambda ex, s, w: z3.Implies(z3.And(0 <= j, j < D.n), z3.And(
            z3.Select(D.arrays(s)[0], j) == z3.Select(D.DN, j), z3.Select(D.arrays(s)[1], j) == z3.Select(D.DP, j)))))
        out.append(("the results before are as they were", lambda ex, s, w: FF(*D.arrays(s), D.n) == D.F0))
        return out
    return cand


def search_spec(mods, name):
    """find_deps: the last entry of the name decides. decl_needs_shadow: what is not shadowed is not noted anywhere but in the dummy."""
    s = S.Spec("dependencies::" + name, mods, None, prover=N.prover, timeout=8.0)

    def make(ex):
        fn = N.find(mods, DT + name + r"\(slinky::var\)( const)?")
        D = Deps(ex, mods)
        x = z3.Int("s")
        ex.contract(r"std::map<slinky::var, slinky::depends_on_result, .*>::operator\[\]\(.*\)",
                    lambda ex, st, v, i: X.NodePtr(MAPF(zi(ex.load(st, mods[0], ("i", 64), v[1])))))

        def cand(ex, st, f, head, entry):
            out = []
            for n, reg, at in positions(ex, entry):
                if reg is not D.V:
                    continue
                out.append(("%s is in range" % n, lambda ex, s, w, at=at: z3.And(at(s, w) >= 0, at(s, w) <= D.n)))
                out.append(("the name is not among those from %s on" % n, lambda ex, s, w, at=at: z3.Select(D.F0, x) == z3.Select(FF(D.DN, D.DP, at(s, w)), x)))
            return out
        ex.loop_candidates[DT] = cand
        ex.loop_candidates[r"(bool )?" + DT] = cand

        def setup(st):
            D.result(st)
            p = D.this(st)
            st.assume(z3.Or(x == UNDEF, z3.And(x >= 0, x < BIG)))
            st.assume(z3.And(MAPF(x) > 0, MAPF(x) != D.TA + D.o_dummy))
            st.assume(z3.Select(FF(D.DN, D.DP, I(0)), x) == z3.If(D.UNK == 0, I(0), MAPF(x)))
            return [p, x]

        def fin(st, ret):
            a = z3.Select(D.F0, x)
            if name == "find_deps":
                ex.oblige(st, zi(ex.address(ret)) == z3.If(x == UNDEF, I(0), a), "the result of the last entry of the name is found", assume=False)
            else:
                ex.oblige(st, z3.Implies(z3.And(x != UNDEF, z3.Not(X.zb(ex.to_bool(ret)))), z3.Or(a == 0, a == D.TA + D.o_dummy)),
                          "a declaration that is not shadowed has no uses that are noted", assume=False)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


class Free(Deps):
    """The functions that use a visitor of their own."""
    def __init__(self, ex, mods):
        super().__init__(ex, mods)
        self.SN, self.SP = z3.Array("span_names", Z, Z), z3.Array("span_results", Z, Z)
        self.sn = z3.Int("span_size")
        self.span_F = FF(self.SN, self.SP, self.sn)

    def span(self, st):
        r = X.Region("span", None, "array", 16)
        st.mem[r] = {(0, 8): self.SN, (8, 8): self.SP}

        def access(ex, st, i, f, size):
            if not ex.dry:
                ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < self.sn), "the names are accessed within bounds")
        r.on_access = access
        st.assume(z3.And(self.sn >= 0, self.sn < BIG))
        return [X.Ptr(r), self.sn]

    def visitor(self):
        """Contracts of the constructors of the visitor."""
        ex = self.ex

        def make(st, p, dn, dp, n):
            if not isinstance(p, X.Ptr) or hasattr(self, "obj") and self.obj is not p.region and not ex.dry:
                raise X.Undecided("several visitors")
            self.obj = p.region
            self.obj.addressed, self.obj.addr = True, self.TA
            self.vector(st, dn, dp, n)
            st.mem[self.ghost] = {(0, 8): n}
            self.init_object(st, p.region, I(1), I(0))
            st.assume(FF(dn, dp, I(0)) == z3.K(Z, I(0)))
            st.assume(RS(z3.K(Z, I(0))) == EMPTY)

        def of_span(ex, st, v, i):
            p, n = v[1:] if len(v) == 3 else (ex.load(st, self.mod, ("ptr",), v[1]), ex.load(st, self.mod, ("i", 64), ex.addoff(v[1], 8)))
            dn, dp, n = self.names(st, p, n)
            make(st, v[0], dn, dp, n)
        rx = r"slinky::\(anonymous namespace\)::dependencies::dependencies"
        ex.contract(rx + r"\(slinky::span<.*>\)", of_span)
        ex.contract(rx + r"\(\)", lambda ex, st, v, i: make(st, v[0], z3.K(Z, I(0)), z3.K(Z, I(0)), I(0)))
        ex.contract(r"slinky::\(anonymous namespace\)::dependencies::~dependencies\(\)", lambda ex, st, v, i: None)

    def names(self, st, p, n):
        """The names and the addresses of results of a span."""
        ex = self.ex
        if p.region.kind == "array":
            c = st.cells(p.region)
            return c[(0, 8)], c[(8, 8)], zi(n)
        n = X.conc(n)
        if not isinstance(n, int):
            raise X.Undecided("a span of objects of symbolic size")
        dn, dp = z3.K(Z, I(0)), z3.K(Z, I(0))
        for k in range(n):
            s = zi(ex.load(st, self.mod, ("i", 64), ex.addoff(p, 16 * k)))
            a = self.addr(ex.load(st, self.mod, ("ptr",), ex.addoff(p, 16 * k + 8)))
            F = FF(dn, dp, I(k))
            dn2, dp2 = z3.Store(dn, k, s), z3.Store(dp, k, a)
            if k == 0:
                st.assume(z3.And(F == z3.K(Z, I(0)), RS(F) == EMPTY))
            st.assume(FF(dn2, dp2, I(k + 1)) == z3.Store(F, s, a))
            self.rs(st, F, s, a)
            dn, dp = dn2, dp2
        return dn, dp, I(n)

    def notes(self, st, id, G, r=None):
        """Effect of depends_on: what of the names of G occurs is noted."""
        for k in range(NK):
            f = self.flag(st, k, r)
            self.ex.put(st, r or self.R, k, 1, z3.If(z3.Or(f, z3.And(id != 0, OCC(k, id, G))), I(1), I(0)))

    def of_spans(self):
        ex = self.ex

        def f(ex, st, v, i):
            dn, dp, n = self.names(st, v[1], v[2])
            G = RS(FF(dn, dp, n))
            r = getattr(self, "R", None)
            if r is None:
                raise X.Undecided("result of dependencies")
            self.notes(st, hid(v[0]), G)
        ex.contract(r"slinky::depends_on\(slinky::expr_ref, slinky::span<std::pair<slinky::var, slinky::depends_on_result&> const, .*>\)", f)


def constructor_spec(mods):
    s = S.Spec("dependencies::dependencies(span)", mods, None, prover=N.prover, timeout=8.0)

    def make(ex):
        fn = N.find(mods, r"slinky::\(anonymous namespace\)::dependencies::dependencies\(slinky::span<.*>\)")
        D = Free(ex, mods)
        ex.contract(VEC + r"vector\(\)", lambda ex, st, v, i: None)
        D.growth()

        def cand(ex, st, f, head, entry):
            out = []
            for n, reg, at in positions(ex, entry):
                if reg is None or reg.name != "span":
                    continue
                out.append(("%s is in range" % n, lambda ex, s, w, at=at: z3.And(at(s, w) >= 0, at(s, w) <= D.sn)))
                out.append(("%s names are added" % n, lambda ex, s, w, at=at: D.num(s) == at(s, w)))
            out.append(("the names are those of the span", lambda ex, s, w: z3.Implies(z3.And(0 <= j, j < D.num(s)), z3.And(
                z3.Select(D.arrays(s)[0], j) == z3.Select(D.SN, j), z3.Select(D.arrays(s)[1], j) == z3.Select(D.SP, j)))))
            return out
        ex.loop_candidates[DT] = cand
        loc = {}

        def setup(st):
            D.result(st)
            r = X.Region("this", D.size)
            r.addressed, r.addr = True, D.TA
            st.mem[r] = {}
            D.obj = loc["this"] = r
            D.vector(st, D.DN, D.DP, I(0))
            st.mem[D.ghost] = {(0, 8): I(0)}
            return [X.Ptr(r)] + D.span(st)

        def fin(st, ret):
            dn, dp = D.arrays(st)
            ex.oblige(st, D.num(st) == D.sn, "all names are added", assume=False)
            ex.oblige(st, z3.Implies(z3.And(0 <= j, j < D.sn), z3.And(z3.Select(dn, j) == z3.Select(D.SN, j), z3.Select(dp, j) == z3.Select(D.SP, j))),
                      "the names and results are those given", assume=False)
            r = loc["this"]
            ex.oblige(st, D.pure(st), "nothing impure has been found", assume=False)
            ex.oblige(st, zi(ex.address(ex.load(st, mods[0], ("ptr",), X.Ptr(r, D.o_unknown)))) == 0, "other names are not looked for", assume=False)
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def query_spec(mods, what):
    """The functions of the interface. what: span (names and results), ref (name, result), var, interval, vars, pure."""
    rx = {"span": r"slinky::depends_on\(slinky::expr_ref, slinky::span<std::pair<slinky::var, slinky::depends_on_result&> const, .*>\)",
          "ref": r"slinky::depends_on\(slinky::expr_ref, slinky::var, slinky::depends_on_result&\)",
          "var": r"slinky::depends_on\(slinky::expr_ref, slinky::var\)",
          "interval": r"slinky::depends_on\(slinky::interval_expr const&, slinky::var\)",
          "vars": r"slinky::depends_on\(slinky::expr_ref, slinky::span<slinky::var const, .*>\)",
          "pure": r"slinky::is_pure\(slinky::expr_ref\)"}[what]
    s = S.Spec({"pure": "is_pure", "ref": "depends_on(expr, var, result)", "span": "depends_on(expr, names and results)", "var": "depends_on(expr, var)",
                "interval": "depends_on(interval, var)", "vars": "depends_on(expr, vars)"}[what], mods, None, prover=N.prover, timeout=8.0)

    def make(ex):
        fn = N.find(mods, rx)
        D = Free(ex, mods)
        x, e1 = z3.Ints("x e1")
        XS = z3.Function("XS", Z, SET)
        xs = z3.Array("xs", Z, Z)
        one = z3.Store(EMPTY, x, True)
        if what in ("span", "pure"):
            D.visitor()
            D.visits()
        elif what == "ref":
            D.of_spans()
        elif what == "vars":
            D.of_spans()
            D.growth(RVEC)

            def ctor(ex, st, v, i):
                D.vector(st, z3.K(Z, I(0)), z3.K(Z, I(0)), I(0))
                st.mem[D.ghost] = {(0, 8): I(0)}
                dn, dp = D.arrays(st)
                st.assume(z3.And(FF(dn, dp, I(0)) == z3.K(Z, I(0)), RS(z3.K(Z, I(0))) == EMPTY))
            ex.contract(RVEC + r"vector\(\)", ctor)
            ex.contract(RVEC + r"~vector\(\)", lambda ex, st, v, i: None)
            ex.contract(RVEC + r"data\(\)( const)?", lambda ex, st, v, i: X.Ptr(D.V))
        else:
            def f(ex, st, v, i):
                ex.oblige(st, zi(v[1]) == x, "the name is the one asked for")
                if not isinstance(v[2], X.Ptr) or X.conc(v[2].off) != 0:
                    raise X.Undecided("result of dependencies")
                D.notes(st, hid(v[0]), one, v[2].region)
            ex.contract(r"slinky::depends_on\(slinky::expr_ref, slinky::var, slinky::depends_on_result&\)", f)
        if what == "vars":
            # the result is the local object that the names are given with
            push = ex.contracts[[k for k, c in enumerate(ex.contracts) if c[0].pattern == RVEC + r"push_back\(.*\)"][0]][1]

            def first(ex, st, v, i):
                p = ex.load(st, mods[0], ("ptr",), ex.addoff(v[1], 8))
                if not isinstance(p, X.Ptr):
                    raise X.Undecided("result of dependencies")
                D.R = p.region
                D.R.addressed, D.R.addr = True, D.RA
                return push(ex, st, v, i)
            ex.contract(RVEC + r"push_back\(.*\)", first)

            def cand(ex, st, f, head, entry):
                out = []
                for n, reg, at in positions(ex, entry):
                    if reg is None or reg.name != "xs":
                        continue
                    out.append(("%s is in range" % n, lambda ex, s, w, at=at: z3.And(at(s, w) >= 0, at(s, w) <= D.sn)))
                    out.append(("%s names are added" % n, lambda ex, s, w, at=at: D.num(s) == at(s, w)))
                    out.append(("the names so far are given with the result (%s)" % n, lambda ex, s, w, at=at: RS(D.F(s)) == XS(at(s, w))))
                return out
            ex.loop_candidates[r"slinky::depends_on\("] = cand
        loc = {}

        def setup(st):
            st.assume(z3.And(e0 >= 0, z3.Or(x == UNDEF, z3.And(x >= 0, x < BIG)), D.TA > 0, D.RA > 0))
            st.assume(z3.Or(D.RA + NK <= D.TA, D.RA >= D.TA + D.size))
            st.mem[D.ghost] = {(0, 8): I(0)}
            if what == "span":
                D.result(st)
                st.assume(z3.And(FF(D.SN, D.SP, I(0)) == z3.K(Z, I(0)), RS(z3.K(Z, I(0))) == EMPTY))
                for k in range(NK):
                    st.assume(z3.Not(OCC(k, e0, EMPTY)))       # lemma
                return [X.NodePtr(e0)] + D.span(st)
            if what == "ref":
                r = D.result(st)
                return [X.NodePtr(e0), x, X.Ptr(r)]
            if what == "var":
                return [X.NodePtr(e0), x]
            if what == "interval":
                st.assume(e1 >= 0)
                r = X.Region("interval", 16)
                st.mem[r] = {(0, 8): X.NodePtr(e0), (8, 8): X.NodePtr(e1)}
                return [X.Ptr(r), x]
            if what == "vars":
                r = X.Region("xs", None, "array", 8)
                st.mem[r] = {(0, 8): xs}
                st.assume(z3.And(D.sn >= 0, D.sn < BIG, XS(I(0)) == EMPTY))

                def access(ex, st, i, f, size):
                    if not ex.dry:
                        ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < D.sn), "the names are accessed within bounds")
                    st.assume(XS(i + 1) == z3.Store(XS(i), z3.Select(xs, i), True))
                r.on_access = access
                # without names nothing is visited
                for k in range(NK):
                    st.assume(z3.Not(OCC(k, e0, EMPTY)))
                # a result that is not the one given yet
                return [X.NodePtr(e0), X.Ptr(r), D.sn]
            st.assume(e0 > 0)
            D.result(st)
            st.ghost["GS"] = []
            return [X.NodePtr(e0)]

        def fin(st, ret):
            if what in ("span", "ref"):
                G = RS(D.span_F) if what == "span" else one
                for k in range(NK):
                    ex.oblige(st, D.flag(st, k) == z3.Or(D.R0[k] != 0, z3.And(e0 != 0, OCC(k, e0, G))), "%s is noted iff a name is used so" % FLAGS[k], assume=False)
                return
            if what == "pure":
                ex.oblige(st, X.zb(ex.to_bool(ret)) == z3.Not(OCC(PURE, e0, EMPTY)), "is_pure iff nothing that may change is used", assume=False)
                return
            G = XS(D.sn) if what == "vars" else one
            for k in range(NK):
                g = z3.And(e0 != 0, OCC(k, e0, G))
                if what == "interval":
                    g = z3.Or(g, z3.And(e1 != 0, OCC(k, e1, G)))
                ex.oblige(st, byte(ret, k) == g, "%s is noted iff a name is used so" % FLAGS[k], assume=False)

        def byte(ret, k):
            if isinstance(ret, X.Pack):
                v = next((c[2] for c in ret.cells if c[0] == k), None)
                if v is None:
                    raise X.Undecided("returned result")
                return X.zb(ex.to_bool(v))
            v = zi(ret)
            return (v / (1 << (8 * k))) % 2 == 1
        return fn, setup, fin
    s.make = make
    s.kinds = ("subst",)
    return s


def lemma_obligations(L):
    """By induction over the structure of expressions: (1) no name of the empty set occurs, (2) an expression has the same value in two
    contexts that only differ in names of a set none of which occurs in it (k < 8: none of the flags)."""
    out = []
    id, i = z3.Ints("id i")
    G = z3.Const("G", SET)
    C, D = z3.Array("C", Z, Z), z3.Array("D", Z, Z)
    s = z3.Int("s")
    ks = range(NK)
    for t in N.TYPES:
        ch = M.children(L, t, id)
        # 1
        for k in range(NK):
            h = occ_axioms(L, k, id, t, EMPTY) + [z3.Not(OCC(k, c, EMPTY)) for c in ch]
            if t == "let":
                h += [GC(id, NL(id), EMPTY) == EMPTY, z3.Not(OL(k, id, NL(id), EMPTY))]
            if t == "call":
                buf = fld(L["call.intrinsic"])(id) == L["intrinsic.buffer_at"]
                h.append(NARG(id) >= 0)
                h.append(z3.Implies(z3.If(buf, z3.Not(OA(k, id, I(1), EMPTY)), z3.Not(OA(k, id, I(0), EMPTY))), z3.Not(OA(k, id, NARG(id), EMPTY))))
            out.append(("lemma: no name of the empty set occurs in a %s (%s)" % (t, FLAGS[k]), h, z3.Not(OCC(k, id, EMPTY))))
    for k in range(NK):
        out.append(("lemma: no name of the empty set occurs in lets (%s, step)" % FLAGS[k], [step_let(k, id, i, EMPTY), GC(id, i, EMPTY) == EMPTY, z3.Not(OL(k, id, i, EMPTY)),
                    z3.Not(OCC(k, z3.Select(VALA(id), i), EMPTY))], z3.And(GC(id, i + 1, EMPTY) == EMPTY, z3.Not(OL(k, id, i + 1, EMPTY)))))
        out.append(("lemma: no name of the empty set occurs in arguments (%s, step)" % FLAGS[k], [step_arg(k, id, i, EMPTY), z3.Not(OA(k, id, i, EMPTY)),
                    z3.Not(OCC(k, z3.Select(ARGA(id), i), EMPTY))], z3.Not(OA(k, id, i + 1, EMPTY))))
    # 2
    agree = lambda C, D, G: z3.ForAll([s], z3.Or(z3.Select(G, s), z3.Select(C, s) == z3.Select(D, s)))
    unused = lambda e, G: z3.And(*[z3.Not(OCC(k, e, G)) for k in ks])
    for t in N.TYPES:
        if t in ("let", "call"):
            continue
        h = [agree(C, D, G), M.value_of(None, L, id, t, C), M.value_of(None, L, id, t, D), unused(id, G)]
        for k in ks:
            h += occ_axioms(L, k, id, t, G)
        h += [z3.Implies(unused(c, G), VAL(c, C) == VAL(c, D)) for c in M.children(L, t, id)]
        if t == "variable":
            f = fld(L["variable.field"])(id)
            h.append(z3.And(f >= L["field.none"], f <= L["field.fold_factor"]))
        out.append(("lemma: values do not depend on names that do not occur (%s)" % t, h, VAL(id, C) == VAL(id, D)))
    v, b = z3.Select(VALA(id), i), fld(L["let.body"])(id)
    ci, di, gi = CH(SYMA(id), VALA(id), i, C), CH(SYMA(id), VALA(id), i, D), GC(id, i, G)
    steps = [step_let(k, id, i, G) for k in ks]
    chain = lambda c, i_: CH(SYMA(id), VALA(id), i_ + 1, c) == z3.Store(CH(SYMA(id), VALA(id), i_, c), z3.Select(SYMA(id), i_), VAL(v, CH(SYMA(id), VALA(id), i_, c)))
    out.append(("lemma: values do not depend on names that do not occur (lets, step)", steps + [chain(C, i), chain(D, i), agree(ci, di, gi)] +
                [z3.Not(OL(k, id, i + 1, G)) for k in ks] + [z3.Implies(unused(v, gi), VAL(v, ci) == VAL(v, di))],
                agree(CH(SYMA(id), VALA(id), i + 1, C), CH(SYMA(id), VALA(id), i + 1, D), GC(id, i + 1, G))))
    n = NL(id)
    cn, dn, gn = CH(SYMA(id), VALA(id), n, C), CH(SYMA(id), VALA(id), n, D), GC(id, n, G)
    h = [M.value_of(None, L, id, "let", C), M.value_of(None, L, id, "let", D), unused(id, G), z3.Implies(z3.And(*[z3.Not(OL(k, id, n, G)) for k in ks]), agree(cn, dn, gn))]
    for k in ks:
        h += occ_axioms(L, k, id, "let", G)
    h.append(z3.Implies(z3.And(agree(cn, dn, gn), unused(b, gn)), VAL(b, cn) == VAL(b, dn)))
    out.append(("lemma: values do not depend on names that do not occur (let)", h, VAL(id, C) == VAL(id, D)))
    # calls: the values of the arguments are those of the other context
    a = z3.Select(ARGA(id), i)
    h = [step_arg(k, id, i, G) for k in ks] + [z3.Not(OA(k, id, i + 1, G)) for k in ks] + [z3.Implies(z3.And(a > 0, unused(a, G)), VAL(a, C) == VAL(a, D))]
    out.append(("lemma: values do not depend on names that do not occur (arguments)", h, z3.Implies(a > 0, VAL(a, C) == VAL(a, D))))
    buf = fld(L["call.intrinsic"])(id) == L["intrinsic.buffer_at"]
    a = z3.Select(ARGA(id), 0)
    h = [buf, agree(C, D, G), NARG(id) >= 1]
    for k in ks:
        h += occ_axioms(L, k, id, "call", G)
        # a flag that is set by the first argument stays
        h.append(z3.Implies(OA(k, id, I(1), G), OA(k, id, NARG(id), G)))
    h += [unused(id, G), M.value_of(None, L, a, "variable", C), M.value_of(None, L, a, "variable", D)]
    out.append(("lemma: values do not depend on names that do not occur (buffer_at)", h, VAL(a, C) == VAL(a, D)))
    # the results that names are noted in are decided by the entries in scope
    return out


def specs(expr, deps):
    mods = [deps, expr]
    out = []
    for t in N.TYPES:
        for entry in ("expr", "expr_ref"):
            out.append(accept_spec(mods, t, entry))
    out += [search_spec(mods, "find_deps"), search_spec(mods, "decl_needs_shadow"), constructor_spec(mods)]
    out += [query_spec(mods, w) for w in ("span", "ref", "var", "interval", "vars", "pure")]
    return out
