"""Contracts of the expression evaluator (runtime/evaluate.cc): C13.

E(e, C) is the value of expression e where the context maps names to C; D(e, C) says that it is defined (no operation on the way
overflows, no infinity is evaluated, operands that are not needed are not considered), and then RQ(e, C) is a size of the context
that suffices. What they are follows from the type and the operands of a node (Model.axiom). Buffers are memory: a buffer is the
address that the context has for its name, and its fields are in the region ex.flat."""
import re
import z3
from . import arith as A, ex as X, spec as S, nodes as N
from .nodes import I, Z, zi, T, fld, ARG, NARG, hid

ARR = z3.ArraySort(Z, Z)
E = z3.Function("E", Z, ARR, Z)
D = z3.Function("D", Z, ARR, z3.BoolSort())
RQ = z3.Function("RQ", Z, ARR, Z)
SYM = z3.Function("SYM", Z, Z, Z)
VAL = z3.Function("VAL", Z, Z, Z)
NL = z3.Function("NL", Z, Z)
CL = z3.Function("CL", Z, ARR, Z, ARR)
MX = z3.Function("MX", Z, Z, Z)
SC = z3.Function("SC", Z, ARR, Z, z3.BoolSort())
AT = z3.Function("AT", Z, ARR, Z, Z)
SZ = z3.Function("size_bytes", Z, Z)
EV = r"slinky::\(anonymous namespace\)::evaluator::"
BIG = 2 ** 40
RB = {"base": 0, "elem_size": 8, "rank": 16, "dims": 24}
DM = {"min": 0, "max": 8, "stride": 16, "fold_factor": 24}
TYPED = ["variable", "constant", "let", "logical_not", "select", "call"]


def mx(a, b):
    return z3.If(a >= b, a, b)


class Model(N.Nodes):
    def __init__(self, ex, mod):
        super().__init__(ex, Model.lets_field)
        self.mod = mod
        ex.flat = self.flat = X.Region("memory", None, "array", 1)
        ex.havoc_cell = self.havoc
        ex.node_copy = self.copy
        self.M0 = z3.Array("memory0", Z, Z)
        self.regs = {}
        self.ctxreg = None

    # --- the context ---------------------------------------------------------------------------------------------------
    def context(self, st, n="context"):
        """A context region with arbitrary values; returns (region, values, size)."""
        ctx = X.Region(n, 32)
        ctx.vector = True
        c, k = z3.Array(n + ".values", Z, Z), z3.Int(n + ".size")
        st.assume(z3.And(k >= 0, k < BIG))
        st.mem[ctx] = {(24, 8): X.Ptr(X.Region("config", None))}
        self.put(st, ctx, c, k)
        return ctx, c, k

    def put(self, st, ctx, arr, n, writes=False):
        v = X.Region("values", None, "array", 8)

        def access(ex, st, i, f, size, v=v):
            d = st.cells(ctx)
            if d[(0, 8)].region is not v:
                return
            if not ex.dry:
                ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < self.size(st, ctx)), "variables are looked up within the context")
        v.on_access = access
        v.dead = lambda st: st.cells(ctx)[(0, 8)].region is not v
        st.mem[v] = {(0, 8): arr}
        d = st.wcells(ctx)
        # the values of a context that was resized are somewhere else
        old = d.get((0, 8))
        if old is not None:
            st.mem.pop(old.region, None)
        d[(0, 8)], d[(8, 8)] = X.Ptr(v, 0), X.Ptr(v, 8 * n)
        if st.writes is not None and writes:
            st.writes.add((ctx, (0, 8)))
            st.writes.add((ctx, (8, 8)))

    def values(self, st, ctx):
        v = st.cells(ctx)[(0, 8)].region
        return st.cells(v)[(0, 8)]

    def size(self, st, ctx):
        e = st.cells(ctx)[(8, 8)]
        return self.ex.array_index(st, e.region, e.off)[0]

    def havoc(self, ex, s, reg, k, old):
        if getattr(reg, "vector", False) and k in ((0, 8), (8, 8)):
            n = ex.fresh("size")
            s.assume(z3.And(n >= 0, n < BIG))
            self.put(s, reg, z3.Array("values!%d" % next(ex.fresh_n), Z, Z), n)
            return True
        return False

    def copy(self, st, dst, src, n):
        for o in range(0, n, 8):
            v = self.load(st, self.mod, X.NodePtr(src.id, src.off + o), ("i", 64))
            self.ex.store(st, self.mod, ("i", 64), v, self.ex.addoff(dst, o))

    # --- memory --------------------------------------------------------------------------------------------------------
    def memory(self, st):
        return self.ex.array_term(st, self.flat, 0, 8)

    def at(self, M, a):
        return z3.Select(M, a)

    # --- lets ----------------------------------------------------------------------------------------------------------
    def lets_field(self, st, id, off):
        a = self.L["let.lets"]
        if off not in (a, a + 8):
            return None
        k = id.get_id()
        if k not in self.regs:
            r = X.Region("lets", None, "array", 16)
            r.node = id
            r.on_access = lambda ex, st, i, f, size, id=id: self.let_facts(st, id, i)
            self.regs[k] = r
        r = self.regs[k]
        if r not in st.mem:
            v = z3.Int("k!")
            st.mem[r] = {(0, 8): z3.Lambda([v], SYM(id, v)), (8, 8): z3.Lambda([v], VAL(id, v))}
        return X.Ptr(r, 0 if off == a else 16 * NL(id))

    def let_facts(self, st, id, i):
        C = st.ghost["C"]
        i = zi(i)
        key = ("let fact", id.get_id(), i.get_id())
        if key in st.ghost:
            return
        st.ghost[key] = (id, i)
        if not self.ex.dry:
            self.ex.oblige(st, z3.And(i >= 0, i < NL(id)), "lets are accessed within bounds")
        n, v = NL(id), VAL(id, i)
        st.assume(z3.Implies(z3.And(0 <= i, i < n), z3.And(
            CL(id, C, i + 1) == z3.Store(CL(id, C, i), SYM(id, i), E(v, CL(id, C, i))),
            v > 0, D(v, CL(id, C, i)), RQ(v, CL(id, C, i)) <= mx(RQ(id, C), MX(id, n) + 1),
            SYM(id, i) >= 0, SYM(id, i) < BIG - 1, SYM(id, i) <= MX(id, n),      # lemma: maximum
            MX(id, i + 1) == mx(MX(id, i), SYM(id, i)), MX(id, i) >= 0, MX(id, i) < BIG - 1)))

    # --- calls ---------------------------------------------------------------------------------------------------------
    def load(self, st, mod, p, ty):
        v = super().load(st, mod, p, ty)
        if isinstance(v, X.Ptr) and getattr(v.region, "node", None) is not None and v.region.name == "args of node":
            r, id = v.region, v.region.node
            if not hasattr(r, "on_access"):
                r.on_access = lambda ex, st, i, f, size: self.arg_facts(st, id, i)
        return v

    def arg_facts(self, st, id, i):
        C, L = st.ghost["C"], self.L
        i = zi(i)
        key = ("arg fact", id.get_id(), i.get_id())
        if key in st.ghost:
            return
        st.ghost[key] = (id, i)
        if not self.ex.dry:
            self.ex.oblige(st, z3.And(i >= 0, i < NARG(id)), "arguments are accessed within bounds")
        J = lambda s: L["intrinsic." + s]
        fn, n, a = fld(L["call.intrinsic"])(id), NARG(id), ARG(id, i)
        inb = z3.And(0 <= i, i < n)
        short = z3.Or(fn == J("and_then"), fn == J("or_else"))
        go = z3.If(fn == J("and_then"), E(a, C) != 0, E(a, C) == 0)
        st.assume(a >= 0)
        self.kinds_if(st, a)
        st.assume(z3.Implies(z3.And(inb, short), z3.And(
            a > 0, SC(id, C, i + 1) == z3.And(SC(id, C, i), go), z3.Implies(SC(id, C, i), z3.And(D(a, C), RQ(a, C) <= RQ(id, C))),
            z3.Implies(z3.Not(SC(id, C, i + 1)), z3.Not(SC(id, C, n))))))     # lemma: prefixes
        st.assume(z3.Implies(z3.And(inb, fn == J("abs")), z3.And(a > 0, D(a, C), RQ(a, C) <= RQ(id, C), E(id, C) == N.absv(E(a, C)), X.inr(E(id, C)))))
        # buffer_at(b, x0, x1, ...): the address of the element, or null outside of the buffer
        M = self.M0
        var = ARG(id, I(0))
        b = z3.Select(C, fld(L["variable.sym"])(var))
        rank = self.at(M, b + RB["rank"])
        d = i - 1
        dim = self.at(M, b + RB["dims"]) + 32 * d
        f = lambda k: self.at(M, dim + DM[k])
        x = E(a, C)
        here = AT(id, C, d)
        offs = self.flat_offset(st, x, f("min"), f("stride"), f("fold_factor"))
        inside = z3.Or(f("stride") == 0, z3.And(f("min") <= x, x <= f("max")))
        step = z3.If(z3.Or(a == 0, here == 0), here, z3.If(inside, here + offs, I(0)))
        st.assume(z3.Implies(z3.And(inb, fn == J("buffer_at"), i == 0), z3.And(
            a > 0, T(a) == N.ty("variable"), fld(L["variable.field"])(a) == L["field.none"], RQ(id, C) >= fld(L["variable.sym"])(a) + 1,
            fld(L["variable.sym"])(a) >= 0, fld(L["variable.sym"])(a) < BIG - 1, b > 0, rank >= 0, rank < BIG,
            AT(id, C, I(0)) == self.at(M, b + RB["base"]))))
        st.assume(z3.Implies(z3.And(inb, fn == J("buffer_at"), i > 0), z3.And(
            z3.Implies(a > 0, z3.And(D(a, C), RQ(a, C) <= RQ(id, C))), AT(id, C, d + 1) == step,
            z3.Implies(z3.And(a > 0, here != 0, inside), z3.And(here + offs > 0, X.inr(here + offs), X.inr(offs), X.inr(x - f("min")),
                       z3.Or(f("stride") == 0, f("fold_factor") == -1, f("fold_factor") > 0))))))

    def flat_offset(self, st, x, mn, stride, fold):
        return z3.If(z3.Or(stride == 0, fold == -1), (x - mn) * stride, self.emod(st, x, fold) * stride)

    def emod(self, st, a, b):
        return N.ediv(st, a, b)[1]

    # --- what a node denotes ---------------------------------------------------------------------------------------------
    def axiom(self, st, id, t):
        C, L = st.ghost["C"], self.L
        r = (I(0), E(id, C))

        def c(n, need=True):
            v = fld(L["%s.%s" % (t, n)])(id)
            st.assume(v > 0)
            self.kinds_if(st, v)
            if need:
                st.assume(z3.And(D(v, C), RQ(v, C) <= RQ(id, C)))
            return v
        st.assume(D(id, C))       # the axioms are instantiated for the node of which the contract assumes this
        st.assume(X.inr(E(id, C)))
        if t in N.BIN:
            a, b = c("a"), c("b")
            st.assume(N.op_axiom(st, t, r, (I(0), E(a, C)), (I(0), E(b, C))))
        elif t == "logical_not":
            st.assume(N.not_axiom(r, (I(0), E(c("a"), C))))
        elif t == "select":
            k = c("condition")
            x, y = c("true_value", False), c("false_value", False)
            for cond, v in ((E(k, C) != 0, x), (E(k, C) == 0, y)):
                st.assume(z3.Implies(cond, z3.And(D(v, C), RQ(v, C) <= RQ(id, C), E(id, C) == E(v, C))))
        elif t == "let":
            b, n = c("body", False), NL(id)
            Cn = CL(id, C, n)
            st.assume(z3.And(n >= 0, n < BIG, CL(id, C, I(0)) == C, MX(id, I(0)) == 0, MX(id, n) >= 0, MX(id, n) < BIG - 1,
                             D(b, Cn), RQ(b, Cn) <= mx(RQ(id, C), MX(id, n) + 1), E(id, C) == E(b, Cn)))
        elif t == "variable":
            self.variable(st, id, C)
        elif t == "constant":
            st.assume(E(id, C) == fld(L["constant.value"])(id))
        elif t == "call":
            fn, n = fld(L["call.intrinsic"])(id), NARG(id)
            J = lambda s: L["intrinsic." + s]
            st.assume(z3.And(n >= 0, n < BIG, fn >= 0, fn <= J("validate_buffer")))
            st.assume(z3.And(*[fn != J(s) for s in ("positive_infinity", "negative_infinity", "indeterminate")]))
            st.assume(z3.Implies(fn == J("abs"), n == 1))
            st.assume(z3.Implies(z3.Or(fn == J("and_then"), fn == J("or_else")), z3.And(
                SC(id, C, I(0)), E(id, C) == N.b2i(z3.If(fn == J("and_then"), SC(id, C, n), z3.Not(SC(id, C, n)))))))
            b = z3.Select(C, fld(L["variable.sym"])(ARG(id, I(0))))
            rank = self.at(self.M0, b + RB["rank"])
            st.assume(z3.Implies(fn == J("buffer_at"), z3.And(n >= 1, E(id, C) == AT(id, C, z3.If(rank < n - 1, rank, n - 1)))))

    def variable(self, st, id, C):
        L, M = self.L, self.M0
        sym, f, d = (fld(L["variable." + k])(id) for k in ("sym", "field", "dim"))
        b = z3.Select(C, sym)
        st.assume(z3.And(sym >= 0, sym < BIG - 1, RQ(id, C) >= sym + 1, f >= L["field.none"], f <= L["field.fold_factor"]))
        st.assume(z3.Implies(f == L["field.none"], E(id, C) == b))
        rank = self.at(M, b + RB["rank"])
        st.assume(z3.Implies(f != L["field.none"], z3.And(b > 0, rank >= 0, rank < BIG)))
        st.assume(z3.Implies(f == L["field.rank"], E(id, C) == rank))
        st.assume(z3.Implies(f == L["field.elem_size"], E(id, C) == self.at(M, b + RB["elem_size"])))
        st.assume(z3.Implies(f == L["field.size_bytes"], E(id, C) == SZ(b)))
        for k in DM:
            # dimensions from the rank on are broadcasts
            v = z3.If(d < rank, self.at(M, self.at(M, b + RB["dims"]) + 32 * d + DM[k]), I(0))
            st.assume(z3.Implies(f == L["field." + k], z3.And(d >= 0, d < BIG, E(id, C) == v)))


def lemma_obligations():
    i, k, n, s, m, mk = z3.Ints("i k n s m mk")
    mi = z3.Int("mi")
    p, q, g = z3.Bools("p q g")
    return [("lemma: a maximum of prefixes (base)", [], s <= mx(m, s)), ("lemma: a maximum of prefixes (step)", [s <= m], s <= mx(m, mi)),
            ("lemma: a conjunction of prefixes (step)", [z3.Not(p), q == z3.And(p, g)], z3.Not(q))]


# --- contracts -----------------------------------------------------------------------------------------------------------
def this_ctx(ex, st, mod, p):
    c = ex.load(st, mod, ("ptr",), p)
    if not isinstance(c, X.Ptr) or not getattr(c.region, "vector", False):
        raise X.Undecided("the evaluator has no context")
    return c.region


def contracts(ex, nd, mod, own=()):
    def ev(ex, st, this, id, t=None, handle=True):
        ctx = this_ctx(ex, st, mod, this)
        e = hid(ex.load(st, mod, ("ptr",), id)) if handle else hid(id)
        C, n = nd.values(st, ctx), nd.size(st, ctx)
        ex.oblige(st, e > 0, "only defined expressions are evaluated")
        if t is not None:
            ex.oblige(st, T(e) == N.ty(t) if isinstance(t, str) else z3.Or(*[T(e) == N.ty(x) for x in t]), "the evaluator fits the expression")
        ex.oblige(st, D(e, C), "only expressions whose value is needed are evaluated")
        ex.oblige(st, RQ(e, C) <= n, "the context is large enough")
        st.assume(X.inr(E(e, C)))
        n2 = ex.fresh("size")
        st.assume(z3.And(n2 >= n, n2 < BIG))
        nd.put(st, ctx, C, n2, writes=True)
        return E(e, C)

    def reg(pat, f):
        if pat not in own:
            ex.contract(pat, f)
    H = r"\(slinky::expr const&\)"
    reg(EV + "eval" + H, lambda ex, st, v, i: ev(ex, st, v[0], v[1]))
    reg(EV + "eval_non_inlined" + H, lambda ex, st, v, i: ev(ex, st, v[0], v[1], [t for t in N.TYPES if t not in ("variable", "constant")]))
    reg(EV + "eval_binary" + H, lambda ex, st, v, i: ev(ex, st, v[0], v[1], N.BIN))
    for t in TYPED:
        if t != "constant":
            reg(EV + r"eval\(slinky::%s const\*\)" % t, lambda ex, st, v, i, t=t: ev(ex, st, v[0], v[1], t, False))

    def constant(ex, st, v, i):
        e, C = hid(v[-1]), st.ghost["C"]
        ex.oblige(st, T(e) == N.ty("constant"), "the evaluator fits the expression")
        st.assume(z3.And(E(e, C) == fld(nd.L["constant.value"])(e), X.inr(E(e, C))))
        return E(e, C)
    reg(EV + r"eval\(slinky::constant const\*\)", constant)

    def default(ex, st, v, i):
        e = hid(ex.load(st, mod, ("ptr",), v[1]))
        if ex.sat(st, e == 0) == "unsat":
            return ev(ex, st, v[0], v[1])
        if ex.sat(st, e != 0) == "unsat":
            return v[2]
        o = st.fork()
        st.assume(e > 0)
        o.assume(e == 0)
        return [(st, ev(ex, st, v[0], v[1])), (o, v[2])]
    reg(EV + r"eval\(slinky::expr const&, long\)", default)

    def resize(ex, st, v, i):
        ctx = v[0].region
        n = zi(v[1])
        ex.oblige(st, z3.And(n >= nd.size(st, ctx), n < 2 * BIG + 2), "the context only grows")
        st.assume(n < BIG)      # the memory suffices
        nd.put(st, ctx, nd.values(st, ctx), n, writes=True)
    ex.contract(r"std::vector<long, slinky::uninitialized_allocator<long.*>>::resize\(unsigned long\)", resize)
    for k in ("div", "mod"):
        def dm(ex, st, v, i, k=k):
            a, b, z = map(zi, v)
            q, r = N.ediv(st, a, b)
            if k == "div":
                ex.oblige(st, z3.Not(z3.And(a == X.I64MIN, b == -1)), "precondition of euclidean_div: the quotient is representable")
            return z3.If(b == 0, z, q if k == "div" else r)
        ex.contract(r"long slinky::euclidean_%s<long>\(long, long, long\)" % k, dm)

    def modpos(ex, st, v, i):
        a, b = map(zi, v)
        ex.oblige(st, b > 0, "precondition of euclidean_mod_positive_modulus: the modulus is positive")
        return N.ediv(st, a, b)[1]
    ex.contract(r"long slinky::euclidean_mod_positive_modulus<long>\(long, long\)", modpos)

    def short(ex, st, v, i):
        r = ev(ex, st, v[0], v[1], "call", False)
        L = nd.L
        fn = fld(L["call.intrinsic"])(hid(v[1]))
        ex.oblige(st, z3.Or(fn == L["intrinsic.and_then"], fn == L["intrinsic.or_else"]), "the evaluator fits the intrinsic")
        st.assume(z3.Or(r == 0, r == 1))
        return X.conc(r != 0)
    reg(EV + r"eval_short_circuit_op\(slinky::call const\*\)", short)

    def buffer_at(ex, st, v, i):
        fn = fld(nd.L["call.intrinsic"])(hid(v[1]))
        ex.oblige(st, fn == nd.L["intrinsic.buffer_at"], "the evaluator fits the intrinsic")
        return ex.intptr(ev(ex, st, v[0], v[1], "call", False))
    reg(EV + r"eval_buffer_at\(slinky::call const\*\)", buffer_at)
    for k in ("semaphore_init", "semaphore_signal", "semaphore_wait", "wait_for", "trace_begin", "trace_end", "free", "validate_buffer", "call"):
        def other(ex, st, v, i, k=k):
            fn = fld(nd.L["call.intrinsic"])(hid(v[1]))
            ex.oblige(st, fn == nd.L["intrinsic." + (k if k != "call" else "none")], "the evaluator fits the intrinsic")
            return ev(ex, st, v[0], v[1], "call", False)
        reg(EV + r"eval_%s\(slinky::call const\*\)" % k, other)
    ex.contract(r"slinky::raw_buffer::size_bytes\(\) const", lambda ex, st, v, i: SZ(zi(ex.address(v[0]))))


def loop_candidates(ex, nd, loc):
    def cand(ex, st, fn, head, entry):
        C, op, ctx = loc["C"], loc["op"], loc["ctx"]
        out = []
        t = nd.decided_type(st, op)

        def indices(v):
            """Index terms of the loop variables."""
            l = []
            for k, x in v.items():
                if isinstance(x, X.Ptr) and x.region.kind == "array" and x.region is not nd.flat:
                    l.append((k, ex.array_index(st, x.region, x.off)[0]))
                elif isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool):
                    l.append((k, zi(x)))
            return l
        names = [k for k, _ in indices(entry) if not k.startswith("*context")]

        def at(v, k):
            return dict(indices(v))[k]
        out.append(("the values of the context are unchanged", lambda ex, s, v: nd.values(s, ctx) == C))
        out.append(("the context does not shrink", lambda ex, s, v: nd.size(s, ctx) >= loc["n"]))
        n0 = nd.size(st, ctx)
        out.append(("the context does not shrink below its size before the loop", lambda ex, s, v: nd.size(s, ctx) >= n0))
        end = NL(op) if t == "let" else NARG(op)
        for k in names:
            out.append(("%s is not negative" % k, lambda ex, s, v, k=k: at(v, k) >= 0))
            if t == "let":
                out.append(("%s is at most the number of lets" % k, lambda ex, s, v, k=k: at(v, k) <= end))
                out.append(("the first %s lets are in the context" % k, lambda ex, s, v, k=k: nd.values(s, ctx) == CL(op, C, at(v, k))))
                for j in names:
                    if j != k:
                        out.append(("%s is the largest name of the first %s lets" % (j, k), lambda ex, s, v, j=j, k=k: at(v, j) == MX(op, at(v, k))))
                for r in list(st.mem):
                    if getattr(r, "alloca", None) is not None:
                        def old(ex, s, v, k=k, r=r):
                            q = z3.Int("j!")
                            a = ex.array_term(s, r, 0, 8)
                            return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < at(v, k)), z3.Select(a, q) == z3.Select(CL(op, C, q), SYM(op, q))))
                        out.append(("the old values of the first %s lets are saved" % k, old))
            if t == "call":
                out.append(("%s is at most the number of arguments" % k, lambda ex, s, v, k=k: at(v, k) <= end))
                b = z3.Select(C, fld(nd.L["variable.sym"])(ARG(op, I(0))))
                rank = nd.at(nd.M0, b + RB["rank"])
                out.append(("%s is at most the number of dimensions and indices" % k, lambda ex, s, v, k=k: z3.And(at(v, k) <= rank, at(v, k) <= end - 1)))
                out.append(("the first %s arguments do not decide" % k, lambda ex, s, v, k=k: SC(op, C, at(v, k))))
                for j, x in entry.items():
                    if isinstance(x, X.NodePtr) or (isinstance(x, X.Ptr) and x.region is nd.flat):
                        out.append(("%s is the address after %s indices" % (j, k), lambda ex, s, v, j=j, k=k: zi(ex.address(v[j])) == AT(op, C, at(v, k))))
        return out
    ex.loop_candidates[EV] = cand


def unchanged(ex, st, nd):
    m = nd.memory(st)
    ex.oblige(st, True if m.eq(nd.M0) else m == nd.M0, "no buffer is changed", assume=False)


def spec(mod, name, pattern, handle, types, arg=None, post=None):
    """A function of the evaluator that takes an expression (or a handle of one)."""
    def make(ex):
        pat = EV + pattern
        fn = N.find([mod], pat)
        nd = Model(ex, mod)
        loc = {}
        contracts(ex, nd, mod)
        loop_candidates(ex, nd, loc)
        ex.contract(r"__assert_fail", lambda ex, st, v, i: X.DEAD)

        def setup(st):
            st.mem[nd.flat] = {(0, 8): nd.M0}
            ctx, C, n = nd.context(st)
            st.ghost["C"] = C
            op = z3.Int("op")
            st.assume(z3.And(op > 0, D(op, C), RQ(op, C) <= n, T(op) >= 1, T(op) <= len(N.TYPES)))
            L = nd.L
            if types is not None:
                st.assume(z3.Or(*[T(op) == N.ty(t) for t in types]))
                if len(types) == 1:
                    st.ghost[("type", op.get_id())] = (types[0], op)
            if arg:
                st.assume(z3.Or(*[fld(L["call.intrinsic"])(op) == L["intrinsic." + a] for a in arg]))
            if types == N.BIN:
                nd.guarded(st, op, N.BIN)
            elif types and len(types) == 1:
                nd.structure(st, op)
            this = X.Region("this", 8)
            st.mem[this] = {(0, 8): X.Ptr(ctx, 0)}
            loc.update(op=op, C=C, n=n, ctx=ctx)
            args = [X.Ptr(this)]
            if handle:
                h = X.Region("handle", 8)
                st.mem[h] = {(0, 8): X.NodePtr(op)}
                args.append(X.Ptr(h))
            else:
                args.append(X.NodePtr(op))
            if len(fn.params) == 1:
                args = args[1:]
            return args

        def fin(st, ret):
            op, C = loc["op"], loc["C"]
            if isinstance(ret, (bool, z3.BoolRef)):
                ret = X.b2i(ret)
            ret = zi(ex.address(ret))
            ex.oblige(st, ret == E(op, C), "the result is the value of the expression", assume=False)
            ex.oblige(st, nd.values(st, loc["ctx"]) == C, "every variable is bound as before", assume=False)
            unchanged(ex, st, nd)
            ex.oblige(st, nd.size(st, loc["ctx"]) >= loc["n"], "the context does not shrink", assume=False)
        return fn, setup, fin
    s = S.Spec(name, [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("rteval",)
    return s


def default_spec(mod):
    def make(ex):
        fn = N.find([mod], EV + r"eval\(slinky::expr const&, long\)")
        nd = Model(ex, mod)
        contracts(ex, nd, mod, own=(EV + r"eval\(slinky::expr const&, long\)",))
        loc = {}

        def setup(st):
            st.mem[nd.flat] = {(0, 8): nd.M0}
            ctx, C, n = nd.context(st)
            st.ghost["C"] = C
            op, d = z3.Int("op"), z3.Int("def")
            st.assume(z3.And(op >= 0, X.inr(d), z3.Implies(op > 0, z3.And(D(op, C), RQ(op, C) <= n, T(op) >= 1, T(op) <= len(N.TYPES)))))
            this, h = X.Region("this", 8), X.Region("handle", 8)
            st.mem[this], st.mem[h] = {(0, 8): X.Ptr(ctx, 0)}, {(0, 8): X.NodePtr(op)}
            loc.update(op=op, C=C, n=n, ctx=ctx, d=d)
            return [X.Ptr(this), X.Ptr(h), d]

        def fin(st, ret):
            op, C = loc["op"], loc["C"]
            ex.oblige(st, zi(ret) == z3.If(op == 0, loc["d"], E(op, C)), "the result is the value, or the default of an undefined expression", assume=False)
            ex.oblige(st, nd.values(st, loc["ctx"]) == C, "every variable is bound as before", assume=False)
            unchanged(ex, st, nd)
        return fn, setup, fin
    s = S.Spec("evaluator::eval(const expr&, index_t)", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("rteval",)
    return s


def interval_spec(mod, default):
    pat = EV + r"eval\(slinky::interval_expr const&%s\)" % (r", slinky::\(anonymous namespace\)::interval" if default else "")

    def make(ex):
        fn = N.find([mod], pat)
        nd = Model(ex, mod)
        contracts(ex, nd, mod)
        loc = {}

        def setup(st):
            st.mem[nd.flat] = {(0, 8): nd.M0}
            ctx, C, n = nd.context(st)
            st.ghost["C"] = C
            a, b = z3.Ints("min max")
            d0, d1 = z3.Ints("def.min def.max")
            for e in (a, b):
                st.assume(z3.And(e >= (0 if default else 1), X.inr(d0), X.inr(d1),
                                 z3.Implies(e > 0, z3.And(D(e, C), RQ(e, C) <= n, T(e) >= 1, T(e) <= len(N.TYPES)))))
            this, x = X.Region("this", 8), X.Region("x", 16)
            st.mem[this], st.mem[x] = {(0, 8): X.Ptr(ctx, 0)}, {(0, 8): X.NodePtr(a), (8, 8): X.NodePtr(b)}
            loc.update(a=a, b=b, C=C, ctx=ctx, d0=d0, d1=d1)
            args = [X.Ptr(this), X.Ptr(x)]
            if default:
                args += [d0, d1] if len(fn.params) == 4 else [X.Agg([d0, d1])]
            return args

        def fin(st, ret):
            C = loc["C"]
            for nm, e, d, r in (("min", loc["a"], loc["d0"], ret.v[0]), ("max", loc["b"], loc["d1"], ret.v[1])):
                ex.oblige(st, zi(r) == z3.If(e == 0, d, E(e, C)), "the %s is the value of its expression" % nm, assume=False)
            ex.oblige(st, nd.values(st, loc["ctx"]) == C, "every variable is bound as before", assume=False)
            unchanged(ex, st, nd)
        return fn, setup, fin
    s = S.Spec("evaluator::eval(const interval_expr&%s)" % (", interval" if default else ""), [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("rteval",)
    return s


def evaluate_spec(mod):
    def make(ex):
        fn = N.find([mod], r"slinky::evaluate\(slinky::expr const&, slinky::eval_context&\)")
        nd = Model(ex, mod)
        contracts(ex, nd, mod)
        loc = {}

        def setup(st):
            st.mem[nd.flat] = {(0, 8): nd.M0}
            ctx, C, n = nd.context(st)
            st.ghost["C"] = C
            op = z3.Int("op")
            st.assume(z3.And(op > 0, D(op, C), RQ(op, C) <= n, T(op) >= 1, T(op) <= len(N.TYPES)))
            h = X.Region("handle", 8)
            st.mem[h] = {(0, 8): X.NodePtr(op)}
            loc.update(op=op, C=C, n=n, ctx=ctx)
            return [X.Ptr(h), X.Ptr(ctx)]

        def fin(st, ret):
            ex.oblige(st, zi(ret) == E(loc["op"], loc["C"]), "the result is the value of the expression", assume=False)
            ex.oblige(st, nd.values(st, loc["ctx"]) == loc["C"], "every variable is bound as before", assume=False)
            unchanged(ex, st, nd)
        return fn, setup, fin
    s = S.Spec("evaluate(const expr&, eval_context&)", [mod], make, prover=N.prover, timeout=4.0)
    s.kinds = ("rteval",)
    return s


def specs(mod):
    H = r"\(slinky::expr const&\)"
    out = [spec(mod, "evaluator::eval(const expr&)", "eval" + H, True, None),
           spec(mod, "evaluator::eval_non_inlined(const expr&)", "eval_non_inlined" + H, True, [t for t in N.TYPES if t not in ("variable", "constant")]),
           spec(mod, "evaluator::eval_binary(const expr&)", "eval_binary" + H, True, N.BIN)]
    for t in TYPED:
        out.append(spec(mod, "evaluator::eval(const %s*)" % t, r"eval\(slinky::%s const\*\)" % t, False, [t]))
    out.append(spec(mod, "evaluator::eval_short_circuit_op", r"eval_short_circuit_op\(slinky::call const\*\)", False, ["call"], ["and_then", "or_else"]))
    out.append(spec(mod, "evaluator::eval_buffer_at", r"eval_buffer_at\(slinky::call const\*\)", False, ["call"], ["buffer_at"]))
    out += [default_spec(mod), interval_spec(mod, False), interval_spec(mod, True), evaluate_spec(mod)]
    return out
