"""Contracts of the statement evaluator (runtime/evaluate.cc): C14.

Evaluating a statement leaves every name of the context bound as it was and every buffer that existed before as it was; memory that an
allocation got is released once. Each evaluator of a statement is verified against this contract for the statements nested in it
(structural induction; statements are finite). A buffer is a region of memory with its fields and its dims, of arbitrary rank; the
buffer of the source name is BUF, and OTHER is any other one. x is an arbitrary name of the context.

A body is evaluated where the context maps the name that is declared to the buffer (or value) that the statement makes, which the
obligations of `Env.body` describe."""
import re
import z3
from . import bufs, evals, ex as X, nodes as N, spec as S
from .bufs import Dim, F, RB
from .nodes import I, Z, zi, hid

EV = evals.EV
BIG = 2 ** 31
EVAL = z3.Function("value", Z, Z)              # the value of an expression where it is evaluated
LO, HI, NB = (z3.Function("crop_" + n, *([Z] * 7)) for n in ("min", "max", "base"))
# whether a coordinate is in bounds of a dimension (its fields), and its offset in bytes (C07, C11 say what these are)
CONTAINS = z3.Function("contains", *([Z] * 5 + [z3.BoolSort()]))
OFFSET = z3.Function("flat_offset", *([Z] * 6))
ALLOC = 32                                     # offset of allocated_buffer::allocation


def value(e, default=None):
    return EVAL(e) if default is None else z3.If(e == 0, default, EVAL(e))


class Env:
    def __init__(self, ex, mod):
        self.ex, self.mod = ex, mod
        self.nd = evals.Model(ex, mod)
        self.L = N.layout()
        ex.alloca_elem = self.elem
        ex.node_cmp = None
        old = ex.havoc_cell

        def havoc(ex, s, reg, k, o):
            if reg is getattr(self, "local", None) and k == (0, 8):
                s.wcells(reg)[k] = X.Ptr(ex.flat, ex.fresh("base"))
                return True
            if isinstance(o, X.Ptr) and o.region in self.dims_of.values():
                s.wcells(reg)[k] = o
                return True
            return old(ex, s, reg, k, o)
        ex.havoc_cell = havoc
        self.dims_of = {}
        self.sequence = self.on_expr = None
        self.contracts()

    def elem(self, st, n):
        """The size of the elements of a local array of n bytes."""
        for k in (32, 16):
            if self.ex.must(st, zi(n) % k == 0):
                return k
        return 8

    # --- the state --------------------------------------------------------------------------------------------------------
    def start(self, st, need=()):
        ex, nd = self.ex, self.nd
        st.mem[nd.flat] = {(0, 8): nd.M0}
        self.ctx, self.C, self.n = nd.context(st)
        self.config = X.Region("config", 512)
        L = self.L
        st.mem[self.config] = {(L["config.thread_pool"], 8): X.NodePtr(z3.Int("pool"))}
        for k in ("allocate", "free", "check_failed", "call_failed"):
            st.mem[self.config][(L["config." + k] + 16, 8)] = X.NodePtr(z3.Int("config." + k))
            st.assume(z3.Int("config." + k) >= 0)
        for k in ("base_alignment", "stride_alignment", "auto_stack_threshold"):
            v = z3.Int(k)
            st.assume(z3.And(v >= 0, v < 2 ** 40))
            st.mem[self.config][(L["config." + k], 8)] = v
        st.assume(z3.Int("pool") >= 0)
        st.mem[self.ctx][(24, 8)] = X.Ptr(self.config, 0)
        self.this = X.Region("this", 8)
        st.mem[self.this] = {(0, 8): X.Ptr(self.ctx, 0)}
        self.x = z3.Int("x")
        st.assume(z3.And(self.x >= 0, self.x < self.n))
        self.ghost = X.Region("ghost", 64)
        # how often the body, allocate and free were called; the result of the last body
        st.mem[self.ghost] = {(8 * i, 8): I(0) for i in range(8)}
        self.bodies = {}
        self.bufs = {}
        return X.Ptr(self.this, 0)

    def name(self, st, n, bound=True):
        v = z3.Int(n)
        st.assume(z3.And(v >= 0, v < 2 ** 40))
        if bound:
            st.assume(v < self.n)
        return v

    def expr(self, st, n, defined=True):
        v = z3.Int(n)
        st.assume(v > 0 if defined else v >= 0)
        return v

    def count(self, st, n):
        v = z3.Int(n)
        st.assume(z3.And(v >= 0, v < BIG))
        return v

    def buf(self, st, n):
        e = bufs.Env.__new__(bufs.Env)
        e.ex, e.mod = self.ex, self.mod
        b = e.buf(st, n, base=False)
        st.assume(b.rank < BIG)
        b.addr = z3.Int("address of " + n)
        st.assume(b.addr > 0)
        b.reg.addr = b.addr
        self.bufs[n] = b
        self.dims_of[b.reg] = b.dreg
        return b

    def op(self, st, t, cells):
        """The node; cells: {field or (field, offset): value}."""
        L, r = self.L, X.Region("op", 256)
        d = {(L[t + ".type"], 4): I(L["stmt." + t])}
        for k, v in cells.items():
            f, o, w = (k, 0, 8) if isinstance(k, str) else (k + (8,))[:3]
            if isinstance(v, list):
                for i, e in enumerate(v):
                    d[(L["%s.%s" % (t, f)] + 8 * i, 8)] = e
            else:
                d[(L["%s.%s" % (t, f)] + o, w)] = v
        st.mem[r] = d
        self.opreg = r
        return X.Ptr(r, 0)

    def stmt(self, st, n, view=None):
        """A nested statement."""
        r = X.Region(n, 64)
        r.const = True
        st.mem[r] = {(12, 4): z3.Int(n + ".type")}
        self.bodies[r] = view
        return X.Ptr(r, 0)

    def vector(self, st, n, elem, arrays, count, access=None):
        """A vector as three words; arrays: {(offset, size): array}."""
        r = X.Region(n, None, "array", elem)
        r.const = True

        def within(ex, st, i, f, size):
            if not ex.dry:
                ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < count), "%s are accessed within bounds" % n)
            if access is not None:
                access(st, zi(i))
        r.on_access = within
        st.mem[r] = dict(arrays)
        return [X.Ptr(r, 0), X.Ptr(r, elem * count), X.Ptr(r, elem * count)]

    def g(self, st, i):
        return zi(st.cells(self.ghost)[(8 * i, 8)])

    def gset(self, st, i, v):
        self.ex.put(st, self.ghost, 8 * i, 8, v)

    # --- contracts ---------------------------------------------------------------------------------------------------------
    def grow(self, st, ctx, keep=True):
        """The context after evaluating something in it."""
        ex, nd = self.ex, self.nd
        a, n = nd.values(st, ctx), nd.size(st, ctx)
        n2 = ex.fresh("size")
        st.assume(z3.And(n2 >= n, n2 < evals.BIG))
        if not keep:
            k = z3.Int("k!")
            h = z3.Array("values!%d" % next(ex.fresh_n), Z, Z)
            a = z3.Lambda([k], z3.If(k < n, z3.Select(a, k), z3.Select(h, k)))
        nd.put(st, ctx, a, n2, writes=True)

    def handle(self, st, p):
        return hid(self.ex.load(st, self.mod, ("ptr",), p))

    def context_of(self, st, this):
        return evals.this_ctx(self.ex, st, self.mod, this)

    def expr_value(self, st, this, p, default=None):
        e = self.handle(st, p)
        if self.on_expr and not self.ex.dry:
            self.on_expr(st, self.context_of(st, this), e)
        if default is None:
            self.ex.oblige(st, e > 0, "only defined expressions are evaluated")
        self.grow(st, self.context_of(st, this))
        r = value(e, default)
        st.assume(X.inr(EVAL(e)))
        return r

    def as_call(self, st, e):
        o = st.fork()
        o.assume(e != 0)
        return [(st, X.NULL), (o, X.NodePtr(e))]

    def contracts(self):
        ex, nd, mod = self.ex, self.nd, self.mod

        def die(ex, st, v, i):
            ex.oblige(st, False, "assertions hold")
            return X.DEAD
        ex.contract(r"__assert_fail", die)
        ex.contract(EV + r"eval\(slinky::expr const&\)", lambda ex, st, v, i: self.expr_value(st, v[0], v[1]))
        ex.contract(EV + r"eval\(slinky::expr const&, long\)", lambda ex, st, v, i: self.expr_value(st, v[0], v[1], zi(v[2])))
        ex.contract(EV + r"eval\(slinky::interval_expr const&\)", lambda ex, st, v, i: X.Agg([
            self.expr_value(st, v[0], v[1]), self.expr_value(st, v[0], ex.addoff(v[1], 8))]))

        def interval(ex, st, v, i):
            d = [zi(x) for x in (v[2].v if isinstance(v[2], X.Agg) else v[2:4])]
            return X.Agg([self.expr_value(st, v[0], v[1], d[0]), self.expr_value(st, v[0], ex.addoff(v[1], 8), d[1])])
        ex.contract(EV + r"eval\(slinky::interval_expr const&, slinky::\(anonymous namespace\)::interval\)", interval)

        def node(ex, st, v, i):
            self.grow(st, self.context_of(st, v[0]))
            st.assume(X.inr(EVAL(hid(v[1]))))
            return EVAL(hid(v[1]))
        ex.contract(EV + r"eval\(slinky::call const\*\)", node)
        ex.contract(r"slinky::call const\* slinky::expr::as<slinky::call>\(\) const", lambda ex, st, v, i: self.as_call(st, self.handle(st, v[0])))
        ex.contract(EV + r"eval\(slinky::stmt const&\)", lambda ex, st, v, i: self.body(st, self.context_of(st, v[0]), v[1]))
        ex.contract(EV + r"eval_non_inlined\(slinky::stmt const&\)", lambda ex, st, v, i: self.body(st, self.context_of(st, v[0]), v[1]))
        ex.contract(r"slinky::evaluate\(slinky::stmt const&, slinky::eval_context&\)", lambda ex, st, v, i: self.body(st, v[1].region, v[0]))

        def with_value(ex, st, v, i):
            return self.body(st, self.context_of(st, v[0]), v[1], (v[2], v[3]))
        ex.contract(EV + r"eval_with_value\(slinky::stmt const&, slinky::var, long\)", with_value)

        def resize(ex, st, v, i):
            ctx = v[0].region
            n = zi(v[1])
            ex.oblige(st, z3.And(n >= nd.size(st, ctx), n < 2 * evals.BIG + 2), "the context only grows")
            st.assume(n < evals.BIG)      # the memory suffices
            nd.put(st, ctx, nd.values(st, ctx), n, writes=True)
        ex.contract(r"std::vector<long, slinky::uninitialized_allocator<long.*>>::resize\(unsigned long\)", resize)

        def lookup(ex, st, v, i):
            ctx, s = v[0].region, zi(v[1])
            ex.oblige(st, z3.And(s >= 0, s < nd.size(st, ctx)), "variables are looked up within the context")
            w = z3.Select(nd.values(st, ctx), s)
            for b in self.bufs.values():
                if ex.must(st, w == b.addr):
                    return b.ptr()
            for f in st.ghost.get("tracked", ()):
                if ex.must(st, w == f.addr):
                    return X.Ptr(f, 0)
            return w
        ex.contract(r"slinky::eval_context::lookup\(slinky::var\) const", lambda ex, st, v, i: (lambda r: X.PtrInt(r) if isinstance(r, X.Ptr) else r)(lookup(ex, st, v, i)))
        ex.contract(r"slinky::eval_context::lookup_buffer\(slinky::var\) const", lambda ex, st, v, i: (lambda r: r if isinstance(r, X.Ptr) else ex.intptr(r))(lookup(ex, st, v, i)))

        def crop(ex, st, v, i):
            d, mn, mx = map(zi, v[1:4])
            self.crop(st, v[0].region, d, mn, mx)
        ex.contract(r"slinky::raw_buffer::crop\(unsigned long, long, long\)", crop)

        def dim_of(st, p):
            return [zi(ex.load(st, mod, ("i", 64), ex.addoff(p, o))) for o in F.values()]
        ex.contract(r"slinky::dim::contains\(long\) const", lambda ex, st, v, i: CONTAINS(*dim_of(st, v[0]), zi(v[1])))

        def offset(ex, st, v, i):
            r = OFFSET(*dim_of(st, v[0]), zi(v[1]))
            st.assume(X.inr(r))
            return r
        ex.contract(r"slinky::dim::flat_offset_bytes\(long\) const", offset)

        def copy(ex, st, v, i):
            """copy_small_n: the first n dims."""
            src, n, dst = v
            n = zi(n)
            if not isinstance(src, X.Ptr) or not isinstance(dst, X.Ptr) or src.region.kind != "array" or dst.region.kind != "array":
                if ex.must(st, n == 0):
                    return None
                raise X.Undecided("dims are copied from somewhere else")
            (a, f), (b, g) = ex.array_index(st, src.region, src.off), ex.array_index(st, dst.region, dst.off)
            if f or g or dst.region.elem != 32 or src.region.elem != 32:
                raise X.Undecided("dims are copied to somewhere else")
            q = z3.Int("q!")
            some = n >= 1
            for r, k in ((src.region, a), (dst.region, b)):
                if getattr(r, "alloca", None) is not None:
                    ex.oblige(st, z3.Implies(some, z3.And(k >= 0, 32 * (k + n) <= r.alloca)), "memory access within a local array")
                elif not ex.dry:
                    for e in (k, k + n - 1):
                        s = st.fork()
                        s.assume(some)
                        if ex.sat(s, True) != "unsat":
                            r.on_access(ex, s, e, 0, 8)
            for o in F.values():
                x, y = ex.array_term(st, src.region, o, 8), ex.array_term(st, dst.region, o, 8)
                st.wcells(dst.region)[(o, 8)] = z3.Lambda([q], z3.If(z3.And(b <= q, q < b + n), z3.Select(x, q - b + a), z3.Select(y, q)))
                if st.writes is not None:
                    st.writes.add((dst.region, (o, 8)))
        ex.contract(r"void slinky::internal::copy_small_n<slinky::dim>\(slinky::dim const\*, unsigned long, slinky::dim\*\)", copy)
        ex.contract(r"std::.*operator<<.*", lambda ex, st, v, i: v[0])
        ex.contract(r"slinky::operator<<\(std::ostream&, .*", lambda ex, st, v, i: v[0])
        ex.contract(r"std::ostream::operator<<\(.*", lambda ex, st, v, i: v[0])

    def crop(self, st, reg, d, mn, mx):
        """raw_buffer::crop (C07) changes the bounds of one dimension and the base."""
        ex = self.ex
        dims = ex.load(st, self.mod, ("ptr",), X.Ptr(reg, RB["dims"]))
        rank = zi(ex.load(st, self.mod, ("i", 64), X.Ptr(reg, RB["rank"])))
        base = zi(ex.address(ex.load(st, self.mod, ("ptr",), X.Ptr(reg, RB["base"]))))
        ex.oblige(st, d >= 0, "dimensions are not negative")
        have = d < rank
        if not isinstance(dims, X.Ptr) or dims.region.kind != "array":
            raise X.Undecided("the dims are somewhere else")
        k, f = ex.array_index(st, dims.region, dims.off)
        if f or dims.region.elem != 32:
            raise X.Undecided("the dims are not aligned")
        old = [z3.Select(ex.array_term(st, dims.region, F[n], 8), k + d) for n in F]
        s = st.fork()
        s.assume(have)
        if not ex.dry and ex.sat(s, True) != "unsat":
            dims.region.on_access(ex, s, z3.simplify(k + d), 0, 8)
        lo, hi, nb = cropped(old, base, mn, mx)
        for n, v in (("min", lo), ("max", hi)):
            a = ex.array_term(st, dims.region, F[n], 8)
            st.wcells(dims.region)[(F[n], 8)] = z3.Store(a, k + d, z3.If(have, v, z3.Select(a, k + d)))
            if st.writes is not None:
                st.writes.add((dims.region, (F[n], 8)))
        ex.put(st, reg, 0, 8, X.Ptr(ex.flat, z3.If(have, nb, base)))
        st.assume(z3.And(X.inr(lo), X.inr(hi), nb >= 0))

    def body(self, st, ctx, handle, binding=None):
        """A nested statement is evaluated in a context, where a name may be bound to a value first."""
        ex, nd = self.ex, self.nd
        p = ex.load(st, self.mod, ("ptr",), handle)
        if self.sequence is not None:
            ex.oblige(st, hid(p) == z3.Select(self.sequence, self.g(st, 0)), "the statements are evaluated in order", assume=False)
            ex.oblige(st, self.g(st, 1) == 0, "no statement is evaluated after one that failed", assume=False)
            view = None
        else:
            if not isinstance(p, X.Ptr) or p.region not in self.bodies:
                raise X.Undecided("something else is evaluated")
            view = self.bodies[p.region]
        arr, n = nd.values(st, ctx), nd.size(st, ctx)
        if binding is not None:
            s, v = zi(binding[0]), binding[1]
            v = ex.address(v)
            now = z3.Store(arr, s, zi(v))
        else:
            now = arr
        if view is not None and not ex.dry:
            view(st, ctx, now, binding)
        # the local buffers that the body may find in the context
        self.grow(st, ctx, keep=False)
        self.gset(st, 0, self.g(st, 0) + 1)
        r = ex.fresh("result")
        st.assume(X.inr(r))
        self.gset(st, 1, r)
        outs = [(st, r)]
        for reg in [r for r in st.mem if r.name.startswith("local ") and (ALLOC, 8) in st.cells(r) and r.size > ALLOC]:
            # the body may release the memory of an allocation early
            more = []
            for s, v in outs:
                a = s.cells(reg).get((ALLOC, 8))
                if a is None:
                    continue
                a = zi(ex.address(a))
                o = s.fork()
                o.assume(a != 0)
                if ex.sat(o, True) == "unsat":
                    continue
                ex.put(o, reg, ALLOC, 8, X.NULL)
                self.gset(o, 3, self.g(o, 3) + 1)
                more.append((o, v))
            outs += more
        return outs if len(outs) > 1 else r

    # --- what holds afterwards ---------------------------------------------------------------------------------------------
    def restored(self, st):
        ex, nd = self.ex, self.nd
        ex.oblige(st, nd.size(st, self.ctx) >= self.n, "the context does not shrink", assume=False)
        ex.oblige(st, z3.Select(nd.values(st, self.ctx), self.x) == z3.Select(self.C, self.x), "every name is bound as before", assume=False)
        for n, b in self.bufs.items():
            self.same(st, b, n)

    def same(self, st, b, n):
        ex = self.ex
        c = st.cells(b.reg)
        what = "the source buffer" if n == "BUF" else "another buffer"
        ob = lambda cond, w: ex.oblige(st, cond, "%s of %s is as before" % (w, what), assume=False)
        ob(b.new_base(st) == b.base, "the base")
        ob(zi(c[(8, 8)]) == b.elem, "the element size")
        ob(b.new_rank(st) == b.rank, "the rank")
        p = c[(24, 8)]
        ob(isinstance(p, X.Ptr) and p.region is b.dreg and X.conc(p.off) == 0, "the address of the dims")
        j = z3.Int("dimension")
        s = st.fork()
        s.assume(z3.And(0 <= j, j < b.rank))
        ex.oblige(s, b.new(s, j).same(b.old(j)), "every dimension of %s is as before" % what, assume=False)

    # --- the buffer that a body sees ------------------------------------------------------------------------------------------
    def seen(self, st, binding, name):
        """The buffer that is bound to the name; (region of the buffer, Dim of dimension i)."""
        ex = self.ex
        if binding is None:
            raise X.Undecided("the buffer is bound somewhere else")
        ex.oblige(st, zi(binding[0]) == name, "the body sees the buffer by the name that is declared", assume=False)
        v = binding[1]
        p = v.ptr if isinstance(v, X.PtrInt) else None
        if not isinstance(p, X.Ptr):
            raise X.Undecided("the name is bound to something else")
        return p.region

    def fields(self, st, reg):
        ex = self.ex
        c = st.cells(reg)
        return [zi(ex.address(c[(0, 8)])), zi(c[(8, 8)]), zi(c[(16, 8)])]

    def dim(self, st, reg, i):
        ex = self.ex
        p = st.cells(reg)[(24, 8)]
        if not isinstance(p, X.Ptr) or p.region.kind != "array":
            raise X.Undecided("the dims are somewhere else")
        k, f = ex.array_index(st, p.region, p.off)
        return Dim(*[z3.Select(ex.array_term(st, p.region, F[n], 8), k + zi(i)) for n in F])


def cropped(old, base, mn, mx):
    """The bounds of a dimension and the base after cropping (C07 says which coordinates and addresses these give)."""
    a = [base] + old[:4]
    lo = z3.If(mn > old[0], mn, old[0])
    hi = z3.If(mx < old[1], mx, old[1])
    return lo, hi, NB(*(a + [mn]))


def spec(mod, name, pattern, setup, post=None, candidates=None, kinds=("stmt",)):
    """setup(env, st, this) -> arguments."""
    def make(ex):
        fn = N.find([mod], pattern)
        if fn is None:
            raise X.Undecided("function not found: " + name)
        env = Env(ex, mod)
        if candidates:
            ex.loop_candidates[r""] = lambda ex, st, fn, head, entry: candidates(env, ex, st, fn, head, entry)

        def init(st):
            this = env.start(st)
            return setup(env, st, this)

        def fin(st, ret):
            if post:
                post(env, st, ret)
            env.restored(st)
        return fn, init, fin
    s = S.Spec(name, [mod], make, prover=bufs.prover, timeout=4.0)
    s.kinds = kinds
    return s


def one_body(env, st, ret, may_fail=False):
    """The body was evaluated once, and its result is the result."""
    ex = env.ex
    n = env.g(st, 0)
    if may_fail:
        ex.oblige(st, z3.Or(z3.And(n == 1, zi(ret) == env.g(st, 1)), z3.And(n == 0, zi(ret) != 0)), "the body is evaluated once, and its result is the result", assume=False)
    else:
        ex.oblige(st, z3.And(n == 1, zi(ret) == env.g(st, 1)), "the body is evaluated once, and its result is the result", assume=False)


# --- the evaluators -------------------------------------------------------------------------------------------------------
def sources(env, st, shadowed):
    """The names and the buffers of a statement that makes a buffer of another: (sym, src)."""
    sym, src = env.name(st, "sym", False), env.name(st, "src")
    B, O = env.buf(st, "BUF"), env.buf(st, "OTHER")
    st.assume(z3.And(z3.Select(env.C, src) == B.addr, z3.Select(env.C, z3.Int("other")) == O.addr, B.addr != O.addr,
                     z3.Int("other") >= 0, z3.Int("other") < env.n))
    if shadowed is not None:
        st.assume(sym == src if shadowed else sym != src)
    return sym, src


def in_place(env, f):
    """What a body sees of a buffer that is modified in place."""
    def view(st, ctx, now, binding):
        ex = env.ex
        if binding is not None:
            raise X.Undecided("the buffer is not modified in place")
        f(st, env.bufs["BUF"].reg)
    return view


def bound_to(env, sym, f):
    def view(st, ctx, now, binding):
        f(st, env.seen(st, binding, sym))
    return view


def see(env, st, what, base, elem, rank, dims):
    """dims(j): what dimension j is, for any j below the rank."""
    ex = env.ex
    reg, = what
    b, e, r = env.fields(st, reg)
    ob = lambda s, c, n: ex.oblige(s, c, "the body sees " + n, assume=False)
    ob(st, b == base, "the base as specified")
    ob(st, e == elem, "the element size as specified")
    ob(st, r == rank, "the rank as specified")
    j = z3.Int("dimension")
    s = st.fork()
    s.assume(z3.And(0 <= j, j < rank))
    if ex.sat(s, True) != "unsat":
        ob(s, env.dim(s, reg, j).same(dims(j)), "every dimension as specified")


def spec_crop_dim(mod, shadowed):
    def setup(env, st, this):
        sym, src = sources(env, st, shadowed)
        d = z3.Int("dim")
        st.assume(z3.And(d >= 0, d < BIG))
        mn, mx = env.expr(st, "bounds.min", False), env.expr(st, "bounds.max", False)
        B = env.bufs["BUF"]

        def sees(st, reg):
            D = B.old(d)
            # dimensions from the rank on are broadcasts, whose bounds are not used by crop
            have = d < B.rank
            lo, hi, nb = cropped([getattr(D, k) for k in F], B.base, value(mn, D.min), value(mx, D.max))
            pick = lambda j: Dim(z3.If(j == d, lo, B.old(j).min), z3.If(j == d, hi, B.old(j).max), B.old(j).stride, B.old(j).fold)
            see(env, st, (reg,), z3.If(have, nb, B.base), B.elem, B.rank, pick)
        body = env.stmt(st, "body", in_place(env, sees) if shadowed else bound_to(env, sym, sees))
        return [this, env.op(st, "crop_dim", {"sym": sym, "src": src, ("dim", 0, 4): d, "bounds": [X.NodePtr(mn), X.NodePtr(mx)], "body": body})]
    return spec(mod, "evaluator::eval_%sshadowed(const crop_dim*)" % ("" if shadowed else "un"),
                EV + r"eval_%sshadowed\(slinky::crop_dim const\*\)" % ("" if shadowed else "un"), setup, one_body)


def spec_clone(mod):
    def setup(env, st, this):
        sym, src = sources(env, st, None)
        B = env.bufs["BUF"]
        body = env.stmt(st, "body", bound_to(env, sym, lambda st, reg: (
            env.ex.oblige(st, reg is not B.reg, "the body sees a copy", assume=False),
            see(env, st, (reg,), B.base, B.elem, B.rank, B.old))))
        return [this, env.op(st, "clone_buffer", {"sym": sym, "src": src, "body": body})]
    return spec(mod, "evaluator::eval(const clone_buffer*)", EV + r"eval\(slinky::clone_buffer const\*\)", setup, one_body)


def spec_crop_buffer(mod, shadowed):
    BASE = z3.Function("cropped_base", Z, Z)       # the base after cropping the first dimensions

    def setup(env, st, this):
        sym, src = sources(env, st, shadowed)
        B, ex = env.bufs["BUF"], env.ex
        n = env.count(st, "bounds")
        MN, MX = z3.Array("bounds.mins", Z, Z), z3.Array("bounds.maxs", Z, Z)
        after = lambda i: cropped([getattr(B.old(i), k) for k in F], BASE(i), value(z3.Select(MN, i), B.old(i).min), value(z3.Select(MX, i), B.old(i).max))
        env.after, env.BASE = after, BASE
        st.assume(BASE(I(0)) == B.base)
        rank = z3.If(n < B.rank, n, B.rank)
        env.crop_rank = rank

        def access(st, i):
            st.assume(z3.And(z3.Select(MN, i) >= 0, z3.Select(MX, i) >= 0, BASE(i + 1) == after(i)[2]))

        def sees(st, reg):
            def pick(j):
                lo, hi, _ = after(j)
                return Dim(z3.If(j < rank, lo, B.old(j).min), z3.If(j < rank, hi, B.old(j).max), B.old(j).stride, B.old(j).fold)
            see(env, st, (reg,), BASE(rank), B.elem, B.rank, pick)
        body = env.stmt(st, "body", in_place(env, sees) if shadowed else bound_to(env, sym, sees))
        v = env.vector(st, "bounds", 16, {(0, 8): MN, (8, 8): MX}, n, access)
        return [this, env.op(st, "crop_buffer", {"sym": sym, "src": src, "bounds": v, "body": body})]

    def cand(env, ex, st, fn, head, entry):
        B, out = env.bufs["BUF"], names(env)
        q, j = z3.Int("q!"), z3.Int("dimension")
        reg = st.cells(B.reg)
        local = [r for r in st.mem if r.name.startswith("local ") and r.kind == "array" and r.elem == 32]
        cell = local[0] if local else B.dreg
        old = [r for r in st.mem if r.name.startswith("local ") and r.kind == "array" and r.elem == 16]
        for k, x in entry.items():
            if k.startswith("*") or not isinstance(x, (int, z3.ArithRef)) or isinstance(x, bool):
                continue
            at = lambda v, k=k: zi(v[k])
            out.append(("%s is a number of dimensions" % k, lambda ex, s, v, at=at: z3.And(at(v) >= 0, at(v) <= env.crop_rank)))
            for f in ("min", "max"):
                arr = lambda s, f=f: ex.array_term(s, cell, F[f], 8)
                oa = lambda s, f=f: ex.array_term(s, old[0], F[f], 8)
                was = B.arr[f]
                new = lambda q, f=f: env.after(q)[0 if f == "min" else 1]
                out.append(("%s from %s on is unchanged" % (f, k), lambda ex, s, v, at=at, arr=arr, was=was: z3.ForAll([q], z3.Implies(
                    z3.And(q >= at(v), q < B.rank), z3.Select(arr(s), q) == z3.Select(was, q)))))
                out.append(("%s of the first %s is cropped" % (f, k), lambda ex, s, v, at=at, arr=arr, new=new: z3.ForAll([q], z3.Implies(
                    z3.And(0 <= q, q < at(v)), z3.Select(arr(s), q) == new(q)))))
                out.append(("%s of the first %s is as before" % (f, k), lambda ex, s, v, at=at, arr=arr, was=was: z3.ForAll([q], z3.Implies(
                    z3.And(0 <= q, q < at(v)), z3.Select(arr(s), q) == z3.Select(was, q)))))
                out.append(("%s of the others is as before" % f, lambda ex, s, v, arr=arr, was=was: z3.ForAll([q], z3.Implies(
                    z3.And(q >= env.crop_rank, q < B.rank), z3.Select(arr(s), q) == z3.Select(was, q)))))
                if old:
                    out.append(("the old %s of the first %s is saved" % (f, k), lambda ex, s, v, at=at, oa=oa, was=was: z3.ForAll([q], z3.Implies(
                        z3.And(0 <= q, q < at(v)), z3.Select(oa(s), q) == z3.Select(was, q)))))
                    out.append(("the old %s is saved" % f, lambda ex, s, v, oa=oa, was=was: z3.ForAll([q], z3.Implies(
                        z3.And(0 <= q, q < env.crop_rank), z3.Select(oa(s), q) == z3.Select(was, q)))))
            for r in [B.reg] + [r for r in st.mem if r.size == 32 and r.name.startswith("local ")]:
                base = lambda s, r=r: zi(ex.address(s.cells(r).get((0, 8), X.NULL)))
                out.append(("%s is the base after %s" % (r.name, k), lambda ex, s, v, at=at, base=base: base(s) == env.BASE(at(v))))
                out.append(("%s is as before" % r.name, lambda ex, s, v, base=base: base(s) == B.base))
        return out
    return spec(mod, "evaluator::eval_%sshadowed(const crop_buffer*)" % ("" if shadowed else "un"),
                EV + r"eval_%sshadowed\(slinky::crop_buffer const\*\)" % ("" if shadowed else "un"), setup, one_body, cand)


def names(env):
    """Loop invariants: the context is as it was."""
    ex, nd = env.ex, env.nd
    get = lambda s, k: z3.Select(nd.values(s, env.ctx), k)
    return [("every name is bound as before", lambda ex, s, v: get(s, env.x) == z3.Select(env.C, env.x)),
            ("the context does not shrink", lambda ex, s, v: nd.size(s, env.ctx) >= env.n),
            ("the source is bound as before", lambda ex, s, v: get(s, z3.Int("src")) == z3.Select(env.C, z3.Int("src")))]


def integers(entry):
    return [k for k, x in entry.items() if not k.startswith("*") and isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool)]


def local(st, elem):
    return [r for r in st.mem if r.name.startswith("local ") and r.kind == "array" and r.elem == elem]


def headers(st):
    """The local buffers."""
    return [r for r in st.mem if r.name.startswith("local ") and r.kind == "struct" and (24, 8) in st.cells(r)]


# --- slices ---------------------------------------------------------------------------------------------------------------
def sliced(base, D, at):
    """The address of the element at a coordinate of a dimension, null if there is none."""
    a = [getattr(D, k) for k in F] + [at]
    return z3.If(base == 0, I(0), z3.If(CONTAINS(*a), base + OFFSET(*a), I(0)))


def addressable(st, base, D, at):
    """The element at a coordinate in bounds has an address (C11)."""
    a = [getattr(D, k) for k in F] + [at]
    st.assume(z3.Implies(z3.And(base != 0, CONTAINS(*a)), z3.And(X.inr(OFFSET(*a)), X.inr(base + OFFSET(*a)), base + OFFSET(*a) > 0)))


def spec_slice_dim(mod):
    def setup(env, st, this):
        sym, src = sources(env, st, None)
        B = env.bufs["BUF"]
        d = z3.Int("dim")
        st.assume(z3.And(d >= 0, d < BIG))
        at = env.expr(st, "at")
        D = B.fact(st, d)
        addressable(st, B.base, D, EVAL(at))
        have = d < B.rank

        def sees(st, reg):
            pick = lambda j: Dim(*[z3.If(z3.And(have, j >= d), getattr(B.old(j + 1), k), getattr(B.old(j), k)) for k in F])
            see(env, st, (reg,), z3.If(have, sliced(B.base, D, EVAL(at)), B.base), B.elem, z3.If(have, B.rank - 1, B.rank), pick)
        body = env.stmt(st, "body", bound_to(env, sym, sees))
        return [this, env.op(st, "slice_dim", {"sym": sym, "src": src, ("dim", 0, 4): d, "at": X.NodePtr(at), "body": body})]

    def cand(env, ex, st, fn, head, entry):
        B, out, q = env.bufs["BUF"], names(env), z3.Int("q!")
        dims, d = local(st, 32), z3.Int("dim")
        for k in integers(entry):
            at = lambda v, k=k: zi(v[k])
            out.append(("%s is not negative" % k, lambda ex, s, v, at=at: at(v) >= 0))
            out.append(("%s is at most the dimension" % k, lambda ex, s, v, at=at: at(v) <= d))
            out.append(("%s is at least the dimension" % k, lambda ex, s, v, at=at: at(v) >= d))
            out.append(("%s is at most the rank" % k, lambda ex, s, v, at=at: at(v) <= B.rank - 1))
            for f in F:
                for r in dims:
                    arr = lambda s, f=f, r=r: ex.array_term(s, r, F[f], 8)
                    out.append(("%s below %s and the dimension is that of the source" % (f, k), lambda ex, s, v, at=at, arr=arr, f=f: z3.ForAll([q], z3.Implies(
                        z3.And(0 <= q, q < d, q < at(v)), z3.Select(arr(s), q) == z3.Select(B.arr[f], q)))))
                    out.append(("%s from the dimension to %s is that of the source" % (f, k), lambda ex, s, v, at=at, arr=arr, f=f: z3.ForAll([q], z3.Implies(
                        z3.And(d <= q, q < at(v)), z3.Select(arr(s), q) == z3.Select(B.arr[f], q + 1)))))
        return out
    return spec(mod, "evaluator::eval(const slice_dim*)", EV + r"eval\(slinky::slice_dim const\*\)", setup, one_body, cand)


def spec_slice_buffer(mod):
    KEPT, BASE = z3.Function("kept", Z, Z), z3.Function("sliced_base", Z, Z)       # of the first dimensions

    def setup(env, st, this):
        sym, src = sources(env, st, None)
        B = env.bufs["BUF"]
        n = env.count(st, "at")
        AT = z3.Array("at.exprs", Z, Z)
        keep = lambda i: z3.Or(i >= n, z3.Select(AT, i) == 0)
        env.keep, env.KEPT, env.BASE = keep, KEPT, BASE
        st.assume(z3.And(KEPT(I(0)) == 0, BASE(I(0)) == B.base))

        def access(st, i):
            key = ("at fact", i.get_id())
            if key in st.ghost:
                return
            st.ghost[key] = i
            st.assume(z3.Select(AT, i) >= 0)
            D = B.fact(st, i)
            addressable(st, BASE(i), D, EVAL(z3.Select(AT, i)))
            step(st, i)

        def step(st, i):
            D = B.fact(st, i)
            st.assume(z3.And(KEPT(i + 1) == KEPT(i) + z3.If(keep(i), 1, 0),
                             BASE(i + 1) == z3.If(keep(i), BASE(i), sliced(BASE(i), D, EVAL(z3.Select(AT, i))))))
        env.step = step

        def sees(st, reg):
            b, e, r = env.fields(st, reg)
            ob = lambda s, c, w: env.ex.oblige(s, c, "the body sees " + w, assume=False)
            ob(st, z3.And(b == BASE(B.rank), e == B.elem, r == KEPT(B.rank)), "the base, element size and rank as specified")
            j = z3.Int("dimension")
            s = st.fork()
            s.assume(z3.And(0 <= j, j < B.rank, keep(j)))
            ob(s, env.dim(s, reg, KEPT(j)).same(B.old(j)), "every dimension that is not sliced")
        body = env.stmt(st, "body", bound_to(env, sym, sees))
        v = env.vector(st, "at", 8, {(0, 8): AT}, n, access)
        return [this, env.op(st, "slice_buffer", {"sym": sym, "src": src, "at": v, "body": body})]

    def cand(env, ex, st, fn, head, entry):
        B, out, q = env.bufs["BUF"], names(env), z3.Int("q!")
        dims = local(st, 32)
        for k in integers(entry):
            at = lambda v, k=k: zi(v[k])

            def bounds(ex, s, v, at=at):
                env.step(s, at(v))
                return z3.And(at(v) >= 0, at(v) <= B.rank)
            out.append(("%s is a number of dimensions" % k, bounds))
            out.append(("the dimensions kept are fewer than %s" % k, lambda ex, s, v, at=at: z3.And(KEPT(at(v)) >= 0, KEPT(at(v)) <= at(v))))
            out.append(("the dimensions that are kept below %s are in order" % k, lambda ex, s, v, at=at: z3.ForAll([q], z3.Implies(
                z3.And(0 <= q, q < at(v), env.keep(q)), z3.And(0 <= KEPT(q), KEPT(q) < KEPT(at(v)))))))
            for h in headers(st):
                cell = lambda s, o, h=h: zi(ex.address(s.cells(h).get((o, 8), X.NULL)))
                out.append(("%s has the dimensions that are kept below %s" % (h.name, k), lambda ex, s, v, at=at, cell=cell: cell(s, 16) == KEPT(at(v))))
                out.append(("%s has the base sliced below %s" % (h.name, k), lambda ex, s, v, at=at, cell=cell: cell(s, 0) == BASE(at(v))))
            for f in F:
                for r in dims:
                    arr = lambda s, f=f, r=r: ex.array_term(s, r, F[f], 8)
                    out.append(("%s of the dimensions kept below %s is that of the source" % (f, k), lambda ex, s, v, at=at, arr=arr, f=f: z3.ForAll([q], z3.Implies(
                        z3.And(0 <= q, q < at(v), env.keep(q)), z3.Select(arr(s), KEPT(q)) == z3.Select(B.arr[f], q)))))
        return out
    return spec(mod, "evaluator::eval(const slice_buffer*)", EV + r"eval\(slinky::slice_buffer const\*\)", setup, one_body, cand)


# --- transposes -----------------------------------------------------------------------------------------------------------
def broadcast(d):
    return z3.And(d.min == 0, d.max == 0, d.stride == 0)


def spec_transpose(mod):
    def setup(env, st, this):
        sym, src = sources(env, st, None)
        ex, B = env.ex, env.bufs["BUF"]
        n = env.count(st, "dims")
        DI = z3.Array("dims.index", Z, Z)
        trunc = z3.Bool("truncates")
        env.want = lambda j: Dim(*[z3.If(z3.Select(DI, j) < B.rank, getattr(B.old(z3.Select(DI, j)), k), I(0)) for k in F])

        def access(st, i):
            st.assume(z3.And(z3.Select(DI, i) >= 0, z3.Select(DI, i) < BIG, z3.Implies(trunc, z3.Select(DI, i) == i)))
        env.n_dims, env.access = n, access
        env.ex.contract(r"slinky::transpose::is_truncate\(\) const", lambda ex, st, v, i: trunc)

        def sees(st, ctx, now, binding):
            j = z3.Int("dimension")
            access(st, j)
            if binding is None:
                reg = B.reg
                ex.oblige(st, z3.And(trunc, sym == src), "only a buffer that is truncated is modified in place", assume=False)
            else:
                reg = env.seen(st, binding, sym)
            b, e, r = env.fields(st, reg)
            ob = lambda s, c, w: ex.oblige(s, c, "the body sees " + w, assume=False)
            ob(st, z3.And(b == B.base, e == B.elem, r >= 0, r <= n), "the base and element size as specified")
            s = st.fork()
            s.assume(z3.And(0 <= j, j < r))
            ob(s, env.dim(s, reg, j).same(env.want(j)), "every dimension as specified")
            s = st.fork()
            s.assume(z3.And(r <= j, j < n))
            ob(s, broadcast(env.want(j)), "broadcasts from the rank on")
        body = env.stmt(st, "body", sees)
        v = env.vector(st, "dims", 4, {(0, 4): DI}, n, access)
        return [this, env.op(st, "transpose", {"sym": sym, "src": src, "dims": v, "body": body})]

    def cand(env, ex, st, fn, head, entry):
        B, out, q = env.bufs["BUF"], names(env), z3.Int("q!")
        dims = local(st, 32)
        for k in integers(entry):
            at = lambda v, k=k: zi(v[k])
            out.append(("%s is a number of dimensions" % k, lambda ex, s, v, at=at: z3.And(at(v) >= 0, at(v) <= env.n_dims)))
            for r in dims:
                for f in F:
                    arr = lambda s, f=f, r=r: ex.array_term(s, r, F[f], 8)
                    out.append(("%s below %s is that of the source" % (f, k), lambda ex, s, v, at=at, arr=arr, f=f: z3.ForAll([q], z3.Implies(
                        z3.And(0 <= q, q < at(v)), z3.Select(arr(s), q) == getattr(env.want(q), f)))))
        for h in headers(st):
            rank = lambda s, h=h: zi(s.cells(h)[(16, 8)])
            if any(k.startswith("*" + h.name) for k in entry) or head in ("while.cond",):
                out.append(("the rank of %s is a number of dimensions" % h.name, lambda ex, s, v, rank=rank: z3.And(rank(s) >= 0, rank(s) <= env.n_dims)))
                out.append(("%s has only broadcasts from the rank on" % h.name, lambda ex, s, v, rank=rank: z3.ForAll([q], z3.Implies(
                    z3.And(rank(s) <= q, q < env.n_dims), broadcast(env.want(q))))))
        return out
    return spec(mod, "evaluator::eval(const transpose*)", EV + r"eval\(slinky::transpose const\*\)", setup, one_body, cand)


def specs(mod):
    out = [spec_crop_dim(mod, True), spec_crop_dim(mod, False), spec_crop_buffer(mod, True), spec_crop_buffer(mod, False), spec_clone(mod), spec_slice_dim(mod), spec_slice_buffer(mod), spec_transpose(mod)]
    return out
