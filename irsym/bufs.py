"""Contracts of raw_buffer and dim (runtime/buffer.h, runtime/buffer.cc): C07, C08, C11.

A dim is (min, max, stride, fold); dimension i of a buffer is in the region of its dims, of arbitrary length (the rank is arbitrary).
The offset of coordinate x in a dimension is 0 if the stride is 0, (x mod fold)*stride if it is folded, and (x - min)*stride
otherwise; the address of an element is base + the sum of the offsets of its coordinates."""
import re
import z3
from . import arith as A, build as B, ex as X, spec as S, nodes as N
from e1 import prove as P

I, zi = z3.IntVal, X.zi
Z = z3.IntSort()
F = {"min": 0, "max": 8, "stride": 16, "fold": 24}
RB = {"base": 0, "elem_size": 8, "rank": 16, "dims": 24}
AUTO = 2 ** 63 - 1
BIG = 2 ** 40
emod = N.ediv


def prover(hyps, goal, st):
    extra = list(st.ghost.get("lemmas", ())) + N.div_lemmas(st)
    if extra:
        r, m = P.check(hyps, goal, 4.0, extra)
        if r != "unknown":
            return r, "z3+lemmas", m
    if P.cvc5(hyps, goal, 6.0, extra) == "unsat":
        return "unsat", "cvc5", None
    return "unknown", "", None


class Dim:
    def __init__(self, mn, mx, stride, fold):
        self.min, self.max, self.stride, self.fold = mn, mx, stride, fold

    def fields(self):
        return [(k, getattr(self, k)) for k in F]

    def contains(self, x):
        return z3.Or(self.stride == 0, z3.And(self.min <= x, x <= self.max))

    def folded(self):
        return z3.And(self.stride != 0, self.fold != -1)

    def off(self, st, x):
        return z3.If(self.folded(), emod(st, x, self.fold)[1] * self.stride, z3.If(self.stride == 0, I(0), (x - self.min) * self.stride))

    def sane(self):
        """A fold factor is positive where it matters."""
        return z3.Or(self.stride == 0, self.fold == -1, self.fold > 0)

    def representable(self, st, x):
        """What computing the offset of x computes is representable."""
        return z3.And(X.inr(self.off(st, x)), z3.Or(self.folded(), X.inr(x - self.min)))

    def same(self, o):
        return z3.And(*[getattr(self, k) == getattr(o, k) for k in F])


BROADCAST = Dim(I(0), I(0), I(0), I(0))


class Env:
    """The inputs of one specification."""
    def __init__(self, ex, mod):
        self.ex, self.mod = ex, mod
        ex.flat = X.Region("memory", None, "array", 1)
        ex.node_load = None
        ex.contract(r"__assert_fail", self.assertion)
        self.posdiv()

    def assertion(self, ex, st, v, i):
        ex.oblige(st, False, "assertions hold")
        return X.DEAD

    def posdiv(self):
        ex = self.ex

        def pd(k):
            def f(ex, st, v, i):
                a, b = map(zi, v)
                ex.oblige(st, b > 0, "precondition of euclidean_%s: the divisor is positive" % ("div", "mod")[k])
                return emod(st, a, b)[k]
            return f
        ex.contract(r"long slinky::euclidean_mod_positive_modulus<long>\(long, long\)", pd(1))
        ex.contract(r"long slinky::euclidean_div_positive_divisor<long>\(long, long\)", pd(0))

    def int(self, st, n, w=64):
        v = z3.Int(n)
        self.ex.inputs[n] = v
        st.assume(X.inr(v, w))
        return v

    def dim(self, st, n, sane=True):
        """A dim as a struct; returns (pointer, Dim)."""
        r = X.Region(n, 32)
        d = Dim(*[self.int(st, "%s.%s" % (n, k)) for k in F])
        st.mem[r] = {(F[k], 8): v for k, v in d.fields()}
        if sane:
            st.assume(d.sane())
        return X.Ptr(r, 0), d

    def out(self, st, n):
        r = X.Region(n, 32)
        st.mem[r] = {}
        return X.Ptr(r, 0)

    def dim_at(self, st, p):
        c = st.cells(p.region)
        o = X.conc(p.off)
        vals = []
        for k in F:
            v = self.ex.struct_load(st, self.mod, p.region, o + F[k], 8, ("i", 64))
            vals.append(zi(v))
        return Dim(*vals)

    def words(self, st, n, count):
        """An array of count words."""
        r = X.Region(n, None, "array", 8)

        def within(ex, st, i, f, size):
            if not ex.dry:
                ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < count, f + size <= 8), "memory access within %s" % n)
        r.on_access = within
        a = z3.Array(n, Z, Z)
        st.mem[r] = {(0, 8): a}
        return X.Ptr(r, 0), a

    def dims(self, st, n, rank, access=None):
        r = X.Region(n + ".dims", None, "array", 32)

        def within(ex, st, i, f, size):
            if not ex.dry:
                ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < rank, f in F.values(), size == 8) if f in F.values() and size == 8 else False,
                          "memory access within the dims")
            if access is not None:
                access(st, zi(i))
        r.on_access = within
        arrs = {k: z3.Array("%s.%s" % (n, k), Z, Z) for k in F}
        st.mem[r] = {(F[k], 8): arrs[k] for k in F}
        return r, arrs

    def buf(self, st, n="buf", base=True, access=None):
        b = Buf()
        b.env = self
        b.reg = X.Region(n, 32)
        b.rank, b.base, b.elem = self.int(st, n + ".rank"), self.int(st, n + ".base"), self.int(st, n + ".elem_size")
        st.assume(z3.And(b.rank >= 0, b.rank < BIG, b.base >= (1 if base else 0)))
        b.dreg, b.arr = self.dims(st, n, b.rank, access)
        st.mem[b.reg] = {(0, 8): X.Ptr(self.ex.flat, b.base), (8, 8): b.elem, (16, 8): b.rank, (24, 8): X.Ptr(b.dreg, 0)}
        return b


class Buf:
    def ptr(self):
        return X.Ptr(self.reg, 0)

    def old(self, i):
        return Dim(*[z3.Select(self.arr[k], zi(i)) for k in F])

    def fact(self, st, i, sane=True):
        d = self.old(i)
        st.assume(z3.And(*[X.inr(v) for _, v in d.fields()]))
        if sane:
            st.assume(d.sane())
        return d

    def new(self, st, i):
        """Dimension i of the buffer now."""
        ex = self.env.ex
        p = st.cells(self.reg)[(24, 8)]
        if not isinstance(p, X.Ptr) or p.region is not self.dreg:
            raise X.Undecided("the dims are somewhere else")
        k, f = ex.array_index(st, self.dreg, p.off)
        if f:
            raise X.Undecided("the dims are not aligned")
        c = st.cells(self.dreg)
        return Dim(*[z3.Select(c[(F[n], 8)], zi(k) + zi(i)) for n in F])

    def new_base(self, st):
        return zi(self.env.ex.address(st.cells(self.reg)[(0, 8)]))

    def new_rank(self, st):
        return zi(st.cells(self.reg)[(16, 8)])

    def frame(self, st, ex, rank=None, base=None):
        """What is not mentioned is unchanged."""
        ob = lambda c, n: ex.oblige(st, c, n, assume=False)
        if rank is not None:
            ob(self.new_rank(st) == rank, "the rank is as specified")
        if base is not None:
            ob(self.new_base(st) == base, "the base is as specified")
        ob(zi(st.cells(self.reg)[(8, 8)]) == self.elem, "the element size is unchanged")


def skolem(ex, st, n):
    """An arbitrary integer, for a property of all of them."""
    v = z3.Int(n)
    ex.inputs[n] = v
    return v


def spec(name, mod, sym, body, kinds, timeout=4.0, budget=120.0, lemmas=()):
    """body(env, ex) -> (setup, post)."""
    def make(ex):
        fn = find(mod, sym)
        env = Env(ex, mod)
        setup, post = body(env, ex)
        return fn, setup, post
    s = S.Spec(name, [mod], make, prover=prover, timeout=timeout, budget=budget)
    s.kinds = kinds
    return s


def find(mod, sym):
    if "@" + sym in mod.functions:
        return mod.functions["@" + sym]
    return N.find([mod], sym)


# --- dim -----------------------------------------------------------------------------------------------------------------
def dim_specs(mod, kinds=("view",)):
    out = []

    def add(name, sym, args, post, pre=None, sane=True):
        def body(env, ex):
            loc = {}

            def setup(st):
                p, d = env.dim(st, "dim", sane)
                loc["d"], loc["p"] = d, p
                l = [p]
                for a in args:
                    if a == "dim":
                        q, o = env.dim(st, "other", sane)
                        loc["o"] = o
                        l.append(q)
                    else:
                        loc[a] = env.int(st, a)
                        l.append(loc[a])
                if pre is not None:
                    st.assume(pre(st, d, loc))
                return l

            def fin(st, ret):
                for n, c in post(st, loc["d"], loc, None if ret is None else ret, env):
                    ex.oblige(st, c, n, assume=False)
            return setup, fin
        out.append(spec(name, mod, sym, body, kinds))

    def boolean(f, n):
        return lambda st, d, l, r, e: [(n, X.zb(r) == f(d, l))]

    def sets(f):
        return lambda st, d, l, r, e: [("the dimension is as specified", e.dim_at(st, l["p"]).same(f(d, l)))]
    add("dim::contains(x)", "p_dim_contains", ["x"], boolean(lambda d, l: d.contains(l["x"]), "the result says whether x is in bounds"))
    add("dim::contains(a, b)", "p_dim_contains2", ["a", "b"],
        boolean(lambda d, l: z3.Or(d.stride == 0, z3.And(d.min <= l["a"], l["b"] <= d.max)), "the result says whether [a, b] is in bounds"))
    add("dim::contains(dim)", "p_dim_contains_dim", ["dim"],
        boolean(lambda d, l: z3.Or(d.stride == 0, z3.And(d.min <= l["o"].min, l["o"].max <= d.max)), "the result says whether the bounds are in bounds"))
    add("dim::flat_offset_bytes", "p_dim_offset", ["x"], lambda st, d, l, r, e: [("the result is the offset of x", zi(r) == d.off(st, l["x"]))],
        lambda st, d, l: z3.And(d.contains(l["x"]), d.representable(st, l["x"])))

    def isf(d, a, b, st):
        return z3.And(d.stride != 0, d.fold > 0, emod(st, a, d.fold)[0] != emod(st, b, d.fold)[0])
    add("dim::is_folded(a, b)", "p_dim_is_folded", ["a", "b"],
        lambda st, d, l, r, e: [("the result says whether a fold boundary is crossed", X.zb(r) == isf(d, l["a"], l["b"], st))])
    add("dim::is_folded()", "p_dim_is_folded0", [],
        lambda st, d, l, r, e: [("the result says whether a fold boundary is crossed", X.zb(r) == isf(d, d.min, d.max, st))])
    add("dim::empty", "p_dim_empty", [], boolean(lambda d, l: d.max < d.min, "the result says whether the bounds are empty"))
    add("dim::extent", "p_dim_extent", [], lambda st, d, l, r, e: [("the result is the number of coordinates", zi(r) == z3.If(d.max >= d.min, d.max - d.min + 1, 0))],
        lambda st, d, l: z3.And(X.inr(d.max + 1), X.inr(d.max - d.min + 1)))
    add("dim::is_broadcast", "p_dim_is_broadcast", [], boolean(lambda d, l: z3.And(d.min == 0, d.max == 0, d.stride == 0), "the result says whether this is a broadcast"))
    add("dim::is_point()", "p_dim_is_point", [], boolean(lambda d, l: d.min == d.max, "the result says whether there is one coordinate"))
    add("dim::is_point(x)", "p_dim_is_point_at", ["x"], boolean(lambda d, l: z3.And(d.min == l["x"], d.max == l["x"]), "the result says whether x is the only coordinate"))
    sm = lambda d, l: X.inr(d.min + l["x"])
    add("dim::translate", "p_dim_translate", ["x"], sets(lambda d, l: Dim(d.min + l["x"], d.max + l["x"], d.stride, d.fold)),
        lambda st, d, l: z3.And(X.inr(d.min + l["x"]), X.inr(d.max + l["x"])))
    add("dim::set_bounds", "p_dim_set_bounds", ["a", "b"], sets(lambda d, l: Dim(l["a"], l["b"], d.stride, d.fold)))
    add("dim::set_range", "p_dim_set_range", ["a", "b"], sets(lambda d, l: Dim(l["a"], l["b"] - 1, d.stride, d.fold)), lambda st, d, l: X.inr(l["b"] - 1))
    add("dim::set_min_extent", "p_dim_set_min_extent", ["a", "b"], sets(lambda d, l: Dim(l["a"], l["a"] + l["b"] - 1, d.stride, d.fold)),
        lambda st, d, l: z3.And(X.inr(l["a"] + l["b"] - 1), X.inr(l["a"] + l["b"])))
    add("dim::set_extent", "p_dim_set_extent", ["a"], sets(lambda d, l: Dim(d.min, d.min + l["a"] - 1, d.stride, d.fold)),
        lambda st, d, l: z3.And(X.inr(d.min + l["a"] - 1), X.inr(d.min + l["a"])))
    add("dim::set_point", "p_dim_set_point", ["a"], sets(lambda d, l: Dim(l["a"], l["a"], d.stride, d.fold)))
    add("dim ==", "p_dim_eq", ["dim"], boolean(lambda d, l: d.same(l["o"]), "the result says whether the dimensions are equal"))
    add("dim !=", "p_dim_ne", ["dim"], boolean(lambda d, l: z3.Not(d.same(l["o"])), "the result says whether the dimensions differ"))
    add("same_bounds(dim, dim)", "p_same_bounds", ["dim"],
        boolean(lambda d, l: z3.And(d.min == l["o"].min, d.max == l["o"].max), "the result says whether the bounds are equal"))

    # fusing: the coordinate of (xi, xo) in the fused dimension is xo*extent + xi - min
    def fuse(env, ex):
        loc = {}

        def setup(st):
            p, i = env.dim(st, "inner")
            q, o = env.dim(st, "outer")
            xi, xo = skolem(ex, st, "x_inner"), skolem(ex, st, "x_outer")
            r = env.out(st, "result")
            loc.update(i=i, o=o, xi=xi, xo=xo, r=r)
            ext = i.max - i.min + 1
            st.assume(z3.And(X.inr(i.max + 1), X.inr(ext), X.inr(i.stride * ext), X.inr(o.max + 1), X.inr(o.min * ext), X.inr((o.max + 1) * ext),
                             X.inr((o.max + 1) * ext - 1)))
            st.assume(X.inr(o.fold * ext))
            st.assume(z3.And(i.min <= xi, xi <= i.max, o.min <= xo, xo <= o.max))
            # broadcasts are the dimensions of stride 0; their bounds do not matter
            st.assume(z3.Or(o.stride != 0, z3.And(o.min == 0, o.max == 0), i.stride == 0))
            return [p, q, r]

        def fin(st, ret):
            i, o, xi, xo = (loc[k] for k in ("i", "o", "xi", "xo"))
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            s = st.fork()
            st.assume(X.zb(ret))
            if ex.sat(st, True) != "unsat":
                n = env.dim_at(st, loc["r"])
                ext = i.max - i.min + 1
                z = xo * ext + xi - i.min
                ob(n.contains(z), "the coordinates of the two dimensions are in the fused dimension")
                ob(z3.Or(n.stride == 0, z3.And(n.min == o.min * ext, n.max == o.max * ext + ext - 1)), "the fused dimension has no other coordinates")
                # lemma: (xo*e + r) mod (f*e) == (xo mod f)*e + r where 0 <= r < e
                f = o.fold
                m = emod(st, z, n.fold)[1]
                st.assume(z3.Implies(z3.And(o.folded(), n.fold == f * ext), m == emod(st, xo, f)[1] * ext + xi - i.min))
                ob(n.off(st, z) == i.off(st, xi) + o.off(st, xo), "the fused dimension has the same addresses")
        return setup, fin
    out.append(spec("can_fuse, fuse(dim, dim)", mod, "p_fuse", fuse, kinds, timeout=8.0))
    return out


def lemma_obligations():
    xo, e, r, f, q, m, q2, m2 = z3.Ints("xo e r f q m q2 m2")
    k, s, b0, b1, t = z3.Ints("k s b0 b1 t")
    big = f * e
    return [("lemma: the remainder of a fused coordinate", [f > 0, e > 0, 0 <= r, r < e, xo == f * q + m, 0 <= m, m < f],
             z3.And(xo * e + r == big * q + (m * e + r), 0 <= m * e + r)),
            ("lemma: the remainder of a fused coordinate is less than the divisor", [f > 0, e > 0, 0 <= r, r < e, 0 <= m, m <= f - 1, m * e <= (f - 1) * e],
             m * e + r < f * e),
            ("lemma: products are monotone", [e > 0, m <= t], m * e <= t * e)]


# --- addressing ----------------------------------------------------------------------------------------------------------
SUM = z3.Function("offset_sum", Z, Z)
INB = z3.Function("in_bounds", Z, z3.BoolSort())


def address_specs(mod, kinds=("view",)):
    out = []

    def fixed(name, sym, coords, what):
        """coords: names of the coordinates, None for one that is sliced."""
        def body(env, ex):
            loc = {}

            def setup(st):
                b = env.buf(st, base=False)
                xs = [None if c is None else env.int(st, c) for c in coords]
                loc.update(b=b, xs=xs)
                total = I(0)
                parts = []
                for k, x in enumerate(xs):
                    d = b.fact(st, k)
                    if x is None:
                        continue
                    have = k < b.rank
                    if what == "address":
                        st.assume(z3.Implies(have, z3.And(d.contains(x), d.representable(st, x))))
                    parts.append(z3.If(have, d.off(st, x), I(0)))
                    total = total + parts[-1]
                if what == "address":
                    # the order in which the offsets are added up does not matter
                    for k in range(len(parts)):
                        for n in range(k + 1, len(parts) + 1):
                            st.assume(X.inr(z3.Sum(parts[k:n])))
                loc["total"] = total
                if what == "address":
                    st.assume(z3.And(X.inr(b.base + total), z3.Implies(b.base != 0, b.base + total > 0)))
                return [b.ptr()] + [x for x in xs if x is not None]

            def fin(st, ret):
                b, xs = loc["b"], loc["xs"]
                if what == "address":
                    ex.oblige(st, zi(ex.address(ret)) == z3.If(b.base == 0, I(0), b.base + loc["total"]), "the result is the address of the element", assume=False)
                else:
                    ex.oblige(st, X.zb(ret) == z3.And(*[z3.Or(b.rank <= k, b.old(k).contains(x)) for k, x in enumerate(xs)]),
                              "the result says whether the coordinates are in bounds", assume=False)
            return setup, fin
        out.append(spec(name, mod, sym, body, kinds))
    fixed("raw_buffer::address_at(x)", "p_at1", ["x"], "address")
    fixed("raw_buffer::address_at(x, y)", "p_at2", ["x", "y"], "address")
    fixed("raw_buffer::address_at(x, y, z)", "p_at3", ["x", "y", "z"], "address")
    fixed("raw_buffer::address_at(slice, y)", "p_at_s1", [None, "y"], "address")
    fixed("raw_buffer::address_at(x, slice)", "p_at_1s", ["x", None], "address")
    fixed("raw_buffer::contains(x)", "p_contains1", ["x"], "contains")
    fixed("raw_buffer::contains(x, y)", "p_contains2", ["x", "y"], "contains")
    fixed("raw_buffer::contains(x, y, z)", "p_contains3", ["x", "y", "z"], "contains")

    def span(name, sym, what):
        def body(env, ex):
            loc = {}

            def access(st, i):
                b, xa = loc["b"], loc["xa"]
                key = ("dim fact", i.get_id())
                if key in st.ghost:
                    return
                st.ghost[key] = i
                d = b.fact(st, i)
                x = z3.Select(xa, i)
                inb = z3.And(0 <= i, i < b.rank, i < loc["n"])
                if what == "address":
                    st.assume(z3.Implies(inb, z3.And(d.contains(x), d.representable(st, x), SUM(i + 1) == SUM(i) + d.off(st, x), X.inr(SUM(i + 1)))))
                else:
                    st.assume(z3.Implies(inb, z3.And(INB(i + 1) == z3.And(INB(i), d.contains(x)), z3.Implies(z3.Not(INB(i + 1)), z3.Not(INB(loc["m"]))))))

            def setup(st):
                b = env.buf(st, base=False, access=access)
                n = env.int(st, "n")
                st.assume(z3.And(n >= 0, n < BIG))
                p, xa = env.words(st, "indices", n)
                m = z3.If(n < b.rank, n, b.rank)
                loc.update(b=b, n=n, xa=xa, m=m)
                st.assume(z3.And(SUM(I(0)) == 0, INB(I(0))))
                if what == "address":
                    st.assume(z3.And(X.inr(b.base + SUM(m)), z3.Implies(b.base != 0, b.base + SUM(m) > 0)))
                return [b.ptr(), p, n]

            def cand(ex, st, fn, head, entry):
                l = []
                ints = [k for k, v in entry.items() if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)]
                bools = [k for k, v in entry.items() if isinstance(v, (bool, z3.BoolRef)) or k.startswith("*")]
                for k in ints:
                    l.append(("%s is not negative" % k, lambda ex, s, v, k=k: zi(v[k]) >= 0))
                    l.append(("%s is at most the number of coordinates" % k, lambda ex, s, v, k=k: zi(v[k]) <= loc["m"]))
                    for j in ints:
                        if j != k:
                            l.append(("%s is the offset of %s coordinates" % (j, k), lambda ex, s, v, j=j, k=k: zi(v[j]) == SUM(zi(v[k]))))
                            l.append(("%s says whether %s coordinates are in bounds" % (j, k), lambda ex, s, v, j=j, k=k: (ex.to_bool(v[j]) if not isinstance(v[j], (bool, z3.BoolRef)) else X.zb(v[j])) == INB(zi(v[k]))))
                            l.append(("%s is a truth value" % j, lambda ex, s, v, j=j: z3.Or(zi(v[j]) == 0, zi(v[j]) == 1)))
                    for j in bools:
                        if j not in ints:
                            l.append(("%s says whether %s coordinates are in bounds" % (j, k), lambda ex, s, v, j=j, k=k: X.zb(ex.to_bool(v[j])) == INB(zi(v[k]))))
                    for j in bools + ints:
                        if j == k:
                            continue
                        tv = lambda v, j=j: X.zb(v[j] if isinstance(v[j], (bool, z3.BoolRef)) else ex.to_bool(v[j]))
                        l.append(("the coordinates are not in bounds if %s is false" % j, lambda ex, s, v, tv=tv: z3.Or(tv(v), z3.Not(INB(loc["m"])))))
                        l.append(("%s coordinates are in bounds if %s" % (k, j), lambda ex, s, v, k=k, tv=tv: z3.Implies(tv(v), INB(zi(v[k])))))
                    l.append(("%s coordinates are in bounds" % k, lambda ex, s, v, k=k: INB(zi(v[k]))))
                return l
            ex.loop_candidates[r"(address_at|contains|flat_offset_bytes)\(slinky::span|" + sym] = cand

            def fin(st, ret):
                b = loc["b"]
                if what == "address":
                    ex.oblige(st, zi(ex.address(ret)) == z3.If(b.base == 0, I(0), b.base + SUM(loc["m"])), "the result is the address of the element", assume=False)
                else:
                    ex.oblige(st, X.zb(ret) == INB(loc["m"]), "the result says whether the coordinates are in bounds", assume=False)
            return setup, fin
        out.append(spec(name, mod, sym, body, kinds))
    span("raw_buffer::address_at(span)", "p_at_span", "address")
    span("raw_buffer::contains(span)", "p_contains_span", "contains")

    def dim_of(env, ex):
        loc = {}

        def setup(st):
            b = env.buf(st, base=False)
            i = env.int(st, "i")
            st.assume(i >= 0)
            loc.update(b=b, i=i, r=env.out(st, "result"))
            b.fact(st, i)
            return [b.ptr(), i, loc["r"]]

        def fin(st, ret):
            d, b, i = env.dim_at(st, loc["r"]), loc["b"], loc["i"]
            ex.oblige(st, z3.If(i < b.rank, d.same(b.old(i)), d.same(BROADCAST)), "the result is the dimension, or a broadcast", assume=False)
        return setup, fin
    out.append(spec("raw_buffer::dim", mod, "p_dim_of", dim_of, kinds))
    return out


# --- views ---------------------------------------------------------------------------------------------------------------
def move_candidates(ex, loc):
    """Candidates for loops that move dims of loc["b"] down."""
    def cand(ex, st, fn, head, entry):
        b = loc["b"]
        d = loc["d"]
        l = []
        base = {k: ex.array_term(st, b.dreg, F[k], 8) for k in F}
        q = z3.Int("q!")

        def arr(s, k):
            return ex.array_term(s, b.dreg, F[k], 8)

        def idx(v, k):
            x = v[k]
            if isinstance(x, X.Ptr):
                return ex.array_index(None, x.region, x.off)[0]
            return zi(x)
        for k, x in entry.items():
            if k.startswith("*"):
                continue
            if isinstance(x, X.Ptr) and x.region is not b.dreg:
                continue
            if not isinstance(x, (int, z3.ArithRef, X.Ptr)) or isinstance(x, bool):
                continue
            for o in (0, 1):
                at = lambda v, k=k, o=o: idx(v, k) - o
                l.append(("%s-%d is at least d" % (k, o), lambda ex, s, v, at=at: at(v) >= d))
                l.append(("%s-%d is at most the new rank" % (k, o), lambda ex, s, v, at=at: at(v) <= b.rank - 1))
                for f in F:
                    l.append(("%s before %s-%d is moved" % (f, k, o), lambda ex, s, v, at=at, f=f: z3.ForAll([q], z3.Implies(
                        z3.And(d <= q, q < at(v)), z3.Select(arr(s, f), q) == z3.Select(base[f], q + 1)))))
                    l.append(("%s from %s-%d on is unchanged" % (f, k, o), lambda ex, s, v, at=at, f=f: z3.ForAll([q], z3.Implies(
                        q >= at(v), z3.Select(arr(s, f), q) == z3.Select(base[f], q)))))
        for f in F:
            l.append(("%s before d is unchanged" % f, lambda ex, s, v, f=f: z3.ForAll([q], z3.Implies(q < d, z3.Select(arr(s, f), q) == z3.Select(base[f], q)))))
        return l
    return cand


def dropped(ex, st, b, d, j):
    """Obligation: dimension j of the result is dimension j of the buffer without dimension d."""
    st.assume(z3.And(j >= 0, j < b.rank - 1))
    ex.oblige(st, b.new(st, j).same(b.old(z3.If(j < d, j, j + 1))), "the other dimensions are unchanged", assume=False)


def slice_contract(ex, loc):
    """raw_buffer::slice(d), proved below."""
    def f(ex, st, v, i):
        b, d = loc["b"], zi(v[1])
        rank = b.new_rank(st)
        p = st.cells(b.reg)[(24, 8)]
        if not isinstance(v[0], X.Ptr) or v[0].region is not b.reg or not isinstance(p, X.Ptr) or p.region is not b.dreg or X.conc(p.off) != 0:
            raise X.Undecided("slice of another buffer")
        ex.oblige(st, d >= 0, "the sliced dimension is not negative")
        q = z3.Int("q!")
        for k in F:
            a = ex.array_term(st, b.dreg, F[k], 8)
            st.wcells(b.dreg)[(F[k], 8)] = z3.Lambda([q], z3.If(z3.And(q >= d, d < rank), z3.Select(a, q + 1), z3.Select(a, q)))
        ex.put(st, b.reg, RB["rank"], 8, z3.If(d < rank, rank - 1, rank))
    ex.contract(r"slinky::raw_buffer::slice\(unsigned long\)", f)


def slice_span(env, ex):
    """raw_buffer::slice(ds), for ds of any size. An arbitrary dimension k that is not in ds has c of ds before it: it is dimension k - c
    of the result."""
    loc = {}
    slice_contract(ex, loc)
    q, p = z3.Ints("q! p!")

    def setup(st):
        b = env.buf(st)
        n, k, c, r = (env.int(st, v) for v in ("n", "k", "c", "removed"))
        st.assume(z3.And(n >= 0, n < BIG))
        ptr, ds = env.words(st, "ds", n)
        st.assume(z3.ForAll([q, p], z3.Implies(z3.And(0 <= q, q < p, p < n), z3.Select(ds, q) + (p - q) <= z3.Select(ds, p))))
        st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(z3.Select(ds, q) >= q, z3.Select(ds, q) < BIG))))
        # c of ds are before k, k is not one of them, and r of them are dimensions of the buffer
        split = lambda c, f, g: z3.And(0 <= c, c <= n, z3.ForAll([q], z3.And(z3.Implies(z3.And(0 <= q, q < c), f(z3.Select(ds, q))),
                                                                            z3.Implies(z3.And(c <= q, q < n), g(z3.Select(ds, q))))))
        st.assume(z3.And(0 <= k, k < b.rank))
        st.assume(split(c, lambda d: d < k, lambda d: d > k))
        st.assume(split(r, lambda d: d < b.rank, lambda d: d >= b.rank))
        loc.update(b=b, n=n, k=k, c=c, r=r, ds=ds, d=z3.Select(ds, 0))
        return [b.ptr(), ptr, n]

    def cand(ex, st, fn, head, entry):
        b, n, k, c, r, ds = (loc[x] for x in ("b", "n", "k", "c", "r", "ds"))
        D = lambda i: z3.Select(ds, i)
        arr = lambda s, f: ex.array_term(s, b.dreg, F[f], 8)
        now = {f: arr(st, f) for f in F}
        l = []

        def idx(x):
            return ex.array_index(None, x.region, x.off)[0] if isinstance(x, X.Ptr) else zi(x)
        names = [x for x, v in entry.items() if isinstance(v, X.Ptr) and v.region.kind == "array" or
                 isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)]
        kept = lambda s, lead: z3.And(*[z3.Select(arr(s, f), k - (c - lead)) == z3.Select(b.arr[f], k) for f in F])
        same = lambda s: z3.And(*[z3.Select(arr(s, f), k) == z3.Select(b.arr[f], k) for f in F])
        leads = list(st.ghost.get("leads", ())) + [zi(entry[x]) for x in names if not isinstance(entry[x], X.Ptr)]
        st.ghost["leads"] = tuple({y.get_id(): y for y in leads}.values())
        for x in names:
            at = lambda v, x=x: idx(v[x])
            e = idx(entry[x])
            l.append(("%s does not decrease" % x, lambda ex, s, v, at=at, e=e: at(v) >= e))
            l.append(("%s is at most n" % x, lambda ex, s, v, at=at: at(v) <= n))
            l.append(("%s is at most the rank" % x, lambda ex, s, v, at=at: at(v) <= b.rank))
            for o in (0, 1):
                t = lambda v, at=at, o=o: at(v) - o
                # an index of a dimension
                l.append(("%s-%d is before the next slice and the rank" % (x, o), lambda ex, s, v, t=t, e=e, o=o: z3.And(t(v) < b.rank, z3.ForAll([q], z3.Implies(
                    z3.And(0 <= q, q < n, D(q) > e - o), t(v) < D(q))))))
                l.append(("k is unchanged if it is from %s-%d on" % (x, o), lambda ex, s, v, t=t: z3.Implies(k >= t(v), same(s))))
                l.append(("k is unchanged if it is from ds[%s-%d] on" % (x, o), lambda ex, s, v, t=t: z3.Implies(z3.And(t(v) < n, k >= D(t(v))), same(s))))
                for y in leads:
                    l.append(("k is moved before %s-%d" % (x, o), lambda ex, s, v, t=t, y=y: z3.Implies(k <= t(v), kept(s, y))))
                    l.append(("k is moved before ds[%s-%d]" % (x, o), lambda ex, s, v, t=t, y=y: z3.Implies(z3.Or(t(v) >= n, k < D(t(v))), kept(s, y))))
            # the leading slices, and as many slices as there are
            l.append(("ds before %s are leading" % x, lambda ex, s, v, at=at: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < at(v)), D(q) == q))))
            l.append(("ds before %s are dimensions" % x, lambda ex, s, v, at=at: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < at(v)), D(q) < b.rank))))
            for y in names:
                if x != y:
                    l.append(("%s and %s advance together" % (x, y), lambda ex, s, v, x=x, y=y, e=e: idx(v[x]) - e == idx(v[y]) - idx(entry[y])))
        return l
    ex.loop_candidates[r"raw_buffer::slice\(|^p_slice_span"] = cand

    def fin(st, ret):
        b, k, c, r = (loc[x] for x in ("b", "k", "c", "r"))
        b.frame(st, ex, b.rank - r, b.base)
        ex.oblige(st, b.new(st, k - c).same(b.old(k)), "the dimensions that are not sliced stay", assume=False)
    return setup, fin


def view_specs(mod, kinds=("view",)):
    out = []

    def slices(name, sym, how):
        def body(env, ex):
            loc = {}
            ex.loop_candidates[r"raw_buffer::slice\(|^" + sym] = move_candidates(ex, loc)

            def setup(st):
                b = env.buf(st, base=(how == "in"))
                d = env.int(st, "d")
                st.assume(d >= 0)
                D = b.fact(st, d)
                loc.update(b=b, d=d, D=D)
                args = [b.ptr(), d]
                if how:
                    at = env.int(st, "at")
                    loc["at"] = at
                    args.append(at)
                    ok = z3.And(D.representable(st, at), X.inr(b.base + D.off(st, at)), b.base + D.off(st, at) > 0)
                    st.assume(z3.Implies(z3.And(b.base != 0, d < b.rank, D.contains(at)), ok))
                    if how == "in":
                        st.assume(z3.Implies(d < b.rank, D.contains(at)))
                return args

            def fin(st, ret):
                b, d, D = loc["b"], loc["d"], loc["D"]
                base = b.base
                if how:
                    at = loc["at"]
                    base = z3.If(z3.And(base != 0, d < b.rank), z3.If(D.contains(at), base + D.off(st, at), I(0)), base)
                b.frame(st, ex, z3.If(d < b.rank, b.rank - 1, b.rank), base)
                j = skolem(ex, st, "j")
                s = st.fork()
                st.assume(d < b.rank)
                if ex.sat(st, True) != "unsat":
                    dropped(ex, st, b, d, j)
                s.assume(z3.And(d >= b.rank, j >= 0, j < b.rank))
                if ex.sat(s, True) != "unsat":
                    ex.oblige(s, b.new(s, j).same(b.old(j)), "slicing a broadcast changes nothing", assume=False)
            return setup, fin
        out.append(spec(name, mod, sym, body, kinds, timeout=8.0))
    slices("raw_buffer::slice(d)", "p_slice", None)
    slices("raw_buffer::slice(d, at)", "p_slice_at", "at")
    slices("raw_buffer::slice(d, in_bounds)", "p_slice_in", "in")
    out.append(spec("raw_buffer::slice(span)", mod, "p_slice_span", slice_span, kinds, timeout=8.0))

    def crop(env, ex):
        loc = {}

        def setup(st):
            b = env.buf(st, base=False)
            d, mn, mx = (env.int(st, k) for k in ("d", "new_min", "new_max"))
            st.assume(d >= 0)
            D = b.fact(st, d)
            x = skolem(ex, st, "x")
            loc.update(b=b, d=d, mn=mn, mx=mx, D=D, x=x)
            lo = z3.If(mn > D.min, mn, D.min)
            # every element has an address
            for y in (x, lo):
                st.assume(z3.Implies(z3.And(b.base != 0, d < b.rank, D.min <= y, y <= D.max), z3.And(
                    D.representable(st, y), X.inr(b.base + D.off(st, y)), b.base + D.off(st, y) > 0, X.inr((y - D.min) * D.stride))))
            return [b.ptr(), d, mn, mx]

        def fin(st, ret):
            b, d, mn, mx, D, x = (loc[k] for k in ("b", "d", "mn", "mx", "D", "x"))
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            b.frame(st, ex, b.rank)
            j = skolem(ex, st, "j")
            s = st.fork()
            s.assume(z3.And(j >= 0, j < b.rank, j != d))
            if ex.sat(s, True) != "unsat":
                ex.oblige(s, b.new(s, j).same(b.old(j)), "the other dimensions are unchanged", assume=False)
            s = st.fork()
            s.assume(d >= b.rank)
            if ex.sat(s, True) != "unsat":
                ex.oblige(s, b.new_base(s) == b.base, "cropping a broadcast changes nothing", assume=False)
            st.assume(d < b.rank)
            if ex.sat(st, True) == "unsat":
                return
            n, nb = b.new(st, d), b.new_base(st)
            ob(z3.And(n.stride == D.stride, n.fold == D.fold), "the stride and fold factor are unchanged")
            old_in, new_in = z3.And(D.min <= x, x <= D.max), z3.And(n.min <= x, x <= n.max)
            ob(new_in == z3.And(old_in, mn <= x, x <= mx), "the bounds are the intersection of the old and the requested bounds")
            ob(z3.Implies(b.base == 0, nb == 0), "a null buffer stays null")
            ob(z3.Implies(z3.And(b.base != 0, new_in), nb != 0), "a buffer with elements is not null")
            ob(z3.Implies(z3.And(b.base != 0, new_in), nb + n.off(st, x) == b.base + D.off(st, x)), "the addresses of the elements are unchanged")
        return setup, fin
    out.append(spec("raw_buffer::crop", mod, "p_crop", crop, kinds, timeout=8.0))

    def trans(name, sym, n):
        def body(env, ex):
            loc = {}

            def access(st, i):
                b = loc["b"]
                key = ("dim fact", i.get_id())
                if key in st.ghost:
                    return
                st.ghost[key] = i
                d = b.fact(st, i)
                o = off(i)
                st.assume(z3.Implies(z3.And(0 <= i, i < loc["n"]), z3.And(X.inr(d.min + o), X.inr(d.max + o))))

            def off(i):
                if n is not None:
                    return z3.If(i == 0, loc["o"][0], loc["o"][-1])
                return z3.Select(loc["oa"], i)

            def setup(st):
                b = env.buf(st, base=False, access=access)
                loc["b"] = b
                if n is not None:
                    loc["o"] = [env.int(st, "offset%d" % k) for k in range(n)]
                    loc["n"] = I(n)
                    st.assume(b.rank >= n)
                    return [b.ptr()] + loc["o"]
                m = env.int(st, "n")
                st.assume(z3.And(m >= 0, m <= b.rank))
                p, oa = env.words(st, "offsets", m)
                loc.update(n=m, oa=oa)
                return [b.ptr(), p, m]

            def cand(ex, st, fn, head, entry):
                b = loc["b"]
                l, q = [], z3.Int("q!")
                for k, x in entry.items():
                    if k.startswith("*") or not isinstance(x, (int, z3.ArithRef)) or isinstance(x, bool):
                        continue
                    l.append(("%s is not negative" % k, lambda ex, s, v, k=k: zi(v[k]) >= 0))
                    l.append(("%s is at most the number of offsets" % k, lambda ex, s, v, k=k: zi(v[k]) <= loc["n"]))
                    for f in F:
                        add = lambda q, f=f: off(q) if f in ("min", "max") else I(0)
                        arr = lambda s, f=f: ex.array_term(s, b.dreg, F[f], 8)
                        l.append(("%s before %s is translated" % (f, k), lambda ex, s, v, k=k, f=f, add=add, arr=arr: z3.ForAll([q], z3.Implies(
                            z3.And(0 <= q, q < zi(v[k])), z3.Select(arr(s), q) == z3.Select(b.arr[f], q) + add(q)))))
                        l.append(("%s from %s on is unchanged" % (f, k), lambda ex, s, v, k=k, f=f, arr=arr: z3.ForAll([q], z3.Implies(
                            q >= zi(v[k]), z3.Select(arr(s), q) == z3.Select(b.arr[f], q)))))
                return l
            if n is None:
                ex.loop_candidates[r"raw_buffer::translate\(|" + sym] = cand

            def fin(st, ret):
                b = loc["b"]
                b.frame(st, ex, b.rank, b.base)
                j = skolem(ex, st, "j")
                st.assume(z3.And(j >= 0, j < b.rank))
                o = z3.If(j < loc["n"], off(j), I(0))
                D, nd = b.old(j), b.new(st, j)
                ex.oblige(st, nd.same(Dim(D.min + o, D.max + o, D.stride, D.fold)), "the bounds are translated", assume=False)
                x = skolem(ex, st, "x")
                b.fact(st, j)
                # lemma: remainders of numbers that differ by a multiple of the divisor are equal
                k = skolem(ex, st, "k")
                m0, m1 = emod(st, x, D.fold)[1], emod(st, x + o, D.fold)[1]
                st.assume(z3.Implies(z3.And(D.fold > 0, o == k * D.fold), m0 == m1))
                ex.oblige(st, z3.Implies(z3.And(D.contains(x), z3.Or(z3.Not(D.folded()), o == k * D.fold)), z3.And(
                    nd.contains(x + o), nd.off(st, x + o) == D.off(st, x))), "a translated element has the same address", assume=False)
            return setup, fin
        out.append(spec(name, mod, sym, body, kinds, timeout=8.0))
    trans("raw_buffer::translate(x)", "p_translate1", 1)
    trans("raw_buffer::translate(x, y)", "p_translate2", 2)
    trans("raw_buffer::translate(span)", "p_translate_span", None)

    def fuse(how):
        def body(env, ex):
            loc = {}
            slice_contract(ex, loc)

            def setup(st):
                b = env.buf(st, base=False)
                i, o = env.int(st, "inner"), env.int(st, "outer")
                st.assume(z3.And(i >= 0, o >= 0, i != o, i < BIG, o < BIG))
                DI, DO = b.fact(st, i), b.fact(st, o)
                pick = lambda k, D: Dim(*[z3.If(k < b.rank, getattr(D, f), I(0)) for f in F])
                EI, EO = pick(i, DI), pick(o, DO)
                xi, xo = skolem(ex, st, "x_inner"), skolem(ex, st, "x_outer")
                ext = EI.max - EI.min + 1
                st.assume(z3.And(X.inr(EI.max + 1), X.inr(ext), X.inr(EI.stride * ext), X.inr(EO.max + 1), X.inr(EO.min * ext), X.inr((EO.max + 1) * ext),
                                 X.inr((EO.max + 1) * ext - 1), X.inr(EO.fold * ext)))
                loc.update(b=b, i=i, o=o, d=o, EI=EI, EO=EO)
                return [i, o, b.ptr()]

            def fin(st, ret):
                b, i, o, EI, EO = (loc[k] for k in ("b", "i", "o", "EI", "EO"))
                st.assume(X.zb(ret))
                if ex.sat(st, True) == "unsat":
                    return
                ob = lambda s, c, n: ex.oblige(s, c, n, assume=False)
                j = skolem(ex, st, "j")
                nr = z3.If(z3.And(o < b.rank, how == "remove"), b.rank - 1, b.rank)
                b.frame(st, ex, nr, b.base)
                ext = EI.max - EI.min + 1
                fd = Dim(EO.min * ext, EO.max * ext + ext - 1, EI.stride, z3.If(z3.And(EO.fold != -1), EO.fold * ext, EI.fold))
                obc = z3.And(EO.min == 0, EO.max == 0, EO.stride == 0)
                # where things are now
                old = z3.If(z3.And(how == "remove", o < b.rank, j >= o), j + 1, j)
                s = st.fork()
                s.assume(z3.And(j >= 0, j < nr, old != i))
                if how != "remove":
                    s.assume(j != o)
                if ex.sat(s, True) != "unsat":
                    ob(s, b.new(s, j).same(b.old(old)), "the other dimensions are unchanged")
                s = st.fork()
                s.assume(z3.And(j >= 0, j < nr, old == i))
                if ex.sat(s, True) != "unsat":
                    n = b.new(s, j)
                    ob(s, z3.If(obc, z3.And(n.min == 0, n.max == 0, n.stride == 0), n.same(fd)), "the inner dimension is the fused dimension")
                if how == "keep":
                    s = st.fork()
                    s.assume(z3.And(j == o, o < b.rank))
                    if ex.sat(s, True) != "unsat":
                        n = b.new(s, j)
                        ob(s, z3.And(n.min == 0, n.max == 0, n.stride == EO.stride), "the outer dimension has one coordinate")
            return setup, fin
        return body
    out.append(spec("fuse<remove>(raw_buffer)", mod, "p_fuse_remove", fuse("remove"), kinds, timeout=8.0))
    out.append(spec("fuse<keep>(raw_buffer)", mod, "p_fuse_keep", fuse("keep"), kinds, timeout=8.0))
    out.append(spec("fuse<undef>(raw_buffer)", mod, "p_fuse_undef", fuse("undef"), kinds, timeout=8.0))
    return out


def c07_specs(mod):
    return dim_specs(mod) + address_specs(mod) + view_specs(mod)


# --- the memory of a buffer (C08, C11) -------------------------------------------------------------------------------------
U64 = 2 ** 64
EMIN, EMAX = z3.Function("Emin", Z, Z), z3.Function("Emax", Z, Z)
NE, BAD, AE = (z3.Function(n, Z, z3.BoolSort()) for n in ("nonempty", "overflows", "all_nonempty"))


def extent1(d):
    """The number of coordinates that have memory, minus 1."""
    return z3.If(d.fold > 0, d.fold - 1, z3.If(d.max < d.min, I(-1), d.max - d.min))


def terms(d):
    """What the dimension adds to the lowest and the highest offset."""
    e = extent1(d)
    return z3.If(d.stride < 0, e * d.stride, I(0)), z3.If(d.stride > 0, e * d.stride, I(0))


def flat_step(i, d, n):
    """Definition of the prefix sums over the dimensions before i + 1, and that they say something about those before n."""
    e, (lo, hi) = extent1(d), terms(d)
    z = d.stride == 0
    return [EMIN(i + 1) == EMIN(i) + lo, EMAX(i + 1) == EMAX(i) + hi, NE(i + 1) == z3.And(NE(i), z3.Or(z, e >= 0)), AE(i + 1) == z3.And(AE(i), e >= 0),
            BAD(i + 1) == z3.Or(BAD(i), z3.And(z3.Not(z), z3.Or(z3.Not(X.inr(e)), z3.And(d.stride == AUTO, e > 0), z3.Not(X.inr(lo)), z3.Not(X.inr(EMIN(i + 1))),
                                                                   z3.Not(X.inr(hi)), z3.Not(X.inr(EMAX(i + 1))))))], \
        [z3.Implies(z3.Not(NE(i + 1)), z3.Not(NE(n))), z3.Implies(z3.Not(AE(i + 1)), z3.Not(AE(n))), z3.Implies(BAD(i + 1), BAD(n))]


FLAT0 = [EMIN(I(0)) == 0, EMAX(I(0)) == 0, NE(I(0)), AE(I(0)), z3.Not(BAD(I(0)))]
BOUNDS = r"slinky::\(anonymous namespace\)::calculate_flat_bounds\(unsigned long, slinky::dim const\*, long&, long&\)"
SIZE = r"slinky::\(anonymous namespace\)::alloc_size\(unsigned long, unsigned long, slinky::dim const\*\)"


class Flat:
    """A buffer whose dims define the prefix sums."""
    def __init__(self, env, ex, inline=()):
        self.env, self.ex = env, ex
        ex.loop_candidates[r"calculate_flat_bounds|alloc_size|size_bytes|base_offset|validate_buffer"] = self.cand
        if "bounds" not in inline:
            ex.contract(BOUNDS, self.bounds_contract)
        if "size" not in inline:
            ex.contract(SIZE, self.size_contract)

    def access(self, st, i):
        key = ("dim fact", i.get_id())
        if key in st.ghost:
            return
        st.ghost[key] = i
        d = self.b.fact(st, i, sane=False)
        defs, lem = flat_step(i, d, self.b.rank)
        st.assume(z3.Implies(z3.And(0 <= i, i < self.b.rank), z3.And(*(defs + lem))))

    def setup(self, st):
        self.b = b = self.env.buf(st, base=False, access=self.access)
        st.assume(z3.And(*FLAT0))
        n = b.rank
        # lemma (below): the sums of negative and positive terms
        st.assume(z3.Implies(NE(n), z3.And(EMIN(n) <= 0, EMAX(n) >= 0)))
        st.assume(z3.Implies(AE(n), NE(n)))
        st.assume(z3.Implies(z3.Not(BAD(n)), z3.And(X.inr(EMIN(n)), X.inr(EMAX(n)))))
        return b

    def cand(self, ex, st, fn, head, entry):
        n = self.b.rank
        l = []
        intk = [k for k, v in entry.items() if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)]
        boolk = [k for k, v in entry.items() if isinstance(v, (bool, z3.BoolRef, int, z3.ArithRef))]
        tb = lambda ex, v: X.zb(v) if isinstance(v, (bool, z3.BoolRef)) else zi(v) != 0
        for k in intk:
            l.append(("%s is 0 or 1" % k, lambda ex, s, v, k=k: z3.And(zi(v[k]) >= 0, zi(v[k]) <= 1)))
            l.append(("%s is not negative" % k, lambda ex, s, v, k=k: zi(v[k]) >= 0))
            l.append(("%s is at most the rank" % k, lambda ex, s, v, k=k: zi(v[k]) <= n))
            l.append(("the dimensions before %s that have strides are not empty" % k, lambda ex, s, v, k=k: NE(zi(v[k]))))
            l.append(("the dimensions before %s are not empty" % k, lambda ex, s, v, k=k: AE(zi(v[k]))))
            l.append(("the least offset of the dimensions before %s is not positive" % k, lambda ex, s, v, k=k: EMIN(zi(v[k])) <= 0))
            l.append(("the greatest offset of the dimensions before %s is not negative" % k, lambda ex, s, v, k=k: EMAX(zi(v[k])) >= 0))
            l.append(("nothing before %s overflows" % k, lambda ex, s, v, k=k: z3.Not(BAD(zi(v[k])))))
            for o in boolk:
                if o == k:
                    continue
                l.append(("%s says whether the dimensions before %s overflow" % (o, k), lambda ex, s, v, k=k, o=o: tb(ex, v[o]) == BAD(zi(v[k]))))
                l.append(("%s says whether the dimensions before %s do not overflow" % (o, k), lambda ex, s, v, k=k, o=o: tb(ex, v[o]) == z3.Not(BAD(zi(v[k])))))
            for j in intk:
                if j == k:
                    continue
                for nm, E in (("least", EMIN), ("greatest", EMAX)):
                    l.append(("%s is the %s offset of the dimensions before %s, if they do not overflow" % (j, nm, k),
                              lambda ex, s, v, k=k, j=j, E=E: z3.Or(BAD(zi(v[k])), zi(v[j]) == E(zi(v[k])))))
        return l

    def flat(self):
        n = self.b.rank
        return z3.Or(z3.Not(NE(n)), z3.Not(BAD(n))), z3.If(NE(n), EMIN(n), I(0)), z3.If(NE(n), EMAX(n), I(0))

    def bounds_contract(self, ex, st, v, inst):
        if not isinstance(v[1], X.Ptr) or v[1].region is not self.b.dreg or X.conc(v[1].off) != 0:
            raise X.Undecided("the memory of other dimensions")
        ex.oblige(st, zi(v[0]) == self.b.rank, "precondition: the rank is the number of dimensions")
        r, lo, hi = self.flat()
        rv = z3.Bool("flat_bounds_ok!%d" % next(ex.fresh_n))
        a, b = ex.fresh_int(st, 64, "flat_min"), ex.fresh_int(st, 64, "flat_max")
        st.assume(z3.And(rv == r, z3.Implies(rv, z3.And(a == lo, b == hi))))
        for p, x in ((v[2], a), (v[3], b)):
            ex.put(st, p.region, p.off, 8, x)
        return rv

    def size(self):
        """(is it representable, the size)."""
        n, e = self.b.rank, self.b.elem
        ue = z3.If(e < 0, e + U64, e)
        s = EMAX(n) - EMIN(n) + ue
        ok = z3.And(AE(n), z3.Not(BAD(n)), X.inr(EMAX(n) - EMIN(n)), s < U64)
        return z3.If(ok, s, I(0))

    def size_contract(self, ex, st, v, inst):
        if not isinstance(v[2], X.Ptr) or v[2].region is not self.b.dreg or X.conc(v[2].off) != 0:
            raise X.Undecided("the size of other dimensions")
        ex.oblige(st, z3.And(zi(v[0]) == self.b.rank, zi(v[1]) == self.b.elem), "precondition: the rank and element size are the buffer's")
        return signed(self.size())


def signed(x):
    return z3.If(x >= 2 ** 63, x - U64, x)


def flat_lemmas():
    """The induction steps, and that the offset of an element is between the least and the greatest offset."""
    i, n = z3.Ints("i n")
    d = Dim(*z3.Ints("min max stride fold"))
    x = z3.Int("x")
    lo, hi = terms(d)
    e = extent1(d)
    l = []
    defs, _ = flat_step(n, d, n)
    st = X.State()
    fits = [X.inr(v) for _, v in d.fields()]
    for nm, P_ in (("NE", lambda k: z3.Not(NE(k))), ("AE", lambda k: z3.Not(AE(k))), ("BAD", BAD)):
        l.append(("lemma (induction step): %s of a prefix says it of all dimensions" % nm, defs + [P_(n)], P_(n + 1)))
    l.append(("lemma (induction step): dimensions that are not empty", defs + [z3.Implies(AE(n), NE(n)), AE(n + 1)], NE(n + 1)))
    l.append(("lemma (induction step): the least and greatest offset", defs + [z3.Implies(NE(n), z3.And(EMIN(n) <= 0, EMAX(n) >= 0)), NE(n + 1)],
              z3.And(EMIN(n + 1) <= 0, EMAX(n + 1) >= 0)))
    l.append(("lemma (induction step): the least and greatest offset are representable", defs + fits + [z3.Implies(z3.Not(BAD(n)), z3.And(X.inr(EMIN(n)), X.inr(EMAX(n)))),
                                                                               z3.Not(BAD(n + 1))], z3.And(X.inr(EMIN(n + 1)), X.inr(EMAX(n + 1)))))
    r = z3.Int("r")
    off = z3.If(d.folded(), r * d.stride, z3.If(d.stride == 0, I(0), (x - d.min) * d.stride))
    inb = [d.sane(), d.contains(x), z3.Implies(d.folded(), z3.And(0 <= r, r < d.fold))]
    l.append(("lemma: the offset of a coordinate is between the terms of its dimension", inb, z3.And(lo <= off, off <= hi)))
    l.append(("lemma: dimensions with elements are not empty", inb + [d.stride != 0], e >= 0))
    s, t = z3.Ints("s t")
    l.append(("lemma (induction step): the offset of an element is between the least and the greatest offset",
              defs + [EMIN(n) <= s, s <= EMAX(n), lo <= t, t <= hi], z3.And(EMIN(n + 1) <= s + t, s + t <= EMAX(n + 1))))
    return l


def c11_specs(mod, kinds=("valid",)):
    out = []

    def bounds(env, ex):
        f = Flat(env, ex, ("bounds",))
        loc = {}

        def setup(st):
            b = f.setup(st)
            loc["o"] = []
            for n in ("flat_min", "flat_max"):
                r = X.Region(n, 8)
                st.mem[r] = {(0, 8): env.int(st, n)}
                loc["o"].append(r)
            return [b.rank, X.Ptr(b.dreg, 0)] + [X.Ptr(r, 0) for r in loc["o"]]

        def fin(st, ret):
            r, lo, hi = f.flat()
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            ob(X.zb(ret) == r, "the result says whether the offsets of all elements are representable")
            for k, (g, w) in enumerate(((loc["o"][0], lo), (loc["o"][1], hi))):
                ob(z3.Implies(X.zb(ret), zi(st.cells(g)[(0, 8)]) == w), "the %s offset is that of the elements" % ("least", "greatest")[k])
            unchanged(st, ex, f.b)
        return setup, fin
    if has(mod, BOUNDS):
        out.append(spec("calculate_flat_bounds", mod, BOUNDS, bounds, kinds, timeout=8.0))

    def validate(inline):
        def body(env, ex):
            f = Flat(env, ex, inline)

            def setup(st):
                return [f.setup(st).ptr()]

            def fin(st, ret):
                b = f.b
                r, lo, hi = f.flat()
                ue = z3.If(b.elem < 0, b.elem + U64, b.elem)
                inside = z3.And(b.base + lo >= 0, hi + ue < U64, b.base + hi + ue < U64)
                ex.oblige(st, X.zb(ret) == z3.And(r, z3.Or(b.base == 0, inside)), "a buffer is valid if and only if all of its offsets and addresses are representable",
                          assume=False)
                unchanged(st, ex, b)
            return setup, fin
        return body
    out.append(spec("validate_buffer", mod, r"slinky::validate_buffer\(slinky::raw_buffer const&\)", validate(() if has(mod, BOUNDS) else ("bounds",)), kinds, timeout=8.0))
    return out


def has(mod, rx):
    try:
        return N.find([mod], rx) is not None
    except Exception:
        return False


def unchanged(st, ex, b):
    b.frame(st, ex, b.rank, b.base)
    for k in F:
        a = ex.array_term(st, b.dreg, F[k], 8)
        if not a.eq(b.arr[k]):
            ex.oblige(st, a == b.arr[k], "the dims are unchanged", assume=False)


def size_specs(mod, kinds=("alloc",)):
    out = []
    rest = () if has(mod, BOUNDS) else ("bounds",)

    def size(sym, direct, inline):
        def body(env, ex):
            f = Flat(env, ex, inline)

            def setup(st):
                b = f.setup(st)
                return [b.rank, b.elem, X.Ptr(b.dreg, 0)] if direct else [b.ptr()]

            def fin(st, ret):
                ex.oblige(st, zi(ret) == signed(f.size()), "the size is the span of the elements if it is representable and there are any, otherwise 0", assume=False)
                unchanged(st, ex, f.b)
            return setup, fin
        return body
    if has(mod, SIZE):
        out.append(spec("alloc_size", mod, SIZE, size(SIZE, True, rest + ("size",)), kinds, timeout=8.0))
    SB = r"slinky::raw_buffer::size_bytes\(\) const"
    out.append(spec("raw_buffer::size_bytes", mod, SB, size(SB, False, rest + (() if has(mod, SIZE) else ("size",))), kinds, timeout=8.0))

    def offset(env, ex):
        f = Flat(env, ex, rest)

        def setup(st):
            return [f.setup(st).ptr()]

        def fin(st, ret):
            r, lo, hi = f.flat()
            ex.oblige(st, zi(ret) == z3.If(r, signed(-lo), I(0)), "the result is the distance of the lowest element below the base", assume=False)
            unchanged(st, ex, f.b)
        return setup, fin
    out.append(spec("raw_buffer::base_offset", mod, r"slinky::raw_buffer::base_offset\(\) const", offset, kinds, timeout=8.0))
    return out


def masks(env, ex, powers):
    """Bit operations with powers of two p: x & (p - 1) is x mod p, x & -p is x - x mod p."""
    def f(ex, st, op, w, a, b):
        if op != "and":
            return None
        for p in powers:
            for x, m in ((a, b), (b, a)):
                if ex.must(st, m == -p):
                    return x - emod(st, x, p)[1]
                if ex.must(st, m == p - 1):
                    return emod(st, x, p)[1]
        return None
    ex.mask = f


def power(env, st, n):
    v = env.int(st, n)
    st.assume(z3.And(v >= 1, v <= 2 ** 62))
    # lemma: a number is a multiple of itself
    st.assume(emod(st, v, v)[1] == 0)
    return v


def alloc_specs(mod, kinds=("alloc",)):
    out = []
    IMPL = r"slinky::raw_buffer::init_strides_impl\(long\)"
    INIT = r"slinky::raw_buffer::init_strides\(long\)"

    def result(st, ex, ret):
        """(has a value, the value) of an optional size."""
        v, h = ret.v
        if isinstance(h, X.Pack) or isinstance(v, X.Pack):
            raise X.Undecided("layout of an optional")
        return zi(h) != 0 if not isinstance(h, (bool, z3.BoolRef)) else X.zb(h), zi(v)

    def init(env, ex):
        loc = {}
        pw = []
        masks(env, ex, pw)

        def impl(ex, st, v, i):
            return X.DEAD        # not this function's part
        ex.contract(IMPL, impl)

        def setup(st):
            b = env.buf(st)
            a = power(env, st, "alignment")
            pw.append(a)
            st.assume(b.rank <= 1)
            D = b.fact(st, I(0), sane=False)
            loc.update(b=b, a=a, D=D)
            return [b.ptr(), a]

        def fin(st, ret):
            b, a, D = loc["b"], loc["a"], loc["D"]
            ob = lambda c, n: ex.oblige(st, c, n, assume=False)
            has, size = result(st, ex, ret)
            n = b.new(st, I(0))
            b.frame(st, ex, b.rank, b.base)
            ob(z3.Implies(b.rank == 1, z3.And(n.min == D.min, n.max == D.max, n.fold == D.fold)), "the bounds and fold factor are unchanged")
            ob(z3.Implies(z3.And(b.rank == 1, D.stride != AUTO), n.stride == D.stride), "a preset stride is unchanged")
            ob(z3.Implies(z3.And(b.rank == 1, D.stride == AUTO, b.elem >= 0, has), z3.Or(extent1(D) <= 0, n.stride >= b.elem)), "the elements of the dimension do not overlap")
            lo, hi = terms(n)
            span = z3.If(b.rank == 1, hi - lo, I(0))
            ob(z3.Implies(has, z3.And(b.elem >= 0, z3.Or(z3.And(b.rank == 1, extent1(n) < 0), size >= span + b.elem))), "the size is at least the span of the elements")
            ob(z3.Implies(has, z3.And(emod(st, size, a)[1] == 0, size >= 0)), "the size is a multiple of the alignment")
            e = z3.If(extent1(n) > 0, extent1(n), I(0))
            fits = z3.And(b.elem >= 0, z3.Or(b.rank == 0, z3.And(X.inr(n.max - n.min), X.inr(e), X.inr(e * n.stride))),
                          X.inr(z3.If(b.rank == 1, e * n.stride, I(0)) + b.elem + a - 1))
            ob(z3.Implies(z3.And(n.fold == -1, n.stride >= 0, z3.Not(has)), z3.Not(fits)), "there is a size if it is representable")
        return setup, fin
    if has(mod, INIT):
        out.append(spec("raw_buffer::init_strides", mod, INIT, init, kinds, timeout=8.0))

    def allocate(env, ex):
        loc = {}
        f = Flat(env, ex, () if has(mod, BOUNDS) else ("bounds",))
        pw = []
        masks(env, ex, pw)

        def cinit(ex, st, v, i):
            b = loc["b"]
            if not isinstance(v[0], X.Ptr) or v[0].region is not b.reg:
                raise X.Undecided("strides of another buffer")
            ex.oblige(st, zi(v[1]) == loc["sa"], "precondition: the strides have the requested alignment")
            loc["init"] = True
            return X.Agg([loc["size"], loc["has"]])
        ex.contract(INIT, cinit)

        def malloc(ex, st, v, i):
            st.ghost["malloc"] = st.ghost.get("malloc", 0) + 1
            st.ghost["requested"] = zi(v[0])
            ex.oblige(st, z3.And(zi(v[0]) >= 0), "the requested size is not negative")
            none = st.fork()
            st.assume(z3.And(loc["p"] >= 1, loc["p"] + zi(v[0]) < 2 ** 62))
            none.assume(loc["p"] == 0)
            none.ghost["no memory"] = True
            return [(st, X.Ptr(ex.flat, loc["p"])), (none, X.Ptr(ex.flat, I(0)))]
        ex.contract(r"malloc", malloc)

        def setup(st):
            b = f.setup(st)
            loc.update(b=b, ba=power(env, st, "base_alignment"), sa=power(env, st, "stride_alignment"), size=env.int(st, "size"),
                       has=env.int(st, "has_size", 8), p=env.int(st, "block"))
            pw.append(loc["ba"])
            n = b.rank
            st.assume(z3.And(loc["has"] >= 0, loc["has"] <= 1))
            # contract of init_strides
            st.assume(z3.Implies(loc["has"] == 1, z3.And(b.elem >= 0, loc["size"] >= 0, z3.Implies(NE(n), z3.And(
                z3.Not(BAD(n)), loc["size"] >= EMAX(n) - EMIN(n) + b.elem)))))
            st.assume(X.inr(loc["size"] + loc["ba"] - 1))
            return [b.ptr(), loc["ba"], loc["sa"]]

        def fin(st, ret):
            b, n, p = loc["b"], loc["b"].rank, loc["p"]
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            b.frame(st, ex, b.rank)
            k = st.ghost.get("malloc", 0)
            r = zi(ex.address(ret))
            if k == 0:
                ob(loc["has"] == 0, "memory is obtained if the size is representable")
                ob(z3.And(r == 0, b.new_base(st) == b.base), "there is no result and no base if the size is not representable")
                return
            ob(k == 1, "memory is obtained once")
            ob(loc["has"] == 1, "no memory is obtained if the size is not representable")
            ob(r == p, "the result is the memory that was obtained")
            base = b.new_base(st)
            if st.ghost.get("no memory"):
                ob(z3.Or(base == b.base, base == 0), "there is no base if there is no memory")
                return
            ob(emod(st, base, loc["ba"])[1] == 0, "the base is aligned")
            ob(z3.Implies(NE(n), z3.And(base + EMIN(n) >= p, base + EMAX(n) + b.elem <= p + st.ghost["requested"])), "every element is within the memory that was obtained")
        return setup, fin
    out.append(spec("raw_buffer::allocate", mod, r"slinky::raw_buffer::allocate\(long, long\)", allocate, kinds, timeout=8.0))

    def extent(env, ex):
        loc = {}

        def setup(st):
            p, d = env.dim(st, "dim", False)
            r = X.Region("overflow", 1)
            o = env.int(st, "overflow", 8)
            st.assume(z3.And(o >= 0, o <= 1))
            st.mem[r] = {(0, 1): o}
            loc.update(d=d, r=r, o=o)
            return [p, X.Ptr(r, 0)]

        def fin(st, ret):
            d, o = loc["d"], loc["o"]
            n = st.cells(loc["r"])[(0, 1)]
            n = X.zb(n) if isinstance(n, (bool, z3.BoolRef)) else zi(n) != 0
            e = extent1(d) + 1
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(n == z3.Or(o != 0, z3.Not(X.inr(e))), "an overflow is recorded if and only if there is one")
            ob(z3.Implies(z3.Not(n), zi(ret) == e), "the result is the number of coordinates that have memory")
        return setup, fin
    EXT = r"slinky::\(anonymous namespace\)::alloc_extent\(slinky::dim const&, bool&\)"
    if has(mod, EXT):
        out.append(spec("alloc_extent", mod, EXT, extent, kinds))
    return out


# --- number of elements ---------------------------------------------------------------------------------------------------
PROD = z3.Function("product of extents", z3.IntSort(), z3.IntSort())


def prod_step(i, d, n):
    """The product of the extents of the dimensions before i: definition, and lemmas (count_lemmas) about it."""
    e = z3.If(d.max < d.min, I(0), d.max - d.min + 1)
    return [PROD(i + 1) == PROD(i) * e, PROD(i) >= 0], [
        z3.Implies(z3.And(PROD(i) >= U64, e >= 1), PROD(i + 1) >= U64), z3.Implies(e == 0, PROD(i + 1) == 0),
        z3.Implies(z3.And(PROD(i) >= 1, e >= 1), z3.And(PROD(i + 1) >= 1, PROD(i + 1) >= e)),
        z3.Implies(PROD(i + 1) == 0, PROD(n) == 0)]


def count_lemmas():
    p, e, q = z3.Ints("p e q")
    return [("lemma (count): a product that is not representable stays so", [p >= U64, e >= 1], p * e >= U64),
            ("lemma (count): a product of positive extents is positive", [p >= 1, e >= 1], z3.And(p * e >= 1, p * e >= e)),
            ("lemma (count): an empty dimension makes the product 0 (step)", [p == 0], p * e == 0)]


def count_specs(mod):
    def body(env, ex):
        loc = {}

        def access(st, i):
            key = ("extent", i.get_id())
            if key in st.ghost:
                return
            st.ghost[key] = i
            b = loc["b"]
            defs, lem = prod_step(i, b.fact(st, i, sane=False), b.rank)
            st.assume(z3.Implies(z3.And(0 <= i, i < b.rank), z3.And(*(defs + lem))))

        u = lambda x: z3.If(zi(x) < 0, zi(x) + U64, zi(x))

        def cand(ex, st, fn, head, entry):
            n = loc["b"].rank
            l = []
            ints = [k for k, v in entry.items() if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)]
            bools = [k for k, v in entry.items() if isinstance(v, (bool, z3.BoolRef, int, z3.ArithRef))]
            tb = lambda v: X.zb(v) if isinstance(v, (bool, z3.BoolRef)) else zi(v) != 0
            for k in ints:
                l.append(("%s is not negative" % k, lambda ex, s, v, k=k: zi(v[k]) >= 0))
                l.append(("%s is at most the rank" % k, lambda ex, s, v, k=k: zi(v[k]) <= n))
                l.append(("%s is 0 or 1" % k, lambda ex, s, v, k=k: z3.And(zi(v[k]) >= 0, zi(v[k]) <= 1)))
                l.append(("no dimension before %s is empty" % k, lambda ex, s, v, k=k: PROD(zi(v[k])) >= 1))
                l.append(("the product before %s is not negative" % k, lambda ex, s, v, k=k: PROD(zi(v[k])) >= 0))
                for j in ints:
                    if j != k:
                        l.append(("%s is the product before %s" % (j, k), lambda ex, s, v, k=k, j=j: u(v[j]) == PROD(zi(v[k]))))
                        l.append(("%s is the product before %s, or the greatest integer" % (j, k), lambda ex, s, v, k=k, j=j: u(v[j]) == z3.If(
                            PROD(zi(v[k])) < U64, PROD(zi(v[k])), U64 - 1)))
                for o in bools:
                    if o == k:
                        continue
                    l.append(("%s says whether the product before %s is representable" % (o, k), lambda ex, s, v, k=k, o=o: tb(v[o]) == (PROD(zi(v[k])) >= U64)))
                    for j in ints:
                        if j != k and j != o:
                            l.append(("%s is the product before %s unless %s" % (j, k, o), lambda ex, s, v, k=k, j=j, o=o: z3.Or(tb(v[o]), u(v[j]) == PROD(zi(v[k])))))
            return l
        ex.loop_candidates[r""] = cand

        def setup(st):
            loc["b"] = b = env.buf(st, base=False, access=access)
            st.assume(PROD(0) == 1)
            return [b.ptr()]

        def fin(st, ret):
            p = PROD(loc["b"].rank)
            ex.oblige(st, z3.Implies(p < U64, u(ret) == p), "the result is the number of elements if it is representable", assume=False)
            ex.oblige(st, (u(ret) == 0) == (p == 0), "the result is 0 if and only if there are no elements", assume=False)
        return setup, fin
    return [spec("raw_buffer::elem_count", mod, r"slinky::raw_buffer::elem_count\(\) const", body, ["alloc"], timeout=8.0)]


def c08_specs(mod):
    return size_specs(mod) + alloc_specs(mod) + count_specs(mod)
