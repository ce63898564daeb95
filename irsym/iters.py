"""Contracts of the iteration over buffers (runtime/buffer.cc, runtime/buffer.h): C10.

A loop over one dimension visits intervals [c, c + n) of coordinates. The ghost cursor is the next coordinate to visit: every visit has to
begin at the cursor, and has to have the address of every coordinate x of the interval in every buffer: (base of the visit) + (x - c)*stride is
the address of x, or the base is null and the buffer does not contain x. After the loop the cursor is beyond the last coordinate."""
import z3
from . import build as B, ex as X, nodes as N, arith as A
from .bufs import Env, Dim, F, I, zi, Z, spec, find, has, emod, skolem, BIG, BROADCAST

NS = r"slinky::internal::\(anonymous namespace\)::"
CONTIG = r"slinky::function_ref<void \(long, void\*\*, long, long const\*\)>"
ELEM = r"slinky::function_ref<void \(void\*\*, long, long const\*\)>"


def ediv(st, a, b):
    return emod(st, a, b)[0]


def same_block(st, a, b, fold, k, ff):
    """lemma: numbers in the same block of ff are in the same block of fold, which is k*ff."""
    st.assume(z3.Implies(z3.And(ff > 0, k >= 1, fold == k * ff, ediv(st, a, ff) == ediv(st, b, ff)), ediv(st, a, fold) == ediv(st, b, fold)))


def between(st, a, x, b, ff):
    """lemma: a number between two numbers of a block is in the block."""
    st.assume(z3.Implies(z3.And(ff > 0, a <= x, x <= b, ediv(st, a, ff) == ediv(st, b, ff)), ediv(st, x, ff) == ediv(st, a, ff)))


def lemma_obligations():
    a, b, x, f, k, g, q1, r1, q2, r2, p1, s1, p2, s2, p3, s3 = z3.Ints("a b x f k g q1 r1 q2 r2 p1 s1 p2 s2 p3 s3")
    dv = lambda n, d, q, r: z3.And(n == q * d + r, r >= 0, r < d)
    l = [("lemma: a number between two numbers of a block is in the block",
          [g > 0, a <= x, x <= b, dv(a, g, p1, s1), dv(b, g, p1, s2), dv(x, g, p3, s3)], p3 == p1)]
    # a = p*g + s, p = q*k + r: then a = q*(k*g) + (r*g + s), with 0 <= r*g + s < k*g; quotients are unique
    q, r, p, s = z3.Ints("q r p s")
    l.append(("lemma: a block of a multiple is made of blocks (remainder)", [g > 0, k >= 1, 0 <= r, r <= k - 1, 0 <= s, s < g], z3.And(r * g + s >= 0, r * g + s < k * g)))
    l.append(("lemma: a block of a multiple is made of blocks (sum)", [a == p * g + s, p == q * k + r], a == q * (k * g) + (r * g + s)))
    m, t = z3.Ints("m t")
    l.append(("lemma: the numbers from a multiple to the next are in a block", [g > 0, dv(a, g, p1, I(0)), a <= b, b < a + g, dv(b, g, p2, s2)], p2 == p1))
    l.append(("lemma: the numbers before a multiple are in a block", [g > 0, dv(x, g, p1, I(0)), x - g <= a, a <= b, b < x, dv(a, g, p2, s2), dv(b, g, p3, s3)], p2 == p3))
    l.append(("lemma: the next multiple", [g > 0, dv(a, g, p1, I(0)), b == a + g, dv(b, g, p2, s2)], s2 == 0))
    l.append(("lemma: quotients are unique", [m > 0, q1 * m + r1 == q2 * m + r2, 0 <= r1, r1 < m, 0 <= r2, r2 < m], q1 == q2))
    return l


class Loop:
    """A loop over one dimension. part "blocks": the loop over blocks of the fold factor, with a contract on the visit of a block.
    part "block": the visit of an arbitrary block, as called from the function."""
    def __init__(self, env, ex, n, callf, contig, part):
        self.env, self.ex, self.n, self.callf, self.contig, self.part = env, ex, n, callf, contig, part
        ex.contract(NS + r"call_f\(slinky::function_ref<.*>, void\*\*, long, long const\*, long\)", self.call_f)
        ex.contract("void " + NS + r"call_impl_linear<.*>\(.*\)", self.call_linear)
        ex.contract(r"slinky::dim::is_folded\(long, long\) const", self.is_folded)
        ex.contract(r"slinky::dim::flat_offset_bytes\(long\) const", self.offset)
        ex.contract(r"long slinky::align_up<long>\(long, long\)", self.align_up)
        ex.contract(r".*for_each_impl_nonlinear<.*>.*::'lambda'\(long, long\)::operator\(\)\(long, long\) const", self.block)
        ex.contract(r".*for_each_impl_nonlinear<.*>.*::\{lambda\(long, long\)#1\}::operator\(\)\(long, long\) const", self.block)
        ex.loop_candidates[r"for_each_impl_nonlinear"] = self.cand

    def setup(self, st):
        env, n = self.env, self.n
        self.d, self.ps, self.base, self.k = [], [], [], []
        self.ff = env.int(st, "fold_factor")
        for i in range(n):
            p, d = env.dim(st, "dim%d" % i)
            self.ps.append(p)
            self.d.append(d)
            b = env.int(st, "base%d" % i)
            st.assume(b >= 0)
            self.base.append(b)
            k = env.int(st, "k%d" % i)
            self.k.append(k)
            # the fold factor of the loop divides the fold factors of the buffers
            st.assume(z3.Implies(d.folded(), z3.And(self.ff > 0, k >= 1, d.fold == k * self.ff)))
        d0 = self.d[0]
        self.lo, self.hi = d0.min, d0.max
        big = 2 ** 61
        st.assume(z3.And(self.ff < big, *[z3.And(d.min > -big, d.max < big, d.min < big, d.max > -big) for d in self.d]))
        self.g = X.Region("ghost", 8)
        st.mem[self.g] = {(0, 8): d0.min}
        bs = X.Region("bases", 8 * n)
        st.mem[bs] = {(8 * i, 8): X.Ptr(self.ex.flat, b) for i, b in enumerate(self.base)}
        lp = X.Region("loop", 4096)
        cells = {(0, 8): self.ff, (8, 8): X.NULL}
        for i, p in enumerate(self.ps):
            cells[(16 + 8 * i, 8)] = p
        cells[(16 + 8 * n, 8)] = X.NULL
        cells[(24 + 8 * n, 8)] = X.NULL
        st.mem[lp] = cells
        self.se = env.int(st, "slice_extent")
        st.assume(z3.And(self.se >= 1, self.se < big))
        if self.contig:
            st.assume(self.se == 1)
        return [X.Ptr(bs, 0), X.Ptr(lp, 0), self.se]

    def find(self, p):
        for k, q, d in zip(self.k, self.ps, self.d):
            if isinstance(p, X.Ptr) and p.region is q.region:
                return d, k
        raise X.Undecided("another dimension")

    def is_folded(self, ex, st, v, i):
        d, k = self.find(v[0])
        a, b = zi(v[1]), zi(v[2])
        for t in (a, b):
            self.in_block(st, t)
        same_block(st, a, b, d.fold, k, self.ff)
        return z3.And(d.stride != 0, d.fold > 0, ediv(st, a, d.fold) != ediv(st, b, d.fold))

    def offset(self, ex, st, v, i):
        d, _ = self.find(v[0])
        x = zi(v[1])
        ex.oblige(st, d.contains(x), "precondition of flat_offset_bytes: the coordinate is in bounds")
        return d.off(st, x)

    def align_up(self, ex, st, v, i):
        a, b = map(zi, v)
        ex.oblige(st, b > 0, "precondition of align_up: the divisor is positive")
        r = ex.fresh_int(st, 64, "aligned")
        st.assume(z3.And(emod(st, r, b)[1] == 0, a <= r, r < a + b))
        st.ghost["align"] = r
        return r

    def cursor(self, st):
        return zi(st.cells(self.g)[(0, 8)])

    def in_block(self, st, t):
        """lemma: a number between two numbers of a block is in the block."""
        b = self.cur_block
        between(st, b[0], t, b[1], self.ff)
        between(st, b[0], b[1], b[1], self.ff)

    def block(self, ex, st, v, i):
        a, b = zi(v[1]), zi(v[2])
        c = self.cursor(st)
        if self.part == "blocks":
            ob = lambda cnd, n: ex.oblige(st, cnd, n)
            # lemma: the numbers before the next multiple are in one block
            ff = self.ff
            al = st.ghost.get("align")
            for cnd in [z3.And(emod(st, a, ff)[1] == 0, b < a + ff)] + ([] if al is None else [z3.And(emod(st, al, ff)[1] == 0, al - ff <= a, b < al)]):
                st.assume(z3.Implies(z3.And(ff > 0, a <= b, cnd), ediv(st, a, ff) == ediv(st, b, ff)))
            ob(z3.Implies(a <= b, a == c), "a block begins where the last one ended")
            ob(z3.Implies(a <= b, z3.And(a >= self.lo, b <= self.hi)), "a block is within the bounds")
            ob(z3.Or(a > b, self.ff <= 0, ediv(st, a, self.ff) == ediv(st, b, self.ff)), "a block does not cross a fold")
            ex.put(st, self.g, 0, 8, z3.If(a <= b, b + 1, c))
            return None
        lo, hi = self.env.int(st, "block_min"), self.env.int(st, "block_max")
        st.assume(z3.And(lo >= self.lo, lo <= hi, hi <= self.hi, z3.Or(self.ff <= 0, ediv(st, lo, self.ff) == ediv(st, hi, self.ff))))
        ex.put(st, self.g, 0, 8, lo)
        self.cur_block = (lo, hi)

        def done(ex, st, r):
            ex.oblige(st, self.cursor(st) == hi + 1, "every coordinate of the block is visited exactly once", assume=False)
            return X.DEAD
        return X.Inline([v[0], lo, hi], done)

    def visit(self, st, bases, extent, strides, slice_extent):
        """The visit of extent coordinates."""
        ex = self.ex
        c = self.cursor(st)
        ob = lambda cnd, n: ex.oblige(st, cnd, n)
        count = slice_extent if self.contig else extent
        if self.contig:
            ob(extent == 1, "a contiguous visit is one slice")
        else:
            ob(slice_extent == self.se, "the extent of slices is passed on")
        ob(count >= 1, "a visit is not empty")
        last = c + count - 1
        ob(last <= self.cur_block[1], "a visit does not exceed the bounds")
        x = z3.Int("x!%d" % next(ex.fresh_n))
        if not isinstance(bases, X.Ptr) or not isinstance(strides, X.Ptr):
            raise X.Undecided("where the bases are")
        for n in range(self.n):
            s2 = st.fork()
            s2.assume(z3.And(c <= x, x <= last))
            ob2 = lambda cnd, m: ex.oblige(s2, cnd, m)
            d = self.d[n]
            b = zi(ex.address(ex.load(s2, self.env.mod, ("ptr",), ex.addoff(bases, 8 * n))))
            s = zi(ex.load(s2, self.env.mod, ("i", 64), ex.addoff(strides, 8 * n)))
            ob2(s == d.stride, "stride %d is the stride of the buffer" % n)
            for t in (c, x):
                self.in_block(s2, t)
            same_block(s2, c, x, d.fold, self.k[n], self.ff)
            (qc, rc), (qx, rx) = emod(s2, c, d.fold), emod(s2, x, d.fold)
            # lemma: numbers of one block differ as their remainders; distribution
            s2.assume(z3.Implies(z3.And(d.fold > 0, qc == qx), rx - rc == x - c))
            s2.assume(z3.Implies(rx - rc == x - c, rx * d.stride == rc * d.stride + (x - c) * d.stride))
            s2.assume((x - d.min) * d.stride == (c - d.min) * d.stride + (x - c) * d.stride)
            addr = self.base[n] + d.off(s2, x)
            have = self.base[n] != 0
            here = z3.And(have, d.contains(x)) if n else have
            # elements have addresses
            s2.assume(z3.Implies(z3.And(have, d.contains(x)), addr > 0))
            s2.assume(z3.Implies(z3.And(have, d.contains(c)), self.base[n] + d.off(s2, c) > 0))
            ob2(z3.Implies(here, b + (x - c) * d.stride == addr), "buffer %d: a visited coordinate has its address" % n)
            ob2(z3.Implies(here, b != 0), "buffer %d: a coordinate that it contains has an address" % n)
            ob2(z3.Implies(z3.Not(here), b == 0), "buffer %d: a coordinate that it does not contain has no address" % n)
        ex.put(st, self.g, 0, 8, last + 1)

    def call_f(self, ex, st, v, i):
        v = v[-4:]
        self.visit(st, v[0], zi(v[1]), v[2], zi(v[3])) if self.callf else ex.oblige(st, False, "the function is not called here")

    def call_linear(self, ex, st, v, i):
        if self.callf:
            ex.oblige(st, False, "the next loop is not called here")
            return
        self.visit(st, v[1], zi(v[0]), v[-2], zi(v[-1]))

    def multiple(self, ex, st, x):
        if ex.loop_mode == "havoc":
            st.ghost["multiple"] = x
        h = st.ghost.get("multiple")
        if h is not None and ex.loop_mode == "back":
            # lemma: the next multiple
            st.assume(z3.Implies(z3.And(self.ff > 0, emod(st, h, self.ff)[1] == 0, x == h + self.ff), emod(st, x, self.ff)[1] == 0))
        return emod(st, x, self.ff)[1] == 0

    def cand(self, ex, st, fn, head, entry):
        l = []
        ints = {k: None for k, v in entry.items() if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool) and not k.startswith("*")}
        cur = lambda s: self.cursor(s)
        if not ints:
            return None
        first = next(iter(ints))
        if isinstance(entry[first], int) and entry[first] in range(self.n + 1):
            return None                 # a loop over the buffers: unrolled
        ff = self.ff
        bounds = [("the bounds", self.lo, self.hi)] + ([("the block", *self.cur_block)] if self.part == "block" and hasattr(self, "cur_block") else [])
        for k in ints:
            l.append(("%s is a multiple of the fold factor" % k, lambda ex, s, v, k=k: self.multiple(ex, s, zi(v[k]))))
            for n, lo, hi in bounds:
                l.append(("the cursor is at %s, or beyond the end of %s" % (k, n), lambda ex, s, v, k=k, hi=hi, lo=lo: z3.If(zi(v[k]) <= hi, cur(s) == zi(v[k]), cur(s) == z3.If(lo <= hi, hi + 1, lo))))
                l.append(("%s is not before %s" % (k, n), lambda ex, s, v, k=k, lo=lo: zi(v[k]) >= lo))
                l.append(("%s is at most 1 beyond %s" % (k, n), lambda ex, s, v, k=k, hi=hi: zi(v[k]) <= hi + 1))
                l.append(("%s is at most the fold factor beyond %s" % (k, n), lambda ex, s, v, k=k, hi=hi: z3.Or(zi(v[k]) <= hi + ff, zi(v[k]) <= self.lo + ff)))
        return l


def nonlinear(mod, f, n, callf, contig, part):
    tf = {True: "true", False: "false"}
    sym = r"void %sfor_each_impl_nonlinear<%s, %dul, %s, %s>\(.*long\)" % (NS, f, n, tf[callf], tf[contig])
    if not has(mod, sym):
        return None
    what = "contiguous" if contig else "element-wise"

    def body(env, ex):
        L = Loop(env, ex, n, callf, contig, part)
        A.divmod_contract(ex, 64, True)

        def fin(st, ret):
            if part == "blocks":
                ex.oblige(st, L.cursor(st) == z3.If(L.lo <= L.hi, L.hi + 1, L.lo), "every coordinate is visited exactly once", assume=False)
        return L.setup, fin
    return spec("for_each_impl_nonlinear, %s, %d buffers, %s%s, %s" % (part, n, what, ", innermost" if callf else "", "slices" if f == CONTIG else "elements"),
                mod, sym, body, ("each",), timeout=8.0, budget=150.0 if n < 3 else 800.0)


def bases_in(env, ex, st, n, name="bases"):
    r = X.Region(name, 8 * n)
    l = []
    for i in range(n):
        b = env.int(st, "%s%d" % (name, i))
        st.assume(b >= 0)
        l.append(b)
    st.mem[r] = {(8 * i, 8): X.Ptr(ex.flat, b) for i, b in enumerate(l)}
    return r, l


def strides_in(env, ex, st, n):
    r = X.Region("strides", 8 * n)
    l = [env.int(st, "stride%d" % i) for i in range(n)]
    st.mem[r] = {(8 * i, 8): s for i, s in enumerate(l)}
    return r, l


def loop_in(env, ex, st, n, name="loop"):
    """A for_each_loop and what follows it."""
    r = X.Region(name, 4096)
    x = env.int(st, "loop_extent")
    l = [env.int(st, "loop_stride%d" % i) for i in range(n)]
    st.mem[r] = {(0, 8): x, (8, 8): X.FnPtr("@impl", env.mod)}
    st.mem[r].update({(16 + 8 * i, 8): s for i, s in enumerate(l)})
    o = 16 + 8 * n
    f = X.Region("callable", 8)
    st.mem[r].update({(o, 8): X.FnPtr("@f", env.mod), (o + 8, 8): X.Ptr(f, 0)})
    return r, x, l, o


def read_bases(ex, env, st, p, n):
    return [zi(ex.address(ex.load(st, env.mod, ("ptr",), ex.addoff(p, 8 * i)))) for i in range(n)]


def moved(b, t, s):
    return z3.If(b == 0, I(0), b + t * s)


def linear(mod, n):
    sym = r"void %scall_impl_linear<%dul>\(.*\)" % (NS, n)
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}
        old_find = ex.find_fn
        ex.find_fn = lambda m, name: None if name == "@impl" else old_find(m, name)

        def impl(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            t = zi(st.cells(L["g"])[(0, 8)])
            for k, b in enumerate(read_bases(ex, env, st, v[0], n)):
                ob(b == moved(L["b"][k], t, L["s"][k]), "base %d is the address of the iteration" % k)
            ob(isinstance(v[1], X.Ptr) and v[1].region is L["l"] and X.conc(v[1].off) == 0, "the next loop is run")
            ob(zi(v[2]) == L["se"], "the extent of slices is passed on")
            # the callee may change the bases it was given
            r = v[0].region
            if r is not L["br"]:
                for k in range(n):
                    ex.put(st, r, 8 * k, 8, X.Ptr(ex.flat, ex.fresh("changed")))
            else:
                ob(False, "the bases are copied")
            ex.put(st, L["g"], 0, 8, t + 1)
        ex.contract("@impl", impl)

        def setup(st):
            br, b = bases_in(env, ex, st, n)
            sr, s = strides_in(env, ex, st, n)
            lr, _, _, _ = loop_in(env, ex, st, n)
            e, se = env.int(st, "extent"), env.int(st, "slice_extent")
            st.assume(e >= 1)
            g = X.Region("ghost", 8)
            st.mem[g] = {(0, 8): I(0)}
            L.update(b=b, s=s, l=lr, se=se, g=g, br=br, e=e)
            return [e, X.Ptr(br, 0), X.Ptr(lr, 0), X.Ptr(sr, 0), se]

        def incr(ex, st, v, i):
            """increment_bases: its own contract is below."""
            k = X.conc(v[0])
            if k != n:
                raise X.Undecided("increment_bases of another number")
            l = read_bases(ex, env, st, v[1], n)
            for j, b in enumerate(l):
                s = zi(ex.load(st, env.mod, ("i", 64), ex.addoff(v[2], 8 * j)))
                t = zi(st.cells(L["g"])[(0, 8)])
                # addresses of elements are not null
                st.assume(z3.Implies(z3.And(L["b"][j] != 0, t >= 0, t < L["e"]), L["b"][j] + t * L["s"][j] > 0))
                st.assume((t - 1) * L["s"][j] + L["s"][j] == t * L["s"][j])
                ex.store(st, env.mod, ("ptr",), X.Ptr(ex.flat, z3.If(b == 0, I(0), b + s)), ex.addoff(v[1], 8 * j))
        ex.contract(r"void slinky::internal::increment_bases<.*>\(unsigned long, void\*\*, long const\*\)", incr)

        def cand(ex, st, fn, head, entry):
            l = []
            g = lambda s: zi(s.cells(L["g"])[(0, 8)])
            ks = [k for k, x in entry.items() if not k.startswith("*") and isinstance(x, z3.ArithRef)]
            if not ks and not any(k.startswith("*") for k in entry):
                return None
            cur = lambda s: read_bases(ex, env, s, X.Ptr(L["br"], 0), n)
            for d in (0, -1):
                for j in range(n):
                    l.append(("base %d is the address of iteration %+d" % (j, d), lambda ex, s, v, j=j, d=d: cur(s)[j] == moved(L["b"][j], g(s) + d, L["s"][j])))
                for k in ks:
                    l.append(("%s counts the iterations %+d" % (k, d), lambda ex, s, v, k=k, d=d: zi(v[k]) + g(s) == L["e"] - d))
                    l.append(("%s counts up the iterations %+d" % (k, d), lambda ex, s, v, k=k, d=d: zi(v[k]) == g(s) + d))
            for k in ks:
                l.append(("%s is positive" % k, lambda ex, s, v, k=k: zi(v[k]) >= 1))
            l.append(("iterations are left", lambda ex, s, v: z3.And(g(s) >= 0, g(s) < L["e"])))
            return l
        ex.loop_candidates[r"call_impl_linear"] = cand

        def fin(st, ret):
            ex.oblige(st, zi(st.cells(L["g"])[(0, 8)]) == L["e"], "every iteration is run once", assume=False)
        return setup, fin
    return spec("call_impl_linear, %d buffers" % n, mod, sym, body, ("each",))


def dispatch(mod, f, n, inner):
    sym = r"void %s%s<%s, %dul>\(.*\)" % (NS, "for_each_impl_call_f" if inner else "for_each_impl_linear", f, n)
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}

        def same(st, p, r, o):
            return isinstance(p, X.Ptr) and p.region is r and X.conc(p.off) == o

        def linear(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            ob(zi(v[0]) == L["x"], "the extent is the extent of the loop")
            for k, b in enumerate(read_bases(ex, env, st, v[1], n)):
                ob(b == L["b"][k], "base %d is passed on" % k)
            ob(same(st, v[2], L["l"], L["o"]), "the next loop is run")
            for k in range(n):
                ob(zi(ex.load(st, env.mod, ("i", 64), ex.addoff(v[3], 8 * k))) == L["s"][k], "stride %d is the stride of the loop" % k)
            ob(zi(v[4]) == L["se"], "the extent of slices is passed on")
            L["g"](st)

        def call(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            v = v[-4:]
            for k, b in enumerate(read_bases(ex, env, st, v[0], n)):
                ob(b == L["b"][k], "base %d is passed on" % k)
            ob(zi(v[1]) == L["x"], "the extent is the extent of the loop")
            for k in range(n):
                ob(zi(ex.load(st, env.mod, ("i", 64), ex.addoff(v[2], 8 * k))) == L["s"][k], "stride %d is the stride of the loop" % k)
            ob(zi(v[3]) == L["se"], "the extent of slices is passed on")
            L["g"](st)
        if inner:
            ex.contract(NS + r"call_f\(slinky::function_ref<.*>, void\*\*, long, long const\*, long\)", call)
        else:
            ex.contract(r"void %scall_impl_linear<.*>\(.*\)" % NS, linear)

        def setup(st):
            br, b = bases_in(env, ex, st, n)
            lr, x, s, o = loop_in(env, ex, st, n)
            st.assume(x >= 1)
            se = env.int(st, "slice_extent")
            g = X.Region("ghost", 8)
            st.mem[g] = {(0, 8): I(0)}

            def count(st):
                ex.put(st, g, 0, 8, zi(st.cells(g)[(0, 8)]) + 1)
            L.update(b=b, s=s, l=lr, o=o, x=x, se=se, g=count, r=g)
            return [X.Ptr(br, 0), X.Ptr(lr, 0), se]

        def fin(st, ret):
            ex.oblige(st, zi(st.cells(L["r"])[(0, 8)]) == 1, "there is one call", assume=False)
        return setup, fin
    return spec("%s, %d buffers, %s" % ("for_each_impl_call_f" if inner else "for_each_impl_linear", n, "slices" if f == CONTIG else "elements"), mod, sym, body, ("each",))


def call_f(mod, f):
    sym = r"%scall_f\(%s, void\*\*, long, long const\*, long\)" % (NS, f)
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}

        def called(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            ob(isinstance(v[0], X.Ptr) and v[0].region is L["c"], "the function is called on its object")
            a = v[1:]
            if f == CONTIG:
                ob(zi(a[0]) == L["se"], "the extent of slices is passed on")
                a = a[1:]
            ob(isinstance(a[0], X.Ptr) and a[0].region is L["b"] and X.conc(a[0].off) == 0, "the bases are passed on")
            ob(zi(a[1]) == L["x"], "the extent is passed on")
            ob(isinstance(a[2], X.Ptr) and a[2].region is L["s"] and X.conc(a[2].off) == 0, "the strides are passed on")
            ex.put(st, L["g"], 0, 8, zi(st.cells(L["g"])[(0, 8)]) + 1)
        ex.contract("@f", called)

        def setup(st):
            b, s, g, c = X.Region("bases", 8), X.Region("strides", 8), X.Region("ghost", 8), X.Region("callable", 8)
            st.mem[g] = {(0, 8): I(0)}
            st.mem[b], st.mem[s], st.mem[c] = {}, {}, {}
            x, se = env.int(st, "extent"), env.int(st, "slice_extent")
            st.assume(se >= 1)
            if f == ELEM:
                st.assume(se == 1)
            L.update(b=b, s=s, g=g, c=c, x=x, se=se)
            return [X.FnPtr("@f", mod), X.Ptr(c, 0), X.Ptr(b, 0), x, X.Ptr(s, 0), se]

        def fin(st, ret):
            ex.oblige(st, zi(st.cells(L["g"])[(0, 8)]) == 1, "there is one call", assume=False)
        return setup, fin
    return spec("call_f, %s" % ("slices" if f == CONTIG else "elements"), mod, sym, body, ("each",))


def increment(mod, n):
    sym = r"void slinky::internal::increment_bases<%dul>\(unsigned long, void\*\*, long const\*\)" % n
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}

        def setup(st):
            br, b = bases_in(env, ex, st, n)
            sr, s = strides_in(env, ex, st, n)
            L.update(br=br, b=b, s=s)
            for x, y in zip(b, s):
                st.assume(z3.Implies(x != 0, z3.And(x + y > 0, X.inr(x + y))))
            return [n, X.Ptr(br, 0), X.Ptr(sr, 0)]

        def fin(st, ret):
            for k, b in enumerate(read_bases(ex, env, st, X.Ptr(L["br"], 0), n)):
                ex.oblige(st, b == moved(L["b"][k], 1, L["s"][k]), "base %d is moved by its stride" % k, assume=False)
        return setup, fin
    return spec("increment_bases, %d buffers" % n, mod, sym, body, ("each",))


def predicate(mod, which, n, alias=False):
    """is_contiguous_slice, can_fuse and use_nonlinear_loop: what a loop may rely on."""
    sym = r"bool %s%s<%dul>\(.*\)" % (NS, which, n)
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}

        def access(st, i):
            for b in L["bufs"]:
                b.fact(st, i)

        def setup(st):
            L["bufs"] = bufs = []
            for k in range(n):
                bufs.append(env.buf(st, "buf%d" % k, base=False))
                L["bufs"] = bufs
            for b in bufs:
                b.dreg.on_access = (lambda f: lambda ex, st, i, fl, size: (f(ex, st, i, fl, size), access(st, zi(i))) and None)(b.dreg.on_access)
                st.assume(z3.And(b.elem >= 0, X.inr(b.elem)))
            d = env.int(st, "d")
            L["d"] = d
            st.assume(z3.And(d >= (1 if which == "can_fuse" else 0), d < BIG))
            if which == "use_nonlinear_loop":
                st.assume(d < bufs[0].rank)
            st.assume(bufs[0].base != 0)
            for b in bufs:
                for i in (d, d - 1):
                    x = self_dim(st, b, i)
                    st.assume(z3.And(*[X.inr(v) for v in (x.min, x.max, x.stride, x.fold, x.max + 1, x.max - x.min + 1, x.stride * (x.max - x.min + 1))]))
                    st.assume(x.sane())
            arr = X.Region("bufs", 8 * n)
            st.mem[arr] = {(8 * k, 8): b.ptr() for k, b in enumerate(bufs)}
            if alias:
                st.mem[arr][(8 * (n - 1), 8)] = bufs[0].ptr()
                bufs[-1] = bufs[0]
            return [X.Ptr(arr, 0), d]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            r = X.zb(ret)
            d = L["d"]
            b0 = L["bufs"][0]
            o0, i0 = self_dim(st, b0, d), self_dim(st, b0, d - 1)
            for k, b in enumerate(L["bufs"]):
                x = self_dim(st, b, d)
                live = b.base != 0
                if which == "is_contiguous_slice":
                    ob(z3.Implies(z3.And(r, live), x.stride == b.elem), "the elements of buffer %d are contiguous" % k)
                elif which == "use_nonlinear_loop":
                    y = skolem(ex, st, "x%d" % k)
                    st.assume(z3.And(o0.min <= y, y <= o0.max, o0.stride * 1 == o0.stride))
                    (q, m), (q1, m1) = emod(st, y, x.fold), emod(st, o0.min, x.fold)
                    between(st, o0.min, y, o0.max, x.fold)
                    st.assume(z3.Implies(z3.And(x.fold > 0, q == q1), m - m1 == y - o0.min))
                    st.assume(z3.Implies(m - m1 == y - o0.min, m * x.stride == m1 * x.stride + (y - o0.min) * x.stride))
                    st.assume((y - x.min) * x.stride == (o0.min - x.min) * x.stride + (y - o0.min) * x.stride)
                    go = z3.And(z3.Not(r), live, x.contains(o0.min) if k == 0 else True)
                    s = self_dim(st, b, d)
                    ob(z3.Implies(z3.And(go, o0.min <= o0.max), s.contains(y)), "buffer %d: every coordinate is in bounds in a linear loop" % k)
                    ob(z3.Implies(z3.And(go, s.contains(y)), s.off(st, y) == s.off(st, o0.min) + (y - o0.min) * s.stride), "buffer %d: addresses are linear in a linear loop" % k)
                else:
                    i = self_dim(st, b, d - 1)
                    xi = skolem(ex, st, "xi%d" % k)
                    e0 = i0.max - i0.min + 1
                    st.assume(z3.And(i0.min <= xi, xi < i0.max))
                    # the inner dimension is within the bounds of the first buffer, as the loop is linear
                    go = z3.And(r, live, i.contains(i0.min), i.contains(i0.max), i0.min <= i0.max)
                    for a, b2 in ((xi, xi + 1), (i0.min, i0.max)):
                        between(st, i0.min, xi, i0.max, i.fold)
                        between(st, i0.min, xi + 1, i0.max, i.fold)
                        (q, m), (q1, m1) = emod(st, b2, i.fold), emod(st, a, i.fold)
                        st.assume(z3.Implies(z3.And(i.fold > 0, q == q1), m - m1 == b2 - a))
                        st.assume(z3.Implies(m - m1 == b2 - a, m * i.stride == m1 * i.stride + (b2 - a) * i.stride))
                        st.assume((b2 - i.min) * i.stride == (a - i.min) * i.stride + (b2 - a) * i.stride)
                    st.assume(i.stride * e0 == i.stride * (i0.max - i0.min) + i.stride)
                    # the dimension is not folded within the bounds
                    lin = z3.Implies(i.folded(), emod(st, i0.min, i.fold)[0] == emod(st, i0.max, i.fold)[0])
                    ob(z3.Implies(z3.And(go, lin), i.off(st, xi + 1) - i.off(st, xi) == i.stride), "buffer %d: a step in the inner dimension is the stride" % k)
                    ob(z3.Implies(z3.And(go, lin), x.stride - (i.off(st, i0.max) - i.off(st, i0.min)) == i.stride), "buffer %d: a step in the outer dimension is the stride" % k)
        return setup, fin
    return spec("%s, %d buffers%s" % (which, n, ", aliased" if alias else ""), mod, sym, body, ("each",))


def self_dim(st, b, i):
    """Dimension i of a buffer, a broadcast beyond its rank."""
    d = b.old(i)
    c = zi(i) < b.rank
    return Dim(*[z3.If(c, getattr(d, k), I(0)) for k in ("min", "max", "stride", "fold")])


def gcd_fold(mod):
    sym = NS + r"gcd_fold_factor\(long, long\)"
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}

        def g(ex, st, v, i):
            a, b = map(zi, v)
            r = ex.fresh_int(st, 64, "gcd")
            ex.oblige(st, z3.And(a > 0, b > 0), "precondition of gcd: the operands are positive")
            k1, k2 = ex.fresh("k"), ex.fresh("k")
            st.assume(z3.And(r > 0, k1 > 0, k2 > 0, a == k1 * r, b == k2 * r))
            L["k"] = (k1, k2)
            return r
        ex.contract(r"(long )?slinky::gcd(<long>)?\(long, long\)", g)

        def setup(st):
            L["a"], L["b"] = env.int(st, "a"), env.int(st, "b")
            return [L["a"], L["b"]]

        def fin(st, ret):
            a, b, r = L["a"], L["b"], zi(ret)
            ks = list(L.get("k", ())) + [I(1)]
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            for x, n in ((a, "first"), (b, "second")):
                ob(z3.Implies(x > 0, z3.And(r > 0, z3.Or(*[x == k * r for k in ks]))), "the result divides the %s fold factor" % n)
            ob(z3.Implies(z3.And(a <= 0, b <= 0), r <= 0), "there is no fold factor if neither is one")
        return setup, fin
    return spec("gcd_fold_factor", mod, sym, body, ("each",))


def callbacks(mod, f, n):
    """for_each_element and for_each_contiguous_slice: the implementation gets the buffers in order; the callback it gets calls the user's
    function once for each step, with the addresses of the step."""
    name = "p_%s%d" % ("s" if f == CONTIG else "e", n)

    def body(env, ex):
        L = {}

        def impl(ex, st, v, i):
            p = v[0]
            for k in range(n):
                b = ex.load(st, mod, ("ptr",), ex.addoff(p, 8 * k))
                ex.oblige(st, isinstance(b, X.Ptr) and b.region is L["bufs"][k] and X.conc(b.off) == 0, "buffer %d is passed on" % k)
            if not isinstance(v[-2], X.FnPtr):
                raise X.Undecided("the callback")
            st.mem[L["br"]] = dict(L["cells"])

            def done(ex, st, r):
                ex.oblige(st, zi(st.cells(L["g"])[(0, 8)]) == L["e"], "the function is called once for every step", assume=False)
                return None
            args = [v[-1]] + ([L["se"]] if f == CONTIG else []) + [X.Ptr(L["br"], 0), L["e"], X.Ptr(L["sr"], 0)]
            ex.put(st, L["once"], 0, 8, zi(st.cells(L["once"])[(0, 8)]) + 1)
            return X.Inline(args, done, ex.find_fn(v[-2].mod, v[-2].name))
        ex.contract(r"void slinky::internal::for_each_(element|contiguous_slice)_impl<.*>\(.*\)", impl)

        def user(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            t = zi(st.cells(L["g"])[(0, 8)])
            a = list(v)
            if f == CONTIG:
                ob(zi(a[0]) == L["se"], "the extent of slices is passed on")
                a = a[1:]
            ob(len(a) == n, "there is an address for every buffer")
            for k in range(n):
                ob(zi(ex.address(a[k])) == moved(L["b"][k], t, L["s"][k]), "address %d is that of the step" % k)
            ex.put(st, L["g"], 0, 8, t + 1)
        ex.contract("@user_%s%d" % ("s" if f == CONTIG else "e", n), user)

        def incr(ex, st, v, i):
            for j in range(n):
                b = zi(ex.address(ex.load(st, mod, ("ptr",), ex.addoff(v[1], 8 * j))))
                s = zi(ex.load(st, mod, ("i", 64), ex.addoff(v[2], 8 * j)))
                t = zi(st.cells(L["g"])[(0, 8)])
                # addresses of elements are not null
                st.assume(z3.Implies(z3.And(L["b"][j] != 0, t >= 0, t < L["e"]), L["b"][j] + t * L["s"][j] > 0))
                st.assume((t - 1) * L["s"][j] + L["s"][j] == t * L["s"][j])
                ex.store(st, mod, ("ptr",), X.Ptr(ex.flat, z3.If(b == 0, I(0), b + s)), ex.addoff(v[1], 8 * j))
        ex.contract(r"void slinky::internal::increment_bases<%dul>\(unsigned long, void\*\*, long const\*\)" % n, incr)

        def cand(ex, st, fn, head, entry):
            l = []
            g = lambda s: zi(s.cells(L["g"])[(0, 8)])
            ks = [k for k, x in entry.items() if not k.startswith("*") and isinstance(x, z3.ArithRef)]
            for d in (0, -1):
                for j in range(n):
                    l.append(("base %d is the address of step %+d" % (j, d), lambda ex, s, v, j=j, d=d:
                              read_bases(ex, env, s, X.Ptr(L["br"], 0), n)[j] == moved(L["b"][j], g(s) + d, L["s"][j])))
                for k in ks:
                    l.append(("%s counts the steps %+d" % (k, d), lambda ex, s, v, k=k, d=d: zi(v[k]) + g(s) == L["e"] - d))
                    l.append(("%s counts up the steps %+d" % (k, d), lambda ex, s, v, k=k, d=d: zi(v[k]) == g(s) + d))
            l.append(("steps are left", lambda ex, s, v: z3.And(g(s) >= 0, g(s) < L["e"])))
            return l
        ex.loop_candidates[r"lambda"] = cand

        def setup(st):
            br, b = bases_in(env, ex, st, n)
            sr, s = strides_in(env, ex, st, n)
            e, se = env.int(st, "extent"), env.int(st, "slice_extent")
            st.assume(e >= 1)
            g, once = X.Region("ghost", 8), X.Region("ghost", 8)
            st.mem[g] = {(0, 8): I(0)}
            st.mem[once] = {(0, 8): I(0)}
            bufs = [X.Region("buf%d" % k, 32) for k in range(n)]
            L.update(br=br, b=b, sr=sr, s=s, e=e, se=se, g=g, once=once, bufs=bufs, cells=st.mem[br])
            return [X.Ptr(r, 0) for r in bufs]

        def fin(st, ret):
            ex.oblige(st, zi(st.cells(L["once"])[(0, 8)]) == 1, "the implementation is called once", assume=False)
        return setup, fin
    return spec("for_each_%s, %d buffers" % ("contiguous_slice" if f == CONTIG else "element", n), mod, name, body, ("each",))


def specs(mod, header, thorough=False):
    out = [gcd_fold(mod)] + [callbacks(header, f, n) for f in (CONTIG, ELEM) for n in (1, 2, 3)]
    for f in (CONTIG, ELEM):
        out.append(call_f(mod, f))
    for n in (1, 2, 3):
        out += [linear(mod, n), increment(mod, n)]
        out += [predicate(mod, w, n) for w in ("is_contiguous_slice", "can_fuse", "use_nonlinear_loop")]
        for f in (CONTIG, ELEM):
            out += [dispatch(mod, f, n, inner) for inner in (True, False)]
            for callf in (True, False):
                for contig in ((True, False) if f == CONTIG else (False,)):
                    for part in ("blocks", "block") if n < 3 or thorough else ("blocks",):
                        out.append(nonlinear(mod, f, n, callf, contig, part))
    # the long ones first
    return sorted((s for s in out if s is not None), key=lambda s: "nonlinear, block," not in s.name)
