"""Contracts of filling and copying (runtime/buffer.cc): C09.

Memory is an array of bytes with a list of the block writes since (so that no lemma about all addresses is needed): a byte is read by going
through the writes backwards. A property of all bytes is shown for an arbitrary one."""
import z3
from . import ex as X, nodes as N, arith as A
from .bufs import Env, F, I, zi, Z, spec, has, emod, BIG

NS = r"slinky::\(anonymous namespace\)::"


class Bytes:
    def __init__(self, env, ex):
        self.env, self.ex = env, ex
        self.g = X.Region("bytes", 8)
        ex.memcpy = self.memcpy
        ex.memset = self.memset
        old = ex.array_load

        def load(st, reg, i, f, size, r):
            if reg is ex.flat and size == 1:
                v = self.read(st, zi(i))
                st.assume(X.inr(v, 8))
                return v
            return old(st, reg, i, f, size, r)
        ex.array_load = load
        ex.havoc_cell = self.havoc
        ex.contract("@memcpy", lambda ex, st, v, i: (self.memcpy(st, v[0], v[1], v[2]), v[0])[1])
        ex.contract("@memset", lambda ex, st, v, i: (self.memset(st, v[0], v[1], v[2]), v[0])[1])
        self.check = None

    def setup(self, st):
        a = z3.Array("memory", Z, Z)
        st.ghost["bytes"] = (a, ())
        st.mem[self.g] = {(0, 8): I(0)}
        return a

    def read(self, st, a):
        arr, w = st.ghost["bytes"]

        def go(a, k):
            if k < 0:
                return z3.Select(arr, a)
            kind, dst, src, n = w[k]
            here = z3.simplify(z3.And(dst <= a, a < dst + n))
            if z3.is_false(here):
                return go(a, k - 1)
            v = go(z3.simplify(src + (a - dst)), k - 1) if kind == "copy" else src
            return z3.If(here, v, go(a, k - 1))
        return go(zi(a), len(w) - 1)

    def write(self, st, wr):
        arr, w = st.ghost["bytes"]
        st.ghost["bytes"] = (arr, w + (wr,))
        self.ex.put(st, self.g, 0, 8, self.ex.fresh("write"))

    def memcpy(self, st, dst, src, n):
        ex = self.ex
        if not all(isinstance(p, (X.Ptr, X.NodePtr)) for p in (dst, src)):
            raise X.Undecided("memcpy")
        d, s, n = zi(ex.address(dst)), zi(ex.address(src)), zi(n)
        ob = lambda c, m: ex.oblige(st, c, m)
        ob(n >= 0, "the size of a copy is not negative")
        ob(z3.Or(n == 0, d + n <= s, s + n <= d), "copied blocks do not overlap")
        if self.check is not None:
            self.check(st, d, n, s)
        self.write(st, ("copy", d, s, n))

    def memset(self, st, dst, v, n):
        ex = self.ex
        d, n, v = zi(ex.address(dst)), zi(n), zi(v)
        ex.oblige(st, n >= 0, "the size of a fill is not negative")
        if self.check is not None:
            self.check(st, d, n, None)
        m = v % 256
        self.write(st, ("set", d, z3.If(m >= 128, m - 256, m), n))

    def havoc(self, ex, st, reg, k, old):
        if reg is self.g:
            st.ghost["bytes"] = (z3.Array("memory!%d" % next(ex.fresh_n), Z, Z), ())
        return False


def repeated(mod):
    sym = NS + r"is_repeated_byte\(void const\*, unsigned long\)"
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}
        m = Bytes(env, ex)

        def setup(st):
            a = m.setup(st)
            p, n, k = env.int(st, "value"), env.int(st, "size"), env.int(st, "k")
            st.assume(z3.And(p > 0, n >= 1, n < BIG, k >= 0, k < n, p < 2 ** 62))
            L.update(a=a, p=p, n=n, k=k)
            return [X.Ptr(ex.flat, p), n]

        def cand(ex, st, fn, head, entry):
            a, p, k = L["a"], L["p"], L["k"]
            l = []
            for n in [n for n, x in entry.items() if isinstance(x, (int, z3.ArithRef)) and not n.startswith("*")]:
                for d in (0, 1):
                    l.append(("bytes before %s+%d are the first" % (n, d), lambda ex, s, v, n=n, d=d: z3.Implies(k < zi(v[n]) + d, z3.Select(a, p + k) == z3.Select(a, p))))
                l.append(("%s counts up" % n, lambda ex, s, v, n=n: zi(v[n]) >= 0))
                l.append(("%s is in range" % n, lambda ex, s, v, n=n: zi(v[n]) <= L["n"]))
            return l
        ex.loop_candidates[r"is_repeated_byte"] = cand

        def fin(st, ret):
            a, p, n, k = (L[x] for x in ("a", "p", "n", "k"))
            ex.oblige(st, z3.Implies(X.zb(ret), z3.Select(a, p + k) == z3.Select(a, p)), "every byte is the first if the result is true", assume=False)
            ex.oblige(st, z3.Implies(n == 1, X.zb(ret)), "a byte is a repeated byte", assume=False)
        return setup, fin
    return spec("is_repeated_byte", mod, sym, body, ("copy",))


def fill(mod):
    sym = NS + r"fill\(void\*, void const\*, long, long\)"
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}
        m = Bytes(env, ex)

        def setup(st):
            a = m.setup(st)
            d, p, e, n, j, o = (env.int(st, x) for x in ("dst", "value", "elem_size", "size", "j", "other"))
            big = 2 ** 61
            st.assume(z3.And(d > 0, p > 0, d < big, p < big, e > 0, e < big, n >= 0, n < big, j >= 0, j < n, z3.Or(o < d, o >= d + n)))
            st.assume(z3.Or(p + e <= d, d + n <= p))
            L.update(a=a, d=d, p=p, e=e, n=n, j=j, o=o, r=emod(st, j, e)[1])
            return [X.Ptr(ex.flat, d), X.Ptr(ex.flat, p), e, n]

        def inside(st, d, n, s):
            ex.oblige(st, z3.And(L["d"] <= d, d + n <= L["d"] + L["n"]), "the fill writes nothing else")
        m.check = inside

        def want(st):
            return m.read(st, L["d"] + L["j"]) == z3.Select(L["a"], L["p"] + L["r"])

        def cand(ex, st, fn, head, entry):
            d, e, n, j, o, a, p = (L[x] for x in ("d", "e", "n", "j", "o", "a", "p"))
            l = []
            nm = [x for x, v in entry.items() if not x.startswith("*")]
            def num(v):
                return zi(ex.address(v)) if isinstance(v, (X.Ptr, X.NodePtr)) else zi(v)

            def multiple(st, x, key):
                """lemma: the next multiple; the remainder of what is between multiples"""
                q, r = emod(st, x, e)
                if ex.loop_mode == "havoc":
                    st.ghost[key] = x
                h = st.ghost.get(key)
                if h is not None and ex.loop_mode == "back":
                    st.assume(z3.Implies(z3.And(emod(st, h, e)[1] == 0, x == h + e), r == 0))
                    st.assume(z3.Implies(z3.And(emod(st, h, e)[1] == 0, h <= j, j < h + e), L["r"] == j - h))
                if ex.loop_mode == "havoc":
                    st.assume(z3.Implies(z3.And(r == 0, x <= j, j < x + e), L["r"] == j - x))
                return r == 0
            for x in nm:
                for y in nm:
                    if x != y:
                        l.append(("%s and %s move together" % (x, y), lambda ex, s, v, x=x, y=y: num(v[x]) - d == n - num(v[y])))
                l.append(("%s is at a multiple" % x, lambda ex, s, v, x=x: multiple(s, num(v[x]) - d, "mp" + x)))
                l.append(("%s is not before the block" % x, lambda ex, s, v, x=x: num(v[x]) >= d))
                l.append(("%s is not beyond the block" % x, lambda ex, s, v, x=x: num(v[x]) <= d + n))
                l.append(("%s is not negative" % x, lambda ex, s, v, x=x: num(v[x]) >= 0))
                l.append(("the block before %s is filled" % x, lambda ex, s, v, x=x: z3.Implies(j < num(v[x]) - d, want(s))))
            l.append(("the value is unchanged", lambda ex, s, v: z3.And(m.read(s, p + L["r"]) == z3.Select(a, p + L["r"]))))
            l.append(("everything else is unchanged", lambda ex, s, v: m.read(s, o) == z3.Select(a, o)))
            return l
        ex.loop_candidates[r"fill\("] = cand

        def fin(st, ret):
            ob = lambda c, x: ex.oblige(st, c, x, assume=False)
            ob(want(st), "every byte is the byte of the value")
            ob(m.read(st, L["o"]) == z3.Select(L["a"], L["o"]), "no other byte is changed")
        return setup, fin
    return spec("fill", mod, sym, body, ("copy",), timeout=8.0)


def optimize(mod):
    sym = NS + r"optimize_fill_value\(void const\*&, long&, long, std::array<unsigned char, 64ul>&\)"
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}
        m = Bytes(env, ex)
        B = 64

        def setup(st):
            a = m.setup(st)
            p, e, n, j, buf, o = (env.int(st, x) for x in ("value", "elem_size", "fill_size", "j", "buffer", "other"))
            big = 2 ** 60
            st.assume(z3.And(p > 0, p < big, e > 0, e < big, n >= 0, n < big, j >= 0, j < n, buf > 0, buf < big, z3.Or(p + e <= buf, buf + B <= p)))
            st.assume(z3.Or(o < buf, o >= buf + B))
            v, es = X.Region("value&", 8), X.Region("elem_size&", 8)
            st.mem[v] = {(0, 8): X.Ptr(ex.flat, p)}
            st.mem[es] = {(0, 8): e}
            L.update(a=a, p=p, e=e, n=n, j=j, b=buf, v=v, es=es, o=o)
            return [X.Ptr(v, 0), X.Ptr(es, 0), n, X.Ptr(ex.flat, buf)]

        def inside(st, d, n, s):
            ex.oblige(st, z3.And(L["b"] <= d, d + n <= L["b"] + B), "only the buffer is written")
        m.check = inside

        def rep(ex, st, v, i):
            """is_repeated_byte: every byte of the value is the first."""
            r = ex.freshb("repeated")
            k = emod(st, L["j"], L["e"])[1]
            ex.oblige(st, z3.And(zi(ex.address(v[0])) == L["p"], zi(v[1]) == L["e"]), "the value is looked at")
            st.assume(z3.Implies(r, z3.Select(L["a"], L["p"] + k) == z3.Select(L["a"], L["p"])))
            st.assume(z3.Implies(L["e"] == 1, r))
            return r
        ex.contract(NS + r"is_repeated_byte\(void const\*, unsigned long\)", rep)

        def fin(st, ret):
            ob = lambda c, x: ex.oblige(st, c, x, assume=False)
            p2 = zi(ex.address(st.cells(L["v"])[(0, 8)]))
            e2 = zi(st.cells(L["es"])[(0, 8)])
            j, e = L["j"], L["e"]
            ob(e2 > 0, "the new size is positive")
            r, r2 = emod(st, j, e)[1], emod(st, j, e2)[1]
            # lemma: remainders of a multiple: (j mod 2^k e) mod e == j mod e
            t = r2
            for k in range(6, -1, -1):
                st.assume(z3.Implies(e2 == e * 2 ** k, emod(st, r2, e)[1] == r))
            # what (r2 mod e) is, by halving
            h = r2
            for k in range(6, -1, -1):
                c = e * 2 ** k
                x = ex.fresh("half")
                st.assume(z3.And(z3.Implies(h >= c, x == h - c), z3.Implies(h < c, x == h)))
                # lemma: a multiple of e does not change the remainder
                st.assume(emod(st, x, e)[1] == emod(st, h, e)[1])
                h = x
            st.assume(z3.Implies(z3.And(0 <= h, h < e), emod(st, h, e)[1] == h))
            ob(m.read(st, p2 + r2) == z3.Select(L["a"], L["p"] + r), "filling with the new value is filling with the value")
            ob(m.read(st, L["o"]) == z3.Select(L["a"], L["o"]), "only the buffer is changed")
        return setup, fin
    return spec("optimize_fill_value", mod, sym, body, ("copy",), timeout=12.0)


def slicing(mod):
    out = []
    s1, s2 = NS + r"slice_dim0\(slinky::raw_buffer&\)", NS + r"unslice_dim0\(slinky::raw_buffer&, slinky::dim const&\)"
    if has(mod, s1):
        def body(env, ex):
            L = {}

            def setup(st):
                b = env.buf(st, base=False)
                b.fact(st, 0)
                L["b"] = b
                return [b.ptr()]

            def fin(st, ret):
                ob = lambda c, x: ex.oblige(st, c, x, assume=False)
                b = L["b"]
                b.frame(st, ex, rank=z3.If(b.rank > 0, b.rank - 1, 0), base=b.base)
                k, f = ex.array_index(st, b.dreg, st.cells(b.reg)[(24, 8)].off)
                ob(z3.And(zi(k) == z3.If(b.rank > 0, 1, 0), f == 0), "the dims begin at the next dimension")
                if isinstance(ret, X.Ptr) and ret.region is b.dreg:
                    ob(z3.And(b.rank > 0, zi(ret.off) == 0), "the result is the first dimension")
                else:
                    ob(b.rank == 0, "the result is a broadcast only without dimensions")
            return setup, fin
        out.append(spec("slice_dim0", mod, s1, body, ("copy",)))
    if has(mod, s2):
        for kind in ("own", "other"):
            def body(env, ex, kind=kind):
                L = {}

                def setup(st):
                    b = env.buf(st, base=False)
                    b.fact(st, 0)
                    L["b"] = b
                    r = st.wcells(b.reg)
                    if kind == "own":
                        # the state after slice_dim0
                        st.assume(b.rank >= 1)
                        r[(16, 8)] = b.rank - 1
                        r[(24, 8)] = X.Ptr(b.dreg, 32)
                        return [b.ptr(), X.Ptr(b.dreg, 0)]
                    st.assume(b.rank == 0)
                    p, d = env.dim(st, "broadcast")
                    return [b.ptr(), p]

                def fin(st, ret):
                    b = L["b"]
                    b.frame(st, ex, rank=b.rank, base=b.base)
                    k, f = ex.array_index(st, b.dreg, st.cells(b.reg)[(24, 8)].off)
                    ex.oblige(st, z3.And(zi(k) == 0, f == 0), "the dims are those from before slice_dim0", assume=False)
                return setup, fin
            out.append(spec("unslice_dim0, %s dimension" % kind, mod, s2, body, ("copy",)))
    return out


def lemma_obligations():
    a, b, e, q, r, q2, r2, k = z3.Ints("a b e q r q2 r2 k")
    dv = lambda n, d, q, r: z3.And(n == q * d + r, r >= 0, r < d)
    return [("lemma: the next multiple", [e > 0, dv(a, e, q, I(0)), b == a + e, dv(b, e, q2, r2)], r2 == 0),
            ("lemma: the remainder between multiples", [e > 0, dv(a, e, q, I(0)), a <= b, b < a + e, dv(b, e, q2, r2)], r2 == b - a),
            ("lemma: quotients are unique", [e > 0, q * e + r == q2 * e + r2, 0 <= r, r < e, 0 <= r2, r2 < e], z3.And(q == q2, r == r2))]


def specs(mod):
    return [s for s in [repeated(mod), fill(mod), optimize(mod)] + slicing(mod) if s is not None]
