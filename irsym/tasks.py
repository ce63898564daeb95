"""Contracts of parallel loops (base/thread_pool.cc, base/thread_pool_impl.cc, base/thread_pool_impl.h): C15.

Thread-modular: between any two steps of a function, other threads may hand out more work of a shard, finish work, begin and end tasks. What a
function relies on is what all of them guarantee:
  - the counter of a shard only grows; who adds k to it when it was i has taken the indices i .. i + k - 1, of which those before the end of the
    shard are iterations of the loop. An index that was taken is passed to the body once, before the taker takes others or returns.
  - what is subtracted from the work that is left is the number of calls that have returned and were not subtracted before.
The shards partition [0, n) (the constructor), so an iteration is called at most once; when no work is left, n calls have returned, so all have."""
import re
import z3
from . import ex as X, nodes as N
from .bufs import Env, I, zi, Z, spec, has, skolem

P = r"slinky::thread_pool_impl::"
T = P + r"task_impl::"
FN = r"std::function<void \(unsigned long\)>"
BIGN = 2 ** 60
INT_MAX = 2 ** 31 - 1
MAX_SHARDS = 16      # the constructor is under contract for each number of shards up to this


def b2i(c):
    return z3.If(X.zb(c), I(1), I(0))


class Layout:
    """Where the members are, by their types."""
    def __init__(self, mod):
        self.mod = mod

        def struct(n):
            for k, v in mod.raw_types.items():
                if k.strip('%"') == n:
                    return k, self.members(v), mod.layout(("named", k))
            raise X.Undecided("no type " + n)
        k, m, (size, _, offs) = struct("class.slinky::thread_pool_impl::task_impl")
        self.size = size
        kinds = [self.kind(x) for x in m]
        get = lambda l, o, what: o[l.index(what)] if l.count(what) == 1 else self.fail(what)
        self.body, self.count, self.todo, self.max_workers = (get(kinds, offs, w) for w in ("function", "i64", "atomic i64", "atomic i32"))
        arr = [o for x, o in zip(m, offs) if "task_impl::shard" in x]
        if len(arr) != 1:
            self.fail("shards")
        self.shards = arr[0]
        k, m, (ssize, _, offs) = struct("struct.slinky::thread_pool_impl::task_impl::shard")
        kinds = [self.kind(x) for x in m]
        self.i, self.end = get(kinds, offs, "atomic i64"), get(kinds, offs, "i64")
        self.ssize = ssize
        if self.shards % ssize or self.body // ssize != (self.body + 31) // ssize:
            self.fail("alignment of the shards")
        k, m, (psize, _, offs) = struct("class.slinky::thread_pool_impl")
        kinds = [self.kind(x) for x in m]
        self.psize = psize
        self.mutex, self.queue, self.workers, self.expected = (get(kinds, offs, w) for w in ("mutex", "deque", "atomic i32", "i32"))
        self.cvs = [o for x, o in zip(kinds, offs) if x == "cv"]
        if len(self.cvs) != 2:
            self.fail("condition variables")
        # wait_for(condition) waits on the one for helpers
        f = N.find([mod], P + r"wait_for\(slinky::function_ref<bool \(\)>\)")
        gep = None
        if f is not None:
            for b in f.blocks.values():
                for i in b:
                    if i.op == "getelementptr" and "thread_pool_impl" in str(i.ty) and "cv" in str(i.res):
                        gep = i
        names = [None, None]
        if gep is not None:
            m2 = re.search(r"(\d+)\D*$", str(gep.a[-1]))
            k = int(m2.group(1)) if m2 else None
            if k is not None and k < len(offs) and offs[k] in self.cvs:
                self.helper = offs[k]
                self.worker = [c for c in self.cvs if c != offs[k]][0]
                return
        self.helper, self.worker = self.cvs

    def fail(self, what):
        raise X.Undecided("the layout has changed: " + what)

    def members(self, s):
        s = s.strip()
        s = s[s.index("{") + 1:s.rindex("}")]
        out, depth, cur, q = [], 0, "", False
        for c in s:
            if c == '"':
                q = not q
            if not q and c in "[{<(":
                depth += 1
            if not q and c in "]}>)":
                depth -= 1
            if c == "," and not depth and not q:
                out.append(cur.strip())
                cur = ""
            else:
                cur += c
        if cur.strip():
            out.append(cur.strip())
        return out

    def kind(self, t):
        if t in ("i64", "i32"):
            return t
        if "std::function" in t:
            return "function"
        if "std::atomic" in t:
            for w in ("i64", "i32", "i8"):
                if self.wraps(t, w):
                    return "atomic " + w
        if "std::mutex" in t:
            return "mutex"
        if "std::deque" in t:
            return "deque"
        if "condition_variable" in t:
            return "cv"
        return t

    def wraps(self, t, w):
        for _ in range(5):
            if t == w:
                return True
            v = self.mod.raw_types.get(t)
            if v is None:
                return False
            m = self.members(v)
            if len(m) != 1:
                return False
            t = m[0]
        return False


def ghost_fields(names):
    return {n: 8 * k for k, n in enumerate(names)}


class Ghost:
    def __init__(self, ex, names):
        self.ex = ex
        self.reg = X.Region("ghost", 8 * len(names))
        self.off = ghost_fields(names)

    def setup(self, st, **k):
        st.mem[self.reg] = {(o, 8): I(0) for o in self.off.values()}
        for n, v in k.items():
            st.mem[self.reg][(self.off[n], 8)] = v

    def __call__(self, st, n):
        return zi(st.cells(self.reg)[(self.off[n], 8)])

    def put(self, st, n, v):
        self.ex.put(st, self.reg, self.off[n], 8, z3.simplify(zi(v)))

    def candidates(self):
        l = []
        for n in self.off:
            for k in (0, 1):
                l.append(("%s is %d" % (n, k), lambda ex, s, v, n=n, k=k: self(s, n) == k))
        return l


def functions(H, ex):
    """Contracts of std::function. A function is either one that holds the body of the loop, or not; where: the regions and offsets of those that do."""
    def where(p):
        return (p.region, X.conc(p.off)) if isinstance(p, X.Ptr) else None

    def holds(st, p):
        return where(p) in st.ghost["fns"]

    def need(st, p, what):
        ex.oblige(st, bool(holds(st, p)), "the function that is %s is the body" % what)

    def copy(ex, st, v, i):
        need(st, v[1], "copied")
        st.ghost["fns"] = st.ghost["fns"] | {where(v[0])}

    def move(ex, st, v, i):
        need(st, v[1], "moved")
        ex.oblige(st, where(v[1]) not in st.ghost["shared"], "a function that other threads use is not moved")
        st.ghost["fns"] = (st.ghost["fns"] - {where(v[1])}) | {where(v[0])}

    def end(ex, st, v, i):
        ex.oblige(st, where(v[0]) not in st.ghost["shared"], "a function that other threads use does not end")
        st.ghost["fns"] = st.ghost["fns"] - {where(v[0])}
    for n, f in (("C[12]ERKS1_", copy), ("C[12]EOS1_", move), ("D[12]Ev", end)):
        ex.contract(r"@_ZNSt8functionIFvmEE" + n, f)
    ex.contract(r"@_ZNSt14_Function_baseD[12]Ev", end)
    ex.contract(r"@_ZNKSt8functionIFvmEEclEm", lambda ex, st, v, i: (need(st, v[0], "called"), H.called(st, zi(v[1])))[1])
    ex.contract(r"@_ZNKSt8functionIFvmEEcvbEv", lambda ex, st, v, i: True if holds(st, v[0]) else X.DEAD)
    H.holds = holds


class Task:
    """A task, as its functions see it."""
    names = ["shard", "lo", "hi", "limit", "calls", "uncounted", "completed", "seen"]

    def __init__(self, env, ex, L):
        self.env, self.ex, self.L = env, ex, L
        self.g = Ghost(ex, self.names)
        self.reg = X.Region("task", None, "array", L.ssize)
        self.gone = X.Region("exhausted", None, "array", 8)
        ex.atomic = self.atomic
        functions(self, ex)
        ex.contract(T + r"shard::work\(.*\)", self.shard_work)
        ex.contract(r"std::__throw_.*", lambda ex, st, v, i: X.DEAD)

    def setup(self, st):
        env, L, ex = self.env, self.L, self.ex
        self.n_shards = env.int(st, "shard_count")
        self.n = env.int(st, "n")
        st.assume(z3.And(self.n_shards >= 1, self.n_shards < 2 ** 40, self.n >= 1, self.n < BIGN))
        self.base = L.shards // L.ssize
        self.ends = z3.Array("end", Z, Z)
        self.y = skolem(ex, st, "shard")
        st.assume(z3.And(self.y >= 0, self.y < self.n_shards))
        mem = {}
        f, o = L.count // L.ssize, L.count % L.ssize
        mem[(L.end, 8)] = self.ends
        mem[(L.i, 8)] = z3.Array("counter", Z, Z)
        self.count_at = (f, o)

        def access(ex, st, i, f, size):
            if ex.dry:
                return
            ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < self.base + self.n_shards), "memory access within the task")
        self.reg.on_access = access
        if o in (L.end, L.i):
            raise X.Undecided("the layout has changed")
        mem[(o, 8)] = z3.Store(z3.Array("header", Z, Z), f, self.n_shards)
        st.mem[self.reg] = mem
        st.mem[self.gone] = {(0, 8): z3.K(Z, I(0))}
        self.g.setup(st)
        body = (self.reg, L.body)
        st.ghost["fns"] = frozenset([body])
        st.ghost["shared"] = frozenset([body])
        return X.Ptr(self.reg, 0)

    def end(self, st, s):
        e = z3.Select(self.ends, self.base + s)
        st.assume(z3.And(e >= 0, e < BIGN))
        return e

    def gone_at(self, st, s):
        return z3.Select(st.cells(self.gone)[(0, 8)], s)

    def exhaust(self, st, s, c):
        a = st.cells(self.gone)[(0, 8)]
        self.ex.put(st, self.gone, 0, 8, z3.Store(a, s, z3.If(z3.Or(z3.Select(a, s) == 1, c), I(1), I(0))))

    def taken(self, st):
        """Nothing that was taken is left to call."""
        g = self.g
        return z3.Or(g(st, "lo") >= g(st, "hi"), g(st, "lo") >= g(st, "limit"))

    def called(self, st, j):
        g = self.g
        lo = g(st, "lo")
        self.ex.oblige(st, z3.And(j == lo, lo < g(st, "hi"), lo < g(st, "limit")), "the body is called with an index that was taken for this call")
        g.put(st, "lo", lo + 1)
        for c in ("calls", "uncounted"):
            g.put(st, c, g(st, c) + 1)
        st.assume(g(st, "calls") < 2 ** 62)
        return None

    def where(self, p):
        if not isinstance(p, X.Ptr) or p.region is not self.reg:
            raise X.Undecided("an atomic operation on something else")
        k, f = self.ex.array_index(None, p.region, p.off)
        L = self.L
        at = lambda o: (o // L.ssize, o % L.ssize)
        if X.isc(X.conc(k)) and (X.conc(k), f) == at(L.todo):
            return "todo", None
        if X.isc(X.conc(k)) and (X.conc(k), f) == at(L.max_workers):
            return "max_workers", None
        if f == L.i and (not X.isc(X.conc(k)) or X.conc(k) >= self.base):
            return "i", z3.simplify(zi(k) - self.base)
        raise X.Undecided("an atomic operation on something else")

    def atomic(self, ex, st, kind, p, v, order, w):
        what, s = self.where(p)
        return getattr(self, "on_" + what)(st, kind, v, order, s)

    def on_i(self, st, kind, v, order, s):
        ex, g = self.ex, self.g
        ex.oblige(st, z3.And(s >= 0, s < self.n_shards), "memory access within the task")
        c = st.cells(self.reg)
        k = (self.L.i, 8)
        old = z3.Select(c[k], self.base + s)
        now = ex.fresh_int(st, 64, "counter")
        st.assume(z3.And(now >= 0, now >= old, now < 2 ** 61))
        e = self.end(st, s)
        if kind == "load":
            ex.put(st, self.reg, k[0], 8, z3.Store(c[k], self.base + s, now))
            self.exhaust(st, s, now >= e)
            return now
        if kind != "add":
            if kind == "store":
                ex.oblige(st, False, "the counter of a shard is only added to")
            raise X.Undecided("atomic " + kind)
        by = zi(v)
        ex.oblige(st, z3.And(by >= 1, by < BIGN), "the counter of a shard grows")
        ex.oblige(st, self.taken(st), "the body is called for what was taken before more is taken")
        g.put(st, "lo", now)
        g.put(st, "hi", now + by)
        g.put(st, "limit", e)
        ex.put(st, self.reg, k[0], 8, z3.Store(c[k], self.base + s, now + by))
        self.exhaust(st, s, now + by >= e)
        return now

    def on_todo(self, st, kind, v, order, s):
        ex, g = self.ex, self.g
        now = ex.fresh_int(st, 64, "todo")
        # what other threads and this one have called but not counted is left
        st.assume(z3.And(now >= g(st, "uncounted"), now < BIGN))
        if kind == "load":
            ok = order in ("acquire", "seq_cst")
            if not ok:
                ex.oblige(st, order not in ("monotonic", "unordered"), "that no work is left is seen after the work")
            g.put(st, "seen", z3.If(z3.Or(g(st, "seen") == 1, now == 0), I(1), I(0)))
            return now
        by = zi(v)
        if kind == "add":
            by = -by
        elif kind != "sub":
            raise X.Undecided("atomic " + kind)
        ex.oblige(st, self.taken(st), "calls are counted when they have returned")
        ex.oblige(st, by == g(st, "uncounted"), "what is subtracted from the work left is the number of calls that have returned")
        if order not in ("release", "acq_rel", "seq_cst"):
            ex.oblige(st, order not in ("monotonic", "unordered"), "calls happen before they are counted")
        g.put(st, "uncounted", 0)
        z = z3.If(now - by == 0, I(1), I(0))
        g.put(st, "completed", z3.If(z3.And(now - by == 0, by > 0), I(1), g(st, "completed")))
        g.put(st, "seen", z3.If(z3.Or(g(st, "seen") == 1, now - by == 0), I(1), I(0)))
        return now

    def on_max_workers(self, st, kind, v, order, s):
        now = self.ex.fresh_int(st, 32, "max_workers")
        st.assume(now > -2 ** 30)
        if kind == "load":
            return now
        by = -zi(v) if kind == "sub" else zi(v)
        if kind not in ("add", "sub"):
            raise X.Undecided("atomic " + kind)
        self.ex.oblige(st, by == -1, "a worker takes one place")
        st.ghost["place"] = now + by
        return now

    def shard_work(self, ex, st, v, i):
        g = self.g
        if not isinstance(v[0], X.Ptr) or v[0].region is not self.reg:
            raise X.Undecided("a shard that is elsewhere")
        k, f = ex.array_index(st, v[0].region, v[0].off)
        s = z3.simplify(zi(k) - self.base)
        ex.oblige(st, z3.And(s >= 0, s < self.n_shards, f == 0), "memory access within the task")
        ex.oblige(st, bool(self.holds(st, v[1])), "the function that is called is the body")
        ex.oblige(st, self.taken(st), "the body is called for what was taken before more is taken")
        self.exhaust(st, s, True)
        r = ex.fresh_int(st, 64, "done")
        st.assume(z3.And(r >= 0, r + g(st, "calls") < BIGN))
        for c in ("calls", "uncounted"):
            g.put(st, c, g(st, c) + r)
        return r


def cand_of(H, L, extra=()):
    def cand(ex, st, fn, head, entry):
        g = H.g
        for n, e in entry.items():
            if isinstance(e, (int, z3.ArithRef)) and not n.startswith("*"):
                L.setdefault("terms", []).append(zi(e))
        ints = [n for n, e in entry.items() if isinstance(e, (int, z3.ArithRef)) and not n.startswith("*ghost")]
        l = []
        l.append(("what was taken was called", lambda ex, s, v: H.taken(s)))
        l.append(("counts are not negative", lambda ex, s, v: z3.And(g(s, "calls") >= 0, g(s, "uncounted") >= 0, g(s, "uncounted") == g(s, "calls"))))
        for n in ("lo", "hi", "limit", "completed", "uncounted", "calls"):
            for k in (0, 1):
                l.append(("%s is %d" % (n, k), lambda ex, s, v, n=n, k=k: g(s, n) == k))
        l.append(("one was taken", lambda ex, s, v: g(s, "hi") == g(s, "lo") + 1))
        l.append(("limit", lambda ex, s, v: g(s, "limit") == H.end(s, H.y)))
        l.append(("the shard is exhausted when an index past the end was taken", lambda ex, s, v: z3.Implies(g(s, "hi") >= H.end(s, H.y), H.gone_at(s, H.y) == 1)))
        terms = list(L["terms"]) + [I(0), H.n_shards] + list(extra)
        for n in ints:
            l.append(("%s is the number of calls" % n, lambda ex, s, v, n=n: zi(v[n]) == g(s, "calls")))
            l.append(("%s is the number of calls that are not counted" % n, lambda ex, s, v, n=n: zi(v[n]) == g(s, "uncounted")))
            l.append(("%s is the index that was taken" % n, lambda ex, s, v, n=n: zi(v[n]) == g(s, "lo")))
            l.append(("%s was taken" % n, lambda ex, s, v, n=n: zi(v[n]) == g(s, "hi") - 1))
            l.append(("%s is not negative" % n, lambda ex, s, v, n=n: zi(v[n]) >= 0))
            l.append(("%s is at most the number of shards" % n, lambda ex, s, v, n=n: zi(v[n]) <= H.n_shards))
            for k, t in enumerate(terms):
                l.append(("shards from term %d to %s are exhausted" % (k, n), lambda ex, s, v, n=n, t=t: z3.Implies(z3.And(H.y >= t, H.y < zi(v[n])), H.gone_at(s, H.y) == 1)))
                l.append(("%s is at least term %d" % (n, k), lambda ex, s, v, n=n, t=t: zi(v[n]) >= t))
                l.append(("%s is at most term %d" % (n, k), lambda ex, s, v, n=n, t=t: zi(v[n]) <= t))
        for k, t in enumerate(terms):
            for m, u in enumerate(terms):
                if k != m:
                    l.append(("shards from term %d to term %d are exhausted" % (k, m), lambda ex, s, v, u=u, t=t: z3.Implies(z3.And(H.y >= t, H.y < u), H.gone_at(s, H.y) == 1)))
        return l
    return cand


def task_spec(mod, sym, name, body):
    if not has(mod, sym):
        return None

    def make(env, ex):
        L = {"terms": []}
        H = Task(env, ex, Layout(mod))
        return body(H, L, env, ex)
    return spec(name, mod, sym, make, ("task",))


def shard_work(mod):
    def body(H, L, env, ex):
        ex.loop_candidates[r"."] = cand_of(H, L)

        def setup(st):
            t = H.setup(st)
            return [X.Ptr(H.reg, z3.simplify(H.L.shards + H.L.ssize * H.y)), X.Ptr(H.reg, H.L.body)]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(H.taken(st), "the body was called for all that was taken")
            ob(H.gone_at(st, H.y) == 1, "all of the shard has been started")
            ob(zi(ret) == H.g(st, "calls"), "the result is the number of calls")
        return setup, fin
    return task_spec(mod, T + r"shard::work\(.*\)", "shard::work", body)


def work(mod):
    def body(H, L, env, ex):
        ex.loop_candidates[r"."] = cand_of(H, L)

        def setup(st):
            t = H.setup(st)
            w = env.int(st, "worker")
            st.assume(w >= 0)
            return [t, w]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(H.taken(st), "the body was called for all that was taken")
            ob(H.gone_at(st, H.y) == 1, "all of every shard has been started")
            ob(H.g(st, "uncounted") == 0, "all calls are counted")
            ob(z3.Implies(H.g(st, "completed") == 1, X.zb(ret)), "whoever completes the task finds out")
            ob(z3.Implies(X.zb(ret), H.g(st, "seen") == 1), "the result is true only if no work is left")
        return setup, fin
    return task_spec(mod, T + r"work\(unsigned long\)", "task::work(worker)", body)


def work0(mod):
    def body(H, L, env, ex):
        def w(ex, st, v, i):
            k = zi(v[1])
            ex.oblige(st, st.ghost.get("place") is not None and not st.ghost.get("worked"), "a worker works if it has a place, once")
            if st.ghost.get("place") is not None:
                ex.oblige(st, z3.And(k == st.ghost["place"], k >= 0), "a worker works if its place is valid")
            st.ghost["worked"] = True
            r = ex.freshb("completed")
            H.g.put(st, "completed", b2i(r))
            return r
        ex.contract(T + r"work\(unsigned long\)", w)

        def setup(st):
            return [H.setup(st)]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            place = st.ghost.get("place")
            ob(place is not None, "a worker has taken a place")
            if place is not None:
                ob(z3.Or(place < 0, bool(st.ghost.get("worked"))), "a worker that has a place works")
            ob(X.zb(ret) == (H.g(st, "completed") == 1), "whoever completes the task finds out")
        return setup, fin
    return task_spec(mod, T + r"work\(\)", "task::work()", body)


def allocate(mod):
    def body(H, L, env, ex):
        def setup(st):
            return [H.setup(st)]

        def fin(st, ret):
            p = st.ghost.get("place")
            ex.oblige(st, False if p is None else zi(ret) == p, "the result is the number of places left, of which one was taken", assume=False)
        return setup, fin
    return task_spec(mod, T + r"allocate_worker\(\)", "task::allocate_worker", body)


def started(mod):
    def body(H, L, env, ex):
        ex.loop_candidates[r"."] = cand_of(H, L)
        ex.contract(T + r"done\(\) const", lambda ex, st, v, i: H.on_todo(st, "load", None, "seq_cst", None) == 0)

        def setup(st):
            return [H.setup(st)]

        def fin(st, ret):
            ex.oblige(st, z3.Implies(X.zb(ret), z3.Or(H.g(st, "seen") == 1, H.gone_at(st, H.y) == 1)), "all work has started if the result is true", assume=False)
        return setup, fin
    return task_spec(mod, T + r"all_work_started\(\) const", "task::all_work_started", body)


def done(mod):
    def body(H, L, env, ex):
        def setup(st):
            return [H.setup(st)]

        def fin(st, ret):
            ex.oblige(st, X.zb(ret) == (H.g(st, "seen") == 1), "the result is that no work is left", assume=False)
        return setup, fin
    return task_spec(mod, T + r"done\(\) const", "task::done", body)


def construct(mod, count):
    sym = T + r"task_impl\(unsigned long, unsigned long, %s, int\)" % FN

    def body(H, D, env, ex):
        L = H.L
        ex.loop_candidates = {}
        ex.unroll = 70
        reg = X.Region("new task", L.shards + L.ssize * count)
        ex.contract(r"slinky::thread_pool::task::task\(\)", lambda ex, st, v, i: None)

        def plain(ex, st, kind, p, v, order, w):
            if kind == "store":
                return ("plain",)
            raise X.Undecided("atomic " + kind)
        ex.atomic = None

        class Own:
            pass
        H.called = lambda st, j: ex.oblige(st, False, "nothing is called yet")

        def setup(st):
            H.setup(st)
            D["n"] = n = H.n
            st.mem[reg] = {}
            f = X.Region("body", 32)
            st.mem[f] = {}
            st.ghost["fns"] = frozenset([(f, 0)])
            st.ghost["shared"] = frozenset()
            D["w"] = w = env.int(st, "max_workers", 32)
            st.assume(z3.And(w >= 1, n * count < 2 ** 63))
            return [X.Ptr(reg, 0), count, n, X.Ptr(f, 0), w]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            c = st.cells(reg)
            get = lambda o, k=8: zi(c[(o, k)]) if (o, k) in c else z3.IntVal(-1)
            n = D["n"]
            ob((reg, L.body) in st.ghost["fns"], "the task has the body")
            ob(get(L.count) == count, "the task has the number of shards")
            ob(get(L.max_workers, 4) == D["w"], "the task has the number of workers")
            ob(get(L.todo) == n, "all work is left")
            at = lambda s, o: get(L.shards + L.ssize * s + o)
            ob(at(0, L.i) == 0, "the first shard begins at 0")
            ob(at(count - 1, L.end) == n, "the last shard ends at the end")
            for s in range(count):
                ob(z3.And(at(s, L.i) >= 0, at(s, L.i) <= at(s, L.end)), "the end of a shard is not before its begin")
                if s:
                    ob(at(s, L.i) == at(s - 1, L.end), "a shard begins at the end of the one before")
        return setup, fin
    return task_spec(mod, sym, "task(%d shards)" % count, body)


def make(mod):
    sym = T + r"make\(.*\)"

    def body(H, D, env, ex):
        L = H.L
        H.called = lambda st, j: ex.oblige(st, False, "nothing is called yet")

        def new(ex, st, v, i):
            a = zi(v[1]) if len(v) > 1 else I(16)
            ex.oblige(st, z3.And(zi(v[0]) >= L.shards + L.ssize * D["count"]), "the memory holds the task and its shards")
            ex.oblige(st, a % 64 == 0, "the memory is aligned")
            p = env.int(st, "memory")
            st.assume(z3.And(p > 0, p < 2 ** 62))
            D["p"] = p
            return X.Ptr(ex.flat, p)
        ex.contract(r"@_Zna?[wm]*m(St11align_val_t)?", new)
        ex.contract(r"operator new(\[\])?\(.*\)", new)

        def ctor(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            ob(zi(ex.address(v[0])) == D.get("p", I(0)), "the task is in the memory")
            ob(z3.And(zi(v[1]) == D["count"], zi(v[2]) == D["n"], zi(v[4]) == D["w"]), "the task is made of the arguments")
            ob(bool(H.holds(st, v[3])), "the task is given the body")
            st.ghost["made"] = True
        ex.contract(T + r"task_impl\(.*\)", ctor)
        ex.contract(r"@_ZN6slinky16thread_pool_impl9task_implC[12]E.*", ctor)
        ex.contract(r"slinky::ref_counted<slinky::thread_pool::task>::add_ref\(\) const", lambda ex, st, v, i: st.ghost.__setitem__("refs", st.ghost.get("refs", 0) + 1))

        def setup(st):
            H.setup(st)
            D["count"], D["n"] = H.n_shards, H.n
            D["w"] = env.int(st, "max_workers", 32)
            f = X.Region("body", 32)
            st.mem[f] = {}
            st.ghost["fns"], st.ghost["shared"] = frozenset([(f, 0)]), frozenset()
            return [H.n_shards, H.n, X.Ptr(f, 0), D["w"]]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(bool(st.ghost.get("made")), "a task is made")
            ob(zi(ex.address(ret)) == D.get("p", I(-1)), "the result is the task")
            ob(st.ghost.get("refs", 0) == 1, "the result is counted")
        return setup, fin
    return task_spec(mod, sym, "task::make", body)


def core(mod):
    l = [shard_work(mod), work(mod), work0(mod), allocate(mod), started(mod), done(mod), make(mod)]
    l += [construct(mod, k) for k in range(1, MAX_SHARDS + 1)]
    return [s for s in l if s is not None]


class Pool:
    """The pool, as its functions see it. Tasks are numbers; what is said about a task is said by the contracts of its functions."""
    names = ["locked", "since", "false", "true", "empty", "slot", "place", "handle", "need", "fresh_lock", "cursor", "top", "depth",
             "current", "seen", "started", "full", "gained", "helper", "worker", "calls", "queued", "worked"]

    def __init__(self, env, ex, L):
        self.env, self.ex, self.L = env, ex, L
        self.g = Ghost(ex, self.names)
        self.reg = X.Region("pool", L.psize)
        self.q = X.Region("queue", None, "array", 8)
        self.q.raw = True
        self.stack = X.Region("task stack", 24)
        self.instack = z3.Function("in_stack", Z, z3.BoolSort())
        functions(self, ex)
        self.task = None
        c = ex.contract
        c(r"std::mutex::lock\(\)|@pthread_mutex_lock", self.lock)
        c(r"std::mutex::unlock\(\)|@pthread_mutex_unlock", self.unlock)
        c(r"std::__throw_.*", lambda ex, st, v, i: X.DEAD)
        c(r"std::this_thread::yield\(\)|@sched_yield", lambda ex, st, v, i: (ex.oblige(st, self.g(st, "locked") == 0, "the lock is not held while yielding"), None)[1])
        c(r"std::condition_variable::notify_all\(\)", self.notify(True))
        c(r"std::condition_variable::notify_one\(\)", self.notify(False))
        c(r"std::condition_variable::wait\(std::unique_lock<std::mutex>&\)", self.wait)
        c(r"slinky::function_ref<bool \(\)>::operator\(\)\(\) const", self.condition)
        c(r"slinky::function_ref<void \(\)>::operator\(\)\(\) const", self.call)
        c(P + r"dequeue\(int&\)", self.dequeue)
        c(T + r"work\(unsigned long\)", self.work)
        c(T + r"work\(\)", self.work)
        c(T + r"done\(\) const", self.done)
        c(T + r"all_work_started\(\) const", self.all_started)
        c(T + r"allocate_worker\(\)", self.allocate)
        c(r"slinky::ref_counted<slinky::thread_pool::task>::add_ref\(\) const", self.count(1))
        c(r"slinky::ref_counted<slinky::thread_pool::task>::release\(\) const", self.count(-1))
        V = r"std::vector<slinky::thread_pool::task const\*, .*>::"
        c(r"@_ZTWN6slinky.*task_stackE", lambda ex, st, v, i: X.Ptr(self.stack, 0))
        c(V + r"push_back\(.*\)", self.push)
        c(V + r"pop_back\(\)", self.pop)
        c(V + r"(begin|cbegin)\(\)( const)?", lambda ex, st, v, i: X.Ptr(ex.flat, I(8)))
        c(V + r"(end|cend)\(\)( const)?", lambda ex, st, v, i: X.Ptr(ex.flat, I(16)))
        c(r"__gnu_cxx::__normal_iterator<slinky::thread_pool::task const\*.* std::find<.*>\(.*\)", self.find)
        D = r"std::deque<slinky::ref_count<slinky::thread_pool_impl::task_impl>, .*>::"
        It = r"std::_Deque_iterator<slinky::ref_count<slinky::thread_pool_impl::task_impl>.*>::"
        c(D + r"(begin|cbegin)\(\)( const)?", lambda ex, st, v, i: self.iter(st, v[0], I(0), True))
        c(D + r"(end|cend)\(\)( const)?", lambda ex, st, v, i: self.iter(st, v[0], self.size(st)))
        c(D + r"erase\(.*\)", self.erase)
        c(D + r"push_back\(.*\)", self.enqueue)
        c(D + r"(emplace_back)(<.*>)?\(.*\)", self.enqueue)
        c(D + r"empty\(\) const", lambda ex, st, v, i: self.size(st) == 0)
        c(It + r"_Deque_iterator(<.*>)?\(.*\)", lambda ex, st, v, i: self.iter(st, v[0], self.pos(st, v[1])))
        c(It + r"operator[*]\(\) const", self.deref)
        c(It + r"operator->\(\) const", self.deref)
        c(It + r"operator\+\+\(\)", self.next)
        c(r"bool std::operator!=(<.*>)?\(std::_Deque_iterator<.*\)|std::operator!=\(std::_Deque_iterator<.*\)", lambda ex, st, v, i: X.not_(self.pos(st, v[0]) == self.pos(st, v[1])))
        c(r"bool std::operator==(<.*>)?\(std::_Deque_iterator<.*\)|std::operator==\(std::_Deque_iterator<.*\)", lambda ex, st, v, i: self.pos(st, v[0]) == self.pos(st, v[1]))
        ex.atomic = self.atomic

    def setup(self, st, **k):
        self.g.setup(st, **k)
        st.mem[self.reg] = {(self.L.expected, 4): self.env.int(st, "expected_thread_count", 32)}
        self.n_workers = self.env.int(st, "worker_count", 32)
        st.assume(z3.And(self.n_workers >= 0, self.n_workers < 2 ** 30))
        n = self.env.int(st, "queued")
        st.assume(z3.And(n >= 0, n < 2 ** 40))
        self.qsize = X.Region("queue size", 8)
        st.mem[self.qsize] = {(0, 8): n}
        st.mem[self.q] = {(0, 8): z3.Array("queue", Z, Z)}
        st.mem[self.stack] = {}
        st.ghost["fns"] = st.ghost["shared"] = frozenset()
        return X.Ptr(self.reg, 0)

    def size(self, st):
        return zi(st.cells(self.qsize)[(0, 8)])

    def id(self, p):
        return zi(self.ex.address(p))

    # locks and condition variables

    def on_mutex(self, p):
        if not (isinstance(p, X.Ptr) and p.region is self.reg and X.conc(p.off) == self.L.mutex):
            raise X.Undecided("another mutex")

    def lock(self, ex, st, v, i):
        g = self.g
        self.on_mutex(v[0])
        ex.oblige(st, g(st, "locked") == 0, "a thread does not take a lock that it has")
        g.put(st, "locked", 1)
        for n in ("false", "empty"):
            g.put(st, n, 0)
        g.put(st, "fresh_lock", 1)
        st.ghost.pop("q known", None)

    def unlock(self, ex, st, v, i):
        self.on_mutex(v[0])
        ex.oblige(st, self.g(st, "locked") == 1, "a thread only gives up a lock that it has")
        self.g.put(st, "locked", 0)

    def cv(self, p):
        if isinstance(p, X.Ptr) and p.region is self.reg:
            o = X.conc(p.off)
            if o == self.L.helper:
                return "helper"
            if o == self.L.worker:
                return "worker"
        if isinstance(p, X.Ptr) and p.region is getattr(self, "cvreg", None):
            return "given"
        raise X.Undecided("another condition variable")

    def notify(self, all):
        def f(ex, st, v, i):
            g, w = self.g, self.cv(v[0])
            if w == "given":
                raise X.Undecided("a condition variable that is given is notified")
            # a thread that does not have the lock yet may be between its condition and its wait
            ok = z3.And(g(st, "fresh_lock") == 1)
            if all:
                if w == "helper":
                    g.put(st, "need", z3.If(ok, I(0), g(st, "need")))
                g.put(st, w, z3.If(ok, I(2), g(st, w)))
            else:
                g.put(st, w, z3.If(z3.And(ok, g(st, w) < 1), I(1), g(st, w)))
        return f

    def wait(self, ex, st, v, i):
        g = self.g
        if self.cv(v[0]) != "given":
            ex.oblige(st, False, "a thread waits for what it was told to")
        ex.oblige(st, g(st, "locked") == 1, "a thread has the lock when it waits")
        ex.oblige(st, g(st, "false") == 1, "a thread only waits if the condition was false since it took the lock")
        ex.oblige(st, g(st, "empty") == 1, "a thread only waits if there was no work since it took the lock")
        ex.oblige(st, g(st, "need") == 0, "the threads that wait are woken when a task completes")
        for n in ("false", "empty"):
            g.put(st, n, 0)

    def condition(self, ex, st, v, i):
        g = self.g
        ex.oblige(st, g(st, "locked") == 1, "a condition is evaluated atomically")
        r = ex.freshb("condition")
        g.put(st, "true", b2i(r))
        g.put(st, "false", b2i(z3.Not(r)))
        return r

    def call(self, ex, st, v, i):
        ex.oblige(st, self.g(st, "locked") == 1, "the function is called atomically")
        self.g.put(st, "calls", self.g(st, "calls") + 1)
        self.g.put(st, "fresh_lock", 0) if False else None
        for n in ("helper", "worker"):
            self.g.put(st, n, 0)

    # tasks

    def dequeue(self, ex, st, v, i):
        g = self.g
        ex.oblige(st, g(st, "locked") == 1, "the queue is used with the lock")
        ex.oblige(st, g(st, "slot") == 0, "a worker that was given work does it")
        t, w = ex.fresh("task"), ex.fresh_int(st, 32, "worker")
        st.assume(z3.And(t >= 0, t < 2 ** 62, w >= 0, z3.Implies(t != 0, z3.Not(self.instack(t)))))
        ex.put(st, v[1].region, v[1].off, 4, w)
        g.put(st, "slot", t)
        g.put(st, "place", w)
        g.put(st, "handle", b2i(t != 0))
        g.put(st, "empty", b2i(t == 0))
        return X.Ptr(ex.flat, t)

    def work(self, ex, st, v, i):
        g, t = self.g, self.id(v[0])
        ex.oblige(st, g(st, "locked") == 0, "work is done without the lock")
        ex.oblige(st, z3.And(g(st, "top") == t, g(st, "depth") == 1), "a task is on the stack while this thread works on it")
        if len(v) > 1:
            ex.oblige(st, z3.And(t == g(st, "slot"), zi(v[1]) == g(st, "place")), "a worker works on the task that it has a place in")
            ex.oblige(st, g(st, "handle") >= 1, "a task that is worked on has a handle")
            g.put(st, "slot", 0)
        else:
            if self.task is None:
                raise X.Undecided("work on another task")
            ex.oblige(st, t == self.task, "the task that is waited for is worked on")
        ex.oblige(st, g(st, "need") == 0, "the threads that wait are woken when a task completes")
        r = ex.freshb("completed")
        g.put(st, "need", b2i(r))
        g.put(st, "fresh_lock", 0)
        g.put(st, "worked", 1)
        if self.task is not None:
            g.put(st, "seen", z3.If(z3.And(r, t == self.task), I(1), g(st, "seen")))
        return r

    def done(self, ex, st, v, i):
        g = self.g
        t = self.id(v[0])
        if self.task is None:
            return ex.freshb("done")
        ex.oblige(st, t == self.task, "the task that is waited for is the one that is done")
        r = ex.freshb("done")
        st.assume(z3.Implies(g(st, "seen") == 1, r))
        g.put(st, "seen", b2i(r))
        return r

    def push(self, ex, st, v, i):
        g = self.g
        t = self.id(ex.load(st, self.env.mod, ("ptr",), v[1]))
        if not ex.must(st, g(st, "depth") == 0):
            raise X.Undecided("the stack of tasks")
        g.put(st, "top", t)
        g.put(st, "depth", 1)

    def pop(self, ex, st, v, i):
        ex.oblige(st, self.g(st, "depth") == 1, "what is taken off the stack was put there")
        self.g.put(st, "depth", 0)

    def find(self, ex, st, v, i):
        t = self.id(ex.load(st, self.env.mod, ("ptr",), v[2]))
        if not ex.must(st, self.g(st, "depth") == 0):
            raise X.Undecided("the stack of tasks")
        return X.Ptr(ex.flat, z3.If(self.instack(t), I(8), I(16)))

    def count(self, by):
        def f(ex, st, v, i):
            g = self.g
            if by < 0:
                ex.oblige(st, g(st, "handle") >= 1, "a handle ends once")
            g.put(st, "handle", g(st, "handle") + by)
            g.put(st, "gained", g(st, "gained") + by)
        return f

    def all_started(self, ex, st, v, i):
        t = self.id(v[0])
        r = ex.freshb("started")
        ex.oblige(st, t == self.g(st, "current"), "the task is the one that is considered")
        self.g.put(st, "started", b2i(r))
        return r

    def allocate(self, ex, st, v, i):
        g, t = self.g, self.id(v[0])
        w = ex.fresh_int(st, 32, "place")
        ex.oblige(st, t == g(st, "current"), "the task is the one that is considered")
        ex.oblige(st, g(st, "slot") == 0, "a worker that takes a place works there")
        g.put(st, "slot", z3.If(w >= 0, t, I(0)))
        g.put(st, "place", w)
        g.put(st, "full", b2i(w <= 0))
        return w

    # the queue

    def iter(self, st, p, k, begin=False):
        for j in range(4):
            self.ex.put(st, p.region, X.conc(p.off) + 8 * j, 8, z3.simplify(k) if j == 0 else 0)
        if begin:
            self.g.put(st, "cursor", k)
        return None

    def pos(self, st, p):
        c = st.cells(p.region).get((X.conc(p.off), 8))
        if c is None:
            raise X.Undecided("an iterator that is not known")
        return zi(c)

    def at(self, st, k):
        return z3.Select(st.cells(self.q)[(0, 8)], k)

    def deref(self, ex, st, v, i):
        g, k = self.g, self.pos(st, v[0])
        ex.oblige(st, g(st, "locked") == 1, "the queue is used with the lock")
        ex.oblige(st, z3.And(k >= 0, k < self.size(st)), "elements of the queue that exist are used")
        if not ex.must(st, k == g(st, "cursor")):
            raise X.Undecided("another element of the queue")
        t = self.at(st, k)
        if not ex.must(st, z3.And(g(st, "current") == t, t != 0)):
            st.assume(z3.And(t > 0, t < 2 ** 62))
            g.put(st, "current", t)
            g.put(st, "started", 0)
            g.put(st, "full", 0)
        return X.Ptr(self.q, z3.simplify(8 * k))

    def next(self, ex, st, v, i):
        g, k = self.g, self.pos(st, v[0])
        if not ex.must(st, k == g(st, "cursor")):
            raise X.Undecided("another element of the queue")
        t = self.at(st, k)
        ex.oblige(st, z3.And(t != 0, t == g(st, "current")), "a task that is passed over was considered and stays in the queue")
        ex.oblige(st, z3.Or(self.instack(t), g(st, "started") == 1, g(st, "full") == 1), "a task that could be worked on is not passed over")
        ex.oblige(st, g(st, "slot") == 0, "a worker that takes a place works there")
        self.iter(st, v[0], k + 1)
        g.put(st, "cursor", k + 1)
        g.put(st, "current", 0)
        return v[0]

    def erase(self, ex, st, v, i):
        g, k = self.g, self.pos(st, v[2])
        ex.oblige(st, g(st, "locked") == 1, "the queue is used with the lock")
        ex.oblige(st, z3.And(k >= 0, k < self.size(st)), "elements of the queue that exist are used")
        if not ex.must(st, k == g(st, "cursor")):
            raise X.Undecided("another element of the queue")
        ex.oblige(st, z3.And(g(st, "current") != 0, z3.Or(g(st, "started") == 1, g(st, "full") == 1)), "a task that more workers could begin to work on stays in the queue")
        moved = self.at(st, k) == 0
        g.put(st, "gained", g(st, "gained") + z3.If(moved, I(1), I(0)))
        ex.put(st, self.q, 0, 8, z3.Array("queue!%d" % next(ex.fresh_n), Z, Z))
        ex.put(st, self.qsize, 0, 8, self.size(st) - 1)
        st.assume(z3.Implies(k < self.size(st), self.at(st, k) != 0))
        self.iter(st, v[0], k)
        g.put(st, "current", 0)
        return None

    def enqueue(self, ex, st, v, i):
        g = self.g
        ex.oblige(st, g(st, "locked") == 1, "the queue is used with the lock")
        g.put(st, "queued", self.id(ex.load(st, self.env.mod, ("ptr",), v[1])))
        g.put(st, "gained", g(st, "gained") + 1)
        for n in ("helper", "worker"):
            g.put(st, n, 0)

    # members of the pool that are atomic

    def atomic(self, ex, st, kind, p, v, order, w):
        if isinstance(p, X.Ptr) and p.region is self.reg and X.conc(p.off) == self.L.workers:
            now = ex.fresh_int(st, 32, "worker_count")
            st.assume(z3.And(now >= 0, now < 2 ** 30))
            if kind in ("add", "sub"):
                g = self.g
                by = zi(v) if kind == "add" else -zi(v)
                g.put(st, "calls", g(st, "calls") + by)
            elif kind != "load":
                raise X.Undecided("atomic " + kind)
            return now
        raise X.Undecided("an atomic operation on something else")


def pool_spec(mod, sym, name, body, kinds=("task",)):
    if not has(mod, sym):
        return None

    def make(env, ex):
        H = Pool(env, ex, Layout(mod))

        def cand(ex, st, fn, head, entry):
            l = H.g.candidates()
            g = H.g
            l.append(("the cursor is in the queue", lambda ex, s, v: z3.And(g(s, "cursor") >= 0, g(s, "cursor") <= H.size(s))))
            l.append(("the cursor's task exists", lambda ex, s, v: z3.Implies(z3.And(g(s, "cursor") < H.size(s), g(s, "current") != 0), H.at(s, g(s, "cursor")) == g(s, "current"))))
            l.append(("no place is taken and not given", lambda ex, s, v: g(s, "slot") == 0))
            for n in [n for n in entry if n.startswith("*") and isinstance(entry[n], (int, z3.ArithRef)) and not n.startswith("*ghost")]:
                l.append(("%s is the cursor" % n, lambda ex, s, v, n=n: zi(v[n]) == g(s, "cursor")))
                for k in (0, 1):
                    l.append(("%s is %d" % (n, k), lambda ex, s, v, n=n, k=k: zi(v[n]) == k))
            for n in [n for n in entry if not n.startswith("*") and isinstance(entry[n], (int, z3.ArithRef))]:
                for lim in (1 << 20,):
                    l.append(("%s is small" % n, lambda ex, s, v, n=n, lim=lim: z3.And(zi(v[n]) >= -lim, zi(v[n]) <= lim)))
                l.append(("%s is not negative" % n, lambda ex, s, v, n=n: zi(v[n]) >= 0))
            l.append(("all seen is kept", lambda ex, s, v: g(s, "seen") == 0))
            return l
        ex.loop_candidates[r"."] = cand
        ex.overflow_obligations = False     # of counts of spins
        return body(H, {}, env, ex)
    return spec(name, mod, sym, make, kinds)


def function_arg(ex, st, n):
    """A function_ref that is passed in two registers."""
    r = X.Region(n, 8)
    st.mem[r] = {}
    return [X.FnPtr("@" + n, None), X.Ptr(r, 0)]


def wait_condition(mod):
    sym = P + r"wait_for\(slinky::function_ref<bool \(\)>, std::condition_variable&\)"

    def body(H, D, env, ex):
        def setup(st):
            p = H.setup(st)
            H.cvreg = X.Region("cv", 48)
            st.mem[H.cvreg] = {}
            return [p] + function_arg(ex, st, "condition") + [X.Ptr(H.cvreg, 0)]

        def fin(st, ret):
            g = H.g
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(g(st, "true") == 1, "a wait ends when its condition was true")
            ob(g(st, "locked") == 0, "the lock is given up")
            ob(g(st, "slot") == 0, "a worker that was given work does it")
            ob(g(st, "need") == 0, "the threads that wait are woken when a task completes")
            ob(g(st, "handle") == 0, "handles to tasks end")
            ob(g(st, "depth") == 0, "the stack of tasks is as it was")
        return setup, fin
    return pool_spec(mod, sym, "wait_for(condition, cv)", body)


def work_until_idle(mod):
    def body(H, D, env, ex):
        def setup(st):
            return [H.setup(st)]

        def fin(st, ret):
            g = H.g
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(g(st, "locked") == 0, "the lock is given up")
            ob(g(st, "slot") == 0, "a worker that was given work does it")
            ob(g(st, "need") == 0, "the threads that wait are woken when a task completes")
            ob(g(st, "handle") == 0, "handles to tasks end")
            ob(g(st, "depth") == 0, "the stack of tasks is as it was")
        return setup, fin
    return pool_spec(mod, P + r"work_until_idle\(\)", "work_until_idle", body)


def wait_task(mod):
    sym = P + r"wait_for\(slinky::thread_pool::task\*\)"

    def body(H, D, env, ex):
        def waits(ex, st, v, i):
            g = H.g
            if len(v) > 3 and H.cv(v[3]) != "helper":
                ex.oblige(st, False, "who waits for a task is woken when it completes")
            ex.oblige(st, g(st, "locked") == 0, "a thread does not take a lock that it has")
            ex.oblige(st, g(st, "worked") == 1, "the task is worked on before it is waited for")
            ex.oblige(st, g(st, "need") == 0, "the threads that wait are woken when a task completes")
            f = v[1]
            if not isinstance(f, X.FnPtr):
                raise X.Undecided("the condition of a wait")
            g.put(st, "locked", 1)

            def on_ret(ex, st, r):
                # the condition at the end of the wait
                ex.oblige(st, X.zb(r) == (g(st, "seen") == 1), "the condition that is waited for is that the task is done")
                st.assume(X.zb(r))
                g.put(st, "locked", 0)
                return None
            return X.Inline([v[2]], on_ret, ex.find_fn(f.mod, f.name))
        ex.contract(P + r"wait_for\(slinky::function_ref<bool \(\)>(, std::condition_variable&)?\)", waits)

        def setup(st):
            p = H.setup(st)
            t = env.int(st, "task")
            st.assume(z3.And(t > 0, t < 2 ** 62, z3.Not(H.instack(t))))
            H.task = t
            return [p, X.Ptr(ex.flat, t)]

        def fin(st, ret):
            g = H.g
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(g(st, "seen") == 1, "a wait for a task ends when the task is done")
            ob(g(st, "worked") == 1, "a task that is waited for is worked on")
            ob(g(st, "locked") == 0, "the lock is given up")
            ob(g(st, "need") == 0, "the threads that wait are woken when a task completes")
            ob(g(st, "depth") == 0, "the stack of tasks is as it was")
        return setup, fin
    return pool_spec(mod, sym, "wait_for(task)", body)


def wait_public(mod):
    sym = P + r"wait_for\(slinky::function_ref<bool \(\)>\)"

    def body(H, D, env, ex):
        def waits(ex, st, v, i):
            ex.oblige(st, D["args"][1].region is getattr(v[2], "region", None) and getattr(v[1], "name", None) == "@condition", "the condition is what was passed")
            H.cv(v[3])
            D["cv"] = H.cv(v[3])
            H.g.put(st, "calls", H.g(st, "calls") + 1)
        ex.contract(P + r"wait_for\(slinky::function_ref<bool \(\)>, std::condition_variable&\)", waits)

        def setup(st):
            p = H.setup(st)
            D["args"] = function_arg(ex, st, "condition")
            return [p] + D["args"]

        def fin(st, ret):
            ex.oblige(st, H.g(st, "calls") == 1, "the condition is waited for", assume=False)
        return setup, fin
    return pool_spec(mod, sym, "wait_for(condition)", body)


def run_worker(mod):
    sym = P + r"run_worker\(slinky::function_ref<bool \(\)>\)"

    def body(H, D, env, ex):
        def waits(ex, st, v, i):
            ex.oblige(st, D["args"][1].region is getattr(v[2], "region", None) and getattr(v[1], "name", None) == "@condition", "the condition is what was passed")
            ex.oblige(st, H.g(st, "calls") == 1, "a thread is counted while it is a worker")
            if len(v) > 3:
                H.cv(v[3])
            H.g.put(st, "worked", H.g(st, "worked") + 1)
        ex.contract(P + r"wait_for\(slinky::function_ref<bool \(\)>(, std::condition_variable&)?\)", waits)

        def setup(st):
            p = H.setup(st)
            D["args"] = function_arg(ex, st, "condition")
            return [p] + D["args"]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(H.g(st, "worked") == 1, "the condition is waited for")
            ob(H.g(st, "calls") == 0, "a thread is counted while it is a worker")
        return setup, fin
    return pool_spec(mod, sym, "run_worker", body)


def atomic_call(mod):
    sym = P + r"atomic_call\(slinky::function_ref<void \(\)>\)"

    def body(H, D, env, ex):
        def setup(st):
            p = H.setup(st)
            return [p] + function_arg(ex, st, "function")

        def fin(st, ret):
            g = H.g
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(g(st, "calls") == 1, "the function is called once")
            ob(g(st, "locked") == 0, "the lock is given up")
            ob(g(st, "helper") == 2, "all threads that wait for conditions are woken")
            ob(g(st, "worker") == 2, "all workers are woken")
        return setup, fin
    return pool_spec(mod, sym, "atomic_call", body)


def enqueue(mod):
    sym = P + r"enqueue\(unsigned long, %s, int\)" % FN

    def body(H, D, env, ex):
        H.called = lambda st, j: ex.oblige(st, False, "nothing is called yet")

        def made(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            s, n, w = zi(v[0]), zi(v[1]), zi(v[3])
            ob(n == D["n"], "the task has all iterations")
            ob(bool(H.holds(st, v[2])), "the task is given the body")
            ob(s >= 1, "a task has a shard")
            if not ex.must(st, s <= MAX_SHARDS):
                raise X.Undecided("more than %d shards" % MAX_SHARDS)
            ob(z3.And(w >= 1, w <= D["w"]), "a task has a worker, and no more than it may have")
            ob(z3.Implies(D["w"] < INT_MAX, s == 1), "a loop with a limited number of workers begins its iterations in order")
            t = env.int(st, "task")
            st.assume(z3.And(t > 0, t < 2 ** 62))
            H.g.put(st, "handle", H.g(st, "handle") + 1)
            H.g.put(st, "gained", H.g(st, "gained") + 1)
            H.g.put(st, "current", t)
            D["t"] = t
            D["made_w"] = w
            return X.Ptr(ex.flat, t)
        ex.contract(T + r"make\(.*\)", made)

        def setup(st):
            p = H.setup(st)
            D["n"], D["w"] = env.int(st, "n"), env.int(st, "max_workers", 32)
            st.assume(z3.And(D["n"] >= 1, D["n"] < BIGN, D["w"] >= 1))
            f = X.Region("body", 32)
            st.mem[f] = {}
            st.ghost["fns"] = frozenset([(f, 0)])
            return [p, D["n"], X.Ptr(f, 0), D["w"]]

        def fin(st, ret):
            g = H.g
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(z3.And(g(st, "queued") == g(st, "current"), g(st, "current") != 0), "the task is in the queue")
            ob(H.id(ret) == g(st, "current"), "the result is the task")
            # a handle in the queue, and the result
            ob(g(st, "gained") == 2, "handles are counted")
            ob(g(st, "locked") == 0, "the lock is given up")
            for w in ("helper", "worker"):
                ob(z3.Or(g(st, w) == 2, z3.And(g(st, w) == 1, D.get("made_w", I(0)) == 1)), "threads that could work on the task are woken")
        return setup, fin
    return pool_spec(mod, sym, "enqueue", body)


def dequeue(mod):
    sym = P + r"dequeue\(int&\)"

    def body(H, D, env, ex):
        out = X.Region("worker", 4)

        def setup(st):
            p = H.setup(st, locked=I(1))
            st.mem[out] = {}
            return [p, X.Ptr(out, 0)]

        def fin(st, ret):
            g = H.g
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            r = H.id(ret)
            w = st.cells(out).get((0, 4))
            ob(z3.Implies(r == 0, z3.And(g(st, "cursor") == H.size(st))), "if there is no result, there was no task to work on")
            ob(r == g(st, "slot"), "the result is the task that a place was taken in")
            ob(z3.Implies(r != 0, False if w is None else z3.And(zi(w) == g(st, "place"), zi(w) >= 0)), "the worker has the place that was taken")
            ob(z3.Implies(r != 0, z3.Not(H.instack(r))), "a thread does not work on a task that it is working on")
            ob(z3.Implies(r != 0, g(st, "gained") == 1), "the result is counted")
            ob(z3.Implies(r == 0, g(st, "gained") == 0), "the result is counted")
            ob(z3.Implies(g(st, "cursor") < H.size(st), H.at(st, g(st, "cursor")) != 0), "tasks in the queue exist")
            ob(g(st, "locked") == 1, "the lock is kept")
        return setup, fin
    return pool_spec(mod, sym, "dequeue", body)


def thread_count(mod):
    def body(H, D, env, ex):
        def atomic(ex2, st, kind, p, v, order, w):
            if kind == "load" and isinstance(p, X.Ptr) and p.region is H.reg and X.conc(p.off) == H.L.workers:
                return H.n_workers
            raise X.Undecided("an atomic operation on something else")
        ex.atomic = atomic

        def setup(st):
            return [H.setup(st)]

        def fin(st, ret):
            e = env.ex.inputs["expected_thread_count"]
            ex.oblige(st, z3.And(zi(ret) >= H.n_workers, zi(ret) >= e, z3.Or(zi(ret) == H.n_workers, zi(ret) == e)), "the result is the number of threads there are or will be", assume=False)
        return setup, fin
    return pool_spec(mod, P + r"thread_count\(\) const", "thread_count", body)


def pool(mod):
    l = [wait_condition(mod), work_until_idle(mod), wait_task(mod), wait_public(mod), run_worker(mod), atomic_call(mod), enqueue(mod), dequeue(mod),
         thread_count(mod)]
    return [s for s in l if s is not None]


def slots(mod):
    """The virtual functions of a pool, in order."""
    d = mod.raw_globals.get("@_ZTVN6slinky16thread_pool_implE")
    if d is None:
        raise X.Undecided("no table of virtual functions")
    l = re.findall(r"ptr (null|@[\w.$]+|inttoptr \([^)]*\))", d[d.index("{"):] if "{" in d else d)[2:]
    return [mod.demangled.get(n, n) if n.startswith("@") else n for n in l]


def parallel_for(mod, impl):
    sym = r"slinky::thread_pool::parallel_for\(.*\)"
    if not has(mod, sym):
        return None

    def make(env, ex):
        D = {}

        class H:
            pass
        H = H()
        H.g = Ghost(ex, ["own", "from", "to", "task", "handle", "waited", "begun"])
        g = H.g

        def called(st, j):
            x = D["x"]
            g.put(st, "own", g(st, "own") + z3.If(j == x, I(1), I(0)))
            g.put(st, "begun", 1)
            ex.oblige(st, z3.And(j >= 0, j < D["n"]), "the body is called for iterations of the loop")
        H.called = called
        functions(H, ex)

        def count(ex, st, v, i):
            r = env.int(st, "thread_count", 32)
            st.assume(r >= 0)
            return r

        def enqueue(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            n, w = zi(v[1]), zi(v[3])
            ob(n >= 1, "precondition of enqueue: there are iterations")
            ob(bool(H.holds(st, v[2])), "the task is given the body")
            ob(z3.And(w >= 1, w <= D["w"]), "the task has no more workers than the loop may have")
            ob(g(st, "task") == 0, "one task is made")
            t = env.int(st, "task")
            st.assume(z3.And(t > 0, t < 2 ** 62))
            g.put(st, "task", t)
            g.put(st, "to", n)
            g.put(st, "handle", 1)
            st.mem.setdefault(D["treg"], {})
            return X.Ptr(ex.flat, t)

        def wait(ex, st, v, i):
            ob = lambda c, m: ex.oblige(st, c, m)
            ob(z3.And(zi(ex.address(v[1])) == g(st, "task"), g(st, "task") != 0), "the task that was made is waited for")
            ob(g(st, "handle") >= 1, "the task that is waited for has a handle")
            g.put(st, "waited", 1)

        def change(by):
            def f(ex, st, v, i):
                ex.oblige(st, zi(ex.address(v[0])) == g(st, "task"), "the handles are of the task")
                ex.oblige(st, g(st, "handle") + by >= 0, "a handle ends once")
                if by < 0:
                    ex.oblige(st, z3.Or(g(st, "handle") > 1, g(st, "waited") == 1), "a task is kept until it is done")
                g.put(st, "handle", g(st, "handle") + by)
            return f
        ex.contract("@virtual_thread_count", count)
        ex.contract("@virtual_enqueue", enqueue)
        ex.contract("@virtual_wait_for", wait)
        ex.contract(r"slinky::ref_counted<slinky::thread_pool::task>::add_ref\(\) const", change(1))
        ex.contract(r"slinky::ref_counted<slinky::thread_pool::task>::release\(\) const", change(-1))

        def cand(ex, st, fn, head, entry):
            l = []
            for n in [n for n, e in entry.items() if isinstance(e, (int, z3.ArithRef)) and not n.startswith("*")]:
                for c in (lambda k, x: x < k, lambda k, x: x >= k):
                    l.append(("the body was called for the iterations before %s" % n, lambda ex, s, v, n=n, c=c: g(s, "own") == z3.If(c(zi(v[n]), D["x"]), I(1), I(0))))
                l.append(("%s is not negative" % n, lambda ex, s, v, n=n: zi(v[n]) >= 0))
                l.append(("%s is at most n" % n, lambda ex, s, v, n=n: zi(v[n]) <= D["n"]))
            for n in g.off:
                l.append(("%s is 0" % n, lambda ex, s, v, n=n: g(s, n) == 0))
            return l
        ex.loop_candidates[r"."] = cand

        def setup(st):
            g.setup(st)
            D["n"], D["w"] = env.int(st, "n"), env.int(st, "max_workers", 32)
            D["x"] = x = skolem(ex, st, "iteration")
            st.assume(z3.And(D["n"] >= 0, D["n"] < BIGN, D["w"] >= 1, x >= 0, x < D["n"] + 1))
            D["treg"] = X.Region("task", 16)
            vt, pool, f = X.Region("virtual functions", 256), X.Region("pool", 8), X.Region("body", 32)
            cells = {}
            for k, d in enumerate(slots(impl)):
                for rx, to in ((r".*::thread_count\(\) const", "@virtual_thread_count"), (r".*::enqueue\(unsigned long, .*", "@virtual_enqueue"),
                               (r".*::wait_for\(slinky::thread_pool::task\*\)", "@virtual_wait_for")):
                    if re.fullmatch(rx, d):
                        cells[(8 * k, 8)] = X.FnPtr(to, mod)
            st.mem[vt] = cells
            st.mem[pool] = {(0, 8): X.Ptr(vt, 0)}
            st.mem[f] = {}
            st.ghost["fns"], st.ghost["shared"] = frozenset([(f, 0)]), frozenset()
            return [X.Ptr(pool, 0), D["n"], X.Ptr(f, 0), D["w"]]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            x = D["x"]
            inside = z3.And(x >= g(st, "from"), x < g(st, "to"), g(st, "task") != 0)
            ob(z3.Implies(g(st, "task") != 0, g(st, "waited") == 1), "the task is waited for")
            ob(g(st, "own") + z3.If(inside, I(1), I(0)) == z3.If(x < D["n"], I(1), I(0)), "every iteration is done once")
            ob(g(st, "handle") == 0, "handles to the task end")
        return setup, fin
    return spec("parallel_for", mod, sym, make, ("task",))


def front(mod, impl):
    return [s for s in [parallel_for(mod, impl)] if s is not None]


def lemma_obligations():
    """From the contracts: the shards partition [0, n), so that each iteration is in one shard, and is taken by one call of shard::work; and when no
    work is left all calls have returned."""
    x, s, t, n = z3.Ints("x s t n")
    b, e = z3.Array("begin", Z, Z), z3.Array("end", Z, Z)
    out = []
    # ordered: begin(s) <= end(s) = begin(s + 1); by induction end(s) <= begin(t) for s < t
    out.append(("lemma: later shards begin after earlier ones end (step)", [z3.Select(e, s) <= z3.Select(b, t), z3.Select(b, t) <= z3.Select(e, t), z3.Select(e, t) == z3.Select(b, t + 1)],
                z3.Select(e, s) <= z3.Select(b, t + 1)))
    out.append(("lemma: an iteration is in one shard at most", [s < t, z3.Select(e, s) <= z3.Select(b, t), z3.Select(b, s) <= x, x < z3.Select(e, s)], z3.Not(z3.And(z3.Select(b, t) <= x, x < z3.Select(e, t)))))
    # by induction over shards: an iteration before the end of shard t is in a shard up to t
    f = z3.Bool("in a shard before t")
    out.append(("lemma: an iteration is in a shard (step)", [z3.Implies(x < z3.Select(b, t), f), z3.Select(e, t - 1) == z3.Select(b, t), x < z3.Select(e, t)],
                z3.Or(f, z3.And(z3.Select(b, t) <= x, x < z3.Select(e, t)))))
    # a call takes [c, c + k), after which the counter is c + k; counters only grow: the intervals of two calls are apart
    c1, k1, c2, k2 = z3.Ints("c1 k1 c2 k2")
    out.append(("lemma: an index is taken once", [k1 >= 1, k2 >= 1, c2 >= c1 + k1, c1 <= x, x < c1 + k1], z3.Not(z3.And(c2 <= x, x < c2 + k2))))
    # todo = n - (calls that have returned and were counted); at most n iterations are called
    todo, counted, uncounted, running, calls = z3.Ints("todo counted uncounted running calls")
    out.append(("lemma: when no work is left all calls have returned", [todo == n - counted, calls == counted + uncounted + running, calls <= n, uncounted >= 0, running >= 0, todo == 0],
                z3.And(calls == n, running == 0)))
    out.append(("lemma: what is counted is left until then", [todo == n - counted, calls == counted + uncounted + running, calls <= n, running >= 0], todo >= uncounted))
    return out
