"""Contracts of reference counting (base/ref_count.h): C19.

The count of a node is ghost state (an array over the addresses of counts), changed by atomic operations. The invariant is that the count of a
node is the number of handles to it; it holds if every operation changes the count of every node as it changes the number of handles, and a
node is destroyed by the operation that takes its count to 0. Destroying a node may end handles that are inside it."""
import z3
from . import ex as X
from .bufs import Env, I, zi, Z, spec, has

OFF = 8     # of the count in a node


class Refs:
    def __init__(self, env, ex):
        self.env, self.ex = env, ex
        ex.atomic = self.atomic
        ex.fence = self.fence
        for p in ("@node_destroy", r"slinky::base_node<.*>::destroy\(slinky::base_node<.*>\*\)"):
            ex.contract(p, self.destroy)
        self.g = X.Region("counts", None, "array", 8)
        self.handles = []       # (name, pointer to the handle): the handles there are
        self.inside = None

    def setup(self, st, handles=(), raw=None, kept=()):
        """handles: the nodes of the handles of this operation; raw: a node that the caller passes, and owns a handle to or has just made;
        kept: nodes that this operation is given a count of."""
        own = z3.K(Z, I(0))
        others = z3.Array("others", Z, Z)
        self.x = z3.Int("node")
        self.ex.inputs["node"] = self.x
        st.assume(self.x > 0)
        for v in list(handles) + list(kept):
            own = z3.Store(own, v, z3.Select(own, v) + 1)
        for v in list(handles) + list(kept) + [self.x] + ([] if raw is None else [raw]):
            st.assume(z3.And(z3.Select(others, v) >= 0, z3.Select(others, v) < 2 ** 29))
        if raw is not None:
            k = z3.If(z3.Select(others, raw) > 0, 1, 0)
            own = z3.Store(own, raw, z3.Select(own, raw) + k)
            others = z3.Store(others, raw, z3.Select(others, raw) - k)
        self.raw = raw
        st.mem[self.g] = {(0, 8): own, (8, 8): others, (16, 8): z3.K(Z, I(0))}
        st.ghost["destroyed"] = ()
        st.ghost["gone"] = ()
        st.ghost["last"] = ()
        self.start = own, others

    def get(self, st, what, n):
        return z3.Select(st.cells(self.g)[({"own": 0, "others": 8, "delta": 16}[what], 8)], n)

    def put(self, st, what, n, v):
        k = ({"own": 0, "others": 8, "delta": 16}[what], 8)
        st.wcells(self.g)[k] = z3.Store(st.cells(self.g)[k], n, v)

    def count(self, st, n):
        return self.get(st, "own", n) + self.get(st, "others", n)

    def initial(self, n):
        return z3.Select(self.start[0], n) + z3.Select(self.start[1], n)

    def alive(self, st, n, what):
        self.ex.oblige(st, n != 0, "a null node is not " + what)
        for d in st.ghost["destroyed"]:
            self.ex.oblige(st, n != d, "a node is not %s after it is destroyed" % what)

    def atomic(self, ex, st, kind, p, v, order, w):
        n = zi(ex.address(p)) - OFF
        self.alive(st, n, "counted")
        own, others = self.get(st, "own", n), self.get(st, "others", n)
        ex.oblige(st, z3.Or(own >= 1, False if self.raw is None else n == self.raw), "the count of a node is only used while there is a handle that keeps the node")
        # other threads have changed the number of their handles since
        o = ex.fresh("others")
        st.assume(z3.And(o >= 0, o < 2 ** 29, z3.Implies(others == 0, o == 0)))
        self.put(st, "others", n, o)
        c = own + o
        if kind == "load":
            if order in ("acquire", "seq_cst"):
                st.ghost["acquired"] = True
            return c
        v = zi(v)
        if kind == "store":
            ex.oblige(st, c <= 1, "a count that others may change is changed by an atomic operation")
            new = v
        elif kind in ("add", "sub"):
            new = c + v if kind == "add" else c - v
        else:
            raise X.Undecided("atomic " + kind)
        by = z3.simplify(new - c)
        ex.oblige(st, z3.Or(by == 1, by == -1), "counts change by one")
        if not ex.must(st, by == 1):
            ex.oblige(st, own >= 1, "only what is counted is released")
            # another thread's uses of the node have to happen before it is destroyed, and this one's before the other destroys it
            if order in ("monotonic", "unordered"):
                ex.oblige(st, c == 1 if kind == "store" else False, "a release synchronizes with the destruction of the node")
            elif order not in ("acq_rel", "seq_cst"):
                raise X.Undecided("ordering of a release")
        self.put(st, "own", n, own + by)
        self.put(st, "delta", n, self.get(st, "delta", n) + by)
        st.ghost["last"] += ((n, z3.And(by < 0, new == 0)),)
        return c

    def destroy(self, ex, st, v, i):
        n = zi(ex.address(v[-1]))
        self.alive(st, n, "destroyed")
        own, c = self.get(st, "own", n), self.count(st, n)
        if ex.must(st, z3.And(own == 1, c == 1)):
            # the last handle is ours: it goes away without being counted
            ex.oblige(st, st.ghost.get("acquired", False), "a release synchronizes with the destruction of the node")
            self.put(st, "own", n, I(0))
            self.put(st, "delta", n, self.get(st, "delta", n) - 1)
            st.ghost["last"] += ((n, z3.BoolVal(True)),)
        else:
            ex.oblige(st, c == 0, "only a node without handles is destroyed")
        for name, h in self.live(st):
            ex.oblige(st, self.value(st, h) != n, "no handle refers to a node that is destroyed: %s" % name)
        st.ghost["destroyed"] += (n,)
        if self.inside is not None:
            # a handle inside the node that the first handle held at the beginning
            h, holder = self.inside
            s = st.fork()
            st.assume(n == holder)
            s.assume(n != holder)
            # the node's destructor ends the handle; what that does to the handle's node is the node's business
            st.ghost["gone"] += (h,)
            d = st.wcells(h.region)
            b = self.value(st, h)
            st.ghost["ended"] = b
            d.pop((0, 8))
            h.region.lazy = self.dead
            return [(st, None), (s, None)]
        return None

    def fence(self, ex, st, order):
        if order in ("acquire", "acq_rel", "seq_cst"):
            st.ghost["acquired"] = True

    def dead(self, ex, st, off, size, r):
        ex.oblige(st, False, "no handle is used after it ends")
        raise X.Undecided("use of a handle after it ended")

    def live(self, st):
        return [(n, h) for n, h in self.handles if not any(h is g for g in st.ghost["gone"]) and (0, 8) in st.cells(h.region)]

    def value(self, st, h):
        return zi(self.ex.address(st.cells(h.region)[(0, 8)]))

    def handle(self, st, name, v=None):
        r = X.Region(name, 8)
        p = X.Ptr(r, 0)
        if v is None:
            v = self.env.int(st, name)
            st.assume(v >= 0)
        st.mem[r] = {(0, 8): X.Ptr(self.ex.flat, v)}
        return p, v

    def out(self, st, name):
        r = X.Region(name, 8)
        st.mem[r] = {}
        return X.Ptr(r, 0)


def once(R, st, ob):
    x = R.x
    gone = z3.Sum([I(0)] + [z3.If(n == x, 1, 0) for n in st.ghost["destroyed"]])
    last = z3.Sum([I(0)] + [z3.If(z3.And(n == x, c), 1, 0) for n, c in st.ghost["last"]])
    ob(gone == last, "a node is destroyed once if its last handle went away, else not")


def one(mod, sym, args, post, held=0, consumed=0, inside=False, alias=False, name=None):
    """args: "out" (a handle that is constructed), "h" (a handle), "n" (a node). post(L) -> [(name, condition)] on the values of the handles.
    held: handles to a node argument that the caller has given up or taken."""
    if not has(mod, sym):
        return None

    def body(env, ex):
        R = Refs(env, ex)
        L = {}

        def setup(st):
            l = []
            vals = []
            L["h"], L["v"] = [], []
            for k, a in enumerate(args):
                if a == "out":
                    p = R.out(st, "out")
                    R.handles.append(("out", p))
                    L["h"].append(p)
                    L["v"].append(I(0))
                    l.append(p)
                elif a == "h":
                    if alias and L["h"] and args[0] == "h":
                        l.append(L["h"][0])
                        continue
                    p, v = R.handle(st, "handle%d" % k)
                    R.handles.append(("handle%d" % k, p))
                    L["h"].append(p)
                    L["v"].append(v)
                    vals.append(v)
                    l.append(p)
                else:
                    v = env.int(st, "n")
                    st.assume(v >= (1 if a == "n+" else 0))
                    L["n"] = v
                    l.append(X.Ptr(ex.flat, v))
            R.setup(st, vals, L.get("n") if not consumed else None, [L["n"]] if consumed else ())
            if inside:
                R.inside = (L["h"][1], L["v"][0])
                st.assume(L["v"][0] != 0)
                # nothing else holds the node that has the handle
            return l

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            x = R.x
            live = R.live(st)
            now = [R.value(st, h) for _, h in live]
            L["now"] = [R.value(st, h) if any(h is q for _, q in live) else None for h in L["h"]]
            ended = st.ghost.get("ended")
            before = z3.Sum([I(0)] + [z3.If(v == x, 1, 0) for v in L["v"] if not z3.is_int_value(v)])
            after = z3.Sum([I(0)] + [z3.If(v == x, 1, 0) for v in now] + ([] if ended is None else [z3.If(ended == x, 1, 0)]))
            d = R.get(st, "delta", x)
            extra = I(0)
            if held or consumed:
                extra = z3.If(L["n"] == x, held - consumed, 0)
            ob(d == after - before + extra, "the count of every node changes as the number of handles to it")
            once(R, st, ob)
            L["ret"] = ret
            for m, c in post(L, ex):
                ob(c, m)
        return setup, fin
    return spec(name or sym, mod, sym, body, ("ref",))


def specs(mod):
    out = []
    a = lambda *l, **k: out.append(one(mod, *l, **k))
    val = lambda k, f: (lambda L, ex: [("the handle is as specified", L["now"][k] == f(L))] if L["now"][k] is not None else [])
    both = lambda f, g: (lambda L, ex: f(L, ex) + g(L, ex))
    none = lambda L, ex: []
    a("p_ctor", ["out", "n"], val(0, lambda L: L["n"]), name="ref_count(T*)")
    for pre, what in (("p", "ref_count"), ("e", "expr"), ("s", "stmt")):
        if pre != "p":
            a(pre + "_ctor", ["out", "n"], val(0, lambda L: L["n"]), name=what + "(node)")
        a(pre + "_copy", ["out", "h"], both(val(0, lambda L: L["v"][1]), val(1, lambda L: L["v"][1])), name=what + "(const &)")
        a(pre + "_move", ["out", "h"], both(val(0, lambda L: L["v"][1]), val(1, lambda L: I(0))), name=what + "(&&)")
        a(pre + "_assign", ["h", "h"], both(val(0, lambda L: L["v"][1]), val(1, lambda L: L["v"][1])), name=what + " = const &")
        a(pre + "_assign", ["h", "h"], val(0, lambda L: L["v"][0]), alias=True, name=what + " = itself")
        a(pre + "_assign", ["h", "h"], val(0, lambda L: L["v"][1]), inside=True, name=what + " = const & in its own node")
        a(pre + "_move_assign", ["h", "h"], val(0, lambda L: L["v"][1]), name=what + " = &&")
        a(pre + "_move_assign", ["h", "h"], none, alias=True, name=what + " = && of itself")
        a(pre + "_move_assign", ["h", "h"], val(0, lambda L: L["v"][1]), inside=True, name=what + " = && in its own node")
        out.append(destructor(mod, pre + "_dtor", what))
    a("p_assign_ptr", ["h", "n"], val(0, lambda L: L["n"]), name="ref_count = T*")
    a("p_convert", ["out", "h"], both(val(0, lambda L: L["v"][1]), val(1, lambda L: L["v"][1])), name="ref_count: conversion")
    a("p_take", ["h"], val(0, lambda L: I(0)), name="ref_count::take") if False else None
    out.append(simple(mod, "p_add_ref", 1, "ref_counted::add_ref"))
    out.append(simple(mod, "p_release", -1, "ref_counted::release"))
    out.append(transfer(mod))
    a("p_assume", ["out", "n"], val(0, lambda L: L["n"]), consumed=1, name="ref_count::assume")
    out.append(destroy(mod, "e_destroy", "base_expr_node::destroy"))
    out.append(destroy(mod, "s_destroy", "base_stmt_node::destroy"))
    for sym, name, new in (("n_copy", "ref_counted(const &)", True), ("n_move", "ref_counted(&&)", True),
                           ("n_assign", "ref_counted = const &", False), ("n_move_assign", "ref_counted = &&", False)):
        out.append(copied(mod, sym, name, new))
    return [s for s in out if s is not None]


def transfer(mod):
    """take: the handle is given up, its count goes to the caller."""
    if not has(mod, "p_take"):
        return None

    def body(env, ex):
        R = Refs(env, ex)
        L = {}

        def setup(st):
            p, v = R.handle(st, "handle")
            R.setup(st, [v])
            R.handles.append(("handle", p))
            L["p"], L["v"] = p, v
            return [p]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            ob(R.get(st, "delta", R.x) == 0, "counts do not change")
            ob(z3.And(zi(ex.address(ret)) == L["v"], R.value(st, L["p"]) == 0), "the node goes to the caller")
            ob(len(st.ghost["destroyed"]) == 0, "nothing is destroyed")
        return setup, fin
    return spec("ref_count::take", mod, "p_take", body, ("ref",))


def simple(mod, sym, by, name):
    if not has(mod, sym):
        return None

    def body(env, ex):
        R = Refs(env, ex)
        L = {}

        def setup(st):
            n = env.int(st, "n")
            st.assume(n > 0)
            R.setup(st, [], n if by > 0 else None, [n] if by < 0 else [])
            L["n"] = n
            return [X.Ptr(ex.flat, n)]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            x, n = R.x, L["n"]
            ob(R.get(st, "delta", x) == z3.If(x == n, by, 0), "the count changes by one")
            once(R, st, ob)
        return setup, fin
    return spec(name, mod, sym, body, ("ref",))


def destructor(mod, sym, what):
    if not has(mod, sym):
        return None

    def body(env, ex):
        R = Refs(env, ex)
        L = {}

        def setup(st):
            p, v = R.handle(st, "handle")
            L["v"] = v
            R.setup(st, [v])
            return [p]

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            x, v = R.x, L["v"]
            ob(R.get(st, "delta", x) == -z3.If(x == v, 1, 0), "the count of the handle's node goes down")
            once(R, st, ob)
        return setup, fin
    return spec("~" + what, mod, sym, body, ("ref",))


def destroy(mod, sym, name):
    """base_node::destroy: the deleting destructor of the node (the second entry of the table of the most derived type) once, nothing else."""
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}

        def setup(st):
            n, t = X.Region("node", None), X.Region("table of the type", None)
            st.mem[n] = {(0, 8): X.Ptr(t, 16), (8, 4): env.int(st, "count")}
            st.mem[t] = {(16, 8): X.FnPtr("@complete", mod), (24, 8): X.FnPtr("@deleting", mod), (32, 8): X.FnPtr("@accept", mod)}
            st.ghost["called"] = ()

            def called(ex, st, v, i):
                ok = isinstance(v[-1], X.Ptr) and v[-1].region is n and X.isc(X.conc(v[-1].off)) and X.conc(v[-1].off) == 0
                ex.oblige(st, ok, "it is the node that is deleted")
                st.ghost["called"] += (1,)
                return None
            ex.contract("@deleting", called)
            return [X.Ptr(n, 0)]

        def fin(st, ret):
            ex.oblige(st, len(st.ghost["called"]) == 1, "the node is deleted once", assume=False)
        return setup, fin
    return spec(name, mod, sym, body, ("ref",))


def copied(mod, sym, name, new):
    """The count belongs to the object and is not part of its value: a copy of a node has no handles, and the nodes that are assigned keep their counts."""
    if not has(mod, sym):
        return None

    def body(env, ex):
        L = {}

        def setup(st):
            l = []
            for k in range(2):
                r = X.Region("node%d" % k, None)
                c = env.int(st, "count%d" % k)
                st.assume(z3.And(c >= 0, c < 2 ** 29))
                st.mem[r] = {(0, 8): X.FnPtr("@table", mod)}
                if not (new and k == 0):
                    st.mem[r][(OFF, 4)] = c
                l.append(r)
                L[k] = (r, c)
            return [X.Ptr(r, 0) for r in l]

        def fin(st, ret):
            for k in range(2):
                r, c = L[k]
                v = zi(ex.load(st, mod, ("i", 32), X.Ptr(r, OFF)))
                if new and k == 0:
                    ex.oblige(st, v == 0, "a copy has no handles", assume=False)
                else:
                    ex.oblige(st, v == c, "the count stays with the object", assume=False)
        return setup, fin
    return spec(name, mod, sym, body, ("ref",))
