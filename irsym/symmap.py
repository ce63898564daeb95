"""Contracts of symbol tables and scoped bindings (symbol_map, scoped_value_in_symbol_map in runtime/expr.h): C20.

A table is an array of optional values and a size; what a name is bound to is a function of it: look(i) = the value of element i if i is
below the size and the element is engaged, else nothing. Contracts are on look, at the name and at any other name (a skolem constant)."""
import z3
from . import ex as X
from .bufs import I, zi, Z, spec, has

BIG = 2 ** 40


class Maps:
    def __init__(self, env, ex):
        self.env, self.ex = env, ex
        V = r"std::vector<std::optional<long>, std::allocator<std::optional<long>>>::"
        ex.contract(V + r"resize\(unsigned long\)", self.resize)
        ex.contract(V + r"clear\(\)", self.clear)
        ex.contract(V + r"vector\(unsigned long, .*\)", self.sized)
        ex.contract(V + r"~vector\(\)", lambda ex, st, v, i: None)
        self.k = 0

    def storage(self, st, val, eng, n):
        self.k += 1
        r = X.Region("values%d" % self.k, None, "array", 16)
        r.words = True
        st.mem[r] = {(0, 8): val, (8, 8): eng}
        r.on_access = self.access
        r.n = n
        return r

    def access(self, ex, st, i, f, size):
        m = st.ghost["live"]
        n = next((n for r, n in m if r is not None), None)
        ex.oblige(st, z3.And(zi(i) >= 0, zi(i) < st.ghost["size"]), "elements of the table that exist are accessed")

    def put(self, st, m, val, eng, n):
        r = self.storage(st, val, eng, n)
        d = st.wcells(m)
        d[(0, 8)], d[(8, 8)], d[(16, 8)] = X.Ptr(r, 0), X.Ptr(r, 16 * n), X.Ptr(r, 16 * n)
        st.ghost["size"] = n
        st.ghost["live"] = ((r, n),)

    def table(self, st):
        m = X.Region("map", 24)
        st.mem[m] = {}
        val, eng = z3.Array("val", Z, Z), z3.Array("eng", Z, Z)
        n = self.env.int(st, "size")
        st.assume(z3.And(n >= 0, n < BIG))
        self.m = m
        self.put(st, m, val, eng, n)
        self.was = (val, eng, n)
        return X.Ptr(m, 0)

    def now(self, st):
        d = st.cells(self.m)
        r = d[(0, 8)].region
        e = d[(8, 8)]
        if e.region is not r:
            raise X.Undecided("storage of the table")
        c = st.cells(r)
        n = st.ghost["size"]
        self.ex.oblige(st, zi(e.off) == 16 * n, "the table has the size it was given", assume=False)
        return c[(0, 8)], c[(8, 8)], n

    def resize(self, ex, st, v, i):
        if v[0].region is not self.m:
            raise X.Undecided("resize of another table")
        n2 = zi(v[1])
        val, eng, n = self.now(st)
        ex.oblige(st, n2 >= 0, "sizes are not negative")
        st.assume(n2 < 4 * BIG)        # the memory suffices
        j = z3.Int("j!")
        self.put(st, self.m, val, z3.Lambda([j], z3.If(z3.And(j >= 0, j < n), z3.Select(eng, j), 0)), n2)
        return None

    def clear(self, ex, st, v, i):
        return self.resize(ex, st, [v[0], I(0)], i)

    def sized(self, ex, st, v, i):
        self.m = v[0].region
        st.ghost["size"] = I(0)
        n2 = zi(v[1])
        st.assume(z3.And(n2 >= 0, n2 < BIG))
        self.put(st, self.m, z3.K(Z, I(0)), z3.K(Z, I(0)), n2)
        return None

    @staticmethod
    def look(t, i):
        """(bound, value)"""
        val, eng, n = t
        return z3.And(i >= 0, i < n, z3.Select(eng, i) % 256 == 1), z3.Select(val, i)

    def facts(self, st, *names):
        """Flags are 0 or 1."""
        val, eng, n = self.was
        for i in names:
            e = z3.Select(eng, i)
            st.assume(z3.And(z3.Or(e % 256 == 0, e % 256 == 1), X.inr(e, 64), X.inr(z3.Select(val, i), 64)))

    def optional(self, st, name):
        r = X.Region(name, 16)
        e, v = self.env.int(st, name + "_engaged"), self.env.int(st, name + "_value")
        st.assume(z3.Or(e % 256 == 0, e % 256 == 1))
        st.mem[r] = {(0, 8): v, (8, 8): e}
        return X.Ptr(r, 0), (e % 256 == 1, v)

    def read(self, st, p):
        """The optional at p."""
        ex = self.ex
        e = ex.load(st, self.env.mod, ("i", 8), ex.addoff(p, 8))
        e = zi(e)
        if X.isc(X.conc(e == 0)) and bool(X.conc(e == 0)) or ex.must(st, e == 0):
            return z3.BoolVal(False), I(0)
        if ex.must(st, e != 0):
            return z3.BoolVal(True), zi(ex.load(st, self.env.mod, ("i", 64), p))
        return e != 0, zi(ex.load(st, self.env.mod, ("i", 64), p))


def same(a, b):
    return z3.And(a[0] == b[0], z3.Implies(a[0], a[1] == b[1]))


NONE = (z3.BoolVal(False), I(0))


def one(mod, sym, name, body):
    """body(M, L) -> (arguments(st) -> list, post(st, ret, ob)). x is the name, y any other."""
    if not has(mod, sym):
        return None

    def b(env, ex):
        M = Maps(env, ex)
        L = {}

        def setup(st):
            L["x"], L["y"] = env.int(st, "name"), env.int(st, "other")
            st.assume(z3.And(L["x"] >= 0, L["x"] < BIG, L["y"] >= 0, L["y"] < BIG, L["x"] != L["y"]))
            L["map"] = M.table(st)
            M.facts(st, L["x"], L["y"])
            return args(st)

        def fin(st, ret):
            ob = lambda c, m: ex.oblige(st, c, m, assume=False)
            post(st, ret, ob)
        args, post = body(M, L, ex)
        return setup, fin
    return spec(name, mod, sym, b, ("symmap",))


def out(st, n=16):
    r = X.Region("out", n)
    st.mem[r] = {}
    return X.Ptr(r, 0)


def specs(mod):
    l = []
    a = lambda sym, name, body: l.append(one(mod, sym, name, body))

    def kept(M, L, st, ob):
        now = M.now(st)
        ob(same(M.look(now, L["x"]), M.look(M.was, L["x"])), "the name keeps what it is bound to")
        ob(same(M.look(now, L["y"]), M.look(M.was, L["y"])), "other names keep what they are bound to")

    def others(M, L, st, ob):
        ob(same(M.look(M.now(st), L["y"]), M.look(M.was, L["y"])), "other names keep what they are bound to")

    def lookup(M, L, ex):
        def args(st):
            L["out"] = out(st)
            return [L["out"], L["map"], L["x"]]

        def post(st, ret, ob):
            ob(same(M.read(st, L["out"]), M.look(M.was, L["x"])), "the result is what the name is bound to")
            kept(M, L, st, ob)
        return args, post
    a("m_lookup", "symbol_map::lookup", lookup)
    a("m_get", "symbol_map::operator[] const", lookup)

    def lookup_or(M, L, ex):
        def args(st):
            r = X.Region("default", 8)
            L["d"] = M.env.int(st, "default")
            st.mem[r] = {(0, 8): L["d"]}
            return [L["map"], L["x"], X.Ptr(r, 0)]

        def post(st, ret, ob):
            b, v = M.look(M.was, L["x"])
            ob(zi(ex.load(st, M.env.mod, ("i", 64), ret)) == z3.If(b, v, L["d"]), "the result is what the name is bound to, or the default")
            kept(M, L, st, ob)
        return args, post
    a("m_lookup_or", "symbol_map::lookup with a default", lookup_or)

    def contains(M, L, ex):
        def post(st, ret, ob):
            ob((zi(ret) != 0 if not z3.is_bool(ret) and not isinstance(ret, bool) else z3.BoolVal(ret) if isinstance(ret, bool) else ret) == M.look(M.was, L["x"])[0], "true iff the name is bound")
            kept(M, L, st, ob)
        return (lambda st: [L["map"], L["x"]]), post
    a("m_contains", "symbol_map::contains", contains)

    def ref(M, L, ex):
        def post(st, ret, ob):
            now = M.now(st)
            r = st.cells(M.m)[(0, 8)].region
            ob(z3.And(isinstance(ret, X.Ptr) and ret.region is r), "the result is in the table")
            ob(zi(ret.off) == 16 * L["x"], "the result is the element of the name")
            ob(L["x"] < now[2], "the element exists")
            kept(M, L, st, ob)
        return (lambda st: [L["map"], L["x"]]), post
    a("m_ref", "symbol_map::operator[]", ref)

    def erase(M, L, ex):
        def post(st, ret, ob):
            ob(z3.Not(M.look(M.now(st), L["x"])[0]), "the name is not bound any more")
            others(M, L, st, ob)
        return (lambda st: [L["map"], L["x"]]), post
    a("m_erase", "symbol_map::erase", erase)

    def reserve(M, L, ex):
        def args(st):
            n = M.env.int(st, "n")
            st.assume(z3.And(n >= 0, n < BIG))
            return [L["map"], n]
        return args, lambda st, ret, ob: kept(M, L, st, ob)
    a("m_reserve", "symbol_map::reserve", reserve)

    def new(M, L, ex):
        def args(st):
            n = M.env.int(st, "n")
            st.assume(z3.And(n >= 0, n < BIG))
            return [out(st, 24), n]

        def post(st, ret, ob):
            ob(z3.Not(M.look(M.now(st), L["x"])[0]), "no name is bound")
        return args, post
    a("m_new", "symbol_map(size)", new)

    # --- scopes ---
    def state(M, st, p, L, ex):
        return ex.load(st, M.env.mod, ("ptr",), p), zi(ex.load(st, M.env.mod, ("i", 64), ex.addoff(p, 8))), M.read(st, ex.addoff(p, 16))

    def null(ex, p):
        return zi(ex.address(p)) == 0 if not (isinstance(p, X.Ptr) and p.region is not ex.flat) else z3.BoolVal(False)

    def active(M, L, st, ob, ex, p, old, what="the scope"):
        c, s, o = state(M, st, p, L, ex)
        ob(isinstance(c, X.Ptr) and c.region is M.m, what + " is of the table")
        ob(s == L["x"], what + " is of the name")
        ob(same(o, old), what + " keeps what the name was bound to")

    def enter(kind):
        def body(M, L, ex):
            def args(st):
                L["out"] = out(st, 32)
                l = [L["out"], L["map"], L["x"]]
                L["new"] = None
                if kind == "value":
                    L["v"] = M.env.int(st, "value")
                    L["new"] = (z3.BoolVal(True), L["v"])
                    l.append(L["v"])
                elif kind == "optional":
                    p, L["new"] = M.optional(st, "value")
                    l.append(p)
                elif kind == "none":
                    L["new"] = NONE
                return l

            def post(st, ret, ob):
                active(M, L, st, ob, ex, L["out"], M.look(M.was, L["x"]))
                now = M.now(st)
                if L["new"] is not None:
                    ob(same(M.look(now, L["x"]), L["new"]), "the name is bound to the value")
                ob(L["x"] < now[2], "the table has the name")
                others(M, L, st, ob)
            return args, post
        return body
    a("s_enter", "scoped_value_in_symbol_map(map, name)", enter(None))
    a("s_enter_value", "scoped_value_in_symbol_map(map, name, value)", enter("value"))
    a("s_enter_optional", "scoped_value_in_symbol_map(map, name, optional)", enter("optional"))
    a("s_set_value", "set_value_in_scope(map, name, value)", enter("value"))
    a("s_set_optional", "set_value_in_scope(map, name, optional)", enter("optional"))
    a("s_set_none", "set_value_in_scope(map, name, nullopt)", enter("none"))

    def scope_of(M, L, st, name, on=True):
        r = X.Region(name, 32)
        p, o = M.optional(st, name)
        c = st.cells(p.region)
        st.mem[r] = {(0, 8): X.Ptr(M.m, 0) if on else 0, (8, 8): L["x"] if on else M.env.int(st, name + "_sym"), (16, 8): c[(0, 8)], (24, 8): c[(8, 8)]}
        return X.Ptr(r, 0), o

    def leave(on):
        def body(M, L, ex):
            def args(st):
                L["s"], L["old"] = scope_of(M, L, st, "scope", on)
                return [L["s"]]

            def post(st, ret, ob):
                if on:
                    ob(same(M.look(M.now(st), L["x"]), L["old"]), "the name is bound to what it was before the scope")
                    others(M, L, st, ob)
                else:
                    kept(M, L, st, ob)
                if "exit" in L:
                    ob(null(ex, ex.load(st, M.env.mod, ("ptr",), L["s"])), "the scope has ended")
            return args, post
        return body

    def leave_exit(on):
        def body(M, L, ex):
            L["exit"] = True
            return leave(on)(M, L, ex)
        return body
    a("s_exit", "exit_scope", leave_exit(True))
    a("s_exit", "exit_scope again", leave_exit(False))
    a("s_dtor", "~scoped_value_in_symbol_map", leave(True))
    a("s_dtor", "~scoped_value_in_symbol_map of a scope that ended", leave(False))

    def move(on):
        def body(M, L, ex):
            def args(st):
                L["o"], L["old"] = scope_of(M, L, st, "scope", on)
                L["out"] = out(st, 32)
                return [L["out"], L["o"]]

            def post(st, ret, ob):
                if on:
                    active(M, L, st, ob, ex, L["out"], L["old"])
                else:
                    ob(null(ex, ex.load(st, M.env.mod, ("ptr",), L["out"])), "the scope that was moved has ended")
                ob(null(ex, ex.load(st, M.env.mod, ("ptr",), L["o"])), "a scope that was moved from does not end anything")
                kept(M, L, st, ob)
            return args, post
        return body
    a("s_move", "scoped_value_in_symbol_map(&&)", move(True))
    a("s_move", "scoped_value_in_symbol_map(&&) of a scope that ended", move(False))

    def assign(M, L, ex):
        def args(st):
            L["o"], L["old"] = scope_of(M, L, st, "scope", True)
            L["a"], _ = scope_of(M, L, st, "ended", False)
            return [L["a"], L["o"]]

        def post(st, ret, ob):
            active(M, L, st, ob, ex, L["a"], L["old"])
            ob(null(ex, ex.load(st, M.env.mod, ("ptr",), L["o"])), "a scope that was moved from does not end anything")
            kept(M, L, st, ob)
        return args, post
    a("s_assign", "scoped_value_in_symbol_map = && of a scope that ended", assign)

    def old(M, L, ex):
        def args(st):
            L["s"], L["old"] = scope_of(M, L, st, "scope", True)
            L["out"] = out(st)
            return [L["out"], L["s"]]

        def post(st, ret, ob):
            ob(same(M.read(st, L["out"]), L["old"]), "the result is what the name was bound to")
            kept(M, L, st, ob)
        return args, post
    a("s_old", "old_value", old)
    return [s for s in l if s is not None]



def scope_size(mod, info):
    """The size of a scope of this type of values, from an access to one."""
    import re as R
    for n, f in mod.functions.items():
        d = mod.demangled.get(n, n)
        if not R.match(r"slinky::scoped_value_in_symbol_map<.*%s>::" % info, d) or not f.blocks:
            continue
        for b in f.blocks.values():
            for i in b:
                if i.op == "getelementptr" and i.a[0] == ("local", f.params[0][1] if isinstance(f.params[0], tuple) else None):
                    return mod.size(i.ty)
                if i.op == "getelementptr" and "scoped_value_in_symbol_map" in str(i.ty):
                    return mod.size(i.ty)
    raise X.Undecided("no access to a scope was found")


def ordered(mod, sym, name):
    """What was learned from conditions is forgotten in the reverse order in which it was learned: a scope ends when all that began later have ended."""
    if not has(mod, sym):
        return None
    sizes = {k: scope_size(mod, v) for k, v in (("vk", "expr_info"), ("bk", "buffer_info"))}

    def body(env, ex):
        reg = {}
        live = X.Region("live", 64)

        def which(p):
            for j, k in enumerate(("vk", "bk")):
                if isinstance(p, X.Ptr) and p.region is reg[k]:
                    return j, k
            raise X.Undecided("a scope that is elsewhere")

        def ends(ex, st, v, i):
            j, k = which(v[0])
            n, f = ex.array_index(st, v[0].region, v[0].off)
            l = st.cells(live)[(8 * j, 8)]
            ex.oblige(st, z3.And(f == 0, zi(n) == l - 1, l >= 1), "a scope ends after all that began later")
            ex.put(st, live, 8 * j, 8, l - 1)
            return None

        def range_ends(ex, st, v, i):
            j, k = which(v[0])
            if which(v[1]) != (j, k):
                raise X.Undecided("a range of scopes")
            a, f = ex.array_index(st, v[0].region, v[0].off)
            b, g = ex.array_index(st, v[1].region, v[1].off)
            l = st.cells(live)[(8 * j, 8)]
            ex.oblige(st, z3.And(f == 0, g == 0, zi(a) <= zi(b), zi(b) - zi(a) <= 1), "scopes that are destroyed from first to last are at most one")
            ex.oblige(st, z3.Or(zi(a) == zi(b), zi(b) == l), "a scope ends after all that began later")
            ex.put(st, live, 8 * j, 8, l - (zi(b) - zi(a)))
            return None
        T = r"slinky::scoped_value_in_symbol_map<slinky::.*::(expr|buffer)_info>"
        ex.contract(T + r"::~scoped_value_in_symbol_map\(\)", ends)
        ex.contract(r"(void )?std::_Destroy<%s ?\*(, .*)?>\(.*\)" % T, range_ends)
        ex.contract(r"std::_Vector_base<%s.*::~_Vector_base\(\)" % T, lambda ex, st, v, i: None)
        ex.contract(r"std::vector<std::pair<.*::(~vector|clear)\(\)", lambda ex, st, v, i: None)

        def cand(ex, st, fn, head, entry):
            l = []
            for j, k in enumerate(("vk", "bk")):
                def inv(ex, s, vs, j=j, k=k):
                    e = s.cells(k_reg)[(24 * j + 8, 8)]
                    n = s.cells(live)[(8 * j, 8)]
                    return z3.And(n >= 0, zi(e.off) == sizes[k] * n)
                l.append(("the scopes of %s that are left are at the front" % k, inv))
                l.append(("none of %s is left" % k, lambda ex, s, vs, j=j: s.cells(live)[(8 * j, 8)] == 0))
            return l
        ex.loop_candidates[r"knowledge"] = cand
        k_reg = X.Region("knowledge", 256)

        def setup(st):
            st.mem[k_reg], st.mem[live] = {}, {}
            for j, k in enumerate(("vk", "bk")):
                reg[k] = X.Region(k, None, "array", sizes[k])
                st.mem[reg[k]] = {}
                n = env.int(st, "learned_" + k)
                st.assume(z3.And(n >= 0, n < BIG))
                for o, c in ((0, 0), (8, n), (16, n)):
                    st.mem[k_reg][(24 * j + o, 8)] = X.Ptr(reg[k], sizes[k] * c)
                st.mem[live][(8 * j, 8)] = n
            return [X.Ptr(k_reg, 0)]

        def fin(st, ret):
            for j in range(2):
                ex.oblige(st, st.cells(live)[(8 * j, 8)] == 0, "all scopes have ended", assume=False)
        return setup, fin
    return spec(name, mod, sym, body, ("learn",))


def learning(mod):
    K = r"slinky::\(anonymous namespace\)::simplifier::knowledge::"
    l = [ordered(mod, K + r"exit_scope\(\)", "simplifier::knowledge::exit_scope"), ordered(mod, K + r"~knowledge\(\)", "simplifier::~knowledge")]
    return [s for s in l if s is not None]


def lemma_obligations():
    """Over the contracts: any run of nested scopes restores every name they bind, and no other name is changed by a scope itself. look is a function
    of the name; a body of a scope is any transition that has the property for the names that it does not change outside of scopes (induction)."""
    from . import nodes as N
    look = [z3.Array("look%d" % k, Z, Z) for k in range(5)]     # -1 - v codes: the binding (0: none)
    x, y, z, v, w = z3.Ints("x y z v w")
    out = []

    def lemma(name, hyp, goal):
        out.append((name, hyp, goal))
    # entering, a body that keeps z, leaving
    enter = look[1] == z3.Store(look[0], x, v)
    body = z3.Implies(z != x, look[2][z] == look[1][z])
    leave = look[3] == z3.Store(look[2], x, look[0][x])
    lemma("a scope restores its name, and every name that its body restores", [enter, body, leave], look[3][z] == look[0][z])
    # two scopes that nest, of the same name or not, in any body
    e2 = look[2] == z3.Store(look[1], y, w)
    l2 = look[3] == z3.Store(look[2], y, look[1][y])
    l1 = look[4] == z3.Store(look[3], x, look[0][x])
    lemma("scopes that nest restore their names", [enter, e2, l2, l1], look[4][z] == look[0][z])
    return out


def erased(mod, sym, name):
    """deshadower::exit_decls(n): the last n scopes end, in the reverse order."""
    if not has(mod, sym):
        return None
    size = scope_size(mod, r"slinky::var")

    def body(env, ex):
        live, obj = X.Region("live", 64), X.Region("deshadower", None)
        reg = X.Region("decls", None, "array", size)
        L = {}

        def ends(ex, st, v, i):
            if not isinstance(v[0], X.Ptr) or v[0].region is not reg:
                raise X.Undecided("a scope that is elsewhere")
            n, f = ex.array_index(st, reg, v[0].off)
            l = st.cells(live)[(0, 8)]
            ex.oblige(st, z3.And(f == 0, zi(n) == l - 1, l >= 1), "a scope ends after all that began later")
            ex.put(st, live, 0, 8, l - 1)
            return None
        T = r"slinky::scoped_value_in_symbol_map<slinky::var>"

        def range_ends(ex, st, v, i):
            if not all(isinstance(x, X.Ptr) and x.region is reg for x in v[:2]):
                raise X.Undecided("a range of scopes")
            (a, f), (b, g) = (ex.array_index(st, reg, x.off) for x in v[:2])
            l = st.cells(live)[(0, 8)]
            ex.oblige(st, z3.And(f == 0, g == 0, zi(a) <= zi(b), zi(b) - zi(a) <= 1), "scopes that are destroyed from first to last are at most one")
            ex.oblige(st, z3.Or(zi(a) == zi(b), zi(b) == l), "a scope ends after all that began later")
            ex.put(st, live, 0, 8, l - (zi(b) - zi(a)))
            return None
        ex.contract(T + r"::~scoped_value_in_symbol_map\(\)", ends)
        ex.contract(r"(void )?std::_Destroy<%s ?\*(, .*)?>\(.*\)" % T, range_ends)

        def cand(ex, st, fn, head, entry):
            ints = [k for k in entry if not k.startswith("*") and not isinstance(entry[k], (X.Ptr, X.NodePtr)) and entry[k] is not None]

            def front(ex, s, vs):
                e = s.cells(obj)[(L["off"] + 8, 8)]
                n = s.cells(live)[(0, 8)]
                return z3.And(n >= 0, zi(e.off) == size * n)
            l = [("the scopes that are left are at the front", front)]
            for k in ints:
                l.append(("%s scopes are to end" % k, lambda ex, s, vs, k=k: z3.And(zi(vs[k]) >= 0, s.cells(live)[(0, 8)] - zi(vs[k]) == L["live"] - L["n"])))
                l.append(("%s scopes have ended" % k, lambda ex, s, vs, k=k: z3.And(zi(vs[k]) >= 0, zi(vs[k]) <= L["n"], s.cells(live)[(0, 8)] == L["live"] - zi(vs[k]))))
            l.append(("as many as are to end are there", lambda ex, s, vs: s.cells(live)[(0, 8)] >= L["live"] - L["n"]))
            return l
        ex.loop_candidates[r"exit_decls"] = cand

        def setup(st):
            st.mem[obj], st.mem[live], st.mem[reg] = {}, {}, {}
            n, k = env.int(st, "scopes"), env.int(st, "n")
            st.assume(z3.And(n >= 0, n < BIG, k >= 0, k <= n, k < 2 ** 31))
            L["live"], L["n"] = n, k
            L["off"] = offset(mod)
            for o, c in ((0, 0), (8, n), (16, n)):
                st.mem[obj][(L["off"] + o, 8)] = X.Ptr(reg, size * c)
            st.mem[live][(0, 8)] = n
            return [X.Ptr(obj, 0), k]

        def fin(st, ret):
            ex.oblige(st, st.cells(live)[(0, 8)] == L["live"] - L["n"], "n scopes have ended", assume=False)
        return setup, fin
    return spec(name, mod, sym, body, ("deshadow",))


def deshadowing(mod):
    s = erased(mod, r"slinky::\(anonymous namespace\)::deshadower::exit_decls\(int\)", "deshadower::exit_decls")
    return [s] if s is not None else []


def offset(mod):
    """Of decls in deshadower: the last member."""
    t = next(n for n in mod.raw_types if n.endswith("deshadower") or n.endswith("deshadower\""))
    return mod.layout(("named", t))[2][-1]
