"""Symbolic executor that generates verification conditions from LLVM IR, function by function.

Machine integers are mathematical integers (z3 Int) in the signed range of their width; every signed operation carries an
obligation that it does not overflow (nsw), wrapping operations wrap. A call to a function with a contract uses the contract;
a call to another function with a body in the loaded modules is executed (inlined); any other call makes the path undecided.
Loops are cut at their header by an invariant when the function's spec has one for them (inferred from candidates, each
of which must hold initially and be preserved: failing candidates are dropped), and otherwise unrolled up to a limit; a path
that exceeds the limit is undecided.
"""
import itertools, re, time
import z3
from . import ir

I64MIN, I64MAX = -2**63, 2**63 - 1


class Undecided(Exception):
    pass


class Ptr:
    __slots__ = ("region", "off")

    def __init__(self, region, off=0):
        self.region, self.off = region, off

    def __repr__(self):
        return "&%s+%s" % (self.region.name, self.off)


class NodePtr:
    """A pointer to an immutable heap node, identified by an integer term; 0 is null."""
    __slots__ = ("id", "off")

    def __init__(self, id, off=0):
        self.id, self.off = id, off

    def __repr__(self):
        return "node(%s)+%s" % (self.id, self.off)


NULL = NodePtr(0, 0)


I0 = z3.IntVal(0)


class FnPtr:
    __slots__ = ("name", "mod")

    def __init__(self, name, mod):
        self.name, self.mod = name, mod


class PtrInt:
    """ptrtoint of a pointer (plus an integer)."""
    __slots__ = ("ptr", "add")

    def __init__(self, ptr, add=0):
        self.ptr, self.add = ptr, add


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Pack:
    """Several cells moved as one integer (possibly with padding between them)."""
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells


class Region:
    count = itertools.count()

    def __init__(self, name, size=None, kind="struct", elem=None, lazy=None, null=False, const=False):
        self.id = next(Region.count)
        self.name, self.size, self.kind, self.elem, self.lazy, self.null, self.const = name, size, kind, elem, lazy, null, const

    def __repr__(self):
        return "<%s>" % self.name


# --- integers --------------------------------------------------------------------------------------------------------
def isc(x):
    return isinstance(x, (int, bool))


def conc(x):
    """A python int if the term is a literal."""
    if isc(x):
        return x
    if isinstance(x, z3.ArithRef):
        if z3.is_int_value(x):
            return x.as_long()
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
    elif isinstance(x, z3.BoolRef):
        s = z3.simplify(x)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return x


def zi(x):
    return z3.IntVal(int(x)) if isc(x) else x


def zb(x):
    return z3.BoolVal(bool(x)) if isc(x) else x


def not_(b):
    if isc(b):
        return not b
    return b.arg(0) if z3.is_not(b) else z3.Not(b)


def and_(*l):
    l = [x for x in l if not (isc(x) and x)]
    if any(isc(x) for x in l):
        return False
    return True if not l else l[0] if len(l) == 1 else z3.And(*l)


def or_(*l):
    l = [x for x in l if not (isc(x) and not x)]
    if any(isc(x) for x in l):
        return True
    return False if not l else l[0] if len(l) == 1 else z3.Or(*l)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isc(c):
        return a if c else b
    if isc(a) and isc(b) and a == b:
        return a
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, zi(a), zi(b))


def b2i(b, one=1):
    if isc(b):
        return one if b else 0
    return z3.If(b, z3.IntVal(one), z3.IntVal(0))


def lo(w):
    return -(1 << (w - 1))


def hi(w):
    return (1 << (w - 1)) - 1


def inr(x, w=64):
    if isc(x):
        return lo(w) <= x <= hi(w)
    return z3.And(x >= lo(w), x <= hi(w))


def wrapc(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


class Frame:
    __slots__ = ("fn", "block", "idx", "env", "prev", "res", "visits", "cuts", "on_ret")

    def copy(self):
        f = Frame()
        f.fn, f.block, f.idx, f.env, f.prev, f.res = self.fn, self.block, self.idx, dict(self.env), self.prev, self.res
        f.visits, f.cuts, f.on_ret = dict(self.visits), dict(self.cuts), self.on_ret
        return f


class Inline:
    """Returned by a contract: the body of the function is to be executed, with these arguments; on_ret(ex, st, value) is called when it returns."""
    def __init__(self, args, on_ret=None, fn=None):
        self.args, self.on_ret, self.fn = args, on_ret, fn


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = None       # linked list (parent, cond, depth)
        self.ghost = {}
        self.shared = set()  # regions whose dict is shared with another state
        self.divs = ()       # (a, b, q, r) for lemma instantiation
        self.writes = None   # when recording: set of (region, key)

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.shared = set(self.mem)
        s.shared = set(self.mem)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.divs = self.divs
        s.writes = self.writes
        return s

    def cells(self, r):
        return self.mem.get(r, {})

    def wcells(self, r):
        d = self.mem.get(r)
        if d is None:
            d = {}
            self.mem[r] = d
        elif r in self.shared:
            d = dict(d)
            self.mem[r] = d
        self.shared.discard(r)
        return d

    def assume(self, c):
        if isc(c):
            if not c:
                self.pc = (self.pc, z3.BoolVal(False), (self.pc[2] + 1) if self.pc else 1)
            return
        self.pc = (self.pc, c, (self.pc[2] + 1) if self.pc else 1)

    def conds(self):
        l, p = [], self.pc
        while p is not None:
            l.append(p[1])
            p = p[0]
        l.reverse()
        return l


class Result:
    """One obligation instance."""
    __slots__ = ("name", "fn", "result", "backend", "seconds", "model", "info")

    def __init__(self, name, fn, result, backend, seconds, model=None, info=""):
        self.name, self.fn, self.result, self.backend, self.seconds, self.model, self.info = name, fn, result, backend, seconds, model, info


class Executor:
    def __init__(self, modules, timeout=4.0, unroll=12, max_paths=4000, deadline=None):
        self.modules = modules
        self.fns = {}
        for m in modules:
            for n, f in m.functions.items():
                self.fns.setdefault(n, f)
        self.contracts = []          # (compiled regex, function)
        self.ccache = {}
        self.results = []
        self.undecided = []
        self.timeout = timeout
        self.unroll = unroll
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set("timeout", 300)
        self.stack = []
        self.fresh_n = itertools.count()
        self.globals = {}
        self.dry = 0
        self.paths = 0
        self.post = None
        self.cur = ""
        self.inputs = {}
        self.node_load = None
        self.node_cmp = None
        self.loop_candidates = {}    # demangled regex -> candidate generator
        self.mask = None             # bit operations on values with known masks
        self.inlined = set()
        self.contracted = set()
        self.steps = 0
        self.max_steps = 4000000
        self.overflow_obligations = True
        self.prover = None
        self.reached = set()
        self.failed_names = {}
        self.want_all = False

    # --- helpers -----------------------------------------------------------------------------------------------------
    def fresh(self, n="v"):
        return z3.Int("%s!%d" % (n, next(self.fresh_n)))

    def freshb(self, n="b"):
        return z3.Bool("%s!%d" % (n, next(self.fresh_n)))

    def fresh_int(self, st, w=64, n="v"):
        if w == 1:
            return self.freshb(n)
        v = self.fresh(n)
        st.assume(inr(v, w))
        return v

    def demangle(self, mod, n):
        return mod.demangled.get(n, n)

    def sync(self, pc):
        chain, p = [], pc
        while p is not None:
            chain.append(p)
            p = p[0]
        chain.reverse()
        k = 0
        while k < len(self.stack) and k < len(chain) and self.stack[k] is chain[k]:
            k += 1
        if len(self.stack) > k:
            self.solver.pop(len(self.stack) - k)
            del self.stack[k:]
        for c in chain[k:]:
            self.solver.push()
            self.solver.add(c[1])
            self.stack.append(c)

    def sat(self, st, c):
        """'sat', 'unsat' or 'unknown' for pc & c."""
        if isc(c):
            if not c:
                return "unsat"
        self.sync(st.pc)
        self.solver.push()
        if not isc(c):
            self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return str(r)

    def must(self, st, c):
        if isc(c):
            return bool(c)
        return self.sat(st, z3.Not(c)) == "unsat"

    def oblige(self, st, c, name, assume=True):
        """Records the obligation pc => c; the path continues under c."""
        c = conc(c)
        if self.dry:
            if assume:
                st.assume(c)
            return
        if isc(c) and c:
            self.results.append(Result(name, self.cur, "unsat", "trivial", 0.0))
            return
        t = time.time()
        r, m, be = self.discharge(st, c, name)
        if r == "sat" and st.ghost.get("imprecise"):
            r, m = "unknown", None      # a question about the path had no answer: facts may be missing
        dt = time.time() - t
        self.results.append(Result(name, self.cur, r, be, dt, m, ""))
        if r == "sat":
            self.on_fail(st, name, m)
        if assume:
            st.assume(c)

    def discharge(self, st, c, name):
        neg = z3.Not(zb(c))
        self.sync(st.pc)
        self.solver.push()
        self.solver.add(neg)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            return "unsat", None, "z3"
        if r == z3.sat:
            return "sat", m, "z3"
        if self.failed_names.get(name, 0) >= 3:
            return "unknown", None, ""
        hyps = st.conds()
        s = z3.Solver()
        s.set("timeout", int(self.timeout * 1000))
        s.add(*hyps)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None, "z3"
        if r == z3.sat:
            return "sat", s.model(), "z3"
        if self.prover is not None:
            r, be, m = self.prover(hyps, zb(c), st)
            if r == "unknown":
                self.failed_names[name] = self.failed_names.get(name, 0) + 1
            return r, m, be
        self.failed_names[name] = self.failed_names.get(name, 0) + 1
        return "unknown", None, ""

    def on_fail(self, st, name, model):
        pass

    def undecide(self, why):
        if not self.dry:
            self.undecided.append("%s: %s" % (self.cur, why))

    # --- operands ----------------------------------------------------------------------------------------------------
    alloca_elem = None   # the size of the elements of a local array of a given size
    flat = None          # region of the memory that is reached through addresses kept as integers

    def intptr(self, v):
        """The pointer of an address kept as an integer."""
        if self.flat is not None and not (isc(v) and v == 0):
            return Ptr(self.flat, conc(v))
        return NodePtr(v)

    def address(self, p):
        """The address of a pointer as an integer."""
        if isinstance(p, PtrInt):
            return conc(self.address(p.ptr) + p.add)
        if isinstance(p, NodePtr):
            return conc(zi(p.id) + p.off)
        if isinstance(p, Ptr):
            if p.region is self.flat:
                return p.off
            if not hasattr(p.region, "addr"):
                p.region.addr = self.fresh("address")
            return conc(p.region.addr + p.off)
        if isinstance(p, (int, z3.ArithRef)):
            return p
        raise Undecided("address of " + repr(p))

    def const(self, mod, ty, v):
        k = v[0]
        if k == "int":
            if ty == ("i", 1):
                return bool(v[1])
            return wrapc(v[1], ty[1]) if ty[0] == "i" else v[1]
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef(mod, ty)
        if k == "zero":
            r = mod.resolve(ty)
            if r[0] == "i":
                return False if r[1] == 1 else 0
            if r[0] == "ptr":
                return NULL
            if r[0] == "struct":
                return Agg([self.const(mod, t, v) for t in r[1]])
            if r[0] == "arr":
                return Agg([self.const(mod, r[2], v) for _ in range(r[1])])
            raise Undecided("zero of " + str(ty))
        if k == "global":
            return self.global_ptr(mod, v[1])
        if k == "gep":
            base = self.const(mod, ("ptr",), v[2])
            return self.gep(mod, v[1], base, [(t, self.const(mod, t, x)) for t, x in v[3]])
        if k == "agg":
            return Agg([self.const(mod, t, x) for t, x in v[1]])
        if k == "cast":
            x = self.const(mod, v[2], v[3])
            if v[1] == "ptrtoint":
                return PtrInt(x)
            return x
        if k == "str":
            return Agg(list(v[1]))
        raise Undecided("constant " + str(v))

    def undef(self, mod, ty):
        r = mod.resolve(ty)
        if r[0] == "i":
            return self.freshb("undef") if r[1] == 1 else self.fresh("undef")
        if r[0] == "ptr":
            return NodePtr(self.fresh("undefptr"))
        if r[0] == "struct":
            return Agg([self.undef(mod, t) for t in r[1]])
        if r[0] == "arr":
            return Agg([self.undef(mod, r[2]) for _ in range(r[1])])
        raise Undecided("undef of " + str(ty))

    def global_ptr(self, mod, n):
        if n in self.fns or n in mod.functions or n in mod.declared:
            return FnPtr(n, mod)
        m = mod
        init = mod.global_init(n)
        if init is None or init[1] is None:
            for o in self.modules:
                i2 = o.global_init(n) if n in o.raw_globals else None
                if i2 is not None and i2[1] is not None:
                    m, init = o, i2
                    break
        d = mod.raw_globals.get(n, "")
        internal = d.startswith("internal") or d.startswith("private")
        key = (mod.name, n) if internal else n
        if key not in self.globals:
            r = Region("global " + n, kind="struct")
            r.init = (m, init) if init is not None and init[1] is not None and init[2] else None
            r.gname = n
            r.const = init is not None and init[2]
            self.globals[key] = r
        return Ptr(self.globals[key], 0)

    def val(self, st, ty, v):
        if v[0] == "local":
            e = st.frames[-1].env
            if v[1] not in e:
                raise Undecided("use of undefined " + v[1])
            return e[v[1]]
        return self.const(st.frames[-1].fn.mod, ty, v)

    # --- memory ------------------------------------------------------------------------------------------------------
    def addoff(self, p, d):
        if isc(d) and d == 0:
            return p
        if isinstance(p, NodePtr):
            if not isc(d):
                raise Undecided("symbolic offset in a node")
            return NodePtr(p.id, p.off + d)
        if isinstance(p, Ptr):
            return Ptr(p.region, conc(p.off + d))
        raise Undecided("address arithmetic on " + repr(p))

    def gep(self, mod, ty, base, idx):
        t, v = idx[0]
        off = self.scale(v, mod.size(ty))
        cur = ty
        for t, v in idx[1:]:
            r = mod.resolve(cur)
            if r[0] == "struct":
                off = off + mod.layout(cur)[2][v]
                cur = r[1][v]
            elif r[0] in ("arr", "vec"):
                off = off + self.scale(v, mod.size(r[2]))
                cur = r[2]
            else:
                raise Undecided("gep into " + str(r))
        return self.addoff(base, conc(off))

    def scale(self, v, s):
        if isinstance(v, PtrInt):
            raise Undecided("pointer as index")
        return v * s

    def array_index(self, st, r, off):
        """(index, field offset) of a byte offset into an array region."""
        if isc(off):
            return off // r.elem, off % r.elem
        off = z3.simplify(off, som=True)
        # linear in terms with coefficients divisible by the element size
        const, terms = 0, []
        parts = off.children() if z3.is_add(off) else [off]
        for p in parts:
            if z3.is_int_value(p):
                const += p.as_long()
            elif z3.is_mul(p) and z3.is_int_value(p.arg(0)):
                c = p.arg(0).as_long()
                rest = p.children()[1:]
                t = rest[0]
                for x in rest[1:]:
                    t = t * x
                if c % r.elem:
                    raise Undecided("offset %s is not a multiple of the element size" % off)
                terms.append(c // r.elem * t)
            else:
                if r.elem != 1:
                    raise Undecided("offset %s is not a multiple of the element size" % off)
                terms.append(p)
        i = z3.IntVal(const // r.elem)
        for t in terms:
            i = i + t
        return z3.simplify(i), const % r.elem

    def load(self, st, mod, ty, p):
        if isinstance(p, NodePtr):
            if conc(p.id) is not p.id and conc(p.id) == 0:
                self.oblige(st, False, "no null pointer is dereferenced")
                raise Undecided("null dereference")
            if self.node_load is None:
                raise Undecided("load from a node")
            return self.node_load(st, mod, p, ty)
        if not isinstance(p, Ptr):
            raise Undecided("load from " + repr(p))
        r = mod.resolve(ty)
        if r[0] == "struct":
            offs = mod.layout(ty)[2]
            return Agg([self.load(st, mod, t, self.addoff(p, o)) for t, o in zip(r[1], offs)])
        if r[0] == "arr":
            s = mod.size(r[2])
            return Agg([self.load(st, mod, r[2], self.addoff(p, i * s)) for i in range(r[1])])
        size = mod.size(ty)
        reg = p.region
        if reg.kind == "array":
            i, f = self.array_index(st, reg, p.off)
            return self.array_load(st, reg, i, f, size, r)
        off = conc(p.off)
        if not isc(off):
            off = self.enumerate_offset(st, off, reg)
        return self.struct_load(st, mod, reg, off, size, r)

    def enumerate_offset(self, st, off, reg):
        """A symbolic offset that can only have one value."""
        self.sync(st.pc)
        if self.solver.check() == z3.sat:
            v = self.solver.model().eval(off, model_completion=True).as_long()
            if self.must(st, off == v):
                return v
        raise Undecided("symbolic offset into %s" % reg.name)

    def array_term(self, st, reg, f, size):
        d = st.cells(reg)
        k = (f, size)
        if k[1] != 8 and (reg is self.flat or getattr(reg, "raw", False)):
            raise Undecided("access of %d bytes in raw memory" % size)
        if reg is not self.flat and k not in d and getattr(reg, "dead", None) is not None and reg.dead(st):
            self.oblige(st, False, "no memory is used after it is released")
            raise Undecided("use of released memory")
        if k not in d:
            a = z3.Array("%s.%d.%d" % (reg.name, reg.id, f), z3.IntSort(), z3.IntSort())
            st.wcells(reg)[k] = a
            return a
        return d[k]

    def pack_word(self, st, v):
        """The word that is made of the bytes of a pack; those that are missing are padding."""
        t, hole = I0, [True] * 8
        for o, n, x in v.cells:
            if isinstance(x, (bool, z3.BoolRef)):
                x = b2i(x)
            if not isinstance(x, (int, z3.ArithRef)):
                raise Undecided("store of a pointer in an array")
            t = t + (zi(x) % (1 << (8 * n))) * (1 << (8 * o))
            hole[o:o + n] = [False] * n
        for o in range(8):
            if hole[o]:
                y = self.fresh("padding")
                st.assume(z3.And(y >= 0, y < 256))
                t = t + y * (1 << (8 * o))
        t = z3.simplify(t)
        return z3.If(t >= 1 << 63, t - (1 << 64), t)

    def array_load(self, st, reg, i, f, size, r):
        if size < 8 and getattr(reg, "words", False):
            v = self.array_load(st, reg, i, f - f % 8, 8, ("i", 64))
            m = (zi(v) / (1 << (8 * (f % 8)))) % (1 << (8 * size))
            return z3.simplify(z3.If(m >= 1 << (8 * size - 1), m - (1 << (8 * size)), m)) if r != ("i", 1) else m % 2 == 1
        a = self.array_term(st, reg, f, size)
        if getattr(reg, "on_access", None):
            reg.on_access(self, st, i, f, size)
        v = z3.Select(a, zi(i))
        v = z3.simplify(v) if not z3.is_const(a) else v
        if r[0] == "i":
            w = r[1] if r[1] > 1 else 8
            c = conc(v)
            if isc(c):
                return c
            st.assume(inr(v, w))
            return v
        if r[0] == "ptr":
            return self.intptr(v) if reg is self.flat or getattr(reg, "raw", False) else NodePtr(v)
        raise Undecided("array element of type " + str(r))

    def struct_load(self, st, mod, reg, off, size, r):
        d = st.cells(reg)
        k = (off, size)
        if k in d:
            return self.reinterpret(d[k], r)
        init = getattr(reg, "init", None)
        if init is not None:
            return self.global_load(init, off, size, r)
        # other cells that overlap
        ov = sorted(c for c in d if isinstance(c[0], int) and c[0] < off + size and off < c[0] + c[1])
        if ov:
            if r[0] == "i" and len(ov) == 1 and ov[0][0] <= off and off + size <= ov[0][0] + ov[0][1]:
                v = d[ov[0]]
                if isinstance(v, (int, z3.ArithRef)):
                    sh = 8 * (off - ov[0][0])
                    if isc(v):
                        return wrapc(v >> sh, 8 * size)
                    x = v / (1 << sh) if sh else v
                    m = x % (1 << (8 * size))
                    return z3.If(m >= 1 << (8 * size - 1), m - (1 << (8 * size)), m)
            if r[0] == "i" and all(off <= c[0] and c[0] + c[1] <= off + size for c in ov):
                return Pack([(c[0] - off, c[1], d[c]) for c in ov])
            raise Undecided("mixed load from %s at %d" % (reg.name, off))
        for z in d.get("zero", ()):
            if z[0] <= off and off + size <= z[1]:
                return NULL if r[0] == "ptr" else 0
        if reg.size is not None and not (0 <= off and off + size <= reg.size):
            self.oblige(st, False, "memory access within %s" % reg.name.split(" ")[0])
            raise Undecided("access outside of %s" % reg.name)
        if reg.lazy is not None:
            v = reg.lazy(self, st, off, size, r)
        elif r[0] == "i":
            v = self.fresh_int(st, r[1], "uninit")
        elif r[0] == "ptr":
            v = NodePtr(self.fresh("uninitptr"))
        else:
            raise Undecided("load of type " + str(r))
        if isinstance(v, (bool, z3.BoolRef)):
            v = b2i(v)
        st.wcells(reg)[k] = v
        return self.reinterpret(v, r)

    def reinterpret(self, v, r):
        if r[0] == "ptr" and isinstance(v, (int,)) and v == 0:
            return NULL
        if r[0] == "ptr" and isinstance(v, PtrInt):
            return v.ptr
        if r[0] == "ptr" and isinstance(v, (int, z3.ArithRef)):
            return self.intptr(v)
        if r[0] == "i" and isinstance(v, (NodePtr, Ptr)):
            if self.flat is not None and (isinstance(v, NodePtr) or v.region is self.flat):
                return self.address(v)
            return PtrInt(v)
        if r == ("i", 1):
            return self.to_bool(v)
        return v

    def global_load(self, init, off, size, r):
        m, (ty, v, _) = init
        while True:
            t = m.resolve(ty)
            if t[0] == "struct":
                offs = m.layout(ty)[2]
                i = max(k for k in range(len(offs)) if offs[k] <= off)
                if v[0] == "zero":
                    ty = t[1][i]
                else:
                    ty, v = v[1][i]
                off -= offs[i]
                continue
            if t[0] == "arr":
                s = m.size(t[2])
                i = off // s
                off -= i * s
                if v[0] == "str":
                    if r[0] == "i" and size == 1:
                        return wrapc(v[1][i], 8)
                    raise Undecided("load from a string")
                if v[0] == "zero":
                    ty = t[2]
                else:
                    ty, v = v[1][i]
                continue
            if off != 0:
                raise Undecided("load inside a constant")
            x = self.const(m, ty, v)
            return self.reinterpret(b2i(x) if isinstance(x, bool) else x, r)

    def store(self, st, mod, ty, v, p):
        if isinstance(p, NodePtr):
            if conc(p.id) is not p.id and conc(p.id) == 0:
                self.oblige(st, False, "no null pointer is dereferenced")
            raise Undecided("store to a node")
        if not isinstance(p, Ptr):
            raise Undecided("store to " + repr(p))
        if p.region.const:
            raise Undecided("store to a constant")
        r = mod.resolve(ty)
        if r[0] == "struct":
            for t, o, x in zip(r[1], mod.layout(ty)[2], v.v):
                self.store(st, mod, t, x, self.addoff(p, o))
            return
        if r[0] == "arr":
            s = mod.size(r[2])
            for i, x in enumerate(v.v):
                self.store(st, mod, r[2], x, self.addoff(p, i * s))
            return
        size = mod.size(ty)
        if isinstance(v, (bool, z3.BoolRef)):
            v = b2i(v)
        reg = p.region
        if reg.kind == "array":
            i, f = self.array_index(st, reg, p.off)
            if isinstance(v, Pack) and size == 8 and getattr(reg, "words", False):
                v = self.pack_word(st, v)
            if size < 8 and getattr(reg, "words", False):
                w = zi(self.array_load(st, reg, i, f - f % 8, 8, ("i", 64)))
                sh = 1 << (8 * (f % 8))
                old = (w / sh) % (1 << (8 * size))
                v = w + (zi(v) % (1 << (8 * size)) - old) * sh
                if f % 8 + size == 8:
                    v = z3.If(v >= 1 << 63, v - (1 << 64), z3.If(v < -(1 << 63), v + (1 << 64), v))
                f, size = f - f % 8, 8
            a = self.array_term(st, reg, f, size)
            if getattr(reg, "on_access", None):
                reg.on_access(self, st, i, f, size)
            if isinstance(v, (NodePtr, Ptr, PtrInt)) and (isinstance(v, NodePtr) or self.flat is not None):
                v = self.address(v)
            if not isinstance(v, (int, z3.ArithRef)):
                raise Undecided("store of a pointer in an array")
            st.wcells(reg)[(f, size)] = z3.Store(a, zi(i), zi(v))
            if st.writes is not None:
                st.writes.add((reg, (f, size)))
            return
        off = conc(p.off)
        if not isc(off):
            off = self.enumerate_offset(st, off, reg)
        if reg.size is not None and not (0 <= off and off + size <= reg.size):
            self.oblige(st, False, "memory access within %s" % reg.name.split(" ")[0])
            raise Undecided("access outside of %s" % reg.name)
        if isinstance(v, Pack):
            d = st.wcells(reg)
            for c in [c for c in d if isinstance(c[0], int) and off <= c[0] and c[0] + c[1] <= off + size]:
                del d[c]
            for o, n, x in v.cells:
                self.put(st, reg, off + o, n, x)
            return
        self.put(st, reg, off, size, v)

    def put(self, st, reg, off, size, v):
        d = st.wcells(reg)
        k = (off, size)
        if k not in d:
            for c in [c for c in d if isinstance(c[0], int) and c[0] < off + size and off < c[0] + c[1]]:
                # keep the parts outside
                x = d.pop(c)
                if isinstance(x, (int, z3.ArithRef)) and c[0] <= off and off + size <= c[0] + c[1]:
                    for o2, e2 in ((c[0], off), (off + size, c[0] + c[1])):
                        if e2 > o2:
                            w = 8 * (e2 - o2)
                            sh = 8 * (o2 - c[0])
                            if isc(x):
                                d[(o2, e2 - o2)] = wrapc(x >> sh, w)
                            else:
                                y = (x / (1 << sh)) % (1 << w)
                                d[(o2, e2 - o2)] = z3.If(y >= 1 << (w - 1), y - (1 << w), y)
        d[k] = v
        if st.writes is not None:
            st.writes.add((reg, k))

    def memcpy(self, st, dst, src, n):
        n = conc(n)
        if not isc(n):
            raise Undecided("memcpy of symbolic size")
        if n == 0:
            return
        if not isinstance(dst, Ptr):
            raise Undecided("memcpy of nodes")
        if isinstance(src, NodePtr):
            if self.node_copy is None:
                raise Undecided("memcpy from a node")
            self.node_copy(st, dst, src, n)
            return
        if dst.region.kind != "struct" or src.region.kind != "struct":
            if dst.region.kind == "array" or src.region.kind == "array":
                return self.array_copy(st, dst, src, n)
            raise Undecided("memcpy of arrays")
        so, do = conc(src.off), conc(dst.off)
        if not isc(so) or not isc(do):
            raise Undecided("memcpy at a symbolic offset")
        if getattr(src.region, "init", None) is not None:
            if n % 8:
                raise Undecided("memcpy from a constant")
            for o in range(0, n, 8):
                self.put(st, dst.region, do + o, 8, self.struct_load(st, self.modules[0], src.region, so + o, 8, ("i", 64)))
            return
        s = st.cells(src.region)
        items = [(c, v) for c, v in s.items() if isinstance(c[0], int) and so <= c[0] and c[0] + c[1] <= so + n]
        zeros = [(max(a, so), min(b, so + n)) for a, b in s.get("zero", ()) if a < so + n and so < b]
        part = [c for c in s if isinstance(c[0], int) and c[0] < so + n and so < c[0] + c[1] and not (so <= c[0] and c[0] + c[1] <= so + n)]
        if part and n % 8 and n > 8 and all(c[0] >= so + n - n % 8 for c in part):
            self.memcpy(st, dst, src, n - n % 8)
            return self.copy_bytes(st, dst, src, n - n % 8, n)
        if part and n < 16:
            return self.copy_bytes(st, dst, src, 0, n)
        if part:
            raise Undecided("memcpy splits a value: %s of %s + %d" % (part, so, n))
        # Unread lazily initialised cells: copy the laziness word by word.
        covered = set()
        for c, _ in items:
            covered.update(range(c[0], c[0] + c[1]))
        for a, b in zeros:
            covered.update(range(a, b))
        if src.region.lazy is not None:
            for o in range(so, so + n, 8):
                if o not in covered and o + 8 <= so + n:
                    t = src.region.lazy(self, st, o, 8, None)
                    st.wcells(src.region)[(o, 8)] = t
                    items.append(((o, 8), t))
        d = st.wcells(dst.region)
        for c in [c for c in d if isinstance(c[0], int) and do <= c[0] and c[0] + c[1] <= do + n]:
            del d[c]
        for c in [c for c in d if isinstance(c[0], int) and c[0] < do + n and do < c[0] + c[1]]:
            raise Undecided("memcpy overlaps a value")
        for c, v in items:
            d[(c[0] - so + do, c[1])] = v
            if st.writes is not None:
                st.writes.add((dst.region, (c[0] - so + do, c[1])))
        if zeros:
            d["zero"] = tuple(d.get("zero", ())) + tuple((a - so + do, b - so + do) for a, b in zeros)

    node_copy = None
    havoc_cell = None
    exact_div = None

    def copy_bytes(self, st, dst, src, a, b):
        m = self.modules[0]
        for o in range(a, b):
            v = self.load(st, m, ("i", 8), self.addoff(src, o))
            self.store(st, m, ("i", 8), v, self.addoff(dst, o))

    def array_copy(self, st, dst, src, n):
        """Copies whole elements (n is a concrete size) between arrays and structs."""
        def fields(p):
            if p.region.kind == "array":
                i, f = self.array_index(st, p.region, p.off)
                return i, f
            return None
        m = self.modules[0]
        for o in range(0, n, 8):
            if o + 8 > n:
                self.copy_bytes(st, dst, src, o, n)
                break
            v = self.load(st, m, ("i", 64), self.addoff(src, o))
            self.store(st, m, ("i", 64), v, self.addoff(dst, o))

    def memset(self, st, dst, v, n):
        n, v = conc(n), conc(v)
        if not (isc(n) and isc(v)) or not isinstance(dst, Ptr) or dst.region.kind != "struct":
            raise Undecided("memset")
        o = conc(dst.off)
        if v != 0:
            for i in range(n):
                self.put(st, dst.region, o + i, 1, v)
            return
        d = st.wcells(dst.region)
        for c in [c for c in d if isinstance(c[0], int) and c[0] < o + n and o < c[0] + c[1]]:
            if not (o <= c[0] and c[0] + c[1] <= o + n):
                raise Undecided("memset splits a value")
            del d[c]
        d["zero"] = tuple(d.get("zero", ())) + ((o, o + n),)
        if st.writes is not None:
            for i in range(o, o + n, 8):
                st.writes.add((dst.region, (i, 8)))

    # --- arithmetic --------------------------------------------------------------------------------------------------
    def to_bool(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        v = conc(v)
        if isc(v):
            return bool(v & 1)
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
            return v.arg(0) if (a, b) == (1, 0) else z3.Not(v.arg(0)) if (a, b) == (0, 1) else bool(a)
        return v % 2 == 1

    def uns(self, x, w):
        if isc(x):
            return x & ((1 << w) - 1)
        return z3.If(x < 0, x + (1 << w), x)

    def wrap(self, st, x, w):
        """Wrap a mathematical result to w bits."""
        x = conc(x)
        if isc(x):
            return wrapc(x, w)
        if self.must(st, inr(x, w)):
            return x
        m = x % (1 << w)
        return z3.If(m > hi(w), m - (1 << w), m)

    def tdivrem(self, st, a, b):
        """Truncating division, b != 0."""
        if isc(a) and isc(b):
            q = abs(a) // abs(b)
            q = q if (a >= 0) == (b >= 0) else -q
            return q, a - q * b
        za, zbb = zi(a), zi(b)
        key = ("tdiv", za.get_id(), zbb.get_id())
        if key in st.ghost:
            return st.ghost[key][0:2]
        if self.exact_div is not None:
            k = self.exact_div(self, st, za, zbb)
            if k is not None:
                st.ghost[key] = (k, 0, za, zbb)
                return k, 0
        if isc(b):
            fq = za / abs(b)
            # floor quotient of |a|
            if self.must(st, za >= 0):
                q = fq if b > 0 else -fq
                r = za % abs(b)
            else:
                q0 = z3.If(za >= 0, fq, -((-za) / abs(b)))
                q = q0 if b > 0 else -q0
                r = za - q * b
        else:
            q, r = self.fresh("q"), self.fresh("r")
            ab = z3.If(zbb > 0, zbb, -zbb)
            st.assume(z3.And(za == zbb * q + r, z3.If(za >= 0, z3.And(r >= 0, r < ab), z3.And(r <= 0, -r < ab))))
            st.divs = st.divs + ((za, zbb, q, r),)
        st.ghost[key] = (q, r, za, zbb)
        return q, r

    def binop(self, st, op, w, a, b, fl):
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrint_op(st, op, a, b)
        if w == 1:
            if op == "xor":
                if isc(b):
                    return not_(a) if b else a
                if isc(a):
                    return not_(b) if a else b
                return z3.Xor(a, b)
            if op == "and" or op == "mul":
                return and_(a, b)
            if op == "or":
                return or_(a, b)
            if op in ("add", "sub"):
                return z3.Xor(zb(a), zb(b))
            raise Undecided("i1 " + op)
        if op in ("add", "sub", "mul"):
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            r = conc(r)
            if "nsw" in fl:
                if self.overflow_obligations:
                    self.oblige(st, inr(r, w), "no signed overflow (%s)" % op)
                else:
                    st.assume(inr(r, w))
                return r
            return self.wrap(st, r, w)
        if op in ("sdiv", "srem"):
            self.oblige(st, zi(b) != 0 if not isc(b) else b != 0, "no division by zero")
            if not isc(b) or b == -1:
                self.oblige(st, z3.Not(z3.And(zi(a) == lo(w), zi(b) == -1)), "no signed overflow (division)")
            q, r = self.tdivrem(st, a, b)
            return q if op == "sdiv" else r
        if op in ("udiv", "urem"):
            self.oblige(st, zi(b) != 0 if not isc(b) else b != 0, "no division by zero")
            ua, ub = self.uns(a, w), self.uns(b, w)
            if isc(ua) and isc(ub):
                return wrapc(ua // ub if op == "udiv" else ua % ub, w)
            if not isc(ua) and self.must(st, zi(a) >= 0):
                ua = zi(a)
            if not isc(ub) and self.must(st, zi(b) >= 0):
                ub = zi(b)
            q, r = self.tdivrem(st, ua, ub)
            return self.wrap(st, q if op == "udiv" else r, w)
        if op == "shl":
            if not isc(b):
                raise Undecided("shift by a variable")
            r = conc(a * (1 << b))
            if "nsw" in fl:
                self.oblige(st, inr(r, w), "no signed overflow (shl)")
                return r
            return self.wrap(st, r, w)
        if op == "ashr":
            if not isc(b):
                raise Undecided("shift by a variable")
            if isc(a):
                return a >> b
            if b == w - 1:
                return z3.If(a < 0, z3.IntVal(-1), z3.IntVal(0))
            return a / (1 << b)
        if op == "lshr":
            if not isc(b):
                raise Undecided("shift by a variable")
            u = self.uns(a, w)
            r = u >> b if isc(u) else u / (1 << b)
            return wrapc(r, w) if isc(r) else self.wrap(st, r, w)
        if op in ("and", "or", "xor"):
            if isc(a) and isc(b):
                return wrapc({"and": a & b, "or": a | b, "xor": a ^ b}[op], w)
            return self.bitop(st, op, w, a, b)
        raise Undecided(op)

    def bitop(self, st, op, w, a, b):
        if isc(a):
            a, b = b, a
        if isc(b):
            if op == "and":
                if b == 0:
                    return 0
                if b == -1:
                    return a
                if b > 0 and (b & (b + 1)) == 0:
                    return a % (b + 1)
                if b < 0 and ((-b) & (-b - 1)) == 0:
                    return a - a % (-b)       # clear low bits
            if op == "xor":
                if b == -1:
                    return -a - 1
                if b == 0:
                    return a
            if op == "or":
                if b == 0:
                    return a
                if b == -1:
                    return -1
        za, zb_ = zi(a), zi(b)
        if self.mask is not None:
            r = self.mask(self, st, op, w, za, zb_)
            if r is not None:
                return r
        f = self.fresh("bits")
        st.assume(inr(f, w))
        if op == "and":
            return z3.If(za == 0, 0, z3.If(za == -1, zb_, z3.If(zb_ == 0, 0, z3.If(zb_ == -1, za, z3.If(za == zb_, za, f)))))
        if op == "or":
            return z3.If(za == 0, zb_, z3.If(za == -1, -1, z3.If(zb_ == 0, za, z3.If(zb_ == -1, -1, z3.If(za == zb_, za, f)))))
        return z3.If(za == 0, zb_, z3.If(za == -1, -zb_ - 1, z3.If(zb_ == 0, za, z3.If(zb_ == -1, -za - 1, z3.If(za == zb_, 0, f)))))

    def ptrint_op(self, st, op, a, b):
        if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if isinstance(a.ptr, Ptr) and isinstance(b.ptr, Ptr) and a.ptr.region is b.ptr.region:
                return conc((a.ptr.off + a.add) - (b.ptr.off + b.add))
            if isinstance(a.ptr, NodePtr) and isinstance(b.ptr, NodePtr) and conc(zi(a.ptr.id) == zi(b.ptr.id)) is True:
                return a.ptr.off + a.add - b.ptr.off - b.add
        if op == "and" and isinstance(a, PtrInt) and isc(b):
            raise Undecided("alignment of an address")
        if op == "add" and isinstance(a, PtrInt) and not isinstance(b, PtrInt):
            return PtrInt(a.ptr, conc(a.add + b))
        if op == "add" and isinstance(b, PtrInt) and not isinstance(a, PtrInt):
            return PtrInt(b.ptr, conc(b.add + a))
        raise Undecided("address arithmetic " + op)

    def icmp(self, st, pr, w, a, b):
        if isinstance(a, (Ptr, NodePtr, FnPtr, PtrInt)) or isinstance(b, (Ptr, NodePtr, FnPtr, PtrInt)):
            return self.pcmp(st, pr, a, b)
        if w == 1:
            a, b = zb(a), zb(b)
            if pr == "eq":
                return conc(a == b)
            if pr == "ne":
                return conc(z3.Xor(a, b))
            a, b = b2i(conc(a)), b2i(conc(b))
        if pr[0] == "u":
            ua, ub = self.uns(a, w), self.uns(b, w)
            if not isc(ua) and self.must(st, zi(a) >= 0):
                ua = a
            if not isc(ub) and self.must(st, zi(b) >= 0):
                ub = b
            a, b = ua, ub
            pr = "s" + pr[1:]
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b,
             "sge": lambda: a >= b}[pr]
        return conc(f())

    def pcmp(self, st, pr, a, b):
        if isinstance(a, PtrInt):
            a = self.addoff(a.ptr, a.add)
        if isinstance(b, PtrInt):
            b = self.addoff(b.ptr, b.add)
        if isinstance(a, int):
            a = NULL if a == 0 else a
        if isinstance(b, int):
            b = NULL if b == 0 else b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.region is b.region:
                x, y = a.off, b.off
                f = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: x < y, "ule": lambda: x <= y, "ugt": lambda: x > y,
                     "uge": lambda: x >= y, "slt": lambda: x < y, "sgt": lambda: x > y}[pr]
                return conc(f())
            if pr in ("eq", "ne"):
                return pr == "ne"
            raise Undecided("comparison of unrelated pointers")
        if isinstance(a, NodePtr) and isinstance(b, NodePtr):
            if a.off != b.off:
                nul = [x for x in (a, b) if isc(conc(x.id)) and conc(x.id) == 0]
                if nul and pr in ("eq", "ne"):
                    return pr == "ne"
                raise Undecided("comparison inside nodes")
            e = conc(zi(a.id) == zi(b.id))
            if pr == "eq":
                return e
            if pr == "ne":
                return not_(e)
            x, y = zi(a.id), zi(b.id)      # the order of addresses: some total order of nodes
            if pr in ("ult", "slt"):
                return conc(x < y)
            if pr in ("ugt", "sgt"):
                return conc(x > y)
            return conc(x <= y if pr in ("ule", "sle") else x >= y)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return (a.name == b.name) == (pr == "eq")
        # a region or function against a node or null
        if isinstance(b, (Ptr, FnPtr)):
            a, b = b, a
        if pr in ("eq", "ne"):
            e = False
            if isinstance(a, Ptr) and a.region is self.flat and isinstance(b, NodePtr):
                e = conc(zi(a.off) == zi(b.id) + b.off)
            elif isinstance(a, Ptr) and getattr(a.region, "addressed", False) and isinstance(b, NodePtr):
                e = conc(zi(self.address(a)) == zi(b.id) + b.off)
            elif isinstance(a, Ptr) and a.region.null is not False and isc(conc(b.id)) and conc(b.id) == 0:
                e = and_(a.region.null, a.off == 0 if isc(a.off) else True)
            return e if pr == "eq" else not_(e)
        if isc(conc(b.id)) and conc(b.id) == 0:
            return pr in ("ugt", "uge")
        raise Undecided("comparison of pointers")

    # --- running -----------------------------------------------------------------------------------------------------
    def find_contract(self, mod, name):
        k = (mod.name, name)
        if k not in self.ccache:
            d = self.demangle(mod, name)
            r = None
            for rx, f in self.contracts:
                if rx.fullmatch(d) or rx.fullmatch(name):
                    r = f
                    break
            self.ccache[k] = (r, d)
        return self.ccache[k]

    def contract(self, pattern, f=None):
        def dec(f):
            self.contracts.insert(0, (re.compile(pattern), f))
            self.ccache = {}
            return f
        return dec(f) if f is not None else dec

    def find_fn(self, mod, name):
        return mod.functions.get(name) or self.fns.get(name)

    def push_frame(self, st, fn, args, res):
        f = Frame()
        f.fn, f.block, f.idx, f.prev, f.res = fn, None, 0, None, res
        f.visits, f.cuts, f.on_ret = {}, {}, None
        fn.blocks
        f.block = fn.entry
        f.env = {}
        un = 0
        for (t, n), a in zip(fn.params, args):
            if n is None:
                n = "%" + str(un)
            if re.fullmatch(r"%\d+", n):
                un += 1
            f.env[n] = a
        st.frames.append(f)
        if len(st.frames) > 80:
            raise Undecided("call depth")

    def verify(self, name, fn, setup, post, max_paths=None):
        """setup(st) -> args; post(st, ret) is called at each return."""
        self.cur = name
        self.failed_names = {}
        st = State()
        self.post = post
        self.paths = 0
        self.steps = 0
        n0 = len(self.results)
        try:
            args = setup(st)
            self.push_frame(st, fn, args, None)
            # Vacuity: the precondition must be satisfiable.
            self.sync(st.pc)
            if self.solver.check() == z3.unsat:
                self.undecide("the precondition is unsatisfiable")
                return
            self.explore([st])
        except Undecided as e:
            self.undecide(str(e))
        if self.paths == 0 and not self.undecided:
            self.undecide("no path reaches the end of the function")

    def explore(self, work, stop=None):
        """DFS. stop(st) -> True abandons a path (used by loop cuts)."""
        while work:
            st = work.pop()
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Undecided("too many steps")
                    if self.deadline and time.time() > self.deadline:
                        raise Undecided("out of time")
                    if stop is not None and stop(st):
                        break
                    out = self.step(st)
                    if out is None:
                        continue
                    if out is False:
                        break
                    # successors
                    work.extend(out)
                    break
            except Undecided as e:
                where = ""
                if st.frames:
                    f = st.frames[-1]
                    where = " in %s %s" % (self.demangle(f.fn.mod, f.fn.name)[:100], f.block)
                self.undecide(str(e) + where)
                if self.dry:
                    raise
            if self.paths > self.max_paths:
                self.undecide("too many paths")
                return

    def jump(self, st, target):
        """Moves to a block; evaluates phis. Returns None or a list of successors (loop cuts)."""
        f = st.frames[-1]
        prev = f.block
        insts = f.fn.blocks[target]
        vals = []
        n = 0
        for i in insts:
            if i.op != "phi":
                break
            n += 1
            for v, b in i.a[0]:
                if b == prev:
                    vals.append((i.res, self.val(st, i.ty, v)))
                    break
            else:
                raise Undecided("phi without incoming edge")
        h = headers(f.fn)
        if target in h:
            cand = self.loop_spec(f.fn)
            if cand is not None:
                return self.cut(st, f, target, prev, vals, n, cand)
            f.visits[target] = f.visits.get(target, 0) + 1
            if f.visits[target] > self.unroll:
                raise Undecided("loop unrolled more than %d times" % self.unroll)
        f.prev, f.block, f.idx = prev, target, n
        for k, v in vals:
            f.env[k] = v
        # leaving loops resets visit counts of their headers when they are entered again from outside: approximate by
        # resetting headers not containing the target
        return None

    def loop_spec(self, fn):
        d = self.demangle(fn.mod, fn.name)
        for rx, c in self.loop_candidates.items():
            if re.fullmatch(rx, d) or re.search(rx, d):
                return c
        return None

    def cut(self, st, f, head, prev, vals, nphi, cand):
        loop = headers(f.fn)[head]
        if head in f.cuts and prev in loop:
            # back edge: check the invariant
            inv, depth = f.cuts[head]
            self.loop_mode = "back"
            for nm, c in inv(self, st, dict(vals)):
                self.oblige(st, c, "loop invariant is preserved: " + nm, assume=False)
            self.paths += 1
            return False
        # entry: infer an invariant from the candidates
        base = st.fork()
        bf = base.frames[-1]
        entry = dict(vals)
        if cand(self, base, bf.fn, head, dict(entry)) is None:
            f.visits[head] = f.visits.get(head, 0) + 1
            if f.visits[head] > self.unroll:
                raise Undecided("loop unrolled more than %d times" % self.unroll)
            f.prev, f.block, f.idx = prev, head, nphi
            for k, v in vals:
                f.env[k] = v
            return None

        def full(s, vs):
            """Loop variables: phis, and the memory cells that the loop writes."""
            d = dict(vs)
            for reg, k in writes:
                if reg.kind != "array" and k in s.cells(reg):
                    d["*%s+%d" % (reg.name, k[0])] = s.cells(reg)[k]
            return d

        def candidates():
            self.loop_mode = "entry"
            e = full(base, entry)
            return [(n, c) for n, c in cand(self, base, bf.fn, head, e) or [] if self.must(base, zb(c(self, base, e)))]
        writes = set()
        depth = len(st.frames)

        def havoc(s):
            fr = s.frames[-1]
            vs = {}
            for i in fr.fn.blocks[head][:nphi]:
                e = entry[i.res]
                if i.ty[0] == "i":
                    vs[i.res] = self.fresh_int(s, i.ty[1], i.res[1:])
                elif isinstance(e, NodePtr) and self.flat is not None and isc(conc(e.id)) and conc(e.id) == 0:
                    vs[i.res] = Ptr(self.flat, self.fresh(i.res[1:]))
                elif isinstance(e, Ptr):
                    o = self.fresh(i.res[1:] + "_off")
                    el = e.region.elem if e.region.kind == "array" else None
                    if el is None:
                        raise Undecided("pointer induction variable into %s" % e.region.name)
                    base_i, base_f = self.array_index(s, e.region, e.off)
                    vs[i.res] = Ptr(e.region, zi(el) * (o) + base_f)
                else:
                    raise Undecided("loop variable of type %s" % (i.ty,))
            for reg, k in writes:
                d = s.wcells(reg)
                if reg.kind == "array":
                    d[k] = z3.Array("%s.h!%d" % (reg.name, next(self.fresh_n)), z3.IntSort(), z3.IntSort())
                else:
                    old = d.get(k)
                    if self.havoc_cell is not None and self.havoc_cell(self, s, reg, k, old):
                        continue
                    if isinstance(old, (NodePtr, Ptr)) and self.flat is not None and (isinstance(old, NodePtr) or old.region is self.flat):
                        d[k] = Ptr(self.flat, self.fresh("address"))
                        continue
                    if isinstance(old, Ptr) and old.region.kind == "array":
                        _, f0 = self.array_index(s, old.region, old.off)
                        d[k] = Ptr(old.region, old.region.elem * self.fresh("index") + f0)
                        continue
                    if isinstance(old, (Ptr, NodePtr, FnPtr, PtrInt)):
                        raise Undecided("pointer modified in a loop")
                    d[k] = self.fresh_int(s, 8 * k[1], "mem")
            return vs

        live = candidates()

        def enter(s, vs):
            fr = s.frames[-1]
            fr.prev, fr.block, fr.idx = prev, head, nphi
            for k, v in vs.items():
                fr.env[k] = v
        while True:
            s = base.fork()
            s.writes = set()
            try:
                vs = havoc(s)
            except Undecided:
                raise
            self.loop_mode = "havoc"
            fv = full(s, vs)
            for n, c in live:
                s.assume(zb(c(self, s, fv)))
            enter(s, vs)
            bad = set()
            wr = s.writes

            def check(ex, s2, v2):
                self.loop_mode = "back"
                v2 = full(s2, v2)
                for n, c in live:
                    if n not in bad and not self.must_hard(s2, zb(c(self, s2, v2))):
                        bad.add(n)
                return []
            s.frames[-1].cuts[head] = (check, depth)
            self.dry += 1
            try:
                self.explore([s], stop=lambda t: len(t.frames) < depth or (len(t.frames) == depth and t.frames[-1].block not in loop))
            finally:
                self.dry -= 1
            known = set(self.base_regions(base))
            new = {(r, k) for r, k in wr if r in known} - writes
            if not new and not bad:
                break
            writes |= new
            live = candidates() if new else [(n, c) for n, c in live if n not in bad]
        # final
        s = base.fork()
        s.writes = st.writes
        if s.writes is not None:
            s.writes |= writes
        self.loop_mode = "entry"
        fe = full(s, entry)
        for n, c in live:
            self.oblige(s, zb(c(self, s, fe)), "loop invariant holds initially: " + n, assume=False)
        vs = havoc(s)
        self.loop_mode = "havoc"
        fv = full(s, vs)
        for n, c in live:
            s.assume(zb(c(self, s, fv)))
        enter(s, vs)
        s.frames[-1].cuts[head] = (lambda ex, s2, v2: [(n, zb(c(ex, s2, full(s2, v2)))) for n, c in live], depth)
        return [s]

    def must_hard(self, st, c):
        if self.must(st, c):
            return True
        s = z3.Solver()
        s.set("timeout", int(self.timeout * 1000))
        s.add(*st.conds())
        s.add(z3.Not(c))
        return s.check() == z3.unsat

    def base_regions(self, st):
        return st.mem.keys()

    def branch(self, st, c, a, b):
        c = conc(c)
        if isc(c):
            return self.jump(st, a if c else b)
        sa, sb = self.sat(st, c), self.sat(st, z3.Not(c))
        if sa == "unsat" and sb == "unsat":
            return False
        if sa == "unsat":
            return self.jump(st, b)
        if sb == "unsat":
            return self.jump(st, a)
        o = st.fork()
        st.assume(c)
        o.assume(z3.Not(c))
        res = []
        for s, t in ((st, a), (o, b)):
            r = self.jump(s, t)
            if r is None:
                res.append(s)
            elif r is False:
                pass
            else:
                res.extend(r)
        res.reverse()
        return res

    def step(self, st):
        f = st.frames[-1]
        i = f.fn.blocks[f.block][f.idx]
        f.idx += 1
        op = i.op
        mod = f.fn.mod
        if op == "call":
            return self.call(st, i)
        if op in ("load", "store") and len(i.a) > (1 if op == "load" else 2) and self.atomic is not None:
            p = self.val(st, ("ptr",), i.a[-2])
            v = None if op == "load" else self.val(st, i.ty, i.a[0])
            r = self.atomic(self, st, op, p, v, i.a[-1], i.ty[1])
            if op == "load":
                f.env[i.res] = r
            return None
        if op == "load":
            f.env[i.res] = self.load(st, mod, i.ty, self.val(st, ("ptr",), i.a[0]))
            return None
        if op == "store":
            self.store(st, mod, i.ty, self.val(st, i.ty, i.a[0]), self.val(st, ("ptr",), i.a[1]))
            return None
        if op == "getelementptr":
            base = self.val(st, ("ptr",), i.a[0])
            f.env[i.res] = self.gep(mod, i.ty, base, [(t, self.val(st, t, v)) for t, v in i.a[1]])
            return None
        if op == "jmp":
            return self.jump(st, i.a[0])
        if op == "br":
            return self.branch(st, self.val(st, ("i", 1), i.a[0]), i.a[1], i.a[2])
        if op == "ret":
            v = None if i.a[0] is None else self.val(st, i.ty, i.a[0])
            return self.ret(st, v)
        if op == "atomicrmw":
            kind, q, v, order = i.a
            p = self.val(st, ("ptr",), q)
            v = self.val(st, i.ty, v)
            if self.atomic is not None:
                r = self.atomic(self, st, kind, p, v, order, i.ty[1])
            else:
                r = self.load(st, mod, i.ty, p)
                if kind not in ("add", "sub", "xchg"):
                    raise Undecided("atomic " + kind)
                n = v if kind == "xchg" else self.wrap(st, zi(r) + zi(v) if kind == "add" else zi(r) - zi(v), i.ty[1])
                self.store(st, mod, i.ty, n, p)
            if i.res is not None:
                f.env[i.res] = r
            return None
        if op == "fence":
            if self.fence is not None:
                self.fence(self, st, i.a[0])
            return None
        if op == "alloca":
            r = Region("local " + i.res, mod.size(i.ty))
            if i.a[0] is not None:
                n = self.val(st, i.a[0][0], i.a[0][1])
                if not isc(n):
                    # an array of words
                    n = conc(n * mod.size(i.ty))
                    r = Region("local " + i.res, None, "array", 8 if self.alloca_elem is None else self.alloca_elem(st, n))
                    r.raw, r.alloca = True, n

                    def within(ex, st, k, f, size, r=r):
                        if not ex.dry:
                            ex.oblige(st, z3.And(zi(k) >= 0, r.elem * k + f + size <= r.alloca), "memory access within a local array")
                    r.on_access = within
                    st.mem[r] = {}
                    f.env[i.res] = Ptr(r, 0)
                    return None
                r.size *= n
            st.mem[r] = {}
            f.env[i.res] = Ptr(r, 0)
            return None
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            if i.ty[0] != "i":
                raise Undecided("vector arithmetic")
            f.env[i.res] = self.binop(st, op, i.ty[1], self.val(st, i.ty, i.a[0]), self.val(st, i.ty, i.a[1]), i.a[2])
            return None
        if op == "icmp":
            w = i.ty[1] if i.ty[0] == "i" else 64
            f.env[i.res] = self.icmp(st, i.a[0], w, self.val(st, i.ty, i.a[1]), self.val(st, i.ty, i.a[2]))
            return None
        if op in ("sext", "zext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"):
            return self.cast(st, f, i)
        if op == "select":
            c = conc(self.val(st, ("i", 1), i.a[0]))
            if isc(c):
                f.env[i.res] = self.val(st, i.ty, i.a[1] if c else i.a[2])
                return None
            a, b = self.val(st, i.ty, i.a[1]), self.val(st, i.ty, i.a[2])
            if i.ty[0] == "i" and not isinstance(a, PtrInt) and not isinstance(b, PtrInt):
                f.env[i.res] = ite(c, a, b)
                return None
            if isinstance(a, NodePtr) and isinstance(b, NodePtr) and a.off == b.off:
                f.env[i.res] = NodePtr(ite(c, zi(a.id), zi(b.id)), a.off)
                return None
            o = st.fork()
            st.assume(c)
            o.assume(z3.Not(c))
            st.frames[-1].env[i.res] = a
            o.frames[-1].env[i.res] = b
            return [s for s in (o, st) if self.sat(s, True) != "unsat"]
        if op == "switch":
            v = conc(self.val(st, i.ty, i.a[0]))
            d, cs = i.a[1], i.a[2]
            if isc(v):
                for k, t in cs:
                    if wrapc(k, i.ty[1]) == v:
                        return self.jump(st, t)
                return self.jump(st, d)
            res = []
            rest = []
            for k, t in cs:
                k = wrapc(k, i.ty[1])
                rest.append(v != k)
                if self.sat(st, v == k) != "unsat":
                    s = st.fork()
                    s.assume(v == k)
                    r = self.jump(s, t)
                    res.extend([s] if r is None else r or [])
            if self.sat(st, z3.And(*rest) if rest else True) != "unsat":
                if rest:
                    st.assume(z3.And(*rest))
                r = self.jump(st, d)
                res.extend([st] if r is None else r or [])
            res.reverse()
            return res
        if op == "extractvalue":
            v = self.val(st, i.ty, i.a[0])
            for k in i.a[1]:
                v = v.v[k]
            f.env[i.res] = v
            return None
        if op == "insertvalue":
            v = self.val(st, i.ty, i.a[0])
            e = self.val(st, i.a[1], i.a[2])

            def ins(v, idx):
                l = list(v.v)
                l[idx[0]] = e if len(idx) == 1 else ins(l[idx[0]], idx[1:])
                return Agg(l)
            f.env[i.res] = ins(v, i.a[3])
            return None
        if op == "unreachable":
            self.oblige(st, False, "unreachable code is not reached")
            return False
        raise Undecided("instruction " + i.text[:100])

    def cast(self, st, f, i):
        op = i.op
        if op == "freeze":
            f.env[i.res] = self.val(st, i.ty, i.a[0])
            return None
        ty, v = i.a
        x = self.val(st, ty, v)
        if op == "ptrtoint":
            f.env[i.res] = self.address(x) if self.flat is not None and (isinstance(x, NodePtr) or x.region is self.flat) else PtrInt(x)
        elif op == "inttoptr":
            f.env[i.res] = x.ptr if isinstance(x, PtrInt) and x.add == 0 else self.reinterpret(x, ("ptr",))
        elif op == "bitcast":
            f.env[i.res] = x
        else:
            w, w2 = ty[1], i.ty[1]
            if isinstance(x, PtrInt):
                if op == "zext" or op == "sext":
                    f.env[i.res] = x
                    return None
                raise Undecided("truncated pointer")
            if op == "zext":
                if w == 1:
                    f.env[i.res] = b2i(x)
                elif isc(x):
                    f.env[i.res] = x & ((1 << w) - 1)
                else:
                    f.env[i.res] = x if self.must(st, x >= 0) else z3.If(x < 0, x + (1 << w), x)
            elif op == "sext":
                f.env[i.res] = b2i(x, -1) if w == 1 else x
            else:
                if w2 == 1:
                    f.env[i.res] = self.to_bool(x)
                elif isc(x):
                    f.env[i.res] = wrapc(x, w2)
                else:
                    f.env[i.res] = self.wrap(st, x, w2)
        return None

    def ret(self, st, v):
        f = st.frames.pop()
        if f.on_ret is not None:
            v = f.on_ret(self, st, v)
            if v is DEAD:
                self.paths += 1
                return False
        if not st.frames:
            self.paths += 1
            if not self.dry and self.post is not None:
                self.post(st, v)
            return False
        if f.res is not None:
            st.frames[-1].env[f.res] = v
        return None

    def call(self, st, i):
        f = st.frames[-1]
        mod = f.fn.mod
        callee, args = i.a
        if callee[0] == "local":
            fp = f.env.get(callee[1])
            if isinstance(fp, FnPtr):
                name, mod = fp.name, fp.mod
            else:
                h = self.indirect
                if h is not None:
                    vals = [self.val(st, t, v) for t, v in args]
                    return self.finish_call(st, i, h(self, st, fp, vals, i))
                raise Undecided("indirect call")
        elif callee[0] == "global":
            name = callee[1]
        else:
            raise Undecided("call of " + str(callee))
        if name.startswith("@llvm."):
            r = self.intrinsic(st, name, i, args)
            return r
        vals = [self.val(st, t, v) for t, v in args]
        return self.call_fn(st, i, mod, name, vals)

    indirect = None
    atomic = None       # atomic(ex, st, operation, pointer, value, ordering, width) -> value
    fence = None

    def call_fn(self, st, i, mod, name, vals):
        c, d = self.find_contract(mod, name)
        if c is not None:
            r = c(self, st, vals, i)
            if isinstance(r, Inline):
                fn = r.fn or self.find_fn(mod, name)
                if fn is None:
                    raise Undecided("no body: " + d)
                self.inlined.add(d)
                self.push_frame(st, fn, r.args, i.res)
                st.frames[-1].on_ret = r.on_ret
                return None
            self.contracted.add(d)
            return self.finish_call(st, i, r)
        fn = self.find_fn(mod, name)
        if fn is None:
            b = BUILTIN.get(name)
            if b is not None:
                return self.finish_call(st, i, b(self, st, vals, i))
            raise Undecided("call of a function without contract or body: " + d)
        self.inlined.add(d)
        self.push_frame(st, fn, vals, i.res)
        return None

    def finish_call(self, st, i, r):
        """A contract returns a value, or a list of (state, value)."""
        if isinstance(r, list):
            out = []
            for s, v in r:
                if i.res is not None:
                    s.frames[-1].env[i.res] = v
                out.append(s)
            out.reverse()
            return out if out else False
        if r is DEAD:
            return False
        if i.res is not None:
            st.frames[-1].env[i.res] = r
        return None

    def intrinsic(self, st, name, i, args):
        f = st.frames[-1]
        n = name[6:]
        if n.startswith(("lifetime.", "dbg.", "experimental.noalias", "assume", "donothing", "invariant", "prefetch", "stackrestore",
                         "var.annotation")):
            return None
        vals = [self.val(st, t, v) for t, v in args]
        if n.startswith("stacksave"):
            f.env[i.res] = NULL
            return None
        m = re.match(r"([su])(add|sub|mul)\.with\.overflow\.i(\d+)", n)
        if m:
            w = int(m.group(3))
            a, b = vals
            if m.group(1) == "u":
                a, b = self.uns(a, w), self.uns(b, w)
                if not isc(a) and self.must(st, zi(vals[0]) >= 0):
                    a = vals[0]
                if not isc(b) and self.must(st, zi(vals[1]) >= 0):
                    b = vals[1]
            r = conc(a + b if m.group(2) == "add" else a - b if m.group(2) == "sub" else a * b)
            if m.group(1) == "s":
                ov = not_(inr(r, w))
            else:
                ov = or_(r < 0, r >= 1 << w)
            f.env[i.res] = Agg([("ovres", r, w), conc(ov)])
            # Fork on the overflow, so that the result is a plain term where it did not.
            if isc(conc(ov)):
                f.env[i.res] = Agg([wrapc(r, w) if isc(r) else self.wrap(st, r, w), conc(ov)])
                return None
            o = st.fork()
            st.assume(ov)
            o.assume(not_(ov))
            rs = []
            if self.sat(o, True) != "unsat":
                o.frames[-1].env[i.res] = Agg([r if m.group(1) == "s" else self.wrap(o, r, w), False])
                rs.append(o)
            if self.sat(st, True) != "unsat":
                v = self.fresh_int(st, w, "wrapped")
                mm = r % (1 << w)
                st.frames[-1].env[i.res] = Agg([z3.If(mm > hi(w), mm - (1 << w), mm) if m.group(2) != "mul" else v, True])
                rs.append(st)
            return rs
        m = re.match(r"([su])(min|max)\.i(\d+)", n)
        if m:
            w = int(m.group(3))
            a, b = vals
            c = self.icmp(st, ("slt" if m.group(1) == "s" else "ult"), w, a, b)
            f.env[i.res] = ite(c, a, b) if m.group(2) == "min" else ite(c, b, a)
            return None
        m = re.match(r"abs\.i(\d+)", n)
        if m:
            w = int(m.group(1))
            a = vals[0]
            if conc(vals[1]):
                self.oblige(st, zi(a) != lo(w), "no signed overflow (abs)")
            f.env[i.res] = abs(a) if isc(a) else z3.If(a < 0, z3.If(a == lo(w), a, -a), a)
            return None
        if n.startswith(("memcpy", "memmove")):
            self.memcpy(st, vals[0], vals[1], vals[2])
            return None
        if n.startswith("memset"):
            self.memset(st, vals[0], vals[1], vals[2])
            return None
        if n.startswith("expect"):
            f.env[i.res] = vals[0]
            return None
        if n.startswith("trap"):
            self.oblige(st, False, "no trap")
            return False
        m = re.match(r"(ctlz|cttz|ctpop)\.i(\d+)", n)
        if m:
            x, w = conc(vals[0]), int(m.group(2))
            if isc(x):
                u = x & ((1 << w) - 1)
                if m.group(1) == "ctpop":
                    v = bin(u).count("1")
                elif m.group(1) == "ctlz":
                    v = w - u.bit_length()
                else:
                    v = (u & -u).bit_length() - 1 if u else w
                f.env[i.res] = v
                return None
            v = self.fresh("bits")
            st.assume(z3.And(v >= 0, v <= w))
            f.env[i.res] = v
            return None
        raise Undecided("intrinsic " + n)


DEAD = object()


def headers(fn):
    """Loop headers of a function: {header: set of blocks of the natural loop}."""
    if hasattr(fn, "_headers"):
        return fn._headers
    succ = {}
    for b, l in fn.blocks.items():
        t = l[-1]
        succ[b] = [t.a[0]] if t.op == "jmp" else [t.a[1], t.a[2]] if t.op == "br" else [t.a[1]] + [x for _, x in t.a[2]] if t.op == "switch" else []
    pred = {}
    for b, ss in succ.items():
        for s in ss:
            pred.setdefault(s, []).append(b)
    color, heads = {}, {}
    stack = [(fn.entry, iter(succ[fn.entry]))]
    color[fn.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s) == 1:
                heads.setdefault(s, []).append(b)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            color[b] = 2
            stack.pop()
    res = {}
    for h, tails in heads.items():
        body = {h}
        w = list(tails)
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w.extend(pred.get(x, []))
        res[h] = body
    fn._headers = res
    return res


def _assert_fail(ex, st, vals, i):
    where = ""
    try:
        p = vals[0]
        if isinstance(p, Ptr) and getattr(p.region, "init", None):
            v = p.region.init[1][1]
            where = v[1].rstrip(b"\0").decode("latin1") if v[0] == "str" else ""
    except Exception:
        pass
    ex.oblige(st, False, "assertion holds: " + where)
    return DEAD


def _new(ex, st, vals, i):
    n = conc(vals[0])
    if not isc(n):
        raise Undecided("allocation of symbolic size")
    r = Region("heap", n)
    r.heap = True
    st.mem[r] = {}
    return Ptr(r, 0)


def _delete(ex, st, vals, i):
    p = vals[0]
    if isinstance(p, Ptr):
        st.ghost[("freed", p.region)] = st.ghost.get(("freed", p.region), 0) + 1
    return None


def _dead(name):
    def f(ex, st, vals, i):
        ex.oblige(st, False, "no call of " + name)
        return DEAD
    return f


BUILTIN = {
    "@__assert_fail": _assert_fail, "@_Znwm": _new, "@_ZdlPv": _delete, "@_ZdlPvm": _delete, "@_Znam": _new, "@_ZdaPv": _delete,
    "@abort": _dead("abort"), "@_ZSt9terminatev": _dead("terminate"),
    "@_ZSt20__throw_length_errorPKc": _dead("__throw_length_error"), "@_ZSt17__throw_bad_allocv": _dead("__throw_bad_alloc"),
    "@_ZSt28__throw_bad_array_new_lengthv": _dead("__throw_bad_array_new_length"),
    "@__cxa_guard_acquire": lambda ex, st, v, i: 0, "@__cxa_guard_release": lambda ex, st, v, i: None,
}
