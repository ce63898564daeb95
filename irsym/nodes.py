"""Contracts over immutable expression nodes.

A node is an integer id. Under one fixed assignment of integers to all variables a node has a value: K(id) is 0 for a finite
value, +-1 for an infinity and 2 for an indeterminate one, and V(id) is the value when it is finite. T(id) is the type of the node
and fld<off>(id) the field at an offset. What a node denotes follows from its type and children (the axioms of Nodes.axioms,
instantiated when a field of the node is read or the node is made by a function under contract)."""
import itertools, os, re, subprocess
import z3
from . import ex as X, spec as S, build as B
from vlib import build as VB
from e1 import prove as P

I, isc, zi = z3.IntVal, X.isc, X.zi
Z = z3.IntSort()
T = z3.Function("T", Z, Z)
K = z3.Function("K", Z, Z)
V = z3.Function("V", Z, Z)
VAR = z3.Function("VAR", Z, Z, Z, Z)
ARG = z3.Function("ARG", Z, Z, Z)
NARG = z3.Function("NARG", Z, Z)
EMOD = z3.Function("emod", Z, Z, Z)
EDIV = z3.Function("ediv", Z, Z, Z)
FIELD = {}


def fld(off):
    if off not in FIELD:
        FIELD[off] = z3.Function("fld%d" % off, Z, Z)
    return FIELD[off]


_layout = None


def layout():
    """{name: int} of the real headers: field offsets and enumerators."""
    global _layout
    if _layout is None:
        exe = VB.program([os.path.join(VB.VERIF, "probes", "layout.cc")], "layout", ("-O0",), [])
        _layout = {}
        for l in subprocess.run([exe], text=True, stdout=subprocess.PIPE, check=True).stdout.splitlines():
            k, v = l.split()
            _layout[k] = int(v)
    return _layout


BIN = ["add", "sub", "mul", "div", "mod", "min", "max", "equal", "not_equal", "less", "less_equal", "logical_and", "logical_or"]


def comm(op):
    return bool(layout()["commutative." + op])


TYPES = BIN + ["variable", "let", "logical_not", "select", "call", "constant"]


def ty(n):
    return layout()["type." + n]


def absv(b):
    return z3.If(b >= 0, b, -b)


def kv(id):
    return K(id), V(id)


def truthy(x):
    return z3.Or(x[0] != 0, x[1] != 0)


def edivs(st):
    return st.ghost.get("edivs", ())


def ediv(st, a, b):
    """(q, r): the Euclidean quotient and remainder where b != 0."""
    q = EDIV(a, b)
    r = EMOD(a, b)
    for x, y, _, _ in edivs(st):
        if x.eq(a) and y.eq(b):
            return q, r
    st.assume(z3.Implies(b != 0, z3.And(r >= 0, r < absv(b), a == b * q + r)))
    st.ghost["edivs"] = edivs(st) + ((a, b, q, r),)
    return q, r


_mention = {}


def mentions_values(c):
    """Whether a condition speaks about values (V), not only about the shape of nodes."""
    if z3.is_quantifier(c):
        return True
    if not z3.is_expr(c) or not z3.is_app(c):
        return False
    k = c.get_id()
    if k not in _mention:
        d = c.decl()
        r = (d.name() in ("V", "ediv", "emod") or d.kind() == z3.Z3_OP_MUL) or any(mentions_values(x) for x in c.children())
        _mention[k] = (r, c)
    return _mention[k][0]


def eq2(x, y):
    """The same value, where x is not indeterminate."""
    return z3.And(x[0] == y[0], z3.Or(x[0] != 0, x[1] == y[1]))


def lt(x, y):
    return z3.Or(x[0] < y[0], z3.And(x[0] == 0, y[0] == 0, x[1] < y[1]))


def b2i(c):
    return z3.If(c, I(1), I(0))


def op_axiom(st, op, r, a, b):
    """r = a op b for (kind, value) pairs."""
    fin = z3.And(a[0] == 0, b[0] == 0)
    bad2 = z3.Or(a[0] == 2, b[0] == 2)
    O = I(0)

    def res(bad, k, v):
        return z3.If(z3.Or(bad2, bad), r[0] == 2, z3.And(r[0] == k, z3.Implies(k == 0, r[1] == v)))
    F = z3.BoolVal(False)
    if op in ("add", "sub"):
        b = b if op == "add" else (-b[0], -b[1])
        return res(z3.And(a[0] != 0, b[0] != 0, a[0] != b[0]), z3.If(a[0] != 0, a[0], b[0]), a[1] + b[1])
    if op == "mul":
        sg = lambda x: z3.If(x[0] != 0, x[0], z3.If(x[1] > 0, I(1), z3.If(x[1] < 0, I(-1), O)))
        inf = z3.Not(fin)
        s = z3.If(sg(a) == sg(b), I(1), I(-1))
        # an infinity stands for an unknown integer: its product with zero, and its quotient by zero, are zero
        zero = z3.Or(sg(a) == 0, sg(b) == 0)
        return res(F, z3.If(z3.And(inf, z3.Not(zero)), s, O), z3.If(zero, O, a[1] * b[1]))
    if op == "div":
        bad = z3.And(a[0] != 0, b[0] != 0)
        q, _ = ediv(st, a[1], b[1])
        return res(bad, z3.If(a[0] != 0, z3.If(b[1] > 0, a[0], z3.If(b[1] < 0, -a[0], O)), O), z3.If(z3.Or(b[0] != 0, b[1] == 0), O, q))
    if op == "mod":
        q, m = ediv(st, a[1], b[1])
        return res(z3.Not(fin), O, z3.If(b[1] == 0, O, m))
    if op == "min":
        return res(F, z3.If(lt(a, b), a[0], b[0]), z3.If(lt(a, b), a[1], b[1]))
    if op == "max":
        return res(F, z3.If(lt(a, b), b[0], a[0]), z3.If(lt(a, b), b[1], a[1]))
    if op == "less":
        return res(F, O, b2i(lt(a, b)))
    if op == "less_equal":
        return res(F, O, b2i(z3.Not(lt(b, a))))
    if op == "equal":
        return res(F, O, b2i(eq2(a, b)))
    if op == "not_equal":
        return res(F, O, b2i(z3.Not(eq2(a, b))))
    yes = lambda x: z3.And(x[0] != 2, truthy(x))
    no = lambda x: z3.And(x[0] == 0, x[1] == 0)
    if op == "logical_and":
        return z3.If(z3.Or(no(a), no(b)), z3.And(r[0] == 0, r[1] == 0), z3.If(bad2, r[0] == 2, z3.And(r[0] == 0, r[1] == 1)))
    if op == "logical_or":
        return z3.If(z3.Or(yes(a), yes(b)), z3.And(r[0] == 0, r[1] == 1), z3.If(bad2, r[0] == 2, z3.And(r[0] == 0, r[1] == 0)))
    raise KeyError(op)


def not_axiom(r, a):
    return z3.If(a[0] == 2, r[0] == 2, z3.And(r[0] == 0, r[1] == b2i(z3.Not(truthy(a)))))


def select_axiom(r, c, t, f):
    return z3.If(c[0] == 2, r[0] == 2, z3.If(truthy(c), z3.And(r[0] == t[0], r[1] == t[1]), z3.And(r[0] == f[0], r[1] == f[1])))


def abs_axiom(r, a):
    return z3.If(a[0] == 2, r[0] == 2, z3.And(r[0] == absv(a[0]), z3.Implies(a[0] == 0, r[1] == absv(a[1]))))


def call_axiom(st, r, fn, n, args):
    """args: list of pairs; fn, n: terms."""
    L = layout()
    J = lambda s: L["intrinsic." + s]
    a = args[0] if args else (I(0), I(0))
    b = args[1] if len(args) > 1 else (I(0), I(0))
    bad2 = z3.Or(a[0] == 2, b[0] == 2)
    l = [z3.Implies(fn == J("positive_infinity"), r[0] == 1), z3.Implies(fn == J("negative_infinity"), r[0] == -1),
         z3.Implies(fn == J("indeterminate"), r[0] == 2)]
    l.append(z3.Implies(z3.And(fn != J("positive_infinity"), fn != J("negative_infinity"), fn != J("indeterminate"), fn != J("abs"),
                               fn != J("and_then"), fn != J("or_else")), r[0] == 0))
    if args:
        l.append(z3.Implies(fn == J("abs"), abs_axiom(r, a)))
    if len(args) > 1:
        # the second operand only matters if the first does not decide
        l.append(z3.Implies(fn == J("and_then"), z3.If(a[0] == 2, r[0] == 2, z3.If(truthy(a), z3.If(b[0] == 2, r[0] == 2, z3.And(r[0] == 0, r[1] == b2i(truthy(b)))), z3.And(r[0] == 0, r[1] == 0)))))
        l.append(z3.Implies(fn == J("or_else"), z3.If(a[0] == 2, r[0] == 2, z3.If(truthy(a), z3.And(r[0] == 0, r[1] == 1), z3.If(b[0] == 2, r[0] == 2, z3.And(r[0] == 0, r[1] == b2i(truthy(b))))))))
    return z3.And(*l)


def div_lemma(a1, b1, q1, a2, b2, q2):
    """Monotonicity of Euclidean quotients q_i of a_i by b_i != 0 (div_lemma_obligation)."""
    return z3.And(
        z3.Implies(z3.And(b1 == b2, b1 > 0, a1 <= a2), q1 <= q2), z3.Implies(z3.And(b1 == b2, b1 > 0, a1 >= a2), q1 >= q2),
        z3.Implies(z3.And(b1 == b2, b1 < 0, a1 <= a2), q1 >= q2), z3.Implies(z3.And(b1 == b2, b1 < 0, a1 >= a2), q1 <= q2),
        z3.Implies(z3.And(0 <= a1, a1 <= a2, 0 < b2, b2 <= b1), q1 <= q2), z3.Implies(z3.And(0 <= a2, a2 <= a1, 0 < b1, b1 <= b2), q2 <= q1),
        z3.Implies(z3.And(a1 <= a2, a2 <= 0, 0 < b1, b1 <= b2), q1 <= q2), z3.Implies(z3.And(a2 <= a1, a1 <= 0, 0 < b2, b2 <= b1), q2 <= q1),
        z3.Implies(z3.And(0 <= a1, a1 <= a2, b1 <= b2, b2 < 0), q1 >= q2), z3.Implies(z3.And(0 <= a2, a2 <= a1, b2 <= b1, b1 < 0), q2 >= q1),
        z3.Implies(z3.And(a1 <= a2, a2 <= 0, b2 <= b1, b1 < 0), q1 >= q2), z3.Implies(z3.And(a2 <= a1, a1 <= 0, b1 <= b2, b2 < 0), q2 >= q1))


def div_size(a, b, q):
    return z3.And(z3.Implies(b != 0, absv(q) <= absv(a)), z3.Implies(z3.And(b > 0, a >= 0), q >= 0), z3.Implies(z3.And(b > 0, a < 0), q < 0),
                  z3.Implies(z3.And(b < 0, a >= 0), q <= 0), z3.Implies(z3.And(b < 0, a < 0), q > 0),
                  z3.Implies(b == 1, q == a), z3.Implies(b == -1, q == -a))


def lemma_obligations():
    a1, b1, q1, a2, b2, q2, t = z3.Ints("a1 b1 q1 a2 b2 q2 t")
    e = lambda a, b, q: z3.And(a - b * q >= 0, a - b * q < absv(b))
    u, v = z3.Ints("u v")
    out = []
    for k, c in enumerate(div_lemma(a1, b1, q1, a2, b2, q2).children()):
        # with the product facts that the proof needs
        ts = [q1 - q2, q2 - q1]
        h = [b1 != 0, b2 != 0, e(a1, b1, q1), e(a2, b2, q2)] + [P.lemma(b, t) for b in (b1, b2) for t in ts]
        h += [prod_lemma(x, y) for x in (b1 - b2, b2 - b1) for y in (q1, q2, -q1, -q2)]
        out.append(("lemma: quotients are monotonic (%d)" % k, h, c))
    for k, c in enumerate(div_size(a1, b1, q1).children()):
        out.append(("lemma: size and sign of quotients (%d)" % k, [e(a1, b1, q1) if True else None, b1 != 0] + [prod_lemma(x, y) for x in (b1 - 1, -1 - b1, b1, -b1) for y in (q1, -q1, -1 - q1, q1 - 1)], c))
    out.append(("lemma: sign of a product", [], prod_lemma(u, v)))
    return out


def prod_lemma(u, v):
    return z3.And(z3.Implies(z3.And(u >= 0, v >= 0), u * v >= 0), z3.Implies(z3.And(u >= 0, v <= 0), u * v <= 0),
                  z3.Implies(z3.And(u <= 0, v <= 0), u * v >= 0))


def div_lemmas(st):
    l = edivs(st)
    out = [z3.Implies(b != 0, div_size(a, b, q)) for a, b, q, r in l]
    for (a1, b1, q1, _), (a2, b2, q2, _) in itertools.combinations(l, 2):
        out.append(z3.Implies(z3.And(b1 != 0, b2 != 0), div_lemma(a1, b1, q1, a2, b2, q2)))
    return out


def prover(hyps, goal, st):
    extra = list(st.ghost.get("lemmas", ())) + div_lemmas(st)
    if extra:
        r, m = P.check(hyps, goal, 5.0, extra)
        if r == "unsat":
            return "unsat", "z3+lemmas", None
        if r == "sat":
            return "sat", "z3+lemmas", m
    for r, be in ((P.cvc5(hyps, goal, 5.0, extra), "cvc5"),):
        if r == "unsat":
            return r, be, None
    return "unknown", "", None


# --- nodes and handles -----------------------------------------------------------------------------------------------
class Nodes:
    """Installs the node model and the contracts of handles and constructors in an executor."""
    def __init__(self, ex, lets=None):
        self.ex, self.L = ex, layout()
        self.argreg = {}
        self.lets = lets
        ex.node_load = self.load
        ex.nodes = self
        self.static = {}
        handle_contracts(ex)
        maker_contracts(ex, self)

    def decided_type(self, st, id):
        key = ("type", zi(id).get_id())
        if key in st.ghost:
            return st.ghost[key][0]
        ex = self.ex
        # the conditions on values are not needed to know a type, mostly
        light = z3.Solver()
        light.set("timeout", 2000)
        for c in st.conds():
            if not mentions_values(c):
                light.add(c)
        v = None
        if light.check() == z3.sat:
            v = light.model().eval(T(id), model_completion=True).as_long()
            if v in self.names() and light.check(T(id) != v) == z3.unsat:
                st.ghost[key] = (self.names()[v], id)
                return self.names()[v]
        ex.sync(st.pc)
        r = ex.solver.check()
        if r == z3.unknown:
            st.ghost["imprecise"] = True
        if r != z3.sat:
            return None
        v = ex.solver.model().eval(T(id), model_completion=True).as_long()
        if v not in self.names():
            return None
        r = ex.sat(st, T(id) != v)
        if r == "unknown":
            st.ghost["imprecise"] = True
        if r == "unsat":
            st.ghost[key] = (self.names()[v], id)
            return self.names()[v]
        return None

    def names(self):
        if not hasattr(self, "_names"):
            self._names = {self.L["type." + t]: t for t in TYPES}
        return self._names

    def structure(self, st, id):
        """Instantiates the axiom of a node whose type is known."""
        t = self.decided_type(st, id)
        if t is None:
            return None
        key = ("axiom", zi(id).get_id())
        if key not in st.ghost:
            st.ghost[key] = (True, id)
            self.axiom(st, id, t)
        return t

    def axiom(self, st, id, t):
        L = self.L
        r = kv(id)
        def c(n):
            v = fld(L["%s.%s" % (t, n)])(id)
            if n in ("a", "b", "condition", "true_value", "false_value", "body"):
                st.assume(z3.And(K(v) >= -1, K(v) <= 2))
            return v
        if t in BIN:
            st.assume(z3.And(c("a") != 0, c("b") != 0))
            st.assume(op_axiom(st, t, r, kv(c("a")), kv(c("b"))))
            if comm(t):
                st.assume(T(c("a")) <= T(c("b")))     # the makers order the operands
        elif t == "logical_not":
            st.assume(c("a") != 0)
            st.assume(not_axiom(r, kv(c("a"))))
        elif t == "select":
            st.assume(z3.And(c("condition") != 0, c("true_value") != 0, c("false_value") != 0))
            st.assume(select_axiom(r, kv(c("condition")), kv(c("true_value")), kv(c("false_value"))))
        elif t == "let":
            st.assume(z3.And(c("body") != 0, r[0] == K(c("body")), r[1] == V(c("body"))))
        elif t == "variable":
            st.assume(z3.And(r[0] == 0, r[1] == VAR(c("sym"), c("field"), c("dim"))))
        elif t == "constant":
            st.assume(z3.And(r[0] == 0, r[1] == c("value"), X.inr(c("value"))))
        elif t == "call":
            n = NARG(id)
            fn = c("intrinsic")
            a = [kv(ARG(id, I(k))) for k in (0, 1)]
            for k, _ in a:
                st.assume(z3.And(k >= -1, k <= 2))
            J = lambda s: L["intrinsic." + s]
            st.assume(z3.And(n >= 0, n < 2 ** 40, fn >= 0, fn <= J("validate_buffer")))
            st.assume(z3.Implies(fn == J("abs"), z3.And(n == 1, ARG(id, I(0)) != 0)))
            st.assume(z3.Implies(z3.Or(fn == J("and_then"), fn == J("or_else")), z3.And(n == 2, ARG(id, I(0)) != 0, ARG(id, I(1)) != 0)))
            st.assume(call_axiom(st, r, fn, n, a))

    def guarded(self, st, id, types):
        """The axioms of a node whose type is not known, for the given types."""
        class Collect:
            def __init__(self):
                self.l, self.ghost = [], {k: st.ghost[k] for k in ("C",) if k in st.ghost}

            def assume(self, f):
                self.l.append(f)
        for t in types:
            c = Collect()
            self.axiom(c, id, t)
            st.assume(z3.Implies(T(id) == ty(t), z3.And(*c.l)))

    def kinds(self, st, id):
        st.assume(z3.And(K(id) >= -1, K(id) <= 2, T(id) >= 1, T(id) <= len(TYPES)))

    def load(self, st, mod, p, tyy):
        id, off = zi(p.id), p.off
        L = self.L
        r = mod.resolve(tyy)
        if ("nonnull", id.get_id()) not in st.ghost:
            self.ex.oblige(st, id != 0, "no null pointer is dereferenced")
            st.ghost[("nonnull", id.get_id())] = id
            self.kinds(st, id)
        if off == 0:
            return X.NodePtr(z3.Function("vtable", Z, Z)(id))
        if off == L["add.type"]:
            return T(id)
        t = self.structure(st, id)
        if t == "call":
            a = L["call.args"]
            if off in (a, a + 8):
                k = id.get_id()
                if k not in self.argreg:
                    reg = X.Region("args of node", None, "array", 8)
                    reg.node = id
                    self.argreg[k] = reg
                reg = self.argreg[k]
                if reg not in st.mem:
                    st.mem[reg] = {(0, 8): z3.Lambda([z3.Int("k!")], ARG(id, z3.Int("k!")))}
                return X.Ptr(reg, 0 if off == a else 8 * NARG(id))
        if t == "let" and self.lets is not None:
            v = self.lets(self, st, id, off)
            if v is not None:
                return v
        v = fld(off)(id)
        if r[0] == "ptr":
            self_nonnull(st, v)
            return X.NodePtr(v)
        if r[0] == "i":
            st.assume(X.inr(v, r[1]))
            if t == "variable" and off == L["variable.sym"]:
                pass
            return v
        raise X.Undecided("node field of type " + str(r))

    # New nodes
    def fresh(self, st, t, n="node"):
        id = self.ex.fresh(n)
        st.assume(z3.And(id > 0, T(id) == ty(t)))
        st.ghost[("type", id.get_id())] = (t, id)
        st.ghost[("nonnull", id.get_id())] = id
        self.kinds(st, id)
        return id

    def make(self, st, t, **f):
        id = self.fresh(st, t, t)
        for n, v in f.items():
            st.assume(fld(self.L["%s.%s" % (t, n)])(id) == v)
        self.structure(st, id)
        return id

    def make_call(self, st, fn, args):
        id = self.fresh(st, "call", "call")
        st.assume(z3.And(fld(self.L["call.intrinsic"])(id) == fn, NARG(id) == len(args)))
        for k, a in enumerate(args):
            st.assume(ARG(id, I(k)) == a)
        self.structure(st, id)
        return id

    def value(self, st, nm="e", nonnull=True):
        """A handle to an arbitrary node."""
        id = z3.Int(nm)
        st.assume(id >= (1 if nonnull else 0))
        self.kinds_if(st, id)
        return id

    def kinds_if(self, st, id):
        st.assume(z3.Implies(id != 0, z3.And(K(id) >= -1, K(id) <= 2, T(id) >= 1, T(id) <= len(TYPES))))


def self_nonnull(st, v):
    pass


def hid(v):
    """The id of a handle value."""
    if isinstance(v, X.NodePtr):
        return zi(v.id)
    raise X.Undecided("handle " + repr(v))


NODE = r"slinky::base_node<slinky::expr_node_type, slinky::expr_visitor>"


def handle_contracts(ex):
    """ref_count<T> as plain moves of a pointer; the counting is verified separately (C19)."""
    R = r"slinky::ref_count<.*?>::"
    p8 = ("ptr",)

    def get(ex, st, p):
        return ex.load(st, ex.modules[0], p8, p)

    def put(ex, st, p, v):
        ex.store(st, ex.modules[0], p8, v, p)

    def ctor(ex, st, v, i):
        put(ex, st, v[0], v[1])

    def copy(ex, st, v, i):
        put(ex, st, v[0], get(ex, st, v[1]))

    def move(ex, st, v, i):
        put(ex, st, v[0], get(ex, st, v[1]))
        put(ex, st, v[1], X.NULL)

    def assign_ptr(ex, st, v, i):
        put(ex, st, v[0], v[1])
        return v[0]

    def assign(ex, st, v, i):
        put(ex, st, v[0], get(ex, st, v[1]))
        return v[0]

    def assign_move(ex, st, v, i):
        a, b = v
        if isinstance(a, X.Ptr) and isinstance(b, X.Ptr) and a.region is b.region and X.conc(a.off - b.off) is not None and isc(X.conc(a.off - b.off)) and X.conc(a.off - b.off) == 0:
            put(ex, st, a, X.NULL)      # self-move leaves null
            return a
        put(ex, st, a, get(ex, st, b))
        put(ex, st, b, X.NULL)
        return a
    ex.contract(R + r"ref_count\(.*\*\)", ctor)
    ex.contract(R + r"ref_count\(slinky::ref_count<.*> const&\)", copy)
    ex.contract(R + r"ref_count\(slinky::ref_count<.*>&&\)", move)
    ex.contract(R + r"~ref_count\(\)", lambda ex, st, v, i: None)
    ex.contract(R + r"operator=\(.*\*\)", assign_ptr)
    ex.contract(R + r"operator=\(slinky::ref_count<.*> const&\)", assign)
    ex.contract(R + r"operator=\(slinky::ref_count<.*>&&\)", assign_move)


def vec_ids(ex, st, p):
    """The elements of a std::vector<expr> in memory."""
    m = ex.modules[0]
    b, e = ex.load(st, m, ("ptr",), p), ex.load(st, m, ("ptr",), ex.addoff(p, 8))
    if isinstance(b, X.NodePtr) and isinstance(e, X.NodePtr):
        return []
    n = X.conc(e.off - b.off)
    if not isc(n):
        raise X.Undecided("vector of symbolic size")
    return [hid(ex.load(st, m, ("ptr",), ex.addoff(b, k))) for k in range(0, n, 8)]


def maker_contracts(ex, N):
    """The functions that make nodes (verified by their own specifications, makers.specs)."""
    def integer(ex, st, v, i):
        id = N.make(st, "constant", value=zi(v[1]))
        ex.store(st, ex.modules[0], ("ptr",), X.NodePtr(id), v[0])
    ex.contract(r"slinky::expr::expr\(long\)", integer)

    def const_make(ex, st, v, i):
        return X.NodePtr(N.make(st, "constant", value=zi(v[0])))
    ex.contract(r"slinky::constant::make\(long\)", const_make)

    def var_make(ex, st, v, i):
        id = N.make(st, "variable", sym=zi(v[1]), field=I(0), dim=I(-1))
        ex.store(st, ex.modules[0], ("ptr",), X.NodePtr(id), v[0])
    ex.contract(r"slinky::expr::expr\(slinky::var\)", var_make)
    for op in BIN:
        def make(ex, st, v, i, op=op):
            return X.NodePtr(make_binary(N, st, op, hid(v[0]), hid(v[1])))
        ex.contract(r"slinky::%s::make\(slinky::expr, slinky::expr\)" % op, make)
    SYM = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "==": "equal", "!=": "not_equal", "<": "less", "<=": "less_equal", "&&": "logical_and", "||": "logical_or"}
    for s, op in SYM.items():
        ex.contract(r"slinky::operator%s\(slinky::expr, slinky::expr\)" % re.escape(s), lambda ex, st, v, i, op=op: X.NodePtr(make_binary(N, st, op, hid(v[0]), hid(v[1]))))
    for s, op in ((">", "less"), (">=", "less_equal")):
        ex.contract(r"slinky::operator%s\(slinky::expr, slinky::expr\)" % re.escape(s), lambda ex, st, v, i, op=op: X.NodePtr(make_binary(N, st, op, hid(v[1]), hid(v[0]))))
    for op in ("min", "max"):
        ex.contract(r"slinky::%s\(slinky::expr, slinky::expr\)" % op, lambda ex, st, v, i, op=op: X.NodePtr(make_binary(N, st, op, hid(v[0]), hid(v[1]))))

    def neg(ex, st, v, i):
        e = hid(ex.load(st, ex.modules[0], ("ptr",), v[0]))
        z = N.make(st, "constant", value=I(0))
        return X.NodePtr(make_binary(N, st, "sub", z, e))
    ex.contract(r"slinky::expr::operator-\(\) const", neg)

    def not_make(ex, st, v, i):
        ex.oblige(st, hid(v[0]) != 0, "operands of new nodes are defined")
        return X.NodePtr(N.make(st, "logical_not", a=hid(v[0])))
    ex.contract(r"slinky::logical_not::make\(slinky::expr\)", not_make)
    ex.contract(r"slinky::operator!\(slinky::expr\)", not_make)

    def sel_make(ex, st, v, i):
        c, t, f = map(hid, v)
        ex.oblige(st, z3.And(c != 0, t != 0, f != 0), "operands of new nodes are defined")
        return X.NodePtr(N.make(st, "select", condition=c, true_value=t, false_value=f))
    ex.contract(r"slinky::select::make\(slinky::expr, slinky::expr, slinky::expr\)", sel_make)
    ex.contract(r"slinky::select\(slinky::expr, slinky::expr, slinky::expr\)", sel_make)

    def call_make(ex, st, v, i):
        return X.NodePtr(N.make_call(st, zi(v[0]), vec_ids(ex, st, v[-1])))
    ex.contract(r"slinky::call::make\(slinky::intrinsic, (std::function<.*>, )?std::vector<.*>\)", call_make)
    ex.contract(r"std::_Function_base::~_Function_base\(\)", lambda ex, st, v, i: None)
    ex.contract(r"std::function<long \(slinky::call const\*, slinky::eval_context&\)>::(function\(.*\)|~function\(\))", lambda ex, st, v, i: None)

    def inf(fn, k):
        def f(ex, st, v, i):
            reg = N.static.get(fn)
            if reg is None:
                reg = N.static[fn] = X.Region(fn, 8)
                reg.id_ = z3.Int(fn)
            id = reg.id_
            if reg not in st.mem:
                st.mem[reg] = {(0, 8): X.NodePtr(id)}
                st.assume(z3.And(id > 0, T(id) == ty("call"), K(id) == k, fld(N.L["call.intrinsic"])(id) == N.L["intrinsic." + fn], NARG(id) == 0))
            return X.Ptr(reg, 0)
        return f
    for fn, k in (("positive_infinity", 1), ("negative_infinity", -1), ("indeterminate", 2)):
        ex.contract(r"slinky::%s\(\)" % fn, inf(fn, k))


def make_binary(N, st, op, a, b):
    N.ex.oblige(st, z3.And(a != 0, b != 0), "operands of new nodes are defined")
    if comm(op):
        id = N.fresh(st, op, op)
        fa, fb = (fld(N.L["%s.%s" % (op, n)])(id) for n in "ab")
        sw = T(a) > T(b)
        st.assume(z3.And(fa == z3.If(sw, b, a), fb == z3.If(sw, a, b)))
        st.ghost[("axiom", id.get_id())] = (True, id)
        st.assume(op_axiom(st, op, kv(id), kv(a), kv(b)))
        return id
    return N.make(st, op, a=a, b=b)


# --- contracts of the simplifier's helpers ---------------------------------------------------------------------------
def fresh_value(N, st, name):
    id = N.ex.fresh(name)
    st.assume(id > 0)
    N.kinds(st, id)
    return id


def simplify_contracts(ex, N):
    """simplify(op, operands): the value of the operation (C01). An indeterminate value promises nothing."""
    for op in BIN:
        def simp(ex, st, v, i, op=op):
            a, b = hid(v[1]), hid(v[2])
            ex.oblige(st, z3.And(a != 0, b != 0), "operands of simplify are defined")
            r = fresh_value(N, st, "s_" + op)
            k, w = ex.fresh("sk"), ex.fresh("sv")
            st.assume(op_axiom(st, op, (k, w), kv(a), kv(b)))
            st.assume(eq2((k, w), kv(r)))
            return X.NodePtr(r)
        ex.contract(r"slinky::simplify\(slinky::%s const\*, slinky::expr, slinky::expr\)" % op, simp)

    def simp_not(ex, st, v, i):
        a = hid(v[1])
        ex.oblige(st, a != 0, "operands of simplify are defined")
        r = fresh_value(N, st, "s_not")
        st.assume(not_axiom(kv(r), kv(a)))
        return X.NodePtr(r)
    ex.contract(r"slinky::simplify\(slinky::logical_not const\*, slinky::expr\)", simp_not)

    def simp_sel(ex, st, v, i):
        c, t, f = map(hid, v[1:])
        ex.oblige(st, z3.And(c != 0, t != 0, f != 0), "operands of simplify are defined")
        r = fresh_value(N, st, "s_select")
        st.assume(select_axiom(kv(r), kv(c), kv(t), kv(f)))
        return X.NodePtr(r)
    ex.contract(r"slinky::simplify\(slinky::select const\*, slinky::expr, slinky::expr, slinky::expr\)", simp_sel)

    def simp_call(ex, st, v, i):
        # (op, intrinsic, [target,] args): only abs is used with a meaning here
        fn = zi(v[1])
        args = vec_ids(ex, st, v[-1])
        r = fresh_value(N, st, "s_call")
        k, w = ex.fresh("sk"), ex.fresh("sv")
        ex.oblige(st, z3.And(*[a != 0 for a in args]) if args else True, "operands of simplify are defined")
        st.assume(call_axiom(st, (k, w), fn, I(len(args)), [kv(a) for a in args]))
        st.assume(eq2((k, w), kv(r)))
        return X.NodePtr(r)
    ex.contract(r"slinky::simplify\(slinky::call const\*, slinky::intrinsic, (std::function.*, )?std::vector<.*>\)", simp_call)

    def simp_expr(ex, st, v, i):
        e = hid(ex.load(st, ex.modules[0], ("ptr",), v[0]))
        ex.oblige(st, e != 0, "the argument of simplify is defined")
        r = fresh_value(N, st, "s_expr")
        st.assume(eq2(kv(e), kv(r)))
        return X.NodePtr(r)
    ex.contract(r"slinky::simplify\(slinky::expr const&, slinky::symbol_map<slinky::interval_expr> const&, .*\)", simp_expr)

    def const_bound(sign):
        def f(ex, st, v, i):
            e = hid(ex.load(st, ex.modules[0], ("ptr",), v[0]))
            ex.oblige(st, e != 0, "the argument of evaluate_constant is defined")
            has, c = ex.freshb("has"), ex.fresh("bound")
            st.assume(X.inr(c))
            st.assume(z3.Implies(has, bound_claim(e, c, sign)))
            return X.Agg([c, X.b2i(has)])
        return f
    ex.contract(r"slinky::evaluate_constant_lower_bound\(slinky::expr const&\)", const_bound(-1))
    ex.contract(r"slinky::evaluate_constant_upper_bound\(slinky::expr const&\)", const_bound(1))
    ex.contract(r"slinky::evaluate_constant\(slinky::expr const&\)", const_bound(0))


def bound_claim(e, c, sign):
    """c is a lower bound (-1), an upper bound (1) or the value (0) of e."""
    k, v = kv(e)
    if sign < 0:
        return z3.Or(k == 2, k == 1, z3.And(k == 0, v >= c))
    if sign > 0:
        return z3.Or(k == 2, k == -1, z3.And(k == 0, v <= c))
    return z3.Or(k == 2, z3.And(k == 0, v == c))


BOOLEANS = ["equal", "not_equal", "less", "less_equal", "logical_and", "logical_or", "logical_not"]


def boolean_type(e):
    return z3.Or(*[T(e) == ty(t) for t in BOOLEANS])


PRED = {  # what a true answer says about the value of the expression (infinities compare as expected)
    "is_positive": lambda k, v: z3.Or(k == 2, k == 1, z3.And(k == 0, v > 0)),
    "is_non_negative": lambda k, v: z3.Or(k == 2, k == 1, z3.And(k == 0, v >= 0)),
    "is_negative": lambda k, v: z3.Or(k == 2, k == -1, z3.And(k == 0, v < 0)),
    "is_non_positive": lambda k, v: z3.Or(k == 2, k == -1, z3.And(k == 0, v <= 0)),
    "is_boolean": lambda k, v: z3.Or(k == 2, z3.And(k == 0, z3.Or(v == 0, v == 1))),
    "is_finite": lambda k, v: k == 0,
    "is_zero": lambda k, v: z3.And(k == 0, v == 0),
    "is_one": lambda k, v: z3.And(k == 0, v == 1),
    "is_true": lambda k, v: z3.And(k == 0, v != 0),
    "is_false": lambda k, v: z3.And(k == 0, v == 0),
    "is_positive_infinity": lambda k, v: k == 1,
    "is_negative_infinity": lambda k, v: k == -1,
    "is_indeterminate": lambda k, v: k == 2,
}


def predicate_contracts(ex, N, names=None):
    for n in names or ["is_positive", "is_non_negative", "is_negative", "is_non_positive", "is_boolean", "is_finite"]:
        def f(ex, st, v, i, n=n):
            e = hid(v[0])
            b = ex.freshb(n)
            st.assume(z3.Implies(z3.And(b, e != 0), PRED[n](K(e), V(e))))
            if n == "is_boolean":
                st.assume(z3.Implies(z3.And(b, e != 0), z3.Or(T(e) == ty("constant"), boolean_type(e))))
            return b
        ex.contract(r"slinky::%s\(slinky::expr_ref\)" % n, f)


# --- intervals -------------------------------------------------------------------------------------------------------
def above(e, v):
    """v is not below the end e (an undefined or indeterminate end says nothing)."""
    return z3.Or(e == 0, K(e) == -1, K(e) == 2, z3.And(K(e) == 0, V(e) <= v))


def below(e, v):
    return z3.Or(e == 0, K(e) == 1, K(e) == 2, z3.And(K(e) == 0, v <= V(e)))


def find(mods, pattern):
    for m in mods:
        for n, f in m.functions.items():
            if re.fullmatch(pattern, m.demangled.get(n, n)):
                return f
    return None
