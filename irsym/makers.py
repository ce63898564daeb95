"""Contracts of the functions that make nodes (runtime/expr_stmt.cc): what the other contracts assume of them.

Each is executed; the node it returns has the type, the vtable and the operands asked for (a commutative operator may order its operands
by their types)."""
import re
import z3
from . import ex as X, spec as S, nodes as N
from .nodes import I, zi, T, fld, hid

a0, b0, c0, v0, w0, d0 = z3.Ints("a b c value field dim")
SYMS = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "==": "equal", "!=": "not_equal", "<": "less", "<=": "less_equal",
        "&&": "logical_and", "||": "logical_or"}
FN = r"std::function<long \(slinky::call const\*, slinky::eval_context&\)>::"


class Node:
    """The node that was made."""
    def __init__(self, ex, mod, st, p):
        self.ex, self.mod, self.st, self.p = ex, mod, st, p
        if not isinstance(p, X.Ptr) or X.conc(p.off) != 0:
            raise X.Undecided("the result is not a new node")

    def get(self, off, ty=("ptr",)):
        return self.ex.load(self.st, self.mod, ty, X.Ptr(self.p.region, off))


def base(ex, mod):
    nd = N.Nodes(ex, lambda *a: None)
    # only the nodes of the arguments are abstract
    ex.contracts[:] = [c for c in ex.contracts if not re.search(r"::make|operator|slinky::(min|max|select)\\\(|expr::expr", c[0].pattern)]
    N.handle_contracts(ex)
    return nd


def is_node(ex, mod, n, t):
    L = N.layout()
    vt = "@_ZTVN6slinky%d%sE" % (len(t), t)
    p = n.get(0)
    ex.oblige(n.st, isinstance(p, X.Ptr) and p.region is ex.global_ptr(mod, vt).region and X.conc(p.off) == 16, "the new node visits as what it is", assume=False)
    ex.oblige(n.st, zi(n.get(L["%s.type" % t], ("i", 32))) == N.ty(t), "the new node has its type", assume=False)


def spec(es, name, rx, setup, post, kinds=("eval",)):
    s = S.Spec(name, [es], None, prover=N.prover, timeout=6.0)

    def make(ex):
        fn = N.find([es], rx)
        if fn is None:
            raise X.Undecided("function not found: " + name)
        nd = base(ex, es)
        ex.node_cmp = None
        extra(ex, es)

        def init(st):
            for x in (a0, b0, c0):
                st.assume(x > 0)
                nd.kinds_if(st, x)
            return setup(ex, st)

        def fin(st, ret):
            post(ex, st, ret)
        return fn, init, fin
    s.make = make
    s.kinds = kinds
    return s


def extra(ex, es):
    def move_vec(ex, st, v, i):
        for o in (0, 8, 16):
            ex.store(st, es, ("ptr",), ex.load(st, es, ("ptr",), ex.addoff(v[1], o)), ex.addoff(v[0], o))
        return v[0]
    for rx in (r"std::vector<slinky::expr, .*>::", r"std::vector<std::pair<slinky::var, slinky::expr>, .*>::"):
        ex.contract(rx + r"operator=\(std::vector<.*>&&\)", move_vec)
        ex.contract(rx + r"vector\(std::vector<.*>&&\)", move_vec)
        ex.contract(rx + r"~vector\(\)", lambda ex, st, v, i: None)

        def empty(ex, st, v, i):
            for o in (0, 8, 16):
                ex.store(st, es, ("ptr",), X.NULL, ex.addoff(v[0], o))
        ex.contract(rx + r"vector\(\)", empty)

    def move_fn(ex, st, v, i):
        ex.store(st, es, ("ptr",), ex.load(st, es, ("ptr",), v[1]), v[0])
        return v[0]
    ex.contract(FN + r"operator=\(std::function<.*>&&\)", move_fn)
    ex.contract(FN + r"function\(std::function<.*>&&\)", move_fn)
    ex.contract(FN + r"~function\(\)", lambda ex, st, v, i: None)
    ex.contract(r"std::_Function_base::~_Function_base\(\)", lambda ex, st, v, i: None)
    none = lambda ex, st, v, i: ex.store(st, es, ("ptr",), X.NULL, v[0])
    ex.contract(FN + r"function\((decltype\(nullptr\)|std::nullptr_t)?\)", none)


def obj(st, name, size, cells):
    r = X.Region(name, size)
    st.mem[r] = cells
    return r


def binary(es, t, rx, name, swap=False):
    L = N.layout()

    def setup(ex, st):
        return [X.NodePtr(a0), X.NodePtr(b0)]

    def post(ex, st, ret):
        n = Node(ex, es, st, ret)
        is_node(ex, es, n, t)
        x, y = (hid(n.get(L["%s.%s" % (t, f)])) for f in "ab")
        p, q = (b0, a0) if swap else (a0, b0)
        if N.comm(t):
            sw = T(p) > T(q)
            ex.oblige(st, z3.And(x == z3.If(sw, q, p), y == z3.If(sw, p, q)), "the operands are those given, ordered by their types", assume=False)
        else:
            ex.oblige(st, z3.And(x == p, y == q), "the operands are those given", assume=False)
    return spec(es, name, rx, setup, post)


def specs(es):
    L = N.layout()
    out = []
    for t in N.BIN:
        out.append(binary(es, t, r"slinky::%s::make\(slinky::expr, slinky::expr\)" % t, t + "::make"))
    for s, t in SYMS.items():
        out.append(binary(es, t, r"slinky::operator%s\(slinky::expr, slinky::expr\)" % re.escape(s), "operator%s(expr, expr)" % s))
    for s, t in ((">", "less"), (">=", "less_equal")):
        out.append(binary(es, t, r"slinky::operator%s\(slinky::expr, slinky::expr\)" % re.escape(s), "operator%s(expr, expr)" % s, True))
    for t in ("min", "max"):
        out.append(binary(es, t, r"slinky::%s\(slinky::expr, slinky::expr\)" % t, "%s(expr, expr)" % t))

    def unary(rx, name):
        def post(ex, st, ret):
            n = Node(ex, es, st, ret)
            is_node(ex, es, n, "logical_not")
            ex.oblige(st, hid(n.get(L["logical_not.a"])) == a0, "the operand is that given", assume=False)
        out.append(spec(es, name, rx, lambda ex, st: [X.NodePtr(a0)], post))
    unary(r"slinky::logical_not::make\(slinky::expr\)", "logical_not::make")
    unary(r"slinky::operator!\(slinky::expr\)", "operator!(expr)")

    def ternary(rx, name):
        def post(ex, st, ret):
            n = Node(ex, es, st, ret)
            is_node(ex, es, n, "select")
            for f, x in (("condition", a0), ("true_value", b0), ("false_value", c0)):
                ex.oblige(st, hid(n.get(L["select." + f])) == x, "the operands are those given", assume=False)
        out.append(spec(es, name, rx, lambda ex, st: [X.NodePtr(x) for x in (a0, b0, c0)], post))
    ternary(r"slinky::select::make\(slinky::expr, slinky::expr, slinky::expr\)", "select::make")
    ternary(r"slinky::select\(slinky::expr, slinky::expr, slinky::expr\)", "select(expr, expr, expr)")

    def variable(rx, name, args, plain):
        def post(ex, st, ret):
            p = ret if ret is not None else ex.load(st, es, ("ptr",), X.Ptr(args.r))
            n = Node(ex, es, st, p)
            is_node(ex, es, n, "variable")
            ex.oblige(st, zi(n.get(L["variable.sym"], ("i", 64))) == v0, "the name is that given", assume=False)
            f, d = zi(n.get(L["variable.field"], ("i", 32))), zi(n.get(L["variable.dim"], ("i", 32)))
            ex.oblige(st, z3.And(f == (L["field.none"] if plain else w0), d == (-1 if plain else d0)), "the field is that given", assume=False)
        out.append(spec(es, name, rx, args, post))

    def words(ex, st):
        st.assume(z3.And(X.inr(v0), w0 >= L["field.none"], w0 <= L["field.fold_factor"], X.inr(d0, 32)))

    def one(ex, st):
        words(ex, st)
        return [v0]

    def three(ex, st):
        words(ex, st)
        return [v0, w0, d0]

    class into:
        def __call__(self, ex, st):
            words(ex, st)
            self.r = obj(st, "handle", 8, {})
            return [X.Ptr(self.r), v0]
    variable(r"slinky::variable::make\(slinky::var\)", "variable::make(var)", one, True)
    variable(r"slinky::variable::make\(slinky::var, slinky::buffer_field, int\)", "variable::make(var, field, dim)", three, False)
    variable(r"slinky::expr::expr\(slinky::var\)", "expr(var)", into(), True)

    def make_let(ex, st):
        r = obj(st, "lets", 24, {(0, 8): X.NodePtr(z3.Int("begin")), (8, 8): X.NodePtr(z3.Int("end")), (16, 8): X.NodePtr(z3.Int("capacity"))})
        return [X.Ptr(r), X.NodePtr(a0)]

    def let_post(ex, st, ret):
        n = Node(ex, es, st, ret)
        is_node(ex, es, n, "let")
        ex.oblige(st, hid(n.get(L["let.body"])) == a0, "the body is that given", assume=False)
        o = L["let.lets"]
        ex.oblige(st, z3.And(hid(n.get(o)) == z3.Int("begin"), hid(n.get(o + 8)) == z3.Int("end")), "the lets are those given", assume=False)
    out.append(spec(es, "let::make(lets, body)", r"slinky::let::make\(std::vector<.*>, slinky::expr\)", make_let, let_post))

    def make_call(fn, target):
        def f(ex, st):
            st.assume(z3.And(w0 >= 0, w0 <= L["intrinsic.validate_buffer"]))
            r = obj(st, "args", 24, {(0, 8): X.NodePtr(z3.Int("begin")), (8, 8): X.NodePtr(z3.Int("end")), (16, 8): X.NodePtr(z3.Int("capacity"))})
            t = obj(st, "target", 32, {(0, 8): X.NodePtr(z3.Int("callable"))})
            return ([w0] if fn else []) + ([X.Ptr(t)] if target else []) + [X.Ptr(r)]

        def post(ex, st, ret):
            n = Node(ex, es, st, ret)
            is_node(ex, es, n, "call")
            ex.oblige(st, zi(n.get(L["call.intrinsic"], ("i", 32))) == (w0 if fn else L["intrinsic.none"]), "the intrinsic is that given", assume=False)
            ex.oblige(st, hid(n.get(L["call.target"])) == (z3.Int("callable") if target else 0), "the target is that given", assume=False)
            o = L["call.args"]
            ex.oblige(st, z3.And(hid(n.get(o)) == z3.Int("begin"), hid(n.get(o + 8)) == z3.Int("end")), "the arguments are those given", assume=False)
        rx = r"slinky::call::make\(%s%sstd::vector<.*>\)" % ("slinky::intrinsic, " if fn else "", "std::function<.*>, " if target else "")
        out.append(spec(es, "call::make(%s)" % ", ".join((["intrinsic"] if fn else []) + (["callable"] if target else []) + ["args"]), rx, f, post))
    make_call(True, True)
    make_call(True, False)
    make_call(False, True)
    out += constants(es)
    return out


def constants(es):
    """The constants 0 and 1 are shared objects."""
    L = N.layout()
    out = []

    def add(rx, name, args, shared=False):
        def setup(ex, st):
            st.assume(X.inr(v0))
            for v in (0, 1):
                r = obj(st, "constant %d" % v, 24, {})
                c = st.mem[r]
                vt = ex.global_ptr(es, "@_ZTVN6slinky8constantE")
                c[(0, 8)], c[(L["constant.type"], 4)], c[(L["constant.value"], 8)] = X.Ptr(vt.region, 16), I(N.ty("constant")), I(v)

            def static(ex, st, v_, i, regs=[r for r in st.mem if r.name.startswith("constant ")]):
                return None
            return args(ex, st)

        def post(ex, st, ret):
            p = ret if ret is not None else ex.load(st, es, ("ptr",), X.Ptr(args.r))
            if isinstance(p, X.NodePtr):
                # the shared constants 0 and 1
                ex.oblige(st, shared_value(ex, st, hid(p), v0), "the shared constant has the value", assume=False)
                return
            n = Node(ex, es, st, p)
            is_node(ex, es, n, "constant")
            ex.oblige(st, zi(n.get(L["constant.value"], ("i", 64))) == v0, "the value is that given", assume=False)
        s = spec(es, name, rx, setup, post)
        mk = s.make

        def make(ex):
            r = mk(ex)

            def get(ex, st, v, i):
                q = ex.fresh("shared")
                st.assume(z3.If(zi(v[0]) == 0, q == 900001, z3.If(zi(v[0]) == 1, q == 900002, q == 0)))
                out = []
                for c in (zi(v[0]) == 0, zi(v[0]) == 1, z3.And(zi(v[0]) != 0, zi(v[0]) != 1)):
                    f = st.fork()
                    f.assume(c)
                    out.append((f, X.NodePtr(q) if len(out) < 2 else X.NULL))
                return out
            ex.contract(r"slinky::\(anonymous namespace\)::get_constant\(long\)", get)
            return r
        s.make = make
        out.append(s)

    def shared_value(ex, st, id, v):
        return z3.Or(z3.And(v == 0, id == 900001), z3.And(v == 1, id == 900002))

    class into:
        def __call__(self, ex, st):
            self.r = obj(st, "handle", 8, {})
            return [X.Ptr(self.r), v0]
    add(r"slinky::constant::make\(long\)", "constant::make(value)", lambda ex, st: [v0])
    add(r"slinky::expr::expr\(long\)", "expr(value)", into())
    # the shared constants are of the values that they are kept for
    for v in (0, 1):
        s = S.Spec("the shared constant %d" % v, [es], None, prover=N.prover, timeout=6.0)

        def make(ex, v=v):
            fn = N.find([es], r"(slinky::constant const\* )?slinky::\(anonymous namespace\)::make_static_constant<%dl>\(\)" % v)
            if fn is None:
                raise X.Undecided("the shared constants are not found")
            base(ex, es)
            ex.contract(r"__cxa_guard_acquire", lambda ex, st, w, i: 1)
            ex.contract(r"__cxa_guard_release", lambda ex, st, w, i: None)
            ex.contract(r"__cxa_atexit", lambda ex, st, w, i: 0)

            def fin(st, ret):
                n = Node(ex, es, st, ret)
                is_node(ex, es, n, "constant")
                ex.oblige(st, zi(n.get(N.layout()["constant.value"], ("i", 64))) == v, "the value is that it is kept for", assume=False)

            def init(st):
                # the first call makes the object (later ones find it as it was left)
                for g in es.raw_globals:
                    if g.startswith("@_ZGV") and "make_static_constant" in g:
                        ex.put(st, ex.global_ptr(es, g).region, 0, 1, I(0))
                return []
            return fn, init, fin
        s.make = make
        s.kinds = ("eval",)
        out.append(s)
    return out
