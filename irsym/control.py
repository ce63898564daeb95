"""Contracts of the evaluators of the statements that control evaluation, bind names and allocate memory (runtime/evaluate.cc): C14.

See stmts.py for the contract of a statement. A statement that fails ends the statements around it with its result; loops and blocks
evaluate their bodies in order; parallel and asynchronous bodies are evaluated in contexts of their own, which are made before the
parent's context changes, and which agree with the parent's context."""
import z3
from . import bufs, evals, ex as X, nodes as N, spec as S, stmts
from .bufs import Dim, F, RB
from .nodes import I, Z, zi, hid
from .stmts import ALLOC, BIG, EV, EVAL, Env, spec, value, one_body, local, headers, integers

AUTO, UNFOLDED = 2 ** 63 - 1, -1


# --- a name bound to a value ----------------------------------------------------------------------------------------------
def spec_with_value(mod):
    def setup(env, st, this):
        sym, v = env.name(st, "sym", False), z3.Int("v")
        st.assume(X.inr(v))

        def sees(st, ctx, now, binding):
            env.ex.oblige(st, z3.And(sym < env.nd.size(st, ctx), z3.Select(now, sym) == v), "the body sees the value", assume=False)
            env.ex.oblige(st, z3.Implies(env.x != sym, z3.Select(now, env.x) == z3.Select(env.C, env.x)), "the body sees the other names as before", assume=False)
        h = X.Region("handle", 8)
        st.mem[h] = {(0, 8): env.stmt(st, "body", sees)}
        return [this, X.Ptr(h, 0), sym, v]
    return spec(mod, "evaluator::eval_with_value", EV + r"eval_with_value\(slinky::stmt const&, slinky::var, long\)", setup, one_body)


def lets(env, st, n, name="lets"):
    """A vector of lets; the context after the first i of them."""
    SYM, VAL = z3.Array(name + ".syms", Z, Z), z3.Array(name + ".values", Z, Z)
    CL = z3.Function(name + "_context", Z, z3.ArraySort(Z, Z))

    def step(st, i):
        key = ("let fact", name, i.get_id())
        if key in st.ghost:
            return
        st.ghost[key] = i
        st.assume(z3.And(z3.Select(SYM, i) >= 0, z3.Select(SYM, i) < 2 ** 40, z3.Select(VAL, i) > 0,
                         CL(i + 1) == z3.Store(CL(i), z3.Select(SYM, i), EVAL(z3.Select(VAL, i)))))
    st.assume(CL(I(0)) == env.C)
    return SYM, VAL, CL, step


def index(env, st, v):
    """The index that a loop variable stands for."""
    if isinstance(v, X.Ptr) and v.region.kind == "array":
        return env.ex.array_index(st, v.region, v.off)[0]
    return zi(v)


def indices(env, st, entry):
    return [k for k, x in entry.items() if (isinstance(x, X.Ptr) and x.region.kind == "array" and x.region.name not in ("values", "memory")) or
            (not k.startswith("*") and isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool))]


def spec_let(mod):
    def setup(env, st, this):
        ex, nd = env.ex, env.nd
        n = env.count(st, "lets")
        SYM, VAL, CL, step = lets(env, st, n)
        env.n_lets, env.SYM, env.CL, env.step = n, SYM, CL, step

        def sees(st, ctx, now, binding):
            ex.oblige(st, now == CL(n), "the body sees the values of the lets", assume=False)

        def on_expr(st, ctx, e):
            # which let this is
            if not (z3.is_app(e) and e.num_args() == 2 and e.arg(0).eq(VAL)):
                raise X.Undecided("some other value is evaluated")
            i = e.arg(1)
            ex.oblige(st, z3.And(i >= 0, i < n, nd.values(st, ctx) == CL(i)), "the value of a let is evaluated with the lets before it", assume=False)
        env.on_expr = on_expr
        body = env.stmt(st, "body", sees)
        v = env.vector(st, "lets", 16, {(0, 8): SYM, (8, 8): VAL}, n, step)
        L = env.L
        return [this, env.op(st, "let_stmt", {"lets": v, "body": body})]

    def cand(env, ex, st, fn, head, entry):
        nd, out, q = env.nd, [], z3.Int("q!")
        ctx, n = env.ctx, env.n_lets
        vals = lambda s: nd.values(s, ctx)
        out.append(("the context does not shrink", lambda ex, s, v: nd.size(s, ctx) >= env.n))
        n0, v0 = nd.size(st, ctx), vals(st)
        out.append(("the context does not shrink below its size before the loop", lambda ex, s, v: nd.size(s, ctx) >= n0))
        out.append(("the names are bound as before the loop", lambda ex, s, v: vals(s) == v0))
        olds = local(st, 8)
        for k in indices(env, st, entry):
            at = lambda s, v, k=k: index(env, s, v[k])

            def bounds(ex, s, v, at=at):
                i = at(s, v)
                env.step(s, zi(i))
                env.step(s, zi(i) - 1)
                return z3.And(i >= 0, i <= n)
            out.append(("%s is a number of lets" % k, bounds))
            out.append(("the names are bound as after %s lets" % k, lambda ex, s, v, at=at: vals(s) == env.CL(at(s, v))))
            out.append(("the name x is bound as after %s lets" % k, lambda ex, s, v, at=at: z3.Select(vals(s), env.x) == z3.Select(env.CL(at(s, v)), env.x)))
            for j in [j for j, y in entry.items() if isinstance(y, (int, z3.ArithRef)) and not isinstance(y, bool)]:
                if j != k:
                    out.append(("the first %s names are at most %s" % (k, j), lambda ex, s, v, at=at, j=j: z3.And(zi(v[j]) >= 0, zi(v[j]) < 2 ** 40, z3.ForAll([q], z3.Implies(
                        z3.And(0 <= q, q < at(s, v)), z3.Select(env.SYM, q) <= zi(v[j]))))) if not isinstance(entry[j], X.Ptr) else None)
            for r in olds:
                old = lambda s, r=r: ex.array_term(s, r, 0, 8)
                out.append(("the old values of the first %s lets are saved" % k, lambda ex, s, v, at=at, old=old: z3.ForAll([q], z3.Implies(
                    z3.And(0 <= q, q < at(s, v)), z3.Select(old(s), q) == z3.Select(env.CL(q), z3.Select(env.SYM, q))))))
        return [c for c in out if c is not None]
    return spec(mod, "evaluator::eval(const let_stmt*)", EV + r"eval\(slinky::let_stmt const\*\)", setup, one_body, cand)


# --- sequences ------------------------------------------------------------------------------------------------------------
def spec_block(mod):
    def setup(env, st, this):
        n = env.count(st, "stmts")
        SEQ = z3.Array("stmts.nodes", Z, Z)
        env.sequence, env.n_stmts = SEQ, n
        v = env.vector(st, "stmts", 8, {(0, 8): SEQ}, n, lambda st, i: st.assume(z3.Select(SEQ, i) > 0))
        return [this, env.op(st, "block", {"stmts": v})]

    def post(env, st, ret):
        n = env.g(st, 0)
        env.ex.oblige(st, zi(ret) == env.g(st, 1), "the result is that of the last statement", assume=False)
        env.ex.oblige(st, z3.And(n <= env.n_stmts, z3.Or(n == env.n_stmts, zi(ret) != 0)), "every statement is evaluated unless one fails", assume=False)

    def cand(env, ex, st, fn, head, entry):
        out = stmts.names(env)[:2]
        out.append(("no statement has failed", lambda ex, s, v: env.g(s, 1) == 0))
        for k in indices(env, st, entry):
            out.append(("the first %s statements were evaluated" % k, lambda ex, s, v, k=k: z3.And(index(env, s, v[k]) == env.g(s, 0), env.g(s, 0) >= 0, env.g(s, 0) <= env.n_stmts)))
        return out
    return spec(mod, "evaluator::eval(const block*)", EV + r"eval\(slinky::block const\*\)", setup, post, cand)


def loop_op(env, st):
    """The node of a loop, its iterations."""
    IT = z3.Function("iteration", Z, Z)
    sym = env.name(st, "sym", False)
    mn, mx, step, mw = env.expr(st, "bounds.min"), env.expr(st, "bounds.max"), env.expr(st, "step", False), env.expr(st, "max_workers")
    lo, hi, d = EVAL(mn), EVAL(mx), value(step, I(1))
    env.IT, env.lo, env.hi, env.step, env.sym = IT, lo, hi, d, sym
    st.assume(z3.And(IT(I(0)) == lo, d != 0, X.inr(lo), X.inr(hi), X.inr(d)))
    return lambda body: env.op(st, "loop", {"sym": sym, "max_workers": X.NodePtr(mw), "bounds": [X.NodePtr(mn), X.NodePtr(mx)], "step": X.NodePtr(step), "body": body})


def spec_loop_serial(mod):
    def setup(env, st, this):
        ex = env.ex
        op = loop_op(env, st)

        def advance(st, k):
            inside = z3.And(env.lo <= env.IT(k), env.IT(k) <= env.hi)
            # the index after the last iteration is representable
            st.assume(z3.And(env.IT(k + 1) == env.IT(k) + env.step, z3.Implies(inside, X.inr(env.IT(k + 1)))))
        env.advance = advance

        def sees(st, ctx, now, binding):
            k = env.g(st, 0)
            ex.oblige(st, z3.Select(now, env.sym) == env.IT(k), "the body sees the index", assume=False)
            ex.oblige(st, env.sym < env.nd.size(st, ctx), "the index is in the context", assume=False)
            ex.oblige(st, z3.And(env.lo <= env.IT(k), env.IT(k) <= env.hi), "the index is within the bounds", assume=False)
            ex.oblige(st, env.g(st, 1) == 0, "the loop ends when the body fails", assume=False)
            ex.oblige(st, z3.Implies(env.x != env.sym, z3.Select(now, env.x) == z3.Select(env.C, env.x)), "the body sees the other names as before", assume=False)
        return [this, op(env.stmt(st, "body", sees))]

    def post(env, st, ret):
        k = env.g(st, 0)
        env.ex.oblige(st, zi(ret) == env.g(st, 1), "the result is that of the last iteration", assume=False)
        env.ex.oblige(st, z3.Or(zi(ret) != 0, env.IT(k) < env.lo, env.IT(k) > env.hi), "every iteration is done unless one fails", assume=False)

    def cand(env, ex, st, fn, head, entry):
        nd, out = env.nd, []
        get = lambda s: z3.Select(nd.values(s, env.ctx), env.x)
        n0 = nd.size(st, env.ctx)

        def adv(ex, s, v):
            env.advance(s, env.g(s, 0))
            return env.g(s, 0) >= 0
        out.append(("the number of iterations", adv))
        out.append(("the context does not shrink", lambda ex, s, v: nd.size(s, env.ctx) >= n0))
        out.append(("every name but that of the loop is bound as before", lambda ex, s, v: z3.Implies(env.x != env.sym, get(s) == z3.Select(env.C, env.x))))
        ints = integers(entry)
        for k in ints:
            out.append(("%s is the index" % k, lambda ex, s, v, k=k: zi(v[k]) == env.IT(env.g(s, 0))))
            out.append(("%s is the result" % k, lambda ex, s, v, k=k: zi(v[k]) == env.g(s, 1)))
            out.append(("%s is the lower bound" % k, lambda ex, s, v, k=k: zi(v[k]) == env.lo))
        out.append(("no iteration has failed", lambda ex, s, v: env.g(s, 1) == 0))
        return out
    return spec(mod, "evaluator::eval_loop_serial", EV + r"eval_loop_serial\(slinky::loop const\*\)", setup, post, cand)


def spec_loop(mod):
    """A loop is serial unless it has several workers."""
    def setup(env, st, this):
        ex = env.ex
        op = loop_op(env, st)(env.stmt(st, "body"))
        mw = EVAL(z3.Int("max_workers"))
        st.assume(z3.And(mw < BIG, mw > -BIG))

        def run(which):
            def f(ex, st, v, i):
                ex.oblige(st, z3.BoolVal(v[1].region is env.opreg), "the loop is evaluated", assume=False)
                if which == "parallel":
                    ex.oblige(st, zi(v[2]) == mw, "the number of workers is passed on", assume=False)
                ex.oblige(st, (mw > 1) if which == "parallel" else (mw <= 1), "a loop is parallel if it may have several workers", assume=False)
                env.grow(st, env.context_of(st, v[0]), keep=False)
                env.gset(st, 0, env.g(st, 0) + 1)
                r = ex.fresh("result")
                st.assume(X.inr(r))
                env.gset(st, 1, r)
                return r
            return f
        ex.contract(EV + r"eval_loop_parallel\(slinky::loop const\*, long\)", run("parallel"))
        ex.contract(EV + r"eval_loop_serial\(slinky::loop const\*\)", run("serial"))
        return [this, op]
    return spec(mod, "evaluator::eval(const loop*)", EV + r"eval\(slinky::loop const\*\)", setup, one_body)


# --- calls and checks -----------------------------------------------------------------------------------------------------
def spec_call(mod):
    def setup(env, st, this):
        ex = env.ex
        op = env.op(st, "call_stmt", {})

        def call(ex, st, v, i):
            ex.oblige(st, z3.BoolVal(isinstance(v[0], X.Ptr) and v[0].region is env.opreg and X.conc(v[0].off) == env.L["call_stmt.target"]), "the target is called", assume=False)
            ex.oblige(st, z3.BoolVal(v[1].region is env.opreg and v[2].region is env.ctx), "the target gets the statement and the context", assume=False)
            env.gset(st, 0, env.g(st, 0) + 1)
            r = ex.fresh("result")
            st.assume(X.inr(r))
            env.gset(st, 1, r)
            return r
        ex.contract(r"std::function<long \(slinky::call_stmt const\*, slinky::eval_context&\)>::operator\(\)\(.*\) const", call)

        def failed(ex, st, v, i):
            ex.oblige(st, z3.And(zi(v[1]) == env.g(st, 1), zi(v[1]) != 0), "the failure is reported with its result", assume=False)
            env.gset(st, 4, env.g(st, 4) + 1)
        ex.contract(EV + r"call_failed\(long, slinky::call_stmt const\*\)", failed)
        return [this, op]

    def post(env, st, ret):
        one_body(env, st, ret)
        env.ex.oblige(st, env.g(st, 4) == z3.If(zi(ret) != 0, 1, 0), "a failure is reported", assume=False)
    return spec(mod, "evaluator::eval(const call_stmt*)", EV + r"eval\(slinky::call_stmt const\*\)", setup, post)


def spec_check(mod):
    def setup(env, st, this):
        e = env.expr(st, "condition")
        op = env.op(st, "check", {"condition": X.NodePtr(e)})

        def failed(ex, st, v, i):
            env.gset(st, 4, env.g(st, 4) + 1)
            r = ex.fresh("result")
            st.assume(z3.And(X.inr(r), r != 0))
            return r
        env.ex.contract(EV + r"check_failed\(slinky::check const\*\)", failed)
        return [this, op]

    def post(env, st, ret):
        holds = EVAL(z3.Int("condition")) != 0
        env.ex.oblige(st, (zi(ret) == 0) == holds, "a check succeeds if its condition is not zero", assume=False)
        env.ex.oblige(st, env.g(st, 4) == z3.If(holds, 0, 1), "a failure is reported", assume=False)
    return spec(mod, "evaluator::eval(const check*)", EV + r"eval\(slinky::check const\*\)", setup, post)


def spec_check_failed(mod):
    """The handler is called, if there is one (otherwise the program ends), and the check fails."""
    def setup(env, st, this):
        e = env.expr(st, "condition")
        op = env.op(st, "check", {"condition": X.NodePtr(e)})

        def handler(ex, st, v, i):
            ex.oblige(st, z3.BoolVal(isinstance(v[1], X.Ptr) and v[1].region is env.opreg and X.conc(v[1].off) == env.L["check.condition"]), "the handler gets the condition", assume=False)
            env.gset(st, 4, env.g(st, 4) + 1)
        env.ex.contract(r"std::function<void \(slinky::expr const&\)>::operator\(\)\(slinky::expr const&\) const", handler)
        env.ex.contract(r"abort", lambda ex, st, v, i: X.DEAD)
        env.ex.contract(r"slinky::dump_context_for_expr\(.*", lambda ex, st, v, i: None)
        return [this, op]

    def post(env, st, ret):
        env.ex.oblige(st, zi(ret) != 0, "the check fails", assume=False)
        env.ex.oblige(st, env.g(st, 4) == 1, "the handler is called", assume=False)
    return spec(mod, "evaluator::check_failed", EV + r"check_failed\(slinky::check const\*\)", setup, post)


def spec_call_failed(mod):
    def setup(env, st, this):
        op = env.op(st, "call_stmt", {})
        r = z3.Int("r")
        st.assume(z3.And(X.inr(r), r != 0))

        def handler(ex, st, v, i):
            ex.oblige(st, z3.BoolVal(isinstance(v[1], X.Ptr) and v[1].region is env.opreg), "the handler gets the statement", assume=False)
            env.gset(st, 4, env.g(st, 4) + 1)
        env.ex.contract(r"std::function<void \(slinky::call_stmt const\*\)>::operator\(\)\(slinky::call_stmt const\*\) const", handler)
        env.ex.contract(r"abort", lambda ex, st, v, i: X.DEAD)
        env.ex.contract(r"slinky::stmt::(stmt\(slinky::base_stmt_node const\*\)|~stmt\(\))", lambda ex, st, v, i: None)
        return [this, r, op]

    def post(env, st, ret):
        env.ex.oblige(st, env.g(st, 4) == 1, "the handler is called", assume=False)
    return spec(mod, "evaluator::call_failed", EV + r"call_failed\(long, slinky::call_stmt const\*\)", setup, post)


# --- dispatch -------------------------------------------------------------------------------------------------------------
STMTS = ["call_stmt", "let_stmt", "block", "loop", "async", "allocate", "make_buffer", "constant_buffer", "clone_buffer", "crop_buffer",
         "crop_dim", "slice_buffer", "slice_dim", "transpose", "check"]


def spec_dispatch(mod, which):
    """The evaluator of the type of the statement evaluates it."""
    def setup(env, st, this):
        ex, L = env.ex, env.L
        t = z3.Int("type")
        op = X.Region("op", 256)
        st.mem[op] = {(12, 4): t}
        types = STMTS if which == "eval" else [s for s in STMTS if s not in ("call_stmt", "crop_dim")]
        st.assume(z3.Or(*[t == L["stmt." + s] for s in types]))
        h = X.Region("handle", 8)
        st.mem[h] = {(0, 8): X.Ptr(op, 0)}

        def run(ex, st, v, i, cond, same):
            ex.oblige(st, cond, "the evaluator fits the statement", assume=False)
            ex.oblige(st, z3.BoolVal(same and isinstance(v[0], X.Ptr) and v[0].region is this.region), "the statement is evaluated", assume=False)
            env.grow(st, env.context_of(st, v[0]), keep=False)
            env.gset(st, 0, env.g(st, 0) + 1)
            r = ex.fresh("result")
            st.assume(X.inr(r))
            env.gset(st, 1, r)
            return r
        for s in STMTS:
            ex.contract(EV + r"eval\(slinky::%s const\*\)" % s, lambda ex, st, v, i, s=s: run(
                ex, st, v, i, t == L["stmt." + s], isinstance(v[1], X.Ptr) and v[1].region is op and X.conc(v[1].off) == 0))
        if which == "eval":
            def other(ex, st, v, i):
                p = ex.load(st, mod, ("ptr",), v[1])
                return run(ex, st, v, i, z3.And(t != L["stmt.call_stmt"], t != L["stmt.crop_dim"]), isinstance(p, X.Ptr) and p.region is op)
            ex.contract(EV + r"eval_non_inlined\(slinky::stmt const&\)", other)
        ex.contract(r"slinky::unreachable_helper.*|.*unreachable.*", lambda ex, st, v, i: X.DEAD)
        return [this, X.Ptr(h, 0)]
    return spec(mod, "evaluator::%s(const stmt&)" % which, EV + which + r"\(slinky::stmt const&\)", setup, one_body)


def spec_crop_dispatch(mod, t):
    """Crops of a buffer that keeps its name are done in place."""
    def setup(env, st, this):
        ex = env.ex
        sym, src = env.name(st, "sym", False), env.name(st, "src")
        op = env.op(st, t, {"sym": sym, "src": src})

        def run(cond):
            def f(ex, st, v, i):
                ex.oblige(st, cond, "a buffer is modified in place only if it keeps its name", assume=False)
                ex.oblige(st, z3.BoolVal(v[1].region is env.opreg), "the statement is evaluated", assume=False)
                env.grow(st, env.context_of(st, v[0]), keep=False)
                env.gset(st, 0, env.g(st, 0) + 1)
                r = ex.fresh("result")
                st.assume(X.inr(r))
                env.gset(st, 1, r)
                return r
            return f
        ex.contract(EV + r"eval_shadowed\(slinky::%s const\*\)" % t, run(sym == src))
        ex.contract(EV + r"eval_unshadowed\(slinky::%s const\*\)" % t, run(sym != src))
        return [this, op]
    return spec(mod, "evaluator::eval(const %s*)" % t, EV + r"eval\(slinky::%s const\*\)" % t, setup, one_body)


# --- buffers that are made ------------------------------------------------------------------------------------------------
def dims_of(env, st, n, stride_default):
    """A vector of dim_expr, what the dims should be, and loop candidates."""
    L = env.L
    A = {k: z3.Array("dims." + k, Z, Z) for k in F}
    o = {"min": L["dim_expr.bounds"], "max": L["dim_expr.bounds"] + 8, "stride": L["dim_expr.stride"], "fold": L["dim_expr.fold_factor"]}
    default = {"stride": stride_default, "fold": I(UNFOLDED)}
    want = lambda j: Dim(*[value(z3.Select(A[k], j), default.get(k)) for k in F])

    def access(st, i):
        st.assume(z3.And(*[z3.Select(A[k], i) > 0 if k in ("min", "max") or (k == "stride" and stride_default is None) else z3.Select(A[k], i) >= 0 for k in F]))
        st.assume(z3.And(*[X.inr(getattr(want(i), k)) for k in F]))
    v = env.vector(st, "dims", L["sizeof.dim_expr"], {(o[k], 8): A[k] for k in F}, n, access)
    env.want, env.n_dims, env.access = want, n, access
    return v


def broadcast(d):
    return z3.And(d.min == 0, d.max == 0, d.stride == 0)


def dims_candidates(env, ex, st, fn, head, entry):
    out, q = stmts.names(env)[:2], z3.Int("q!")
    n = env.n_dims
    n0 = env.nd.size(st, env.ctx)
    out.append(("the context does not shrink below its size before the loop", lambda ex, s, v: env.nd.size(s, env.ctx) >= n0))
    flags = [k for k, x in entry.items() if not k.startswith("*")]
    for k in integers(entry):
        at = lambda v, k=k: zi(v[k])
        out.append(("%s is a number of dimensions" % k, lambda ex, s, v, at=at: z3.And(at(v) >= 0, at(v) <= n)))
        out.append(("%s is zero or one" % k, lambda ex, s, v, at=at: z3.And(at(v) >= 0, at(v) <= 1)))
        for r in local(st, 32):
            for f in F:
                arr = lambda s, f=f, r=r: ex.array_term(s, r, F[f], 8)
                out.append(("%s from %s on is as specified" % (f, k), lambda ex, s, v, at=at, arr=arr, f=f: z3.ForAll([q], z3.Implies(
                    z3.And(at(v) <= q, q < n), z3.Select(arr(s), q) == getattr(env.want(q), f)))))
        for h in headers(st):
            rank = lambda s, h=h: zi(s.cells(h)[(16, 8)])
            out.append(("the rank of %s is at least %s" % (h.name, k), lambda ex, s, v, at=at, rank=rank: z3.And(rank(s) >= at(v), rank(s) <= n)))
            for f in flags:
                if f != k:
                    tr = lambda v, f=f: v[f] if isinstance(v[f], (bool, z3.BoolRef)) else zi(v[f]) != 0
                    out.append(("%s: the rank of %s is %s" % (f, h.name, k), lambda ex, s, v, at=at, rank=rank, tr=tr: z3.Implies(tr(v), rank(s) == at(v))))
    for h in headers(st):
        rank = lambda s, h=h: zi(s.cells(h)[(16, 8)])
        out.append(("%s has only broadcasts from the rank on" % h.name, lambda ex, s, v, rank=rank: z3.ForAll([q], z3.Implies(
            z3.And(rank(s) <= q, q < n), broadcast(env.want(q))))))
    return out


def sees_made(env, st, binding, sym, base, elem, same=("min", "max", "stride", "fold")):
    """The body sees the buffer as specified, without trailing broadcasts."""
    ex, n = env.ex, env.n_dims
    reg = env.seen(st, binding, sym)
    b, e, r = env.fields(st, reg)
    ob = lambda s, c, w: ex.oblige(s, c, "the body sees " + w, assume=False)
    if base is not None:
        ob(st, b == base, "the base as specified")
    ob(st, z3.And(e == elem, r >= 0, r <= n), "the element size as specified")
    j = z3.Int("dimension")
    env.access(st, j)
    s = st.fork()
    s.assume(z3.And(0 <= j, j < r))
    if ex.sat(s, True) != "unsat":
        d, w = env.dim(s, reg, j), env.want(j)
        ob(s, z3.And(*[getattr(d, k) == getattr(w, k) for k in same]), "every dimension as specified")
        if "stride" not in same:
            ob(s, z3.Or(w.stride == AUTO, d.stride == w.stride), "strides that are given")
    s = st.fork()
    s.assume(z3.And(r <= j, j < n))
    ob(s, broadcast(env.want(j)), "broadcasts from the rank on")
    return reg


def spec_make_buffer(mod):
    def setup(env, st, this):
        ex = env.ex
        sym = env.name(st, "sym", False)
        base, size = env.expr(st, "base", False), env.expr(st, "elem_size", False)
        n = env.count(st, "rank")
        dims = dims_of(env, st, n, None)
        st.assume(z3.And(value(base, I(0)) >= 0, value(size, I(0)) >= 0))
        valid = z3.Bool("valid")
        env.valid = valid

        def validate(ex, st, v, i):
            return valid
        ex.contract(r"slinky::(\(anonymous namespace\)::)?validate_buffer\(slinky::raw_buffer const&\)", validate)

        def sees(st, ctx, now, binding):
            ex.oblige(st, valid, "the body sees only valid buffers", assume=False)
            sees_made(env, st, binding, sym, value(base, I(0)), value(size, I(0)))
        body = env.stmt(st, "body", sees)
        return [this, env.op(st, "make_buffer", {"sym": sym, "base": X.NodePtr(base), "elem_size": X.NodePtr(size), "dims": dims, "body": body})]

    def post(env, st, ret):
        one_body(env, st, ret, True)
        env.ex.oblige(st, z3.Implies(env.valid, env.g(st, 0) == 1), "the body of a valid buffer is evaluated", assume=False)
    return spec(mod, "evaluator::eval(const make_buffer*)", EV + r"eval\(slinky::make_buffer const\*\)", setup, post, dims_candidates)


def spec_constant_buffer(mod):
    def setup(env, st, this):
        sym = env.name(st, "sym", False)
        B = env.buf(st, "BUF")
        body = env.stmt(st, "body", lambda st, ctx, now, binding: env.ex.oblige(
            st, z3.BoolVal(env.seen(st, binding, sym) is B.reg), "the body sees the constant", assume=False))
        return [this, env.op(st, "constant_buffer", {"sym": sym, "value": [X.Ptr(B.reg, 0), X.NULL], "body": body})]
    return spec(mod, "evaluator::eval(const constant_buffer*)", EV + r"eval\(slinky::constant_buffer const\*\)", setup, one_body)


def spec_allocate(mod, storage):
    SIZE, OFFSET, EMPTY = z3.Int("size of the elements"), z3.Int("offset of the base"), z3.Bool("buffer is empty")

    def setup(env, st, this):
        ex, L = env.ex, env.L
        sym = env.name(st, "sym", False)
        size = env.expr(st, "elem_size")
        n = env.count(st, "rank")
        dims = dims_of(env, st, n, I(AUTO))
        st.assume(z3.And(EVAL(size) >= 0, SIZE >= 0, SIZE < 2 ** 60, OFFSET >= 0, OFFSET <= SIZE))
        env.stacked = None

        def strides(st, reg):
            """Strides that are automatic are chosen (C08)."""
            p = ex.load(st, mod, ("ptr",), X.Ptr(reg, RB["dims"]))
            a = ex.array_term(st, p.region, F["stride"], 8)
            h = z3.Array("strides!%d" % next(ex.fresh_n), Z, Z)
            k = z3.Int("k!")
            st.wcells(p.region)[(F["stride"], 8)] = z3.Lambda([k], z3.If(z3.Select(a, k) == AUTO, z3.Select(h, k), z3.Select(a, k)))
            if st.writes is not None:
                st.writes.add((p.region, (F["stride"], 8)))

        def whole(st, p, what):
            """The buffer has its element size and its bounds by now."""
            if not (isinstance(p, X.Ptr) and X.conc(p.off) == 0 and p.region in headers(st)):
                raise X.Undecided("something else is allocated")
            return p.region

        def allocate(ex, st, v, i):
            ex.oblige(st, z3.BoolVal(isinstance(v[0], X.Ptr) and v[0].region is env.config and X.conc(v[0].off) == L["config.allocate"]), "memory is allocated by the hook", assume=False)
            ex.oblige(st, zi(v[1]) == sym, "memory is allocated for the name", assume=False)
            reg = whole(st, v[2], "allocate")
            ex.oblige(st, env.g(st, 2) == 0, "memory is allocated once", assume=False)
            strides(st, reg)
            a, b = ex.fresh("allocation"), ex.fresh("base")
            st.assume(z3.And(a >= 0, b >= 0))
            ok = st.fork()
            ok.assume(a != 0)
            ex.put(ok, reg, 0, 8, X.Ptr(ex.flat, b))
            env.gset(ok, 2, env.g(ok, 2) + 1)
            env.gset(ok, 5, a)
            none = st.fork()     # there is no memory (or none is needed): the base may be left as it was
            keep = none.fork()
            ex.put(none, reg, 0, 8, X.Ptr(ex.flat, b))
            return [(ok, X.Ptr(ex.flat, a)), (none, X.NULL), (keep, X.NULL)]
        ex.contract(r"std::function<void\* \(slinky::var, slinky::raw_buffer\*\)>::operator\(\)\(.*\) const", allocate)

        def free(ex, st, v, i):
            ex.oblige(st, z3.BoolVal(isinstance(v[0], X.Ptr) and v[0].region is env.config and X.conc(v[0].off) == L["config.free"]), "memory is released by the hook", assume=False)
            ex.oblige(st, z3.And(zi(v[1]) == sym, zi(ex.address(v[3])) == env.g(st, 5), zi(ex.address(v[3])) != 0), "the memory that was allocated is released", assume=False)
            whole(st, v[2], "free")
            env.gset(st, 3, env.g(st, 3) + 1)
        ex.contract(r"std::function<void \(slinky::var, slinky::raw_buffer\*, void\*\)>::operator\(\)\(.*\) const", free)

        def init_strides(ex, st, v, i):
            reg = whole(st, v[0], "init_strides")
            bad = st.fork()
            strides(st, reg)
            st.ghost["laid out"] = True
            return [(st, X.Agg([SIZE, I(1)])), (bad, X.Agg([ex.fresh("size"), I(0)]))]
        ex.contract(r"slinky::raw_buffer::init_strides\(long\)", init_strides)
        ex.contract(r"slinky::raw_buffer::base_offset\(\) const", lambda ex, st, v, i: OFFSET)

        def align(ex, st, v, i):
            p, a = v[0], zi(v[1])
            k = ex.fresh("padding")
            st.assume(z3.And(k >= 0, k < a))
            return ex.addoff(p, k)
        ex.contract(r"char\* slinky::align_up<char>\(char\*, unsigned long\)", align)

        def count(ex, st, v, i):
            c = ex.fresh("count")
            st.assume(z3.And(c >= 0, (c == 0) == EMPTY))
            return c
        ex.contract(r"slinky::raw_buffer::elem_count\(\) const", count)
        st.assume(z3.And(z3.Int("base_alignment") >= 1))

        def sees(st, ctx, now, binding):
            reg = sees_made(env, st, binding, sym, None, EVAL(size), ("min", "max", "fold"))
            p = st.cells(reg).get((0, 8))
            if p is None or not isinstance(p, X.Ptr) and not z3.is_expr(p) and p is not X.NULL:
                ex.oblige(st, False, "the body sees a base that was set", assume=False)
                return
            if isinstance(p, X.Ptr) and p.region.name.startswith("local "):
                have = p.region.alloca if getattr(p.region, "alloca", None) is not None else p.region.size
                lo = zi(p.off) - OFFSET
                ex.oblige(st, z3.BoolVal(st.ghost.get("laid out", False)), "strides are chosen before memory is reserved", assume=False)
                ex.oblige(st, z3.And(lo >= 0, lo + SIZE <= have), "the elements are within the memory that is reserved", assume=False)
                return
            ex.oblige(st, z3.Or(zi(ex.address(p)) != 0, EMPTY), "the body sees memory unless the buffer is empty", assume=False)
        body = env.stmt(st, "body", sees)
        return [this, env.op(st, "allocate", {"sym": sym, ("storage", 0, 4): I(L["memory." + storage]), "elem_size": X.NodePtr(size), "dims": dims, "body": body})]

    def post(env, st, ret):
        one_body(env, st, ret, True)
        env.ex.oblige(st, env.g(st, 2) == env.g(st, 3), "the memory is released once", assume=False)
    return spec(mod, "evaluator::eval(const allocate*) on the %s" % storage, EV + r"eval\(slinky::allocate const\*\)", setup, post, dims_candidates)


def spec_free(mod):
    """The memory of an allocation is released and forgotten."""
    def setup(env, st, this):
        ex, nd, L = env.ex, env.nd, env.L
        op = z3.Int("op")
        sym = env.name(st, "sym")
        B = env.buf(st, "BUF")
        a = z3.Int("allocation")
        st.assume(a >= 0)
        B.reg.size = 40
        st.mem[B.reg][(ALLOC, 8)] = X.Ptr(ex.flat, a)
        st.assume(z3.Select(env.C, sym) == B.addr)
        env.B, env.a = B, a
        st.assume(z3.And(op > 0, evals.NARG(op) == 1, N.T(op) == N.ty("call")))
        st.ghost[("type", op.get_id())] = ("call", op)
        st.ghost["C"] = env.C
        env.ex.contract(r"slinky::as_variable\(slinky::expr_ref, slinky::buffer_field\)", lambda ex, st, v, i: X.Agg([sym, I(1)]))

        def free(ex, st, v, i):
            ex.oblige(st, z3.And(zi(v[1]) == sym, zi(ex.address(v[3])) == a), "the memory of the buffer is released", assume=False)
            ex.oblige(st, z3.BoolVal(isinstance(v[2], X.Ptr) and v[2].region is B.reg), "the buffer is passed", assume=False)
            env.gset(st, 3, env.g(st, 3) + 1)
        ex.contract(r"std::function<void \(slinky::var, slinky::raw_buffer\*, void\*\)>::operator\(\)\(.*\) const", free)
        return [this, X.NodePtr(op)]

    def post(env, st, ret):
        env.ex.oblige(st, zi(env.ex.address(st.cells(env.B.reg)[(ALLOC, 8)])) == 0, "the memory is not released again", assume=False)
        env.ex.oblige(st, env.g(st, 3) == 1, "the memory is released once", assume=False)
        env.ex.oblige(st, zi(ret) != 0, "the result is not zero", assume=False)
    return spec(mod, "evaluator::eval_free", EV + r"eval_free\(slinky::call const\*\)", setup, post)


# --- contexts of their own ------------------------------------------------------------------------------------------------
def nested(env):
    """Contexts may be a part of another object: (region, offset) of the object -> the region of the context."""
    ex, nd = env.ex, env.nd
    env.parts = {}

    def ctx(st, p):
        if not isinstance(p, X.Ptr):
            raise X.Undecided("an unknown context")
        if getattr(p.region, "vector", False) and X.conc(p.off) == 0:
            return p.region
        r = env.parts.get((p.region, X.conc(p.off)))
        if r is None or r not in st.mem:
            raise X.Undecided("an unknown context")
        return r
    env.ctx_at = ctx

    def make(ex, st, v, i):
        """A context without names."""
        p = v[0]
        r = X.Region("a context", 32)
        r.vector = True
        env.parts[(p.region, X.conc(p.off))] = r
        st.mem[r] = {(24, 8): X.NodePtr(z3.Int("default config"))}
        nd.put(st, r, z3.Array("values!%d" % next(ex.fresh_n), Z, Z), I(0))
    ex.contract(r"@_ZN6slinky12eval_contextC[12]Ev|slinky::eval_context::eval_context\(\)", make)

    def end(ex, st, v, i):
        if env.on_end:
            env.on_end(st, ctx(st, v[0]))
    env.on_end = None
    ex.contract(r"slinky::eval_context::~eval_context\(\)", end)
    ex.contract(r"slinky::eval_context::size\(\) const", lambda ex, st, v, i: nd.size(st, ctx(st, v[0])))

    def put(ex, st, v, i):
        c, s, x = ctx(st, v[0]), zi(v[1]), zi(ex.address(v[2]))
        ex.oblige(st, z3.And(s >= 0, s < nd.size(st, c)), "variables are looked up within the context")
        a = nd.values(st, c)
        nd.put(st, c, z3.Store(a, s, x), nd.size(st, c), writes=True)
        return z3.Select(a, s)
    ex.contract(r"slinky::eval_context::set\(slinky::var, long\)", put)

    def reserve(ex, st, v, i):
        c, n = ctx(st, v[0]), zi(v[1])
        m = ex.fresh("size")
        st.assume(z3.And(m >= n, m >= nd.size(st, c), m < evals.BIG))
        nd.put(st, c, nd.values(st, c), m, writes=True)
    ex.contract(r"slinky::eval_context::reserve\(unsigned long\)", reserve)
    # copies of statements
    def same(ex, st, v, i):
        ex.store(st, env.mod, ("ptr",), ex.load(st, env.mod, ("ptr",), v[1]), v[0])
        return v[0]
    ex.contract(r"slinky::stmt::stmt\(slinky::stmt (const&|&&)\)|slinky::stmt::operator=\(slinky::stmt (const&|&&)\)", same)

    def gone(ex, st, v, i):
        if env.on_end:
            env.on_end(st, v[0].region if isinstance(v[0], X.Ptr) else None)
    ex.contract(r"slinky::stmt::~stmt\(\)", gone)


def maybe_closure(env, st, n):
    """A statement that may be a closure: (pointer, whether it is, its body)."""
    L = env.L
    r = X.Region(n, 64)
    r.const = True
    t, c = z3.Int(n + ".type"), z3.Int(n + ".is_closure")
    st.assume(z3.And(z3.Or(*[t == L["stmt." + s] for s in STMTS]), c >= 0, c <= 1))
    b = X.Region(n + ".body", 64)
    b.const = True
    st.mem[b] = {(12, 4): z3.Int(n + ".body.type")}
    st.mem[r] = {(12, 4): t, (L["let_stmt.is_closure"], 1): c, (L["let_stmt.body"], 8): X.Ptr(b, 0)}
    return X.Ptr(r, 0), z3.And(t == L["stmt.let_stmt"], c == 1), X.Ptr(b, 0)


def spec_init_context(mod, closure):
    """A new context has what the closure needs from its parent, or everything if there is no closure."""
    def setup(env, st, this):
        ex, nd, L = env.ex, env.nd, env.L
        ctx, V, m = nd.context(st, "new")
        st.mem[ctx][(24, 8)] = X.NULL
        env.new = ctx
        excl = env.excl = z3.Int("exclude")
        st.assume(z3.And(excl >= -1, excl < 2 ** 40))
        if not closure:
            def assign(ex, st, v, i):
                a, b = v[0].region, v[1].region
                nd.put(st, a, nd.values(st, b), nd.size(st, b), writes=True)
                ex.put(st, a, 24, 8, st.cells(b)[(24, 8)])
                return v[0]
            ex.contract(r"slinky::eval_context::operator=\(slinky::eval_context const&\)", assign)
            return [X.Ptr(ctx, 0), X.Ptr(env.ctx, 0), X.NULL, excl]
        n = env.count(st, "lets")
        SYM, VAL = z3.Array("lets.syms", Z, Z), z3.Array("lets.values", Z, Z)
        FROM = z3.Function("variable", Z, Z)
        CL = z3.Function("closure_context", Z, z3.ArraySort(Z, Z))
        env.CL, env.n_lets = CL, n

        def step(st, i):
            s, v = z3.Select(SYM, i), z3.Select(VAL, i)
            # closures name variables that the parent has
            st.assume(z3.And(v > 0, s >= 0, s < env.n, FROM(v) >= 0, z3.Or(s == excl, FROM(v) < env.n),
                             CL(i + 1) == z3.If(s == excl, CL(i), z3.Store(CL(i), s, z3.Select(env.C, FROM(v))))))
        env.step = step
        st.assume(CL(I(0)) == V)
        ex.contract(r"slinky::as_variable\(slinky::expr_ref, slinky::buffer_field\)", lambda ex, st, v, i: (
            ex.oblige(st, zi(v[1]) == L["buffer_field.none"] if "buffer_field.none" in L else True, "plain variables are captured"), X.Agg([FROM(hid(v[0])), I(1)]))[1])
        r = X.Region("closure", 64)
        st.mem[r] = {}
        for k, p in enumerate(env.vector(st, "lets", 16, {(0, 8): SYM, (8, 8): VAL}, n, step)):
            st.mem[r][(L["let_stmt.lets"] + 8 * k, 8)] = p
        return [X.Ptr(ctx, 0), X.Ptr(env.ctx, 0), X.Ptr(r, 0), excl]

    def post(env, st, ret):
        ex, nd = env.ex, env.nd
        a, m = nd.values(st, env.new), nd.size(st, env.new)
        ob = lambda c, w: ex.oblige(st, c, w, assume=False)
        p = st.cells(env.new)[(24, 8)]
        ob(z3.BoolVal(isinstance(p, X.Ptr) and p.region is env.config), "the new context has the configuration of its parent")
        ob(m >= env.n, "the new context has the names of its parent")
        if closure:
            ob(z3.Or(env.x == env.excl, z3.Select(a, env.x) == z3.Select(env.CL(env.n_lets), env.x)), "the new context has the values that the closure names")
        else:
            ob(z3.Select(a, env.x) == z3.Select(env.C, env.x), "the new context has the values of its parent")
        ob(nd.values(st, env.ctx) == env.C, "the parent is not changed")

    def cand(env, ex, st, fn, head, entry):
        nd, out = env.nd, []
        n0, c0 = nd.size(st, env.new), nd.size(st, env.ctx)
        out.append(("the size of the new context is as before the loop", lambda ex, s, v: nd.size(s, env.new) == n0))
        out.append(("the parent has its size", lambda ex, s, v: nd.size(s, env.ctx) == c0))
        out.append(("the parent is not changed", lambda ex, s, v: nd.values(s, env.ctx) == env.C))
        for k in indices(env, st, entry):
            def at(s, v, k=k):
                i = index(env, s, v[k])
                env.step(s, i)
                return i
            out.append(("%s is a number of lets" % k, lambda ex, s, v, at=at: z3.And(at(s, v) >= 0, at(s, v) <= env.n_lets)))
            out.append(("the first %s values are in the context" % k, lambda ex, s, v, at=at: nd.values(s, env.new) == env.CL(at(s, v))))
            out.append(("the first %s values are in the context, for a name" % k, lambda ex, s, v, at=at: z3.Or(
                env.x == env.excl, z3.Select(nd.values(s, env.new), env.x) == z3.Select(env.CL(at(s, v)), env.x))))
        return out
    return spec(mod, "evaluator::init_context, %s" % ("closure" if closure else "no closure"),
                EV + r"init_context\(slinky::eval_context&, slinky::eval_context const&, slinky::let_stmt const\*, slinky::var\)", setup, post, cand)


INIT = EV + r"init_context\(slinky::eval_context&, slinky::eval_context const&, slinky::let_stmt const\*, slinky::var\)"


def spec_new_context(mod):
    def setup(env, st, this):
        ex, nd = env.ex, env.nd
        nested(env)
        ctx, V, m = nd.context(st, "new")
        p, isc, b = maybe_closure(env, st, "task")
        env.parts_of = (p, isc, b)

        def init(ex, st, v, i):
            ex.oblige(st, z3.BoolVal(v[0].region is ctx and v[1].region is env.ctx), "the new context is made of the context", assume=False)
            got = isinstance(v[2], X.Ptr) and v[2].region is p.region
            ex.oblige(st, isc if got else z3.And(z3.BoolVal(X.is_null(v[2]) if hasattr(X, "is_null") else not isinstance(v[2], X.Ptr) or v[2].region is X.NULL.region), z3.Not(isc)), "the closure of the task is used", assume=False)
            ex.oblige(st, zi(v[3]) == -1, "no name is left out", assume=False)
            env.gset(st, 0, env.g(st, 0) + 1)
        ex.contract(INIT, init)
        return [this, p, X.Ptr(ctx, 0)]

    def post(env, st, ret):
        p, isc, b = env.parts_of
        ex = env.ex
        ex.oblige(st, env.g(st, 0) == 1, "the context is made once", assume=False)
        if not isinstance(ret, X.Ptr):
            raise X.Undecided("the result is something else")
        ex.oblige(st, isc if ret.region is b.region else z3.And(z3.BoolVal(ret.region is p.region), z3.Not(isc)), "the result is the body of the closure, or the statement", assume=False)
    return spec(mod, "evaluator::make_new_context", EV + r"make_new_context\(slinky::stmt, slinky::eval_context&\)", setup, post)


def spec_async(mod, mode):
    """mode: when the task runs (None: there is no thread pool)."""
    def setup(env, st, this):
        ex, nd, L = env.ex, env.nd, env.L
        nested(env)
        sym = z3.Int("sym")
        st.assume(z3.And(sym >= -1, sym < 2 ** 40))
        task = X.Region("the task", 64)
        st.mem[task] = {}
        if mode:
            pool, vt = X.Region("pool", 64), X.Region("vtable", 512)
            st.mem[vt] = {(o, 8): X.FnPtr("@other", mod) for o in range(0, 128, 8)}
            st.mem[vt][(L["thread_pool.wait_for_task"], 8)] = X.FnPtr("@wait_for_task", mod)
            st.mem[pool] = {(0, 8): X.Ptr(vt, 0)}
            st.mem[env.config][(L["config.thread_pool"], 8)] = X.Ptr(pool, 0)
        else:
            st.mem[env.config][(L["config.thread_pool"], 8)] = X.NULL
        T_, B_ = env.stmt(st, "task"), env.stmt(st, "body")
        done = lambda st: env.g(st, 5)
        address = z3.Int("address of the task") if mode else I(0)
        st.assume(z3.And(address >= 0, X.inr(address)))
        env.address, env.symv = address, sym

        def new_context(ex, st, v, i):
            c = env.ctx_at(st, v[2])
            if not isinstance(v[1], X.Ptr) or v[1].region not in (T_.region, B_.region):
                raise X.Undecided("a context for something else")
            W, m = z3.Array("values!%d" % next(ex.fresh_n), Z, Z), ex.fresh("size")
            st.assume(z3.And(m >= 0, m < evals.BIG))
            nd.put(st, c, W, m, writes=True)
            made = X.Region("to evaluate", 64)
            made.const = True
            st.mem[made] = {}
            st.ghost[("made", made)] = (v[1].region, c, nd.values(st, env.ctx))
            return X.Ptr(made, 0)
        ex.contract(EV + r"make_new_context\(slinky::stmt, slinky::eval_context&\)", new_context)

        def evaluate(ex, st, v, i):
            p, c = ex.load(st, mod, ("ptr",), v[0]), env.ctx_at(st, v[1])
            m = st.ghost.get(("made", p.region)) if isinstance(p, X.Ptr) else None
            if m is None:
                ex.oblige(st, False, "statements are evaluated in contexts of their own", assume=False)
                return X.DEAD
            which, ctx, parent = m
            ob = lambda c, w: ex.oblige(st, c, w, assume=False)
            ob(z3.BoolVal(ctx is c), "statements are evaluated in the context that was made for them")
            r = ex.fresh("result")
            st.assume(X.inr(r))
            if which is T_.region:
                ob(z3.Select(parent, env.x) == z3.Select(env.C, env.x), "the task sees the names as before")
                env.gset(st, 5, done(st) + 1)
                env.gset(st, 6, r)
            else:
                ob(z3.Implies(env.x != sym, z3.Select(parent, env.x) == z3.Select(env.C, env.x)), "the body sees the other names as before")
                ob(z3.Implies(sym >= 0, z3.Select(parent, sym) == address), "the body sees the task")
                env.gset(st, 0, env.g(st, 0) + 1)
                env.gset(st, 1, r)
            return r
        ex.contract(r"slinky::evaluate\(slinky::stmt const&, slinky::eval_context&\)", evaluate)
        run = N.find([mod], EV + r"eval\(slinky::async const\*\)::'lambda'\(\)::operator\(\)\(\) const")

        def enqueue(ex, st, v, i):
            if run is None or not isinstance(v[1], X.Ptr):
                raise X.Undecided("the task that is enqueued")
            st.ghost["task"] = v[1]
            if mode == "at once":
                return X.Inline([v[1]], lambda ex, st, r: X.Ptr(task, 0), run)
            return X.Ptr(task, 0)
        ex.contract(r"slinky::ref_count<slinky::thread_pool::task> slinky::thread_pool::enqueue<.*>\(.*\)", enqueue)

        def wait(ex, st, v, i):
            ex.oblige(st, z3.BoolVal(isinstance(v[1], X.Ptr) and v[1].region is task), "the task is waited for", assume=False)
            env.gset(st, 7, env.g(st, 7) + 1)
            if mode == "late" and ex.must(st, done(st) == 0):
                return X.Inline([st.ghost["task"]], None, run)
            return None
        ex.contract(r"@wait_for_task", wait)
        task.addr = address
        RC = r"slinky::ref_count<slinky::thread_pool::task>::"

        def take(ex, st, v, i):
            ex.store(st, mod, ("ptr",), v[1], v[0])

        def move(ex, st, v, i):
            ex.store(st, mod, ("ptr",), ex.load(st, mod, ("ptr",), v[1]), v[0])
            return v[0]
        ex.contract(RC + r"ref_count\(slinky::thread_pool::task\*\)", take)
        ex.contract(RC + r"(ref_count|operator=)\(slinky::ref_count<slinky::thread_pool::task>(&&| const&)\)", move)
        ex.contract(RC + r"~ref_count\(\)", lambda ex, st, v, i: None)
        ex.contract(RC + r"operator(\*|->)\(\)( const)?", lambda ex, st, v, i: ex.load(st, mod, ("ptr",), v[0]))

        def end(st, r):
            for k, m in st.ghost.items():
                if isinstance(k, tuple) and k[0] == "made" and m[0] is T_.region and (r is m[1] or (r is not None and r.name.startswith("local ") and any(
                        isinstance(x, X.Ptr) and x.region is k[1] for x in st.cells(r).values()))):
                    ex.oblige(st, done(st) == 1, "what the task uses exists until it is done", assume=False)
        env.on_end = end
        return [this, env.op(st, "async", {"sym": sym, "task": T_, "body": B_})]

    def post(env, st, ret):
        ob = lambda c, w: env.ex.oblige(st, c, w, assume=False)
        ob(env.g(st, 5) == 1, "the task runs once")
        ob(env.g(st, 0) == 1, "the body is evaluated once")
        ob(zi(ret) == z3.If(env.g(st, 6) != 0, env.g(st, 6), env.g(st, 1)), "a failure of the task or the body is the result")
        if mode:
            ob(env.g(st, 7) >= 1, "the task is waited for")
    return spec(mod, "evaluator::eval(const async*), %s" % ("the task runs " + mode if mode else "no thread pool"), EV + r"eval\(slinky::async const\*\)", setup, post)


def spec_loop_parallel(mod):
    def setup(env, st, this):
        ex, nd, L = env.ex, env.nd, env.L
        nested(env)
        op = loop_op(env, st)
        lo, hi, d, sym = env.lo, env.hi, env.step, env.sym
        st.assume(z3.And(d > 0, X.inr(hi - lo), X.inr(hi - lo + 1)))
        p, isc, b = maybe_closure(env, st, "body")
        st.mem[env.config][(L["config.thread_pool"], 8)] = X.Ptr(X.Region("pool", 64), 0)
        mw = z3.Int("workers")
        st.assume(z3.And(mw > 1, mw < BIG))

        def ceil(ex, st, v, i):
            a, c = zi(v[0]), zi(v[1])
            q = ex.fresh("quotient")
            ex.oblige(st, c != 0, "no division by zero")
            st.assume(z3.Implies(c > 0, z3.And(q * c >= a, q * c - c < a, z3.Implies(a <= 0, q <= 0), z3.Implies(a > 0, z3.And(q >= 1, q <= a)), X.inr(q))))
            return q
        ex.contract(r"long slinky::ceil_div<long>\(long, long\)", ceil)
        # only one iteration: it is evaluated in the context
        def with_value(ex, st, v, i):
            h = ex.load(st, mod, ("ptr",), v[1])
            ob = lambda c, w: ex.oblige(st, c, w, assume=False)
            ob(z3.BoolVal(isinstance(h, X.Ptr) and h.region is p.region), "the body is evaluated")
            ob(z3.And(zi(v[2]) == sym, zi(ex.address(v[3])) == lo), "the body sees the index")
            ob(z3.And(lo <= hi, lo + d > hi), "the loop has one iteration")
            env.grow(st, env.ctx, keep=False)
            env.gset(st, 0, env.g(st, 0) + 1)
            r = ex.fresh("result")
            st.assume(X.inr(r))
            env.gset(st, 1, r)
            return r
        ex.contract(EV + r"eval_with_value\(slinky::stmt const&, slinky::var, long\)", with_value)
        run = N.find([mod], EV + r"eval_loop_parallel\(slinky::loop const\*, long\)::'lambda'\(long\)::operator\(\)\(long\)( const)?")
        # the result that the iterations share
        res = lambda st: st.ghost.get("result cell")

        def atomic(ex, st, v, i):
            st.ghost["result cell"] = v[0]
            ex.store(st, mod, ("i", 64), v[1], v[0])
        ex.contract(r"std::atomic<long>::atomic\(long\)", atomic)

        def at(st, p):
            r = res(st)
            if r is None or not isinstance(p, X.Ptr) or p.region is not r.region or X.conc(p.off) != X.conc(r.off):
                raise X.Undecided("another atomic variable")
            return zi(ex.load(st, mod, ("i", 64), p))

        def cas(ex, st, v, i):
            cur, e = at(st, v[0]), zi(ex.load(st, mod, ("i", 64), v[1]))
            same = cur == e
            ex.store(st, mod, ("i", 64), z3.If(same, zi(v[2]), cur), v[0])
            ex.store(st, mod, ("i", 64), z3.If(same, e, cur), v[1])
            return same
        ex.contract(r"std::(__atomic_base|atomic)<long>::compare_exchange_strong\(long&, long, .*\)", cas)
        ex.contract(r"std::(__atomic_base|atomic)<long>::operator long\(\) const|std::(__atomic_base|atomic)<long>::load\(.*\) const", lambda ex, st, v, i: at(st, v[0]))

        def function(ex, st, v, i):
            st.ghost["task"] = v[1]
        ex.contract(r"std::function<void \(unsigned long\)>::function<.*>\(.*\)", function)
        ex.contract(r"std::(_Function_base::~_Function_base|function<void \(unsigned long\)>::~function)\(\)", lambda ex, st, v, i: None)

        def init(ex, st, v, i):
            c = env.ctx_at(st, v[0])
            ob = lambda c, w: ex.oblige(st, c, w, assume=False)
            ob(z3.BoolVal(v[1].region is env.ctx and c is not env.ctx), "the context of a worker is made of the context")
            got = isinstance(v[2], X.Ptr) and v[2].region is p.region
            ob(isc if got else z3.Not(isc), "the closure of the body is used")
            if got:
                ob(zi(v[3]) == sym, "the name of the loop is not part of the closure")
            ob(z3.Implies(env.x != sym, z3.Select(nd.values(st, env.ctx), env.x) == z3.Select(env.C, env.x)), "the workers see the other names as before")
            n = ex.fresh("size")
            st.assume(z3.And(n >= nd.size(st, env.ctx), n < evals.BIG))
            nd.put(st, c, z3.Array("values!%d" % next(ex.fresh_n), Z, Z), n, writes=True)
            st.ghost["made"] = (c, nd.values(st, c))
        ex.contract(INIT, init)

        def evaluate(ex, st, v, i):
            h, c = ex.load(st, mod, ("ptr",), v[0]), env.ctx_at(st, v[1])
            ob = lambda c, w: ex.oblige(st, c, w, assume=False)
            m = st.ghost.get("made")
            ob(z3.BoolVal(m is not None and m[0] is c), "the body is evaluated in a context of the worker")
            if m is None or m[0] is not c or not isinstance(h, X.Ptr):
                return X.DEAD
            ob(isc if h.region is b.region else z3.And(z3.BoolVal(h.region is p.region), z3.Not(isc)), "the body is evaluated")
            k = st.ghost["index"]
            ob(z3.Select(nd.values(st, c), sym) == lo + k * d, "the body sees the index")
            ob(z3.Implies(env.x != sym, z3.Select(nd.values(st, c), env.x) == z3.Select(m[1], env.x)), "the body sees the other names as the worker got them")
            r = ex.fresh("result")
            st.assume(X.inr(r))
            st.ghost["result"] = r
            return r
        ex.contract(r"slinky::evaluate\(slinky::stmt const&, slinky::eval_context&\)", evaluate)

        def parallel_for(ex, st, v, i):
            n = zi(v[1])
            ob = lambda c, w: ex.oblige(st, c, w, assume=False)
            ob(z3.And(n >= 1, lo + n * d - d <= hi, lo + n * d > hi), "every iteration is done")
            ob(z3.And(zi(v[3]) >= 1, zi(v[3]) <= mw), "there are at most as many workers as allowed")
            t, cell = st.ghost.get("task"), res(st)
            if t is None or cell is None or run is None:
                raise X.Undecided("the task of the loop")
            ob(at(st, cell) == 0, "no iteration has failed before")
            # some iteration, after any others
            k, before = z3.Int("iteration"), z3.Int("result before")
            st.assume(z3.And(k >= 0, k < n, X.inr(before), k * d >= 0, k * d <= n * d - d))
            st.ghost["index"] = k
            ex.store(st, mod, ("i", 64), before, cell)
            # a worker may have done other iterations before
            c = [r for (o, f), r in env.parts.items() if o is t.region]
            if len(c) != 1:
                raise X.Undecided("the context of the worker")
            worker = c[0]
            m = z3.Int("size of the context of the worker")
            W = z3.Array("context of the worker", Z, Z)
            st.assume(z3.Or(m == 0, z3.And(m >= nd.size(st, env.ctx), m < evals.BIG)))
            nd.put(st, worker, W, m)
            st.ghost["made"] = (worker, W)
            V, size = nd.values(st, env.ctx), nd.size(st, env.ctx)

            def on_ret(ex, st, r):
                now, mine = at(st, cell), st.ghost.get("result")
                ob = lambda c, w: ex.oblige(st, c, w, assume=False)
                if mine is None:
                    ob(z3.BoolVal(False), "the body is evaluated")
                else:
                    ob(now == z3.If(before != 0, before, mine), "the first failure is kept")
                ob(z3.And(nd.values(st, env.ctx) == V, nd.size(st, env.ctx) == size), "iterations do not change the context of their parent")
                after = ex.fresh("result")
                st.assume(X.inr(after))
                ex.store(st, mod, ("i", 64), after, cell)
                env.gset(st, 0, env.g(st, 0) + 1)
                env.gset(st, 1, after)
                return None
            return X.Inline([t, k], on_ret, run)
        ex.contract(r"slinky::thread_pool::parallel_for\(unsigned long, std::function<void \(unsigned long\)>, int\)", parallel_for)
        return [this, op(p), mw]

    def post(env, st, ret):
        n = env.g(st, 0)
        env.ex.oblige(st, z3.If(env.lo > env.hi, z3.And(n == 0, zi(ret) == 0), z3.And(n == 1, zi(ret) == env.g(st, 1))), "the iterations are done, and the first failure is the result", assume=False)
    return spec(mod, "evaluator::eval_loop_parallel", EV + r"eval_loop_parallel\(slinky::loop const\*, long\)", setup, post)


# --- helpers --------------------------------------------------------------------------------------------------------------
def spec_context(mod, name):
    """The operations of a context that the contracts above rely on."""
    def setup(env, st, this):
        ex = env.ex
        env.s, env.v = z3.Int("s"), z3.Int("v")
        st.assume(z3.And(env.s >= 0, env.s < env.n if name != "reserve" else env.s < 2 ** 40, X.inr(env.v)))
        c = X.Ptr(env.ctx, 0)
        return {"size": [c], "reserve": [c, env.s], "lookup": [c, env.s], "set": [c, env.s, env.v]}[name]

    def post(env, st, ret):
        nd, ob = env.nd, lambda c, w: env.ex.oblige(st, c, w, assume=False)
        a, n = nd.values(st, env.ctx), nd.size(st, env.ctx)
        old = z3.Select(env.C, env.s)
        if name in ("lookup", "set"):
            ob(zi(env.ex.address(ret)) == old, "the result is what the name was bound to")
        if name == "size":
            ob(zi(ret) == env.n, "the result is the size")
        ob(a == (z3.Store(env.C, env.s, env.v) if name == "set" else env.C), "the names are bound as specified")
        ob(n >= env.s if name == "reserve" else n == env.n, "the context has the size as specified")
        if name == "set":     # restored() is about the context as it was
            nd.put(st, env.ctx, env.C, n)
    pat = {"size": r"size\(\) const", "reserve": r"reserve\(unsigned long\)", "lookup": r"lookup\(slinky::var\) const", "set": r"set\(slinky::var, long\)"}[name]
    return spec(mod, "eval_context::" + name, r"slinky::eval_context::" + pat, setup, post)


def spec_copy(mod):
    """copy_small_n copies dims."""
    def setup(env, st, this):
        ex = env.ex
        B, O = env.buf(st, "BUF"), env.buf(st, "OTHER")
        env.other = env.bufs.pop("OTHER")      # restored() is not about what is copied to
        n = z3.Int("n")
        st.assume(z3.And(n >= 0, n <= B.rank, n <= O.rank))
        env.count_ = n

        def copy_n(ex, st, v, i):
            """std::copy_n: the first elements."""
            src, m, dst = v[0], zi(v[1]), v[2]
            (a, f), (b, g) = ex.array_index(st, src.region, src.off), ex.array_index(st, dst.region, dst.off)
            if f or g:
                raise X.Undecided("dims are copied to somewhere else")
            q = z3.Int("q!")
            for o in F.values():
                x, y = ex.array_term(st, src.region, o, 8), ex.array_term(st, dst.region, o, 8)
                st.wcells(dst.region)[(o, 8)] = z3.Lambda([q], z3.If(z3.And(b <= q, q < b + m), z3.Select(x, q - b + a), z3.Select(y, q)))
            return ex.addoff(dst, 32 * m)
        ex.contract(r"slinky::dim\* std::copy_n<slinky::dim const\*, unsigned long, slinky::dim\*>\(.*\)", copy_n)
        return [X.Ptr(B.dreg, 0), n, X.Ptr(O.dreg, 0)]

    def post(env, st, ret):
        ex, B, O = env.ex, env.bufs["BUF"], env.other
        j = z3.Int("dimension")
        s = st.fork()
        s.assume(z3.And(0 <= j, j < O.rank))
        ex.oblige(s, z3.And(*[getattr(O.new(s, j), k) == z3.If(j < env.count_, getattr(B.old(j), k), getattr(O.old(j), k)) for k in F]), "the first n dims are copied", assume=False)
    return spec(mod, "copy_small_n<dim>", r"void slinky::internal::copy_small_n<slinky::dim>\(slinky::dim const\*, unsigned long, slinky::dim\*\)", setup, post)


def spec_truncate(mod):
    """transpose::is_truncate: every dimension is in its place."""
    def setup(env, st, this):
        n = env.count(st, "dims")
        DI = z3.Array("dims.index", Z, Z)
        env.DI, env.n_dims = DI, n
        access = lambda st, i: st.assume(z3.And(z3.Select(DI, i) >= -BIG, z3.Select(DI, i) < BIG))
        v = env.vector(st, "dims", 4, {(0, 4): DI}, n, access)
        return [env.op(st, "transpose", {"dims": v})]

    def post(env, st, ret):
        q = z3.Int("q!")
        r = ret if isinstance(ret, (bool, z3.BoolRef)) else zi(ret) != 0
        env.ex.oblige(st, r == z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < env.n_dims), z3.Select(env.DI, q) == q)), "the result says whether every dimension is in its place", assume=False)

    def cand(env, ex, st, fn, head, entry):
        out, q = [], z3.Int("q!")
        for k in indices(env, st, entry):
            at = lambda s, v, k=k: index(env, s, v[k])
            out.append(("%s is a number of dimensions" % k, lambda ex, s, v, at=at: z3.And(at(s, v) >= 0, at(s, v) <= env.n_dims)))
            out.append(("the first %s dimensions are in their places" % k, lambda ex, s, v, at=at: z3.ForAll([q], z3.Implies(
                z3.And(0 <= q, q < at(s, v)), z3.Select(env.DI, q) == q))))
        return out
    return spec(mod, "transpose::is_truncate", r"slinky::transpose::is_truncate\(\) const", setup, post, cand)


def helpers(mod, es):
    return [spec_context(mod, n) for n in ("size", "reserve", "lookup", "set")] + [spec_copy(mod), spec_truncate(es)]


def specs(mod):
    return [spec_with_value(mod), spec_let(mod), spec_block(mod), spec_loop_serial(mod), spec_loop(mod), spec_call(mod), spec_check(mod),
            spec_check_failed(mod), spec_call_failed(mod), spec_dispatch(mod, "eval"), spec_dispatch(mod, "eval_non_inlined"),
            spec_crop_dispatch(mod, "crop_buffer"), spec_crop_dispatch(mod, "crop_dim"), spec_make_buffer(mod), spec_constant_buffer(mod),
            spec_allocate(mod, "heap"), spec_allocate(mod, "stack"), spec_allocate(mod, "automatic"), spec_free(mod),
            spec_init_context(mod, True), spec_init_context(mod, False), spec_new_context(mod), spec_async(mod, None), spec_async(mod, "at once"),
            spec_async(mod, "late"), spec_loop_parallel(mod)]
