"""Witnesses for divisibility goals: v - r = m * k, found by rewriting with definitional equations and dividing monomials."""
import z3


def monomials(e):
    """{(sorted factor ids): (coefficient, factors)} of a z3 integer term, or None."""
    e = z3.simplify(e, som=True, som_blowup=4000)
    parts = e.children() if z3.is_add(e) else [e]
    out = {}
    for p in parts:
        c, fs = 1, []
        st = [p]
        while st:
            x = st.pop()
            if z3.is_int_value(x):
                c *= x.as_long()
            elif z3.is_mul(x):
                st.extend(x.children())
            elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)):
                fs += [x.arg(0)] * x.arg(1).as_long()
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
                c = -c
                st.append(x.arg(0))
            else:
                fs.append(x)
        fs.sort(key=lambda t: t.get_id())
        k = tuple(f.get_id() for f in fs)
        o = out.get(k, (0, fs))
        out[k] = (o[0] + c, fs)
    return {k: v for k, v in out.items() if v[0]}


def rewrite(e, rules, rounds=6):
    for _ in range(rounds):
        n = z3.simplify(z3.substitute(e, *rules), som=True, som_blowup=4000)
        if n.eq(e):
            break
        e = n
    return e


def divide(e, m):
    """k with e = m*k as polynomials, or None."""
    me = monomials(e)
    if not me:
        return z3.IntVal(0)
    mm = monomials(m)
    if len(mm) != 1:
        return None
    (c, fs), = mm.values()
    k = z3.IntVal(0)
    for ce, fe in me.values():
        if ce % c:
            return None
        rest = list(fe)
        for f in fs:
            for n, g in enumerate(rest):
                if g.eq(f):
                    del rest[n]
                    break
            else:
                return None
        t = z3.IntVal(ce // c)
        for f in rest:
            t = t * f
        k = k + t
    return k


def witness(e, m, rules):
    return divide(rewrite(e, rules), rewrite(m, rules) if not z3.is_const(m) else m)
