"""Obligations from the rewrite rules extracted by extract_rules.cc.

value semantics (the specification, see DESIGN.md): every scalar expression denotes an integer; / and % are Euclidean with
x/0 = x%0 = 0 (exactly SMT-LIB div/mod away from 0); comparisons, &&, ||, ! denote 0 or 1 and treat operands as "!= 0".
"""
import itertools, re, sys
import z3

I64MIN, I64MAX = -2**63, 2**63 - 1


def parse_sexprs(text):
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|\(|\)|[^\s()]+', text)
    stack, cur = [], []
    for t in toks:
        if t == "(":
            stack.append(cur)
            cur = []
        elif t == ")":
            n = cur
            cur = stack.pop()
            cur.append(tuple(n))
        else:
            cur.append(t)
    return cur


class Unknown(Exception):
    pass


def walk(t):
    yield t
    if isinstance(t, tuple):
        for c in t[1:]:
            if isinstance(c, tuple):
                yield from walk(c)


def nowildscope(t):
    """Subterms, not entering predicates about expressions and the operands of staircase bounds."""
    yield t
    if isinstance(t, tuple) and t[0] not in ("pred", "scsb"):
        for c in t[1:]:
            if isinstance(c, tuple):
                yield from nowildscope(c)


def opt_sites(t, path=()):
    """Paths of (opt D A) nodes."""
    if not isinstance(t, tuple):
        return
    if t[0] == "opt":
        yield path
        yield from opt_sites(t[2], path + (2,))
        return
    for i, c in enumerate(t):
        if isinstance(c, tuple):
            yield from opt_sites(c, path + (i,))


def expand_opts(t):
    """All (pattern without opt nodes, bindings) variants. A binding is (term, default)."""
    if not isinstance(t, tuple):
        return [(t, [])]
    h = t[0]
    if h in ("int", "bool", "wild", "const", "unknown"):
        return [(t, [])]
    if h == "opt":
        raise Unknown("opt in an unexpected position")
    BIN = ("add", "sub", "mul", "div", "mod", "min", "max", "less", "less_equal", "equal", "not_equal", "and", "or")
    res = []
    if h in BIN and any(isinstance(c, tuple) and c[0] == "opt" for c in t[1:]):
        a, b = t[1], t[2]
        if b[0] == "opt" and a[0] == "opt":
            raise Unknown("two optional operands")
        if a[0] == "opt":
            # present
            for (pa, ba), (pb, bb) in itertools.product(expand_opts(a[2]), expand_opts(b)):
                res.append(((h, pa, pb), ba + bb))
            for (pa, ba), (pb, bb) in itertools.product(expand_opts(a[2]), expand_opts(b)):
                res.append((pb, [(pa, int(a[1]))] + ba + bb))
        else:
            for (pa, ba), (pb, bb) in itertools.product(expand_opts(a), expand_opts(b[2])):
                res.append(((h, pa, pb), ba + bb))
            for (pa, ba), (pb, bb) in itertools.product(expand_opts(a), expand_opts(b[2])):
                res.append((pa, ba + [(pb, int(b[1]))] + bb))
        return res
    parts = [expand_opts(c) if isinstance(c, tuple) else [(c, [])] for c in t[1:]]
    for combo in itertools.product(*parts):
        res.append(((h,) + tuple(p for p, _ in combo), sum((b for _, b in combo), [])))
    return res


def strip_opt(t):
    """opt nodes in a replacement substitute as their operand."""
    if not isinstance(t, tuple):
        return t
    if t[0] == "opt":
        return strip_opt(t[2])
    return tuple(strip_opt(c) for c in t)


class Rule:
    def __init__(self, s):
        self.table, self.index, self.pattern = s[1], int(s[2]), s[3]
        rest = list(s[4:])
        self.repl = []
        while rest:
            r = rest.pop(0)
            p = rest.pop(0) if rest else None
            self.repl.append((strip_opt(r), strip_opt(p) if p is not None else None))

    @property
    def name(self):
        return "rule %s %s" % (self.table, show(self.pattern))


WN = "xyzwuvt"


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    h = t[0]
    if h in ("int", "bool"):
        return t[1]
    if h == "wild":
        return WN[int(t[1])]
    if h == "const":
        return "c" + t[1]
    if h == "opt":
        return "may_be<%s>(%s)" % (t[1], show(t[2]))
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "less": "<", "less_equal": "<=", "equal": "==",
           "not_equal": "!=", "and": "&&", "or": "||"}
    if h in inf and len(t) == 3:
        return "(%s %s %s)" % (show(t[1]), inf[h], show(t[2]))
    return "%s(%s)" % (h, ", ".join(show(c) for c in t[1:]))


# --- denotations: ('B', bool) or ('I', int) --------------------------------------------------------------------------
def I(v):
    return v[1] if v[0] == "I" else z3.If(v[1], z3.IntVal(1), z3.IntVal(0))


def B(v):
    return v[1] if v[0] == "B" else v[1] != 0


def is_lit(x):
    return z3.is_int_value(x)


def ediv(a, b):
    if is_lit(b):
        return z3.IntVal(0) if b.as_long() == 0 else a / b
    return z3.If(b == 0, z3.IntVal(0), a / b)


def emod(a, b):
    if is_lit(b):
        return z3.IntVal(0) if b.as_long() == 0 else a % b
    return z3.If(b == 0, z3.IntVal(0), a % b)


class Env:
    def __init__(self, consts=None):
        self.v = {}
        self.assume = []
        self.terms = []   # all integer subterms, for overflow side conditions
        self.divs = []
        self.fresh = 0
        self.divc = {}

    def var(self, k):
        if k not in self.v:
            self.v[k] = z3.Int(k)
        return self.v[k]

    def freshint(self, n="f"):
        self.fresh += 1
        return z3.Int("%s!%d" % (n, self.fresh))

    def div(self, a, b):
        return self._qr(a, b)[0]

    def mod(self, a, b):
        return self._qr(a, b)[1]

    def _qr(self, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            # (c ? s : t) / b is c ? s/b : t/b
            (q1, r1), (q2, r2) = self._qr(a.arg(1), b), self._qr(a.arg(2), b)
            return z3.If(a.arg(0), q1, q2), z3.If(a.arg(0), r1, r2)
        k = (a.get_id(), b.get_id())
        if k in self.divc:
            return self.divc[k][2], self.divc[k][3]
        if is_lit(b):
            if b.as_long() == 0:
                r = (z3.IntVal(0), z3.IntVal(0))
            elif abs(b.as_long()) == 1:
                r = (a * b.as_long(), z3.IntVal(0))
            elif is_lit(a):
                r = (z3.simplify(a / b), z3.simplify(a % b))
            else:
                r = (a / b, a % b)
                r = self._freshqr(a, b)
        else:
            r = self._freshqr(a, b)
        self.divc[k] = (a, b, r[0], r[1])
        return r

    def _freshqr(self, a, b):
        q, r = self.freshint("q"), self.freshint("r")
        ax = z3.And(a == b * q + r, 0 <= r, r < z3.If(b > 0, b, -b))
        if is_lit(b):
            self.assume.append(ax)
        else:
            self.assume.append(z3.If(b == 0, z3.And(q == 0, r == 0), ax))
        self.divs.append((a, b, q, r))
        return q, r

    def ev(self, t):
        h = t[0]
        r = self._ev(t)
        if r[0] == "I":
            self.terms.append(r[1])
        return r

    def _ev(self, t):
        h = t[0]
        if h == "int":
            return ("I", z3.IntVal(int(t[1])))
        if h == "bool":
            return ("B", z3.BoolVal(int(t[1]) != 0))
        if h == "wild":
            return ("I", self.var(WN[int(t[1])]))
        if h == "const":
            return ("I", self.var("c" + t[1]))
        if h == "eval":
            n0 = len(self.terms)
            r = self.ev(t[1])
            self.in_range(n0)
            return r
        if h == "boolean":
            return ("B", B(self.ev(t[1])))
        if h == "scsb":
            # Contract of staircase_sum_bounds (proved under C06): when the bound exists (otherwise the rule is not applied),
            # it fits in int and it bounds the sum for every x. Instantiated at the x of the rule.
            sign = int(t[1])
            a1, b1, c1, a2, b2, c2 = [I(self.ev(x)) for x in t[2:]]
            x = self.var("x")
            v = self.div(x + a1, b1) * c1 + self.div(x + a2, b2) * c2
            r = self.freshint("scsb")
            self.assume += [r >= -2**31, r < 2**31, r <= v if sign < 0 else r >= v]
            return ("I", r)
        a = [self.ev(c) for c in t[1:] if isinstance(c, tuple)]
        if h == "add":
            return ("I", I(a[0]) + I(a[1]))
        if h == "sub":
            return ("I", I(a[0]) - I(a[1]))
        if h == "mul":
            return ("I", I(a[0]) * I(a[1]))
        if h == "div":
            return ("I", self.div(I(a[0]), I(a[1])))
        if h == "mod":
            return ("I", self.mod(I(a[0]), I(a[1])))
        if h == "min" or h == "max":
            x, y = I(a[0]), I(a[1])
            return ("I", z3.If((x <= y) if h == "min" else (x >= y), x, y))
        if h == "less":
            return ("B", I(a[0]) < I(a[1]))
        if h == "less_equal":
            return ("B", I(a[0]) <= I(a[1]))
        if h in ("equal", "not_equal"):
            e = (a[0][1] == a[1][1]) if a[0][0] == a[1][0] else I(a[0]) == I(a[1])
            return ("B", e if h == "equal" else z3.Not(e))
        if h in ("and", "and_then"):
            return ("B", z3.And(B(a[0]), B(a[1])))
        if h in ("or", "or_else"):
            return ("B", z3.Or(B(a[0]), B(a[1])))
        if h == "not":
            return ("B", z3.Not(B(a[0])))
        if h == "abs":
            x = I(a[0])
            return ("I", z3.If(x < 0, -x, x))
        if h == "select":
            if a[1][0] == a[2][0]:
                return (a[1][0], z3.If(B(a[0]), a[1][1], a[2][1]))
            return ("I", z3.If(B(a[0]), I(a[1]), I(a[2])))
        if h == "staircase":
            x, o, b, c = [I(v) for v in a]
            return ("I", self.div(x + o, b) * c)
        raise Unknown("no denotation for " + show(t))

    # Contracts of the predicates (each is a contract that C03 proves for the real function).
    def pred(self, t):
        """Returns an upper approximation (as a z3 bool) of the fact that holds when the predicate substitutes to true,
        and the same when it substitutes to false."""
        h = t[0]
        if h == "pred":
            x = self.ev(t[2])
            kind = t[1]
            v = I(x)
            pos = {"is_boolean": z3.Or(v == 0, v == 1), "is_finite": z3.BoolVal(True), "is_zero": v == 0,
                   "is_non_negative": v >= 0, "is_non_positive": v <= 0, "is_positive": v > 0, "is_negative": v < 0,
                   }.get(kind, z3.BoolVal(True))
            return pos, z3.BoolVal(True)
        if h == "and":
            (p0, n0), (p1, n1) = self.pred(t[1]), self.pred(t[2])
            return z3.And(p0, p1), z3.Or(n0, n1)
        if h == "or":
            (p0, n0), (p1, n1) = self.pred(t[1]), self.pred(t[2])
            return z3.Or(p0, p1), z3.And(n0, n1)
        if h == "not":
            p, n = self.pred(t[1])
            return n, p
        if h == "eval":
            return self.pred(t[1])
        if h in ("int", "bool"):
            v = z3.BoolVal(int(t[1]) != 0)
            return v, z3.Not(v)
        if any(isinstance(s, tuple) and s[0] == "pred" for s in walk(t)):
            raise Unknown("predicate nested in an expression")
        # Constants are computed in index_t; a rule is not applied (and later replacements are not tried) if that overflows.
        n0 = len(self.terms)
        v = B(self.ev(t))
        if not any(isinstance(s, tuple) and s[0] == "wild" for s in nowildscope(t)):
            self.in_range(n0)
        return v, z3.Not(v)

    def in_range(self, n0):
        for x in self.terms[n0:]:
            if not is_lit(x):
                self.assume.append(z3.And(x >= I64MIN, x <= I64MAX))


# --- extended integers for the rules that mention infinities ---------------------------------------------------------
class ExtEnv:
    """Values are pairs (k, v): k in {-1, 0, 1}; v is meaningful when k == 0."""
    def __init__(self):
        self.v = {}
        self.assume = []
        self.bad = []

    def ev(self, t):
        h = t[0]
        Z, O = z3.IntVal(0), z3.IntVal(1)
        if h in ("int", "bool"):
            return (Z, z3.IntVal(int(t[1])))
        if h == "pinf":
            return (O, Z)
        if h == "ninf":
            return (z3.IntVal(-1), Z)
        if h == "wild":
            n = WN[int(t[1])]
            if n not in self.v:
                k, v = z3.Int("k_" + n), z3.Int(n)
                self.assume += [k >= -1, k <= 1, v >= I64MIN, v <= I64MAX]
                self.v[n] = (k, v)
            return self.v[n]
        if h == "const":
            n = "c" + t[1]
            if n not in self.v:
                self.v[n] = (Z, z3.Int(n))
            return self.v[n]
        if h == "eval":
            return self.ev(t[1])
        a = [self.ev(c) for c in t[1:]]
        fin = lambda x: x[0] == 0
        if h in ("add", "sub"):
            b = a[1] if h == "add" else (-a[1][0], -a[1][1])
            # inf + -inf is undefined
            self.bad.append(z3.And(a[0][0] != 0, b[0] != 0, a[0][0] != b[0]))
            k = z3.If(a[0][0] != 0, a[0][0], b[0])
            return (k, a[0][1] + b[1])
        if h == "mul":
            sg = lambda x: z3.If(x[0] != 0, x[0], z3.If(x[1] > 0, O, z3.If(x[1] < 0, -O, Z)))
            inf = z3.Or(a[0][0] != 0, a[1][0] != 0)
            self.bad.append(z3.And(inf, sg(a[0]) * sg(a[1]) == 0))
            return (z3.If(inf, sg(a[0]) * sg(a[1]), Z), a[0][1] * a[1][1])
        if h == "div":
            self.bad.append(z3.And(a[0][0] != 0, a[1][0] != 0))
            self.bad.append(z3.And(a[0][0] != 0, a[1][1] == 0))
            k = z3.If(a[0][0] != 0, z3.If(a[1][1] > 0, a[0][0], -a[0][0]), Z)
            # finite / infinite is 0 in the limit of a growing divisor only up to rounding: -1/inf rounds to -1 for a
            # growing positive divisor. The library defines it as 0, so that is the specification here.
            return (k, z3.If(a[1][0] != 0, Z, ediv(a[0][1], a[1][1])))
        lt = lambda x, y: z3.Or(x[0] < y[0], z3.And(x[0] == 0, y[0] == 0, x[1] < y[1]))
        eq = lambda x, y: z3.And(x[0] == y[0], z3.Or(x[0] != 0, x[1] == y[1]))
        ite = lambda c, x, y: (z3.If(c, x[0], y[0]), z3.If(c, x[1], y[1]))
        if h == "min":
            return ite(lt(a[0], a[1]), a[0], a[1])
        if h == "max":
            return ite(lt(a[0], a[1]), a[1], a[0])
        b2i = lambda c: (Z, z3.If(c, O, Z))
        if h == "less":
            self.bad.append(z3.And(a[0][0] == a[1][0], a[0][0] != 0))
            return b2i(lt(a[0], a[1]))
        if h == "less_equal":
            self.bad.append(z3.And(a[0][0] == a[1][0], a[0][0] != 0))
            return b2i(z3.Not(lt(a[1], a[0])))
        if h == "equal":
            return b2i(eq(a[0], a[1]))
        if h == "and":
            return b2i(z3.And(*[z3.Or(x[0] != 0, x[1] != 0) for x in a]))
        if h == "or":
            return b2i(z3.Or(*[z3.Or(x[0] != 0, x[1] != 0) for x in a]))
        if h == "not":
            return b2i(z3.And(a[0][0] == 0, a[0][1] == 0))
        raise Unknown("no extended denotation for " + show(t))

    def pred(self, t):
        if t[0] == "pred":
            x = self.ev(t[2])
            if t[1] == "is_finite":
                return x[0] == 0
            return z3.BoolVal(True)
        if t[0] == "and":
            return z3.And(self.pred(t[1]), self.pred(t[2]))
        if t[0] == "not" and t[1][0] == "pred":
            return z3.BoolVal(True)
        v = self.ev(t)
        return z3.Or(v[0] != 0, v[1] != 0)


class Obligation:
    def __init__(self, name, hyps, goal, vars, rule, variant, ri, binds):
        self.name, self.hyps, self.goal, self.vars = name, hyps, goal, vars
        self.rule, self.variant, self.ri, self.binds = rule, variant, ri, binds
        self.unknown = None

    def smt2(self, extra=()):
        s = z3.Solver()
        for h in self.hyps:
            s.add(h)
        for h in extra:
            s.add(h)
        s.add(z3.Not(self.goal))
        return s.to_smt2()


def has_inf(t):
    return any(isinstance(s, tuple) and s[0] in ("pinf", "ninf", "indet") for s in walk(t))


def obligations(rule):
    out = []
    try:
        variants = expand_opts(rule.pattern)
    except Unknown as e:
        o = Obligation(rule.name, [], None, {}, rule, None, 0, [])
        o.unknown = str(e)
        return [o]
    multi = len(variants) > 1
    for vi, (pat, binds) in enumerate(variants):
        for ri, (rep, pr) in enumerate(rule.repl):
            name = rule.name + " -> " + show(rep) + ((" if " + show(pr)) if pr is not None else "")
            if multi:
                name += " [variant %s]" % show(pat)
            o = Obligation(name, [], None, {}, rule, pat, ri, binds)
            try:
                build(o, rule, pat, rep, pr, ri, binds)
            except Unknown as e:
                o.unknown = str(e)
            out.append(o)
    return out


def build(o, rule, pat, rep, pr, ri, binds):
    if any(has_inf(t) for t in (pat, rep)):
        e = ExtEnv()
        l = e.ev(pat)
        bad = z3.Or(*e.bad) if e.bad else z3.BoolVal(False)
        o.hyps.append(z3.Not(bad))
        for t, d in binds:
            x = e.ev(t)
            o.hyps.append(z3.And(x[0] == 0, x[1] == d))
        for j in range(ri):
            p = rule.repl[j][1]
            if not any(isinstance(s, tuple) and s[0] == "pred" for s in walk(p)):
                o.hyps.append(z3.Not(e.pred(p)))
        if pr is not None:
            o.hyps.append(e.pred(pr))
        r = e.ev(rep)
        o.hyps = e.assume + o.hyps
        o.goal = z3.And(l[0] == r[0], z3.Or(l[0] != 0, l[1] == r[1]))
        o.vars = {k: v for k, v in e.v.items()}
        o.ext = True
        return
    o.ext = False
    e = Env()
    # Bind the defaults of absent optional operands first, so that they are literals in the terms.
    for t, d in binds:
        if t[0] in ("const", "wild"):
            k = ("c" + t[1]) if t[0] == "const" else WN[int(t[1])]
            if k in e.v and not (is_lit(e.v[k]) and e.v[k].as_long() == d):
                raise Unknown("conflicting defaults")
            e.v[k] = z3.IntVal(d)
    for t, d in binds:
        if t[0] not in ("const", "wild"):
            o.hyps.append(I(e.ev(t)) == d)
    l = e.ev(pat)
    pat_terms = list(e.terms)
    for j in range(ri):
        p = rule.repl[j][1]
        if p is None:
            raise Unknown("replacement after an unconditional one")
        o.hyps.append(e.pred(p)[1])
    if pr is not None:
        o.hyps.append(e.pred(pr)[0])
    r = e.ev(rep)
    if l[0] == "B" and r[0] == "B":
        o.goal = l[1] == r[1]
    else:
        o.goal = I(l) == I(r)
    big = any(isinstance(s, tuple) and s[0] == "int" and abs(int(s[1])) > 2**62 for t in (pat, rep) for s in walk(t))
    sc = pr is not None and any(isinstance(s, tuple) and s[0] == "scsb" for t in [pr] + [p for _, p in rule.repl if p] for s in walk(t))
    if big or sc:
        # "no intermediate result of the original expression overflows", and operands are 64-bit values.
        for x in pat_terms:
            if not is_lit(x):
                o.hyps.append(z3.And(x >= I64MIN, x <= I64MAX))
    o.hyps = e.assume + o.hyps
    o.env = e
    o.vars = {k: v for k, v in e.v.items()}


def load(text):
    return [Rule(s) for s in parse_sexprs(text) if s[0] == "rule"]
