// Evaluates contracts on the real library (see DESIGN.md): replays counterexamples, searches for failing inputs when an
// obligation fails, and is the (bounded, labelled) stand-in for functions that are not under contract.
//   exprtool replay FILE            exit 1 and a message if the case in FILE violates its contract
//   exprtool cases FILE             runs every case of FILE, prints the first failing one
//   exprtool run KIND SEED N [RULES]
#include <fstream>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>

#include "drivers/exprtool.h"
using namespace et;

struct stats {
  long cases = 0, effective = 0, skipped = 0;
} st_;

static bool member_of(ll v, const interval_expr& b, const env_t& env) {
  if (b.min.defined() && !is_negative_infinity(b.min)) {
    auto m = value(b.min, env);
    if (!m || v < *m) return false;
  }
  if (b.max.defined() && !is_positive_infinity(b.max)) {
    auto m = value(b.max, env);
    if (!m || v > *m) return false;
  }
  return true;
}

// Is v outside of the interval b (for ends whose value is well defined)?
static bool violates(ll v, const interval_expr& b, const env_t& env, std::string& why) {
  std::ostringstream o;
  if (b.min.defined()) {
    if (is_positive_infinity(b.min)) {
      why = "lower end is +infinity";
      return true;
    }
    auto m = value(b.min, env);
    if (m && v < *m) {
      o << "value " << v << " is below the lower end " << *m << " = " << to_s(b.min);
      why = o.str();
      return true;
    }
  }
  if (b.max.defined()) {
    if (is_negative_infinity(b.max)) {
      why = "upper end is -infinity";
      return true;
    }
    auto m = value(b.max, env);
    if (m && v > *m) {
      o << "value " << v << " is above the upper end " << *m << " = " << to_s(b.max);
      why = o.str();
      return true;
    }
  }
  return false;
}

static ll real_eval(const expr& e, const env_t& env) {
  eval_context ctx;
  static eval_config cfg;
  ctx.config = &cfg;
  ctx.reserve(24);
  for (size_t i = 0; i < 24; ++i) ctx[var(i)] = 0;
  for (auto& i : env) ctx[var(i.first)] = i.second;
  return evaluate(e, ctx);
}

struct maps {
  bounds_map b;
  alignment_map a;
};

static const sx* find(const sx& c, const char* h) {
  for (auto& i : c.l)
    if (i.head() == h) return &i;
  return nullptr;
}

static maps maps_from(const sx& c) {
  maps m;
  if (const sx* b = find(c, "bounds"))
    for (size_t i = 1; i < b->l.size(); ++i) m.b[var(b->l[i].l[0].num())] = iv_from(b->l[i].l[1]);
  if (const sx* b = find(c, "align"))
    for (size_t i = 1; i < b->l.size(); ++i) {
      alignment_type a;
      a.modulus = b->l[i].l[1].num();
      a.remainder = b->l[i].l[2].num();
      m.a[var(b->l[i].l[0].num())] = a;
    }
  return m;
}

static bool satisfies(const maps& m, const env_t& env) {
  for (auto& i : env) {
    auto b = m.b.lookup(var(i.first));
    if (b && !member_of(i.second, *b, env)) return false;
    auto a = m.a.lookup(var(i.first));
    if (a) {
      if (a->modulus == 0) {
        if (i.second != a->remainder) return false;
      } else if (ref_eval::ediv((big)i.second - a->remainder, a->modulus) * a->modulus != (big)i.second - a->remainder) {
        return false;
      }
    }
  }
  return true;
}

static bool contains_call_of(const expr& e, std::initializer_list<intrinsic> is);

// Returns true when the contract is violated.
static bool run_case(const sx& c, std::string& why);

static expr simplify_op(int k, const expr& a, const expr& b) {
  switch (k) {
  case 0: return simplify((const add*)nullptr, a, b);
  case 1: return simplify((const sub*)nullptr, a, b);
  case 2: return simplify((const mul*)nullptr, a, b);
  case 3: return simplify((const class div*)nullptr, a, b);
  case 4: return simplify((const mod*)nullptr, a, b);
  case 5: return simplify((const class min*)nullptr, a, b);
  case 6: return simplify((const class max*)nullptr, a, b);
  case 7: return simplify((const equal*)nullptr, a, b);
  case 8: return simplify((const not_equal*)nullptr, a, b);
  case 9: return simplify((const less*)nullptr, a, b);
  case 10: return simplify((const less_equal*)nullptr, a, b);
  case 11: return simplify((const logical_and*)nullptr, a, b);
  default: return simplify((const logical_or*)nullptr, a, b);
  }
}
static interval_expr bounds_op(int k, const interval_expr& a, const interval_expr& b) {
  switch (k) {
  case 0: return bounds_of((const add*)nullptr, a, b);
  case 1: return bounds_of((const sub*)nullptr, a, b);
  case 2: return bounds_of((const mul*)nullptr, a, b);
  case 3: return bounds_of((const class div*)nullptr, a, b);
  case 4: return bounds_of((const mod*)nullptr, a, b);
  case 5: return bounds_of((const class min*)nullptr, a, b);
  case 6: return bounds_of((const class max*)nullptr, a, b);
  case 7: return bounds_of((const equal*)nullptr, a, b);
  case 8: return bounds_of((const not_equal*)nullptr, a, b);
  case 9: return bounds_of((const less*)nullptr, a, b);
  case 10: return bounds_of((const less_equal*)nullptr, a, b);
  case 11: return bounds_of((const logical_and*)nullptr, a, b);
  default: return bounds_of((const logical_or*)nullptr, a, b);
  }
}

static bool cmp_value(const char* what, const expr& s, ll v, const env_t& env, std::string& why) {
  std::ostringstream o;
  status st;
  auto w = value(s, env, &st);
  if (!w) {
    if (st == undefined) {
      o << what << " has no value: " << to_s(s);
      why = o.str();
      return true;
    }
    ++st_.skipped;
    return false;
  }
  if (*w != v) {
    o << what << " has value " << *w << ", expected " << v << ": " << to_s(s);
    why = o.str();
    return true;
  }
  return false;
}

// The checks that take an already computed result, so that the search can try many environments for each.
static bool check_simplified(const expr& e, const expr& s, const env_t& env, std::string& why) {
  auto v = value(e, env);
  if (!v) return false;
  ++st_.effective;
  if (cmp_value("the simplified expression", s, *v, env, why)) return true;
  status st;
  if (value(s, env, &st)) {
    ll r = real_eval(s, env);
    if (r != *v) {
      why = "evaluate() of the simplified expression gives " + std::to_string(r) + ", expected " + std::to_string(*v);
      return true;
    }
  }
  return false;
}

static bool check_const(const expr& e, const std::optional<index_t>& k, const std::optional<index_t>& lo,
    const std::optional<index_t>& hi, const expr& elo, const expr& ehi, const env_t& env, std::string& why) {
  auto v = value(e, env);
  if (!v) return false;
  ++st_.effective;
  std::ostringstream o;
  if (k && *k != *v) o << "evaluate_constant reports " << *k << ", value is " << *v;
  if (lo && *lo > *v) o << "evaluate_constant_lower_bound reports " << *lo << ", value is " << *v;
  if (hi && *hi < *v) o << "evaluate_constant_upper_bound reports " << *hi << ", value is " << *v;
  if (elo.defined()) {
    auto w = value(elo, env);
    if (is_positive_infinity(elo) || (w && *w > *v))
      o << "constant_lower_bound reports " << to_s(elo) << ", value is " << *v;
  }
  if (ehi.defined()) {
    auto w = value(ehi, env);
    if (is_negative_infinity(ehi) || (w && *w < *v))
      o << "constant_upper_bound reports " << to_s(ehi) << ", value is " << *v;
  }
  why = o.str();
  return !why.empty();
}

static bool check_prove(const expr& e, const std::optional<bool>& r, bool pt, bool pf, const env_t& env, std::string& why) {
  auto v = value(e, env);
  if (!v) return false;
  ++st_.effective;
  if (r && *r != (*v != 0)) why = std::string("attempt_to_prove reports ") + (*r ? "true" : "false");
  if (pt && *v == 0) why = "prove_true holds but the condition is false";
  if (pf && *v != 0) why = "prove_false holds but the condition is true";
  return !why.empty();
}

static bool check_pred(const expr& e, const env_t& env, std::string& why) {
  auto v = value(e, env);
  if (!v) return false;
  ++st_.effective;
  if (is_positive(e) && *v <= 0) why = "is_positive";
  if (is_non_negative(e) && *v < 0) why = "is_non_negative";
  if (is_negative(e) && *v >= 0) why = "is_negative";
  if (is_non_positive(e) && *v > 0) why = "is_non_positive";
  if (is_boolean(e) && *v != 0 && *v != 1) why = "is_boolean";
  if (is_zero(e) && *v != 0) why = "is_zero";
  if (is_one(e) && *v != 1) why = "is_one";
  if (is_true(e) && *v == 0) why = "is_true";
  if (is_false(e) && *v != 0) why = "is_false";
  if (is_infinity(e)) why = "is_infinity";
  auto b = value(boolean(e), env);
  if (!b || *b != (*v != 0)) why = "boolean()";
  if (!why.empty()) why += " holds but the value is " + std::to_string(*v);
  return !why.empty();
}

static int sgn(int x) { return x < 0 ? -1 : x > 0; }

static void collect_names(const sx& s, bool bound, std::set<ll>& out) {
  if (s.l.empty()) return;
  if (!bound && s.head() == "var") out.insert(s.l[1].num());
  if (bound && s.head() == "let")
    for (const sx& i : s.l[1].l) out.insert(i.l[0].num());
  for (const sx& i : s.l) collect_names(i, bound, out);
}
static bool binds_used_name(const sx& e, const sx& r) {
  std::set<ll> b, u;
  collect_names(e, true, b);
  collect_names(r, false, u);
  for (ll i : b)
    if (u.count(i)) return true;
  return false;
}

static bool run_case(const sx& c, std::string& why) {
  const std::string& h = c.head();
  ++st_.cases;
  env_t env;
  if (const sx* e = find(c, "env")) env = env_from(*e);
  if (h == "simplify" || h == "boundsof" || h == "prove") {
    expr e = from_s(c.l[1]);
    maps m = maps_from(c);
    if (!satisfies(m, env)) return false;
    if (h == "simplify") return check_simplified(e, simplify(e, m.b, m.a), env, why);
    if (h == "prove") {
      auto r = attempt_to_prove(e, m.b, m.a);
      return check_prove(e, r, prove_true(e, m.b, m.a), prove_false(e, m.b, m.a), env, why);
    }
    auto v = value(e, env);
    if (!v) return false;
    ++st_.effective;
    return violates(*v, bounds_of(e, m.b, m.a), env, why);
  }
  if (h == "op") {
    // (op NAME A B env)
    int k = bin_index(c.l[1].atom);
    expr a = from_s(c.l[2]), b = from_s(c.l[3]);
    return check_simplified(make_bin(k, a, b), simplify_op(k, a, b), env, why);
  }
  if (h == "bop") {
    // (bop NAME IV IV va vb env)
    int k = bin_index(c.l[1].atom);
    interval_expr a = iv_from(c.l[2]), b = iv_from(c.l[3]);
    // The ends must be defined, an unknown end is an infinity.
    for (interval_expr* i : {&a, &b}) {
      if (!i->min.defined()) i->min = negative_infinity();
      if (!i->max.defined()) i->max = positive_infinity();
    }
    ll va = c.l[4].num(), vb = c.l[5].num();
    if (!member_of(va, a, env) || !member_of(vb, b, env)) return false;
    if (k == 11 || k == 12) {
      // The operands of && and || are booleans.
      if ((va != 0 && va != 1) || (vb != 0 && vb != 1)) return false;
      for (const interval_expr* i : {&a, &b})
        for (const expr* j : {&i->min, &i->max})
          if (j->defined() && !is_infinity(*j) && !is_boolean(*j)) return false;
    }
    auto v = value(make_bin(k, expr(va), expr(vb)), {});
    if (!v) return false;
    ++st_.effective;
    return violates(*v, bounds_op(k, a, b), env, why);
  }
  if (h == "iop") {
    // (iop NAME IV E va env): E is an interval for or/and, an expression otherwise.
    const std::string& n = c.l[1].atom;
    interval_expr a = iv_from(c.l[2]);
    ll va = c.l[4].num();
    if (n == "or" || n == "and" || n == "andsimp" || n == "or2") {
      interval_expr b = iv_from(c.l[3]);
      bool ia = member_of(va, a, env), ib = member_of(va, b, env);
      if (n[0] == 'o' ? !(ia || ib) : !(ia && ib)) return false;
      ++st_.effective;
      if (n == "andsimp") return violates(va, simplify_intersection(a, b), env, why);
      if (violates(va, n[0] == 'o' ? a | b : a & b, env, why)) return true;
      return false;
    }
    if (!member_of(va, a, env)) return false;
    expr s = from_s(c.l[3]);
    auto vs = value(s, env);
    if (!vs) return false;
    interval_expr r;
    big v;
    if (n == "mul") r = a * s, v = (big)va * *vs;
    else if (n == "div") r = a / s, v = ref_eval::ediv(va, *vs);
    else if (n == "add") r = a + s, v = (big)va + *vs;
    else if (n == "sub") r = a - s, v = (big)va - *vs;
    else if (n == "rsub") r = s - a, v = (big)*vs - va;
    else if (n == "neg") r = -a, v = -(big)va;
    else if (n == "align") {
      if (*vs <= 0) return false;
      r = slinky::align(a, s);
      v = va;
    } else return false;
    if (!fits(v)) return false;
    ++st_.effective;
    return violates((ll)v, r, env, why);
  }
  if (h == "icontains") {
    // contains(), empty(), extent() and clamp() of an interval agree with its members.
    interval_expr a = iv_from(c.l[1]);
    expr x = from_s(c.l[2]);
    auto v = value(x, env);
    if (!v) return false;
    bool in = member_of(*v, a, env);
    if (a.min.defined() && !value(a.min, env)) return false;
    if (a.max.defined() && !value(a.max, env)) return false;
    ++st_.effective;
    auto r = value(a.contains(x), env);
    if (r && (*r != 0) != in) why = "contains() is wrong";
    if (a.min.defined() && a.max.defined()) {
      auto em = value(a.empty(), env), ex = value(a.extent(), env);
      ll lo = *value(a.min, env), hi = *value(a.max, env);
      if (em && (*em != 0) != (lo > hi)) why = "empty() is wrong";
      if (ex && (big)*ex != (big)hi - lo + 1) why = "extent() is wrong";
    }
    auto cl = value(clamp(x, a), env);
    if (cl && in && *cl != *v) why = "clamp() changes a member";
    return !why.empty();
  }
  if (h == "const") {
    expr e = from_s(c.l[1]);
    return check_const(e, evaluate_constant(e), evaluate_constant_lower_bound(e), evaluate_constant_upper_bound(e),
        constant_lower_bound(e), constant_upper_bound(e), env, why);
  }
  if (h == "pred") return check_pred(from_s(c.l[1]), env, why);
  if (h == "eval") {
    expr e = from_s(c.l[1]);
    auto v = value(e, env);
    if (!v) return false;
    ++st_.effective;
    eval_context ctx;
    static eval_config cfg;
    ctx.config = &cfg;
    ctx.reserve(24);
    for (size_t i = 0; i < 24; ++i) ctx[var(i)] = 1000 + i;
    for (auto& i : env) ctx[var(i.first)] = i.second;
    std::vector<ll> before;
    for (size_t i = 0; i < 24; ++i) before.push_back(ctx.lookup(var(i)));
    ll r = evaluate(e, ctx);
    if (r != *v) why = "evaluate() gives " + std::to_string(r) + ", expected " + std::to_string(*v);
    for (size_t i = 0; i < 24; ++i)
      if (ctx.lookup(var(i)) != before[i]) why = "evaluate() changed the binding of variable " + std::to_string(i);
    return !why.empty();
  }
  if (h == "subst") {
    // (subst EXPR sym REPL env)
    expr e = from_s(c.l[1]), r = from_s(c.l[3]);
    size_t sym = c.l[2].num();
    auto rv = value(r, env);
    if (!rv) return false;
    // The contract requires that no let in e binds a name that the replacement uses.
    if (binds_used_name(c.l[1], c.l[3])) return false;
    env_t env2 = env;
    env2[sym] = *rv;
    auto v = value(e, env2);
    if (!v) return false;
    ++st_.effective;
    return cmp_value("the result of substitute", substitute(e, var(sym), r), *v, env, why);
  }
  if (h == "substx") {
    // (substx EXPR TARGET REPL env): replaces a subexpression that has the same value.
    expr e = from_s(c.l[1]), t = from_s(c.l[2]), r = from_s(c.l[3]);
    auto tv = value(t, env), rv = value(r, env), v = value(e, env);
    if (!tv || !rv || !v || *tv != *rv) return false;
    ++st_.effective;
    return cmp_value("the result of substitute", substitute(e, t, r), *v, env, why);
  }
  if (h == "dep") {
    // (dep EXPR sym newvalue env)
    expr e = from_s(c.l[1]);
    size_t sym = c.l[2].num();
    auto v = value(e, env);
    env_t env2 = env;
    env2[sym] = c.l[3].num();
    auto v2 = value(e, env2);
    ++st_.effective;
    bool d = depends_on(expr_ref(e), var(sym)).any();
    if (v && v2 && *v != *v2 && !d) why = "the value changes with a variable that depends_on() does not report";
    bool f = false;
    for (var i : find_dependencies(expr_ref(e))) f |= i == var(sym);
    if (v && v2 && *v != *v2 && !f) why = "the value changes with a variable that find_dependencies() does not report";
    if (f != d) why = "find_dependencies and depends_on disagree";
    return !why.empty();
  }
  if (h == "cmp") {
    // (cmp A B C env)
    expr a = from_s(c.l[1]), b = from_s(c.l[2]), d = from_s(c.l[3]);
    ++st_.effective;
    int ab = sgn(compare(expr_ref(a), expr_ref(b))), ba = sgn(compare(expr_ref(b), expr_ref(a)));
    int bd = sgn(compare(expr_ref(b), expr_ref(d))), ad = sgn(compare(expr_ref(a), expr_ref(d)));
    if (ab != -ba) why = "compare is not antisymmetric";
    if (ab <= 0 && bd <= 0 && ad > 0) why = "compare is not transitive";
    if (ab == 0 && ad != bd) why = "compare does not respect equality";
    if (sgn(compare(expr_ref(a), expr_ref(a))) != 0) why = "compare is not reflexive";
    bool m = match(expr_ref(a), expr_ref(b));
    if (m != (ab == 0)) why = "match and compare disagree";
    if (to_s(a) == to_s(b) && !m) why = "match rejects identical expressions";
    if (m) {
      auto va = value(a, env), vb = value(b, env);
      if (va && vb && *va != *vb) why = "match accepts expressions with different values";
      if (to_s(a) != to_s(b)) why = "match accepts expressions with different structure";
    }
    return !why.empty();
  }
  std::cerr << "unknown case " << h << "\n";
  exit(3);
}

// --- printing of sx, shrinking -----------------------------------------------------------------------------------------
static std::string show(const sx& s) {
  if (!s.is_list) return s.atom;
  std::string r = "(";
  for (size_t i = 0; i < s.l.size(); ++i) r += (i ? " " : "") + show(s.l[i]);
  return r + ")";
}
static bool is_expr_sx(const sx& s) {
  static const std::set<std::string> heads = {"int", "var", "let", "not", "select", "abs", "and_then", "or_else", "pinf",
      "ninf", "add", "sub", "mul", "div", "mod", "min", "max", "equal", "not_equal", "less", "less_equal", "and", "or"};
  return s.is_list && heads.count(s.head());
}
static void sites(sx& s, std::vector<sx*>& out) {
  if (is_expr_sx(s)) out.push_back(&s);
  if (s.is_list)
    for (auto& i : s.l) sites(i, out);
}
static sigjmp_buf jb;
static bool fails(const sx& c) {
  std::string why;
  return run_case(c, why);
}
static sx shrink(sx c) {
  bool progress = true;
  int budget = 3000;
  while (progress && budget > 0) {
    progress = false;
    std::vector<sx*> ss;
    sites(c, ss);
    size_t nsites = ss.size();
    for (size_t i = 0; i < nsites && !progress; ++i) {
      ss.clear();
      sites(c, ss);
      if (i >= ss.size()) break;
      sx old = *ss[i];
      std::vector<sx> cands;
      if (old.head() != "int" && old.head() != "var") {
        cands.push_back(parse("(int 0)"));
        cands.push_back(parse("(int 1)"));
        std::vector<sx*> kids;
        for (auto& k : old.l) sites(k, kids);
        for (auto* k : kids) cands.push_back(*k);
      } else if (old.head() == "int") {
        ll v = old.l[1].num();
        if (v != 0) cands.push_back(parse("(int 0)"));
        if (v > 1 || v < -1) cands.push_back(parse("(int " + std::to_string(v / 2) + ")"));
        if (v > 0) cands.push_back(parse("(int " + std::to_string(v - 1) + ")"));
        if (v < 0) cands.push_back(parse("(int " + std::to_string(v + 1) + ")"));
      }
      for (auto& k : cands) {
        if (--budget <= 0) break;
        *ss[i] = k;
        if (fails(c)) {
          progress = true;
          break;
        }
        *ss[i] = old;
      }
    }
    if (!progress) {
      // values of variables
      for (auto& part : c.l) {
        if (part.head() != "env") continue;
        for (size_t j = 1; j < part.l.size() && !progress; ++j) {
          ll v = part.l[j].l[1].num();
          for (ll w : {(ll)0, (ll)(v / 2), (ll)(v > 0 ? v - 1 : v + 1)}) {
            if (w == v || --budget <= 0) continue;
            part.l[j].l[1].atom = std::to_string(w);
            if (fails(c)) {
              progress = true;
              break;
            }
            part.l[j].l[1].atom = std::to_string(v);
          }
        }
      }
    }
  }
  return c;
}

// --- generation ----------------------------------------------------------------------------------------------------------
static const int nvars = 6;
struct gen {
  rng r;
  bool big_consts = false;
  // The simplifier requires (and asserts) that a let does not redefine a name that is already known to it.
  bool unique_lets = false;
  int next_let = 9;
  gen(uint64_t s) : r(s) {}
  ll cst() {
    int k = r.in(0, 99);
    if (k < 70) return r.in(-8, 8);
    if (k < 90) return r.in(-64, 64);
    if (k < 95 || !big_consts) return r.in(-1000, 1000);
    static const ll bigs[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 1ll << 62, -(1ll << 62), 1ll << 31, 1ll << 32};
    return bigs[r.in(0, 7)];
  }
  expr v() { return variable::make(var(r.in(0, nvars - 1))); }
  expr leaf() { return r.p(65) ? v() : constant::make(cst()); }
  expr small() {
    switch (r.in(0, 9)) {
    case 0: return add::make(v(), constant::make(cst()));
    case 1: return mul::make(v(), constant::make(cst()));
    case 2: return min::make(v(), constant::make(cst()));
    case 3: return max::make(v(), constant::make(cst()));
    case 4: return constant::make(cst());
    case 5: return boolean(1);
    default: return v();
    }
  }
  expr boolean(int d) {
    if (r.p(6)) {
      // facts about the alignment of a variable
      ll m = r.p(90) ? r.in(1, 9) : r.in(-6, 0);
      return make_bin(r.p(80) ? 7 : 8, make_bin(4, v(), constant::make(m)), constant::make(r.in(-1, std::max<ll>(m, 1))));
    }
    if (d <= 0) return make_bin(r.in(7, 10), leaf(), leaf());
    switch (r.in(0, 7)) {
    case 0: return logical_and::make(boolean(d - 1), boolean(d - 1));
    case 1: return logical_or::make(boolean(d - 1), boolean(d - 1));
    case 2: return logical_not::make(boolean(d - 1));
    default: return make_bin(r.in(7, 10), any(d - 1), any(d - 1));
    }
  }
  expr scaled() {
    int k = r.in(0, 5);
    if (k == 0) return any(1);
    return k < 3 ? leaf() : make_bin(k < 5 ? 2 : r.in(0, 1), v(), r.p(70) ? constant::make(cst()) : v());
  }
  // Values that depend on comparisons of what the condition compares.
  expr related(int d) {
    expr x = scaled(), y = scaled();
    auto compare = [&]() {
      expr a = r.p(50) ? x : y, b = r.p(90) ? a.same_as(x) ? y : x : scaled();
      if (r.p(10)) b = make_bin(0, b, constant::make(r.in(-2, 2)));
      expr c = make_bin(r.in(7, 10), a, b);
      if (r.p(10)) c = logical_not::make(c);
      if (r.p(15)) c = make_bin(r.in(11, 12), c, boolean(0));
      return c;
    };
    auto value = [&]() -> expr {
      switch (r.in(0, 3)) {
      case 0: return any(d - 2);
      case 1: return compare();
      case 2: return make_bin(r.in(5, 6), x, y);
      default: return select::make(compare(), any(d - 3), any(d - 3));
      }
    };
    expr c = compare();
    return select::make(c, value(), value());
  }
  expr any(int d) {
    if (d <= 0) return leaf();
    int k = r.in(0, 99);
    if (k < 72) {
      int o = r.in(0, 6);
      expr a = any(d - 1);
      expr b = (o >= 2 && o <= 4 && r.p(75)) ? constant::make(cst()) : any(d - 1);
      return make_bin(o, a, b);
    }
    if (k < 80) return boolean(d - 1);
    if (k < 86 && r.p(30)) return related(d);
    if (k < 86) return select::make(r.p(80) ? boolean(d - 1) : any(d - 1), any(d - 1), any(d - 1));
    if (k < 89) return call::make(intrinsic::abs, {any(d - 1)});
    if (k < 91) return logical_not::make(any(d - 1));
    if (k < 94) return make_bin(r.in(11, 12), any(d - 1), any(d - 1));
    if (k < 96) return call::make(r.p(50) ? intrinsic::and_then : intrinsic::or_else, {any(d - 1), any(d - 1)});
    if (unique_lets && next_let > 17) return leaf();
    std::vector<std::pair<var, expr>> lets;
    int n = r.in(1, 3);
    for (int i = 0; i < n; ++i) {
      var name(unique_lets ? next_let++ : r.p(50) ? r.in(0, nvars - 1) : r.in(nvars, nvars + 2));
      bool dup = false;
      for (auto& l : lets) dup |= l.first == name;
      if (!dup) lets.push_back({name, any(d - 1)});
    }
    n = lets.size();
    // Half of the time the body refers to a let variable directly.
    expr body = any(d - 1);
    if (r.p(60)) body = make_bin(r.in(0, 6), body, variable::make(lets[r.in(0, n - 1)].first));
    return let::make(lets, body);
  }
  env_t env() {
    env_t e;
    int m = r.in(0, 9);
    ll lim = m < 5 ? 5 : m < 8 ? 40 : m < 9 ? 5000 : (1ll << 20);
    for (int i = 0; i < nvars; ++i) e[i] = r.in(-lim, lim);
    for (int i = nvars; i < nvars + 3; ++i) e[i] = r.in(-lim, lim);
    if (r.p(30)) e[r.in(0, nvars - 1)] = e[r.in(0, nvars - 1)];
    if (big_consts && r.p(30)) {
      static const ll bigs[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 1ll << 62, -(1ll << 62), 1ll << 61, -(1ll << 60)};
      for (int i = 0; i < nvars; ++i)
        if (r.p(30)) e[i] = bigs[r.in(0, 7)];
    }
    return e;
  }
  // Bounds and alignments satisfied by at least one environment (the one given).
  std::string maps_s(const env_t& e) {
    std::ostringstream o;
    o << "(bounds";
    for (int i = 0; i < nvars; ++i) {
      if (r.p(50)) continue;
      ll x = e.at(i);
      std::string lo = "undef", hi = "undef";
      int k = r.in(0, 9);
      auto end = [&](bool low) -> std::string {
        ll d = r.p(30) ? 0 : r.in(0, 12);
        if (i > 0 && r.p(25)) {
          // an end that depends on another variable
          int j = r.in(0, i - 1);
          big cb = low ? (big)x - d - e.at(j) : (big)x + d - e.at(j);
          if (!fits(cb)) return "undef";
          ll c = (ll)cb;
          return "(add (var " + std::to_string(j) + ") (int " + std::to_string(c) + "))";
        }
        big t = low ? (big)x - d : (big)x + d;
        if (!fits(t)) return "undef";
        return "(int " + std::to_string((ll)t) + ")";
      };
      if (k < 7) lo = end(true);
      else if (k < 8) lo = "(ninf)";
      if (k < 5 || k == 8) hi = end(false);
      else if (k < 6) hi = "(pinf)";
      if (r.p(5)) lo = hi = "(int " + std::to_string(x) + ")";
      o << " (" << i << " (iv " << lo << " " << hi << "))";
    }
    o << ") (align";
    for (int i = 0; i < nvars; ++i) {
      if (r.p(75)) continue;
      ll m = r.in(1, 12);
      if (r.p(5)) m = 0;
      ll x = e.at(i);
      o << " (" << i << " " << m << " " << (m == 0 ? x : (ll)(x - (ll)ref_eval::ediv(x, m) * m)) << ")";
    }
    o << ")";
    return o.str();
  }
  // Instances of rewrite rule patterns.
  struct binding {
    std::vector<expr> w;
    std::vector<ll> c;
  };
  binding bind() {
    binding b;
    for (int i = 0; i < 7; ++i) b.w.push_back(small());
    bool distinct = r.p(60);
    if (distinct)
      for (int i = 0; i < 6; ++i) b.w[i] = r.p(80) ? variable::make(var(i)) : small();
    for (int i = 0; i < 7; ++i) {
      int k = r.in(0, 9);
      ll x = r.in(-8, 8);
      if (i > 0 && k < 3) x = b.c[r.in(0, i - 1)] * (k == 0 ? 1 : k == 1 ? -1 : r.in(-3, 3));
      else if (i > 0 && k < 5) x = b.c[r.in(0, i - 1)] + r.in(-2, 2);
      else if (k == 9) x = cst();
      b.c.push_back(x);
    }
    return b;
  }
  expr inst(const sx& p, const binding& b) {
    const std::string& h = p.head();
    if (h == "wild") return b.w[p.l[1].num()];
    if (h == "const") return constant::make(b.c[p.l[1].num()]);
    if (h == "int" || h == "bool") return constant::make(p.l[1].num());
    if (h == "opt") {
      return inst(p.l[2], b);
    }
    if (h == "pinf") return positive_infinity();
    if (h == "ninf") return negative_infinity();
    std::vector<expr> a;
    for (size_t i = 1; i < p.l.size(); ++i) {
      if (p.l[i].head() == "opt" && r.p(35)) {
        a.push_back(expr());
        continue;
      }
      a.push_back(inst(p.l[i], b));
      if (!a.back().defined()) return expr();
    }
    int k = bin_index(h);
    if (k >= 0) {
      if (!a[0].defined()) return a[1];
      if (!a[1].defined()) return a[0];
      return make_bin(k, a[0], a[1]);
    }
    for (auto& i : a)
      if (!i.defined()) return expr();
    if (h == "not") return logical_not::make(a[0]);
    if (h == "select") return select::make(a[0], a[1], a[2]);
    if (h == "abs") return call::make(intrinsic::abs, a);
    if (h == "and_then") return call::make(intrinsic::and_then, a);
    if (h == "or_else") return call::make(intrinsic::or_else, a);
    if (h == "staircase") return mul::make(div::make(add::make(a[0], a[1]), a[2]), a[3]);
    return expr();
  }
  interval_expr iv(const env_t& e, ll& member) {
    // an interval with a member (or any interval)
    member = r.p(60) ? r.in(-6, 6) : r.in(-100, 100);
    interval_expr i;
    auto end = [&](bool low) -> expr {
      int k = r.in(0, 9);
      if (k == 0) return expr();
      if (k == 1) return low ? negative_infinity() : positive_infinity();
      ll d = r.p(40) ? 0 : r.in(0, 10);
      if (k == 2) d = -r.in(0, 5);
      ll t = low ? member - d : member + d;
      if (k < 5) {
        int j = r.in(0, nvars - 1);
        return add::make(variable::make(var(j)), constant::make(t - e.at(j)));
      }
      if (k == 5) {
        int j = r.in(0, nvars - 1);
        if (e.at(j) == t) return variable::make(var(j));
      }
      return constant::make(t);
    };
    i.min = end(true);
    i.max = end(false);
    if (r.p(15)) {
      int j = r.in(0, nvars - 1);
      i = r.p(50) ? interval_expr(constant::make(member)) : interval_expr(variable::make(var(j)));
      if (!as_constant(i.min)) member = e.at(j);
    }
    return i;
  }
};

static std::vector<sx> load_rules(const char* f) {
  std::ifstream in(f);
  std::vector<sx> r;
  std::string line;
  while (std::getline(in, line))
    if (line.compare(0, 6, "(rule ") == 0) r.push_back(parse(line));
  return r;
}

static std::string current;
static void crash(int sig) {
  const char m[] = "\nCRASH case: ";
  (void)!write(1, m, sizeof(m) - 1);
  (void)!write(1, current.c_str(), current.size());
  (void)!write(1, "\n", 1);
  _exit(sig == SIGALRM ? 4 : 5);
}

static int report(const std::string& cs, std::string why) {
  sx c = shrink(parse(cs));
  std::string w2;
  run_case(c, w2);
  std::cout << "FAIL case: " << show(c) << "\nFAIL why: " << (w2.empty() ? why : w2) << "\n";
  return 1;
}

// One generated expression, checked with several environments. Returns nonzero on failure.
static int try_expr(const std::string& kind, gen& g, const expr& e, int envs, long& distinct) {
  std::string es = to_s(e), why;
  bool eff = false;
  long before = st_.effective;
  current = "(" + kind + " " + es + ")";
  alarm(60);
  if (kind == "simplify" || kind == "boundsof" || kind == "prove") {
    for (int v = 0; v < 2; ++v) {
      env_t e0 = g.env();
      std::string ms = v == 0 ? "(bounds) (align)" : g.maps_s(e0);
      maps m = maps_from(parse("(m " + ms + ")"));
      current = "(" + kind + " " + es + " " + ms + " (env))";
      expr s;
      interval_expr b;
      std::optional<bool> pr;
      bool pt = false, pf = false;
      if (kind == "simplify") s = simplify(e, m.b, m.a);
      else if (kind == "boundsof") b = bounds_of(e, m.b, m.a);
      else pr = attempt_to_prove(e, m.b, m.a), pt = prove_true(e, m.b, m.a), pf = prove_false(e, m.b, m.a);
      for (int i = 0; i < envs; ++i) {
        env_t env = i == 0 ? e0 : g.env();
        if (v == 1 && i > 0) {
          env = e0;
          for (int j = 0; j < nvars; ++j) {
            if (g.r.p(50)) continue;
            env[j] += g.r.in(-6, 6);
          }
          if (!satisfies(m, env)) continue;
        }
        ++st_.cases;
        bool bad = false;
        if (kind == "simplify") bad = check_simplified(e, s, env, why);
        else if (kind == "prove") bad = check_prove(e, pr, pt, pf, env, why);
        else if (auto val = value(e, env)) {
          ++st_.effective;
          bad = violates(*val, b, env, why);
        }
        if (bad) return report("(" + kind + " " + es + " " + ms + " " + env_s(env) + ")", why);
      }
    }
  } else if (kind == "const") {
    auto k = evaluate_constant(e), lo = evaluate_constant_lower_bound(e), hi = evaluate_constant_upper_bound(e);
    expr elo = constant_lower_bound(e), ehi = constant_upper_bound(e);
    for (int i = 0; i < envs; ++i) {
      env_t env = g.env();
      ++st_.cases;
      if (check_const(e, k, lo, hi, elo, ehi, env, why)) return report("(const " + es + " " + env_s(env) + ")", why);
    }
  } else if (kind == "pred") {
    for (int i = 0; i < envs; ++i) {
      env_t env = g.env();
      ++st_.cases;
      if (check_pred(e, env, why)) return report("(pred " + es + " " + env_s(env) + ")", why);
    }
  } else if (kind == "eval") {
    for (int i = 0; i < envs; ++i) {
      std::string cs = "(eval " + es + " " + env_s(g.env()) + ")";
      if (run_case(parse(cs), why)) return report(cs, why);
    }
  } else if (kind == "subst") {
    for (int i = 0; i < envs; ++i) {
      std::string cs;
      env_t env = g.env();
      int sym = g.r.in(0, nvars + 1);
      if (g.r.p(60)) {
        cs = "(subst " + es + " " + std::to_string(sym) + " " + to_s(g.any(g.r.in(0, 2))) + " " + env_s(env) + ")";
      } else {
        // replace a subexpression by something of the same value
        sx t = parse(es);
        std::vector<sx*> ss;
        sites(t, ss);
        sx target = *ss[g.r.in(0, ss.size() - 1)];
        cs = "(substx " + es + " " + show(target) + " (add " + show(target) + " (int 0)) " + env_s(env) + ")";
        if (es.find("(let") != std::string::npos) continue;
      }
      if (run_case(parse(cs), why)) return report(cs, why);
    }
    for (int sym = 0; sym < nvars + 2; ++sym) {
      std::string cs = "(dep " + es + " " + std::to_string(sym) + " " + std::to_string(g.r.in(-40, 40)) + " " + env_s(g.env()) + ")";
      if (run_case(parse(cs), why)) return report(cs, why);
    }
    // comparison with a mutation of e and with another expression
    sx t = parse(es);
    std::vector<sx*> ss;
    sites(t, ss);
    if (g.r.p(70)) *ss[g.r.in(0, ss.size() - 1)] = parse(to_s(g.any(g.r.in(0, 1))));
    std::string cs = "(cmp " + es + " " + show(t) + " " + to_s(g.any(2)) + " " + env_s(g.env()) + ")";
    if (run_case(parse(cs), why)) return report(cs, why);
    // the same expression with different constants, which may be far apart
    static const ll far[] = {INT64_MIN, INT64_MIN + 1, -(1ll << 62) - 1, -(1ll << 32), -3, 0, 2, 1ll << 31, 1ll << 33, 1ll << 62, INT64_MAX};
    sx u[3] = {parse(es), parse(es), parse(es)};
    int site = -1;
    std::string cc = "(cmp";
    for (sx& i : u) {
      ss.clear();
      sites(i, ss);
      if (site < 0) site = g.r.in(0, ss.size() - 1);
      *ss[site] = parse("(int " + std::to_string(far[g.r.in(0, 10)]) + ")");
      cc += " " + show(i);
    }
    cc += " " + env_s(g.env()) + ")";
    if (run_case(parse(cc), why)) return report(cc, why);
  }
  if (st_.effective > before) ++distinct;
  (void)eff;
  return 0;
}

static int run_intervals(gen& g, long n, long& distinct) {
  static const char* iops[] = {"mul", "div", "add", "sub", "rsub", "neg", "align", "or", "and", "andsimp"};
  for (long i = 0; i < n; ++i) {
    env_t env = g.env();
    for (int j = 0; j < nvars; ++j) env[j] = g.r.in(-12, 12);
    ll va, vb;
    interval_expr a = g.iv(env, va), b = g.iv(env, vb);
    std::string why, cs;
    long before = st_.effective;
    int k = g.r.in(0, 2);
    if (k == 0) {
      cs = std::string("(bop ") + bin_names[g.r.in(0, 12)] + " " + iv_s(a) + " " + iv_s(b) + " " + std::to_string(va) +
           " " + std::to_string(vb) + " " + env_s(env) + ")";
    } else if (k == 1) {
      const char* o = iops[g.r.in(0, 9)];
      bool two = !strcmp(o, "or") || !strcmp(o, "and") || !strcmp(o, "andsimp");
      expr s = g.small();
      cs = std::string("(iop ") + o + " " + iv_s(a) + " " + (two ? iv_s(b) : to_s(s)) + " " +
           std::to_string(two && g.r.p(50) ? vb : va) + " " + env_s(env) + ")";
    } else {
      cs = "(icontains " + iv_s(a) + " " + to_s(g.r.p(50) ? expr(va) : g.small()) + " " + env_s(env) + ")";
    }
    current = cs;
    if (run_case(parse(cs), why)) return report(cs, why);
    if (st_.effective > before) ++distinct;
  }
  return 0;
}

int main(int argc, char** argv) {
  static char altstack[1 << 16];
  stack_t ss;
  ss.ss_sp = altstack;
  ss.ss_size = sizeof(altstack);
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = crash;
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, nullptr);
  signal(SIGFPE, crash);
  signal(SIGABRT, crash);
  signal(SIGALRM, crash);
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" || mode == "cases") {
    std::ifstream in(argv[2]);
    std::string line;
    int rc = 0;
    long n = 0;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] != '(') continue;
      std::string why;
      current = line;
      ++n;
      if (run_case(parse(line), why)) {
        std::cout << "FAIL case: " << line << "\nFAIL why: " << why << "\n";
        return 1;
      }
    }
    std::cout << "held " << n << "\n";
    return rc;
  }
  if (mode == "run") {
    std::string kind = argv[2];
    gen g(strtoull(argv[3], nullptr, 10));
    long n = atol(argv[4]), distinct = 0;
    int rc = 0;
    std::vector<std::string> samples;
    if (kind == "interval") {
      rc = run_intervals(g, n, distinct);
    } else {
      if (argc > 5) {
        // instances of every rule: n per rule
        std::vector<sx> rules = load_rules(argv[5]);
        for (auto& rl : rules) {
          for (long i = 0; i < n && !rc; ++i) {
            gen::binding b = g.bind();
            expr e = g.inst(rl.l[3], b);
            if (!e.defined()) continue;
            if (samples.size() < 3 && g.r.p(5)) samples.push_back(to_s(e));
            rc = try_expr(kind, g, e, 12, distinct);
          }
          if (rc) break;
        }
      } else {
        for (long i = 0; i < n && !rc; ++i) {
          g.big_consts = i % 10 == 9;
          g.unique_lets = kind == "simplify" || kind == "boundsof" || kind == "prove";
          g.next_let = 9;
          expr e = g.any(g.r.in(1, 4));
          if (kind == "prove" && g.r.p(70)) e = g.boolean(g.r.in(1, 3));
          if (samples.size() < 3 && g.r.p(2)) samples.push_back(to_s(e));
          rc = try_expr(kind, g, e, 12, distinct);
        }
      }
    }
    std::cout << "STATS cases " << st_.cases << " effective " << st_.effective << " distinct " << distinct << "\n";
    for (auto& s : samples) std::cout << "SAMPLE " << s << "\n";
    return rc;
  }
  std::cerr << "usage\n";
  return 2;
}
