// Shared by the drivers: S-expressions <-> slinky::expr, and a reference evaluator that is independent of the library's
// (it only reads the fields of the nodes). Values are mathematical integers (128 bit with an overflow flag).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "slinky/builder/simplify.h"
#include "slinky/builder/substitute.h"
#include "slinky/runtime/depends_on.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/print.h"

namespace et {
using namespace slinky;
typedef __int128 big;
typedef int64_t ll;

inline bool fits(big x) { return x >= (big)INT64_MIN && x <= (big)INT64_MAX; }

enum status { ok = 0, overflow, undefined };
typedef std::map<size_t, ll> env_t;

struct ref_eval {
  env_t env;
  status st = ok;
  int inf = 0;       // set when an infinity is the top level value
  long steps = 0;

  big fail(status s) {
    if (st == ok) st = s;
    return 0;
  }
  static big ediv(big a, big b) {
    if (b == 0) return 0;
    big q = a / b, r = a % b;
    if (r < 0) q += b > 0 ? -1 : 1;
    return q;
  }
  big chk(big x) {
    if (!fits(x)) return fail(overflow);
    return x;
  }
  big ev(const expr& e) { return ev(e.get()); }
  big ev(const base_expr_node* n) {
    if (st != ok) return 0;
    if (!n) return fail(undefined);
    ++steps;
    switch (n->type) {
    case expr_node_type::constant: return ((const constant*)n)->value;
    case expr_node_type::variable: {
      const variable* v = (const variable*)n;
      if (v->field != buffer_field::none) return fail(undefined);
      auto i = env.find(v->sym.id);
      if (i == env.end()) return fail(undefined);
      return i->second;
    }
    case expr_node_type::let: {
      const let* l = (const let*)n;
      env_t old = env;
      for (const auto& i : l->lets) {
        big v = ev(i.second);
        if (st != ok) return 0;
        env[i.first.id] = (ll)v;
      }
      big r = ev(l->body);
      env = old;
      return r;
    }
    case expr_node_type::logical_not: return ev(((const logical_not*)n)->a) == 0 ? 1 : 0;
    case expr_node_type::select: {
      const class select* s = (const class select*)n;
      big c = ev(s->condition);
      if (st != ok) return 0;
      return c != 0 ? ev(s->true_value) : ev(s->false_value);
    }
    case expr_node_type::call: {
      const call* c = (const call*)n;
      switch (c->intrinsic) {
      case intrinsic::abs: {
        big v = ev(c->args[0]);
        return chk(v < 0 ? -v : v);
      }
      case intrinsic::and_then: {
        for (const expr& a : c->args) {
          big v = ev(a);
          if (st != ok || v == 0) return 0;
        }
        return 1;
      }
      case intrinsic::or_else: {
        for (const expr& a : c->args) {
          big v = ev(a);
          if (st != ok) return 0;
          if (v != 0) return 1;
        }
        return 0;
      }
      default: return fail(undefined);
      }
    }
    default: break;
    }
    const binary_op* b = (const binary_op*)n;
    big x = ev(b->a);
    if (st != ok) return 0;
    big y = ev(b->b);
    if (st != ok) return 0;
    switch (n->type) {
    case expr_node_type::add: return chk(x + y);
    case expr_node_type::sub: return chk(x - y);
    case expr_node_type::mul: return chk(x * y);
    case expr_node_type::div: return chk(ediv(x, y));
    case expr_node_type::mod: return y == 0 ? (big)0 : chk(x - ediv(x, y) * y);
    case expr_node_type::min: return x < y ? x : y;
    case expr_node_type::max: return x > y ? x : y;
    case expr_node_type::equal: return x == y;
    case expr_node_type::not_equal: return x != y;
    case expr_node_type::less: return x < y;
    case expr_node_type::less_equal: return x <= y;
    case expr_node_type::logical_and: return x != 0 && y != 0;
    case expr_node_type::logical_or: return x != 0 || y != 0;
    default: return fail(undefined);
    }
  }
};

inline std::optional<ll> value(const expr& e, const env_t& env, status* s = nullptr) {
  ref_eval r;
  r.env = env;
  big v = r.ev(e);
  if (s) *s = r.st;
  if (r.st != ok) return std::nullopt;
  return (ll)v;
}

// --- S-expressions --------------------------------------------------------------------------------------------------
struct sx {
  std::string atom;
  std::vector<sx> l;
  bool is_list = false;
  const std::string& head() const {
    static std::string none;
    return is_list && !l.empty() ? l[0].atom : none;
  }
  ll num() const { return strtoll(atom.c_str(), nullptr, 10); }
};

inline sx parse(const char*& p) {
  while (*p == ' ' || *p == '\n' || *p == '\t') ++p;
  sx r;
  if (*p == '(') {
    r.is_list = true;
    ++p;
    for (;;) {
      while (*p == ' ' || *p == '\n' || *p == '\t') ++p;
      if (*p == ')') {
        ++p;
        return r;
      }
      if (!*p) return r;
      r.l.push_back(parse(p));
    }
  }
  if (*p == '"') {
    r.atom += *p++;
    while (*p && *p != '"') r.atom += *p++;
    if (*p) ++p;
    return r;
  }
  while (*p && *p != ' ' && *p != '(' && *p != ')' && *p != '\n' && *p != '\t') r.atom += *p++;
  return r;
}
inline sx parse(const std::string& s) {
  const char* p = s.c_str();
  return parse(p);
}

static const char* const bin_names[] = {"add", "sub", "mul", "div", "mod", "min", "max", "equal", "not_equal", "less",
    "less_equal", "and", "or"};
static const expr_node_type bin_types[] = {expr_node_type::add, expr_node_type::sub, expr_node_type::mul,
    expr_node_type::div, expr_node_type::mod, expr_node_type::min, expr_node_type::max, expr_node_type::equal,
    expr_node_type::not_equal, expr_node_type::less, expr_node_type::less_equal, expr_node_type::logical_and,
    expr_node_type::logical_or};

inline expr make_bin(int k, expr a, expr b) {
  switch (k) {
  case 0: return add::make(a, b);
  case 1: return sub::make(a, b);
  case 2: return mul::make(a, b);
  case 3: return div::make(a, b);
  case 4: return mod::make(a, b);
  case 5: return min::make(a, b);
  case 6: return max::make(a, b);
  case 7: return equal::make(a, b);
  case 8: return not_equal::make(a, b);
  case 9: return less::make(a, b);
  case 10: return less_equal::make(a, b);
  case 11: return logical_and::make(a, b);
  default: return logical_or::make(a, b);
  }
}
inline int bin_index(const std::string& s) {
  for (int i = 0; i < 13; ++i)
    if (s == bin_names[i]) return i;
  return -1;
}

inline std::string to_s(const base_expr_node* n) {
  if (!n) return "undef";
  std::ostringstream o;
  switch (n->type) {
  case expr_node_type::constant: o << "(int " << ((const constant*)n)->value << ")"; return o.str();
  case expr_node_type::variable: {
    const variable* v = (const variable*)n;
    if (v->field == buffer_field::none)
      o << "(var " << v->sym.id << ")";
    else
      o << "(field " << v->sym.id << " " << (int)v->field << " " << v->dim << ")";
    return o.str();
  }
  case expr_node_type::let: {
    const let* l = (const let*)n;
    o << "(let (";
    for (auto& i : l->lets) o << "(" << i.first.id << " " << to_s(i.second.get()) << ")";
    o << ") " << to_s(l->body.get()) << ")";
    return o.str();
  }
  case expr_node_type::logical_not: return "(not " + to_s(((const logical_not*)n)->a.get()) + ")";
  case expr_node_type::select: {
    const class select* s = (const class select*)n;
    return "(select " + to_s(s->condition.get()) + " " + to_s(s->true_value.get()) + " " + to_s(s->false_value.get()) + ")";
  }
  case expr_node_type::call: {
    const call* c = (const call*)n;
    switch (c->intrinsic) {
    case intrinsic::abs: o << "(abs"; break;
    case intrinsic::and_then: o << "(and_then"; break;
    case intrinsic::or_else: o << "(or_else"; break;
    case intrinsic::positive_infinity: o << "(pinf"; break;
    case intrinsic::negative_infinity: o << "(ninf"; break;
    case intrinsic::indeterminate: o << "(indet"; break;
    default: o << "(call " << (int)c->intrinsic; break;
    }
    for (auto& a : c->args) o << " " << to_s(a.get());
    o << ")";
    return o.str();
  }
  default: break;
  }
  for (int i = 0; i < 13; ++i) {
    if (bin_types[i] == n->type) {
      const binary_op* b = (const binary_op*)n;
      return std::string("(") + bin_names[i] + " " + to_s(b->a.get()) + " " + to_s(b->b.get()) + ")";
    }
  }
  return "(unknown)";
}
inline std::string to_s(const expr& e) { return to_s(e.get()); }

inline expr from_s(const sx& s) {
  if (!s.is_list) return expr();
  const std::string& h = s.head();
  if (h == "int") return constant::make((index_t)s.l[1].num());
  if (h == "var") return variable::make(var(s.l[1].num()));
  if (h == "field") return variable::make(var(s.l[1].num()), (buffer_field)s.l[2].num(), (int)s.l[3].num());
  if (h == "let") {
    std::vector<std::pair<var, expr>> lets;
    for (auto& i : s.l[1].l) lets.push_back({var(i.l[0].num()), from_s(i.l[1])});
    return let::make(lets, from_s(s.l[2]));
  }
  if (h == "not") return logical_not::make(from_s(s.l[1]));
  if (h == "select") return select::make(from_s(s.l[1]), from_s(s.l[2]), from_s(s.l[3]));
  std::vector<expr> args;
  for (size_t i = 1; i < s.l.size(); ++i) args.push_back(from_s(s.l[i]));
  if (h == "abs") return call::make(intrinsic::abs, args);
  if (h == "and_then") return call::make(intrinsic::and_then, args);
  if (h == "or_else") return call::make(intrinsic::or_else, args);
  if (h == "pinf") return positive_infinity();
  if (h == "ninf") return negative_infinity();
  if (h == "indet") return indeterminate();
  int k = bin_index(h);
  if (k >= 0) return make_bin(k, args[0], args[1]);
  std::cerr << "cannot parse " << h << "\n";
  exit(3);
}

inline std::string env_s(const env_t& e) {
  std::ostringstream o;
  o << "(env";
  for (auto& i : e) o << " (" << i.first << " " << i.second << ")";
  o << ")";
  return o.str();
}
inline env_t env_from(const sx& s) {
  env_t e;
  for (size_t i = 1; i < s.l.size(); ++i) e[s.l[i].l[0].num()] = s.l[i].l[1].num();
  return e;
}
inline std::string iv_s(const interval_expr& i) { return "(iv " + to_s(i.min) + " " + to_s(i.max) + ")"; }
inline interval_expr iv_from(const sx& s) {
  expr a = from_s(s.l[1]), b = from_s(s.l[2]);
  interval_expr r;
  // Preserve "is a point" (both ends are the same node).
  if (a.defined() && b.defined() && to_s(a) == to_s(b)) return interval_expr(a);
  r.min = a;
  r.max = b;
  return r;
}

// --- random numbers ----------------------------------------------------------------------------------------------------
struct rng {
  uint64_t s;
  rng(uint64_t seed) : s(seed) { s = next() ^ (next() << 1); }
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  ll in(ll a, ll b) { return a + (ll)(next() % (uint64_t)(b - a + 1)); }
  std::size_t below(std::size_t n) { return (std::size_t)(next() % (uint64_t)n); }
  bool p(int percent) { return (int)(next() % 100) < percent; }
};
}  // namespace et
