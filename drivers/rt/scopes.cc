// What uses scoped bindings (C20): declarations of statements are renamed apart (deshadow) without changing what any name refers to, and what is
// learned from a condition is only used where the condition holds (simplify).
#include <memory>

#include "drivers/rt/rt.h"
#include "slinky/builder/optimizations.h"

namespace rt {
namespace {
typedef std::map<std::size_t, std::size_t> names_t;     // of the original -> of the result

struct gen {
  rng& r;
  node_context& ctx;
  std::vector<var> all;
  std::vector<var> scope;

  expr use(int depth) {
    switch (depth <= 0 ? r.below(2) : r.below(5)) {
    case 0: return expr((std::int64_t)r.in(-3, 9));
    case 1:
    case 2: return scope.empty() ? expr(1) : expr(scope[r.below(scope.size())]);
    case 3: return use(depth - 1) + use(depth - 1);
    default: {
      if (!r.p(50)) return use(depth - 1) - use(depth - 1);
      std::vector<var> old = scope;
      std::vector<std::pair<var, expr>> lets = declare(depth - 1);
      expr body = use(depth - 1);
      scope = old;
      return let::make(std::move(lets), body);
    }
    }
  }
  std::vector<std::pair<var, expr>> declare(int depth) {
    std::vector<std::pair<var, expr>> lets;
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) {
      expr v = use(depth);
      var x = all[r.below(all.size())];
      lets.push_back({x, v});
      scope.push_back(x);
    }
    return lets;
  }
  stmt make(int depth) {
    std::vector<var> old = scope;
    switch (depth <= 0 ? 0 : r.below(5)) {
    case 0: return check::make(use(2) < use(2));
    case 1:
    case 2: {
      std::vector<stmt> l;
      int n = 2 + (int)r.below(2);
      for (int i = 0; i < n; ++i) l.push_back(make(depth - 1));
      return block::make(std::move(l));
    }
    case 3: {
      auto lets = declare(1);
      stmt body = make(depth - 1);
      scope = old;
      return let_stmt::make(std::move(lets), body);
    }
    default: {
      expr a = use(1), b = use(1);
      var x = all[r.below(all.size())];
      scope.push_back(x);
      stmt body = make(depth - 1);
      scope = old;
      return loop::make(x, loop::serial, bounds(a, b), 1, body);
    }
    }
  }
};

struct same_up_to_names {
  names_t names;

  void var_(var a, var b) {
    auto i = names.find(a.id);
    std::size_t want = i == names.end() ? a.id : i->second;
    require(b.id == want, "a use of name ", a.id, " became a use of name ", b.id, ", and the declaration it refers to is of name ", want);
  }
  void ex(const expr& a, const expr& b) {
    require(a.type() == b.type(), "an expression became one of another type");
    if (!a.defined()) return;
    if (auto* x = a.as<variable>()) return var_(x->sym, b.as<variable>()->sym);
    if (auto* x = a.as<constant>()) return require(x->value == b.as<constant>()->value, "a constant changed");
    if (auto* x = a.as<let>()) {
      auto* y = b.as<let>();
      names_t old = names;
      lets(x->lets, y->lets);
      ex(x->body, y->body);
      names = old;
      return;
    }
    switch (a.type()) {
    case expr_node_type::add:
    case expr_node_type::sub:
    case expr_node_type::less: {
      const binary_op* x = (const binary_op*)a.get();
      const binary_op* y = (const binary_op*)b.get();
      ex(x->a, y->a);
      ex(x->b, y->b);
      return;
    }
    default: throw discard{};
    }
  }
  void lets(const std::vector<std::pair<var, expr>>& a, const std::vector<std::pair<var, expr>>& b) {
    require(a.size() == b.size(), "the number of declarations changed");
    for (std::size_t i = 0; i < a.size(); ++i) {
      ex(a[i].second, b[i].second);
      names[a[i].first.id] = b[i].first.id;
    }
  }
  void st(const stmt& a, const stmt& b) {
    require(a.type() == b.type(), "a statement became one of another type");
    if (!a.defined()) return;
    if (auto* x = a.as<block>()) {
      auto* y = b.as<block>();
      require(x->stmts.size() == y->stmts.size(), "the number of statements of a block changed");
      for (std::size_t i = 0; i < x->stmts.size(); ++i) st(x->stmts[i], y->stmts[i]);
    } else if (auto* x = a.as<check>()) {
      ex(x->condition, b.as<check>()->condition);
    } else if (auto* x = a.as<let_stmt>()) {
      auto* y = b.as<let_stmt>();
      names_t old = names;
      lets(x->lets, y->lets);
      st(x->body, y->body);
      names = old;
    } else if (auto* x = a.as<loop>()) {
      auto* y = b.as<loop>();
      ex(x->bounds.min, y->bounds.min);
      ex(x->bounds.max, y->bounds.max);
      names_t old = names;
      names[x->sym.id] = y->sym.id;
      st(x->body, y->body);
      names = old;
    } else {
      throw discard{};
    }
  }
};
}  // namespace

void case_deshadow(rng& r) {
  node_context ctx;
  gen g{r, ctx};
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; ++i) g.all.push_back(var(ctx, std::string(1, 'a' + i)));
  std::vector<var> external;
  for (var i : g.all)
    if (r.p(50)) external.push_back(i);
  g.scope = external;
  stmt s = g.make(4);
  std::ostringstream o;
  o << std::tie(s, ctx);
  describe = o.str();
  stmt d = deshadow(s, span<var>(external.data(), external.size()), ctx);
  o << " became " << std::tie(d, ctx);
  describe = o.str();
  try {
    same_up_to_names().st(s, d);
  } catch (failure& f) {
    fail(f.why, " in ", describe);
  }
}

// Conditions on names, some of them more than once, and what they say nothing about elsewhere in the expression.
namespace {
struct conditions {
  rng& r;
  std::vector<var> v;
  expr leaf() {
    if (r.p(60)) return expr(v[r.below(v.size())]);
    return expr((std::int64_t)r.in(-4, 8));
  }
  expr compare() {
    expr a = v[r.below(v.size())], b = leaf();
    switch (r.below(6)) {
    case 0: return a < b;
    case 1: return a <= b;
    case 2: return b < a;
    case 3: return b <= a;
    case 4: return a == b;
    default: return a % (std::int64_t)r.in(2, 5) == (std::int64_t)r.in(0, 4);
    }
  }
  expr cond(int depth) {
    if (depth <= 0 || r.p(20)) return compare();
    switch (r.below(4)) {
    case 0: return cond(depth - 1) || cond(depth - 1);
    case 1: return !cond(depth - 1);
    default: return cond(depth - 1) && cond(depth - 1);
    }
  }
  expr value(int depth) {
    switch (depth <= 0 ? r.below(2) : r.below(6)) {
    case 0: return leaf();
    case 1: return select(compare(), leaf(), leaf());
    case 2: return value(depth - 1) + value(depth - 1) * (std::int64_t)r.in(2, 5);
    case 3: return leaf() % (std::int64_t)r.in(2, 6) + value(depth - 1);
    default: return select(cond(2), value(depth - 1), value(depth - 1));
    }
  }
};
}  // namespace

void case_learn(rng& r) {
  node_context ctx;
  conditions g{r};
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; ++i) g.v.push_back(var(ctx, std::string(1, 'a' + i)));
  expr e = g.value(3) + g.value(2) * 100;
  std::ostringstream o;
  o << std::tie(e, ctx);
  describe = o.str();
  expr s = simplify(e);
  o << " became " << std::tie(s, ctx);
  describe = o.str();
  for (int k = 0; k < 60; ++k) {
    et::env_t env;
    for (var i : g.v) env[i.id] = r.in(-6, 10);
    auto a = et::value(e, env);
    if (!a) continue;
    auto b = et::value(s, env);
    if (b && *b == *a) continue;
    std::ostringstream w;
    for (auto& i : env) w << " " << ctx.name(var(i.first)) << "=" << i.second;
    fail(describe, ": with", w.str(), " it was ", *a, " and is ", b ? std::to_string(*b) : "undefined");
  }
}
}  // namespace rt
