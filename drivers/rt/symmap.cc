// Symbol tables and scoped bindings (C20): random histories of nested scopes, insertions, erasures and lookups against a reference.
#include <memory>

#include "drivers/rt/rt.h"

namespace rt {
namespace {
template <typename T>
struct values;
template <>
struct values<index_t> {
  static index_t make(ll x) { return x; }
  static ll get(const index_t& x) { return x; }
};
template <>
struct values<expr> {
  static expr make(ll x) { return expr((std::int64_t)x); }
  static ll get(const expr& x) {
    auto c = as_constant(x);
    return c ? *c : -1;
  }
};
template <>
struct values<std::vector<interval_expr>> {
  static std::vector<interval_expr> make(ll x) { return {point(expr((std::int64_t)x))}; }
  static ll get(const std::vector<interval_expr>& x) {
    if (x.size() != 1) return -1;
    auto c = as_constant(x[0].min);
    return c ? *c : -1;
  }
};

template <typename T>
struct history {
  typedef values<T> V;
  typedef scoped_value_in_symbol_map<T> S;
  rng& r;
  symbol_map<T> map;
  std::map<std::size_t, ll> ref;
  std::ostringstream log;
  std::size_t names;
  ll next = 0;
  int steps;

  history(rng& r) : r(r) {
    names = 1 + r.below(r.p(20) ? 100 : 6);
    steps = 10 + (int)r.below(60);
    if (r.p(20)) map = symbol_map<T>(r.below(8));
  }

  var name() { return var(r.below(names)); }

  void check() {
    for (std::size_t i = 0; i < names + 2; ++i) {
      auto want = ref.find(i);
      bool has = want != ref.end();
      var v(i);
      const symbol_map<T>& m = map;
      std::optional<T> a = m.lookup(v), b = m[v];
      T none = V::make(-7);
      ll c = V::get(m.lookup(v, none));
      if (m.contains(v) != has || !!a != has || !!b != has || (has && (V::get(*a) != want->second || V::get(*b) != want->second)) ||
          c != (has ? want->second : -7)) {
        fail("after", log.str(), ": looking up ", i, " gave ", a ? std::to_string(V::get(*a)) : "nothing", ", and it should give ",
            has ? std::to_string(want->second) : "nothing");
      }
    }
  }

  // Enters a scope for x, and gives what looking up x should give when it has ended.
  S enter(var x) {
    ll v = ++next;
    switch (r.below(5)) {
    case 0:
      log << " {" << x.id << "=nothing";
      ref.erase(x.id);
      return set_value_in_scope(map, x, std::nullopt);
    case 1: {
      log << " {" << x.id << "=" << v << "?";
      ref[x.id] = v;
      return set_value_in_scope(map, x, std::optional<T>(V::make(v)));
    }
    case 2:
      log << " {" << x.id << "=" << v << "!";
      ref[x.id] = v;
      return S(map, x, V::make(v));
    case 3: {
      // What the name is bound to in the scope is not specified until it is set.
      log << " {" << x.id << "," << v;
      S s(map, x);
      map[x] = V::make(v);
      ref[x.id] = v;
      return s;
    }
    default:
      log << " {" << x.id << "=" << v;
      ref[x.id] = v;
      return set_value_in_scope(map, x, V::make(v));
    }
  }

  std::optional<ll> now(var x) {
    auto i = ref.find(x.id);
    if (i == ref.end()) return std::nullopt;
    return i->second;
  }
  void restore(var x, std::optional<ll> old) {
    if (old) {
      ref[x.id] = *old;
    } else {
      ref.erase(x.id);
    }
  }

  void run(int depth) {
    int n = 1 + (int)r.below(5);
    for (int i = 0; i < n && steps > 0; ++i) {
      --steps;
      var x = name();
      std::optional<ll> old = now(x);
      switch (r.below(12)) {
      case 0:
      case 1: {
        ll v = ++next;
        log << " " << x.id << "=" << v;
        map[x] = V::make(v);
        ref[x.id] = v;
        break;
      }
      case 2:
        log << " erase " << x.id;
        map.erase(x);
        ref.erase(x.id);
        break;
      case 3: {
        std::size_t k = r.below(names * 2);
        log << " reserve " << k;
        map.reserve(k);
        break;
      }
      case 4:
        if (r.p(70)) break;
        log << " clear";
        if (r.p(50)) {
          map.clear();
        } else {
          map = symbol_map<T>();
        }
        ref.clear();
        break;
      case 5: {   // several scopes in a vector, ended in reverse
        if (depth > 4) break;
        std::vector<S> l;
        std::vector<std::pair<var, std::optional<ll>>> olds;
        int k = 1 + (int)r.below(4);
        for (int j = 0; j < k; ++j) {
          var y = name();
          olds.push_back({y, now(y)});
          l.push_back(enter(y));
          check();
        }
        run(depth + 1);
        while (!l.empty()) {
          log << " }" << l.back().sym().id;
          l.pop_back();
          restore(olds.back().first, olds.back().second);
          olds.pop_back();
          check();
        }
        break;
      }
      case 6: {   // ended explicitly, then used for another scope
        if (depth > 4) break;
        S s = enter(x);
        check();
        if (s.sym().id != x.id) fail("after", log.str(), ": the scope is of ", s.sym().id);
        if (!!s.old_value() != !!old || (old && V::get(*s.old_value()) != *old)) fail("after", log.str(), ": the scope has another old value");
        run(depth + 1);
        log << " exit " << x.id;
        s.exit_scope();
        restore(x, old);
        check();
        if (r.p(50)) {
          s.exit_scope();
          check();
        }
        if (r.p(50)) {
          var y = name();
          std::optional<ll> o = now(y);
          s = enter(y);
          check();
          run(depth + 1);
          s.exit_scope();
          log << " exit " << y.id;
          restore(y, o);
          check();
        }
        break;
      }
      default: {
        if (depth > 8) break;
        {
          S s = enter(x);
          check();
          if (r.p(20)) {
            log << " moved";
            std::unique_ptr<S> t(new S(std::move(s)));
            run(depth + 1);
            log << " }" << x.id;
          } else {
            run(depth + 1);
            log << " }" << x.id;
          }
        }
        restore(x, old);
        break;
      }
      }
      check();
    }
  }
};

template <typename T>
void go(rng& r, const char* what) {
  history<T> h(r);
  h.log << " (" << what << ")";
  while (h.steps > 0) h.run(0);
  describe = h.log.str();
}
}  // namespace

void case_symmap(rng& r) {
  switch (r.below(4)) {
  case 0: return go<expr>(r, "expr");
  case 1: return go<std::vector<interval_expr>>(r, "box");
  default: return go<index_t>(r, "integer");
  }
}
}  // namespace rt
