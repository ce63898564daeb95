// Statements (C14, C07): a random statement is run by a reference interpreter in which buffers are values and nothing is modified in
// place; the calls in it compare what they see with what the reference saw. Afterwards everything must be as before.
#include <cstring>
#include <deque>
#include <memory>
#include <mutex>

#include "drivers/rt/rt.h"
#include "slinky/base/thread_pool_impl.h"

namespace rt {
namespace {
const ll unknown = INT64_MAX;      // a stride that the allocation chooses

struct vdim {
  ll min, max, stride, fold, origin;
  bool contains(ll x) const { return stride == 0 || (min <= x && x <= max); }
  ll offset(ll x) const {
    if (stride == unknown) return 0;
    if (stride == 0) return 0;
    if (fold == -1) return (x - origin) * stride;
    ll m = x % fold;
    return (m < 0 ? m + fold : m) * stride;
  }
  bool broadcast() const { return min == 0 && max == 0 && stride == 0; }
};
struct view {
  bool is_buffer = false;
  ll scalar = 0;
  int alloc = -1;         // the address is relative to this allocation
  bool null = false;
  bool vague = false;     // the address does not matter any more (it was cropped to nothing)
  bool unsized = false;   // some stride is not known: addresses are not compared
  ll base = 0, elem = 0;
  std::vector<vdim> d;
};
typedef std::map<std::size_t, view> env_t;

void strip(view& v) {
  while (!v.d.empty() && v.d.back().broadcast()) v.d.pop_back();
}

struct world {
  rng& r;
  int scalars = 3, roots = 3;
  struct root {
    raw_buffer b;
    dim dims[4];
    raw_buffer b0;
    dim dims0[4];
  };
  std::deque<root> root_bufs;
  std::vector<raw_buffer_ptr> constants;
  bool parallel = false;
  bool use_pool = false;

  // probes
  struct snapshot {
    env_t env;
    bool used = false;
  };
  std::vector<std::vector<snapshot>> expected;
  std::vector<index_t> returns;
  int extra_probe_errors = 0;
  std::string problem;
  std::mutex m;
  int allocs = 0;           // of the reference

  // allocations of the real run
  std::map<void*, int> live;
  int made = 0, released = 0;

  world(rng& r) : r(r) {}

  void complain(const std::string& s) {
    if (problem.empty()) problem = s;
  }

  // --- generation -----------------------------------------------------------------------------------------------------
  struct scope {
    std::vector<int> scalars, buffers, own;     // own: buffers that may be modified in place
    int forbid = -1;                            // a buffer whose fields are not to be read
  };
  int next = 0;

  int pick(const std::vector<int>& v) { return v[r.in(0, v.size() - 1)]; }
  expr value(scope& s, int depth) {
    if (depth > 0 && r.p(40)) {
      expr a = value(s, depth - 1), b = value(s, depth - 1);
      switch (r.in(0, 4)) {
      case 0: return a + b;
      case 1: return a - b;
      case 2: return min(a, b);
      case 3: return max(a, b);
      default: return let::make(var(pick(s.scalars)), a, b);
      }
    }
    if (r.p(30)) {
      int b = pick(s.buffers);
      if (b != s.forbid) {
        buffer_field f = r.p(50) ? buffer_field::min : buffer_field::max;
        return variable::make(var(b), f, r.in(0, 3));
      }
    }
    if (r.p(45)) return variable::make(var(pick(s.scalars)));
    return constant::make((index_t)r.in(-6, 9));
  }
  expr maybe(scope& s, int depth, int percent) { return r.p(percent) ? value(s, depth) : expr(); }
  interval_expr bounds(scope& s) {
    if (r.p(15)) return interval_expr();
    if (r.p(20)) return interval_expr(value(s, 1));
    expr a = maybe(s, 1, 85);
    expr b = !r.p(85) ? expr() : a.defined() && r.p(60) ? a + expr((index_t)r.in(0, 6)) : value(s, 1);
    interval_expr x;
    x.min = a;
    x.max = b;
    return x;
  }
  int fresh(scope& s, bool buffer) {
    int b;
    if (r.p(35)) {
      b = pick(buffer ? s.buffers : s.scalars);     // shadow
    } else {
      b = next++;
      if (r.p(20)) next += r.in(0, 20);
    }
    return b;
  }
  void bind(scope& s, int n, bool buffer, bool own) {
    auto erase = [&](std::vector<int>& v) { v.erase(std::remove(v.begin(), v.end(), n), v.end()); };
    erase(s.scalars);
    erase(s.buffers);
    erase(s.own);
    (buffer ? s.buffers : s.scalars).push_back(n);
    if (buffer && own) s.own.push_back(n);
  }
  stmt probe() {
    int id = expected.size();
    expected.emplace_back();
    returns.push_back(r.p(8) ? r.in(1, 9) : 0);
    index_t ret = returns.back();
    call_stmt::attributes at;
    at.name = "probe" + std::to_string(id);
    return call_stmt::make(
        [this, id, ret](const call_stmt*, eval_context& ctx) -> index_t {
          check(id, ctx);
          return ret;
        },
        {}, {}, {}, at);
  }
  std::vector<dim_expr> dims(scope& s, bool alloc) {
    std::vector<dim_expr> d(r.in(0, 3));
    for (auto& i : d) {
      if (r.p(12)) {
        i = dim_expr(interval_expr(expr(0), expr(0)), expr(0), expr());
        continue;
      }
      expr a = value(s, 1);
      i.bounds.min = a;
      i.bounds.max = a + expr((index_t)r.in(r.p(10) ? -2 : 0, 7));
      if (!alloc || r.p(40)) i.stride = expr((index_t)r.in(0, 12) * 8);
      if (r.p(15)) i.fold_factor = expr((index_t)r.in(1, 5));
    }
    return d;
  }
  stmt gen(scope s, int depth) {
    if (depth <= 0) return probe();
    int k = r.in(0, 99);
    if (k < 5) return probe();
    if (k < 18) {
      std::vector<stmt> l;
      for (int i = r.in(2, 3); i > 0; --i) l.push_back(gen(s, depth - 1));
      return block::make(l);
    }
    if (k < 24) {
      std::vector<std::pair<var, expr>> lets;
      for (int i = r.in(1, 3); i > 0; --i) {
        expr e = value(s, 1);
        int n = fresh(s, false);
        lets.push_back({var(n), e});
        bind(s, n, false, false);
      }
      return let_stmt::make(lets, gen(s, depth - 1));
    }
    if (k < 34) {
      bool par = r.p(35);
      expr a = value(s, 1);
      interval_expr b(a, a + expr((index_t)r.in(r.p(20) ? -4 : 0, 3)));
      expr step = r.p(70) ? expr() : expr((index_t)r.in(1, 3));
      expr w = par ? expr((index_t)(r.p(50) ? loop::parallel : 3)) : r.p(50) ? expr((index_t)loop::serial) : expr(0);
      int n = fresh(s, false);
      bind(s, n, false, false);
      if (par) {
        parallel = use_pool = true;
        s.own.clear();
      }
      stmt body = gen_region(s, n, depth - 1);
      return loop::make(var(n), w, b, step, body);
    }
    if (k < 42) {
      expr es = expr((index_t)r.in(1, 8));
      auto d = dims(s, true);
      memory_type t = (memory_type)r.in((int)memory_type::automatic, (int)memory_type::heap);
      int n = fresh(s, true);
      bind(s, n, true, true);
      stmt body = gen(s, depth - 1);
      // some allocations are freed early
      if (r.p(20)) body = block::make({body, rt::world::free_stmt(n)});
      return allocate::make(var(n), t, es, d, body);
    }
    if (k < 48) {
      int src = pick(s.buffers);
      std::vector<expr> at(1, variable::make(var(src)));
      expr base = r.p(60) ? call::make(intrinsic::buffer_at, {variable::make(var(src))}) : expr((index_t)(r.in(1, 100) * (1 << 20)));
      auto d = dims(s, false);
      int n = fresh(s, true);
      bind(s, n, true, true);
      return make_buffer::make(var(n), base, expr((index_t)r.in(1, 8)), d, gen(s, depth - 1));
    }
    if (k < 51) {
      std::vector<dim> d;
      for (int i = r.in(0, 2); i > 0; --i) d.push_back(dim(0, r.in(0, 5), 8));
      constants.push_back(raw_buffer::make(d.size(), 8, d.data()));
      int n = fresh(s, true);
      bind(s, n, true, false);
      return constant_buffer::make(var(n), constants.back(), gen(s, depth - 1));
    }
    if (k < 56) {
      int src = pick(s.buffers), n = fresh(s, true);
      bind(s, n, true, true);
      return clone_buffer::make(var(n), var(src), gen(s, depth - 1));
    }
    if (k < 66) {
      bool in = !s.own.empty() && r.p(60);
      int src = in ? pick(s.own) : pick(s.buffers), n = src;
      if (!in)
        do n = fresh(s, true);
        while (n == src);
      std::vector<interval_expr> b(r.in(0, 4));
      s.forbid = src;
      for (auto& i : b) i = bounds(s);
      s.forbid = -1;
      bind(s, n, true, true);
      return crop_buffer::make(var(n), var(src), b, gen(s, depth - 1));
    }
    if (k < 76) {
      bool in = !s.own.empty() && r.p(60);
      int src = in ? pick(s.own) : pick(s.buffers), n = src;
      if (!in)
        do n = fresh(s, true);
        while (n == src);
      interval_expr b = bounds(s);
      bind(s, n, true, true);
      return crop_dim::make(var(n), var(src), r.in(0, 3), b, gen(s, depth - 1));
    }
    if (k < 82) {
      int src = pick(s.buffers), n = r.p(40) ? src : fresh(s, true);
      std::vector<expr> at(r.in(0, 4));
      for (auto& i : at) i = r.p(50) ? value(s, 1) : expr();
      bind(s, n, true, true);
      return slice_buffer::make(var(n), var(src), at, gen(s, depth - 1));
    }
    if (k < 88) {
      int src = pick(s.buffers), n = r.p(40) ? src : fresh(s, true);
      expr at = value(s, 1);
      bind(s, n, true, true);
      return slice_dim::make(var(n), var(src), r.in(0, 3), at, gen(s, depth - 1));
    }
    if (k < 94) {
      std::vector<int> d;
      bool truncate = r.p(50);
      int src = pick(s.buffers), n = src;
      if (truncate) {
        for (int i = r.in(0, 4), j = 0; j < i; ++j) d.push_back(j);
        if (!s.own.empty() && r.p(70))
          n = src = pick(s.own);
        else
          do n = fresh(s, true);
          while (n == src);
      } else {
        std::vector<int> all = {0, 1, 2, 3};
        for (int i = r.in(0, 4); i > 0; --i) {
          if (r.p(15)) {
            d.push_back(transpose::new_dim);
          } else if (!all.empty()) {
            int j = r.in(0, all.size() - 1);
            d.push_back(all[j]);
            all.erase(all.begin() + j);
          }
        }
        if (transpose::is_truncate(d) && std::find(s.own.begin(), s.own.end(), src) == s.own.end())
          do n = fresh(s, true);
          while (n == src);
        else if (r.p(50))
          n = fresh(s, true);
        if (n == src && transpose::is_truncate(d) && std::find(s.own.begin(), s.own.end(), src) == s.own.end())
          do n = fresh(s, true);
          while (n == src);
      }
      bind(s, n, true, true);
      return transpose::make(var(n), var(src), d, gen(s, depth - 1));
    }
    if (k < 97) {
      parallel = true;
      if (r.p(50)) use_pool = true;
      scope t = s;
      t.own.clear();
      stmt task = gen_region(t, -1, depth - 1);
      int n = -1;
      scope b = s;
      b.own.clear();
      if (r.p(70)) {
        n = fresh(s, false);
        bind(b, n, false, false);
        // its value is a handle, nobody computes with it
        b.scalars.erase(std::remove(b.scalars.begin(), b.scalars.end(), n), b.scalars.end());
        if (b.scalars.empty()) {
          n = next++;
          b = s;
          b.own.clear();
        }
      }
      stmt body = gen_region(b, -1, depth - 1);
      return async::make(n < 0 ? var() : var(n), task, body);
    }
    return check::make(r.p(90) ? value(s, 1) <= value(s, 1) || expr(1) : value(s, 1) <= value(s, 1));
  }
  // The body of a parallel loop or task: sometimes a closure.
  stmt gen_region(scope s, int loop_sym, int depth) {
    if (r.p(50)) return gen(s, depth);
    std::vector<std::pair<var, expr>> lets;
    scope c;
    for (int i : s.scalars)
      if (i == loop_sym || r.p(70) || c.scalars.empty()) {
        lets.push_back({var(i), variable::make(var(i))});
        c.scalars.push_back(i);
      }
    for (int i : s.buffers)
      if (r.p(70) || c.buffers.empty()) {
        lets.push_back({var(i), variable::make(var(i))});
        c.buffers.push_back(i);
      }
    c.own = {};
    return let_stmt::make(lets, gen(c, depth), true);
  }
  static stmt free_stmt(int n) {
    return check::make(call::make(intrinsic::free, {variable::make(var(n))}));
  }

  // --- the reference ---------------------------------------------------------------------------------------------------
  ll ev(const expr& e, env_t& env) {
    switch (e.type()) {
    case expr_node_type::constant: return e.as<constant>()->value;
    case expr_node_type::variable: {
      const variable* v = e.as<variable>();
      auto i = env.find(v->sym.id);
      if (i == env.end()) throw discard();
      view& b = i->second;
      if (v->field == buffer_field::none) {
        if (b.is_buffer) throw discard();
        return b.scalar;
      }
      if (!b.is_buffer) throw discard();
      bool in = (std::size_t)v->dim < b.d.size();
      if (v->field == buffer_field::min) return in ? b.d[v->dim].min : 0;
      if (v->field == buffer_field::max) return in ? b.d[v->dim].max : 0;
      throw discard();
    }
    case expr_node_type::let: {
      env_t n = env;
      for (auto& i : e.as<let>()->lets) {
        view v;
        v.scalar = ev(i.second, n);
        n[i.first.id] = v;
      }
      return ev(e.as<let>()->body, n);
    }
    case expr_node_type::call:
      if (e.as<call>()->intrinsic == intrinsic::free) return 1;
      throw discard();
    default: break;
    }
    const binary_op* b = (const binary_op*)e.get();
    big x = ev(b->a, env), y = ev(b->b, env), z;
    switch (e.type()) {
    case expr_node_type::add: z = x + y; break;
    case expr_node_type::sub: z = x - y; break;
    case expr_node_type::min: z = x < y ? x : y; break;
    case expr_node_type::max: z = x > y ? x : y; break;
    case expr_node_type::less_equal: z = x <= y; break;
    case expr_node_type::logical_or: z = x || y; break;
    default: throw discard();
    }
    if (z > 100000 || z < -100000) throw discard();
    return (ll)z;
  }
  const view& buffer(env_t& env, var v) {
    auto i = env.find(v.id);
    if (i == env.end() || !i->second.is_buffer) throw discard();
    return i->second;
  }
  void crop(view& v, int d, const interval_expr& b, env_t& env) {
    if (d >= (int)v.d.size()) {
      if (b.min.defined()) ev(b.min, env);
      if (b.max.defined()) ev(b.max, env);
      return;
    }
    vdim& x = v.d[d];
    if (x.broadcast()) throw discard();
    ll lo = b.min.defined() ? ev(b.min, env) : x.min, hi = b.max.defined() ? ev(b.max, env) : x.max;
    x.min = std::max(x.min, lo);
    x.max = std::min(x.max, hi);
    if (x.max < x.min) v.vague = true;
  }
  void slice(view& v, std::size_t d, ll at) {
    if (!v.d[d].contains(at))
      v.null = true;
    else
      v.base += v.d[d].offset(at);
  }
  void all_dims(view& v, const std::vector<dim_expr>& d, env_t& env) {
    for (auto& i : d) {
      vdim x;
      x.min = ev(i.bounds.min, env);
      x.max = ev(i.bounds.max, env);
      x.stride = i.stride.defined() ? ev(i.stride, env) : unknown;
      x.fold = i.fold_factor.defined() ? ev(i.fold_factor, env) : -1;
      x.origin = x.min;
      if (x.stride == unknown) v.unsized = true;
      v.d.push_back(x);
    }
    strip(v);
  }
  long steps = 0;
  ll run(const stmt& s, env_t env) {
    if (++steps > 400) throw discard();
    switch (s.type()) {
    case stmt_node_type::call_stmt: {
      int id = atoi(s.as<call_stmt>()->attrs.name.c_str() + 5);
      expected[id].push_back({env});
      return returns[id];
    }
    case stmt_node_type::block:
      for (const stmt& i : s.as<block>()->stmts) {
        ll x = run(i, env);
        if (x) return x;
      }
      return 0;
    case stmt_node_type::let_stmt: {
      const let_stmt* l = s.as<let_stmt>();
      if (l->is_closure) {
        env_t n;
        for (auto& i : l->lets) n[i.first.id] = env[as_variable(i.second)->id];
        return run(l->body, n);
      }
      for (auto& i : l->lets) {
        view v;
        v.scalar = ev(i.second, env);
        env[i.first.id] = v;
      }
      return run(l->body, env);
    }
    case stmt_node_type::loop: {
      const loop* l = s.as<loop>();
      ll a = ev(l->bounds.min, env), b = ev(l->bounds.max, env), st = l->step.defined() ? ev(l->step, env) : 1;
      ll w = ev(l->max_workers, env), res = 0;
      for (ll i = a; i <= b; i += st) {
        view v;
        v.scalar = i;
        env[l->sym.id] = v;
        ll x = run(l->body, env);
        if (x && !res) res = x;
        if (x && w <= 1) break;
      }
      return res;
    }
    case stmt_node_type::allocate: {
      const allocate* a = s.as<allocate>();
      view v;
      v.is_buffer = true;
      v.alloc = allocs++;
      v.elem = ev(a->elem_size, env);
      all_dims(v, a->dims, env);
      bool empty = false;
      for (auto& i : v.d)
        if (i.max < i.min) empty = true;
      if (empty) v.vague = true;
      env[a->sym.id] = v;
      return run(a->body, env);
    }
    case stmt_node_type::make_buffer: {
      const make_buffer* a = s.as<make_buffer>();
      view v;
      v.is_buffer = true;
      v.elem = ev(a->elem_size, env);
      if (auto c = as_constant(a->base)) {
        v.base = *c;
      } else {
        const view& b = buffer(env, *as_variable(a->base.as<call>()->args[0]));
        v.base = b.base;
        for (auto& i : b.d)
          if (i.fold == -1) v.base += i.offset(i.min);
        v.alloc = b.alloc;
        v.null = b.null;
        v.vague = b.vague;
        v.unsized = b.unsized;
      }
      all_dims(v, a->dims, env);
      env[a->sym.id] = v;
      return run(a->body, env);
    }
    case stmt_node_type::constant_buffer: {
      const constant_buffer* a = s.as<constant_buffer>();
      env[a->sym.id] = of(*a->value);
      return run(a->body, env);
    }
    case stmt_node_type::clone_buffer: {
      const clone_buffer* a = s.as<clone_buffer>();
      view v = buffer(env, a->src);
      env[a->sym.id] = v;
      return run(a->body, env);
    }
    case stmt_node_type::crop_buffer: {
      const crop_buffer* a = s.as<crop_buffer>();
      view v = buffer(env, a->src);
      for (std::size_t d = 0; d < a->bounds.size(); ++d) {
        if (d < v.d.size()) crop(v, d, a->bounds[d], env);
      }
      env[a->sym.id] = v;
      return run(a->body, env);
    }
    case stmt_node_type::crop_dim: {
      const crop_dim* a = s.as<crop_dim>();
      view v = buffer(env, a->src);
      crop(v, a->dim, a->bounds, env);
      env[a->sym.id] = v;
      return run(a->body, env);
    }
    case stmt_node_type::slice_buffer: {
      const slice_buffer* a = s.as<slice_buffer>();
      view v = buffer(env, a->src), w = v;
      w.d.clear();
      for (std::size_t d = 0; d < v.d.size(); ++d) {
        if (d < a->at.size() && a->at[d].defined())
          slice(v, d, ev(a->at[d], env));
        else
          w.d.push_back(v.d[d]);
      }
      w.base = v.base;
      w.null = v.null;
      env[a->sym.id] = w;
      return run(a->body, env);
    }
    case stmt_node_type::slice_dim: {
      const slice_dim* a = s.as<slice_dim>();
      view v = buffer(env, a->src);
      if ((std::size_t)a->dim < v.d.size()) {
        slice(v, a->dim, ev(a->at, env));
        v.d.erase(v.d.begin() + a->dim);
      }
      env[a->sym.id] = v;
      return run(a->body, env);
    }
    case stmt_node_type::transpose: {
      const transpose* a = s.as<transpose>();
      const view v = buffer(env, a->src);
      view w = v;
      w.d.clear();
      bool in_place = a->sym == a->src && a->is_truncate();
      std::vector<bool> kept(v.d.size());
      for (int i : a->dims) {
        if (i < (int)v.d.size()) {
          w.d.push_back(v.d[i]);
          kept[i] = true;
        } else if (!in_place) {
          w.d.push_back({0, 0, 0, 0, 0});
        }
      }
      // what is dropped stays at its min, or where folds begin
      for (std::size_t d = 0; d < v.d.size(); ++d) {
        if (!kept[d] && v.d[d].fold == -1) w.base += v.d[d].offset(v.d[d].min);
        if (!kept[d] && v.d[d].max < v.d[d].min) w.vague = true;
      }
      if (!in_place) strip(w);
      env[a->sym.id] = w;
      return run(a->body, env);
    }
    case stmt_node_type::async: {
      const async* a = s.as<async>();
      env_t n = env;
      ll t = run(a->task, env);
      if (a->sym.defined()) n.erase(a->sym.id);
      ll b = run(a->body, n);
      return t ? t : b;
    }
    case stmt_node_type::check: return ev(s.as<slinky::check>()->condition, env) ? 0 : 1;
    default: throw discard();
    }
  }
  static view of(const raw_buffer& b) {
    view v;
    v.is_buffer = true;
    v.base = (ll)b.base;
    v.null = !b.base;
    v.elem = b.elem_size;
    for (std::size_t i = 0; i < b.rank; ++i) {
      const dim& d = b.dims[i];
      v.d.push_back({d.min(), d.max(), d.stride(), d.fold_factor(), d.min()});
    }
    return v;
  }

  // --- comparison ------------------------------------------------------------------------------------------------------
  bool same(const env_t& env, eval_context& ctx, std::string& why) {
    std::map<int, ll> where;
    for (auto& i : env) {
      std::ostringstream o;
      if (i.first >= ctx.size()) {
        why = "variable " + std::to_string(i.first) + " is not bound";
        return false;
      }
      const view& v = i.second;
      ll x = ctx.lookup(var(i.first));
      if (!v.is_buffer) {
        if (x != v.scalar) {
          o << "variable " << i.first << " is " << x << " instead of " << v.scalar;
          why = o.str();
          return false;
        }
        continue;
      }
      const raw_buffer& b = *(const raw_buffer*)x;
      view s = v;
      strip(s);
      std::size_t rank = b.rank;
      while (rank > 0 && b.dims[rank - 1].is_broadcast()) --rank;
      bool ok = rank == s.d.size();
      bool empty = false;
      for (std::size_t d = 0; ok && d < rank; ++d) {
        const dim& y = b.dims[d];
        if (s.d[d].max < s.d[d].min) empty = true;
        ok = ok && y.min() == s.d[d].min && y.max() == s.d[d].max && y.fold_factor() == s.d[d].fold && (s.d[d].stride == unknown || y.stride() == s.d[d].stride);
      }
      ok = ok && (ll)b.elem_size == v.elem;
      if (!ok) {
        o << "buffer " << i.first << " is " << buf_s(b) << " instead of elem_size " << v.elem;
        for (auto& d : v.d) o << "; [" << d.min << "," << d.max << "] stride " << d.stride << " fold " << d.fold;
        why = o.str();
        return false;
      }
      if (v.null && b.base && !v.vague) {
        o << "buffer " << i.first << " has a base, but it is outside of what it was made of";
        why = o.str();
        return false;
      }
      if (v.vague || v.null || empty || v.unsized) continue;
      if (!b.base) {
        o << "buffer " << i.first << " has no base";
        why = o.str();
        return false;
      }
      // the addresses of the corners and of some points
      for (int t = 0; t < 6; ++t) {
        ll at = (ll)b.base, want = v.base;
        for (std::size_t d = 0; d < rank; ++d) {
          const vdim& y = s.d[d];
          ll c = t == 0 ? y.min : t == 1 ? y.max : y.min + (ll)((t * 2654435761u + d * 40503u) % (unsigned)(y.max - y.min + 1));
          want += y.offset(c);
          const dim& z = b.dims[d];
          if (z.stride() != 0 && z.fold_factor() > 0) {
            ll m = c % z.fold_factor();
            at += (m < 0 ? m + z.fold_factor() : m) * z.stride();
          } else {
            at += (c - z.min()) * z.stride();
          }
        }
        if (v.alloc >= 0) {
          auto w = where.find(v.alloc);
          if (w == where.end()) w = where.insert({v.alloc, at - want}).first;
          want += w->second;
        }
        if (at != want) {
          o << "an element of buffer " << i.first << " is at " << at << " instead of " << want << ": " << buf_s(b);
          why = o.str();
          return false;
        }
      }
    }
    return true;
  }
  void check(int id, eval_context& ctx) {
    std::unique_lock l(m);
    std::string why = "it was not to be called again", first;
    for (snapshot& s : expected[id]) {
      if (s.used) continue;
      if (same(s.env, ctx, why)) {
        s.used = true;
        return;
      }
      if (first.empty()) first = why;
    }
    complain("in call " + std::to_string(id) + ": " + (first.empty() ? why : first));
  }
};
}  // namespace

void case_stmt(rng& r) {
  world w(r);
  env_t env;
  world::scope s;
  eval_context ctx;
  ctx.reserve(w.scalars + w.roots);
  for (int i = 0; i < w.scalars; ++i) {
    view v;
    v.scalar = r.in(-6, 9);
    env[i] = v;
    ctx[var(i)] = v.scalar;
    s.scalars.push_back(i);
  }
  for (int i = w.scalars; i < w.scalars + w.roots; ++i) {
    w.root_bufs.emplace_back();
    auto& b = w.root_bufs.back();
    memset((void*)&b, 0, sizeof(b));
    b.b.base = (void*)(uintptr_t)(r.in(1, 1000) * (1ll << 30));
    b.b.elem_size = r.in(1, 9);
    b.b.rank = r.in(0, 4);
    b.b.dims = b.dims;
    for (std::size_t d = 0; d < b.b.rank; ++d) {
      ll m = r.in(-5, 5);
      b.dims[d] = dim(m, m + r.in(r.p(5) ? -2 : 0, 12), r.p(15) ? 0 : r.in(-20, 20), r.p(75) ? -1 : r.in(1, 6));
    }
    b.b0 = b.b;
    for (int d = 0; d < 4; ++d) b.dims0[d] = b.dims[d];
    view v = world::of(b.b);
    for (auto& d : v.d)
      if (d.max < d.min) v.vague = true;
    env[i] = v;
    ctx[var(i)] = (index_t)&b.b;
    s.buffers.push_back(i);
    s.own.push_back(i);
  }
  w.next = w.scalars + w.roots;
  stmt body = w.gen(s, r.in(1, 6));
  std::ostringstream o;
  o << body << "\nwhere";
  for (int i = 0; i < w.scalars; ++i) o << " <" << i << ">=" << env[i].scalar;
  for (int i = 0; i < w.roots; ++i) o << " <" << w.scalars + i << ">=" << buf_s(w.root_bufs[i].b);
  describe = o.str();
  ll want = w.run(body, env);

  eval_config config;
  config.allocate = [&](var, raw_buffer* b) -> void* {
    void* p = b->allocate();
    std::unique_lock l(w.m);
    w.live[p]++;
    w.made++;
    return p;
  };
  config.free = [&](var, raw_buffer*, void* p) {
    if (!p) return;
    std::unique_lock l(w.m);
    w.released++;
    auto i = w.live.find(p);
    if (i == w.live.end()) {
      w.complain("memory is released that was not allocated, or twice");
      return;
    }
    w.live.erase(i);
    ::free(p);
  };
  config.check_failed = [](const expr&) {};
  config.call_failed = [](const call_stmt*) {};
  std::unique_ptr<thread_pool_impl> pool;
  if (w.use_pool) pool.reset(new thread_pool_impl(r.p(50) ? 0 : 2));
  config.thread_pool = pool.get();
  ctx.config = &config;

  ll got = evaluate(body, ctx);
  pool.reset();
  require(w.problem.empty(), w.problem);
  require(w.parallel ? (got == 0) == (want == 0) : got == want, "the result is ", got, " instead of ", want);
  for (auto& p : w.expected)
    for (auto& i : p) require(i.used, "a call was not made");
  require(w.live.empty(), "memory is not released");
  for (auto& i : env) {
    ll x = ctx.lookup(var(i.first));
    ll y = i.second.is_buffer ? (ll)&w.root_bufs[i.first - w.scalars].b : i.second.scalar;
    require(x == y, "variable ", i.first, " is ", x, " after the statement, it was ", y);
  }
  for (auto& b : w.root_bufs) {
    require(b.b.base == b.b0.base && b.b.elem_size == b.b0.elem_size && b.b.rank == b.b0.rank && b.b.dims == b.b0.dims,
            "a buffer is different after the statement: ", buf_s(b.b), " was ", buf_s(b.b0));
    for (int d = 0; d < 4; ++d) require(b.dims[d] == b.dims0[d], "dimension ", d, " is different after the statement: ", dim_s(b.dims[d]), " was ", dim_s(b.dims0[d]));
  }
}
}  // namespace rt
