// Evaluation of expressions (C13): values, laziness, bindings, buffer fields and addresses, contexts of the smallest size.
#include <deque>

#include "drivers/rt/rt.h"

namespace rt {
namespace {
struct machine {
  rng& r;
  int vars = 5, bufs = 3;
  std::vector<ll> value;
  struct rbuf {
    raw_buffer b;
    dim dims[4];
  };
  std::deque<rbuf> buf;
  std::vector<ll> trace;       // of the evaluator
  std::vector<ll> expected;    // of the reference
  int calls = 0;
  std::size_t max_name = 0;
  machine(rng& r) : r(r) {}

  ll small() { return r.p(85) ? r.in(-9, 9) : r.p(50) ? r.in(-1000000, 1000000) : (r.p(50) ? INT64_MAX : INT64_MIN) + (r.p(50) ? 0 : r.in(-1, 1) * 0); }
  var name() { return var(r.in(0, vars - 1)); }
  var bufname() { return var(vars + r.in(0, bufs - 1)); }
  int let_name() { return r.p(70) ? r.in(0, vars - 1) : r.in(vars + bufs, vars + bufs + 12); }

  void setup() {
    for (int i = 0; i < vars; ++i) value.push_back(small());
    for (int i = 0; i < bufs; ++i) {
      buf.emplace_back();
      rbuf& b = buf.back();
      b.b.base = (void*)(uintptr_t)(r.p(10) ? 0 : r.in(1, 1000) * (1ll << 30));
      b.b.elem_size = r.in(0, 9);
      b.b.rank = r.in(0, 3);
      b.b.dims = b.dims;
      for (std::size_t d = 0; d < b.b.rank; ++d) {
        ll m = r.in(-9, 9);
        b.dims[d] = dim(m, m + r.in(-2, 12), r.p(20) ? 0 : r.in(-20, 20), r.p(70) ? -1 : r.in(1, 6));
      }
      value.push_back((ll)&b.b);
    }
    max_name = vars + bufs - 1;
  }

  std::vector<int> extra;      // names bound by enclosing lets beyond the context
  expr leaf() {
    int k = r.in(0, 9);
    if (k < 4) return variable::make(!extra.empty() && r.p(40) ? var(extra[r.in(0, extra.size() - 1)]) : name());
    if (k < 7) return constant::make(small());
    if (k < 9) {
      buffer_field f = (buffer_field)r.in((int)buffer_field::rank, (int)buffer_field::fold_factor);
      if (f == buffer_field::size_bytes) f = buffer_field::rank;
      int d = f == buffer_field::rank || f == buffer_field::elem_size ? -1 : r.in(0, 4);
      return variable::make(bufname(), f, d);
    }
    return constant::make(r.in(0, 1));
  }
  expr any(int depth) {
    if (depth <= 0) return leaf();
    int k = r.in(0, 99);
    if (k < 50) return et::make_bin(r.in(0, 12), any(depth - 1), any(depth - 1));
    if (k < 56) return logical_not::make(any(depth - 1));
    if (k < 66) return select::make(any(depth - 1), any(depth - 1), any(depth - 1));
    if (k < 78) {
      std::vector<std::pair<var, expr>> lets;
      std::size_t n = extra.size();
      for (int i = r.in(1, 4); i > 0; --i) {
        expr e = any(depth - 1 - r.in(0, 1));
        int id = let_name();
        lets.push_back({var(id), e});
        if (id >= vars + bufs) extra.push_back(id);
      }
      expr body = any(depth - 1);
      extra.resize(n);
      return let::make(lets, body);
    }
    if (k < 88) {
      std::vector<expr> args;
      for (int i = r.in(0, 4); i > 0; --i) args.push_back(any(depth - 1));
      return call::make(r.p(50) ? intrinsic::and_then : intrinsic::or_else, args);
    }
    if (k < 91) return call::make(intrinsic::abs, {any(depth - 1)});
    if (k < 95) {
      std::vector<expr> args;
      args.push_back(variable::make(bufname()));
      for (int i = r.in(0, 4); i > 0; --i) args.push_back(r.p(20) ? expr() : any(depth - 2));
      return call::make(intrinsic::buffer_at, args);
    }
    int id = calls++;
    expr a = any(depth - 1);
    return call::make([this, id](const call* c, eval_context& ctx) -> index_t {
      ll v = evaluate(c->args[0], ctx);
      trace.push_back(id);
      return v ^ id;
    }, {a});
  }

  // The reference.
  std::map<std::size_t, ll> env;
  long steps = 0;
  big chk(big x) {
    if (!fits(x)) throw discard();
    return x;
  }
  ll ev(const expr& e) { return (ll)chk(ev_(e)); }
  big ev_(const expr& e) {
    if (!e.defined() || ++steps > 20000) throw discard();
    switch (e.type()) {
    case expr_node_type::constant: return e.as<constant>()->value;
    case expr_node_type::variable: {
      const variable* v = e.as<variable>();
      auto it = env.find(v->sym.id);
      if (it == env.end()) throw discard();
      if (v->field == buffer_field::none) return it->second;
      const raw_buffer& b = *(const raw_buffer*)value[v->sym.id];
      bool in = v->dim >= 0 && (std::size_t)v->dim < b.rank;
      switch (v->field) {
      case buffer_field::rank: return b.rank;
      case buffer_field::elem_size: return b.elem_size;
      case buffer_field::min: return in ? b.dims[v->dim].min() : 0;
      case buffer_field::max: return in ? b.dims[v->dim].max() : 0;
      case buffer_field::stride: return in ? b.dims[v->dim].stride() : 0;
      case buffer_field::fold_factor: return in ? b.dims[v->dim].fold_factor() : 0;
      default: throw discard();
      }
    }
    case expr_node_type::let: {
      const let* l = e.as<let>();
      auto old = env;
      for (auto& i : l->lets) {
        ll v = ev(i.second);
        env[i.first.id] = v;
      }
      ll v = ev(l->body);
      env = old;
      return v;
    }
    case expr_node_type::logical_not: return ev(e.as<logical_not>()->a) == 0;
    case expr_node_type::select: {
      const class select* s = e.as<class select>();
      return ev(s->condition) != 0 ? ev(s->true_value) : ev(s->false_value);
    }
    case expr_node_type::call: {
      const call* c = e.as<call>();
      switch (c->intrinsic) {
      case intrinsic::abs: {
        big v = ev(c->args[0]);
        return v < 0 ? -v : v;
      }
      case intrinsic::and_then:
        for (const expr& i : c->args)
          if (ev(i) == 0) return 0;
        return 1;
      case intrinsic::or_else:
        for (const expr& i : c->args)
          if (ev(i) != 0) return 1;
        return 0;
      case intrinsic::buffer_at: {
        const raw_buffer& b = *(const raw_buffer*)value[(*as_variable(c->args[0])).id];
        big at = (ll)b.base;
        bool out = at == 0;
        for (std::size_t d = 0; d < b.rank && d + 1 < c->args.size(); ++d) {
          if (!c->args[d + 1].defined()) continue;
          ll x = ev(c->args[d + 1]);
          const dim& m = b.dims[d];
          if (m.stride() != 0 && (x < m.min() || x > m.max())) out = true;
          if (out) continue;
          if (m.stride() == 0) {
            chk((big)x - m.min());
          } else if (m.fold_factor() == -1) {
            at += ((big)x - m.min()) * m.stride();
          } else {
            ll q = x % m.fold_factor();
            at += (big)(q < 0 ? q + m.fold_factor() : q) * m.stride();
          }
        }
        return out ? 0 : at;
      }
      case intrinsic::none: {
        ll before = ev(c->args[0]);
        // which call it is: ask it
        std::vector<ll> t;
        t.swap(trace);
        eval_context ctx;
        expr z = call::make(intrinsic::none, c->target, {constant::make((index_t)0)});
        ll id = c->target(z.as<call>(), ctx);
        t.swap(trace);
        expected.push_back(id);
        return before ^ id;
      }
      default: throw discard();
      }
    }
    default: break;
    }
    const binary_op* b = (const binary_op*)e.get();
    big x = ev(b->a), y = ev(b->b);
    switch (e.type()) {
    case expr_node_type::add: return x + y;
    case expr_node_type::sub: return x - y;
    case expr_node_type::mul: return x * y;
    case expr_node_type::div: return et::ref_eval::ediv(x, y);
    case expr_node_type::mod: return y == 0 ? (big)0 : x - et::ref_eval::ediv(x, y) * y;
    case expr_node_type::min: return x < y ? x : y;
    case expr_node_type::max: return x > y ? x : y;
    case expr_node_type::equal: return x == y;
    case expr_node_type::not_equal: return x != y;
    case expr_node_type::less: return x < y;
    case expr_node_type::less_equal: return x <= y;
    case expr_node_type::logical_and: return x != 0 && y != 0;
    case expr_node_type::logical_or: return x != 0 || y != 0;
    default: throw discard();
    }
  }
};
}  // namespace

void case_eval(rng& r) {
  machine m(r);
  m.setup();
  expr e = m.any(r.in(1, 5));
  for (std::size_t i = 0; i < m.value.size(); ++i) m.env[i] = m.value[i];
  std::ostringstream o;
  o << et::to_s(e) << " where";
  for (int i = 0; i < m.vars; ++i) o << " " << i << "=" << m.value[i];
  for (int i = 0; i < m.bufs; ++i) o << " " << m.vars + i << "=" << buf_s(m.buf[i].b);
  describe = o.str();
  ll want = m.ev(e);
  // a context that is just large enough for what is bound
  eval_context ctx;
  ctx.reserve(m.value.size());
  for (std::size_t i = 0; i < m.value.size(); ++i) ctx[var(i)] = m.value[i];
  m.trace.clear();
  ll got = evaluate(e, ctx);
  require(got == want, "evaluates to ", got, ", its value is ", want);
  for (std::size_t i = 0; i < m.value.size(); ++i)
    require(ctx.lookup(var(i)) == m.value[i], "variable ", i, " was ", m.value[i], " before and is ", ctx.lookup(var(i)), " after");
  std::vector<ll> a = m.trace, b = m.expected;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  require(a == b, "the operands that were evaluated are not those that are needed: ", a.size(), " calls instead of ", b.size());
}
}  // namespace rt
