// Buffers: views (C07), allocation (C08), copy and pad (C09), iteration (C10), validation (C11).
#include <algorithm>
#include <array>
#include <cstring>
#include <memory>

#include "drivers/rt/rt.h"

namespace rt {
namespace {
ll emod(ll a, ll b) {
  ll m = a % b;
  return m < 0 ? m + b : m;
}

// A buffer as a value: the address of an element is base + sum of the offsets of its coordinates.
struct ref_buf {
  char* base;
  std::size_t elem;
  std::vector<dim> d;
  ref_buf(const raw_buffer& b) : base((char*)b.base), elem(b.elem_size), d(b.dims, b.dims + b.rank) {}
  static bool in(const dim& d, ll x) { return d.stride() == 0 || (d.min() <= x && x <= d.max()); }
  static ll offset(const dim& d, ll x) {
    if (d.stride() == 0) return 0;
    if (d.fold_factor() == dim::unfolded) return (x - d.min()) * d.stride();
    return emod(x, d.fold_factor()) * d.stride();
  }
  bool contains(const std::vector<ll>& x) const {
    for (std::size_t i = 0; i < std::min(x.size(), d.size()); ++i)
      if (!in(d[i], x[i])) return false;
    return true;
  }
  // null if out of bounds
  char* at(const std::vector<ll>& x) const {
    if (!base || !contains(x)) return nullptr;
    ll o = 0;
    for (std::size_t i = 0; i < std::min(x.size(), d.size()); ++i) o += offset(d[i], x[i]);
    return base + o;
  }
};

// The coordinates to look at: in bounds of the dimensions, and a bit outside of them.
template <typename F>
void each(const std::vector<dim>& d, ll margin, const F& f) {
  std::vector<ll> x(d.size());
  std::function<void(std::size_t)> go = [&](std::size_t i) {
    if (i == d.size()) {
      f(x);
      return;
    }
    for (ll v = d[i].min() - margin; v <= d[i].max() + margin; ++v) {
      x[i] = v;
      go(i + 1);
    }
  };
  go(0);
}

struct shape {
  int max_rank = 4;
  ll max_extent = 5;
  bool empties = true, folds = true, negative = true, zeros = true, dense = true;
};
// dims of a buffer. Some are such that they can be fused.
std::vector<dim> gen_dims(rng& r, ll elem, const shape& s, int rank) {
  std::vector<dim> d(rank);
  ll dense = elem;
  std::vector<int> order(rank);
  for (int i = 0; i < rank; ++i) order[i] = i;
  if (r.p(30)) std::shuffle(order.begin(), order.end(), std::mt19937(r.next()));
  bool is_dense = s.dense && r.p(60);
  for (int k : order) {
    ll mn = r.p(40) ? 0 : r.in(-7, 7), ext = r.p(25) ? 1 : r.in(s.empties && r.p(15) ? -1 : 1, s.max_extent);
    ll stride, fold = dim::unfolded;
    if (is_dense ? r.p(88) : r.p(40)) {
      stride = dense;
    } else {
      stride = r.in(s.negative ? -6 : 1, 12) * elem;
    }
    if (s.zeros && r.p(12)) stride = 0;
    if (!s.zeros && stride == 0) stride = elem;
    if (s.folds && r.p(18)) fold = r.p(60) ? r.in(1, 4) : std::max<ll>(1, ext);
    if (stride == 0 && s.zeros && r.p(50)) mn = 0, ext = 1, fold = r.p(50) ? 0 : -1;
    d[k] = dim(mn, mn + ext - 1, stride, fold);
    if (stride != 0) dense = std::abs(stride) * std::max<ll>(1, fold > 0 ? fold : ext);
    if (r.p(10)) dense += elem * r.in(1, 3);
  }
  return d;
}
raw_buffer raw(void* base, ll elem, std::vector<dim>& d) {
  raw_buffer b;
  b.base = base;
  b.elem_size = elem;
  b.rank = d.size();
  b.dims = d.data();
  return b;
}
std::string xs(const std::vector<ll>& x) {
  std::ostringstream o;
  o << "(";
  for (std::size_t i = 0; i < x.size(); ++i) o << (i ? "," : "") << x[i];
  o << ")";
  return o.str();
}
// Removes trailing coordinates that are broadcasts anyway and compares addresses of b at x with `expect`.
void same_address(const raw_buffer& b, const std::vector<ll>& x, char* expect, const std::string& what) {
  ref_buf rb(b);
  char* a = rb.at(x);
  require(a == expect, what, ": the element at ", xs(x), " of ", buf_s(b), " is at ", (ll)a, ", expected ", (ll)expect);
}

void check_accessors(rng& r, const raw_buffer& b) {
  ref_buf rb(b);
  std::vector<dim> d = rb.d;
  if (d.size() > 3) return;
  ll m = 1;
  // more coordinates than dimensions: broadcasts
  while (d.size() < 4 && r.p(20)) d.push_back(dim(0, 1, 0, -1));
  each(d, m, [&](const std::vector<ll>& x) {
    bool in = rb.contains(x);
    std::vector<index_t> y(x.begin(), x.end());
    span<const index_t> sp(y);
    require(b.contains(sp) == in, "contains(span)", xs(x), " of ", buf_s(b));
    bool v = true;
    std::ptrdiff_t o = 0;
    const void* a = nullptr;
    auto get = [&](auto... i) {
      v = b.contains(i...);
      if (in) {
        o = b.flat_offset_bytes(i...);
        a = b.address_at(i...);
      }
    };
    switch (y.size()) {
    case 0: get(); break;
    case 1: get(y[0]); break;
    case 2: get(y[0], y[1]); break;
    case 3: get(y[0], y[1], y[2]); break;
    case 4: get(y[0], y[1], y[2], y[3]); break;
    }
    require(v == in, "contains", xs(x), " of ", buf_s(b));
    for (std::size_t i = 0; i < std::min(y.size(), b.rank); ++i) {
      require(b.dims[i].contains(y[i]) == ref_buf::in(b.dims[i], y[i]), "dim::contains(", y[i], ") of ", dim_s(b.dims[i]));
    }
    if (!in) return;
    char* e = rb.at(x);
    require(b.flat_offset_bytes(sp) == o, "flat_offset_bytes(span)", xs(x), " of ", buf_s(b));
    require((char*)b.address_at(sp) == e, "address_at(span)", xs(x), " of ", buf_s(b));
    require((const char*)a == e, "address_at", xs(x), " of ", buf_s(b), ": ", (ll)a, " expected ", (ll)e);
    // sliced coordinates do not count
    if (y.size() == 2 && b.base) {
      std::vector<ll> x0 = x;
      ref_buf s(b);
      char* e1 = s.base + (s.d.size() > 1 ? ref_buf::offset(s.d[1], x[1]) : 0);
      char* e0 = s.base + (s.d.size() > 0 ? ref_buf::offset(s.d[0], x[0]) : 0);
      require((char*)b.address_at(slinky::slice, y[1]) == e1, "address_at(slice, ", y[1], ") of ", buf_s(b));
      require((char*)b.address_at(y[0], slinky::slice) == e0, "address_at(", y[0], ", slice) of ", buf_s(b));
    }
  });
}
}  // namespace

void case_view(rng& r) {
  shape s;
  ll elem = r.in(1, 8);
  std::vector<dim> d = gen_dims(r, elem, s, r.in(0, s.max_rank));
  char* base = (char*)0x100000000ll;
  if (r.p(4)) base = nullptr;
  std::vector<dim> d0 = d;
  d.resize(d.size() + 2);     // storage that must not be touched
  raw_buffer b = raw(base, elem, d0);
  ref_buf before(b);
  std::vector<dim> mem = d0;
  mem.resize(d0.size());
  b.dims = mem.data();
  std::ostringstream o;
  o << "view base " << (ll)base << " " << buf_s(b);
  int op = r.in(0, 12);
  auto D = [&]() { return (ll)r.in(0, (ll)before.d.size()); };
  const std::size_t rank = before.d.size();
  switch (op) {
  case 0: {
    describe = o.str();
    check_accessors(r, b);
    break;
  }
  case 1:
  case 2: {  // crop, and crop again, and undo
    raw_buffer old = b;
    std::vector<dim> old_dims = mem;
    int n = r.in(1, 3);
    ref_buf cur(b);
    for (int k = 0; k < n; ++k) {
      ll c = D(), lo = r.in(-9, 9), hi = lo + r.in(-2, 6);
      if (r.p(10)) lo = INT64_MIN;
      if (r.p(10)) hi = INT64_MAX;
      o << " crop(" << c << ", " << lo << ", " << hi << ")";
      describe = o.str();
      ref_buf prev(b);
      b.crop(c, lo, hi);
      require(b.rank == rank, "crop changed the rank");
      for (std::size_t i = 0; i < rank; ++i) {
        if ((ll)i != c) {
          require(b.dims[i] == prev.d[i], "crop changed dimension ", i);
          continue;
        }
        require(b.dims[i].min() == std::max<ll>(prev.d[i].min(), lo) && b.dims[i].max() == std::min<ll>(prev.d[i].max(), hi),
                "crop gave the bounds ", dim_s(b.dims[i]), " from ", dim_s(prev.d[i]));
        require(b.dims[i].stride() == prev.d[i].stride() && b.dims[i].fold_factor() == prev.d[i].fold_factor(), "crop changed the stride or fold");
      }
      bool empty = false;
      for (auto& i : ref_buf(b).d) empty |= i.empty();
      if (empty) continue;
      each(ref_buf(b).d, 0, [&](const std::vector<ll>& x) { same_address(b, x, prev.at(x), "crop"); });
      check_accessors(r, b);
    }
    // undo
    b.base = old.base;
    for (std::size_t i = 0; i < rank; ++i) b.dims[i].set_bounds(old_dims[i].min(), old_dims[i].max());
    for (std::size_t i = 0; i < rank; ++i) require(b.dims[i] == old_dims[i], "undoing a crop");
    break;
  }
  case 3:
  case 4: {  // slice at a coordinate
    ll c = D(), at = r.in(-9, 12);
    if (c < (ll)rank && r.p(70) && !before.d[c].empty()) at = r.in(before.d[c].min(), before.d[c].max());
    bool in = c >= (ll)rank || ref_buf::in(before.d[c], at);
    bool assume = in && base && r.p(40);
    o << " slice(" << c << ", " << at << (assume ? " in bounds" : "") << ")";
    describe = o.str();
    if (assume) {
      b.slice(c, in_bounds{at});
    } else {
      b.slice(c, at);
    }
    if (c >= (ll)rank) {
      require(b.rank == rank && b.base == before.base, "slicing a broadcast");
    } else {
      require(b.rank == rank - 1, "slice: the rank is ", b.rank);
      std::vector<dim> e = before.d;
      e.erase(e.begin() + c);
      for (std::size_t i = 0; i < b.rank; ++i) require(b.dims[i] == e[i], "slice: dimension ", i, " is ", dim_s(b.dims[i]));
      if (!in) require(!b.base, "slice out of bounds is not null");
      each(e, 1, [&](const std::vector<ll>& x) {
        std::vector<ll> y = x;
        y.insert(y.begin() + c, at);
        same_address(b, x, before.at(y), "slice");
      });
    }
    break;
  }
  case 5: {  // slice several dimensions
    std::vector<std::size_t> ds;
    const std::size_t rank = r.in(0, 8);
    mem.resize(rank);
    for (dim& i : mem) {
      i.set_min_extent(r.in(-5, 5), r.in(0, 6));
      i.set_stride(r.in(-9, 9));
      i.set_fold_factor(r.p(30) ? r.in(1, 4) : dim::unfolded);
    }
    b.rank = rank;
    b.dims = mem.data();
    const ref_buf before(b);
    o << " -> " << buf_s(b);
    for (std::size_t i = 0; i < rank; ++i)
      if (r.p(45)) ds.push_back(i);
    // slicing a broadcast dimension does nothing
    if (r.p(20)) ds.push_back(rank + r.in(0, 3));
    if (r.p(20)) ds.push_back((ds.empty() ? rank : std::max(rank, ds.back() + 1)) + r.in(0, 3));
    o << " slice({";
    for (auto i : ds) o << i << " ";
    o << "})";
    describe = o.str();
    if (ds.empty()) throw discard();
    if (ds.size() == 1 && r.p(50)) {
      b.slice(ds[0]);
    } else {
      b.slice(span<const std::size_t>(ds));
    }
    std::vector<dim> e;
    for (std::size_t i = 0; i < rank; ++i)
      if (std::find(ds.begin(), ds.end(), i) == ds.end()) e.push_back(before.d[i]);
    require(b.rank == e.size() && b.base == before.base, "slice: rank or base");
    for (std::size_t i = 0; i < e.size(); ++i) require(b.dims[i] == e[i], "slice: dimension ", i, " is ", dim_s(b.dims[i]), " expected ", dim_s(e[i]));
    break;
  }
  case 6: {  // translate
    if (rank == 0) throw discard();
    std::vector<index_t> off;
    std::size_t n = r.in(1, rank);
    for (std::size_t i = 0; i < n; ++i) {
      off.push_back(r.in(-9, 9));
      if (mem[i].fold_factor() > 0) off[i] *= mem[i].fold_factor();
    }
    o << " translate";
    for (auto i : off) o << " " << i;
    describe = o.str();
    if (r.p(50)) {
      b.translate(span<const index_t>(off));
    } else {
      switch (n) {
      case 1: b.translate(off[0]); break;
      case 2: b.translate(off[0], off[1]); break;
      case 3: b.translate(off[0], off[1], off[2]); break;
      case 4: b.translate(off[0], off[1], off[2], off[3]); break;
      }
    }
    each(before.d, 1, [&](const std::vector<ll>& x) {
      std::vector<ll> y = x;
      for (std::size_t i = 0; i < n; ++i) y[i] += off[i];
      same_address(b, y, before.at(x), "translate");
    });
    break;
  }
  case 7:
  case 8: {  // fuse two dimensions
    ll in = D(), out = r.p(80) ? in + 1 : D();
    if (in == out) throw discard();
    dim id = in < (ll)rank ? before.d[in] : dim::broadcast(), od = out < (ll)rank ? before.d[out] : dim::broadcast();
    if (in < (ll)rank && out < (ll)rank && r.p(60) && !id.empty()) {
      // make it likely that they can be fused
      ll f = od.fold_factor() <= 0 ? -1 : od.fold_factor();
      od = dim(od.min(), od.max(), id.stride() * id.extent(), f);
      before.d[out] = b.dims[out] = od;
    }
    o.str("");
    o << "view base " << (ll)base << " " << buf_s(b) << " fuse(" << in << ", " << out << ")";
    describe = o.str();
    if (!can_fuse(id, od)) throw discard();
    if (od.fold_factor() > 0 && od.stride() != 0 && od.is_folded()) {
      // every element has an address, there is nothing special about this
    }
    int how = r.in(0, 2);
    ll ie = id.max() - id.min() + 1;
    if (how == 0) fuse<fuse_type::keep>(in, out, b);
    if (how == 1) fuse<fuse_type::remove>(in, out, b);
    if (how == 2) fuse<fuse_type::undef>(in, out, b);
    std::size_t nr = how == 1 && out < (ll)rank ? rank - 1 : rank;
    require(b.rank == nr, "fuse: the rank is ", b.rank);
    each(before.d, 0, [&](const std::vector<ll>& x) {
      std::vector<ll> y = x;
      ll xi = in < (ll)rank ? x[in] : 0, xo = out < (ll)rank ? x[out] : 0;
      ll f = xo * ie + (xi - id.min());
      if (in < (ll)rank) y[in] = f;
      if (out < (ll)rank) {
        y[out] = 0;
        if (how == 1) y.erase(y.begin() + out);
      }
      if (how == 2) {
        if (out < (ll)rank) b.dims[out] = dim::broadcast();
      }
      same_address(b, y, before.at(x), "fuse");
    });
    // nothing else is in bounds: the number of elements is the same
    if (how == 1 && in < (ll)rank && out < (ll)rank && od.stride() != 0) {
      ll n0 = 1, n1 = 1;
      for (auto& i : before.d) n0 *= i.empty() ? 0 : i.max() - i.min() + 1;
      for (std::size_t i = 0; i < b.rank; ++i) n1 *= b.dims[i].empty() ? 0 : b.dims[i].max() - b.dims[i].min() + 1;
      require(n0 == n1, "fuse: the number of elements changed from ", n0, " to ", n1);
    }
    break;
  }
  case 9:
  case 10: {  // sort_dims, fuse_contiguous_dims, optimize_dims of up to 3 buffers: the same tuples of addresses
    int n = r.in(1, 3);
    std::vector<std::vector<dim>> ds(n);
    std::vector<raw_buffer> bs;
    std::vector<ref_buf> refs;
    ds[0] = before.d;
    // The extent of a broadcast does not count as a part of the domain (fusing makes it unbounded).
    for (auto& i : ds[0])
      if (i.empty() || i.stride() == 0) i.set_point(i.min());
    for (int i = 1; i < n; ++i) {
      int rk = r.p(70) ? rank : r.in(0, rank);
      ds[i] = r.p(40) ? ds[0] : gen_dims(r, elem, s, rk);
      ds[i].resize(rk);
      for (int k = 0; k < rk; ++k) {
        // in bounds everywhere, so that the domain is that of the first buffer
        if (r.p(60) || ds[i][k].empty()) ds[i][k].set_bounds(ds[0][k].min(), ds[0][k].max());
      }
    }
    for (int i = 0; i < n; ++i) {
      bs.push_back(raw((char*)(0x100000000ll * (i + 1)), elem, ds[i]));
      refs.push_back(ref_buf(bs[i]));
    }
    int what = r.in(0, 2);
    o.str("");
    o << (what == 0 ? "sort_dims" : what == 1 ? "fuse_contiguous_dims" : "optimize_dims");
    for (auto& i : bs) o << " " << buf_s(i);
    describe = o.str();
    std::vector<int> sets;
    bool with_sets = r.p(30);
    for (std::size_t i = 0; i < rank + 1; ++i) sets.push_back(r.in(0, 1));
    auto call = [&](auto&... bufs) {
      if (with_sets) {
        what == 0 ? (void)sort_dims(sets, bufs...) : what == 1 ? (void)fuse_contiguous_dims(sets, bufs...) : (void)optimize_dims(sets, bufs...);
      } else {
        what == 0 ? (void)sort_dims(bufs...) : what == 1 ? (void)fuse_contiguous_dims(bufs...) : (void)optimize_dims(bufs...);
      }
    };
    if (n == 1) call(bs[0]);
    if (n == 2) call(bs[0], bs[1]);
    if (n == 3) call(bs[0], bs[1], bs[2]);
    auto tuples = [&](const std::vector<ref_buf>& v) {
      std::vector<std::vector<char*>> t;
      std::size_t rk = 0;
      for (auto& i : v) rk = std::max(rk, i.d.size());
      std::vector<dim> dom = v[0].d;
      while (dom.size() < rk) dom.push_back(dim(0, 0, 0, -1));
      // a broadcast of the first buffer with one element may stand for any number of them, so compare sets then
      each(dom, 0, [&](const std::vector<ll>& x) {
        std::vector<char*> a;
        for (auto& i : v) a.push_back(i.at(x));
        t.push_back(a);
      });
      std::sort(t.begin(), t.end());
      t.erase(std::unique(t.begin(), t.end()), t.end());
      return t;
    };
    std::vector<ref_buf> after;
    std::string res;
    for (auto& i : bs) after.push_back(ref_buf(i)), res += " " + buf_s(i);
    require(tuples(refs) == tuples(after), "the addresses of elements changed, the result is", res);
    break;
  }
  case 11: {  // buffer<T>: copies, assignment, moves
    if (rank > 4) throw discard();
    buffer<char, 4> c(b);
    buffer<char, 4> e = c, f;
    f = b;
    buffer<char, 6> g(c);
    buffer<char, 4> h(std::move(e));
    f = f;
    describe = o.str() + " copies";
    for (const raw_buffer* p : {(const raw_buffer*)&c, (const raw_buffer*)&f, (const raw_buffer*)&g, (const raw_buffer*)&h}) {
      require(p->rank == rank && p->base == before.base && p->elem_size == elem, "a copy of a buffer is different");
      for (std::size_t i = 0; i < rank; ++i) require(p->dims[i] == before.d[i] && &p->dims[i] != &b.dims[i], "a copy of a buffer is different");
    }
    if (rank > 0) {
      ll k = r.in(0, rank - 1);
      dim was = before.d[k];
      c.slice(k);
      c.unslice(k, was);
      require(c.rank == rank, "unslice: the rank is ", c.rank);
      for (std::size_t i = 0; i < rank; ++i) require(c.dims[i] == before.d[i], "unslice(", k, "): dimension ", i, " is ", dim_s(c.dims[i]));
    }
    break;
  }
  case 12: {  // predicates of dimensions
    if (rank == 0) throw discard();
    const dim& x = before.d[0];
    describe = o.str() + " predicates";
    require(x.extent() == std::max<ll>(0, x.max() - x.min() + 1), "extent of ", dim_s(x));
    require(x.empty() == (x.max() < x.min()), "empty of ", dim_s(x));
    ll a = r.in(-9, 9), c = a + r.in(0, 9);
    bool folded = false;
    if (x.stride() != 0 && x.fold_factor() > 0)
      for (ll i = a; i < c; ++i) folded |= emod(i, x.fold_factor()) > emod(i + 1, x.fold_factor()) || x.fold_factor() == 1;
    require(x.is_folded(a, c) == folded, "is_folded(", a, ", ", c, ") of ", dim_s(x));
    require(x.contains(a, c) == (x.stride() == 0 || (x.min() <= a && c <= x.max())), "contains(", a, ", ", c, ") of ", dim_s(x));
    break;
  }
  }
}

// --- allocation ------------------------------------------------------------------------------------------------------------
void case_alloc(rng& r) {
  shape s;
  s.max_rank = 4;
  s.max_extent = 4;
  ll elem = r.in(1, 6);
  int rank = r.in(0, 4);
  std::vector<dim> d(rank);
  for (int i = 0; i < rank; ++i) {
    ll mn = r.in(-5, 5), ext = r.p(10) ? r.in(-2, 0) : r.in(1, s.max_extent);
    ll stride = dim::auto_stride, fold = dim::unfolded;
    if (r.p(35)) stride = r.in(-4, 20) * elem;
    if (stride < 0 && r.p(70)) stride = -stride;
    if (r.p(10)) stride = 0;
    if (r.p(20)) fold = r.in(1, 5);
    d[i] = dim(mn, mn + ext - 1, stride, fold);
  }
  bool huge = r.p(15) && rank > 0;
  if (huge) {
    int n = r.in(1, rank);
    for (int k = 0; k < n; ++k) {
      int i = r.in(0, rank - 1);
      switch (r.in(0, 3)) {
      case 0: d[i].set_min_extent(r.in(-3, 3), 1ll << r.in(20, 62)); break;
      case 1: d[i].set_stride((1ll << r.in(20, 62)) * (r.p(80) ? 1 : -1)); break;
      case 2: d[i].set_fold_factor(1ll << r.in(20, 62)); break;
      case 3: elem = r.p(50) ? -(ll)r.in(1, 9) : 1ll << r.in(20, 62); break;
      }
    }
  }
  ll align = 1ll << r.in(0, 5), base_align = 1ll << r.in(0, 6);
  std::vector<dim> d0 = d;
  raw_buffer b = raw(nullptr, elem, d);
  describe = "alloc " + buf_s(b) + " alignment " + std::to_string(align);
  // What must be representable.
  auto ext = [](const dim& x) -> big { return x.fold_factor() > 0 ? x.fold_factor() : std::max<big>(0, (big)x.max() - x.min() + 1); };
  if (huge) {
    auto size = b.init_strides(align);
    big span = 0;
    bool known = true, empty = false;
    for (int i = 0; i < rank; ++i) {
      big e = ext(d[i]);
      empty |= e == 0;
      if (d0[i].stride() != dim::auto_stride || e <= 1) require(e <= 1 || d[i].stride() == d0[i].stride(), "init_strides changed a stride");
      if (d[i].stride() == dim::auto_stride && e > 1) known = false;
      if (e > 1) {
        big t, st = d[i].stride() < 0 ? -(big)d[i].stride() : d[i].stride();
        if (__builtin_mul_overflow(e - 1, st, &t)) known = false;
        else span += t;
      }
    }
    if (size) {
      require(elem >= 0, "a size of ", *size, " for an element size that is out of range");
      require(known, "a size of ", *size, " for a buffer that is too large: ", buf_s(b));
      if (!empty) require(span + elem <= (big)*size, "the size ", *size, " is too small: ", buf_s(b));
      require(*size <= (std::size_t)INT64_MAX, "the size is out of range");
    }
    return;
  }
  int how = r.in(0, 3);
  bool preset_overlap = false;
  std::size_t bytes = 0;
  void* mem = nullptr;
  raw_buffer_ptr shared;
  buffer<char, 4> typed;
  raw_buffer* pb = &b;
  if (how == 0) {
    auto size = b.init_strides(align);
    require(size.has_value(), "no size");
    bytes = *size;
    require(bytes % align == 0, "the size ", bytes, " is not a multiple of the alignment");
  } else if (how == 1) {
    mem = b.allocate(base_align, align);
    require(mem, "not allocated");
    require((uintptr_t)b.base % base_align == 0, "the base is not aligned");
  } else {
    // make: needs strides
    auto size = b.init_strides(align);
    require(size.has_value(), "no size");
    bool any_negative = false;
    for (auto& i : d) any_negative |= i.stride() < 0 && ext(i) > 1;
    if (any_negative) throw discard();
    shared = raw_buffer::make(rank, elem, d.data(), how == 2 ? 1 : base_align);
    pb = &*shared;
    require(pb->rank == (std::size_t)rank && pb->elem_size == (std::size_t)elem, "make: rank or element size");
    for (int i = 0; i < rank; ++i) require(pb->dims[i] == d[i], "make: dimension ", i);
    if (pb->base) require((uintptr_t)pb->base % (how == 2 ? 1 : base_align) == 0, "make: the base is not aligned");
  }
  big span = elem;
  bool empty = false;
  for (int i = 0; i < rank; ++i) {
    const dim& x = pb->dims[i];
    big e = ext(x);
    require(x.min() == d0[i].min() && x.max() == d0[i].max() && x.fold_factor() == d0[i].fold_factor(), "bounds or fold changed");
    if (d0[i].stride() != dim::auto_stride) require(x.stride() == d0[i].stride(), "a preset stride changed");
    require(x.stride() != dim::auto_stride || e <= 0, "dimension ", i, " has no stride");
    if (e == 0) empty = true;
    if (e > 1) span += (e - 1) * std::abs(x.stride());
  }
  if (!empty && how == 0) require((big)bytes >= span, "the size ", bytes, " is smaller than the span ", (ll)span, ": ", buf_s(*pb));
  if (!empty) {
    std::size_t sb = pb->size_bytes();
    require((big)sb == span, "size_bytes is ", sb, ", the span of the elements is ", (ll)span, ": ", buf_s(*pb));
  } else {
    require(pb->size_bytes() == 0, "size_bytes of an empty buffer is ", pb->size_bytes());
  }
  std::size_t count = 1;
  for (int i = 0; i < rank; ++i) count *= std::max<ll>(0, pb->dims[i].max() - pb->dims[i].min() + 1);
  require(pb->elem_count() == count, "elem_count is ", pb->elem_count());
  // Elements: inside of the storage, and disjoint where they differ in a dimension whose stride was chosen.
  ref_buf rb(*pb);
  if (!rb.base && !empty && elem > 0 && how != 0) fail("no storage for a buffer that is not empty");
  char* origin = how == 0 ? (char*)0x10000000 : rb.base;
  rb.base = origin;
  ll low = 0;
  for (int i = 0; i < rank; ++i)
    if (ext(rb.d[i]) > 1 && rb.d[i].stride() < 0) low += (ll)(ext(rb.d[i]) - 1) * rb.d[i].stride();
  // Dimensions with preset strides that interleave only guarantee that elements with the same coordinates in them are disjoint.
  std::vector<std::pair<ll, ll>> preset;
  bool nested = true;
  for (int i = 0; i < rank; ++i)
    if (d0[i].stride() != dim::auto_stride && d0[i].stride() != 0 && ext(d0[i]) > 1) preset.push_back({std::abs(d0[i].stride()), (ll)ext(d0[i])});
  std::sort(preset.begin(), preset.end());
  for (std::size_t i = 0; i + 1 < preset.size(); ++i) nested = nested && preset[i].first * preset[i].second <= preset[i + 1].first;
  std::vector<std::pair<std::vector<ll>, ll>> list;
  each(rb.d, 0, [&](const std::vector<ll>& x) {
    char* a = rb.at(x);
    require(a, "an element without an address");
    if (how == 0) {
      require(a - origin - low >= 0 && a - origin - low + elem <= (ll)bytes, "the element at ", xs(x), " of ", buf_s(*pb), " is outside of the storage of ", bytes, " bytes");
    } else {
      memset(a, 1, elem);     // checked by the address sanitizer
    }
    std::vector<ll> key;
    for (int i = 0; i < rank; ++i)
      if (d0[i].stride() == dim::auto_stride) key.push_back(rb.d[i].fold_factor() > 0 ? emod(x[i], rb.d[i].fold_factor()) : x[i]);
    if (!nested)
      for (int i = 0; i < rank; ++i)
        if (d0[i].stride() != dim::auto_stride && x[i] != rb.d[i].min()) return;
    list.push_back({key, a - origin});
  });
  if (elem > 0) {
    std::sort(list.begin(), list.end());
    list.erase(std::unique(list.begin(), list.end()), list.end());
    if (list.size() <= 400) {
      for (std::size_t i = 0; i < list.size(); ++i)
        for (std::size_t j = i + 1; j < list.size(); ++j)
          if (list[i].first != list[j].first)
            require(std::abs(list[i].second - list[j].second) >= elem, "elements overlap: ", xs(list[i].first), " and ", xs(list[j].first), " of ", buf_s(*pb));
    }
  }
  if (mem) ::free(mem);
}

// --- validation ------------------------------------------------------------------------------------------------------------
void case_valid(rng& r) {
  int rank = r.in(0, 3);
  auto big_value = [&](bool pos) -> ll {
    switch (r.in(0, 5)) {
    case 0: return r.in(pos ? 0 : -3, 3);
    case 1: return (1ll << r.in(0, 62)) * (pos || r.p(50) ? 1 : -1);
    case 2: return INT64_MAX - r.in(0, 4);
    case 3: return pos ? 1 : INT64_MIN + r.in(0, 4);
    case 4: return (ll)(r.next() >> (pos ? 1 : 0)) >> r.in(0, 60);
    default: return r.in(pos ? 0 : -100, 100);
    }
  };
  std::vector<dim> d(rank);
  for (auto& i : d) {
    ll stride = r.p(40) ? r.in(-9, 9) : big_value(false);
    if (r.p(5)) stride = dim::auto_stride;
    ll mn = big_value(false), mx = r.p(50) ? big_value(false) : (ll)((uint64_t)mn + (uint64_t)big_value(true));
    ll fold = r.p(70) ? -1 : big_value(true);
    i = dim(mn, mx, stride, fold);
  }
  std::size_t elem = r.p(80) ? r.in(0, 16) : (std::size_t)big_value(false);
  void* base = r.p(10) ? nullptr : r.p(50) ? (void*)0x7f0000001000ll : (void*)big_value(false);
  raw_buffer b = raw(base, elem, d);
  describe = "valid base " + std::to_string((unsigned long long)base) + " " + buf_s(b);
  // The offsets that elements can have.
  bool empty = false, fits_all = true, unknown = false;
  big lo = 0, hi = 0;
  for (auto& i : d) {
    if (i.stride() == 0) continue;
    big e = i.fold_factor() > 0 ? (big)i.fold_factor() : std::max<big>(0, (big)i.max() - i.min() + 1);
    if (e == 0) {
      empty = true;
      continue;
    }
    if (e > 1 && i.stride() == dim::auto_stride) unknown = true;
    // an offset is (x - min)*stride, in which x - min must be representable as well
    if (!fits(e - 1)) fits_all = false;
    big t = (e - 1) * i.stride();
    if (!fits(t)) fits_all = false;
    (t < 0 ? lo : hi) += t;
    if (!fits(lo) || !fits(hi)) fits_all = false;
  }
  bool addresses = true;
  if (base) {
    big u = (big)(uint64_t)base;
    if (!empty && u + lo < 0 || u + (empty ? 0 : hi) + (big)(uint64_t)elem > (big)UINT64_MAX) addresses = false;
    if (!empty && hi + (big)(uint64_t)elem > (big)UINT64_MAX) addresses = false;
  }
  bool ok = validate_buffer(b);
  if (ok && !empty) {
    require(!unknown, "accepted a buffer with an extent but no stride");
    require(fits_all, "accepted a buffer in which the offset of an element is not representable");
    require(addresses, "accepted a buffer with an element outside of the address space");
  }
  if (!ok) require(unknown || !fits_all || !addresses, "rejected a buffer in which every offset and address is representable");
}

// --- copy and pad ------------------------------------------------------------------------------------------------------------
namespace {
// Memory for a buffer of which nothing else may be touched.
struct storage {
  std::vector<char> bytes;
  raw_buffer b;
  std::vector<dim> d;
  static const int margin = 64;
  void init(rng& r, ll elem) {
    ll lo = 0, hi = elem;
    for (auto& i : d) {
      ll e = i.fold_factor() > 0 ? i.fold_factor() : i.extent();
      if (e > 1) (i.stride() < 0 ? lo : hi) += (e - 1) * i.stride();
      (void)e;
    }
    bytes.resize(hi - lo + 2 * margin);
    // Repeated bytes, with a few others, are what fills may have fast paths for.
    int same = r.in(0, 99);
    for (auto& i : bytes) i = same < 15 ? 7 : same < 40 ? (r.p(4) ? 9 : 7) : (char)r.next();
    b = raw(bytes.data() + margin - lo, elem, d);
  }
};
bool distinct_elements(const std::vector<dim>& d, ll elem) {
  ref_buf rb(raw((void*)0x100000, elem, const_cast<std::vector<dim>&>(d)));
  std::vector<ll> a;
  each(d, 0, [&](const std::vector<ll>& x) { a.push_back((ll)rb.at(x)); });
  std::sort(a.begin(), a.end());
  for (std::size_t i = 0; i + 1 < a.size(); ++i)
    if (a[i + 1] - a[i] < elem) return false;
  return true;
}
}  // namespace

void case_copy(rng& r) {
  shape s;
  s.max_rank = 3;
  ll elem = r.p(50) ? r.in(1, 2) : r.p(80) ? r.in(1, 9) : r.in(10, 40);
  s.zeros = false;
  storage dst, src, padding;
  int rank = r.in(0, 3);
  if (r.p(20)) s.max_extent = 20;
  dst.d = gen_dims(r, elem, s, rank);
  if (!distinct_elements(dst.d, elem)) throw discard();
  dst.init(r, elem);
  int mode = r.in(0, 3);     // 0: copy without padding, 1: copy with padding, 2: pad, 3: padded copy in place
  s.zeros = true;
  int srank = r.p(70) ? rank : r.in(0, rank + 1);
  src.d = gen_dims(r, elem, s, srank);
  for (int i = 0; i < srank; ++i) {
    ll mn = i < rank ? dst.d[i].min() : 0, mx = i < rank ? dst.d[i].max() : 0;
    if (mode == 0) {
      src.d[i].set_bounds(mn - (r.p(30) ? r.in(0, 3) : 0), std::max(mx, mn) + (r.p(30) ? r.in(0, 3) : 0));
    } else if (r.p(70)) {
      src.d[i].set_bounds(mn + (r.p(60) ? r.in(-3, 4) : 0), mx + (r.p(60) ? r.in(-4, 3) : 0));
    }
    if (src.d[i].stride() == 0) {
      // what the bounds of a broadcast mean is not specified: it covers the destination, or is the canonical broadcast
      if (r.p(50)) src.d[i] = dim::broadcast();
      else src.d[i] = dim(std::min<ll>(mn, 0), std::max<ll>(mx, std::max<ll>(mn, 0)), 0, -1);
    }
    if (i >= rank && !src.d[i].contains(0)) src.d[i].set_bounds(0, 0);
  }
  if (mode == 2) {
    // bounds only
    src.d.resize(rank);
    for (int i = 0; i < rank; ++i)
      if (i >= srank) src.d[i] = dim(dst.d[i].min() + r.in(-2, 3), dst.d[i].max() + r.in(-3, 2), 0, -1);
    for (auto& i : src.d)
      if (i.is_broadcast()) i.set_bounds(1, 1);
    srank = rank;
  }
  src.init(r, elem);
  if (mode == 3) {
    src.d = dst.d;
    src.b = raw(dst.b.base, elem, src.d);
    int n = r.in(1, 3);
    for (int k = 0; k < n && rank > 0; ++k) {
      int c = r.in(0, rank - 1);
      src.b.crop(c, dst.d[c].min() + r.in(-1, 2), dst.d[c].max() + r.in(-2, 1));
    }
    for (auto& i : src.d)
      if (i.is_broadcast()) throw discard();
    srank = rank;
  }
  // the padding: a scalar, or a buffer that contains the destination
  int prank = r.p(60) ? 0 : r.in(0, rank);
  padding.d = gen_dims(r, elem, s, prank);
  for (int i = 0; i < prank; ++i) {
    padding.d[i].set_bounds(dst.d[i].min() - (r.p(20) ? 1 : 0), std::max(dst.d[i].max(), dst.d[i].min()) + (r.p(20) ? 1 : 0));
    if (padding.d[i].stride() == 0 && r.p(50)) padding.d[i] = dim::broadcast();
  }
  padding.init(r, elem);
  std::ostringstream o;
  o << (mode == 0 ? "copy" : mode == 1 ? "copy with padding" : mode == 2 ? "pad" : "padded copy in place") << " dst " << buf_s(dst.b) << " src "
    << buf_s(src.b) << " padding " << buf_s(padding.b);
  describe = o.str();
  std::vector<char> expect = dst.bytes;
  ref_buf rd(dst.b), rs(src.b), rp(padding.b);
  if (mode == 2) rs.base = (char*)1;
  bool any = false, outside = false;
  each(rd.d, 0, [&](const std::vector<ll>& x) {
    std::vector<ll> y = x;
    y.resize(std::max<std::size_t>(y.size(), rs.d.size()), 0);
    bool in;
    if (mode == 2) {
      in = true;
      for (int i = 0; i < rank; ++i) in = in && src.d[i].min() <= x[i] && x[i] <= src.d[i].max();
    } else {
      in = rs.contains(y);
    }
    any |= in;
    outside |= !in;
    ll off = rd.at(x) - dst.bytes.data();
    if (in && mode < 2) memcpy(&expect[off], rs.at(y), elem);
    if (!in && mode > 0) memcpy(&expect[off], rp.at(x), elem);
  });
  if (mode == 0 && outside) throw discard();
  std::vector<char> src_before = src.bytes, pad_before = padding.bytes;
  std::vector<dim> d0 = dst.d, s0 = src.d, p0 = padding.d;
  // A source that is empty where the destination is not needs no memory.
  if (mode == 0) copy(src.b, dst.b);
  if (mode == 1 || mode == 3) copy(src.b, dst.b, padding.b);
  if (mode == 2) pad(src.d.data(), dst.b, padding.b);
  require(src.bytes == src_before, "the source was written");
  require(padding.bytes == pad_before, "the padding was written");
  require(dst.d == d0 && src.d == s0 && padding.d == p0, "a dimension of an argument was changed");
  if (dst.bytes != expect) {
    each(rd.d, 0, [&](const std::vector<ll>& x) {
      ll off = rd.at(x) - dst.bytes.data();
      require(!memcmp(&dst.bytes[off], &expect[off], elem), "the element at ", xs(x), " of the destination is wrong");
    });
    fail("memory that is not of an element of the destination was written");
  }
  // make_copy
  if (mode == 0 && r.p(20)) {
    for (auto& i : dst.d)
      if (i.stride() < 0) return;
    raw_buffer_ptr c = raw_buffer::make_copy(dst.b);
    ref_buf rc(*c);
    each(rd.d, 0, [&](const std::vector<ll>& x) { require(!memcmp(rc.at(x), rd.at(x), elem), "make_copy: the element at ", xs(x), " is wrong"); });
  }
}

// --- iteration ------------------------------------------------------------------------------------------------------------
void case_each(rng& r) {
  shape s;
  s.max_rank = 4;
  ll elem0 = r.p(60) ? 1 : r.in(1, 4);
  int rank = r.in(0, 4);
  if (rank == 4) s.max_extent = 3;
  int n = r.in(1, 6);
  std::vector<std::vector<dim>> d(n);
  std::vector<raw_buffer> b(n);
  d[0] = gen_dims(r, elem0, s, rank);
  for (int k = 0; k < n; ++k) {
    ll elem = k == 0 || r.p(70) ? elem0 : r.in(1, 4);
    if (k > 0) {
      int rk = r.p(65) ? rank : r.in(0, std::min(4, rank + 1));
      d[k] = r.p(40) ? d[0] : gen_dims(r, elem, s, rk);
      d[k].resize(rk);
      for (int i = 0; i < rk; ++i) {
        ll mn = i < rank ? d[0][i].min() : 0, mx = i < rank ? d[0][i].max() : 0;
        if (r.p(50)) d[k][i].set_bounds(mn, mx);
        else if (r.p(60)) d[k][i].set_bounds(mn + r.in(-2, 3), mx + r.in(-3, 2));
      }
    }
    b[k] = raw((char*)(0x100000000ll * (k + 1)), elem, d[k]);
    if (k > 0 && r.p(4)) b[k].base = nullptr;
  }
  bool slices = r.p(50);
  std::ostringstream o;
  o << (slices ? "for_each_contiguous_slice" : "for_each_element");
  for (auto& i : b) o << " " << (i.base ? "" : "null ") << buf_s(i);
  describe = o.str();
  typedef std::vector<const char*> tuple;
  std::vector<tuple> got, want;
  std::vector<ref_buf> rb;
  std::size_t mr = 0;
  for (auto& i : b) rb.push_back(ref_buf(i)), mr = std::max(mr, i.rank);
  std::vector<dim> dom = d[0];
  while (dom.size() < mr) dom.push_back(dim(0, 0, 0, -1));
  each(dom, 0, [&](const std::vector<ll>& x) {
    tuple t;
    for (int k = 0; k < n; ++k) t.push_back(rb[k].at(x));
    want.push_back(t);
  });
  std::string bad;
  auto add = [&](ll extent, auto... p) {
    if (extent < 1) bad = "a slice with extent " + std::to_string(extent);
    if (got.size() > 4 * want.size() + 100) return;
    for (ll i = 0; i < extent && i < 2000; ++i) {
      tuple t{(const char*)p...};
      for (int k = 0; k < (int)t.size(); ++k)
        if (t[k]) t[k] += i * (ll)b[k].elem_size;
      got.push_back(t);
    }
  };
  auto call = [&](auto&... bufs) {
    if (slices) {
      for_each_contiguous_slice(b[0], [&](index_t extent, void* p0, auto... p) { add(extent, p0, p...); }, bufs...);
    } else {
      for_each_element([&](void* p0, auto... p) { add(1, p0, p...); }, b[0], bufs...);
    }
  };
  switch (n) {
  case 1: call(); break;
  case 2: call(b[1]); break;
  case 3: call(b[1], b[2]); break;
  case 4: call(b[1], b[2], b[3]); break;
  case 5: call(b[1], b[2], b[3], b[4]); break;
  case 6: call(b[1], b[2], b[3], b[4], b[5]); break;
  }
  require(bad.empty(), bad);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (std::size_t i = 0; i < std::min(got.size(), want.size()); ++i) {
    if (got[i] != want[i]) {
      std::ostringstream m;
      for (int k = 0; k < n; ++k) m << " " << (ll)got[i][k] << " (expected " << (ll)want[i][k] << ")";
      fail("called for ", got.size(), " elements, expected ", want.size(), "; the first difference:", m.str());
    }
  }
  require(got.size() == want.size(), "called for ", got.size(), " elements, expected ", want.size());
}
}  // namespace rt
