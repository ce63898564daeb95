// Replays and searches counterexamples of the contracts of slinky/base (C04, C05, C06) on the real code, against oracles in
// 128-bit arithmetic. Usage: arith one SYM v...   |   arith search SYM SEED N   (exit 0: held, 1: violated, 3: outside the contract)
#include "probes/arith.cc"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>

typedef __int128 I;
typedef long long ll;
using V = std::vector<std::int64_t>;

static I o_div(I a, I b) {  // Euclidean, b != 0
  I q = a / b, r = a % b;
  if (r < 0) q += b > 0 ? -1 : 1;
  return q;
}
static I o_mod(I a, I b) { return a - b * o_div(a, b); }
static I absv(I a) { return a < 0 ? -a : a; }
static bool fits(I x, int w) { return w == 64 ? x >= INT64_MIN && x <= INT64_MAX : x >= INT32_MIN && x <= INT32_MAX; }

// -1: outside of the contract, 0: violated, 1: held
struct entry {
  int arity, width;
  std::function<int(const V&)> f;
};
static std::map<std::string, entry> E;

#define R(C) return (C) ? 1 : 0

template <typename T>
static void add_width(const char* s, int w, T (*ediv)(T, T, T), T (*emd)(T, T, T), T (*edp)(T, T), T (*emp)(T, T), T (*fd)(T, T), T (*rd)(T, T),
    T (*cd)(T, T), T (*au)(T, T), T (*ad)(T, T), T (*as)(T, T), T (*ss)(T, T), T (*ms)(T, T), T (*ds)(T, T), bool (*ao)(T, T), bool (*so)(T, T),
    bool (*mo)(T, T), bool (*aw)(T, T, T*), bool (*sw)(T, T, T*), bool (*mw)(T, T, T*), int (*sg)(T), T (*gc)(T, T), T (*lc)(T, T)) {
  I lo = w == 64 ? I(INT64_MIN) : I(INT32_MIN), hi = w == 64 ? I(INT64_MAX) : I(INT32_MAX);
  auto nm = [=](const char* n) { return std::string("p_") + n + "_" + s; };
  auto bad = [=](const V& v) { return v[0] == lo && v[1] == -1; };
  E[nm("euclidean_div")] = {3, w, [=](const V& v) { if (bad(v)) return -1; I r = ediv(v[0], v[1], v[2]); if (!v[1]) R(r == v[2]); R(r == o_div(v[0], v[1])); }};
  E[nm("euclidean_mod")] = {3, w, [=](const V& v) { I r = emd(v[0], v[1], v[2]); if (!v[1]) R(r == v[2]); R(r == o_mod(v[0], v[1])); }};
  E[nm("euclidean_div_pos")] = {2, w, [=](const V& v) { if (v[1] <= 0) return -1; R(I(edp(v[0], v[1])) == o_div(v[0], v[1])); }};
  E[nm("euclidean_mod_pos")] = {2, w, [=](const V& v) { if (v[1] <= 0) return -1; R(I(emp(v[0], v[1])) == o_mod(v[0], v[1])); }};
  E[nm("floor_div")] = {2, w, [=](const V& v) { if (bad(v)) return -1; I r = fd(v[0], v[1]); R(r == (v[1] ? o_div(v[0], v[1]) : 0)); }};
  E[nm("round_div")] = {2, w, [=](const V& v) { if (v[1] <= 0 || I(v[0]) + v[1] / 2 > hi) return -1; I d = I(v[0]) - I(v[1]) * rd(v[0], v[1]); R(2 * absv(d) <= v[1]); }};
  E[nm("ceil_div")] = {2, w, [=](const V& v) { if (v[1] <= 0 || I(v[0]) + v[1] > hi) return -1; I d = I(v[1]) * cd(v[0], v[1]) - v[0]; R(d >= 0 && d < v[1]); }};
  E[nm("align_up")] = {2, w, [=](const V& v) { if (v[1] <= 0 || I(v[0]) + v[1] > hi) return -1; I r = au(v[0], v[1]); R(r >= v[0] && r - v[0] < v[1] && o_mod(r, v[1]) == 0); }};
  E[nm("align_down")] = {2, w, [=](const V& v) { if (v[1] <= 0 || v[0] - lo < v[1]) return -1; I r = ad(v[0], v[1]); R(r <= v[0] && v[0] - r < v[1] && o_mod(r, v[1]) == 0); }};
  auto three = [=](const char* n, auto sat, auto ov, auto wo, auto ex) {
    E[nm((std::string(n) + "_sat").c_str())] = {2, w, [=](const V& v) { I x = ex(v[0], v[1]); R(I(sat(v[0], v[1])) == (x > hi ? hi : x < lo ? lo : x)); }};
    E[nm((std::string(n) + "_overflows").c_str())] = {2, w, [=](const V& v) { R(ov(v[0], v[1]) == !fits(ex(v[0], v[1]), w)); }};
    E[nm((std::string(n) + "_with_overflow").c_str())] = {2, w, [=](const V& v) { T r = 77; bool o = wo(v[0], v[1], &r); I x = ex(v[0], v[1]); R(o == !fits(x, w) && I(r) == (o ? I(0) : x)); }};
  };
  three("add", as, ao, aw, [](I a, I b) { return a + b; });
  three("sub", ss, so, sw, [](I a, I b) { return a - b; });
  three("mul", ms, mo, mw, [](I a, I b) { return a * b; });
  E[nm("div_sat")] = {2, w, [=](const V& v) { I r = ds(v[0], v[1]); R(r == (v[1] == 0 ? I(0) : bad(v) ? hi : o_div(v[0], v[1]))); }};
  E[nm("sign")] = {1, w, [=](const V& v) { R(sg(v[0]) == (v[0] > 0) - (v[0] < 0)); }};
  E[nm("gcd")] = {2, w, [=](const V& v) {
    I g = gc(v[0], v[1]), a = absv(v[0]), b = absv(v[1]);
    while (b) { I t = a % b; a = b; b = t; }
    R(absv(g) == a && (v[0] < 0 || v[1] < 0 || g >= 0)); }};
  E[nm("lcm")] = {2, w, [=](const V& v) { if (v[0] <= 0 || v[1] <= 0 || I(v[0]) * v[1] > hi) return -1; I r = lc(v[0], v[1]); R(r > 0 && r % v[0] == 0 && r % v[1] == 0); }};
}

static bool in(I v, I m, I r) { return m == 0 ? v == r : (v - r) % m == 0; }

static void add_mr(const char* n, void (*f)(mr*, const mr*, const mr*), int op) {
  // am ar bm br y1 y2
  E[std::string("p_mr_") + n] = {6, 64, [=](const V& v) {
    I x = I(v[0]) * v[4] + v[1], z = I(v[2]) * v[5] + v[3];
    if (!fits(x, 64) || !fits(z, 64)) return -1;
    if (op == 6 && (x != z || v[0] == INT64_MIN || v[2] == INT64_MIN)) return -1;
    I r = op == 0 ? x + z : op == 1 ? x - z : op == 2 ? x * z : op == 3 ? (z ? o_div(x, z) : 0) : op == 4 ? (z ? o_mod(x, z) : 0) : x;
    if (!fits(r, 64)) return -1;
    mr a(v[0], v[1]), b(v[2], v[3]), c;
    f(&c, &a, &b);
    R(in(r, c.modulus, c.remainder) && (op != 5 || in(z, c.modulus, c.remainder))); }};
}

static void add_all() {
#define X(w) add_width(#w, w, p_euclidean_div_##w, p_euclidean_mod_##w, p_euclidean_div_pos_##w, p_euclidean_mod_pos_##w, p_floor_div_##w, \
    p_round_div_##w, p_ceil_div_##w, p_align_up_##w, p_align_down_##w, p_add_sat_##w, p_sub_sat_##w, p_mul_sat_##w, p_div_sat_##w, p_add_overflows_##w, \
    p_sub_overflows_##w, p_mul_overflows_##w, p_add_with_overflow_##w, p_sub_with_overflow_##w, p_mul_with_overflow_##w, p_sign_##w, p_gcd_##w, p_lcm_##w);
  X(64) X(32)
#define O(N, OV, VAL) \
  E["p_overflows_" #N] = {2, 64, [](const V& v) { I a = v[0], b = v[1]; (void)a; (void)b; R(p_overflows_##N(v[0], v[1]) == (OV)); }}; \
  E["p_make_" #N] = {2, 64, [](const V& v) { I a = v[0], b = v[1]; if (OV) return -1; R(I(p_make_##N(v[0], v[1])) == I(VAL)); }};
  O(add, !fits(a + b, 64), a + b)
  O(sub, !fits(a - b, 64), a - b)
  O(mul, !fits(a * b, 64), a * b)
  O(div, a == INT64_MIN && b == -1, b ? o_div(a, b) : 0)
  O(mod, false, b ? o_mod(a, b) : 0)
  O(min, false, a < b ? a : b)
  O(max, false, a < b ? b : a)
  O(equal, false, a == b)
  O(not_equal, false, a != b)
  O(less, false, a < b)
  O(less_equal, false, a <= b)
  O(logical_and, false, a && b)
  O(logical_or, false, a || b)
  add_mr("add", p_mr_add, 0);
  add_mr("sub", p_mr_sub, 1);
  add_mr("mul", p_mr_mul, 2);
  add_mr("div", p_mr_div, 3);
  add_mr("mod", p_mr_mod, 4);
  add_mr("or", p_mr_or, 5);
  add_mr("and", p_mr_and, 6);
  E["p_staircase_sum_bounds"] = {7, 64, [](const V& v) {
    std::int64_t o[4];
    p_staircase_sum_bounds(v[0], v[1], v[2], v[3], v[4], v[5], o);
    I f = (v[1] ? o_div(I(v[6]) + v[0], v[1]) : 0) * v[2] + (v[4] ? o_div(I(v[6]) + v[3], v[4]) : 0) * v[5];
    R((!o[0] || o[1] <= f) && (!o[2] || f <= o[3])); }};
}

static std::mt19937_64 rng;
static std::int64_t pick(int w) {
  std::int64_t lo = w == 64 ? INT64_MIN : INT32_MIN, hi = w == 64 ? INT64_MAX : INT32_MAX;
  switch (rng() % 8) {
  case 0: return lo + (std::int64_t)(rng() % 4);
  case 1: return hi - (std::int64_t)(rng() % 4);
  case 2: { int s = rng() % (w - 1); std::int64_t d = (std::int64_t)(rng() % 5) - 2; std::int64_t x = ((std::int64_t)1 << s) + d; return rng() % 2 ? x : -x; }
  case 3: { std::int64_t x = rng(); return w == 64 ? x : (std::int32_t)x; }
  case 4: return (std::int64_t)(rng() % 2001) - 1000;
  default: return (std::int64_t)(rng() % 33) - 16;
  }
}

static std::string current;
static V cur;
static void show(const char* what) {
  std::printf("%s case: %s", what, current.c_str());
  for (auto i : cur) std::printf(" %lld", (ll)i);
  std::printf("\n");
  std::fflush(stdout);
}
static void on_signal(int s) {
  char b[64];
  int n = std::snprintf(b, sizeof b, "signal %d (overflow or trap)\n", s);
  if (write(1, b, n)) {}
  show("CRASH");
  _exit(1);
}

int main(int argc, char** argv) {
  for (int s : {SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGSEGV}) std::signal(s, on_signal);
  add_all();
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "list") {
    for (auto& e : E) std::printf("%s\n", e.first.c_str());
    return 0;
  }
  if (argc < 3 || !E.count(argv[2])) return 2;
  entry& e = E[argv[2]];
  current = argv[2];
  if (mode == "one") {
    for (int i = 3; i < argc; ++i) cur.push_back(std::strtoll(argv[i], nullptr, 10));
    if ((int)cur.size() != e.arity) return 2;
    int r = e.f(cur);
    if (r == 0) show("FAIL");
    std::printf("%s\n", r == 0 ? "violated" : r > 0 ? "held" : "outside the contract");
    return r == 0 ? 1 : r > 0 ? 0 : 3;
  }
  rng.seed(std::strtoull(argv[3], nullptr, 10));
  long n = std::atol(argv[4]), in_contract = 0;
  bool m = current.rfind("p_mr_", 0) == 0, stair = current == "p_staircase_sum_bounds";
  for (long i = 0; i < n; ++i) {
    cur.clear();
    bool small = rng() % 4 != 0;
    for (int k = 0; k < e.arity; ++k) cur.push_back(m && small ? (std::int64_t)(rng() % 41) - 20 : pick(e.width));
    if (m && current == "p_mr_and") {
      // A value in both classes.
      if (rng() % 2) cur[1] = cur[3] = 0;
      std::int64_t a = cur[0], b = cur[2];
      if (small && rng() % 2) { cur[4] = b * (std::int64_t)(rng() % 5 - 2); cur[5] = a * (std::int64_t)(rng() % 5 - 2); }
      if (small) { I x = I(cur[0]) * cur[4] + cur[1]; I y = x - I(cur[2]) * cur[5]; if (fits(y, 64) && rng() % 2) cur[3] = (std::int64_t)y; }
    }
    if (m && rng() % 8 == 0) cur[0] = 0;
    if (m && rng() % 8 == 0) cur[2] = 0;
    if (m && rng() % 8 == 0) cur[1] = 0;
    if (m && rng() % 8 == 0) cur[3] = 0;
    if (stair) {
      // A sum whose slopes cancel: c1 / b1 == -c2 / b2.
      auto r = [&](int k) { return (std::int64_t)(rng() % (2 * k + 1)) - k; };
      std::int64_t s = rng() % 64 == 0 ? 1100 : rng() % 4 == 0 ? 200 : 12, b1 = r(s), b2 = r(s), k = r(4);
      cur = {r(40), b1, b1 * k, r(40), b2, -b2 * k, r(3000)};
      if (rng() % 3 == 0 && b1 && b2) { std::int64_t g = slinky::gcd<std::int64_t>(b1 < 0 ? -b1 : b1, b2 < 0 ? -b2 : b2); cur[2] = b1 / g * k; cur[5] = -b2 / g * k; }
      if (rng() % 16 == 0) cur[rng() % 6] = r(3);
      if (rng() % 16 == 0) cur[rng() % 2 * 3] = pick(64);
      if (I(cur[6]) + cur[0] > INT64_MAX || I(cur[6]) + cur[3] > INT64_MAX) continue;
      // One call covers a window of x.
      std::int64_t o[4];
      p_staircase_sum_bounds(cur[0], cur[1], cur[2], cur[3], cur[4], cur[5], o);
      if (!o[0] && !o[2]) { ++in_contract; continue; }
      std::int64_t x0 = cur[6];
      for (std::int64_t x = x0; x < x0 + 2000; ++x) {
        cur[6] = x;
        I f = (cur[1] ? o_div(I(x) + cur[0], cur[1]) : 0) * cur[2] + (cur[4] ? o_div(I(x) + cur[3], cur[4]) : 0) * cur[5];
        if ((o[0] && o[1] > f) || (o[2] && f > o[3])) { show("FAIL"); return 1; }
      }
      ++in_contract;
      continue;
    }
    int r = e.f(cur);
    if (r >= 0) ++in_contract;
    if (r == 0) {
      show("FAIL");
      return 1;
    }
  }
  std::printf("STATS cases %ld in-contract %ld\n", n, in_contract);
  return 0;
}
