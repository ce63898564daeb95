// Instantiates the arithmetic of slinky/base for 64- and 32-bit integers. The wrappers only name the instances: the verified
// text is the code of /repo that they instantiate. Also included by drivers/arith.cc, which replays counterexamples.
#include "slinky/base/arithmetic.h"
#include "slinky/base/modulus_remainder.h"
#include "slinky/runtime/expr.h"

#include <cstdint>

#define W(T, S) \
  extern "C" T p_euclidean_div_##S(T a, T b, T z) { return slinky::euclidean_div<T>(a, b, z); } \
  extern "C" T p_euclidean_mod_##S(T a, T b, T z) { return slinky::euclidean_mod<T>(a, b, z); } \
  extern "C" T p_euclidean_div_pos_##S(T a, T b) { return slinky::euclidean_div_positive_divisor<T>(a, b); } \
  extern "C" T p_euclidean_mod_pos_##S(T a, T b) { return slinky::euclidean_mod_positive_modulus<T>(a, b); } \
  extern "C" T p_floor_div_##S(T a, T b) { return slinky::floor_div<T>(a, b); } \
  extern "C" T p_round_div_##S(T a, T b) { return slinky::round_div<T>(a, b); } \
  extern "C" T p_ceil_div_##S(T a, T b) { return slinky::ceil_div<T>(a, b); } \
  extern "C" T p_align_up_##S(T a, T b) { return slinky::align_up<T>(a, b); } \
  extern "C" T p_align_down_##S(T a, T b) { return slinky::align_down<T>(a, b); } \
  extern "C" T p_add_sat_##S(T a, T b) { return slinky::add_sat<T>(a, b); } \
  extern "C" T p_sub_sat_##S(T a, T b) { return slinky::sub_sat<T>(a, b); } \
  extern "C" T p_mul_sat_##S(T a, T b) { return slinky::mul_sat<T>(a, b); } \
  extern "C" T p_div_sat_##S(T a, T b) { return slinky::div_sat<T>(a, b); } \
  extern "C" bool p_add_overflows_##S(T a, T b) { return slinky::add_overflows<T>(a, b); } \
  extern "C" bool p_sub_overflows_##S(T a, T b) { return slinky::sub_overflows<T>(a, b); } \
  extern "C" bool p_mul_overflows_##S(T a, T b) { return slinky::mul_overflows<T>(a, b); } \
  extern "C" bool p_add_with_overflow_##S(T a, T b, T* r) { return slinky::add_with_overflow<T>(a, b, *r); } \
  extern "C" bool p_sub_with_overflow_##S(T a, T b, T* r) { return slinky::sub_with_overflow<T>(a, b, *r); } \
  extern "C" bool p_mul_with_overflow_##S(T a, T b, T* r) { return slinky::mul_with_overflow<T>(a, b, *r); } \
  extern "C" int p_sign_##S(T a) { return slinky::sign<T>(a); } \
  extern "C" T p_gcd_##S(T a, T b) { return slinky::gcd<T>(a, b); } \
  extern "C" T p_lcm_##S(T a, T b) { return slinky::lcm<T>(a, b); } \
  extern "C" T p_staircase_##S(T x, T a, T b, T c) { return slinky::staircase<T>(x, a, b, c); }

W(std::int64_t, 64)
W(std::int32_t, 32)

#define B(N) \
  extern "C" bool p_overflows_##N(slinky::index_t a, slinky::index_t b) { return slinky::binary_overflows<class slinky::N>(a, b); } \
  extern "C" slinky::index_t p_make_##N(slinky::index_t a, slinky::index_t b) { return slinky::make_binary<class slinky::N>(a, b); }
B(add)
B(sub)
B(mul)
B(div)
B(mod)
B(min)
B(max)
B(equal)
B(not_equal)
B(less)
B(less_equal)
B(logical_and)
B(logical_or)

using mr = slinky::modulus_remainder<slinky::index_t>;
extern "C" void p_mr_add(mr* r, const mr* a, const mr* b) { *r = *a + *b; }
extern "C" void p_mr_sub(mr* r, const mr* a, const mr* b) { *r = *a - *b; }
extern "C" void p_mr_mul(mr* r, const mr* a, const mr* b) { *r = *a * *b; }
extern "C" void p_mr_div(mr* r, const mr* a, const mr* b) { *r = *a / *b; }
extern "C" void p_mr_mod(mr* r, const mr* a, const mr* b) { *r = *a % *b; }
extern "C" void p_mr_or(mr* r, const mr* a, const mr* b) { *r = *a | *b; }
extern "C" void p_mr_and(mr* r, const mr* a, const mr* b) { *r = *a & *b; }

extern "C" void p_staircase_sum_bounds(std::int64_t a1, std::int64_t b1, std::int64_t c1, std::int64_t a2, std::int64_t b2, std::int64_t c2,
    std::int64_t* out) {
  slinky::interval<int> r = slinky::staircase_sum_bounds(a1, b1, c1, a2, b2, c2);
  out[0] = r.min ? 1 : 0;
  out[1] = r.min ? *r.min : 0;
  out[2] = r.max ? 1 : 0;
  out[3] = r.max ? *r.max : 0;
}
