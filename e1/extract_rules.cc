// Mechanical extraction of the rewrite rules in slinky/builder/simplify_rules.h.
//
// The rule tables are C++ templates `apply_*_rules(Fn&& apply)`, where `apply(pattern, replacement, [predicate], ...)` is
// called once per rule. The simplifier passes a rewriter; we pass a visitor that prints the pattern, replacements and
// predicates (i.e. the values the real code passes to the rewriter) as S-expressions, and returns false, so every rule
// in the table is visited. Nothing is dropped: a construct this printer does not know prints as (unknown ...), which
// the obligation generator treats as an unprovable obligation (reported as not covered, never as discharged).
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>

#include "slinky/builder/simplify.h"
#include "slinky/builder/simplify_rules.h"

using namespace slinky;

namespace ex {

template <typename T>
struct tag {};

std::string str(bool b) { return b ? "(bool 1)" : "(bool 0)"; }
std::string str(int x) { return "(int " + std::to_string(x) + ")"; }
std::string str(index_t x) { return "(int " + std::to_string(x) + ")"; }

template <int N>
std::string str(const rewrite::pattern_wildcard<N>&) {
  return "(wild " + std::to_string(N) + ")";
}
template <int N>
std::string str(const rewrite::pattern_constant<N>&) {
  return "(const " + std::to_string(N) + ")";
}

const char* op_name(expr_node_type t) {
  switch (t) {
  case expr_node_type::add: return "add";
  case expr_node_type::sub: return "sub";
  case expr_node_type::mul: return "mul";
  case expr_node_type::div: return "div";
  case expr_node_type::mod: return "mod";
  case expr_node_type::min: return "min";
  case expr_node_type::max: return "max";
  case expr_node_type::less: return "less";
  case expr_node_type::less_equal: return "less_equal";
  case expr_node_type::equal: return "equal";
  case expr_node_type::not_equal: return "not_equal";
  case expr_node_type::logical_and: return "and";
  case expr_node_type::logical_or: return "or";
  case expr_node_type::logical_not: return "not";
  default: return "unknown";
  }
}

const char* fn_name(intrinsic fn) {
  switch (fn) {
  case intrinsic::abs: return "abs";
  case intrinsic::and_then: return "and_then";
  case intrinsic::or_else: return "or_else";
  case intrinsic::positive_infinity: return "pinf";
  case intrinsic::negative_infinity: return "ninf";
  case intrinsic::indeterminate: return "indet";
  default: return "unknown";
  }
}

// Forward declarations, so that nested patterns resolve (two-phase lookup finds these at definition).
template <typename A, index_t D>
std::string str(const rewrite::pattern_optional<A, D>& p);
template <typename T, typename A, typename B>
std::string str(const rewrite::pattern_binary<T, A, B>& p);
template <typename T, typename A>
std::string str(const rewrite::pattern_unary<T, A>& p);
template <typename C, typename T, typename F>
std::string str(const rewrite::pattern_select<C, T, F>& p);
template <typename... Args>
std::string str(const rewrite::pattern_call<Args...>& p);
template <typename X, typename A, typename B, typename C>
std::string str(const rewrite::pattern_staircase<X, A, B, C>& p);
template <typename T, typename Fn>
std::string str(const rewrite::replacement_predicate<T, Fn>& p);
template <typename T>
std::string str(const rewrite::replacement_eval<T>& p);
template <typename T>
std::string str(const rewrite::replacement_boolean<T>& p);
template <typename A1, typename B1, typename C1, typename A2, typename B2, typename C2>
std::string str(const rewrite::replacement_staircase_sum_bound<A1, B1, C1, A2, B2, C2>& p);
template <typename T>
std::string str_unknown(const T&) {
  return std::string("(unknown \"") + __PRETTY_FUNCTION__ + "\")";
}

template <typename T, typename = void>
struct known : std::false_type {};
template <typename T>
struct known<T, std::void_t<decltype(str(std::declval<const T&>()))>> : std::true_type {};

template <typename T>
std::string s(const T& x) {
  return str(x);
}

template <typename A, index_t D>
std::string str(const rewrite::pattern_optional<A, D>& p) {
  return "(opt " + std::to_string(D) + " " + s(p.a) + ")";
}
template <typename T, typename A, typename B>
std::string str(const rewrite::pattern_binary<T, A, B>& p) {
  return std::string("(") + op_name(T::static_type) + " " + s(p.a) + " " + s(p.b) + ")";
}
template <typename T, typename A>
std::string str(const rewrite::pattern_unary<T, A>& p) {
  return std::string("(") + op_name(T::static_type) + " " + s(p.a) + ")";
}
template <typename C, typename T, typename F>
std::string str(const rewrite::pattern_select<C, T, F>& p) {
  return "(select " + s(p.c) + " " + s(p.t) + " " + s(p.f) + ")";
}
template <typename... Args>
std::string str(const rewrite::pattern_call<Args...>& p) {
  std::string r = std::string("(") + fn_name(p.fn);
  std::apply([&](const auto&... a) { ((r += " " + s(a)), ...); }, p.args);
  return r + ")";
}
template <typename X, typename A, typename B, typename C>
std::string str(const rewrite::pattern_staircase<X, A, B, C>& p) {
  return "(staircase " + s(p.x) + " " + s(p.a) + " " + s(p.b) + " " + s(p.c) + ")";
}
template <typename T, typename Fn>
std::string str(const rewrite::replacement_predicate<T, Fn>& p) {
  std::string name = "other";
  if constexpr (std::is_pointer_v<Fn>) {
    void* f = reinterpret_cast<void*>(p.fn);
    using ptr = bool (*)(expr_ref);
    if (f == reinterpret_cast<void*>(static_cast<ptr>(slinky::is_finite))) name = "is_finite";
    if (f == reinterpret_cast<void*>(static_cast<ptr>(slinky::is_zero))) name = "is_zero";
    if (f == reinterpret_cast<void*>(static_cast<ptr>(slinky::is_non_negative))) name = "is_non_negative";
    if (f == reinterpret_cast<void*>(static_cast<ptr>(slinky::is_non_positive))) name = "is_non_positive";
    if (f == reinterpret_cast<void*>(static_cast<ptr>(slinky::is_positive))) name = "is_positive";
    if (f == reinterpret_cast<void*>(static_cast<ptr>(slinky::is_negative))) name = "is_negative";
    if (f == reinterpret_cast<void*>(static_cast<ptr>(slinky::is_boolean))) name = "is_boolean";
  }
  return "(pred " + name + " " + s(p.a) + ")";
}
template <typename T>
std::string str(const rewrite::replacement_eval<T>& p) {
  return "(eval " + s(p.a) + ")";
}
template <typename T>
std::string str(const rewrite::replacement_boolean<T>& p) {
  return "(boolean " + s(p.a) + ")";
}
template <typename A1, typename B1, typename C1, typename A2, typename B2, typename C2>
std::string str(const rewrite::replacement_staircase_sum_bound<A1, B1, C1, A2, B2, C2>& p) {
  return "(scsb " + std::to_string(p.bound_sign) + " " + s(p.a1) + " " + s(p.b1) + " " + s(p.c1) + " " + s(p.a2) + " " +
         s(p.b2) + " " + s(p.c2) + ")";
}

struct printer {
  const char* table;
  int n = 0;

  template <typename Pattern, typename... R>
  bool operator()(const Pattern& p, const R&... r) {
    std::cout << "(rule " << table << " " << n++ << " " << s(p);
    ((std::cout << " " << s(r)), ...);
    std::cout << ")\n";
    return false;
  }
};

}  // namespace ex

int main() {
  apply_min_rules(ex::printer{"min"});
  apply_max_rules(ex::printer{"max"});
  apply_add_rules(ex::printer{"add"});
  apply_sub_rules(ex::printer{"sub"});
  apply_mul_rules(ex::printer{"mul"});
  apply_div_rules(ex::printer{"div"});
  apply_mod_rules(ex::printer{"mod"});
  apply_less_rules(ex::printer{"less"});
  apply_equal_rules(ex::printer{"equal"});
  apply_logical_and_rules(ex::printer{"and"});
  apply_logical_or_rules(ex::printer{"or"});
  apply_logical_not_rules(ex::printer{"not"});
  apply_select_rules(ex::printer{"select"});
  apply_call_rules(ex::printer{"call"});
  return 0;
}
