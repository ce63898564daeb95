From 0d10d2f6b7f537f10971b593300b0bdf830b600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 01/33] fix: Bounds of an integer operand of a logical operator
 are not bounds of its truth value

evaluate_constant_{lower,upper}_bound(max(x, -5) && true) was 1, but x = 0 gives 0. This also made
simplify(max(x, 1) && !max(y, -1)) equal to 0, but y = 0 gives 1.
---
 slinky/builder/simplify.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b906da2..2c99c57 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2664,10 +2664,26 @@ public:
   void visit(const less* op) override { visit_less(op); }
   void visit(const less_equal* op) override { visit_less(op); }
 
+  // Find a bound of `x` interpreted as a boolean (i.e. of x != 0), or the value if `sign` is 0. A bound of an integer is
+  // only a bound of its truth value if the integer is not negative.
+  expr mutate_boolean(const expr& x, int sign) {
+    expr result = mutate(x, sign);
+    if (sign == 0 || is_boolean(x) || !result.defined()) return strip_boolean(std::move(result));
+    auto c = as_constant(result);
+    if (!c) return x;
+    auto min = sign < 0 ? c : as_constant(mutate(x, -1));
+    if (min && *min >= 0) {
+      return result;
+    } else {
+      // We don't know anything, the result is either 0 or 1.
+      return expr(sign < 0 ? 0 : 1);
+    }
+  }
+
   template <typename T>
   void visit_logical_and_or(const T* op, int new_sign) {
-    expr a = strip_boolean(mutate(op->a, new_sign));
-    expr b = strip_boolean(mutate(op->b, new_sign));
+    expr a = mutate_boolean(op->a, new_sign);
+    expr b = mutate_boolean(op->b, new_sign);
 
     if (as_constant(b)) std::swap(a, b);
 
@@ -2697,7 +2713,7 @@ public:
   void visit(const logical_or* op) override { visit_logical_and_or(op, std::max(sign, 0)); }
 
   void visit(const logical_not* op) override {
-    expr a = strip_boolean(mutate(op->a, -sign));
+    expr a = mutate_boolean(op->a, -sign);
     if (auto ca = as_constant(a)) {
       set_result(*ca != 0 ? 0 : 1);
     } else if (sign != 0) {
@@ -2750,8 +2766,8 @@ public:
       // - We're constant folding.
       const bool is_and = op->intrinsic == intrinsic::and_then;
       const int new_sign = is_and ? std::min(sign, 0) : std::max(sign, 0);
-      expr a = strip_boolean(mutate(op->args[0], new_sign));
-      expr b = strip_boolean(mutate(op->args[1], new_sign));
+      expr a = mutate_boolean(op->args[0], new_sign);
+      expr b = mutate_boolean(op->args[1], new_sign);
 
       if (auto ca = as_constant(a)) {
         if (*ca) {
-- 
2.43.0


From 397af43560d5304bd95c33414d6e41acd1b25991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 02/33] fix: The value of a let may not be replaced by its
 bound when bounding the body

---
 slinky/builder/simplify.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 2c99c57..24bfecb 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2531,6 +2531,18 @@ public:
 
   void visit(const variable* op) override { set_result(constant_required ? expr() : expr(op)); }
 
+  void visit(const let* op) override {
+    // The values of the lets must not be replaced with bounds, the body may not be increasing in them.
+    expr body = mutate(op->body);
+    if (!body.defined() || as_constant(body)) {
+      set_result(std::move(body));
+    } else if (body.same_as(op->body)) {
+      set_result(op);
+    } else {
+      set_result(let::make(op->lets, std::move(body)));
+    }
+  }
+
   template <typename T>
   void visit_min_max(const T* op, bool take_constant) {
     expr a = mutate(op->a);
-- 
2.43.0


From ef958d291be0374baaf79c31605c79c7f361c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 03/33] fix: Don't try the next replacement of a rule if
 evaluating the predicate or replacement overflowed

---
 slinky/builder/rewrite.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/rewrite.h b/slinky/builder/rewrite.h
index c5c9c73..f3fa6ee 100644
--- a/slinky/builder/rewrite.h
+++ b/slinky/builder/rewrite.h
@@ -873,9 +873,12 @@ class base_rewriter {
     static_assert(!pattern_info<Pattern>::is_boolean || pattern_info<Replacement>::is_boolean);
 
     bool overflowed = false;
-    if (substitute(pr, ctx, overflowed) && !overflowed) {
+    bool pr_true = substitute(pr, ctx, overflowed);
+    // The remaining replacements assume the predicates before them are false, which we don't know if it overflowed.
+    if (overflowed) return false;
+    if (pr_true) {
       result = substitute(r, ctx, overflowed);
-      if (!overflowed) return true;
+      return !overflowed;
     }
     // Try the next replacement
     return find_replacement<Pattern>(ctx, r_pr...);
-- 
2.43.0


From b192535c43268b1949c6bce17c35cd7b8ffcaaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 04/33] fix: Staircase sum bounds that overflow or don't exist
 are not usable as constants

---
 slinky/base/arithmetic.cc         | 26 ++++++++++++++++++--------
 slinky/base/arithmetic.h          |  4 +++-
 slinky/builder/rewrite.h          | 10 ++++++----
 slinky/builder/simplify_bounds.cc |  2 +-
 4 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/slinky/base/arithmetic.cc b/slinky/base/arithmetic.cc
index b4063d0..646ef00 100644
--- a/slinky/base/arithmetic.cc
+++ b/slinky/base/arithmetic.cc
@@ -1,11 +1,20 @@
 #include <algorithm>
+#include <cstdint>
+#include <cstdlib>
 #include <limits>
 
 #include "slinky/base/arithmetic.h"
 
 namespace slinky {
 
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2) {
+interval<int> staircase_sum_bounds(
+    std::int64_t a1, std::int64_t b1, std::int64_t c1, std::int64_t a2, std::int64_t b2, std::int64_t c2) {
+  constexpr std::int64_t int_min = std::numeric_limits<int>::min();
+  constexpr std::int64_t int_max = std::numeric_limits<int>::max();
+  for (std::int64_t i : {a1, b1, c1, a2, b2, c2}) {
+    // The arithmetic below can't overflow if all of the parameters are in the range of an int.
+    if (i < int_min || i > int_max) return {};
+  }
   if (b1 == 0 && b2 == 0) {
     return {0, 0};
   } else if (c1 * b2 != -c2 * b1) {
@@ -17,18 +26,19 @@ interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c
   // The ratios of the two sides are equal. The value of this expression is a periodic pattern.
   // We need to search the period for the min and max.
   // If these constants get so big, we need to revisit this algorithm.
-  if (abs(b1) > 1024 || abs(b2) > 1024) {
+  if (std::abs(b1) > 1024 || std::abs(b2) > 1024) {
     return {};
   }
-  int min = std::numeric_limits<int>::max();
-  int max = std::numeric_limits<int>::min();
-  const int period = lcm(abs(b1), abs(b2));
-  for (int x = 0; x < period; ++x) {
-    const int y = euclidean_div(x + a1, b1) * c1 + euclidean_div(x + a2, b2) * c2;
+  std::int64_t min = std::numeric_limits<std::int64_t>::max();
+  std::int64_t max = std::numeric_limits<std::int64_t>::min();
+  const std::int64_t period = lcm(std::abs(b1), std::abs(b2));
+  for (std::int64_t x = 0; x < period; ++x) {
+    const std::int64_t y = euclidean_div(x + a1, b1) * c1 + euclidean_div(x + a2, b2) * c2;
     min = std::min(min, y);
     max = std::max(max, y);
   }
-  return {min, max};
+  if (min < int_min || max > int_max) return {};
+  return {static_cast<int>(min), static_cast<int>(max)};
 }
 
 }  // namespace slinky
diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index fe9ac1b..7592fc4 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <limits>
 #include <optional>
 #include <utility>
@@ -237,7 +238,8 @@ struct interval {
 
 // Returns the [min, max] interval over all x of ((x + a1)/b1)*c1 + ((x + a2)/b2)*c2
 // Returns std::nullopt if unbounded.
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2);
+interval<int> staircase_sum_bounds(
+    std::int64_t a1, std::int64_t b1, std::int64_t c1, std::int64_t a2, std::int64_t b2, std::int64_t c2);
 
 }  // namespace slinky
 
diff --git a/slinky/builder/rewrite.h b/slinky/builder/rewrite.h
index f3fa6ee..3fb384e 100644
--- a/slinky/builder/rewrite.h
+++ b/slinky/builder/rewrite.h
@@ -677,11 +677,13 @@ SLINKY_UNIQUE index_t substitute(
   index_t b2 = substitute(r.b2, ctx, overflowed);
   index_t c2 = substitute(r.c2, ctx, overflowed);
   interval<int> bounds = staircase_sum_bounds(a1, b1, c1, a2, b2, c2);
-  if (r.bound_sign < 0) {
-    return bounds.min ? *bounds.min : std::numeric_limits<index_t>::min();
-  } else {
-    return bounds.max ? *bounds.max : std::numeric_limits<index_t>::max();
+  const std::optional<int>& bound = r.bound_sign < 0 ? bounds.min : bounds.max;
+  if (!bound) {
+    // There is no representable bound, the result is not usable in arithmetic.
+    overflowed = true;
+    return 0;
   }
+  return *bound;
 }
 
 template <typename A1, typename B1, typename C1, typename A2, typename B2, typename C2>
diff --git a/slinky/builder/simplify_bounds.cc b/slinky/builder/simplify_bounds.cc
index 8b3ae2b..908085f 100644
--- a/slinky/builder/simplify_bounds.cc
+++ b/slinky/builder/simplify_bounds.cc
@@ -72,7 +72,7 @@ void tighten_correlated_bounds_stairs(interval_expr& bounds, const expr& a, cons
   index_t lc = lhs.matched(c2);
   index_t ra = rhs.matched(c0);
   index_t rb = rhs.matched(c1);
-  index_t rc = rhs.matched(c2) * sign_b;
+  index_t rc = mul_sat<index_t>(rhs.matched(c2), sign_b);
 
   interval<int> sb = staircase_sum_bounds(la, lb, lc, ra, rb, rc);
   if (sb.min) bounds.min = simplify(static_cast<const class max*>(nullptr), bounds.min, *sb.min);
-- 
2.43.0


From 7e6405d6046494f3bc9fa16759323eb653f3db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 05/33] fix: A condition that is true is not necessarily equal
 to 1

---
 slinky/builder/simplify.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 24bfecb..6a1e826 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -672,9 +672,9 @@ public:
         learn_from_less_equal(lt->a, lt->b);
       } else if (const equal* eq = c.as<equal>()) {
         learn_from_equal(eq->a, eq->b);
-      } else if (!as_constant(c) && !as_variable(c)) {
-        // We couldn't learn anything, just add the whole expression as a fact, if it isn't a constant or variable,
-        // which could rewrite the value from any x not zero to 1.
+      } else if (!as_constant(c) && is_boolean(c)) {
+        // We couldn't learn anything, just add the whole expression as a fact, if it is a boolean. If it isn't, this
+        // could rewrite the value from any x not zero to 1.
         facts.push_back({c, expr(true)});
       }
     }
-- 
2.43.0


From 9cdc5a615f4cf213900281f9044bdaeaba7aeb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 06/33] fix: Intersecting a box with a box of lower rank reads
 past the end of the latter

---
 slinky/runtime/expr_stmt.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slinky/runtime/expr_stmt.cc b/slinky/runtime/expr_stmt.cc
index 21b2440..08193e8 100644
--- a/slinky/runtime/expr_stmt.cc
+++ b/slinky/runtime/expr_stmt.cc
@@ -409,9 +409,6 @@ box_expr operator&(box_expr a, const box_expr& b) {
   for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
     a[i] &= b[i];
   }
-  for (std::size_t i = b.size(); i < a.size(); ++i) {
-    a[i] = b[i];
-  }
   return a;
 }
 
-- 
2.43.0


From 67b9289535774f6418f3d807ae9ab93312b598b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 07/33] fix: Don't reassociate constants in add and mul forever
 when folding them overflows

---
 slinky/builder/simplify_rules.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify_rules.h b/slinky/builder/simplify_rules.h
index 826d78d..9507bae 100644
--- a/slinky/builder/simplify_rules.h
+++ b/slinky/builder/simplify_rules.h
@@ -294,7 +294,7 @@ bool apply_add_rules(Fn&& apply) {
       apply((y - x) + (z - x), (y + z) + x*-2) ||
 
       apply(x + (c0 - y), (x - y) + c0) ||
-      apply((x + may_be<0>(c0)) + (y + may_be<0>(c1)), (x + y) + eval(c0 + c1), c0 != 0 || c1 != 0) ||
+      apply((x + may_be<0>(c0)) + (y + may_be<0>(c1)), (x + y) + eval(c0 + c1), !(is_constant(x) || is_constant(y)) && (c0 != 0 || c1 != 0)) ||
 
       apply(staircase(x, c0, c1, c2) + c3, ((x + eval((c3/c2)*c1 + c0))/c1)*c2, c0 != 0 && c1 != 0 && c2 != 0 && c3%c2 == 0) ||
       apply(staircase(x, 0, c0, c0) + x%c0, x, c0 != 0) ||
@@ -391,7 +391,7 @@ bool apply_mul_rules(Fn&& apply) {
       apply((x*c0)*c1, x*eval(c0*c1)) ||
       apply((x + c0)*c1, x*c1 + eval(c0*c1)) ||
       apply((c0 - x)*c1, x*eval(-c1) + eval(c0*c1)) ||
-      apply(y*(x*c0), (x*y)*c0) ||
+      apply(y*(x*c0), (x*y)*c0, !is_constant(y)) ||
 
       apply(select(x, c0, c1)*c2, select(x, eval(c0*c2), eval(c1*c2))) ||
       apply(select(x, y, c1)*c2, select(x, y*c2, eval(c1*c2))) ||
-- 
2.43.0


From 4de3527fe4e82c61acde5762eeef573a3c641cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 08/33] Guarded switch for checks to turn off learning from min
 and max in knowledge

---
 slinky/builder/simplify.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 6a1e826..cb477f0 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -620,6 +620,7 @@ public:
     }
 
     void learn_from_less(const expr& a, const expr& b) {
+#ifndef SLINKY_VERIF_NO_LEARN_FROM_MIN_MAX
       if (const class max* r = b.as<class max>()) {
         // a < max(x, y) ==> a < x && a < y
         learn_from_less(a, r->a);
@@ -628,7 +629,9 @@ public:
         // min(x, y) < b ==> x < b && y < b
         learn_from_less(l->a, b);
         learn_from_less(l->b, b);
-      } else {
+      } else
+#endif
+      {
         const variable* av = a.as<variable>();
         const variable* bv = b.as<variable>();
         if (av) add_var_info(av, {expr(), simplify(static_cast<const add*>(nullptr), b, -1)});
@@ -640,6 +643,7 @@ public:
       }
     }
     void learn_from_less_equal(const expr& a, const expr& b) {
+#ifndef SLINKY_VERIF_NO_LEARN_FROM_MIN_MAX
       if (const class max* r = b.as<class max>()) {
         // a <= max(x, y) ==> a <= x && a <= y
         learn_from_less_equal(a, r->a);
@@ -648,7 +652,9 @@ public:
         // min(x, y) <= b ==> x <= b && y <= b
         learn_from_less_equal(l->a, b);
         learn_from_less_equal(l->b, b);
-      } else {
+      } else
+#endif
+      {
         const variable* av = a.as<variable>();
         const variable* bv = b.as<variable>();
         if (av) add_var_info(av, {expr(), b});
-- 
2.43.0


From cc1c6b9e29c631a8d4b40c761653355d303d9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 09/33] fix: Evaluating x % -1 and folding x / -1 trap if x is
 the minimum index_t

---
 slinky/base/arithmetic.h         | 3 +++
 slinky/builder/simplify_exprs.cc | 2 +-
 slinky/runtime/expr.h            | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index 7592fc4..884156c 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -33,6 +33,9 @@ template <typename T>
 T euclidean_mod(T a, T b, T define_b_zero = 0) {
   if (b == 0) {
     return define_b_zero;
+  } else if (b == static_cast<T>(-1)) {
+    // Computing a % -1 overflows if a is the minimum value of T.
+    return 0;
   }
   T r = a % b;
   return r >= 0 ? r : (b < 0 ? r - b : r + b);
diff --git a/slinky/builder/simplify_exprs.cc b/slinky/builder/simplify_exprs.cc
index 853b310..f67c63a 100644
--- a/slinky/builder/simplify_exprs.cc
+++ b/slinky/builder/simplify_exprs.cc
@@ -145,7 +145,7 @@ expr simplify(const mul* op, expr a, expr b) {
 expr simplify(const div* op, expr a, expr b) {
   auto ca = as_constant(a);
   auto cb = as_constant(b);
-  if (ca && cb) {
+  if (ca && cb && !binary_overflows<div>(*ca, *cb)) {
     return euclidean_div(*ca, *cb);
   }
 
diff --git a/slinky/runtime/expr.h b/slinky/runtime/expr.h
index 9a127c5..5cc5f89 100644
--- a/slinky/runtime/expr.h
+++ b/slinky/runtime/expr.h
@@ -479,6 +479,7 @@ template <typename T> SLINKY_INLINE bool binary_overflows(index_t a, index_t b)
 template <> SLINKY_INLINE bool binary_overflows<add>(index_t a, index_t b) { return add_overflows(a, b); }
 template <> SLINKY_INLINE bool binary_overflows<sub>(index_t a, index_t b) { return sub_overflows(a, b); }
 template <> SLINKY_INLINE bool binary_overflows<mul>(index_t a, index_t b) { return mul_overflows(a, b); }
+template <> SLINKY_INLINE bool binary_overflows<div>(index_t a, index_t b) { return a == std::numeric_limits<index_t>::min() && b == -1; }
 // clang-format on
 
 template <typename T>
-- 
2.43.0


From 20e585765ddcbc77cc3ac2bb0736c6e936ed95c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 10/33] fix: Don't rewrite c1 + (c0 - y) back and forth when
 folding the constants overflows

---
 slinky/builder/simplify_rules.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/builder/simplify_rules.h b/slinky/builder/simplify_rules.h
index 9507bae..356fc7a 100644
--- a/slinky/builder/simplify_rules.h
+++ b/slinky/builder/simplify_rules.h
@@ -293,7 +293,7 @@ bool apply_add_rules(Fn&& apply) {
       apply((x - y) + (x - z), x*2 - (y + z)) ||
       apply((y - x) + (z - x), (y + z) + x*-2) ||
 
-      apply(x + (c0 - y), (x - y) + c0) ||
+      apply(x + (c0 - y), (x - y) + c0, !is_constant(x)) ||
       apply((x + may_be<0>(c0)) + (y + may_be<0>(c1)), (x + y) + eval(c0 + c1), !(is_constant(x) || is_constant(y)) && (c0 != 0 || c1 != 0)) ||
 
       apply(staircase(x, c0, c1, c2) + c3, ((x + eval((c3/c2)*c1 + c0))/c1)*c2, c0 != 0 && c1 != 0 && c2 != 0 && c3%c2 == 0) ||
-- 
2.43.0


From a6c58211abbd367f0edc65d257861fbba750e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 11/33] fix: gcd traps if an intermediate result is the minimum
 integer modulo -1

---
 slinky/base/arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index 884156c..c31df37 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -199,7 +199,7 @@ T gcd(T a, T b) {
   }
   while (b != 0) {
     T tmp = b;
-    b = a % b;
+    b = euclidean_mod(a, b);
     a = tmp;
   }
   return a;
-- 
2.43.0


From 2dbf2e5599b641a3391423374ed506e082b40a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 12/33] fix: The least common multiple of two moduli may
 overflow when its value or the product of the moduli is not representable

---
 slinky/base/arithmetic.h        | 2 +-
 slinky/base/modulus_remainder.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index c31df37..df8e9b4 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -207,7 +207,7 @@ T gcd(T a, T b) {
 
 template <typename T>
 T lcm(T a, T b) {
-  return (a * b) / gcd(a, b);
+  return (a / gcd(a, b)) * b;
 }
 
 template <typename T>
diff --git a/slinky/base/modulus_remainder.h b/slinky/base/modulus_remainder.h
index 797f608..074c542 100644
--- a/slinky/base/modulus_remainder.h
+++ b/slinky/base/modulus_remainder.h
@@ -155,7 +155,10 @@ template <typename T>
 modulus_remainder<T> operator&(const modulus_remainder<T>& a, const modulus_remainder<T>& b) {
   if (a.modulus == 0) return a;
   if (b.modulus == 0) return b;
-  if (a.remainder == 0 && b.remainder == 0) return {lcm(a.modulus, b.modulus), 0};
+  T m;
+  if (a.remainder == 0 && b.remainder == 0 && !mul_with_overflow(a.modulus / gcd(a.modulus, b.modulus), b.modulus, m)) {
+    return {m, 0};
+  }
   // We have x == ma * y + ra == mb * z + rb
 
   // We want to synthesize these two facts into one modulus
-- 
2.43.0


From c9d13907cd8ca7b86dd8d3fd7c0df599306b3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 13/33] fix: Dividing a modulus and remainder by -1 traps if
 one of them is the minimum integer

---
 slinky/base/modulus_remainder.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slinky/base/modulus_remainder.h b/slinky/base/modulus_remainder.h
index 074c542..38f26d0 100644
--- a/slinky/base/modulus_remainder.h
+++ b/slinky/base/modulus_remainder.h
@@ -104,7 +104,10 @@ modulus_remainder<T> operator/(const modulus_remainder<T>& a, const modulus_rema
   // (m1 / r2) * x + floor(r1 / r2)
   // E.g. (8x + 3) / 2 -> (4x + 1)
 
-  if (b.modulus == 0 && b.remainder != 0) {
+  if (b.modulus == 0 && b.remainder == -1) {
+    // x / -1 is -x, but computing it overflows if x is the minimum value of T.
+    return modulus_remainder<T>(0, 0) - a;
+  } else if (b.modulus == 0 && b.remainder != 0) {
     if ((euclidean_mod(a.modulus, b.remainder, a.modulus)) == 0) {
       T m = a.modulus / b.remainder;
       T r = euclidean_div(a.remainder, b.remainder);
-- 
2.43.0


From b59303ed1e86f440dd9c7c424662068cc61671e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 14/33] fix: The modulus of x % y may be zero if the remainder
 of y is a multiple of its modulus

---
 slinky/base/modulus_remainder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/base/modulus_remainder.h b/slinky/base/modulus_remainder.h
index 38f26d0..cd12307 100644
--- a/slinky/base/modulus_remainder.h
+++ b/slinky/base/modulus_remainder.h
@@ -197,7 +197,7 @@ modulus_remainder<T> operator%(const modulus_remainder<T>& a, const modulus_rema
   modulus = gcd(modulus, b.remainder);
   T remainder = euclidean_mod(a.remainder, modulus, a.remainder);
 
-  if (b.remainder == 0 && remainder != 0) {
+  if (euclidean_mod(b.remainder, b.modulus, b.remainder) == 0 && remainder != 0) {
     // b could be zero, so the result could also just be zero.
     if (modulus == 0) {
       remainder = 0;
-- 
2.43.0


From 613581ad548adec43c0c521940266da34c6526e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 15/33] fix: Negating the scale of a staircase saturates if it
 is the minimum integer

---
 slinky/builder/simplify_bounds.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/simplify_bounds.cc b/slinky/builder/simplify_bounds.cc
index 908085f..367d021 100644
--- a/slinky/builder/simplify_bounds.cc
+++ b/slinky/builder/simplify_bounds.cc
@@ -72,7 +72,8 @@ void tighten_correlated_bounds_stairs(interval_expr& bounds, const expr& a, cons
   index_t lc = lhs.matched(c2);
   index_t ra = rhs.matched(c0);
   index_t rb = rhs.matched(c1);
-  index_t rc = mul_sat<index_t>(rhs.matched(c2), sign_b);
+  index_t rc;
+  if (mul_with_overflow<index_t>(rhs.matched(c2), sign_b, rc)) return;
 
   interval<int> sb = staircase_sum_bounds(la, lb, lc, ra, rb, rc);
   if (sb.min) bounds.min = simplify(static_cast<const class max*>(nullptr), bounds.min, *sb.min);
-- 
2.43.0


From 63820aeb78972394ff913a0aa2488a29e9e9e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 16/33] fix: Matching (a - x)/b as a staircase overflows for
 constants near the limits of index_t

---
 slinky/builder/rewrite.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/rewrite.h b/slinky/builder/rewrite.h
index 3fb384e..06464ee 100644
--- a/slinky/builder/rewrite.h
+++ b/slinky/builder/rewrite.h
@@ -558,7 +558,9 @@ SLINKY_UNIQUE bool match(const pattern_staircase<X, A, B, C>& p, expr_ref x, mat
     // We might have ((a - x)/b)*c. x - a should have been canonicalized to x + -a.
     // We need to rewrite (a - x)/b to (x + (b - 1) - a)/(-b).
     if (auto ac = as_constant(sa->a)) {
-      index_t a = std::abs(b) - 1 - *ac;
+      // -b and |b| are not representable if b is the minimum value of index_t.
+      index_t a;
+      if (sub_overflows<index_t>(0, b) || sub_with_overflow<index_t>(std::abs(b) - 1, *ac, a)) return false;
       return match<matched_c>(p.b, -b, ctx) && match<matched_cb>(p.x, sa->b, ctx) && match<matched_cbx>(p.a, a, ctx);
     }
   } else {
-- 
2.43.0


From 963f6959945af236bd686f2549d68de9faffe873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 17/33] fix: Restore let bindings in reverse order, so a symbol
 defined twice by a let is restored

---
 slinky/runtime/evaluate.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index e66e759..45c0a3e 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -175,7 +175,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse order, in case a symbol is defined more than once.
+    for (size_t i = size; i-- > 0;) {
       context.set(op->lets[i].first, old_values[i]);
     }
     return result;
@@ -406,7 +407,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse order, in case a symbol is defined more than once.
+    for (size_t i = size; i-- > 0;) {
       const auto& let = op->lets[i];
       context.set(let.first, old_values[i]);
     }
-- 
2.43.0


From 85c7fc83dcb522f767171c7fe108c28417f6f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 18/33] fix: A parallel loop over empty bounds with max < min -
 1 runs a huge number of iterations

---
 slinky/runtime/evaluate.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 45c0a3e..ceba4ba 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -452,7 +452,8 @@ public:
     interval bounds = eval(op->bounds);
     index_t step = eval(op->step, 1);
     assert(step != 0);
-    std::size_t n = ceil_div(bounds.max - bounds.min + 1, step);
+    // The bounds may be empty by more than one, which must not wrap to a large number of iterations.
+    std::size_t n = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));
 
     if (n == 0) {
       return 0;
-- 
2.43.0


From df15f6cb3afb248b6a14fb93f5eb2f13f4a1753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 19/33] fix: async clobbers the previous value of its symbol
 with 0

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index ceba4ba..bec592c 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -555,7 +555,7 @@ public:
 
     context.reserve(op->sym.id + 1);
     index_t old_sym = 0;
-    if (op->sym.defined()) context.set(op->sym, reinterpret_cast<index_t>(&*task));
+    if (op->sym.defined()) old_sym = context.set(op->sym, reinterpret_cast<index_t>(&*task));
 
     index_t result = eval_with_new_context(op->body);
 
-- 
2.43.0


From aef16f0c984c29c02a822d28946a33c1235a4d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 20/33] fix: Truncating a buffer in place to more dimensions
 than it has exposes dims that don't exist

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index bec592c..7534aa3 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -868,7 +868,7 @@ public:
 
       // In-place truncate, all we need to do is set the rank (and restore it).
       std::size_t old_rank = src_buf->rank;
-      src_buf->rank = op->dims.size();
+      src_buf->rank = std::min(old_rank, op->dims.size());
       index_t result = eval(op->body);
       src_buf->rank = old_rank;
       return result;
-- 
2.43.0


From 7460e3900b1d58c44b54642fa6964934f64e8d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 21/33] fix: An async task could see changes its parent makes
 to the context, or read it after it was reallocated

---
 slinky/runtime/evaluate.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 7534aa3..46952ea 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -533,18 +533,21 @@ public:
     }
   }
 
-  index_t eval_with_new_context(stmt task) {
-    eval_context context;
+  // Initialize `task_context` to be a new context for running `task`, and returns the statement to evaluate in it.
+  stmt make_new_context(stmt task, eval_context& task_context) {
     const let_stmt* closure = as_closure(task);
+    init_context(task_context, context, closure);
     if (closure) task = closure->body;
-    init_context(context, this->context, closure);
-
-    return evaluate(task, context);
+    return task;
   }
 
   SLINKY_NO_INLINE index_t eval(const async* op) {
     index_t task_result = 0;
-    auto task_body = [&]() { task_result = eval_with_new_context(op->task); };
+    // The task needs its context before we enqueue it, because it could run at any time after that, and we are going to
+    // modify our context (and possibly reallocate it) below.
+    eval_context task_context;
+    stmt task_stmt = make_new_context(op->task, task_context);
+    auto task_body = [&]() { task_result = evaluate(task_stmt, task_context); };
     ref_count<thread_pool::task> task;
     thread_pool* pool = context.config->thread_pool;
     if (pool) {
@@ -557,7 +560,9 @@ public:
     index_t old_sym = 0;
     if (op->sym.defined()) old_sym = context.set(op->sym, reinterpret_cast<index_t>(&*task));
 
-    index_t result = eval_with_new_context(op->body);
+    eval_context body_context;
+    stmt body_stmt = make_new_context(op->body, body_context);
+    index_t result = evaluate(body_stmt, body_context);
 
     if (op->sym.defined()) context.set(op->sym, old_sym);
 
-- 
2.43.0


From 0393351adfbe325764cc29b3213b40b4a904e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 22/33] fix: for_each_contiguous_slice runs past the end of
 overlapping contiguous dimensions

---
 slinky/runtime/buffer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 872279d..fca6065 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -805,6 +805,8 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
   for_each_loop<BufsSize>* outer_loop = loop;
 
   index_t slice_extent = 1;
+  // Only one dimension can be the slice, even if more than one is contiguous (because they overlap).
+  bool can_slice = SkipContiguous;
   index_t extent = 1;
   for (int d = rank - 1; d >= 0; --d) {
     const dim& buf_dim = buf.dim(d);
@@ -814,7 +816,8 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
     } else if (buf_dim.max() < buf_dim.min() || use_nonlinear_loop(bufs, d)) {
       // extent > 1 and there is a folded dimension in one of the buffers, or we need to crop one of the buffers, or the
       // loops are empty.
-      if (SkipContiguous && is_contiguous_slice(bufs, d)) {
+      if (can_slice && is_contiguous_slice(bufs, d)) {
+        can_slice = false;
         loop->impl = for_each_impl_nonlinear<F, BufsSize, false, true>;
         inner_impl = for_each_impl_nonlinear<F, BufsSize, true, true>;
       } else {
@@ -869,8 +872,9 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
 
     if (extent == 1 || (d > 0 && can_fuse(bufs, d))) {
       // Let this fuse with the next dimension.
-    } else if (SkipContiguous && is_contiguous_slice(bufs, d)) {
+    } else if (can_slice && is_contiguous_slice(bufs, d)) {
       // This is the slice dimension.
+      can_slice = false;
       slice_extent *= extent;
       extent = 1;
     } else {
-- 
2.43.0


From 2b12e785e39c8a741d7f63854eb381c5b30a6fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 23/33] fix: Buffers with a dimension whose extent overflows
 are validated and allocated as if it was empty or negative

---
 slinky/runtime/buffer.cc | 43 +++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index fca6065..343f969 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -16,15 +16,28 @@ namespace slinky {
 
 namespace {
 
-index_t alloc_extent(const dim& dim) {
+// Computes the extent of the memory needed for `dim`, minus one. This is at least -1, which indicates `dim` is empty.
+// Returns false if the result overflows.
+bool alloc_extent_minus_1(const dim& dim, index_t& result) {
   if (dim.fold_factor() > 0) {
     // TODO: We can do better than this if the dim doesn't cross a fold boundary.
-    return dim.fold_factor();
+    result = dim.fold_factor() - 1;
+    return true;
+  } else if (dim.empty()) {
+    result = -1;
+    return true;
   } else {
-    return dim.extent();
+    return !sub_with_overflow(dim.max(), dim.min(), result);
   }
 }
 
+index_t alloc_extent(const dim& dim, bool& overflow) {
+  index_t result = 0;
+  overflow = overflow || !alloc_extent_minus_1(dim, result);
+  overflow = overflow || add_with_overflow(result, static_cast<index_t>(1), result);
+  return overflow ? 0 : result;
+}
+
 bool calculate_flat_bounds(std::size_t rank, const dim* dims, index_t& flat_min, index_t& flat_max) {
   flat_min = 0;
   flat_max = 0;
@@ -32,21 +45,22 @@ bool calculate_flat_bounds(std::size_t rank, const dim* dims, index_t& flat_min,
 
   for (std::size_t i = 0; i < rank; ++i) {
     if (dims[i].stride() == 0) continue;
-    index_t extent = alloc_extent(dims[i]);
-    assert(extent >= 0);
-    if (extent == 0) {
+    index_t extent_minus_1 = 0;
+    if (!alloc_extent_minus_1(dims[i], extent_minus_1)) {
+      overflow = true;
+      continue;
+    }
+    if (extent_minus_1 < 0) {
       flat_min = 0;
       flat_max = 0;
       return true;
     }
 
     index_t stride = dims[i].stride();
-    overflow |= (stride == dim::auto_stride && extent > 1);
+    overflow |= (stride == dim::auto_stride && extent_minus_1 > 0);
 
-    index_t extent_minus_1;
     index_t term_min;
     index_t term_max;
-    overflow = overflow || sub_with_overflow(extent, static_cast<index_t>(1), extent_minus_1);
     overflow = overflow || mul_with_overflow(extent_minus_1, std::min<index_t>(0, stride), term_min);
     overflow = overflow || add_with_overflow(flat_min, term_min, flat_min);
     overflow = overflow || mul_with_overflow(extent_minus_1, std::max<index_t>(0, stride), term_max);
@@ -57,7 +71,8 @@ bool calculate_flat_bounds(std::size_t rank, const dim* dims, index_t& flat_min,
 
 std::size_t alloc_size(std::size_t rank, std::size_t elem_size, const dim* dims) {
   for (std::size_t i = 0; i < rank; ++i) {
-    if (alloc_extent(dims[i]) == 0) return 0;
+    index_t extent_minus_1;
+    if (alloc_extent_minus_1(dims[i], extent_minus_1) && extent_minus_1 < 0) return 0;
   }
 
   index_t flat_min = 0;
@@ -192,7 +207,7 @@ std::optional<std::size_t> raw_buffer::init_strides_impl(index_t alignment) {
     slinky::dim& dim_i = this->dims[i];
     if (dim_i.stride() == 0) continue;
 
-    index_t alloc_extent_i = alloc_extent(dim_i);
+    index_t alloc_extent_i = alloc_extent(dim_i, overflow);
     if (alloc_extent_i <= 1) {
       // The buffer is empty or has extent 1, we don't care about the stride.
       if (dim_i.stride() == dim::auto_stride) dim_i.set_stride(elem_size);
@@ -214,8 +229,8 @@ std::optional<std::size_t> raw_buffer::init_strides_impl(index_t alignment) {
     slinky::dim& dim_i = this->dims[i];
     if (dim_i.stride() != dim::auto_stride) continue;
 
-    const index_t alloc_extent_i = alloc_extent(dim_i);
-    assert(alloc_extent_i > 1);
+    const index_t alloc_extent_i = alloc_extent(dim_i, overflow);
+    assert(overflow || alloc_extent_i > 1);
 
     span<const init_stride_dim> known_dims{dims, dims_end};
     if (is_stride_ok(elem_size, alloc_extent_i, known_dims, overflow)) {
@@ -238,7 +253,7 @@ std::optional<std::size_t> raw_buffer::init_strides_impl(index_t alignment) {
         break;
       }
     }
-    assert(dim_i.stride() != dim::auto_stride);
+    assert(overflow || dim_i.stride() != dim::auto_stride);
   }
 
   index_t size = 0;
-- 
2.43.0


From 4a892a188f0f68a78c93e79eda7f92b4e0e82bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 24/33] fix: Fusing a folded inner dimension, or a folded or
 broadcast dimension with an extent of 1, changes addresses

---
 slinky/runtime/buffer.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index dd35b07..82473c9 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -763,12 +763,17 @@ bool validate_buffer(const raw_buffer& buf);
 // Returns true if the two dimensions can be fused.
 inline bool can_fuse(const dim& inner, const dim& outer) {
   if (inner.empty()) return false;
-  if (outer.min() == outer.max() && outer.stride() != 0) return true;
+
+  // The fold of the inner dimension can't be preserved, because fusing translates it.
+  if (inner.stride() != 0 && inner.fold_factor() != dim::unfolded) return false;
 
   index_t next_stride = inner.stride() * (inner.max() - inner.min() + 1);
-  if (next_stride != outer.stride()) return false;
+  if (next_stride == outer.stride()) return true;
 
-  return next_stride == 0 || inner.fold_factor() == dim::unfolded;
+  // If the outer dimension has extent 1, its stride doesn't matter, unless it is folded (its coordinate may not be at
+  // offset 0), or one of the dimensions is a broadcast (which would lose the bounds of the other dimension).
+  return outer.min() == outer.max() && inner.stride() != 0 && outer.stride() != 0 &&
+         outer.fold_factor() == dim::unfolded;
 }
 
 // Fuse two dimensions of a buffer.
-- 
2.43.0


From 9dab7c1aebbba610d0a9bd4da7aa4c478a635f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 25/33] fix: pad ignores bounds of [0, 0], and fusing an
 implicit broadcast keeps the bounds of the inner dimension

---
 slinky/runtime/buffer.cc | 8 +++++++-
 slinky/runtime/buffer.h  | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 343f969..bf3af35 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -484,7 +484,13 @@ void pad(const dim* in_bounds, const raw_buffer& dst, const raw_buffer& pad) {
 
   raw_buffer src = {nullptr, dst.elem_size, dst.rank, SLINKY_ALLOCA(dim, dst.rank)};
   for (std::size_t d = 0; d < dst.rank; ++d) {
-    src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), 0, in_bounds[d].fold_factor()};
+    if (in_bounds[d].is_broadcast()) {
+      src.dims[d] = dim::broadcast();
+    } else {
+      // Only the bounds matter, but this must not look like a broadcast. If we use the strides of dst, we can fuse src
+      // whenever we can fuse dst.
+      src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), dst.dims[d].stride()};
+    }
   }
 
   raw_buffer pad_opt = pad;
diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 82473c9..7016e39 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -805,8 +805,10 @@ enum class fuse_type {
 template <fuse_type type>
 inline void fuse(index_t inner, index_t outer, raw_buffer& buf) {
   if (outer >= static_cast<index_t>(buf.rank)) {
-    // Fusing an implicit broadcast, nothing to do.
-    assert(inner >= static_cast<index_t>(buf.rank) || can_fuse(buf.dim(inner), dim::broadcast()));
+    // Fusing an implicit broadcast, which must lose the bounds of the inner dimension, if it exists.
+    if (inner < static_cast<index_t>(buf.rank)) {
+      buf.dims[inner] = fuse(buf.dims[inner], dim::broadcast());
+    }
   } else if (inner >= static_cast<index_t>(buf.rank)) {
     // The inner dimension is an implicit broadcast.
     dim& od = buf.dims[outer];
-- 
2.43.0


From bc8d784ba6f744e1b2d303b99a014390f572392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 26/33] fix: Allocations of buffers with negative strides set
 base to the lowest address, so elements are out of bounds

---
 slinky/runtime/buffer.cc   | 11 +++++++++--
 slinky/runtime/buffer.h    |  4 ++++
 slinky/runtime/evaluate.cc |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index bf3af35..01cf9dd 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -95,6 +95,13 @@ std::size_t alloc_size(std::size_t rank, std::size_t elem_size, const dim* dims)
 
 std::size_t raw_buffer::size_bytes() const { return alloc_size(rank, elem_size, dims); }
 
+std::size_t raw_buffer::base_offset() const {
+  index_t flat_min = 0;
+  index_t flat_max = 0;
+  if (!calculate_flat_bounds(rank, dims, flat_min, flat_max)) return 0;
+  return -static_cast<std::size_t>(flat_min);
+}
+
 std::size_t raw_buffer::elem_count() const {
   std::size_t result = 1;
   for (std::size_t i = 0; i < rank; ++i) {
@@ -120,7 +127,7 @@ raw_buffer_ptr raw_buffer::make(std::size_t rank, std::size_t elem_size, const c
   } else {
     new (buf->dims) slinky::dim[buf->rank];
   }
-  buf->base = data_size > 0 ? mem : nullptr;
+  buf->base = data_size > 0 ? mem + buf->base_offset() : nullptr;
   buf->base = align_up(buf->base, alignment);
   return raw_buffer_ptr(buf, free);
 }
@@ -269,7 +276,7 @@ void* raw_buffer::allocate(index_t base_alignment, index_t stride_alignment) {
   std::optional<std::size_t> size = init_strides(stride_alignment);
   if (!size) return nullptr;
   void* allocation = malloc(*size + base_alignment - 1);
-  base = align_up(allocation, base_alignment);
+  base = align_up(reinterpret_cast<char*>(allocation) + base_offset(), base_alignment);
   return allocation;
 }
 
diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 7016e39..e4e0979 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -417,6 +417,10 @@ public:
 
   std::size_t size_bytes() const;
 
+  // The distance in bytes from the lowest address of any element of this buffer to `base`. This is 0 unless there are
+  // dimensions with negative strides.
+  std::size_t base_offset() const;
+
   std::size_t elem_count() const;
 
   // If any strides are `auto_stride`, replace them with automatically determined strides.
diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 46952ea..bfd4255 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -630,8 +630,8 @@ public:
       }
       if (op->storage == memory_type::stack || *size <= context.config->auto_stack_threshold) {
         std::size_t alignment = context.config->base_alignment;
-        buffer.base = SLINKY_ALLOCA(char, *size + alignment - 1);
-        buffer.base = align_up(buffer.base, alignment);
+        char* storage = SLINKY_ALLOCA(char, *size + alignment - 1);
+        buffer.base = align_up(storage + buffer.base_offset(), alignment);
         buffer.allocation = nullptr;
       } else {
         buffer.allocation = context.config->allocate(op->sym, &buffer);
-- 
2.43.0


From 1d1323203032e23df633be51fdc78b2a507944e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 27/33] fix: Slicing several dimensions reads and writes past
 the dims if one of them is a broadcast

---
 slinky/runtime/buffer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index e4e0979..6bb7364 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -322,9 +322,8 @@ public:
       std::size_t d = ds[i];
       if (d >= rank) break;
       ++slice_total;
-      std::size_t next_d = i + 1 < ds.size() ? ds[i + 1] : rank;
+      std::size_t next_d = i + 1 < ds.size() ? std::min(ds[i + 1], rank) : rank;
       assert(next_d > d);
-      assert(next_d <= rank);
 
       // Move the dimensions between this slice and the next slice down by the number of slices we've done so far.
       // d and next_d are indices in the original dimensions.
-- 
2.43.0


From b208dab4e59f49239698bacbfe50a8e8139c69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:59 +0000
Subject: [PATCH 28/33] fix: Ending a scoped binding writes past the end of a
 symbol_map that was cleared in the scope

---
 slinky/runtime/expr.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/slinky/runtime/expr.h b/slinky/runtime/expr.h
index 5cc5f89..32087ba 100644
--- a/slinky/runtime/expr.h
+++ b/slinky/runtime/expr.h
@@ -748,10 +748,6 @@ class symbol_map {
     }
   }
 
-  // Allow this to access values without calling `grow`.
-  template <typename T2>
-  friend class scoped_value_in_symbol_map;
-
 public:
   symbol_map() = default;
   symbol_map(std::size_t reserve) : values(reserve) {}
@@ -854,8 +850,8 @@ public:
 
   void exit_scope() {
     if (context_) {
-      // We know this context is big enough because we got old_value_ from it.
-      context_->values[sym_.id] = std::move(old_value_);
+      // This may need to grow the context, it could have been cleared or assigned since we got old_value_ from it.
+      (*context_)[sym_] = std::move(old_value_);
       context_ = nullptr;
     }
   }
-- 
2.43.0


From 74c1a7f8a586216aa1b09eff2b94c2f82a4b4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 29/33] fix: deshadow leaves the declarations of a symbol
 declared twice by a let in scope

---
 slinky/builder/optimizations.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 209e2fc..1b6b6ea 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1696,7 +1696,12 @@ public:
     return renamed;
   }
 
-  void exit_decls(int n) override { decls.erase(decls.begin() + decls.size() - n, decls.end()); }
+  void exit_decls(int n) override {
+    // Exit in reverse order, so a symbol declared more than once (e.g. by one let) is restored correctly.
+    for (; n > 0; --n) {
+      decls.pop_back();
+    }
+  }
 
   void visit(const loop* op) override {
     interval_expr bounds = mutate(op->bounds);
-- 
2.43.0


From 5a4503f1786addc817b99c2ea24636b098f8b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:04 +0000
Subject: [PATCH 30/33] fix: A thread waiting for a task that another waiting
 thread completes is not woken

---
 slinky/base/thread_pool_impl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slinky/base/thread_pool_impl.cc b/slinky/base/thread_pool_impl.cc
index 3b6fdf1..3e84fbf 100644
--- a/slinky/base/thread_pool_impl.cc
+++ b/slinky/base/thread_pool_impl.cc
@@ -241,6 +241,11 @@ ref_count<thread_pool::task> thread_pool_impl::enqueue(std::size_t n, task_body
 void thread_pool_impl::wait_for(task* t) {
   task_impl* task = reinterpret_cast<task_impl*>(t);
   bool completed = work_on_task(task);
+  if (completed) {
+    // We completed the loop, notify the helper CV in case another thread is waiting for this loop to complete.
+    std::unique_lock l(mutex_);
+    cv_helper_.notify_all();
+  }
   if (!completed || !task->done()) {
     // We want to spin a few times before letting the OS take over. This spinning is especially useful because we don't
     // need to lock the mutex.
-- 
2.43.0


From f1f3563b11bb53f1181ffde7d9fe1fd86c87ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 31/33] fix: The body of an allocation that failed saw an
 uninitialized base

---
 slinky/runtime/evaluate.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index bfd4255..ab6528c 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -597,6 +597,8 @@ public:
   // Not using SLINKY_NO_STACK_PROTECTOR here because this actually could allocate a lot of memory on the stack.
   index_t eval(const allocate* op) {
     allocated_buffer buffer;
+    // If the allocation fails, `base` is not written.
+    buffer.base = nullptr;
     buffer.elem_size = eval(op->elem_size);
     std::size_t rank = op->dims.size();
     buffer.dims = SLINKY_ALLOCA(dim, rank);
-- 
2.43.0


From c567fec77aaddf494d61b74cdb872a7c725c58d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 32/33] fix: A buffer got a base from a failed malloc if it has
 negative strides

---
 slinky/runtime/buffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 01cf9dd..666dd7a 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -276,6 +276,7 @@ void* raw_buffer::allocate(index_t base_alignment, index_t stride_alignment) {
   std::optional<std::size_t> size = init_strides(stride_alignment);
   if (!size) return nullptr;
   void* allocation = malloc(*size + base_alignment - 1);
+  if (!allocation) return nullptr;
   base = align_up(reinterpret_cast<char*>(allocation) + base_offset(), base_alignment);
   return allocation;
 }
-- 
2.43.0


From 44c379b4bcaa6cd36ecaf8699eedca10b486ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 33/33] fix: The number of elements of a buffer wrapped, so
 failed allocations passed as empty buffers

---
 slinky/runtime/buffer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 666dd7a..fcf172a 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -104,10 +104,13 @@ std::size_t raw_buffer::base_offset() const {
 
 std::size_t raw_buffer::elem_count() const {
   std::size_t result = 1;
+  bool overflow = false;
   for (std::size_t i = 0; i < rank; ++i) {
-    result *= std::max<index_t>(0, dims[i].extent());
+    if (dims[i].empty()) return 0;
+    const std::size_t extent = static_cast<std::size_t>(dims[i].max()) - static_cast<std::size_t>(dims[i].min()) + 1;
+    overflow = overflow || extent == 0 || mul_with_overflow(result, extent, result);
   }
-  return result;
+  return overflow ? std::numeric_limits<std::size_t>::max() : result;
 }
 
 raw_buffer_ptr raw_buffer::make(std::size_t rank, std::size_t elem_size, const class dim* dims, index_t alignment) {
-- 
2.43.0

