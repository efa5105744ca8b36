From e577a76b2eb131769b6ee34ef9cc0467c2016d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 01/42] fix: powers of negative floats with non-integer
 exponents are not real (was NaN)

---
 components/core/wf/expressions/power.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/components/core/wf/expressions/power.cc b/components/core/wf/expressions/power.cc
index 0f6bfe5..ebf492a 100644
--- a/components/core/wf/expressions/power.cc
+++ b/components/core/wf/expressions/power.cc
@@ -56,13 +56,17 @@ struct power_numerics_visitor {
 
   // If either operand is a float, coerce the other to float:
   template <typename Base, typename Exp>
-  std::enable_if_t<is_float_and_numeric_v<Base, Exp>, scalar_expr> apply_float_and_numeric(
-      const Base& base, const Exp& exp) {
+  std::enable_if_t<is_float_and_numeric_v<Base, Exp>, std::optional<scalar_expr>>
+  apply_float_and_numeric(const Base& base, const Exp& exp) {
     if (base.is_zero() && exp.is_negative()) {
       return constants::complex_infinity;
     }
-    const auto result = std::pow(static_cast<float_constant>(base).value(),
-                                 static_cast<float_constant>(exp).value());
+    const double exp_value = static_cast<float_constant>(exp).value();
+    if (base.is_negative() && std::floor(exp_value) != exp_value) {
+      // The result is complex (std::pow would return NaN), so we leave the power as is.
+      return std::nullopt;
+    }
+    const auto result = std::pow(static_cast<float_constant>(base).value(), exp_value);
     return make_expr<float_constant>(result);
   }
 
-- 
2.43.0


From de490e1066e8d97faf49bba20863979031e4efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 02/42] fix: a fractional power of a possibly negative value is
 not real

---
 components/core/wf/number_set.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/core/wf/number_set.cc b/components/core/wf/number_set.cc
index 561e885..e8c7b08 100644
--- a/components/core/wf/number_set.cc
+++ b/components/core/wf/number_set.cc
@@ -231,11 +231,22 @@ class determine_set_visitor {
         // base is either real_non_negative or real_positive
         return base;
       }
+      if (!is_non_negative(base) && is_non_integer_constant(pow.exponent())) {
+        // Fractional power of a value that may be negative, which is complex in general.
+        return number_set::complex;
+      }
       return number_set::real;
     }
     return number_set::unknown;
   }
 
+  static bool is_non_integer_constant(const scalar_expr& x) {
+    if (const float_constant* f = get_if<const float_constant>(x); f != nullptr) {
+      return std::floor(f->value()) != f->value();
+    }
+    return x.is_type<rational_constant>();
+  }
+
   constexpr number_set operator()(const rational_constant& r) const noexcept {
     return handle_numeric(r);
   }
-- 
2.43.0


From c8cd42d6f5bc6de570516d6196091300bdd7428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 03/42] fix: do not multiply exponents when the inner exponent
 is complex

---
 components/core/wf/expressions/power.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/expressions/power.cc b/components/core/wf/expressions/power.cc
index ebf492a..781bd3c 100644
--- a/components/core/wf/expressions/power.cc
+++ b/components/core/wf/expressions/power.cc
@@ -362,7 +362,7 @@ static bool can_multiply_exponents(const power& base_pow, const scalar_expr& out
   //  (x**(5/3))**y --> x**(5*y/3)
   // Unless:
   //  - `y` is an integer
-  //  - `x` is real and non-negative
+  //  - `x` is real and non-negative, and the inner exponent is not complex
   if (const scalar_expr& inner_exp = base_pow.exponent(); magnitude_less_than_one(inner_exp)) {
     return true;
   }
@@ -371,7 +371,8 @@ static bool can_multiply_exponents(const power& base_pow, const scalar_expr& out
   }
   if (const number_set base_set = determine_numeric_set(base_pow.base());
       base_set == number_set::real_non_negative || base_set == number_set::real_positive) {
-    return true;
+    // If the inner exponent is complex, `x**y` may have any argument.
+    return determine_numeric_set(base_pow.exponent()) != number_set::complex;
   }
   return false;
 }
-- 
2.43.0


From c4b9bcd26c183e14becd1ec2bfbe75c7943cb882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:11 +0000
Subject: [PATCH 04/42] fix: overflow while ordering or reducing rationals
 terminated the process

---
 .../core/wf/expressions/numeric_expressions.h | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index adc2ede..c01eab6 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -108,16 +108,16 @@ class rational_constant {
 
   // Normalize a rational into a whole integer part, and a rational whose absolute value is less
   // than one.
-  constexpr std::pair<integer_constant, rational_constant> normalized() const noexcept {
+  constexpr std::pair<integer_constant, rational_constant> normalized() const {
     return std::make_pair(integer_constant{n_ / d_}, rational_constant{n_ % d_, d_});
   }
 
   // True if the absolute value of the fraction is less than one.
-  bool is_proper() const noexcept { return abs(n_) < d_; }
+  // The denominator is always positive, so it can be negated without overflow.
+  bool is_proper() const noexcept { return n_.value() < d_.value() && n_.value() > -d_.value(); }
 
  private:
-  static constexpr std::pair<value_type, value_type> create_pair(value_type n,
-                                                                 value_type d) noexcept {
+  static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
     // Find the largest common denominator and reduce:
     const auto gcd = std::gcd(n.value(), d.value());
     n = n / gcd;
@@ -278,14 +278,28 @@ struct is_identical_struct<rational_constant> {
 
 template <>
 struct order_struct<rational_constant> {
+  // Compare the continued fraction expansions, so that there is no product that could overflow.
   constexpr relative_order operator()(const rational_constant& a,
                                       const rational_constant& b) const noexcept {
-    if (a.denominator() == b.denominator()) {
-      return order_by_comparison(a.numerator(), b.numerator());
+    std::int64_t an = a.numerator().value(), ad = a.denominator().value();
+    std::int64_t bn = b.numerator().value(), bd = b.denominator().value();
+    for (;;) {
+      const std::int64_t a_floor = an / ad - static_cast<std::int64_t>(an % ad < 0);
+      const std::int64_t b_floor = bn / bd - static_cast<std::int64_t>(bn % bd < 0);
+      if (a_floor != b_floor) {
+        return order_by_comparison(a_floor, b_floor);
+      }
+      const std::int64_t a_rem = an % ad < 0 ? an % ad + ad : an % ad;
+      const std::int64_t b_rem = bn % bd < 0 ? bn % bd + bd : bn % bd;
+      if (a_rem == 0 || b_rem == 0) {
+        return order_by_comparison(a_rem, b_rem);
+      }
+      // a_rem / ad < b_rem / bd <==> bd / b_rem < ad / a_rem
+      an = bd;
+      bn = ad;
+      ad = b_rem;
+      bd = a_rem;
     }
-    const auto left = a.numerator() * b.denominator();
-    const auto right = b.numerator() * a.denominator();
-    return order_by_comparison(left, right);
   }
 };
 
-- 
2.43.0


From f115e3f0ee1274c8514d568a1bbf619fdfacdd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:11 +0000
Subject: [PATCH 05/42] fix: signed overflow when factorizing integers close to
 2^63

---
 components/core/wf/integer_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/integer_utils.h b/components/core/wf/integer_utils.h
index 0581fdf..c7dd47d 100644
--- a/components/core/wf/integer_utils.h
+++ b/components/core/wf/integer_utils.h
@@ -26,7 +26,8 @@ constexpr int64_t wheel_factorization(const int64_t n_in) noexcept {
   // These are the increments between the first primes: [7, 11, 13, 17, 19, 23, 29, 31]
   constexpr int inc_length = 8;
   constexpr int inc[inc_length] = {4, 2, 4, 2, 4, 6, 2, 6};
-  while (k * k <= n_in) {
+  // Divide instead of computing k * k, which overflows for values of `n_in` close to 2^63.
+  while (k <= n_in / k) {
     if (n_in % k == 0) {
       return k;
     }
-- 
2.43.0


From e75525b79b0bafee4f04563f630fa11efde04b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 06/42] fix: floor of a float that exceeds 64 bits was an
 undefined conversion

---
 components/core/wf/functions.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/core/wf/functions.cc b/components/core/wf/functions.cc
index 23466da..8580c2f 100644
--- a/components/core/wf/functions.cc
+++ b/components/core/wf/functions.cc
@@ -600,6 +600,10 @@ struct floor_visitor {
       return std::nullopt;
     }
     const auto floored = std::floor(f.value());
+    if (constexpr double two_pow_63 = 9223372036854775808.0;
+        !(floored >= -two_pow_63 && floored < two_pow_63)) {
+      return scalar_expr{floored};  // Does not fit in an integer.
+    }
     return scalar_expr{static_cast<std::int64_t>(floored)};
   }
 
-- 
2.43.0


From 73c3d03bb0dc9f2349d1c8501e68120bd2da9cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 07/42] fix: identity, hash and order of float constants
 disagreed for nan and -0.0

---
 .../core/wf/expressions/numeric_expressions.h | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index c01eab6..1cddbfc 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -3,6 +3,8 @@
 // For license information refer to accompanying LICENSE file.
 #pragma once
 #include <cmath>
+#include <cstring>
+#include <limits>
 #include <numeric>
 #include <optional>
 
@@ -351,17 +353,30 @@ struct hash_struct<float_constant> {
   }
 };
 
+// Like the hash, identity is a function of the bits. NaN is identical to itself, and -0.0 differs
+// from 0.0.
 template <>
 struct is_identical_struct<float_constant> {
-  constexpr bool operator()(const float_constant a, const float_constant b) const noexcept {
-    return a.value() == b.value();
+  bool operator()(const float_constant a, const float_constant b) const noexcept {
+    return hash_struct<float_constant>{}(a) == hash_struct<float_constant>{}(b);
   }
 };
 
+// Total order that agrees with identity: the order of the values, with -0.0 < 0.0 and NaN at either
+// end of the real line.
 template <>
 struct order_struct<float_constant> {
-  relative_order operator()(const float_constant& a, const float_constant& b) const {
-    return order_by_comparison(a, b);
+  relative_order operator()(const float_constant& a, const float_constant& b) const noexcept {
+    return order_by_comparison(order_key(a), order_key(b));
+  }
+
+ private:
+  static std::int64_t order_key(const float_constant& f) noexcept {
+    std::int64_t bits;
+    static_assert(sizeof(f) == sizeof(bits));
+    std::memcpy(&bits, static_cast<const void*>(&f), sizeof(f));
+    // Flip the magnitude of negative values, which are stored as sign and magnitude.
+    return bits < 0 ? bits ^ std::numeric_limits<std::int64_t>::max() : bits;
   }
 };
 
-- 
2.43.0


From 117512f1c3a2388a7827369817ad1106c719abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 08/42] fix: the smallest integer as numerator or denominator
 broke the reduction of rationals

---
 .../core/wf/expressions/numeric_expressions.h  | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index 1cddbfc..0b69c02 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -120,10 +120,20 @@ class rational_constant {
 
  private:
   static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
-    // Find the largest common denominator and reduce:
-    const auto gcd = std::gcd(n.value(), d.value());
-    n = n / gcd;
-    d = d / gcd;
+    // Find the largest common denominator and reduce. The GCD is computed on unsigned magnitudes,
+    // because the magnitude of the smallest integer is not representable with a signed type.
+    const auto magnitude = [](const std::int64_t v) constexpr noexcept {
+      return v < 0 ? -static_cast<std::uint64_t>(v) : static_cast<std::uint64_t>(v);
+    };
+    const auto gcd = std::gcd(magnitude(n.value()), magnitude(d.value()));
+    if (gcd == magnitude(value_type::min().value())) {
+      // Both are either zero or the smallest integer, which we divide out.
+      n = (n == 0) ? 0 : 1;
+      d = (d == 0) ? 0 : 1;
+    } else {
+      n = n / static_cast<std::int64_t>(gcd);
+      d = d / static_cast<std::int64_t>(gcd);
+    }
     if (d < 0) {
       // If denominator is < 0, transfer sign to numerator.
       // If both are negative, this will make both positive.
-- 
2.43.0


From 0b0d842266fe90aee9dce8aa59f12f3a8b2d7b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 09/42] fix: foreign numbers were truncated to integers, and
 large integers rounded to floats, as operands

---
 components/wrapper/CMakeLists.txt             |  1 +
 .../wrapper/pywrenfold/matrix_wrapper.cc      | 13 +--
 .../wrapper/pywrenfold/number_arguments.h     | 84 +++++++++++++++++
 .../wrapper/pywrenfold/scalar_wrapper.cc      | 90 ++++++++++---------
 4 files changed, 139 insertions(+), 49 deletions(-)
 create mode 100644 components/wrapper/pywrenfold/number_arguments.h

diff --git a/components/wrapper/CMakeLists.txt b/components/wrapper/CMakeLists.txt
index 8a27ba3..c95c593 100644
--- a/components/wrapper/CMakeLists.txt
+++ b/components/wrapper/CMakeLists.txt
@@ -208,6 +208,7 @@ add_wrapper_module(
   pywrenfold/geometry_wrapper.cc
   pywrenfold/matrix_wrapper.cc
   pywrenfold/numpy_conversion.cc
+  pywrenfold/number_arguments.h
   pywrenfold/numpy_conversion.h
   pywrenfold/scalar_wrapper.cc
   pywrenfold/symbolic_functions_wrapper.cc
diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 5e87a98..30cb541 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -23,6 +23,7 @@
 #include "wf/utility/error_types.h"
 
 #include "docs/matrix_wrapper.h"
+#include "number_arguments.h"
 #include "numpy_conversion.h"
 #include "visitor_wrappers.h"
 #include "wrapper_utils.h"
@@ -464,16 +465,16 @@ void wrap_matrix_operations(py::module_& m) {
           "__rmul__",
           [](const matrix_expr& self, const scalar_expr& other) { return self * other; },
           py::is_operator())
-      .def(py::self * std::int64_t())
-      .def(py::self * double())
-      .def(std::int64_t() * py::self)
-      .def(double() * py::self)
+      .def(py::self * integer_argument())
+      .def(py::self * float_argument())
+      .def(integer_argument() * py::self)
+      .def(float_argument() * py::self)
       // Right divide by scalar:
       .def("__truediv__",
            static_cast<matrix_expr (*)(const matrix_expr&, const scalar_expr&)>(&operator/),
            py::is_operator())
-      .def(py::self / std::int64_t())
-      .def(py::self / double())
+      .def(py::self / integer_argument())
+      .def(py::self / float_argument())
       .def("__neg__", &matrix_expr::operator-, "Element-wise negation of the matrix.")
       // Prohibit conversion to bool.
       .def(
diff --git a/components/wrapper/pywrenfold/number_arguments.h b/components/wrapper/pywrenfold/number_arguments.h
new file mode 100644
index 0000000..ec18bc1
--- /dev/null
+++ b/components/wrapper/pywrenfold/number_arguments.h
@@ -0,0 +1,84 @@
+// wrenfold symbolic code generator.
+// Copyright (c) 2024 Gareth Cross
+// For license information refer to accompanying LICENSE file.
+#pragma once
+#include <cstdint>
+
+#define PY_SSIZE_T_CLEAN
+#include <nanobind/nanobind.h>
+
+#include "wf/expression.h"
+
+namespace wf {
+
+// Python number accepted as an exact integer operand.
+struct integer_argument {
+  std::int64_t value{};
+  operator scalar_expr() const { return scalar_expr{value}; }  // NOLINT
+};
+
+// Python number accepted as a floating point operand.
+struct float_argument {
+  double value{};
+  operator scalar_expr() const { return scalar_expr{value}; }  // NOLINT
+};
+
+}  // namespace wf
+
+namespace nanobind::detail {
+
+// The default caster invokes `int(...)`, which truncates float32, Fraction, Decimal, etc... and
+// parses strings. Here we accept only objects that are integers, ie. which implement `__index__`.
+template <>
+struct type_caster<wf::integer_argument> {
+  NB_TYPE_CASTER(wf::integer_argument, const_name("int"))
+
+  bool from_python(handle src, std::uint8_t flags, cleanup_list*) noexcept {
+    if (!PyLong_CheckExact(src.ptr()) &&
+        !((flags & static_cast<std::uint8_t>(cast_flags::convert)) && PyIndex_Check(src.ptr()))) {
+      return false;
+    }
+    PyObject* const integer = PyNumber_Index(src.ptr());
+    if (!integer) {
+      PyErr_Clear();
+      return false;
+    }
+    int overflow{0};
+    value.value = PyLong_AsLongLongAndOverflow(integer, &overflow);
+    Py_DECREF(integer);
+    return overflow == 0;
+  }
+};
+
+// The default caster invokes `float(...)`, which rounds integers that do not fit in 64 bits, and
+// other exact numbers. Here we accept floats, and types that register as real but not as rational
+// (`numpy.float32` for example).
+template <>
+struct type_caster<wf::float_argument> {
+  NB_TYPE_CASTER(wf::float_argument, const_name("float"))
+
+  bool from_python(handle src, std::uint8_t flags, cleanup_list*) noexcept {
+    if (!PyFloat_Check(src.ptr()) &&
+        !((flags & static_cast<std::uint8_t>(cast_flags::convert)) && is_inexact_real(src))) {
+      return false;
+    }
+    value.value = PyFloat_AsDouble(src.ptr());
+    if (value.value == -1.0 && PyErr_Occurred()) {
+      PyErr_Clear();
+      return false;
+    }
+    return true;
+  }
+
+ private:
+  static bool is_inexact_real(handle src) noexcept {
+    try {
+      const module_ numbers = module_::import_("numbers");
+      return isinstance(src, numbers.attr("Real")) && !isinstance(src, numbers.attr("Rational"));
+    } catch (python_error&) {
+      return false;
+    }
+  }
+};
+
+}  // namespace nanobind::detail
diff --git a/components/wrapper/pywrenfold/scalar_wrapper.cc b/components/wrapper/pywrenfold/scalar_wrapper.cc
index 778b2e9..b3ad394 100644
--- a/components/wrapper/pywrenfold/scalar_wrapper.cc
+++ b/components/wrapper/pywrenfold/scalar_wrapper.cc
@@ -31,6 +31,7 @@
 
 #include "args_visitor.h"
 #include "docs/scalar_wrapper.h"
+#include "number_arguments.h"
 #include "visitor_wrappers.h"
 #include "wrapper_utils.h"
 
@@ -173,8 +174,8 @@ void wrap_scalar_operations(py::module_& m) {
   // Primary expression type:
   wrap_class<scalar_expr>(m, "Expr")
       // Implicit construction from numerics:
-      .def(py::init_implicit<std::int64_t>())
-      .def(py::init_implicit<double>())
+      .def(py::init_implicit<integer_argument>())
+      .def(py::init_implicit<float_argument>())
       // String conversion:
       .def("__repr__", &scalar_expr::to_string)
       .def("expression_tree_str", &scalar_expr::to_expression_tree_string,
@@ -225,10 +226,11 @@ void wrap_scalar_operations(py::module_& m) {
       .def("__pow__", &wf::pow, py::is_operator(), py::arg("other"))
       .def(
           "__pow__",
-          [](const scalar_expr& self, std::int64_t other) { return wf::pow(self, other); },
+          [](const scalar_expr& self, integer_argument other) { return wf::pow(self, other); },
           py::is_operator(), py::arg("other"))
       .def(
-          "__pow__", [](const scalar_expr& self, double other) { return wf::pow(self, other); },
+          "__pow__",
+          [](const scalar_expr& self, float_argument other) { return wf::pow(self, other); },
           py::is_operator(), py::arg("other"))
       .def(
           "__rpow__",
@@ -236,10 +238,11 @@ void wrap_scalar_operations(py::module_& m) {
           py::is_operator(), py::arg("other"))
       .def(
           "__rpow__",
-          [](const scalar_expr& self, const std::int64_t other) { return pow(other, self); },
+          [](const scalar_expr& self, const integer_argument other) { return pow(other, self); },
           py::is_operator(), py::arg("other"))
       .def(
-          "__rpow__", [](const scalar_expr& self, const double other) { return pow(other, self); },
+          "__rpow__",
+          [](const scalar_expr& self, const float_argument other) { return pow(other, self); },
           py::is_operator(), py::arg("other"))
       .def("__abs__", [](const scalar_expr& self) { return abs(self); })
       .def(py::self > py::self)
@@ -247,39 +250,39 @@ void wrap_scalar_operations(py::module_& m) {
       .def(py::self < py::self)
       .def(py::self <= py::self)
       // Operators involving integers
-      .def(py::self + std::int64_t())
-      .def(py::self - std::int64_t())
-      .def(py::self * std::int64_t())
-      .def(py::self / std::int64_t())
-      .def(py::self > std::int64_t())
-      .def(py::self >= std::int64_t())
-      .def(py::self < std::int64_t())
-      .def(py::self <= std::int64_t())
-      .def(std::int64_t() + py::self)
-      .def(std::int64_t() - py::self)
-      .def(std::int64_t() * py::self)
-      .def(std::int64_t() / py::self)
-      .def(std::int64_t() > py::self)
-      .def(std::int64_t() >= py::self)
-      .def(std::int64_t() < py::self)
-      .def(std::int64_t() <= py::self)
+      .def(py::self + integer_argument())
+      .def(py::self - integer_argument())
+      .def(py::self * integer_argument())
+      .def(py::self / integer_argument())
+      .def(py::self > integer_argument())
+      .def(py::self >= integer_argument())
+      .def(py::self < integer_argument())
+      .def(py::self <= integer_argument())
+      .def(integer_argument() + py::self)
+      .def(integer_argument() - py::self)
+      .def(integer_argument() * py::self)
+      .def(integer_argument() / py::self)
+      .def(integer_argument() > py::self)
+      .def(integer_argument() >= py::self)
+      .def(integer_argument() < py::self)
+      .def(integer_argument() <= py::self)
       // Operators involving doubles
-      .def(py::self + double())
-      .def(py::self - double())
-      .def(py::self * double())
-      .def(py::self / double())
-      .def(py::self > double())
-      .def(py::self >= double())
-      .def(py::self < double())
-      .def(py::self <= double())
-      .def(double() + py::self)
-      .def(double() - py::self)
-      .def(double() * py::self)
-      .def(double() / py::self)
-      .def(double() > py::self)
-      .def(double() >= py::self)
-      .def(double() < py::self)
-      .def(double() <= py::self)
+      .def(py::self + float_argument())
+      .def(py::self - float_argument())
+      .def(py::self * float_argument())
+      .def(py::self / float_argument())
+      .def(py::self > float_argument())
+      .def(py::self >= float_argument())
+      .def(py::self < float_argument())
+      .def(py::self <= float_argument())
+      .def(float_argument() + py::self)
+      .def(float_argument() - py::self)
+      .def(float_argument() * py::self)
+      .def(float_argument() / py::self)
+      .def(float_argument() > py::self)
+      .def(float_argument() >= py::self)
+      .def(float_argument() < py::self)
+      .def(float_argument() <= py::self)
       // Override conversion to boolean, so we don't coerce non-boolean expressions.
       .def(
           "__bool__",
@@ -309,18 +312,19 @@ void wrap_scalar_operations(py::module_& m) {
                 "= False, nonnegative: bool = False, complex: bool = False) -> typing.Any"),
         docstrings::symbols.data());
   m.def(
-      "integer", [](const std::int64_t value) { return scalar_expr{value}; }, "value"_a,
+      "integer", [](const integer_argument value) -> scalar_expr { return value; }, "value"_a,
       docstrings::integer.data());
   m.def(
       "float_constant", [](const double value) { return scalar_expr{value}; }, py::arg("value"),
       docstrings::float_constant.data());
   m.def(
       "rational",
-      [](const std::int64_t n, const std::int64_t d) {
-        if (d == 0) {
-          throw wf::arithmetic_error("Rational denominator must be non-zero: {} / {}", n, d);
+      [](const integer_argument n, const integer_argument d) {
+        if (d.value == 0) {
+          throw wf::arithmetic_error("Rational denominator must be non-zero: {} / {}", n.value,
+                                     d.value);
         }
-        return scalar_expr{rational_constant{n, d}};
+        return scalar_expr{rational_constant{n.value, d.value}};
       },
       py::arg("n"), py::arg("d"), docstrings::rational.data());
   m.def("unique_symbols", &create_unique_variables, py::arg("count"), py::arg("real") = false,
-- 
2.43.0


From 8c20ee73508f7bbc3850d960c342ae534d00d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 10/42] fix: do not drop a float coefficient of the target in
 partial substitutions

Replacing x + y + 2.5 by w in x + y + 3 produced w + 3, and replacing
2.5*x*y by w in 3*x*y produced 3*w: the float coefficient of the target was
never deducted. Only proceed when the float coefficients match exactly, as is
already done when the input holds a float.
---
 components/core/wf/substitute.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 23f7a47..6ba8130 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -105,7 +105,8 @@ struct substitute_add_visitor
     // Create map representation for the input:
     addition_parts input_parts{candidate};
 
-    if (std::holds_alternative<float_constant>(input_parts.coeff)) {
+    if (std::holds_alternative<float_constant>(input_parts.coeff) ||
+        std::holds_alternative<float_constant>(target_parts.coeff)) {
       if (input_parts.coeff != target_parts.coeff) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
@@ -157,7 +158,8 @@ struct substitute_mul_visitor
     // TODO: Should we just store multiplications pre-factored in this format?
     multiplication_parts input_parts{candidate, true};
 
-    if (std::holds_alternative<float_constant>(input_parts.coeff())) {
+    if (std::holds_alternative<float_constant>(input_parts.coeff()) ||
+        std::holds_alternative<float_constant>(target_parts.coeff())) {
       if (input_parts.coeff() != target_parts.coeff()) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
-- 
2.43.0


From 60350d411865da25d9ce298d58404fb58da6ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 11/42] fix: leave products alone when the substitution target
 does not fit once

Replacing x*y in sqrt(x)*y inserted the replacement with a power of zero, which
is undefined when the replacement is zero.
---
 components/core/wf/substitute.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 6ba8130..94780b4 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -209,6 +209,10 @@ struct substitute_mul_visitor
 
     // Deduct the replaced expression from the input:
     const integer_constant max_valid_exponent = max_valid_integer_exponent.value();
+    if (max_valid_exponent.is_zero()) {
+      // The target does not fit into the input even once.
+      return input_expression;
+    }
     for (const auto& [base, exponent] : target_parts.terms()) {
       auto it = input_parts.terms().find(base);
       WF_ASSERT(it != input_parts.terms().end());
-- 
2.43.0


From e9ddb36e7a9b2ffb996cdf70e3fb651762677460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 12/42] fix: honour the documented order of substitution pairs

subs([(x, y), (y, z)]) took the unordered fast path and left y behind: only the
replacement was compared with earlier targets, not the target with earlier
replacements. An element of a function result can also be altered by an earlier
substitution, so it is only eligible as the first target.
---
 components/core/wf/substitute.cc | 19 +++++++++++++++++++
 components/core/wf/substitute.h  |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 94780b4..3f38fa4 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -3,11 +3,13 @@
 // For license information refer to accompanying LICENSE file.
 #include "wf/substitute.h"
 
+#include <algorithm>
 #include <unordered_map>
 
 #include "wf/expression_cache.h"
 #include "wf/expression_visitor.h"
 #include "wf/expressions/compound_expression_element.h"
+#include "wf/expressions/custom_type_expressions.h"
 #include "wf/expressions/variable.h"
 #include "wf/matrix_expression.h"
 
@@ -345,6 +347,16 @@ bool substitute_variables_visitor::add_substitution(scalar_expr target, scalar_e
   }
 }
 
+bool substitute_variables_visitor::may_produce_or_alter(const scalar_expr& target) const {
+  // The result of a function call may itself contain the targets we replace.
+  const compound_expression_element* const element =
+      get_if<const compound_expression_element>(target);
+  const bool is_alterable = element && !element->provenance().is_type<custom_type_argument>();
+  return std::any_of(substitutions_.begin(), substitutions_.end(), [&](const auto& pair) {
+    return is_alterable || pair.second.is_identical_to(target);
+  });
+}
+
 bool substitute_variables_visitor::contains_target_variable(const scalar_expr& target) const {
   return substitutions_.contains(target);
 }
@@ -392,6 +404,8 @@ struct is_leaf_visitor {
 // To be eligible for the faster unordered substitution path:
 //  - All targets must be variables (or compound expression elements).
 //  - All replacements must be leaf nodes, and no replacement can be found in the target list.
+//  - Targets that contain other expressions (elements of the result of a function) must not come
+//    after a substitution that could alter them.
 template <typename X>
 static bool is_valid_for_unordered_subs(const X& target, const X& replacement,
                                         const substitute_variables_visitor& visitor,
@@ -408,6 +422,11 @@ static bool is_valid_for_unordered_subs(const X& target, const X& replacement,
       // operand list.
       return false;
     }
+
+    if (visitor.may_produce_or_alter(target)) {
+      // An earlier substitution creates or modifies this target, so the order matters.
+      return false;
+    }
   }
 
   // Check if the replacement is a leaf node:
diff --git a/components/core/wf/substitute.h b/components/core/wf/substitute.h
index 6d909f8..9f1ef38 100644
--- a/components/core/wf/substitute.h
+++ b/components/core/wf/substitute.h
@@ -29,6 +29,9 @@ class substitute_variables_visitor {
   // True if `target` is something we will replace.
   bool contains_target_variable(const scalar_expr& target) const;
 
+  // True if a substitution we already perform may produce or modify `target`.
+  bool may_produce_or_alter(const scalar_expr& target) const;
+
   // Apply the substitute variable visitor. The cache is checked first.
   scalar_expr operator()(const scalar_expr& expression);
   matrix_expr operator()(const matrix_expr& expression);
-- 
2.43.0


From 836b3471b85f0421591d1069e57366fc1b9caa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 13/42] fix: do not substitute again inside the replacement
 after a partial match

Replacing x**2 by x**2 + 1 in x**4 produced (x**2 + 2)**2: after a partial
match the replacement was searched for the target as well, which does not happen
after an exact match.
---
 components/core/wf/substitute.cc | 100 ++++++++++++++++---------------
 1 file changed, 52 insertions(+), 48 deletions(-)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 3f38fa4..f66f61c 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -4,6 +4,7 @@
 #include "wf/substitute.h"
 
 #include <algorithm>
+#include <optional>
 #include <unordered_map>
 
 #include "wf/expression_cache.h"
@@ -22,6 +23,12 @@
 
 namespace wf {
 
+// Result of a partial substitution: what is left of the input, and the replaced part.
+struct partial_match {
+  scalar_expr remainder;
+  scalar_expr replaced;
+};
+
 // Visitor that performs a substitution.
 // TargetExpressionType is the concrete type of the expression we are replacing.
 template <typename Derived, typename TargetConcreteExpressionType,
@@ -50,22 +57,14 @@ struct substitute_visitor_base {
       }
 
       if constexpr (Derived::performs_partial_substitution) {
-        // The derived type supports looking for partial matches, so try that:
-        scalar_expr partial_sub =
-            static_cast<Derived&>(*this).attempt_partial(input_expression, other);
-
-        // Irrespective of whether that succeeded, one of the children may still contain the
-        // expression we are searching for as well:
-        return visit(partial_sub, [this, &partial_sub](const auto& arg) {
-          using T = std::decay_t<decltype(arg)>;
-          if constexpr (T::is_leaf_node) {
-            // This type has no children, so return the input expression unmodified:
-            return partial_sub;
-          } else {
-            // This type does have children, so apply to all of them:
-            return arg.map_children(static_cast<Derived&>(*this));
-          }
-        });
+        // The derived type supports looking for partial matches, so try that. Only the part of the
+        // input that was not replaced may still contain the expression we are searching for (the
+        // replacement itself must not be searched again).
+        if (const auto match = static_cast<Derived&>(*this).attempt_partial(other);
+            match.has_value()) {
+          const auto& [remainder, replaced] = *match;
+          return Derived::combine(operator()(remainder), replaced);
+        }
       }
     }
     // If these expressions don't match, and the target has no sub-expressions, we can stop here.
@@ -102,8 +101,11 @@ struct substitute_add_visitor
   substitute_add_visitor(const addition& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement), target_parts(target) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression,
-                              const addition& candidate) const {
+  static scalar_expr combine(const scalar_expr& remainder, const scalar_expr& replaced) {
+    return remainder + replaced;
+  }
+
+  std::optional<partial_match> attempt_partial(const addition& candidate) const {
     // Create map representation for the input:
     addition_parts input_parts{candidate};
 
@@ -112,7 +114,7 @@ struct substitute_add_visitor
       if (input_parts.coeff != target_parts.coeff) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
-        return input_expression;
+        return std::nullopt;
       } else {
         // The float components match, so subtract it out and proceed w/ the rest of the
         // replacement:
@@ -125,7 +127,7 @@ struct substitute_add_visitor
       auto it = input_parts.terms.find(target_mul);
       if (it == input_parts.terms.end() || !it->second.is_identical_to(target_coeff)) {
         // One of the terms in the target is missing in the input, so we can't substitute:
-        return input_expression;
+        return std::nullopt;
       }
       input_parts.terms.erase(it);  //  Remove it from the input.
     }
@@ -135,9 +137,8 @@ struct substitute_add_visitor
       input_parts.add_terms(-std::visit([](auto x) { return scalar_expr(x); }, target_parts.coeff));
     }
 
-    // Add in the replacement and build a new addition:
-    input_parts.add_terms(replacement_);
-    return input_parts.create_addition();
+    // Build an addition out of what remains:
+    return partial_match{input_parts.create_addition(), replacement_};
   }
 
  private:
@@ -154,8 +155,11 @@ struct substitute_mul_visitor
   substitute_mul_visitor(const multiplication& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement), target_parts(target, true) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression,
-                              const multiplication& candidate) const {
+  static scalar_expr combine(const scalar_expr& remainder, const scalar_expr& replaced) {
+    return remainder * replaced;
+  }
+
+  std::optional<partial_match> attempt_partial(const multiplication& candidate) const {
     // Take this multiplication and break it into constituent parts.
     // TODO: Should we just store multiplications pre-factored in this format?
     multiplication_parts input_parts{candidate, true};
@@ -165,7 +169,7 @@ struct substitute_mul_visitor
       if (input_parts.coeff() != target_parts.coeff()) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
-        return input_expression;
+        return std::nullopt;
       } else {
         // The float components match, so divide it out and proceed w/ the rest of the replacement:
         input_parts.coeff() = integer_constant{1};
@@ -178,7 +182,7 @@ struct substitute_mul_visitor
     for (const auto& [base, exponent] : target_parts.terms()) {
       const auto it = input_parts.terms().find(base);
       if (it == input_parts.terms().end()) {
-        return input_expression;
+        return std::nullopt;
       }
 
       // See how many times we can divide term into the target expression
@@ -205,7 +209,7 @@ struct substitute_mul_visitor
         }
       } else {
         // If we can't get an integer multiple, this division won't work.
-        return input_expression;
+        return std::nullopt;
       }
     }
 
@@ -213,7 +217,7 @@ struct substitute_mul_visitor
     const integer_constant max_valid_exponent = max_valid_integer_exponent.value();
     if (max_valid_exponent.is_zero()) {
       // The target does not fit into the input even once.
-      return input_expression;
+      return std::nullopt;
     }
     for (const auto& [base, exponent] : target_parts.terms()) {
       auto it = input_parts.terms().find(base);
@@ -221,15 +225,9 @@ struct substitute_mul_visitor
       it->second = it->second - (exponent * max_valid_exponent.value());
     }
 
-    // Insert the replacement
-    const scalar_expr replacement_exp(max_valid_exponent);
-    if (const auto [it, was_inserted] = input_parts.terms().emplace(replacement_, replacement_exp);
-        !was_inserted) {
-      it->second = it->second + replacement_exp;
-    }
-
     input_parts.normalize_coefficients();
-    return std::move(input_parts).create_multiplication();
+    return partial_match{std::move(input_parts).create_multiplication(),
+                         power::create(replacement_, scalar_expr(max_valid_exponent))};
   }
 
  protected:
@@ -246,14 +244,18 @@ struct substitute_pow_visitor
   substitute_pow_visitor(const power& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression, const power& candidate) const {
+  static scalar_expr combine(const scalar_expr& remainder, const scalar_expr& replaced) {
+    return remainder * replaced;
+  }
+
+  std::optional<partial_match> attempt_partial(const power& candidate) const {
     const scalar_expr& target_base = target_.base();
     const scalar_expr& target_exponent = target_.exponent();
     const scalar_expr& candidate_base = candidate.base();
 
     // If the bases don't match, there can't be a valid substitution:
     if (!target_base.is_identical_to(candidate_base)) {
-      return input_expression;
+      return std::nullopt;
     }
 
     // If the exponent is an addition, it might contain a multiple of our target exponent.
@@ -273,22 +275,23 @@ struct substitute_pow_visitor
           parts.terms.erase(it);
           // Put the exponent back together and swap in the replacement:
           scalar_expr new_exponent = parts.create_addition();
-          return power::create(replacement_, ratio) * power::create(candidate_base, new_exponent);
+          return partial_match{power::create(candidate_base, new_exponent),
+                               power::create(replacement_, ratio)};
         } else if (const rational_constant* const as_rational =
                        get_if<const rational_constant>(ratio);
                    as_rational != nullptr) {
           const auto [int_part, _] = as_rational->normalized();
           if (int_part.is_zero()) {
             // If int_part is zero, the rest of this logic just wastes time.
-            return input_expression;
+            return std::nullopt;
           }
           // Subtract the integer part from the exponent.
           // For example, this would handle the replacement:
           // x**(4/3*y + z) replacing [x**y -> w] producing w * x**(1/3y + z)
           it->second = it->second - target_exp_coeff * int_part.value();
           scalar_expr new_exponent = parts.create_addition();
-          return power::create(replacement_, int_part.value()) *
-                 power::create(candidate_base, new_exponent);
+          return partial_match{power::create(candidate_base, new_exponent),
+                               power::create(replacement_, int_part.value())};
         }
       }
     } else {
@@ -297,21 +300,22 @@ struct substitute_pow_visitor
       const scalar_expr multiple = candidate.exponent() / target_exponent;
       if (const integer_constant* const as_int = get_if<const integer_constant>(multiple);
           as_int != nullptr) {
-        return power::create(replacement_, multiple);
+        return partial_match{constants::one, power::create(replacement_, multiple)};
       } else if (const rational_constant* const as_rational =
                      get_if<const rational_constant>(multiple);
                  as_rational != nullptr) {
         const auto [int_part, frac_remainder] = as_rational->normalized();
         if (int_part.is_zero()) {
           // Can't do a full division
-          return input_expression;
+          return std::nullopt;
         }
-        return power::create(replacement_, int_part.value()) *
-               power::create(candidate_base, target_exponent * scalar_expr(frac_remainder));
+        return partial_match{
+            power::create(candidate_base, target_exponent * scalar_expr(frac_remainder)),
+            power::create(replacement_, int_part.value())};
       }
     }
 
-    return input_expression;
+    return std::nullopt;
   }
 };
 
-- 
2.43.0


From e0bfda2a375e05efc03bc44c06925f00f9717447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 14/42] fix: replace a product with a float coefficient at most
 once

2.5*x**2*y**2 became w**2 when 2.5*x*y was replaced by w, although the float
coefficient is present only once.
---
 components/core/wf/substitute.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index f66f61c..311593b 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -219,6 +219,11 @@ struct substitute_mul_visitor
       // The target does not fit into the input even once.
       return std::nullopt;
     }
+    if (std::holds_alternative<float_constant>(target_parts.coeff()) &&
+        max_valid_exponent != integer_constant{1}) {
+      // The float coefficient is present exactly once.
+      return std::nullopt;
+    }
     for (const auto& [base, exponent] : target_parts.terms()) {
       auto it = input_parts.terms().find(base);
       WF_ASSERT(it != input_parts.terms().end());
-- 
2.43.0


From 453ccc0a1723a55d2da99d19ae2b23c9e9fc0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:18 +0000
Subject: [PATCH 15/42] fix: evaluate functions of floor, sign and indicator
 results

cosh(floor(2*pi)) stayed symbolic under eval(), because the integer produced by
floor(6.28...) was not converted to a float before the outer function saw it.
---
 components/core/wf/evaluate.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/evaluate.cc b/components/core/wf/evaluate.cc
index 029c791..99b756d 100644
--- a/components/core/wf/evaluate.cc
+++ b/components/core/wf/evaluate.cc
@@ -14,7 +14,14 @@ X evaluate_visitor::operator()(const T& input_typed, const X& input) {
   } else if constexpr (T::is_leaf_node) {
     return input;
   } else {
-    return input_typed.map_children(*this);
+    X result = input_typed.map_children(*this);
+    if constexpr (std::is_same_v<X, scalar_expr>) {
+      if (result.template is_type<integer_constant, rational_constant, symbolic_constant>()) {
+        // Some functions of floats produce exact values, for example `floor` and `sign`.
+        return operator()(result);
+      }
+    }
+    return result;
   }
 }
 
-- 
2.43.0


From 927964eb01a246537227b28e650a951a5fad2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:18 +0000
Subject: [PATCH 16/42] fix: distribute a power whose exponent expands to zero

The exponent may only become zero once it has been expanded, which tripped an
internal assertion, e.g. ((1 + x)**((x + 1)*(x - 1) - x**2 + 1)).distribute().
---
 components/core/wf/distribute.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/distribute.cc b/components/core/wf/distribute.cc
index 79323da..266b2d0 100644
--- a/components/core/wf/distribute.cc
+++ b/components/core/wf/distribute.cc
@@ -37,7 +37,8 @@ scalar_expr distribute_visitor::operator()(const power& pow) {
 
   // If the base is an addition, we should expand the power.
   if (b.is_type<addition>()) {
-    if (const integer_constant* exp_int = get_if<const integer_constant>(e); exp_int != nullptr) {
+    if (const integer_constant* exp_int = get_if<const integer_constant>(e);
+        exp_int != nullptr && !exp_int->is_zero()) {
       const checked_int abs_exp = abs(exp_int->value());
 
       scalar_expr distributed = distribute_power(std::move(b), static_cast<std::uint64_t>(abs_exp));
-- 
2.43.0


From 2d290285b0ae730dead8b705fa95093373fbf248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 17/42] fix: expand powers of sums that arise while multiplying
 terms

((1 + x)**y + 2)*((1 + x)**(2 - y) + z) kept (1 + x)**2: only products that
contained a sum were expanded again, not powers of one.
---
 components/core/wf/distribute.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/distribute.cc b/components/core/wf/distribute.cc
index 266b2d0..c5a20c1 100644
--- a/components/core/wf/distribute.cc
+++ b/components/core/wf/distribute.cc
@@ -100,6 +100,20 @@ static absl::Span<const scalar_expr> expression_as_span(const scalar_expr& x) no
   }
 }
 
+// True for sums, and for powers of sums that `distribute_visitor` expands.
+static bool is_expandable(const scalar_expr& x) {
+  const auto [base, exp] = as_base_and_exp(x);
+  if (!base.is_type<addition>()) {
+    return false;
+  }
+  if (const integer_constant* exp_int = get_if<const integer_constant>(exp); exp_int != nullptr) {
+    return exp_int->is_positive();
+  }
+  const rational_constant* exp_rational = get_if<const rational_constant>(exp);
+  return exp_rational != nullptr && exp_rational->denominator() == 2 &&
+         exp_rational->numerator() > 1;
+}
+
 scalar_expr distribute_visitor::distribute_multiplied_terms(const scalar_expr& a,
                                                             const scalar_expr& b) {
   const auto span_a = expression_as_span(a);
@@ -110,8 +124,9 @@ scalar_expr distribute_visitor::distribute_multiplied_terms(const scalar_expr& a
   for (const scalar_expr& x : span_a) {
     for (const scalar_expr& y : span_b) {
       scalar_expr product = x * y;
-      if (const multiplication* m = get_if<const multiplication>(product);
-          m != nullptr && any_of(*m, [&](const scalar_expr& z) { return z.is_type<addition>(); })) {
+      const multiplication* const m = get_if<const multiplication>(product);
+      if ((m != nullptr && any_of(*m, &is_expandable)) ||
+          (product.is_type<power>() && is_expandable(product))) {
         // This can occur if powers combine to form new additions in the product we just built.
         // For example: y * (1 + x)**(1/2) * (1 + x)**(1/2) --> y*(1 + x)
         // So we distribute again:
-- 
2.43.0


From c883aa7f235826aef98774cbf3516f0b0e374318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 18/42] fix: assign whole structs to output arguments

An output argument of custom type may be set to an input argument, or to the
result of an external function, in which case the converted value is not a
construct_custom_type and dereferencing it failed an assertion. In Rust, input
structs are references, so they are cloned when assigned or returned.
---
 components/core/wf/code_generation/ast.h      |  5 +++--
 .../core/wf/code_generation/ast_conversion.cc |  3 +--
 .../wf/code_generation/rust_code_generator.cc | 22 ++++++++++++-------
 components/wrapper/pywrenfold/ast_wrapper.cc  |  5 ++---
 4 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/components/core/wf/code_generation/ast.h b/components/core/wf/code_generation/ast.h
index b8c3f95..2520f3f 100644
--- a/components/core/wf/code_generation/ast.h
+++ b/components/core/wf/code_generation/ast.h
@@ -277,11 +277,12 @@ struct assign_output_matrix {
 };
 
 // Assign to an output argument that is a custom struct.
-// Out of alphabetical order, but needs the definition of `construct_custom_type` to be visible.
+// The value is usually `construct_custom_type`, but it may also be an argument, or the result of an
+// external function call.
 struct assign_output_struct {
   static constexpr std::string_view snake_case_name_str = "assign_output_struct";
   argument arg;
-  construct_custom_type value;
+  ast_element value;
 };
 
 // Describe a function signature.
diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 3a2df5b..31fce79 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -141,8 +141,7 @@ void ast_form_visitor::push_back_output_operations(const ir::const_block_ptr blo
                 *arg, *get_if<construct_matrix>(converted_value));
           },
           [&](const custom_type&) {
-            emplace_operation<ast::assign_output_struct>(
-                *arg, *get_if<construct_custom_type>(converted_value));
+            emplace_operation<ast::assign_output_struct>(*arg, std::move(converted_value));
           });
     }
   }
diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 88e30c1..f1962c5 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -161,8 +161,17 @@ std::string rust_code_generator::operator()(const ast::assign_output_scalar& x)
   return fmt::format("*{} = {};", x.arg.name(), make_view(x.value));
 }
 
+static bool is_get_argument_with_custom_type(const ast::ast_element& var) {
+  if (const auto get = ast::get_if<ast::get_argument>(var); get.has_value()) {
+    return get->arg.is_custom_type();
+  }
+  return false;
+}
+
 std::string rust_code_generator::operator()(const ast::assign_output_struct& x) const {
-  return fmt::format("*{} = {};", x.arg.name(), make_view(x.value));
+  // Input structs are passed by reference, so they must be copied.
+  return fmt::format("*{} = {}{};", x.arg.name(), make_view(x.value),
+                     is_get_argument_with_custom_type(x.value) ? ".clone()" : "");
 }
 
 std::string rust_code_generator::operator()(const ast::assign_temporary& x) const {
@@ -183,13 +192,6 @@ std::string rust_code_generator::operator()(const ast::branch& x) const {
   return result;
 }
 
-static bool is_get_argument_with_custom_type(const ast::ast_element& var) {
-  if (const auto get = ast::get_if<ast::get_argument>(var); get.has_value()) {
-    return get->arg.is_custom_type();
-  }
-  return false;
-}
-
 std::string rust_code_generator::operator()(const ast::call_external_function& x) const {
   WF_ASSERT_EQ(x.args.size(), x.function.num_arguments());
   std::string result = x.function.name();
@@ -362,6 +364,10 @@ std::string rust_code_generator::operator()(const ast::optional_output_branch& x
 }
 
 std::string rust_code_generator::operator()(const ast::return_object& x) const {
+  if (is_get_argument_with_custom_type(x.value)) {
+    // Input structs are passed by reference, so they must be copied.
+    return fmt::format("{}.clone()", make_view(x.value));
+  }
   return operator()(x.value);
 }
 
diff --git a/components/wrapper/pywrenfold/ast_wrapper.cc b/components/wrapper/pywrenfold/ast_wrapper.cc
index 86b58a0..d29bb01 100644
--- a/components/wrapper/pywrenfold/ast_wrapper.cc
+++ b/components/wrapper/pywrenfold/ast_wrapper.cc
@@ -176,9 +176,8 @@ void wrap_ast(py::module_& m) {
   map.at<ast::assign_output_struct>()
       .def_prop_ro(
           "arg", [](const ast::assign_output_struct& x) { return x.arg; }, "Destination argument.")
-      .def_prop_ro(
-          "value", [](const ast::assign_output_struct& x) -> const auto& { return x.value; },
-          py::rv_policy::reference_internal, "``ConstructCustomType`` specifying values to assign.")
+      .def_prop_ro("value", to_inner_accessor(&ast::assign_output_struct::value),
+                   py::rv_policy::reference, py::keep_alive<0, 1>(), "Struct value to assign.")
       .doc() = "Assign a struct to an output argument.";
 
   map.at<ast::boolean_literal>()
-- 
2.43.0


From f98ccd0ace3eab1796ffd6e3f88eaa40092fb92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 19/42] fix: cast integral arguments of standard library
 functions

Integral arguments (literals, integer arguments, results of floor) were passed
to functions like sin or floor unconverted. The result is rejected by the Rust
compiler and by PyTorch, and is not of the requested float width in NumPy.
---
 components/core/wf/code_generation/ir_form_visitor.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/code_generation/ir_form_visitor.cc b/components/core/wf/code_generation/ir_form_visitor.cc
index 3bd44bc..095af4b 100644
--- a/components/core/wf/code_generation/ir_form_visitor.cc
+++ b/components/core/wf/code_generation/ir_form_visitor.cc
@@ -199,8 +199,15 @@ static numeric_primitive_type std_function_output_type(const std_math_function f
 ir::value_ptr ir_form_visitor::operator()(const built_in_function_invocation& func) {
   const std_math_function enum_value = std_math_function_from_built_in(func.enum_value());
 
-  // Convert args to values:
-  auto args = transform_map<absl::InlinedVector<ir::value_ptr, 4>>(func, *this);
+  // Convert args to values. With the exception of `abs` (which adopts the type of its argument),
+  // standard library functions operate on floating point values.
+  auto args = transform_map<absl::InlinedVector<ir::value_ptr, 4>>(
+      func, [this, enum_value](const scalar_expr& arg) {
+        const ir::value_ptr value = operator()(arg);
+        return enum_value == std_math_function::abs
+                   ? value
+                   : maybe_cast(value, numeric_primitive_type::floating_point);
+      });
 
   const numeric_primitive_type numeric_type = std_function_output_type(enum_value, args);
   return push_operation(ir::call_std_function{enum_value}, numeric_type, args);
-- 
2.43.0


From 947759e9470720f0ab9486201154144816710374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 20/42] fix: emit constants as tensors when targeting PyTorch

Python scalars are not accepted by th.stack, or by functions such as th.sin.
---
 .../wf/code_generation/python_code_generator.cc  | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index cead274..9656aa0 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -456,12 +456,8 @@ std::string python_code_generator::operator()(const ast::divide& x) const {
 }
 
 std::string python_code_generator::operator()(const ast::float_literal& x) const {
-  if (target_ == python_generator_target::numpy || target_ == python_generator_target::jax) {
-    return format_scalar_type_cast(target_, fmt::format("{}", x.value),
-                                   numeric_primitive_type::floating_point, float_width_);
-  } else {
-    return fmt::format("{}", x.value);
-  }
+  return format_scalar_type_cast(target_, fmt::format("{}", x.value),
+                                 numeric_primitive_type::floating_point, float_width_);
 }
 
 std::string python_code_generator::operator()(const ast::get_argument& x) const {
@@ -522,12 +518,8 @@ std::string python_code_generator::operator()(const ast::return_object&) const {
 std::string python_code_generator::operator()(const ast::special_constant& x) const {
   const auto constant = fmt::format("{}.{}", python_module_prefix_from_target(target_),
                                     x.value == symbolic_constant_enum::euler ? "e" : "pi");
-  if (target_ == python_generator_target::numpy || target_ == python_generator_target::jax) {
-    return format_scalar_type_cast(target_, constant, numeric_primitive_type::floating_point,
-                                   float_width_);
-  } else {
-    return constant;
-  }
+  return format_scalar_type_cast(target_, constant, numeric_primitive_type::floating_point,
+                                 float_width_);
 }
 
 std::string python_code_generator::operator()(const ast::ternary& x) const {
-- 
2.43.0


From a794337ed3b43012ecfa4223164f7797459aaf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 21/42] fix: emit th.pow when targeting PyTorch

There is no th.power.
---
 .../core/wf/code_generation/python_code_generator.cc       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index 9656aa0..c84697f 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -359,7 +359,7 @@ std::string python_code_generator::operator()(const ast::call_external_function&
 }
 
 constexpr static std::string_view python_string_from_std_math_function(
-    const std_math_function function) {
+    const std_math_function function, const python_generator_target target) {
   switch (function) {
     case std_math_function::cos:
     case std_math_function::sin:
@@ -400,7 +400,8 @@ constexpr static std::string_view python_string_from_std_math_function(
     }
     case std_math_function::powi:
     case std_math_function::powf: {
-      return "power";
+      // `power` does not exist in PyTorch.
+      return target == python_generator_target::pytorch ? "pow" : "power";
     }
   }
   WF_ASSERT_ALWAYS("Unhandled standard math function: {}",
@@ -409,7 +410,7 @@ constexpr static std::string_view python_string_from_std_math_function(
 
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
-                     python_string_from_std_math_function(x.function),
+                     python_string_from_std_math_function(x.function, target_),
                      fmt::join(x.args | std::views::transform(*this), ", "));
 }
 
-- 
2.43.0


From a4cebf3759a43e79b16daf77a085f2714e499e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 22/42] fix: only give trailing optional output arguments a
 default value

With use_output_arguments=True, a required argument after an optional one made
the generated function invalid python.
---
 .../wf/code_generation/python_code_generator.cc    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index c84697f..e64ae1e 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -3,6 +3,8 @@
 // For license information refer to accompanying LICENSE file.
 #include "wf/code_generation/python_code_generator.h"
 
+#include <algorithm>
+#include <iterator>
 #include <ranges>
 #include <span>
 
@@ -233,7 +235,14 @@ std::string python_code_generator::operator()(const ast::function_signature& sig
   std::vector<std::string> args{};
   args.reserve(signature.num_arguments());
 
-  for (const auto& arg : signature.arguments()) {
+  // Optional output arguments may only receive a default value if no required argument follows.
+  const auto& arguments = signature.arguments();
+  const auto last_required = std::find_if(arguments.rbegin(), arguments.rend(),
+                                          [](const auto& arg) { return !arg.is_optional(); });
+  const std::size_t num_without_default =
+      static_cast<std::size_t>(std::distance(last_required, arguments.rend()));
+
+  for (const auto& arg : arguments) {
     const auto formatted_type = std::visit(*this, arg.type());
     if (arg.direction() == argument_direction::input) {
       args.push_back(fmt::format("{}: {}", arg.name(), formatted_type));
@@ -243,7 +252,8 @@ std::string python_code_generator::operator()(const ast::function_signature& sig
       }
     } else if (arg.direction() == argument_direction::optional_output) {
       if (use_output_arguments_) {
-        args.push_back(fmt::format("{}: {} | None = None", arg.name(), formatted_type));
+        args.push_back(fmt::format("{}: {} | None{}", arg.name(), formatted_type,
+                                   args.size() < num_without_default ? "" : " = None"));
       } else {
         args.push_back(fmt::format("compute_{}: bool", arg.name()));
       }
-- 
2.43.0


From 20c22b13a3d5a1d15004940b0457f4a69eec9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 23/42] fix: emit integer constants as tensors when targeting
 PyTorch

Integral variables assigned from a literal, and comparisons of literals, were
not tensors, which th.abs and th.where do not accept.
---
 .../core/wf/code_generation/python_code_generator.cc   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index e64ae1e..20fc83b 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -425,6 +425,11 @@ std::string python_code_generator::operator()(const ast::call_std_function& x) c
 }
 
 std::string python_code_generator::operator()(const ast::cast& x) const {
+  if (const auto literal = ast::get_if<ast::integer_literal>(x.arg); literal.has_value()) {
+    // Don't cast twice, we can convert to the destination type directly.
+    return format_scalar_type_cast(target_, fmt::format("{}", literal->value), x.destination_type,
+                                   float_width_);
+  }
   return format_scalar_type_cast(target_, operator()(x.arg), x.destination_type, float_width_);
 }
 
@@ -484,6 +489,11 @@ std::string python_code_generator::operator()(const ast::get_matrix_element& x)
 }
 
 std::string python_code_generator::operator()(const ast::integer_literal& x) const {
+  if (target_ == python_generator_target::pytorch) {
+    // PyTorch functions (th.abs, th.where, etc) only operate on tensors.
+    return format_scalar_type_cast(target_, fmt::format("{}", x.value),
+                                   numeric_primitive_type::integral, float_width_);
+  }
   return fmt::format("{}", x.value);
 }
 
-- 
2.43.0


From 23344f706df3e48b9d0810e1ac26e374609c60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 24/42] fix: parenthesize conditionals that are operands of
 other operations

When conditionals are not converted to control flow, C++ emitted a + c ? x : y
for the sum of a and a conditional (and Rust a < if c {x} else {y}).
---
 components/core/wf/code_generation/ast_conversion.cc | 11 ++++++-----
 components/core/wf/enumerations.h                    |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 31fce79..257afd1 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -414,8 +414,8 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::ca
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::compare& compare) {
   return ast::ast_element{std::in_place_type_t<ast::compare>{}, compare.operation(),
-                          visit_operation_argument(val[0], std::nullopt),
-                          visit_operation_argument(val[1], std::nullopt)};
+                          visit_operation_argument(val[0], precedence::relational),
+                          visit_operation_argument(val[1], precedence::relational)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val,
@@ -426,10 +426,11 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val,
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::cond&) {
+  // Operations in the operands are always placed in parentheses, for legibility.
   return ast::ast_element{std::in_place_type_t<ast::ternary>{},
-                          visit_operation_argument(val[0], precedence::ternary),
-                          visit_operation_argument(val[1], precedence::ternary),
-                          visit_operation_argument(val[2], precedence::ternary)};
+                          visit_operation_argument(val[0], precedence::power),
+                          visit_operation_argument(val[1], precedence::power),
+                          visit_operation_argument(val[2], precedence::power)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::copy&) {
diff --git a/components/core/wf/enumerations.h b/components/core/wf/enumerations.h
index 115e5b0..f1ffdf4 100644
--- a/components/core/wf/enumerations.h
+++ b/components/core/wf/enumerations.h
@@ -13,11 +13,11 @@ using index_t = int;
 
 // Mathematical precedence of operators.
 enum class precedence : int {
-  relational = 0,
+  ternary = 0,
+  relational,
   addition,
   multiplication,
   power,
-  ternary,
   none = std::numeric_limits<int>::max(),
 };
 
-- 
2.43.0


From 29508e1d62b689f2a32169707a0a2fba43fd6dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 25/42] fix: parenthesize signum when it is an operand of
 another operation

---
 components/core/wf/code_generation/ast_conversion.cc | 6 +++++-
 components/core/wf/code_generation/ir_value.cc       | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 257afd1..a87e883 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -403,8 +403,12 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val,
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val,
                                               const ir::call_std_function& func) {
+  // Some languages implement `signum` by comparing the argument to zero.
+  const std::optional<precedence> parent_precedence =
+      func.name() == std_math_function::signum ? std::make_optional(precedence::relational)
+                                               : std::nullopt;
   return ast::ast_element{std::in_place_type_t<ast::call_std_function>{}, func.name(),
-                          transform_operands(val, std::nullopt)};
+                          transform_operands(val, parent_precedence)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::cast& cast) {
diff --git a/components/core/wf/code_generation/ir_value.cc b/components/core/wf/code_generation/ir_value.cc
index 993a3d2..029b736 100644
--- a/components/core/wf/code_generation/ir_value.cc
+++ b/components/core/wf/code_generation/ir_value.cc
@@ -36,6 +36,10 @@ precedence value::operation_precedence() const {
       [](const ir::mul&) constexpr { return precedence::multiplication; },
       [](const ir::div&) constexpr { return precedence::multiplication; },
       [](const ir::cond&) constexpr { return precedence::ternary; },
+      [](const ir::call_std_function& func) constexpr {
+        // Some languages implement `signum` as the difference of two comparisons.
+        return func.name() == std_math_function::signum ? precedence::addition : precedence::none;
+      },
       [](const auto&) constexpr { return precedence::none; });
 }
 
-- 
2.43.0


From 8753b0a906922b5ac64f88eeb9e6e01dddfd5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 26/42] fix: parenthesize conditionals that are elements of a
 matrix

---
 components/core/wf/code_generation/ast_conversion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index a87e883..0e39cb0 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -424,7 +424,9 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::co
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val,
                                               const ir::construct& construct) {
-  type_constructor constructor{transform_operands(val, std::nullopt)};
+  // Elements of matrices (including those in the fields of custom types) may be inserted with the
+  // `<<` operator, which binds tighter than conditionals.
+  type_constructor constructor{transform_operands(val, precedence::relational)};
   return std::visit([&](const auto& x) { return ast::ast_element(constructor(x)); },
                     construct.type());
 }
-- 
2.43.0


From 9f223db2772559a897f673339b02f49834e9dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 27/42] fix: parenthesize negative literals and negations that
 are negated

---
 components/core/wf/code_generation/ast_conversion.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 0e39cb0..5f36e63 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -520,8 +520,13 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::mu
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::neg&) {
-  return ast::ast_element{std::in_place_type_t<ast::negate>{},
-                          visit_operation_argument(val[0], precedence::multiplication)};
+  ast::ast_element arg = visit_operation_argument(val[0], precedence::multiplication);
+  // Two consecutive minus signs are the decrement operator in some languages.
+  const auto literal = ast::get_if<ast::integer_literal>(arg);
+  if (ast::get_if<ast::negate>(arg) || (literal.has_value() && literal->value < 0)) {
+    arg = ast::ast_element{std::in_place_type_t<parenthetical>{}, std::move(arg)};
+  }
+  return ast::ast_element{std::in_place_type_t<ast::negate>{}, std::move(arg)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const scalar_type&, const argument& arg,
-- 
2.43.0


From 337cf447b15e20825d84c73f1937c0c5f3ade657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 28/42] fix: compute products and sums of integer literals with
 64 bits in C++

---
 .../wf/code_generation/cpp_code_generator.cc  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index dadd09d..60648d7 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -176,8 +176,27 @@ std::string cpp_code_generator::operator()(const ast::function_signature& signat
   return result;
 }
 
+// True if `element` is assembled from integer literals of type `int` only.
+static bool is_integer_literal(const ast::ast_element& element) {
+  if (const auto p = ast::get_if<ast::parenthetical>(element); p.has_value()) {
+    return is_integer_literal(p->contents);
+  } else if (const auto n = ast::get_if<ast::negate>(element); n.has_value()) {
+    return is_integer_literal(n->arg);
+  }
+  return ast::get_if<ast::integer_literal>(element).has_value();
+}
+
+// If the first two operands are integer literals, widen the first of them so that the result is
+// not computed with `int`.
+template <typename Container>
+static std::string_view widening_prefix(const Container& args) {
+  return args.size() >= 2 && is_integer_literal(args[0]) && is_integer_literal(args[1])
+             ? "static_cast<std::int64_t>(1) * "
+             : "";
+}
+
 std::string cpp_code_generator::operator()(const ast::add& x) const {
-  return join(" + ", x.args, *this);
+  return fmt::format("{}{}", widening_prefix(x.args), join(" + ", x.args, *this));
 }
 
 std::string cpp_code_generator::operator()(const ast::assign_output_matrix& x) const {
@@ -378,7 +397,7 @@ static constexpr std::string_view cpp_string_for_symbolic_constant(
 }
 
 std::string cpp_code_generator::operator()(const ast::multiply& x) const {
-  return join(" * ", x.args, *this);
+  return fmt::format("{}{}", widening_prefix(x.args), join(" * ", x.args, *this));
 }
 
 std::string cpp_code_generator::operator()(const ast::negate& x) const {
-- 
2.43.0


From f900b57d07f04d9c587d038a7d97cb9ab46d6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 29/42] fix: cast integral exponents to the scalar type in C++

---
 components/core/wf/code_generation/cpp_code_generator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index 60648d7..6d22147 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -293,6 +293,9 @@ std::string cpp_code_generator::operator()(const ast::call_std_function& x) cons
     case std_math_function::atan2:
       return fmt::format("std::atan2({}, {})", make_view(x[0]), make_view(x[1]));
     case std_math_function::powi:
+      // With an integral exponent the result would be promoted to double.
+      return fmt::format("std::pow({}, static_cast<Scalar>({}))", make_view(x[0]),
+                         make_view(x[1]));
     case std_math_function::powf:
       return fmt::format("std::pow({}, {})", make_view(x[0]), make_view(x[1]));
     default:
-- 
2.43.0


From 4f2daff3db1452f51381d672c0ce17c23c06d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 30/42] fix: raise to integral powers with powf in Rust

---
 components/core/wf/code_generation/rust_code_generator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index f1962c5..a5cf785 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -242,8 +242,10 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
                          fmt::arg("arg", make_view(x[0])));
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
-    case std_math_function::atan2:
     case std_math_function::powi:
+      // Integers are 64 bits wide, but the exponent of `powi` is an i32.
+      return fmt::format("({}).powf(({}) as f64)", make_view(x[0]), make_view(x[1]));
+    case std_math_function::atan2:
     case std_math_function::powf:
       return fmt::format("({}).{}({})", make_view(x[0]),
                          string_from_standard_library_function(x.function), make_view(x[1]));
-- 
2.43.0


From a54b907eaa52df216dfb1e08e804e3d4ac448d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 31/42] fix: parenthesise casts in the signum and negation of
 generated Rust

---
 .../core/wf/code_generation/rust_code_generator.cc   | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index a5cf785..d845da1 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -238,7 +238,12 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
     case std_math_function::log:
       return fmt::format("({}).ln()", make_view(x[0]));
     case std_math_function::signum:
-      return fmt::format("(0.0f64 < {arg}) as i64 - ({arg} < 0.0f64) as i64",
+      if (ast::get_if<ast::variable_ref>(x[0])) {
+        return fmt::format("(0.0f64 < {arg}) as i64 - ({arg} < 0.0f64) as i64",
+                           fmt::arg("arg", make_view(x[0])));
+      }
+      // The argument may end in a cast, and `as f64 < ...` parses as a list of generic arguments.
+      return fmt::format("(0.0f64 < {arg}) as i64 - (({arg}) < 0.0f64) as i64",
                          fmt::arg("arg", make_view(x[0])));
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
@@ -355,6 +360,11 @@ std::string rust_code_generator::operator()(const ast::multiply& x) const {
 }
 
 std::string rust_code_generator::operator()(const ast::negate& x) const {
+  if (const auto cast = ast::get_if<ast::cast>(x.arg);
+      cast.has_value() && cast->source_type == numeric_primitive_type::boolean) {
+    // Negation binds more tightly than `as`.
+    return fmt::format("-({})", make_view(x.arg));
+  }
   return fmt::format("-{}", make_view(x.arg));
 }
 
-- 
2.43.0


From 569e9a513a870369f54513a84a2643fd3b04a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 32/42] fix: negative index combined with a slice of a matrix

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 30cb541..2db6f9a 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -151,7 +151,7 @@ matrix_expr matrix_get_row_and_col_slice(const matrix_expr& self,
 matrix_expr matrix_get_row_index_and_col_slice(
     const matrix_expr& self, const std::tuple<index_t, py::slice>& row_and_col_slice) {
   const auto [row, col_slice] = row_and_col_slice;
-  const index_t wrapped_row = row < 0 ? self.rows() - row : row;
+  const index_t wrapped_row = row < 0 ? self.rows() + row : row;
   const slice col_index{self.cols(), col_slice};
 
   std::vector<scalar_expr> elements;
@@ -166,7 +166,7 @@ matrix_expr matrix_get_row_index_and_col_slice(
 matrix_expr matrix_get_row_slice_and_col_index(
     const matrix_expr& self, const std::tuple<py::slice, index_t>& row_slice_and_col) {
   const auto [row_slice, col] = row_slice_and_col;
-  const index_t wrapped_col = col < 0 ? self.cols() - col : col;
+  const index_t wrapped_col = col < 0 ? self.cols() + col : col;
   const slice row_index{self.rows(), row_slice};
 
   std::vector<scalar_expr> elements;
-- 
2.43.0


From 09519e5c1672153837aa104087df52cbaf194552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 33/42] fix: division by zero in the construction of a matrix
 from empty rows

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 2db6f9a..05f9161 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -233,6 +233,10 @@ inline matrix_expr stack_iterables(const std::vector<py::object>& rows) {
     }
   }
 
+  if (expected_num_cols == 0) {
+    throw dimension_error("Cannot construct a matrix from rows that have no columns.");
+  }
+
   // Figure out how many rows we extracted:
   WF_ASSERT_EQ(0, converted.size() % expected_num_cols);
   const auto total_rows = static_cast<index_t>(converted.size() / expected_num_cols);
-- 
2.43.0


From f18ccbf453ab91e221a2ac6f2c9a5bb7014e50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 34/42] fix: integer overflow in the bounds checks and sizes of
 matrices

---
 components/core/wf/expressions/matrix.cc | 3 ++-
 components/core/wf/matrix_expression.cc  | 3 ++-
 components/core/wf/matrix_functions.cc   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/matrix.cc b/components/core/wf/expressions/matrix.cc
index 7ddbb95..8c1e89d 100644
--- a/components/core/wf/expressions/matrix.cc
+++ b/components/core/wf/expressions/matrix.cc
@@ -21,7 +21,8 @@ matrix::matrix(const index_t rows, const index_t cols, container_type data)
 
 matrix matrix::get_block(const index_t row, const index_t col, const index_t nrows,
                          const index_t ncols) const {
-  if (row < 0 || row + nrows > rows_ || col < 0 || col + ncols > cols_) {
+  // When `row` and `col` are non-negative, the differences cannot overflow.
+  if (row < 0 || nrows > rows_ - row || col < 0 || ncols > cols_ - col) {
     throw dimension_error(
         "Block [position: ({}, {}), size: ({}, {})] is out of bounds for matrix of shape ({}, {})",
         row, col, nrows, ncols, rows_, cols_);
diff --git a/components/core/wf/matrix_expression.cc b/components/core/wf/matrix_expression.cc
index c01f283..078b2ff 100644
--- a/components/core/wf/matrix_expression.cc
+++ b/components/core/wf/matrix_expression.cc
@@ -57,7 +57,8 @@ matrix_expr matrix_expr::reshape(index_t nrows, index_t ncols) const {
   if (static_cast<std::size_t>(nrows) * static_cast<std::size_t>(ncols) != size()) {
     throw dimension_error(
         "Reshaped dimensions [{} x {} = {}] does not match number of input elements [{} x {} = {}]",
-        nrows, ncols, nrows * ncols, rows(), cols(), size());
+        nrows, ncols, static_cast<std::size_t>(nrows) * static_cast<std::size_t>(ncols), rows(), cols(),
+        size());
   }
   return create(nrows, ncols, to_vector());
 }
diff --git a/components/core/wf/matrix_functions.cc b/components/core/wf/matrix_functions.cc
index a8359b6..6a481c0 100644
--- a/components/core/wf/matrix_functions.cc
+++ b/components/core/wf/matrix_functions.cc
@@ -32,7 +32,8 @@ matrix_expr make_zeros(index_t rows, index_t cols) {
     throw dimension_error("Cannot construct zero matrix with shape: ({}, {})", rows, cols);
   }
   // Eventually we might have a symbolic zero matrix, and this won't be required.
-  std::vector<scalar_expr> data(static_cast<std::size_t>(rows * cols), constants::zero);
+  std::vector<scalar_expr> data(static_cast<std::size_t>(rows) * static_cast<std::size_t>(cols),
+                                constants::zero);
   return matrix_expr::create(rows, cols, std::move(data));
 }
 
-- 
2.43.0


From fd347630dd2b004483f69997e9a0581051199e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 35/42] fix: factorization and norm of empty matrices

---
 components/core/wf/matrix_expression.cc | 3 +++
 components/core/wf/matrix_functions.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/components/core/wf/matrix_expression.cc b/components/core/wf/matrix_expression.cc
index 078b2ff..9e87190 100644
--- a/components/core/wf/matrix_expression.cc
+++ b/components/core/wf/matrix_expression.cc
@@ -70,6 +70,9 @@ scalar_expr matrix_expr::squared_norm() const {
   for (const auto& x : m) {
     operands.push_back(pow(x, 2));
   }
+  if (operands.empty()) {
+    return constants::zero;
+  }
   return addition::from_operands(operands);
 }
 
diff --git a/components/core/wf/matrix_functions.cc b/components/core/wf/matrix_functions.cc
index 6a481c0..7f7b827 100644
--- a/components/core/wf/matrix_functions.cc
+++ b/components/core/wf/matrix_functions.cc
@@ -376,6 +376,9 @@ factorize_full_piv_lu_internal(const matrix& A) {
         "Factorization of matrices with more rows than columns is not supported yet. `A` has shape "
         "[{}, {}]",
         A.rows(), A.cols());
+  } else if (A.size() == 0) {
+    throw dimension_error("Cannot factorize an empty matrix. `A` has shape [{}, {}]", A.rows(),
+                          A.cols());
   } else {
     // We copy A and then use this as storage for the output `U`.
     std::vector<scalar_expr> U_storage{A.begin(), A.end()};
-- 
2.43.0


From ebe279163b9a69cd8108d2a75b4e88adee79c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 36/42] fix: printing of terms and powers whose coefficient
 cannot be negated, and of calls without arguments

---
 .../core/wf/expressions/multiplication.cc     | 14 +++++++++++++-
 components/core/wf/plain_formatter.cc         | 19 ++++++++++---------
 components/core/wf/tree_formatter.cc          |  3 +++
 components/core/wf/utility_visitors.cc        | 12 ++++++++++++
 components/core/wf/utility_visitors.h         |  4 ++++
 5 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/components/core/wf/expressions/multiplication.cc b/components/core/wf/expressions/multiplication.cc
index a633691..ba054d2 100644
--- a/components/core/wf/expressions/multiplication.cc
+++ b/components/core/wf/expressions/multiplication.cc
@@ -315,6 +315,12 @@ multiplication_format_parts get_formatting_info(const multiplication& mul) {
     // Extract rationals:
     if (const rational_constant* const rational = get_if<const rational_constant>(expr);
         rational != nullptr) {
+      if (!is_negation_representable(expr)) {
+        // The absolute value cannot be represented, so the sign remains on the numerator.
+        result.numerator.emplace_back(integer_constant{rational->numerator()});
+        result.denominator.emplace_back(integer_constant{rational->denominator()});
+        continue;
+      }
       if (const auto abs_num = abs(rational->numerator()); abs_num != 1) {
         // Don't put redundant ones into the numerator for rationals of the form 1/n.
         result.numerator.emplace_back(integer_constant{abs_num});
@@ -327,6 +333,10 @@ multiplication_format_parts get_formatting_info(const multiplication& mul) {
       }
     } else if (const integer_constant* const integer = get_if<const integer_constant>(expr);
                integer != nullptr) {
+      if (!is_negation_representable(expr)) {
+        result.numerator.emplace_back(*integer);
+        continue;
+      }
       if (integer->value() != 1 && integer->value() != -1) {
         result.numerator.emplace_back(integer->abs());
       }
@@ -344,7 +354,9 @@ multiplication_format_parts get_formatting_info(const multiplication& mul) {
       // Sort into numerator and denominator, depending on sign of the exponent:
       const auto [coeff, _] = as_coeff_and_mul(exponent);
       // See if the exponent seems negative:
-      if (const bool is_negative_exp = is_negative_number(coeff); is_negative_exp) {
+      if (const bool is_negative_exp =
+              is_negative_number(coeff) && is_negation_representable(coeff);
+          is_negative_exp) {
         if (is_negative_one(exponent)) {
           result.denominator.emplace_back(power{std::move(base), constants::one});
         } else {
diff --git a/components/core/wf/plain_formatter.cc b/components/core/wf/plain_formatter.cc
index e476886..2021434 100644
--- a/components/core/wf/plain_formatter.cc
+++ b/components/core/wf/plain_formatter.cc
@@ -65,7 +65,8 @@ std::string plain_formatter::operator()(const addition& add) {
   });
 
   for (std::size_t i = 0; i < terms.size(); ++i) {
-    if (const auto [coeff, multiplicand] = as_coeff_and_mul(terms[i]); is_negative_number(coeff)) {
+    if (const auto [coeff, multiplicand] = as_coeff_and_mul(terms[i]);
+        is_negative_number(coeff) && is_negation_representable(coeff)) {
       if (i == 0) {
         // For the first term, just negate it:
         output += "-";
@@ -148,10 +149,10 @@ std::string plain_formatter::operator()(const external_function_invocation& invo
   auto it = invocation.begin();
   if (it != invocation.end()) {
     output += operator()(*it);
-  }
-  for (++it; it != invocation.end(); ++it) {
-    output += ", ";
-    output += operator()(*it);
+    for (++it; it != invocation.end(); ++it) {
+      output += ", ";
+      output += operator()(*it);
+    }
   }
   output += ")";
   return output;
@@ -289,10 +290,10 @@ std::string plain_formatter::operator()(const built_in_function_invocation& func
   auto it = func.begin();
   if (it != func.end()) {
     output += operator()(*it);
-  }
-  for (++it; it != func.end(); ++it) {
-    output += ", ";
-    output += operator()(*it);
+    for (++it; it != func.end(); ++it) {
+      output += ", ";
+      output += operator()(*it);
+    }
   }
   output += ")";
   return output;
diff --git a/components/core/wf/tree_formatter.cc b/components/core/wf/tree_formatter.cc
index 0b0a9ff..023196d 100644
--- a/components/core/wf/tree_formatter.cc
+++ b/components/core/wf/tree_formatter.cc
@@ -225,6 +225,9 @@ void tree_formatter_visitor::visit_right(const T& expr) {
 template <typename Container>
 void tree_formatter_visitor::visit_all(const Container& container) {
   auto it = container.begin();
+  if (it == container.end()) {
+    return;  // There may be no children, eg. an invocation of a function that has no arguments.
+  }
   for (; std::next(it) != container.end(); ++it) {
     visit_left(*it);
   }
diff --git a/components/core/wf/utility_visitors.cc b/components/core/wf/utility_visitors.cc
index 538beec..893e8e9 100644
--- a/components/core/wf/utility_visitors.cc
+++ b/components/core/wf/utility_visitors.cc
@@ -3,6 +3,7 @@
 // For license information refer to accompanying LICENSE file.
 #include "wf/utility_visitors.h"
 
+#include <limits>
 #include <unordered_set>
 
 #include "wf/expression_iteration.h"
@@ -50,6 +51,17 @@ bool is_negative_number(const scalar_expr& expr) {
   return visit(expr, is_negative_number_visitor{});
 }
 
+bool is_negation_representable(const scalar_expr& expr) {
+  constexpr auto min_value = std::numeric_limits<checked_int::value_type>::min();
+  if (const integer_constant* const i = get_if<const integer_constant>(expr); i != nullptr) {
+    return i->value() != min_value;
+  } else if (const rational_constant* const r = get_if<const rational_constant>(expr);
+             r != nullptr) {
+    return r->numerator() != min_value;
+  }
+  return true;
+}
+
 // Visitor that recursively traverses the expression tree and extracts all expressions that match
 // the provided predicate.
 template <typename Predicate>
diff --git a/components/core/wf/utility_visitors.h b/components/core/wf/utility_visitors.h
index bb63838..1f5ca98 100644
--- a/components/core/wf/utility_visitors.h
+++ b/components/core/wf/utility_visitors.h
@@ -16,6 +16,10 @@ bool is_numeric(const scalar_expr& expr);
 // negative when evaluated.
 bool is_negative_number(const scalar_expr& expr);
 
+// False if `expr` is an integer or rational constant that cannot be negated, because the result
+// would not be representable. True for everything else.
+bool is_negation_representable(const scalar_expr& expr);
+
 // Return all expressions that match the provided predicate.
 // The predicate is invoked on each unique sub-expression exactly once.
 std::vector<scalar_expr> get_expressions_by_predicate(
-- 
2.43.0


From fa5aab93ecf6dc9156c3a5f0eb32f3d24696b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 37/42] fix: names of symbols converted to SymPy, and
 conditions of the last piece of a Piecewise converted from SymPy

---
 components/python/wrenfold/sympy_conversion.py    | 9 ++++++---
 components/wrapper/pywrenfold/sympy_conversion.cc | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/components/python/wrenfold/sympy_conversion.py b/components/python/wrenfold/sympy_conversion.py
index d12c3b7..b5f9aa9 100644
--- a/components/python/wrenfold/sympy_conversion.py
+++ b/components/python/wrenfold/sympy_conversion.py
@@ -116,11 +116,14 @@ class Conversions:
         """
         if len(expr.args) == 2:
             # If the output values are one and zero, this is equivalent to the iverson bracket.
-            (true_val, cond), (false_val, _) = expr.args
-            if true_val == 1 and false_val == 0:
+            (true_val, cond), (false_val, last_cond) = expr.args
+            if true_val == 1 and false_val == 0 and last_cond == self.sp.true:
                 return sym.iverson(self(cond))
 
-        output = self(expr.args[-1][0])
+        output, last_cond = self(expr.args[-1][0]), expr.args[-1][1]
+        if last_cond != self.sp.true:
+            # The piecewise function is undefined where none of the conditions hold.
+            output = sym.where(self(last_cond), output, sym.nan)
         for val, cond in reversed(expr.args[:-1]):
             output = sym.where(self(cond), self(val), output)
         return output
diff --git a/components/wrapper/pywrenfold/sympy_conversion.cc b/components/wrapper/pywrenfold/sympy_conversion.cc
index 0d652fd..e263078 100644
--- a/components/wrapper/pywrenfold/sympy_conversion.cc
+++ b/components/wrapper/pywrenfold/sympy_conversion.cc
@@ -206,7 +206,7 @@ class sympy_conversion_visitor {
   }
 
   py::object operator()(const variable& var) const {
-    return invoke_sympy_object("symbols", var.name(), **get_variable_kwargs(var.set()));
+    return invoke_sympy_object("Symbol", var.name(), **get_variable_kwargs(var.set()));
   }
 
   template <typename T>
-- 
2.43.0


From 0cd501b6d7d8bf4294479c55374c39259654e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 38/42] fix: to_sympy raised for conditionals between values
 that cannot be ordered

---
 components/wrapper/pywrenfold/sympy_conversion.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/sympy_conversion.cc b/components/wrapper/pywrenfold/sympy_conversion.cc
index e263078..ba46fed 100644
--- a/components/wrapper/pywrenfold/sympy_conversion.cc
+++ b/components/wrapper/pywrenfold/sympy_conversion.cc
@@ -74,10 +74,14 @@ class sympy_conversion_visitor {
   py::object operator()(const conditional& cond) {
     const auto& x = cond.if_branch();
     const auto& y = cond.else_branch();
-    if (cond.condition().is_identical_to(y < x)) {
+    // Compare to the operands directly: constructing `y < x` throws if either cannot be ordered.
+    const relational* const rel = get_if<const relational>(cond.condition());
+    const bool is_less_than =
+        rel != nullptr && rel->operation() == relational_operation::less_than;
+    if (is_less_than && rel->left().is_identical_to(y) && rel->right().is_identical_to(x)) {
       // max(...)
       return invoke_sympy_object("Max", operator()(x), operator()(y), "evaluate"_a = evaluate_);
-    } else if (cond.condition().is_identical_to(x < y)) {
+    } else if (is_less_than && rel->left().is_identical_to(x) && rel->right().is_identical_to(y)) {
       // min(...)
       return invoke_sympy_object("Min", operator()(x), operator()(y), "evaluate"_a = evaluate_);
     }
-- 
2.43.0


From 1a4c56d967987eb4728243f46331fcdd96209095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 39/42] fix: syntax nodes, and the spans of them, could outlive
 the function definition that owns them

---
 components/wrapper/pywrenfold/ast_wrapper.cc | 21 ++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/components/wrapper/pywrenfold/ast_wrapper.cc b/components/wrapper/pywrenfold/ast_wrapper.cc
index d29bb01..56a263d 100644
--- a/components/wrapper/pywrenfold/ast_wrapper.cc
+++ b/components/wrapper/pywrenfold/ast_wrapper.cc
@@ -55,7 +55,7 @@ auto to_inner(const ast::ast_element& element) {
 // Create a lambda that accepts `StructType` and retrieves `member`, then invokes `to_inner` to
 // convert that member to a handle.
 template <typename StructType>
-auto to_inner_accessor(ast::ast_element StructType::* member) {
+auto to_inner_accessor(ast::ast_element StructType::*member) {
   return [member](const StructType& self) { return to_inner(self.*member); };
 }
 
@@ -121,7 +121,8 @@ void wrap_ast(py::module_& m) {
           "__iter__",
           [](const ast_element_span& self) {
             return py::make_iterator(py::type<ast_element_span>(), "iterator",
-                                     ast_span_iterator::begin(self), ast_span_iterator::end(self));
+                                     ast_span_iterator::begin(self), ast_span_iterator::end(self),
+                                     py::keep_alive<0, 1>());
           },
           py::keep_alive<0, 1>())
       .def(
@@ -192,10 +193,11 @@ void wrap_ast(py::module_& m) {
                    "Condition governing which branch to take.")
       .def_prop_ro(
           "if_branch", [](const ast::branch& c) -> ast_element_span { return c.if_branch; },
-          py::rv_policy::reference_internal, "Statements that evaluate when the condition is true.")
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
+          "Statements that evaluate when the condition is true.")
       .def_prop_ro(
           "else_branch", [](const ast::branch& c) -> ast_element_span { return c.else_branch; },
-          py::rv_policy::reference_internal,
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
           "Statements that evaluate when the condition is false.")
       .doc() = "Emit an if-else statement: ``if (condition) { ... } else { ... }``";
 
@@ -203,7 +205,7 @@ void wrap_ast(py::module_& m) {
       .def_prop_ro("function", [](const ast::call_external_function& c) { return c.function; })
       .def_prop_ro(
           "args", [](const ast::call_external_function& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal)
+          py::rv_policy::reference, py::keep_alive<0, 1>())
       .doc() = "Invoke a user-provided external function.";
 
   map.at<ast::call_std_function>()
@@ -212,7 +214,7 @@ void wrap_ast(py::module_& m) {
           "The function being invoked.")
       .def_prop_ro(
           "args", [](const ast::call_std_function& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal, "Arguments to the function.")
+          py::rv_policy::reference, py::keep_alive<0, 1>(), "Arguments to the function.")
       .doc() = "Invoke a standard library math function.";
 
   map.at<ast::cast>()
@@ -245,7 +247,8 @@ void wrap_ast(py::module_& m) {
           "Describe dimensions of the matrix.")
       .def_prop_ro(
           "args", [](const ast::construct_matrix& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal, "Contents of the matrix, in row-major order.")
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
+          "Contents of the matrix, in row-major order.")
       .doc() = "Construct a matrix from a list of statements.";
 
   map.at<ast::construct_custom_type>()
@@ -348,6 +351,7 @@ void wrap_ast(py::module_& m) {
           [](const ast::optional_output_branch& self) -> ast_element_span {
             return self.statements;
           },
+          py::rv_policy::reference, py::keep_alive<0, 1>(),
           "Statements that are relevant when the optional argument is present.")
       .doc() =
       "Conditionally assign values to an optional output argument: ``if (<argument exists>) { ... "
@@ -399,7 +403,8 @@ void wrap_ast(py::module_& m) {
       .def_prop_ro(
           "body",
           [](const ast::function_definition& self) -> ast_element_span { return self.body(); },
-          "Statements that make up the body of the function.", py::rv_policy::reference_internal)
+          "Statements that make up the body of the function.", py::rv_policy::reference,
+          py::keep_alive<0, 1>())
       .doc() =
       "Define a generated function. This is the top level object of the emitted syntax tree.";
 }
-- 
2.43.0


From 1edf37f608aa0d32c90cf56b92b80b2ed374ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 40/42] fix: FunctionDescription.arguments referred to memory
 that adding an argument releases

---
 components/wrapper/pywrenfold/codegen_wrapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/wrapper/pywrenfold/codegen_wrapper.cc b/components/wrapper/pywrenfold/codegen_wrapper.cc
index 2684ecd..cefe1c1 100644
--- a/components/wrapper/pywrenfold/codegen_wrapper.cc
+++ b/components/wrapper/pywrenfold/codegen_wrapper.cc
@@ -148,7 +148,8 @@ void wrap_codegen_operations(py::module_& m) {
   py::class_<function_description>(m, "FunctionDescription")
       .def(py::init<std::string>(), py::arg("name"), "Construct with function name.")
       .def_prop_ro("name", &function_description::name, "Name of the function.")
-      .def_prop_ro("arguments", &function_description::arguments, "Arguments to the function.")
+      .def_prop_ro("arguments", &function_description::arguments, py::rv_policy::copy,
+                   "Arguments to the function.")
       .def("__repr__",
            [](const function_description& self) {
              return fmt::format("FunctionDescription('{}', {} args)", self.name(),
-- 
2.43.0


From 3e4d92e7e7ff4511f57ea6285cae313eaac55203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 41/42] fix: create_symbols recursed without limit on a string
 that is not valid UTF-8 and on a list that contains itself

---
 components/wrapper/pywrenfold/scalar_wrapper.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/components/wrapper/pywrenfold/scalar_wrapper.cc b/components/wrapper/pywrenfold/scalar_wrapper.cc
index b3ad394..d80537b 100644
--- a/components/wrapper/pywrenfold/scalar_wrapper.cc
+++ b/components/wrapper/pywrenfold/scalar_wrapper.cc
@@ -85,6 +85,20 @@ static std::variant<scalar_expr, py::list> create_symbols_from_str(const std::st
 // Traverse the provided iterable, inspecting elements. If the inner element is a
 // string, then parse it into symbols. If the inner element is an iterable, recurse on it.
 static py::list create_symbols_from_str(const py::iterable& iterable, const number_set set) {
+  if (py::isinstance<py::str>(iterable)) {
+    // A string that cannot be encoded as UTF-8. Its elements are strings as well, so we would never
+    // stop recursing on them.
+    throw py::type_error("Symbol names must be valid UTF-8.");
+  }
+  // The iterable may contain itself.
+  if (Py_EnterRecursiveCall(" while creating symbols") != 0) {
+    throw py::python_error();
+  }
+  struct leave_recursive_call {
+    ~leave_recursive_call() { Py_LeaveRecursiveCall(); }
+  };
+  [[maybe_unused]] const leave_recursive_call guard{};
+
   py::list result{};
   for (const py::handle& handle : iterable) {
     // Each element of the iterable could be a string, or a nested iterable:
-- 
2.43.0


From 412cc53480ed367e77ff1b4369fd9a2255af5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 42/42] fix: reject struct fields whose matrix has a different
 shape than declared

---
 components/python/wrenfold/custom_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/python/wrenfold/custom_types.py b/components/python/wrenfold/custom_types.py
index faac525..493716c 100644
--- a/components/python/wrenfold/custom_types.py
+++ b/components/python/wrenfold/custom_types.py
@@ -206,6 +206,11 @@ def map_expressions_out_of_custom_type(
                     f"Expected field `{field.name}` on type `{custom_type.name}` to be an "
                     f"instance of sym.MatrixExpr, but found `{type(value)}`."
                 )
+            if tuple(value.shape) != tuple(field.type.shape):
+                raise TypeError(
+                    f"Expected field `{field.name}` on type `{custom_type.name}` to have shape "
+                    f"{field.type.shape}, but found shape {value.shape}."
+                )
             expressions.extend(value.to_flat_list())
         else:
             expressions += map_expressions_out_of_custom_type(value, custom_type=field.type)
-- 
2.43.0

