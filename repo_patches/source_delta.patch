From b8a86f0bca19c4be2e23bc61dc292ed51ba4d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 01/66] fix: Uint(1) and Uint(128) are valid types

Widths in [1, uint_max_width] are accepted by the analyzer and documented,
but constructing these types raised an internal error, and masks for a width
of 128 were computed with an undefined shift.
---
 src/bms/concrete_type.hpp  | 6 +++---
 src/bms/concrete_value.hpp | 7 ++++---
 src/bms/value.hpp          | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bms/concrete_type.hpp b/src/bms/concrete_type.hpp
index fcbcd48..5fb0129 100644
--- a/src/bms/concrete_type.hpp
+++ b/src/bms/concrete_type.hpp
@@ -45,7 +45,7 @@ struct Concrete_Type {
     [[nodiscard]] static constexpr Concrete_Type Uint(int width)
     {
         BIT_MANIPULATION_ASSERT(width <= uint_max_width);
-        BIT_MANIPULATION_ASSERT(width > 1);
+        BIT_MANIPULATION_ASSERT(width >= 1);
         return Concrete_Type { Type_Type::Uint, width };
     }
 
@@ -59,7 +59,7 @@ public:
         , m_width(width)
     {
         BIT_MANIPULATION_ASSERT(type == Type_Type::Uint || width == 0);
-        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width < uint_max_width));
+        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width <= uint_max_width));
     }
 
     [[nodiscard]] friend constexpr bool operator<=>(Concrete_Type, Concrete_Type) = default;
@@ -97,7 +97,7 @@ public:
         case Type_Type::Int: return Big_Uint(-1);
         case Type_Type::Uint:
             return m_width == std::numeric_limits<Big_Uint>::digits
-                ? 0
+                ? Big_Uint(-1)
                 : Big_Uint(Big_Uint(1) << m_width) - 1;
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown type.");
diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 9849edd..b1df7a4 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -50,8 +50,10 @@ public:
         }
         if (other.is_uint()) {
             const auto truncated = Big_Uint(int_value) & other.get_mask();
+            // Negative integers must be tested for separately because for `Uint(128)`, the mask
+            // covers all bits, and truncation leaves even negative integers unchanged.
             if (conversion == Conversion_Type::lossless_numeric
-                && truncated != Big_Uint(int_value)) {
+                && (int_value < 0 || truncated != Big_Uint(int_value))) {
                 return Evaluation_Error_Code::int_to_uint_range_error;
             }
             return Concrete_Value { other, Big_Int(truncated) };
@@ -62,8 +64,7 @@ public:
     constexpr Concrete_Value transform_uint(Big_Uint f(Big_Uint)) const
     {
         BIT_MANIPULATION_ASSERT(type.is_uint());
-        const auto mask = Big_Uint(Big_Uint(1) << type.width()) - 1;
-        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & mask) };
+        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & type.get_mask()) };
     }
 };
 
diff --git a/src/bms/value.hpp b/src/bms/value.hpp
index 73d9238..f9e72df 100644
--- a/src/bms/value.hpp
+++ b/src/bms/value.hpp
@@ -103,8 +103,8 @@ public:
     constexpr Value and_then_uint(F f) const
     {
         if (is_known()) {
-            const auto mask = Big_Uint(Big_Uint(1) << m_type.width()) - 1;
-            return Value { m_type, Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & mask) };
+            return Value { m_type,
+                           Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & m_type.get_mask()) };
         }
         return *this;
     }
-- 
2.43.0


From 91dad41c914882315aac6992721078be65552e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 02/66] fix: divide unsigned integers as unsigned

---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4013e27..29d4aea 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -375,6 +375,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             if (rhs.int_value == 0) {
                 return Evaluation_Error_Code::division_by_zero;
             }
+            if (lhs.type.is_uint()) {
+                // Values of `Uint(128)` may exceed the range of `Big_Int`.
+                return op == Expression_Type::division
+                    ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
+                    : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
-- 
2.43.0


From 79808e47ee68a22ad98b98818d6b2c4a17703842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 03/66] fix: evaluate == and != for operands of type Bool

These pass type checking, but the evaluation raised an internal error.
---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 29d4aea..3954fa2 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -404,6 +404,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         if (op == logical_or) {
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value || rhs.int_value) };
         }
+        if (op == equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
+        }
+        if (op == not_equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+        }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Bool operation not caught by type-check.");
     }
 
-- 
2.43.0


From 3a42fc2117b878f0a2a8cd89e0c368041c897ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 04/66] fix: report shifts by the operand width or more when
 evaluating

The analyzer reports these when only the right operand is known, but the
evaluation of concrete values shifted nevertheless, which is undefined for
operands of 128 or more.
---
 src/bms/evaluation/operations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 3954fa2..a4b34a7 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -436,6 +436,10 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
     }
 
     case Type_Type::Uint: {
+        if ((op == shift_left || op == shift_right)
+            && Big_Uint(rhs.int_value) >= Big_Uint(lhs.type.width())) {
+            return Evaluation_Error_Code::shift_too_much;
+        }
         switch (op) {
         case less_than: //
             return compare_uint([](Big_Uint x, Big_Uint y) { return x < y; });
-- 
2.43.0


From 88b29d8447150300fcc7872ddd9d52271dba9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 05/66] fix: partially known operations with a known Uint right
 operand

Dividing or shifting an unknown Uint by a constant raised an internal error
because the constant, which has been converted to Uint, was treated as Int.
---
 src/bms/evaluation/operations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index a4b34a7..3eca9a5 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -537,11 +537,13 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
         using enum Expression_Type;
-        if ((op == division || op == remainder) && rhs.as_int() == 0) {
+        // At this point, both operands have the same type, which may be `Int` or `Uint`.
+        const Big_Int rhs_value = rhs.concrete_value().int_value;
+        if ((op == division || op == remainder) && rhs_value == 0) {
             return Evaluation_Error_Code::division_by_zero;
         }
         if ((op == shift_left || op == shift_right)
-            && (rhs.as_int() < 0 || rhs.as_int() >= lhs.get_type().width())) {
+            && Big_Uint(rhs_value) >= Big_Uint(lhs.get_type().width())) {
             return Evaluation_Error_Code::shift_too_much;
         }
     }
-- 
2.43.0


From f8497d3150605cd0233bc3dbbd54a80d2cbc2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 06/66] fix: report Int overflow instead of undefined behavior

Int is meant to be of infinite precision, but it is evaluated with 128 bits.
Overflowing that range was undefined behavior.
---
 src/bms/evaluation/evaluation_error.hpp |  5 ++++-
 src/bms/evaluation/operations.cpp       | 27 +++++++++++++++++++++----
 src/common/diagnostics.cpp              |  2 ++
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/bms/evaluation/evaluation_error.hpp b/src/bms/evaluation/evaluation_error.hpp
index aaf807f..a807157 100644
--- a/src/bms/evaluation/evaluation_error.hpp
+++ b/src/bms/evaluation/evaluation_error.hpp
@@ -17,7 +17,9 @@ enum struct Evaluation_Error_Code : Default_Underlying {
     /// @brief An assertion failed.
     assertion_fail,
     /// @brief Conversion from Int to Uint would lose information.
-    int_to_uint_range_error
+    int_to_uint_range_error,
+    /// @brief The result of an operation on `Int` exceeds the greatest supported magnitude.
+    int_overflow
 };
 
 constexpr std::string_view evaluation_error_code_name(Evaluation_Error_Code code)
@@ -29,6 +31,7 @@ constexpr std::string_view evaluation_error_code_name(Evaluation_Error_Code code
         BIT_MANIPULATION_ENUM_STRING_CASE(shift_too_much);
         BIT_MANIPULATION_ENUM_STRING_CASE(assertion_fail);
         BIT_MANIPULATION_ENUM_STRING_CASE(int_to_uint_range_error);
+        BIT_MANIPULATION_ENUM_STRING_CASE(int_overflow);
     };
     BIT_MANIPULATION_ASSERT_UNREACHABLE();
 }
diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 3eca9a5..2906cfc 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -318,7 +318,11 @@ evaluate_unary_operator(Expression_Type op, Concrete_Value value)
             return value;
         }
         if (op == Expression_Type::unary_minus) {
-            return Concrete_Value { Concrete_Type::Int, -value.int_value };
+            Big_Int result;
+            if (__builtin_sub_overflow(Big_Int(0), value.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Int operation not caught by type-check.");
     }
@@ -375,6 +379,11 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             if (rhs.int_value == 0) {
                 return Evaluation_Error_Code::division_by_zero;
             }
+            // The only division which overflows is that of the least value by -1.
+            if (lhs.type == Concrete_Type::Int && rhs.int_value == -1
+                && lhs.int_value == std::numeric_limits<Big_Int>::min()) {
+                return Evaluation_Error_Code::int_overflow;
+            }
             if (lhs.type.is_uint()) {
                 // Values of `Uint(128)` may exceed the range of `Big_Int`.
                 return op == Expression_Type::division
@@ -414,6 +423,7 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
     }
 
     case Type_Type::Int: {
+        Big_Int result;
         switch (op) {
         case less_than: //
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value < rhs.int_value) };
@@ -424,11 +434,20 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         case greater_or_equal: //
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value >= rhs.int_value) };
         case binary_plus: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value + rhs.int_value) };
+            if (__builtin_add_overflow(lhs.int_value, rhs.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         case binary_minus: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value - rhs.int_value) };
+            if (__builtin_sub_overflow(lhs.int_value, rhs.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         case multiplication: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value * rhs.int_value) };
+            if (__builtin_mul_overflow(lhs.int_value, rhs.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         default:
             BIT_MANIPULATION_ASSERT_UNREACHABLE(
                 "Unsupported Int operation not caught by type-check.");
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index d4923f9..3794029 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -236,6 +236,8 @@ std::string_view to_prose(bms::Evaluation_Error_Code e)
         return "Assertion failed.";
     case int_to_uint_range_error: //
         return "Conversion from Int to Uint would lose information.";
+    case int_overflow: //
+        return "The result of the Int operation is too large to be evaluated.";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
 }
-- 
2.43.0


From 51e53038ade20985bd0df90ac7f2f55c288822d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 07/66] fix: dangling reference when type-checking builtin
 function arguments

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 2906cfc..6a9ab77 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -121,8 +121,9 @@ unsafe_evaluate_builtin_function_impl(Builtin_Function f, Iter begin, Iter end)
     static_assert(std::random_access_iterator<Iter>);
     static_assert(std::same_as<std::iter_value_t<Iter>, Concrete_Value>);
 
-    const auto types
-        = std::ranges::subrange(begin, end) | std::views::transform(&Concrete_Value::type);
+    // The iterators may yield prvalues, so it would be wrong to form references to their members.
+    const auto types = std::ranges::subrange(begin, end)
+        | std::views::transform([](const Concrete_Value& v) { return v.type; });
 
     Result<Concrete_Type, Analysis_Error_Code> type_result = check_builtin_function_impl(f, types);
     if (!type_result) {
-- 
2.43.0


From f0188167b5329580e11ae7c1fc71061bc22b86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 08/66] fix: accept widths given by an expression of type Uint

---
 src/bms/analyze.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index d969bfc..071cd33 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -225,7 +225,8 @@ private:
                 .fail(node.get_width_node())
                 .build();
         }
-        const Big_Int folded_width = width->as_int();
+        // Note that the width may also be of type `Uint`.
+        const Big_Int folded_width = width->concrete_value().int_value;
         if (folded_width <= 0 || folded_width > uint_max_width) {
             return Analysis_Error_Builder { Analysis_Error_Code::width_invalid }
                 .fail(node.get_width_node())
-- 
2.43.0


From 625495aad41d0bb9766c6eee0ae183f02de5ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 09/66] fix: keep the execution error code in analysis errors

It was left indeterminate and then read when the error was printed.
---
 src/bms/analysis_error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analysis_error.hpp b/src/bms/analysis_error.hpp
index d532806..88b7c3e 100644
--- a/src/bms/analysis_error.hpp
+++ b/src/bms/analysis_error.hpp
@@ -332,7 +332,7 @@ public:
             m_code.evaluation = error.evaluation_error;
         }
         else {
-            m_code = Analysis_Error_Code::execution_error;
+            m_code = error.code;
         }
         if (error.comparison_failure) {
             m_extras = *error.comparison_failure;
-- 
2.43.0


From 9a2a82ad5fca70b9a7da2cdcc6f3ab32ee1504c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 10/66] fix: null pointer dereference when a parameter is
 called

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 071cd33..3035a35 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -804,7 +804,7 @@ private:
         if (!function) {
             return Analysis_Error_Builder { Analysis_Error_Code::call_non_function }
                 .fail(handle)
-                .cause(*looked_up_node)
+                .cause(node.lookup_result.value())
                 .build();
         }
 
-- 
2.43.0


From d9ce768a025a4dfae2f87b6a73c79211024dc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 11/66] fix: dangling iterators when instances are added during
 their analysis

---
 src/bms/analyze.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 3035a35..1826bf2 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -117,8 +117,10 @@ private:
         // new implicit instantiations may have been generated in the meantime.
         // For concrete functions, we can memoize the result of type analysis.
         if (node.is_generic) {
-            for (const ast::Function::Instance& instance : node.instances) {
-                auto r = analyze_types(instance.handle, level, Expression_Context::normal);
+            // Analyzing an instance may append more instances, so iterators are not stable here.
+            for (Size i = 0; i < node.instances.size(); ++i) {
+                auto r
+                    = analyze_types(node.instances[i].handle, level, Expression_Context::normal);
                 if (!r) {
                     return r;
                 }
-- 
2.43.0


From 4d66eeb9147192561d6355e69f4a9db70da5308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 12/66] fix: null pointer dereference when instantiating
 optional children

---
 src/bms/instantiate.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index e8b3ec4..76321fb 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -153,8 +153,11 @@ private:
         ast::Some_Node* result = m_program.insert(*h);
         m_remap.emplace(h, result);
         for (ast::Some_Node*& child : get_children(*result)) {
-            child = deep_copy_for_instantiation(child);
-            set_parent(*child, *result);
+            // Some nodes have optional children, such as the type or initializer of a variable.
+            if (child) {
+                child = deep_copy_for_instantiation(child);
+                set_parent(*child, *result);
+            }
         }
         return result;
     }
-- 
2.43.0


From 3ef152aec7690c4d335807fa1f58b4884dd7ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 13/66] fix: instantiating functions which refer to global
 declarations

---
 src/bms/instantiate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index 76321fb..561b3ae 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -191,7 +191,10 @@ private:
 
         void operator()(const ast::Some_Node* looked_up_node)
         {
-            target = self.m_remap.at(looked_up_node);
+            // Global constants and other functions are not part of the copy.
+            if (const auto it = self.m_remap.find(looked_up_node); it != self.m_remap.end()) {
+                target = it->second;
+            }
         }
 
         void operator()(const Parameter* looked_up_parameter)
-- 
2.43.0


From 937fac574aa11bf07229446daeb1264be4216ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 14/66] fix: instantiate_all with any number and kind of
 functions

It raised an internal error for functions which are not generic.  The
parameters of previously instantiated functions are of no further use.
---
 src/bms/instantiate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index 561b3ae..171a52f 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -40,7 +40,7 @@ public:
     Result<void, Analysis_Error> instantiate_all(const Widths& w)
     {
         for (ast::Some_Node* decl : get_children(*m_program.get_root())) {
-            if (auto* f = get_if<ast::Function>(decl)) {
+            if (auto* f = get_if<ast::Function>(decl); f && f->is_generic) {
                 auto r = instantiate_function(decl, *f, w);
                 if (!r) {
                     return r.error();
@@ -112,6 +112,7 @@ private:
         // This is done in a second pass, since cloning a cyclic graph in one go is difficult.
 
         m_remap.clear();
+        m_parameter_remap.clear();
         ast::Some_Node* const result = deep_copy_for_instantiation(h);
         deep_update_name_lookup(result);
 
-- 
2.43.0


From 0aefdaff07993dd0633231622e328ba378f0ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 15/66] fix: failed static assertions and requires-clauses fail
 again

Analyzing a program again accepted it because the cached value was taken to
mean that the check had passed.
---
 src/bms/analyze.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 1826bf2..fc59b4c 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -148,23 +148,24 @@ private:
             // Expressions in requires-clauses don't need to be checked twice, but we have to
             // determine this here instead of in the expression because expressions lack a
             // checking mechanism for themselves.
-            if (!expr_const_value) {
+            // A function which has a value has passed this check, unlike one whose requires-clause
+            // merely has a value.
+            if (!node.const_value()) {
                 if (auto r = analyze_types(node.get_requires_clause_node(),
                                            Analysis_Level::for_constant_evaluation,
                                            Expression_Context::constant);
                     !r) {
                     return r;
                 }
-                node.const_value() = expr_const_value;
-                BIT_MANIPULATION_ASSERT(node.const_value() && node.const_value()->is_known());
+                BIT_MANIPULATION_ASSERT(expr_const_value && expr_const_value->is_known());
 
-                if (node.const_value()->get_type() != Concrete_Type::Bool) {
+                if (expr_const_value->get_type() != Concrete_Type::Bool) {
                     return Analysis_Error_Builder { Analysis_Error_Code::requires_clause_not_bool }
                         .fail(node.get_requires_clause_node())
                         .cause(handle)
                         .build();
                 }
-                if (!node.const_value()->as_bool()) {
+                if (!expr_const_value->as_bool()) {
                     return Analysis_Error_Builder {
                         Analysis_Error_Code::requires_clause_not_satisfied
                     }
@@ -172,6 +173,7 @@ private:
                         .cause(handle)
                         .build();
                 }
+                node.const_value() = expr_const_value;
             }
         }
 
@@ -370,16 +372,16 @@ private:
         if (!expression_result) {
             return expression_result;
         }
-        node.const_value() = get_const_value(*node.get_expression_node());
-        BIT_MANIPULATION_ASSERT(node.const_value() && node.const_value()->is_known());
+        const std::optional<Value> value = get_const_value(*node.get_expression_node());
+        BIT_MANIPULATION_ASSERT(value && value->is_known());
 
-        if (node.const_value()->get_type() != Concrete_Type::Bool) {
+        if (value->get_type() != Concrete_Type::Bool) {
             return Analysis_Error_Builder { Analysis_Error_Code::static_assert_expression_not_bool }
                 .fail(handle)
                 .cause(node.get_expression_node())
                 .build();
         }
-        if (!node.const_value()->as_bool()) {
+        if (!value->as_bool()) {
             Analysis_Error_Builder error { Analysis_Error_Code::static_assertion_failed };
             error.fail(handle).cause(node.get_expression_node());
             if (const auto* const comparison
@@ -390,6 +392,8 @@ private:
             return error.build();
         }
 
+        // Only assertions which passed are remembered, so that a failed one fails again.
+        node.const_value() = value;
         return {};
     }
 
-- 
2.43.0


From 40215b129b13419b5642159bdd43487bcca89f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 16/66] fix: report conversions which fail in constant
 expressions

Instead of an evaluation error, these led to an internal error.
---
 src/bms/analyze.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index fc59b4c..800d94f 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -612,6 +612,9 @@ private:
 
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_conversion(*expression_value, *type);
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type);
         return {};
@@ -663,9 +666,11 @@ private:
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_if_expression(*left_value, *condition_value, *right_value);
 
-        // Type analysis has already succeeded, and for context expressions, the condition is known.
-        // Therefore, it should be impossible for an evaluation to fail.
-        BIT_MANIPULATION_ASSERT(context != Expression_Context::constant || eval_result.has_value());
+        // Type analysis has already succeeded, but the selected value may still not be representable
+        // in the common type, such as in `-1 if true else 0 as Uint(8)`.
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
         return {};
-- 
2.43.0


From efbf21a9ee616547b99da9c6440f1464f86e125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 17/66] fix: short-circuited constant expressions have a known
 value

When the skipped operand was not a literal constant, the value of the whole
expression was unknown and raised an internal error.
---
 src/bms/analyze.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 800d94f..241220f 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -689,6 +689,7 @@ private:
         BIT_MANIPULATION_ASSERT(context != Expression_Context::constant
                                 || (left_value && left_value->is_known()));
 
+        bool is_short_circuited = false;
         {
             // For short-circuiting operators like && and ||, if we are in a constant expression,
             // we should not evaluate the rest as a constant expression if short-circuiting takes
@@ -710,6 +711,7 @@ private:
                 const bool circuit_breaker = node.get_op() == Token_Type::logical_or;
                 if (left_value->as_bool() == circuit_breaker) {
                     context = Expression_Context::normal;
+                    is_short_circuited = true;
                 }
             }
         }
@@ -727,6 +729,13 @@ private:
             return Analysis_Error_Builder { type_result.error() }.fail(handle).build();
         }
 
+        if (is_short_circuited) {
+            // The value of the left side is that of the whole expression, even if the right side,
+            // which is not evaluated, has no known value.
+            node.const_value() = left_value;
+            return {};
+        }
+
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_binary_operator(*left_value, node.get_expression_type(), *right_value);
         if (!eval_result && context == Expression_Context::constant) {
-- 
2.43.0


From 2645aaa7a25ad6902c8ca57ce7c4e0fe249136ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 18/66] fix: convert initializers, assigned values, and
 operands of if-expressions

Without a conversion from Int to Uint, variables contained values of the wrong
type at run time, and calls gave wrong results (e.g. unlimited additions).
---
 src/bms/vm/codegen.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 90a5e43..515c0f2 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -60,6 +60,16 @@ public:
     }
 
 private:
+    /// @brief Emits a conversion if the type of the given expression differs from the target type.
+    void convert_if_necessary(const ast::Some_Node* h,
+                              const ast::Some_Node* expression,
+                              Concrete_Type target_type)
+    {
+        if (get_const_value(*expression).value().get_type() != target_type) {
+            out.push_back(ins::Convert { { h }, target_type });
+        }
+    }
+
     Result<void, Analysis_Error> generate_code(const ast::Some_Node* h)
     {
         BIT_MANIPULATION_ASSERT(h);
@@ -144,6 +154,7 @@ private:
         if (!init) {
             return init;
         }
+        convert_if_necessary(h, node.get_initializer_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, h });
         return init;
     }
@@ -288,6 +299,7 @@ private:
         if (!result) {
             return result;
         }
+        convert_if_necessary(h, node.get_expression_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, to_target(node.lookup_result.value()) });
         return {};
     }
@@ -352,6 +364,7 @@ private:
             restore();
             return left;
         }
+        convert_if_necessary(h, node.get_left_node(), node.const_value()->get_type());
         get<ins::Relative_Jump_If>(out[blank_jump_to_right_index]).offset
             = Signed_Size(out.size() - size_before_left + 1);
 
@@ -363,6 +376,7 @@ private:
             restore();
             return right;
         }
+        convert_if_necessary(h, node.get_right_node(), node.const_value()->get_type());
         get<ins::Relative_Jump>(out[blank_jump_past_right_index]).offset
             = Signed_Size(out.size() - size_before_right);
 
-- 
2.43.0


From 27104e7bae4c5e34916b3093740a125d6aba453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 19/66] fix: only check the target of conditional jumps that
 are taken

A function ending in a loop or if-statement which always returns could not be
called as long as no other code was added to the machine.
---
 src/bms/vm/vm.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index d8c66c3..530b234 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -78,14 +78,17 @@ struct Cycle_Impl {
         if (actual.type != Concrete_Type::Bool) {
             return Execution_Error { Execution_Error_Code::jump_if_not_bool, jump_if.debug_info };
         }
+        if (jump_if.expected != bool(actual.int_value)) {
+            ++self.m_instruction_counter;
+            return {};
+        }
         if (Signed_Size(self.m_instruction_counter) + jump_if.offset + 1
             >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program,
                                      jump_if.debug_info };
         }
         self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter + 1)
-                   + (jump_if.expected == bool(actual.int_value) ? jump_if.offset : 0));
+            = Size(Signed_Size(self.m_instruction_counter) + jump_if.offset + 1);
         return {};
     }
 
-- 
2.43.0


From 0e4aaae7d4fb258bf3c8f42b0cc2a03f96eb2494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 20/66] fix: comparisons of other assertions are not reported
 as the failed one

---
 src/bms/vm/vm.cpp | 8 ++++++--
 src/bms/vm/vm.hpp | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 530b234..9d3337a 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -1,4 +1,5 @@
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include "common/assert.hpp"
@@ -176,6 +177,9 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Builtin_Call& call)
     {
+        // The comparison only belongs to the assertion which immediately follows it.
+        const auto comparison_failure
+            = std::exchange(self.m_comparison_failure_for_assert, std::nullopt);
         const Size params = builtin_parameter_count(call.function);
         if (params > self.m_stack.size()) {
             return Execution_Error { Execution_Error_Code::pop, call.debug_info };
@@ -185,10 +189,10 @@ struct Cycle_Impl {
         if (!result) {
             Execution_Error error { result.error(), call.debug_info };
             if (call.function != bms::Builtin_Function::assert
-                || !self.m_comparison_failure_for_assert) {
+                || !comparison_failure) {
                 return error;
             }
-            error.comparison_failure = self.m_comparison_failure_for_assert;
+            error.comparison_failure = comparison_failure;
             return error;
         }
         self.m_stack.resize(self.m_stack.size() - params);
diff --git a/src/bms/vm/vm.hpp b/src/bms/vm/vm.hpp
index 9b01e80..2497b6f 100644
--- a/src/bms/vm/vm.hpp
+++ b/src/bms/vm/vm.hpp
@@ -97,6 +97,7 @@ public:
         m_function_frame_stack.clear();
         m_stack.clear();
         m_instruction_counter = 0;
+        m_comparison_failure_for_assert.reset();
     }
 
     void clear()
-- 
2.43.0


From e87f21d3a675892958799293c247327447cbcd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 21/66] fix: running out of memory leaves VM code and operands
 intact

Incomplete instructions remained in the output of the code generator, and the
operand of a store instruction was lost.
---
 src/bms/vm/codegen.cpp | 10 +++++++++-
 src/bms/vm/vm.cpp      |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 515c0f2..746b467 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -56,7 +56,15 @@ public:
 public:
     Result<void, Analysis_Error> operator()(const ast::Some_Node* h, const ast::Function& function)
     {
-        return generate_code(h, function);
+        const auto restore_size = out.size();
+        try {
+            return generate_code(h, function);
+        } catch (...) {
+            // E.g. when out of memory, incomplete code must not remain in the output.
+            BIT_MANIPULATION_ASSERT(restore_size <= out.size());
+            out.resize(restore_size);
+            throw;
+        }
     }
 
 private:
diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 9d3337a..5c7bf1b 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -34,9 +34,9 @@ struct Cycle_Impl {
         if (self.m_stack.empty()) {
             return Execution_Error { Execution_Error_Code::pop, store.debug_info };
         }
-        Concrete_Value value = self.m_stack.back();
+        // Assigning may fail if there is no memory, in which case the value remains on the stack.
+        self.m_function_frame_stack.assign(store.target, self.m_stack.back());
         self.m_stack.pop_back();
-        self.m_function_frame_stack.assign(store.target, value);
         ++self.m_instruction_counter;
         return {};
     }
-- 
2.43.0


From 8e995fa1fee5640817332f397e21c870aa9988a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 22/66] fix: constructing a variant from an lvalue may throw

The exception specification tested a reference cast, which never throws, so
that running out of memory during the copy terminated the process.
---
 src/common/variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/variant.hpp b/src/common/variant.hpp
index 18c4085..3a970ae 100644
--- a/src/common/variant.hpp
+++ b/src/common/variant.hpp
@@ -231,7 +231,7 @@ public:
     }
 
     template <typename T>
-    Variant(T&& other) noexcept(noexcept(T(std::forward<T>(other))))
+    Variant(T&& other) noexcept(std::is_nothrow_constructible_v<std::remove_cvref_t<T>, T>)
         requires has_alternative_v<Variant, std::remove_cvref_t<T>>
         : m_index(pack_first_index_of_v<std::remove_cvref_t<T>, Ts...>)
     {
@@ -360,7 +360,7 @@ public:
 
     template <typename T>
         requires has_alternative_v<Variant, std::remove_cvref_t<T>>
-    Variant(T&& other) noexcept(noexcept(T(std::forward<T>(other))))
+    Variant(T&& other) noexcept(std::is_nothrow_constructible_v<std::remove_cvref_t<T>, T>)
         : m_index(pack_first_index_of_v<std::remove_cvref_t<T>, Ts...>)
     {
         std::construct_at(reinterpret_cast<std::remove_reference_t<T>*>(m_storage),
-- 
2.43.0


From d27707c4beeae8ff352207a36de8c242cd44552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 23/66] fix: move assignment of results

It did not return a value, did not move errors, and the noexcept assignments
accepted types whose construction may throw.
---
 src/common/result.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/common/result.hpp b/src/common/result.hpp
index 582e735..e98224a 100644
--- a/src/common/result.hpp
+++ b/src/common/result.hpp
@@ -110,7 +110,9 @@ public:
     }
 
     constexpr Result& operator=(const Result& other) noexcept
-        requires(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_copy_assignable_v<Error>)
+        requires(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_copy_assignable_v<Error>
+                 && std::is_nothrow_copy_constructible_v<T>
+                 && std::is_nothrow_copy_constructible_v<Error>)
     {
         if (this == &other) {
             // do nothing
@@ -135,7 +137,9 @@ public:
     }
 
     constexpr Result& operator=(Result&& other) noexcept
-        requires(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_assignable_v<Error>)
+        requires(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_assignable_v<Error>
+                 && std::is_nothrow_move_constructible_v<T>
+                 && std::is_nothrow_move_constructible_v<Error>)
     {
         if (m_has_value && other.m_has_value) {
             m_value = std::move(other.m_value);
@@ -153,6 +157,7 @@ public:
             std::construct_at(std::addressof(m_value), std::move(other.m_value));
             m_has_value = true;
         }
+        return *this;
     }
 
     constexpr ~Result() noexcept(std::is_nothrow_destructible_v<T>
@@ -364,7 +369,8 @@ public:
     }
 
     constexpr Result& operator=(const Result& other) noexcept
-        requires(std::is_nothrow_copy_assignable_v<Error>)
+        requires(std::is_nothrow_copy_assignable_v<Error>
+                 && std::is_nothrow_copy_constructible_v<Error>)
     {
         if (this == &other) {
             // do nothing
@@ -387,7 +393,8 @@ public:
     }
 
     constexpr Result& operator=(Result&& other) noexcept
-        requires(std::is_nothrow_move_assignable_v<Error>)
+        requires(std::is_nothrow_move_assignable_v<Error>
+                 && std::is_nothrow_move_constructible_v<Error>)
     {
         if (this == &other) {
             // do nothing
@@ -396,10 +403,10 @@ public:
             // do nothing
         }
         else if (!m_has_value && !other.m_has_value) {
-            m_error = other.m_error;
+            m_error = std::move(other.m_error);
         }
         else if (m_has_value && !other.m_has_value) {
-            std::construct_at(std::addressof(m_error), other.m_error);
+            std::construct_at(std::addressof(m_error), std::move(other.m_error));
             m_has_value = false;
         }
         else {
-- 
2.43.0


From d0f66e5e539a8c49ad15a998f13ed337e6c2efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 24/66] fix: lengths of the tokens '&&' and '!'

The characters following these tokens were skipped.
---
 src/bms/util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 187a841..947aa15 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -232,7 +232,8 @@ namespace bit_manipulation::bms {
     case colon:
     case comma:
     case at:
-    case semicolon: return 1;
+    case semicolon:
+    case logical_not: return 1;
 
     case equals:
     case not_equals:
@@ -240,14 +241,13 @@ namespace bit_manipulation::bms {
     case greater_or_equal:
     case shift_left:
     case shift_right:
+    case logical_and:
     case logical_or:
     case right_arrow:
     case double_right_arrow:
     case keyword_as:
     case keyword_if: return 2;
 
-    case logical_and:
-    case logical_not:
     case keyword_let:
     case keyword_int: return 3;
 
-- 
2.43.0


From 29475dfbb4f3d3a1c1819c832d4ca973510165d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 25/66] fix: internal error for the operator '>='

---
 src/bms/ast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 35c9fba..27f3c3f 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -25,6 +25,7 @@ namespace {
     case less_than: return Expression_Type::less_than;
     case greater_than: return Expression_Type::greater_than;
     case less_or_equal: return Expression_Type::less_or_equal;
+    case greater_or_equal: return Expression_Type::greater_or_equal;
     case plus: return Expression_Type::binary_plus;
     case minus: return Expression_Type::binary_minus;
     case multiplication: return Expression_Type::multiplication;
-- 
2.43.0


From 646865bef8785eabec9e8c81dd7e2a5c845e7025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 26/66] fix: internal error for a block comment at the end of
 the file

---
 src/bms/tokenization/tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 3f5cda4..7652100 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -187,7 +187,7 @@ struct Tokenizer {
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             switch (m_source[pos.begin]) {
             case '\t': pos.column += 4; break;
-- 
2.43.0


From a429b7829d073fa7843743ef98450d2ebaadbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 27/66] fix: values of large and of uppercase hexadecimal
 literals

Literals which exceed the supported range got a wrong value instead of being
diagnosed, and literals with uppercase digits were diagnosed.
---
 src/common/parse.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index c6623f4..caa9759 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -13,9 +13,7 @@ static_assert(are_hex_digits_ascii);
 
 constexpr bool safe_mul(Big_Uint& x, Big_Uint y)
 {
-    auto old = x;
-    x *= y;
-    return x >= old;
+    return !__builtin_mul_overflow(x, y, &x);
 }
 
 constexpr bool safe_add(Big_Uint& x, Big_Uint y)
@@ -72,6 +70,11 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
                 return {};
             }
         }
+        else if (c >= 'A' && c <= 'F') {
+            if (!safe_add(result, Big_Uint(10 + c - 'A'))) {
+                return {};
+            }
+        }
         else {
             return {};
         }
@@ -214,6 +217,9 @@ std::optional<Big_Int> parse_integer_literal(std::string_view str) noexcept
         return std::nullopt;
     }
     if (auto result = parse_uinteger_literal(str)) {
+        if (*result > Big_Uint(std::numeric_limits<Big_Int>::max())) {
+            return std::nullopt;
+        }
         return static_cast<Big_Int>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From b51e69b75c94f5156d097e32c3e74850683f57d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 28/66] fix: internal error for a comment marker at the end of
 a document

---
 src/bmd/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 6bf8184..0d3a1bc 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -132,7 +132,7 @@ private:
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(m_pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(m_pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             advance_position_based_on(m_source[m_pos.begin]);
         }
-- 
2.43.0


From bdbc010e9c47168c3d9d027088734be3b89b95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 29/66] fix: memory leak for every paragraph of a document

The copied vector used the default memory resource, but nodes are not
destroyed because their memory belongs to the resource of the caller.
---
 src/bmd/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 0d3a1bc..31c5838 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -319,7 +319,7 @@ private:
             }
             elements.push_back(alloc_node<ast::List>(
                 { pos_before_paragraph, m_pos.begin - pos_before_paragraph.begin },
-                std::vector(paragraph_elements)));
+                std::pmr::vector<ast::Some_Node*>(paragraph_elements, m_memory)));
             paragraph_elements.clear();
             pos_before_paragraph = m_pos;
         };
-- 
2.43.0


From 39854dadd66d4e88b72db03d2cffb2d8be0c1826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 30/66] fix: endless loop for comments inside of spans

---
 src/bmd/parsing/parse.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 31c5838..cffc01e 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -381,7 +381,7 @@ private:
         const auto initial_pos = m_pos;
         std::pmr::vector<ast::Some_Node*> elements(m_memory);
         while (!eof()) {
-            if (peek(is_space)) {
+            if (peek(is_space) || peek("//") || peek("/*")) {
                 Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
                 if (!blank) {
                     return blank.error();
@@ -391,6 +391,7 @@ private:
                 if (blank->length == 0) {
                     break;
                 }
+                continue;
             }
             ast::Some_Node* text = match_text();
             if (text) {
@@ -603,7 +604,7 @@ private:
         if (!result) {
             return result;
         }
-        if (peek(is_space)) {
+        if (peek(is_space) || (directives_allowed && !eof())) {
             // Text already consumes trailing space, so it only would have failed to consume
             // all if the trailing space is a paragraph break.
             return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
-- 
2.43.0


From 275813895cdb25958fd5b950ee90608f5674c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:34 +0000
Subject: [PATCH 31/66] fix: out-of-bounds access for unknown directives

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 32e8f24..20c69cf 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -190,7 +190,7 @@ std::optional<Directive_Type> directive_type_by_id(std::string_view directive_id
     static_assert(std::ranges::is_sorted(lookup, {}, &Pair::id));
 
     const auto it = std::ranges::lower_bound(lookup, directive_id, {}, &Pair::id);
-    if (it->id != directive_id) {
+    if (it == std::ranges::end(lookup) || it->id != directive_id) {
         return {};
     }
     return it->type;
-- 
2.43.0


From 5c0e05f2779282e864723354633f3f1169163a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 32/66] fix: I/O errors printed to a stream other than the
 requested one

---
 src/cli/main.cpp           | 2 +-
 src/common/diagnostics.cpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 0ee87a0..8882fa9 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -91,7 +91,7 @@ int to_html(std::string_view file,
         else {
             std::ofstream out { std::string(*out_file) };
             if (!out) {
-                print_io_error(out, *out_file, IO_Error_Code::cannot_open, colors);
+                print_io_error(std::cerr, *out_file, IO_Error_Code::cannot_open, colors);
                 return 1;
             }
 
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 3794029..1cef9f8 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -799,8 +799,7 @@ std::ostream& print_assertion_error(std::ostream& out, const Assertion_Error& er
 std::ostream&
 print_io_error(std::ostream& out, std::string_view file, IO_Error_Code error, bool colors)
 {
-    print_location_of_file(std::cout, file, colors) << ": " << to_prose(error) << '\n';
-    return out;
+    return print_location_of_file(out, file, colors) << ": " << to_prose(error) << '\n';
 }
 
 std::ostream&
-- 
2.43.0


From 22c59878411c1dd643d8904c11578b838146e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 33/66] fix: failed writes of HTML tokens reported as success

---
 src/bmd/html/doc_to_html.cpp | 36 +++++++++++++++++++++++++++++++++++-
 src/bmd/html/doc_to_html.hpp |  6 +++++-
 src/common/diagnostics.cpp   |  2 ++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 60f43bc..1f52b5f 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -6,6 +6,7 @@
 #include "bmd/html/bms_to_html.hpp"
 #include "bmd/html/doc_to_html.hpp"
 #include "bmd/html/html_writer.hpp"
+#include "bmd/html/token_consumer.hpp"
 #include "bmd/parsing/ast.hpp"
 #include "bmd/parsing/parse.hpp"
 
@@ -106,6 +107,35 @@ inline constexpr Document_Error_Code enum_document_error_v
     = std::is_same_v<E, Nested_Language> ? Document_Error_Code::invalid_language
                                          : Document_Error_Code::invalid_architecture;
 
+/// @brief Forwards tokens to another consumer until that consumer fails to write a token.
+struct Checked_HTML_Consumer final : HTML_Token_Consumer {
+    HTML_Token_Consumer& m_out;
+    bool m_failed = false;
+
+    explicit Checked_HTML_Consumer(HTML_Token_Consumer& out)
+        : m_out(out)
+    {
+    }
+
+    bool write(char c, HTML_Token_Type type) final
+    {
+        m_failed = m_failed || !m_out.write(c, type);
+        return !m_failed;
+    }
+
+    bool write(char c, Size n, HTML_Token_Type type) final
+    {
+        m_failed = m_failed || !m_out.write(c, n, type);
+        return !m_failed;
+    }
+
+    bool write(std::string_view s, HTML_Token_Type type) final
+    {
+        m_failed = m_failed || !m_out.write(s, type);
+        return !m_failed;
+    }
+};
+
 struct HTML_Converter {
     HTML_Writer& m_writer;
     const Parsed_Document& m_document;
@@ -572,7 +602,8 @@ Result<void, Document_Error> doc_to_html(HTML_Token_Consumer& out,
     static constexpr Tag_Properties head { "head", Formatting_Style::block };
     static constexpr Tag_Properties link { "link", Formatting_Style::block };
 
-    HTML_Writer writer { out, options.indent_width };
+    Checked_HTML_Consumer checked_out { out };
+    HTML_Writer writer { checked_out, options.indent_width };
     writer.write_preamble();
 
     writer.begin_tag(html);
@@ -601,6 +632,9 @@ Result<void, Document_Error> doc_to_html(HTML_Token_Consumer& out,
     if (!writer.is_done()) {
         return Document_Error { Document_Error_Code::writer_misuse, {} };
     }
+    if (checked_out.m_failed) {
+        return Document_Error { Document_Error_Code::write_failure, {} };
+    }
     return {};
 }
 
diff --git a/src/bmd/html/doc_to_html.hpp b/src/bmd/html/doc_to_html.hpp
index ebbf0f9..038bca9 100644
--- a/src/bmd/html/doc_to_html.hpp
+++ b/src/bmd/html/doc_to_html.hpp
@@ -30,6 +30,8 @@ enum struct Document_Error_Code {
     number_attribute_not_allowed,
     /// @brief Failed to highlight code.
     code_tokenization_failure,
+    /// @brief The `HTML_Token_Consumer` failed to write a token.
+    write_failure,
 };
 
 struct Document_Error {
@@ -43,7 +45,9 @@ struct Document_Options {
 };
 
 /// @brief Converts the given parsed document to an HTML string.
-/// @param out the string to write to; the contents will be entirely replaced
+/// If writing any token to `out` fails, no further tokens are written, and an error with code
+/// `write_failure` is returned.
+/// @param out the consumer to write to
 /// @param document the document to convert
 /// @param options the options
 /// @param memory a source of temporary memory for subroutines such as BMS tokenization
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 1cef9f8..f69855c 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -319,6 +319,8 @@ std::string_view to_prose(bmd::Document_Error_Code e)
         return "This architecture is not valid.";
     case number_attribute_not_allowed: //
         return "This annotation cannot have a numeric value; only strings can be provided.";
+    case write_failure: //
+        return "Failed to write the generated HTML.";
     case code_tokenization_failure: //
         return "Syntax highlighting for this code snipped failed. Is it ill-formed? Consider using "
                "'text' language or '\\tt' (teletype), not '\\c'.";
-- 
2.43.0


From 47907e5d4b2c27b65d7c5c1df3f52505a825c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:25 +0000
Subject: [PATCH 34/66] fix: failed writes to stdout or the output file ignored
 by the exit status

---
 src/cli/main.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 8882fa9..577c45a 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -87,6 +87,10 @@ int to_html(std::string_view file,
             }
             Colored_HTML_Consumer consumer { std::cout };
             result = write_html(consumer, program, memory);
+            if (!std::cout) {
+                print_io_error(std::cerr, "stdout", IO_Error_Code::write_error, colors);
+                return 1;
+            }
         }
         else {
             std::ofstream out { std::string(*out_file) };
@@ -97,6 +101,11 @@ int to_html(std::string_view file,
 
             Simple_HTML_Consumer consumer { out };
             result = write_html(consumer, program, memory);
+            out.close();
+            if (!out) {
+                print_io_error(std::cerr, *out_file, IO_Error_Code::write_error, colors);
+                return 1;
+            }
         }
 
         if (!result) {
@@ -243,5 +252,13 @@ try {
 
 int main(int argc, const char** argv)
 {
-    return bit_manipulation::main(argc, argv);
+    const int result = bit_manipulation::main(argc, argv);
+
+    if (!std::cout.flush()) {
+        bit_manipulation::print_io_error(std::cerr, "stdout",
+                                         bit_manipulation::IO_Error_Code::write_error,
+                                         bit_manipulation::colors);
+        return 1;
+    }
+    return result;
 }
-- 
2.43.0


From 08a382ceca678635143c351f399d0205c0ff3590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 35/66] fix: termination when writing an HTML attribute throws

---
 src/bmd/html/html_writer.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 7091eab..4b8a4d5 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -1,6 +1,8 @@
 #ifndef BIT_MANIPULATION_BMD_HTML_WRITER_HPP
 #define BIT_MANIPULATION_BMD_HTML_WRITER_HPP
 
+#include <exception>
+
 #include "common/assert.hpp"
 #include "common/parse.hpp"
 
@@ -60,6 +62,7 @@ struct Attribute_Writer {
 private:
     HTML_Writer& m_writer;
     Formatting_Style m_type;
+    int m_uncaught_exceptions = std::uncaught_exceptions();
 
 public:
     Attribute_Writer(HTML_Writer& writer, Formatting_Style type)
@@ -93,7 +96,8 @@ public:
     Attribute_Writer& end_empty();
 
     /// @brief Destructor.
-    /// A call to `end()` or `end_empty()` shall have been made prior to destruction.
+    /// A call to `end()` or `end_empty()` shall have been made prior to destruction,
+    /// unless destruction takes place because an exception was thrown.
     ~Attribute_Writer() noexcept(false);
 };
 
@@ -237,7 +241,8 @@ inline Attribute_Writer& Attribute_Writer::end_empty()
 inline Attribute_Writer::~Attribute_Writer() noexcept(false)
 {
     // This indicates that end() or end_empty() weren't called.
-    BIT_MANIPULATION_ASSERT(m_writer.m_state != HTML_Writer::State::attributes);
+    BIT_MANIPULATION_ASSERT(m_writer.m_state != HTML_Writer::State::attributes
+                            || std::uncaught_exceptions() != m_uncaught_exceptions);
 }
 
 } // namespace bit_manipulation::bmd
-- 
2.43.0


From 39f2a5cba0879a5d5fe7adbc8cd0cf1d161d7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 36/66] fix: termination when memory is exhausted by a closing
 parenthesis

---
 src/bmd/codegen/generator_base.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/generator_base.hpp b/src/bmd/codegen/generator_base.hpp
index 293b0f0..d4bb645 100644
--- a/src/bmd/codegen/generator_base.hpp
+++ b/src/bmd/codegen/generator_base.hpp
@@ -1,6 +1,8 @@
 #ifndef BIT_MANIPULATION_BMD_GENERATOR_BASE_HPP
 #define BIT_MANIPULATION_BMD_GENERATOR_BASE_HPP
 
+#include <exception>
+
 #include "common/result.hpp"
 
 #include "bms/analyzed_program.hpp"
@@ -14,6 +16,7 @@ namespace bit_manipulation::bmd {
 struct Scoped_Parenthesization {
 private:
     Code_String* out;
+    const int uncaught_exceptions = std::uncaught_exceptions();
 
 public:
     explicit Scoped_Parenthesization(Code_String* out)
@@ -27,9 +30,9 @@ public:
     Scoped_Parenthesization(const Scoped_Parenthesization&) = delete;
     Scoped_Parenthesization& operator=(const Scoped_Parenthesization&) = delete;
 
-    ~Scoped_Parenthesization()
+    ~Scoped_Parenthesization() noexcept(false)
     {
-        if (out != nullptr) {
+        if (out != nullptr && std::uncaught_exceptions() == uncaught_exceptions) {
             out->append(')', Code_Span_Type::bracket);
         }
     }
-- 
2.43.0


From 18602c11545aa14e753365d31544d679909a48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:18 +0000
Subject: [PATCH 37/66] fix: enormous gap written between HTML tokens on a line
 containing carriage returns

---
 src/bmd/html/html_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 0e01596..cf3c5e1 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -270,8 +270,8 @@ auto HTML_Writer::write_source_gap(const Local_Source_Span& first,
                 m_out.write(' ', second.column, HTML_Token_Type::whitespace);
             }
         }
-        else if (first.column != second.column) {
-            m_out.write(' ', second.column - first.end_column(), HTML_Token_Type::whitespace);
+        else if (first.end() < second.begin) {
+            m_out.write(' ', second.begin - first.end(), HTML_Token_Type::whitespace);
         }
     }
     else if (first.end() != second.begin) {
-- 
2.43.0


From 0f5ff1c841143e4326c8ab73fb6e021eaa05a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 38/66] fix: internal error for a comment between two pieces of
 text

---
 src/bmd/html/doc_to_html.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 1f52b5f..a0194be 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -221,15 +221,14 @@ struct HTML_Converter {
                 if (i + 1 >= children.size()) {
                     continue;
                 }
-                // get is appropriate here because there cannot be two consecutive Text
-                // elements
-                const auto& d = get<ast::Directive>(*children[i + 1]);
+                // The next element is usually a directive, but it can also be text in case the two
+                // were separated by a comment.
+                const Local_Source_Span next_pos = get_source_span(*children[i + 1]);
 
-                if (current_pos.end() == d.get_source_position().begin) {
+                if (current_pos.end() == next_pos.begin) {
                     continue;
                 }
-                const bool separate_lines
-                    = d.get_source_position().line + 1 > current_pos.line + *lines_written;
+                const bool separate_lines = next_pos.line + 1 > current_pos.line + *lines_written;
                 m_writer.write_whitespace(separate_lines ? '\n' : ' ', 1);
                 // TODO: this approach isn't perfect because it doesn't handle line breaks
                 // after directives properly. It would be best if directives stored what type
-- 
2.43.0


From bc29c285b220be1af7941721531264abaf55fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 39/66] fix: undefined behaviour for instructions without a
 block or with a numeric extension

---
 src/bmd/html/doc_to_html.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index a0194be..2c1f443 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -473,14 +473,19 @@ struct HTML_Converter {
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        // TODO: deal with potentially empty text (null block)
-        const ast::Text& text = get<ast::Text>(*directive.get_block());
+        if (!extension) {
+            return extension.error();
+        }
+
+        const std::string_view text = directive.get_block() == nullptr
+            ? std::string_view {}
+            : get<ast::Text>(*directive.get_block()).get_text();
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
         if (!link_prefix.empty()) {
             std::pmr::string link(link_prefix, m_memory);
-            link += text.get_text();
+            link += text;
 
             m_writer
                 .begin_tag_with_attributes(hyperlink) //
@@ -488,7 +493,7 @@ struct HTML_Converter {
                 .end();
         }
         m_writer.begin_tag(code);
-        m_writer.write_inner_text(text.get_text(), Formatting_Style::in_line);
+        m_writer.write_inner_text(text, Formatting_Style::in_line);
         m_writer.end_tag(code);
 
         if (!link_prefix.empty()) {
-- 
2.43.0


From d48e913b0860b291403d3363330b859bc684ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 40/66] fix: internal errors for directives without a block

---
 src/bmd/html/doc_to_html.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 2c1f443..77b718e 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -291,15 +291,13 @@ struct HTML_Converter {
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
                                    directive_type_formatting_style(directive.get_type()) };
 
-        BIT_MANIPULATION_ASSERT(directive.get_block() != nullptr
+        BIT_MANIPULATION_ASSERT(directive.get_block() == nullptr
                                 || !directive_type_must_be_empty(directive.get_type()));
 
         if (directive.get_block() == nullptr && directive.m_arguments.empty()) {
             m_writer.write_empty_tag(tag);
         }
-        else {
-            begin_tag_with_passed_through_attributes(directive, tag);
-
+        else if (begin_tag_with_passed_through_attributes(directive, tag)) {
             const auto content_type = directive_type_content_type(directive.get_type());
             if (auto r = convert_block(directive.get_block(), tag.style, content_type); !r) {
                 return r;
@@ -309,16 +307,19 @@ struct HTML_Converter {
         return {};
     }
 
-    void begin_tag_with_passed_through_attributes(const ast::Directive& directive,
-                                                  Tag_Properties properties)
+    /// @brief Writes the opening tag for the given directive.
+    /// @return `true` if the tag has to be closed, `false` if an empty tag was written
+    [[nodiscard]] bool begin_tag_with_passed_through_attributes(const ast::Directive& directive,
+                                                                Tag_Properties properties)
     {
         if (directive.m_arguments.empty()) {
             m_writer.begin_tag(properties);
-            return;
+            return true;
         }
 
         auto attribute_writer = m_writer.begin_tag_with_attributes(properties);
         pass_through_attributes(directive, attribute_writer);
+        return directive.get_block() != nullptr;
     }
 
     void pass_through_attributes(const ast::Directive& directive,
@@ -377,9 +378,10 @@ struct HTML_Converter {
 
         if (title_directive != nullptr) {
             const Tag_Properties heading { "h1", Formatting_Style::in_line };
-            begin_tag_with_passed_through_attributes(*title_directive, heading);
-            m_writer.write_inner_text(m_meta.title, heading.style);
-            m_writer.end_tag(heading);
+            if (begin_tag_with_passed_through_attributes(*title_directive, heading)) {
+                m_writer.write_inner_text(m_meta.title, heading.style);
+                m_writer.end_tag(heading);
+            }
         }
 
         return {};
-- 
2.43.0


From 3723368023dbdbfcb9a62cf6320f4a69197deb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:28 +0000
Subject: [PATCH 41/66] fix: file paths read beyond the end of the string view

---
 src/common/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/io.cpp b/src/common/io.cpp
index 0b23eb2..8879b09 100644
--- a/src/common/io.cpp
+++ b/src/common/io.cpp
@@ -9,7 +9,7 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
                                                        std::pmr::memory_resource* memory)
 {
     constexpr auto read_size = std::size_t(4096);
-    auto stream = std::ifstream(path.data());
+    auto stream = std::ifstream(std::string(path));
     stream.exceptions(std::ios_base::badbit);
 
     if (!stream) {
-- 
2.43.0


From c45323431035c2043b1bdca8aee5abe8845479db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 42/66] fix: out-of-bounds access when printing annotations
 with multiple arguments

---
 src/common/diagnostics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index f69855c..bf42ff7 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -872,7 +872,7 @@ struct BMS_AST_Printer {
             auto name = visit(
                 [i](const auto& n) -> std::string_view {
                     if constexpr (requires { n.child_names; }) {
-                        return n.child_names[i];
+                        return i < std::size(n.child_names) ? n.child_names[i] : "";
                     }
                     else {
                         return "";
-- 
2.43.0


From 207e2eee8ab49aae0ca4f79b183f5abf5d224aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 43/66] fix: uses of constants missing in generated C23 code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index ba39b75..e02be86 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -662,8 +662,8 @@ struct C_Cpp_Code_Generator::Visitor {
                 // Therefore, we are forced to inline these whenever used.
                 if (!self.m_options.c_23) {
                     append_value(self.m_out, constant->const_value()->concrete_value());
+                    return {};
                 }
-                return {};
             }
         }
 
-- 
2.43.0


From dd3141ee0d396d8224277cb3dcda13e7da9283c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 44/66] fix: internal error when printing diagnostics at the
 end of the file

---
 src/common/diagnostics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index bf42ff7..0676ddf 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -622,7 +622,8 @@ std::ostream& print_file_position(std::ostream& out,
 
 std::string_view find_line(std::string_view source, Size index)
 {
-    BIT_MANIPULATION_ASSERT(index < source.size());
+    // The end of the source is a valid position in diagnostics about an unexpected end of file.
+    BIT_MANIPULATION_ASSERT(index <= source.size());
 
     Size begin = source.rfind('\n', index);
     begin = begin != std::string_view::npos ? begin + 1 : 0;
-- 
2.43.0


From a8c95870b7b3a246565f0e4a303ae1ae4da8d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 45/66] fix: internal error when printing incompatible return
 types

---
 src/bms/analyze.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 241220f..258f0db 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -504,6 +504,7 @@ private:
             return Analysis_Error_Builder { Analysis_Error_Code::incompatible_types }
                 .fail(handle)
                 .cause(function->get_return_type_node())
+                .type(return_type)
                 .build();
         }
         const Result<Value, Evaluation_Error_Code> eval_result
-- 
2.43.0


From d31a8bac44308829debdda002c9862b3c52fd11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 46/66] fix: internal error when calling generic functions with
 parameters that have no width

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 258f0db..f2eeaf0 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -855,7 +855,7 @@ private:
                 const ast::Type& type = possibly_generic_params[i].get_type();
                 // If this function is generic, parameter types wouldn't have undergone analysis.
                 BIT_MANIPULATION_ASSERT(!type.const_value());
-                if (type.concrete_width) {
+                if (type.concrete_width || !type.get_width_node()) {
                     continue;
                 }
                 const auto* gen_expr = get_if<ast::Id_Expression>(type.get_width_node());
-- 
2.43.0


From a506967056fb6c51cf6861f2e889b03c6ad004b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:05 +0000
Subject: [PATCH 47/66] fix: internal error when printing some tokenization
 errors

---
 src/common/diagnostics.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 0676ddf..b410af2 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -95,6 +95,11 @@ std::string_view to_prose(bms::Tokenize_Error_Code e)
     switch (e) {
     case bms::Tokenize_Error_Code::illegal_character: //
         return "Illegal character encountered.";
+    case bms::Tokenize_Error_Code::no_digits_following_integer_prefix: //
+        return "An integer prefix such as '0x' must be followed by digits.";
+    case bms::Tokenize_Error_Code::unterminated_string: //
+        return "Unterminated string literal found. An opening quote must have a matching closing "
+               "quote.";
     case bms::Tokenize_Error_Code::integer_suffix: //
         return "Suffix after integer literal is not allowed";
     case bms::Tokenize_Error_Code::unterminated_comment: //
-- 
2.43.0


From a7dbc918eed1eadc729e828a152e2dfad2596916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 48/66] fix: expressions mistaken for comparisons because of an
 operator behind them

---
 src/bms/parsing/parse.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 39485bd..3c634c6 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1331,13 +1331,21 @@ private:
             case Token_Type::semicolon: return false;
 
             case Token_Type::left_parenthesis: ++parenthesis_level; break;
-            case Token_Type::right_parenthesis: --parenthesis_level; break;
+            case Token_Type::right_parenthesis:
+                // This parenthesis was opened before the expression, so the expression ends here.
+                if (parenthesis_level == 0) {
+                    return false;
+                }
+                --parenthesis_level;
+                break;
 
             default:
                 if (parenthesis_level != 0) {
                     continue;
                 }
-                if (m_tokens[i].type == Token_Type::keyword_if) {
+                if (m_tokens[i].type == Token_Type::keyword_if
+                    || m_tokens[i].type == Token_Type::keyword_else
+                    || m_tokens[i].type == Token_Type::comma) {
                     return false;
                 }
                 if (is_comparison_operator(m_tokens[i].type)) {
-- 
2.43.0


From 8e5555c2d84f7b033a8f86fd163f4f11b912fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:18 +0000
Subject: [PATCH 49/66] fix: implicit instances of functions declared earlier
 were never analyzed

---
 src/bms/analyze.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index f2eeaf0..9e2e3fd 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <iostream>
 #include <unordered_map>
 
@@ -98,6 +99,30 @@ private:
                 return r;
             }
         }
+        // The analysis of a declaration may add instances to functions which precede it,
+        // and those have not been analyzed yet.
+        bool any_analyzed;
+        do {
+            any_analyzed = false;
+            for (ast::Some_Node* h : node.get_children()) {
+                const auto* const function = get_if<ast::Function>(h);
+                if (!function || !function->is_generic) {
+                    continue;
+                }
+                const bool is_analyzed = std::ranges::all_of(
+                    function->instances, [level](const ast::Function::Instance& instance) {
+                        return get<ast::Function>(*instance.handle).analysis_so_far >= level;
+                    });
+                if (is_analyzed) {
+                    continue;
+                }
+                any_analyzed = true;
+                auto r = analyze_types(h, level, Expression_Context::normal);
+                if (!r) {
+                    return r;
+                }
+            }
+        } while (any_analyzed);
         node.const_value() = Value::Void;
         return {};
     }
-- 
2.43.0


From 7a7ea3975999bcfe33f0d124f5ff3607f8b786a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:41 +0000
Subject: [PATCH 50/66] fix: digits missing when printing large integers

---
 src/common/diagnostics.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index b410af2..cc1bbb1 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -32,8 +32,12 @@ std::string to_string(Uint128 x)
     /// The greatest power of 10 that fits into a 64-bit integer.
     constexpr Uint128 exp10_19 = 10000000000000000000ull;
 
-    return x <= std::uint64_t(-1) ? std::to_string(Uint64(x))
-                                  : to_string(x / exp10_19) + std::to_string(Uint64(x % exp10_19));
+    if (x <= std::uint64_t(-1)) {
+        return std::to_string(Uint64(x));
+    }
+    std::string lower_digits = std::to_string(Uint64(x % exp10_19));
+    lower_digits.insert(0, 19 - lower_digits.size(), '0');
+    return to_string(x / exp10_19) + lower_digits;
 }
 
 std::string to_string(Int128 x)
-- 
2.43.0


From 378014aae471d753eb641eebd4c1d11014d629b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 51/66] fix: parsing time doubled with every nested parenthesis

---
 src/bms/parsing/parse.cpp | 91 +++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 51 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 3c634c6..fda940b 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -487,32 +487,6 @@ private:
 
     using Rule_Result = Result<astp::Some_Node, Rule_Error>;
 
-    struct Scoped_Attempt {
-        Parser& self;
-        const Size pos;
-        const Size node_count;
-
-        explicit Scoped_Attempt(Parser& self)
-            : self(self)
-            , pos(self.m_pos)
-            , node_count(self.m_program.get_node_count())
-        {
-        }
-
-        ~Scoped_Attempt() noexcept(false)
-        {
-            BIT_MANIPULATION_ASSERT(self.m_pos >= pos);
-            BIT_MANIPULATION_ASSERT(self.m_program.get_node_count() >= node_count);
-            self.m_pos = pos;
-            self.m_program.downsize_nodes(node_count);
-        }
-    };
-
-    Scoped_Attempt start_attempt()
-    {
-        return Scoped_Attempt { *this };
-    }
-
     [[maybe_unused]] Result<std::optional<astp::Some_Node>, Rule_Error>
     optionally_match(Rule_Result (Parser::*match)(), bool condition)
     {
@@ -1178,22 +1152,23 @@ private:
 
     Rule_Result match_expression()
     {
-        bool is_conversion_expression = [&]() {
-            Scoped_Attempt always_roll_back = start_attempt();
-            return match_prefix_expression() && peek(Token_Type::keyword_as);
-        }();
-
-        return is_conversion_expression ? match_conversion_expression() //
-                                        : match_if_expression();
+        // All alternatives begin with a prefix expression.
+        // It is matched only once so that the effort doesn't double with every parenthesis.
+        const bool is_comparison = should_binary_expression_commit_to_comparison_expression();
+        auto left = match_prefix_expression();
+        if (!left) {
+            return left;
+        }
+        if (peek(Token_Type::keyword_as)) {
+            return match_conversion_expression_after(std::move(*left));
+        }
+        return match_if_expression_after(
+            match_binary_expression_after(std::move(*left), is_comparison));
     }
 
-    Rule_Result match_conversion_expression()
+    Rule_Result match_conversion_expression_after(astp::Some_Node&& expression)
     {
         constexpr auto this_rule = Grammar_Rule::conversion_expression;
-        auto expression = match_prefix_expression();
-        if (!expression) {
-            return expression;
-        }
         if (!expect(Token_Type::keyword_as)) {
             return Rule_Error { this_rule, const_array_one_v<Token_Type::keyword_as> };
         }
@@ -1202,14 +1177,18 @@ private:
             return type;
         }
         return astp::Some_Node { astp::Conversion_Expression {
-            get_source_position(*expression), m_program.push_node(std::move(*expression)),
+            get_source_position(expression), m_program.push_node(std::move(expression)),
             m_program.push_node(std::move(*type)) } };
     }
 
     Rule_Result match_if_expression()
+    {
+        return match_if_expression_after(match_binary_expression());
+    }
+
+    Rule_Result match_if_expression_after(Rule_Result left)
     {
         constexpr auto this_rule = Grammar_Rule::if_expression;
-        auto left = match_binary_expression();
         if (!left || !expect(Token_Type::keyword_if)) {
             return left;
         }
@@ -1231,25 +1210,30 @@ private:
 
     Rule_Result match_binary_expression()
     {
-        // FIXME: use a similar roll_back_after approach to match_conversion_expression
-        if (should_binary_expression_commit_to_comparison_expression()) {
-            return match_comparison_expression();
-        }
-
+        const bool is_comparison = should_binary_expression_commit_to_comparison_expression();
         auto left = match_prefix_expression();
         if (!left) {
             return left;
         }
+        return match_binary_expression_after(std::move(*left), is_comparison);
+    }
+
+    Rule_Result match_binary_expression_after(astp::Some_Node&& left, bool is_comparison)
+    {
+        if (is_comparison) {
+            return match_comparison_expression_after(std::move(left));
+        }
+
         const Token* op = expect(is_binary_operator);
         if (!op) {
-            return left;
+            return std::move(left);
         }
         auto right = match_prefix_expression();
         if (!right) {
             return right;
         }
         return astp::Some_Node { astp::Binary_Expression {
-            op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
+            op->pos, m_program.push_node(std::move(left)), m_program.push_node(std::move(*right)),
             op->type } };
     }
 
@@ -1356,14 +1340,14 @@ private:
         return false;
     }
 
-    Rule_Result match_comparison_expression()
+    Rule_Result match_comparison_expression_after(astp::Some_Node&& first)
     {
         constexpr auto this_rule = Grammar_Rule::comparison_expression;
         static constexpr Token_Type expected[]
             = { Token_Type::equals,       Token_Type::not_equals,    Token_Type::less_than,
                 Token_Type::greater_than, Token_Type::less_or_equal, Token_Type::greater_or_equal };
 
-        auto left = match_arithmetic_expression();
+        auto left = match_arithmetic_expression_after(std::move(first));
         if (!left) {
             return left;
         }
@@ -1386,16 +1370,21 @@ private:
         if (!left) {
             return left;
         }
+        return match_arithmetic_expression_after(std::move(*left));
+    }
+
+    Rule_Result match_arithmetic_expression_after(astp::Some_Node&& left)
+    {
         const Token* op = expect(is_arithmetic_operator);
         if (!op) {
-            return left;
+            return std::move(left);
         }
         auto right = match_prefix_expression();
         if (!right) {
             return right;
         }
         return astp::Some_Node { astp::Binary_Expression {
-            op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
+            op->pos, m_program.push_node(std::move(left)), m_program.push_node(std::move(*right)),
             op->type } };
     }
 
-- 
2.43.0


From acff09c4fd3e7178854e5fc3cc634ee6dfbe7582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 52/66] fix: running past the last instruction is an execution
 error rather than std::out_of_range

---
 src/bms/vm/vm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 5c7bf1b..a4e0faa 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -215,7 +215,13 @@ struct Cycle_Impl {
 Result<void, Execution_Error> Virtual_Machine::cycle()
 {
     const auto counter = m_instruction_counter;
-    const Instruction& next = m_instructions.at(counter);
+    if (counter >= m_instructions.size()) {
+        // E.g. because a function which returns a value has no return statement at its end.
+        return Execution_Error { Execution_Error_Code::jump_out_of_program,
+                                 m_instructions.empty() ? Debug_Info {}
+                                                        : get_debug_info(m_instructions.back()) };
+    }
+    const Instruction& next = m_instructions[counter];
     auto result = visit(Cycle_Impl { *this }, next);
     if (!result) {
         return result;
-- 
2.43.0


From da2910267e92972d546f579d49c1523c0d2a7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:46 +0000
Subject: [PATCH 53/66] fix: failures to write a line to stdout were reported
 as success

---
 src/cli/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 577c45a..5516efd 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -254,7 +255,9 @@ int main(int argc, const char** argv)
 {
     const int result = bit_manipulation::main(argc, argv);
 
-    if (!std::cout.flush()) {
+    // When stdout is line-buffered, the C library does not report failures from the call which
+    // has written the line, and only sets the error indicator.
+    if (!std::cout.flush() || std::ferror(stdout)) {
         bit_manipulation::print_io_error(std::cerr, "stdout",
                                          bit_manipulation::IO_Error_Code::write_error,
                                          bit_manipulation::colors);
-- 
2.43.0


From ec8ba14b16dd7e55ed07b2ffee8ed001685b80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:04 +0000
Subject: [PATCH 54/66] fix: an AST node that could not be recorded was freed
 without being destroyed

---
 src/bms/ast.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 27f3c3f..585fd89 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -322,11 +322,15 @@ struct Analyzed_Program::Implementation {
     [[nodiscard]] ast::Some_Node* emplace(Args&&... args)
     {
         void* storage = m_memory_resource.allocate(sizeof(ast::Some_Node), alignof(ast::Some_Node));
+        ast::Some_Node* result = nullptr;
         try {
-            auto* result = new (storage) ast::Some_Node(T(std::forward<Args>(args)...));
+            result = new (storage) ast::Some_Node(T(std::forward<Args>(args)...));
             m_nodes.push_back(result);
             return result;
         } catch (...) {
+            if (result) {
+                std::destroy_at(result);
+            }
             m_memory_resource.deallocate(storage, sizeof(ast::Some_Node), alignof(ast::Some_Node));
             throw;
         }
-- 
2.43.0


From 4d1d43959f3eb2b96c03fd1867bee2878097f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:02 +0000
Subject: [PATCH 55/66] fix: a call to a function under analysis read an
 uninitialized return type

---
 src/bms/analyze.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 9e2e3fd..ec59eaa 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -198,9 +198,12 @@ private:
                         .cause(handle)
                         .build();
                 }
-                node.const_value() = expr_const_value;
             }
         }
+        // Calls to this function rely on its value once it has been analyzed shallowly.
+        // This also has to work while the body is being analyzed (i.e. for recursive functions),
+        // and after the analysis of the body has failed.
+        node.const_value() = get_const_value(*node.get_return_type_node());
 
         if (node.analysis_so_far < Analysis_Level::shallow) {
             node.analysis_so_far = Analysis_Level::shallow;
@@ -225,7 +228,6 @@ private:
             }
         }
         BIT_MANIPULATION_ASSERT(!node.is_generic);
-        node.const_value() = get_const_value(*node.get_return_type_node());
         node.analysis_so_far = level;
         return {};
     }
-- 
2.43.0


From c2cacdbff42984a76a5499f5647869447247cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:21 +0000
Subject: [PATCH 56/66] fix: unbounded recursion when the signature of a
 function depends on the function itself

---
 src/bms/analyze.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index ec59eaa..819ff8d 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -154,6 +154,9 @@ private:
         }
         BIT_MANIPULATION_ASSERT(node.instances.empty());
 
+        // The widths of the types in the signature may also depend on the function itself.
+        auto scope = push_function(&node);
+
         for (Parameter& parameter : node.get_parameters()) {
             auto r = analyze_types(parameter.get_type_node(), parameter.get_type(), level,
                                    Expression_Context::normal);
@@ -166,7 +169,6 @@ private:
             !r) {
             return r;
         }
-        auto scope = push_function(&node);
 
         if (node.get_requires_clause_node() != nullptr) {
             auto& expr_const_value = get_const_value(*node.get_requires_clause_node());
-- 
2.43.0


From e717b8a28b2774f844d985cbf2a608a2096fbb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:52 +0000
Subject: [PATCH 57/66] fix: content given back to the wrong memory resource
 after move assignment of programs

---
 src/bms/ast.cpp           | 1 +
 src/bms/parsing/parse.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 585fd89..db3149b 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -544,6 +544,7 @@ Analyzed_Program& Analyzed_Program::operator=(Analyzed_Program&& other) noexcept
     if (old) {
         allocator().delete_object(old);
     }
+    m_memory = other.m_memory;
     return *this;
 }
 
diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index fda940b..e4a3266 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -46,6 +46,7 @@ Parsed_Program& Parsed_Program::operator=(Parsed_Program&& other) noexcept
     if (old) {
         allocator().delete_object(old);
     }
+    m_memory = other.m_memory;
     return *this;
 }
 
-- 
2.43.0


From 6525d77ae71dd700de718cbf504b994375e8964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:58 +0000
Subject: [PATCH 58/66] fix: internal error for malformed annotation arguments

---
 src/bms/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index e4a3266..c1070d5 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -834,6 +834,9 @@ private:
             }
             return r;
         }();
+        if (!arguments) {
+            return arguments.error();
+        }
         return astp::Some_Node { astp::Annotation { at->pos, m_program.extract(id->pos),
                                                     std::move(*arguments) } };
     }
-- 
2.43.0


From 148f8760737c1c9007082dea437dfeb21ef0545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:01 +0000
Subject: [PATCH 59/66] fix: generated BMS code lost parentheses around the
 operand of a conversion

---
 src/bmd/codegen/codegen_bms.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index f88ce1e..5b2e06f 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -106,6 +106,10 @@ private:
                                          const Some_Node& inner) const final
     {
         const bms::Expression_Type inner_type = bms::ast::get_expression_type(inner);
+        // Only prefix expressions can be converted without parentheses.
+        if (outer_type == bms::Expression_Type::conversion && bms::is_binary(inner_type)) {
+            return true;
+        }
         return !std::is_lteq(bms::compare_precedence(outer_type, inner_type));
     }
 
-- 
2.43.0


From 29b40f281f71a45a22e853ce4f8ecaf4a5690751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:04 +0000
Subject: [PATCH 60/66] fix: generated BMS code lost requires-clauses

---
 src/bmd/codegen/codegen_bms.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 5b2e06f..077e30f 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -178,6 +178,13 @@ struct Bms_Code_Generator::Visitor {
             return r;
         }
 
+        if (const Some_Node* requires_clause = function.get_requires_clause_node()) {
+            self.write_infix_keyword(bms::Token_Type::keyword_requires);
+            if (auto r = self.generate_code(requires_clause); !r) {
+                return r;
+            }
+        }
+
         self.separate_after_function();
         if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
             return r;
-- 
2.43.0


From 2d293ed61ea067ee33182587870c2ff490764ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:07 +0000
Subject: [PATCH 61/66] fix: generated BMS code lost the keyword before
 else-blocks

---
 src/bmd/codegen/codegen_bms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 077e30f..4e95f2c 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -317,6 +317,9 @@ struct Bms_Code_Generator::Visitor {
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.m_out.append(' ');
+                self.write_keyword(bms::Token_Type::keyword_else);
+                self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
-- 
2.43.0


From 21ee8fc452798bff86d1e7d252ab90557d45fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:11 +0000
Subject: [PATCH 62/66] fix: generated BMS code lacked the semicolon after call
 statements

---
 src/bmd/codegen/codegen_bms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 4e95f2c..279fc1a 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -499,6 +499,9 @@ struct Bms_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From c6fd178eaa847ba3df5eca3f0f54646cfacd7210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:50 +0000
Subject: [PATCH 63/66] fix: internal error for carriage returns within lines
 of highlighted code

---
 src/bmd/html/html_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index cf3c5e1..bc963d3 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -260,8 +260,8 @@ auto HTML_Writer::write_source_gap(const Local_Source_Span& first,
                                    Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state != State::attributes && m_state != State::initial);
-    BIT_MANIPULATION_ASSERT(first.line < second.line
-                            || (first.line == second.line && first.column <= second.column));
+    // Columns are not compared because a carriage return goes back to the first one.
+    BIT_MANIPULATION_ASSERT(first.line <= second.line && first.begin <= second.begin);
 
     if (style == Formatting_Style::pre) {
         if (first.line != second.line) {
-- 
2.43.0


From bd20671a803503b5d46c851cdc87e6817d24d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:37 +0000
Subject: [PATCH 64/66] fix: line numbers after string literals that span
 multiple lines

---
 src/bmd/html/bms_to_html.cpp      | 7 ++++++-
 src/bms/tokenization/tokenize.cpp | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/bms_to_html.cpp b/src/bmd/html/bms_to_html.cpp
index 3e773a0..8ce1717 100644
--- a/src/bmd/html/bms_to_html.cpp
+++ b/src/bmd/html/bms_to_html.cpp
@@ -91,7 +91,12 @@ void tokens_to_html(HTML_Writer& out, std::span<const bms::Token> tokens, std::s
 {
     for (Size i = 0; i < tokens.size(); ++i) {
         if (i != 0) {
-            out.write_source_gap(tokens[i - 1].pos, tokens[i].pos, Formatting_Style::pre);
+            // The previous token itself may span multiple lines, which are already written.
+            Local_Source_Span previous = tokens[i - 1].pos;
+            for (char c : code.substr(previous.begin, previous.length)) {
+                previous.line += c == '\n';
+            }
+            out.write_source_gap(previous, tokens[i].pos, Formatting_Style::pre);
         }
 
         const Code_Span_Type category = categorize_token_type(tokens[i].type);
diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 7652100..fc51837 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -226,7 +226,8 @@ Result<void, Tokenize_Error> Tokenizer::tokenize(std::pmr::vector<Token>& out)
         pos.length = result->length;
         out.push_back({ pos, result->type });
 
-        if (result->type != Token_Type::block_comment) {
+        if (result->type != Token_Type::block_comment
+            && result->type != Token_Type::string_literal) {
             // Special case for all tokens that aren't multi-line.
             // We could just advance the position as usual, but it is much cheaper if we know
             // that there are no newline characters anyway.
-- 
2.43.0


From c08536c23943a290f07f25760c227b579313bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:40 +0000
Subject: [PATCH 65/66] fix: superscript directives were converted to subscript
 elements

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 20c69cf..aea90bd 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -216,7 +216,7 @@ std::string_view directive_type_tag(Directive_Type type)
     case quoted: return "q";
     case strikethrough: return "s";
     case subscript: return "sub";
-    case superscript: return "sub";
+    case superscript: return "sup";
     case teletype: return "tt";
     case underlined: return "u";
     case unordered_list: return "ul";
-- 
2.43.0


From 6256de4bdcf2cbabc5d3115bd4894f95786e3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:41 +0000
Subject: [PATCH 66/66] fix: quotes in attribute values were not escaped in
 HTML

---
 src/bmd/html/html_writer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index bc963d3..6b3dd22 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -209,7 +209,16 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
         m_out.write('=', HTML_Token_Type::attribute_equal);
         if (requires_quotes_in_attribute(value)) {
             m_out.write('"', HTML_Token_Type::attribute_quote);
-            m_out.write(value, HTML_Token_Type::attribute_value);
+            while (!value.empty()) {
+                const Size quote_pos = value.find('"');
+                m_out.write(value.substr(0, quote_pos), HTML_Token_Type::attribute_value);
+                if (quote_pos == std::string_view::npos) {
+                    break;
+                }
+                // Quotes must be escaped, or they would end the value prematurely.
+                m_out.write("&quot;", HTML_Token_Type::attribute_value);
+                value.remove_prefix(quote_pos + 1);
+            }
             m_out.write('"', HTML_Token_Type::attribute_quote);
         }
         else {
-- 
2.43.0

