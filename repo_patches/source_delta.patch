From ae21d2bdb36e9df785f4dce74d704b083496ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 01/90] fix: floating point to integer assignment accepted NaN
 and values one past the integer range

---
 include/dynd/assignment.hpp | 46 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 8a92aa2..d20ccfd 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -240,13 +240,25 @@ check_cast(ArgType s, inexact_check_t) {
   return d;
 }
 
+// Whether a floating point value lies between the limits of an integer type. Not true for NaN. The upper limit
+// of an integer type with more digits than the floating point type rounds up to a value the integer cannot hold.
+template <typename IntType, typename RealType>
+bool is_in_int_range(RealType s) {
+DYND_ALLOW_INT_FLOAT_CAST
+  const RealType min = static_cast<RealType>(std::numeric_limits<IntType>::min());
+  const RealType max = static_cast<RealType>(std::numeric_limits<IntType>::max());
+DYND_END_ALLOW_INT_FLOAT_CAST
+  if (std::numeric_limits<IntType>::digits > std::numeric_limits<RealType>::digits) {
+    return s >= min && s < max;
+  }
+  return s >= min && s <= max;
+}
+
 // Floating point -> signed int with overflow checking
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (!is_in_int_range<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -267,9 +279,7 @@ overflow_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (!is_in_int_range<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -284,9 +294,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (!is_in_int_range<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -305,9 +313,7 @@ overflow_cast(ArgType s) {
     ss << s << " to " << ndt::make_type<RetType>();
     throw std::runtime_error(ss.str());
   }
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (!is_in_int_range<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -508,9 +514,7 @@ overflow_cast(ArgType s) {
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (!is_in_int_range<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -537,9 +541,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (!is_in_int_range<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -560,9 +562,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (!is_in_int_range<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -589,9 +589,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (!is_in_int_range<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
-- 
2.43.0


From 32af278fe47d2c00bd92485ff2fa52c6a569e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 02/90] fix: complex to narrower complex or real assignment
 rejected infinities

---
 include/dynd/assignment.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index d20ccfd..33e2e0f 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -129,7 +129,8 @@ check_cast(ArgType arg, inexact_check_t) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (arg.real() < -std::numeric_limits<float>::max() || arg.real() > std::numeric_limits<float>::max()) {
+  if (isfinite(arg.real()) &&
+      (arg.real() < -std::numeric_limits<float>::max() || arg.real() > std::numeric_limits<float>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << arg << " to " << ndt::make_type<float>();
@@ -198,8 +199,10 @@ check_cast(ArgType s, inexact_check_t DYND_UNUSED(check)) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) &&
+       (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) &&
+       (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
@@ -444,7 +447,8 @@ std::enable_if_t<is_floating_point<RetType>::value && is_complex<ArgType>::value
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max()) {
+  if (isfinite(s.real()) &&
+      (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -499,8 +503,10 @@ overflow_cast(ArgType s) {
   }
   return d;
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) &&
+       (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) &&
+       (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
-- 
2.43.0


From 8d0ff7332a23d8eca3505090301320f701f0f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 03/90] fix: slicing with a very large step computed a wrong
 dimension size

---
 src/dynd/shape_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index db02636..3a0c287 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -365,7 +365,7 @@ void dynd::apply_single_linear_index(const irange &irnge, intptr_t dimension_siz
         // Range with a stride
         out_start_index = start;
         out_index_stride = step;
-        out_dimension_size = (size + step - 1) / step;
+        out_dimension_size = (size - 1) / step + 1;
       }
     }
     else {
@@ -458,7 +458,7 @@ void dynd::apply_single_linear_index(const irange &irnge, intptr_t dimension_siz
         // Range with a stride
         out_start_index = start;
         out_index_stride = step;
-        out_dimension_size = (size + (-step) - 1) / (-step);
+        out_dimension_size = 1 - (size - 1) / step;
       }
     }
     else {
-- 
2.43.0


From 55ed6353c11eaef2f62fa05a521772d98a0702d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 04/90] fix: unchecked UTF-8 decoding did not advance past
 malformed sequences

---
 src/dynd/string_encodings.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 6f1135a..323f129 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -133,6 +133,8 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   utf8::internal::utf_error err = utf8::internal::UTF8_OK;
   switch (length) {
   case 0:
+    // Skip the invalid lead byte, so that decoding always makes progress
+    ++it;
     return ERROR_SUBSTITUTE_CODEPOINT;
   case 1:
     err = utf8::internal::get_sequence_1(it, end, cp);
@@ -149,11 +151,11 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   }
 
   if (err == utf8::internal::UTF8_OK) {
-    // Decoding succeeded. Now, security checks...
+    // Decoding succeeded, move past the last byte of the sequence. Now, security checks...
+    ++it;
     if (utf8::internal::is_code_point_valid(cp)) {
       if (!utf8::internal::is_overlong_sequence(cp, length)) {
         // Passed! Return here.
-        ++it;
         return cp;
       } else {
         return ERROR_SUBSTITUTE_CODEPOINT;
-- 
2.43.0


From 976d1d463e3581450b7193b045926e0b9647b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 05/90] fix: unchecked UTF-16 decoding read past the end of its
 input

---
 src/dynd/string_encodings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 323f129..0a9c681 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -240,7 +240,7 @@ uint32_t noerror_next_utf16(const char *&it_raw, const char *end_raw) {
   it_raw += 2;
   // Take care of surrogate pairs first
   if (utf8::internal::is_lead_surrogate(cp)) {
-    if (it_raw <= end_raw + 2) {
+    if (it_raw + 2 <= end_raw) {
       uint32_t trail_surrogate = *reinterpret_cast<const uint16_t *>(it_raw);
       it_raw += 2;
       if (utf8::internal::is_trail_surrogate(trail_surrogate)) {
-- 
2.43.0


From f8d305feb8d2efaf7d5d5f5c65baf1e77a51fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 06/90] fix: fixed_string assignment rejected text that exactly
 fills the destination

---
 include/dynd/kernels/assignment_kernels.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 78bcd5b..ef8dc7f 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1325,7 +1325,8 @@ namespace nd {
           }
         }
         if (src_copy < src_end) {
-          if (m_overflow_check) {
+          // A terminator right after the last character that fit means nothing was cut off
+          if (m_overflow_check && next_fn(const_cast<const char *&>(src_copy), src_end) != 0) {
             throw std::runtime_error("Input string is too large to convert to "
                                      "destination fixed-size string");
           }
-- 
2.43.0


From 51ffaf5b4587cf0f3cf44a06523716561c93e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 07/90] fix: parsing unsigned integers did not detect every
 overflow

---
 include/dynd/parse_util.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index dec3e89..9a0711c 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -924,15 +924,18 @@ std::enable_if_t<is_boolean<T>::value, T> parse(const char *begin, const char *e
 template <typename T>
 std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T>::value, T> parse(const char *begin,
                                                                                                    const char *end) {
-  T result = 0, prev_result = 0;
+  T result = 0;
   if (begin == end) {
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
   }
   while (begin < end) {
     char c = *begin;
     if ('0' <= c && c <= '9') {
-      result = (result * 10u) + static_cast<T>(c - '0');
-      if (result < prev_result) {
+      T digit = static_cast<T>(c - '0');
+      T prev_result = result;
+      result = (result * 10u) + digit;
+      // After the multiplication, the addition wraps around exactly when the sum is less than the digit
+      if (prev_result > std::numeric_limits<T>::max() / 10u || result < digit) {
         std::stringstream ss;
         ss << "overflow converting string ";
         ss.write(begin, end - begin);
@@ -971,19 +974,17 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
             exponent = (10 * exponent) + (*begin++ - '0');
           }
           if (begin == end) {
-            prev_result = result;
             // Apply the exponent in a naive way, but with
             // overflow checking
             for (int i = 0; i < exponent; ++i) {
-              result = result * 10u;
-              if (result < prev_result) {
+              if (result > std::numeric_limits<T>::max() / 10u) {
                 std::stringstream ss;
                 ss << "overflow converting string ";
                 ss.write(begin, end - begin);
                 ss << " to " << ndt::make_type<T>();
                 throw std::out_of_range(ss.str());
               }
-              prev_result = result;
+              result = result * 10u;
             }
             return result;
           }
@@ -996,7 +997,6 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
       throw std::invalid_argument(ss.str());
     }
     ++begin;
-    prev_result = result;
   }
 
   return result;
-- 
2.43.0


From cf0700e155b869a5c6e690f8f74e3b95c1e9efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 08/90] fix: integer division by an unsigned zero crashed,
 unsigned by floating zero raised

---
 include/dynd/kernels/arithmetic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 9111f3b..61ffefb 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -163,7 +163,7 @@ namespace detail {
     return (std::is_same<Arg0Type, bool1>::value || is_signed_integral<Arg0Type>::value ||
             is_unsigned_integral<Arg0Type>::value) &&
            (std::is_same<Arg1Type, bool1>::value || is_signed_integral<Arg1Type>::value ||
-            is_unsigned_integral<Arg0Type>::value);
+            is_unsigned_integral<Arg1Type>::value);
   }
 
 #define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
-- 
2.43.0


From 8dfcef9183ccf86cfaca3b3571c55760a22b665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 09/90] fix: arithmetic on scalars without an overload recursed
 endlessly

---
 include/dynd/binary_arithmetic.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/dynd/binary_arithmetic.hpp b/include/dynd/binary_arithmetic.hpp
index b5a4b06..8e62daa 100644
--- a/include/dynd/binary_arithmetic.hpp
+++ b/include/dynd/binary_arithmetic.hpp
@@ -51,11 +51,6 @@ nd::callable make_binary_arithmetic() {
            ndt::make_type<ndt::any_kind_type>(),
            ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
                                             ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-           ndt::make_type<ndt::struct_type>())),
-       nd::get_elwise(ndt::make_type<ndt::callable_type>(
-           ndt::make_type<ndt::any_kind_type>(),
-           ndt::make_type<ndt::tuple_type>(
-               {ndt::make_type<ndt::scalar_kind_type>(), ndt::make_type<ndt::scalar_kind_type>()}),
            ndt::make_type<ndt::struct_type>()))});
 
   return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher);
-- 
2.43.0


From 4592cfc8955def30947428b6e4e8c550123ded16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 10/90] fix: tuple and struct comparison mixed up the metadata
 of its operands, overflowed its offset table past 8 fields, ignored field
 counts, and crashed inside arrays

---
 include/dynd/callables/equal_callable.hpp     | 48 ++++++++++---------
 include/dynd/callables/not_equal_callable.hpp | 48 ++++++++++---------
 2 files changed, 52 insertions(+), 44 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 92ab234..82543e2 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -33,15 +33,16 @@ namespace nd {
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
 
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (src_tp[1].extended<ndt::tuple_type>()->get_field_count() != field_count) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      const std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      const std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(
@@ -60,16 +61,17 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          // The tuple kernel always calls its children one element at a time
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::tuple_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::tuple_type>()->get_field_type(i)};
-        equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
+        equal->resolve(this, nullptr, cg, dst_tp, 2, src_field_tp, nkwd, kwds, tp_vars);
       }
 
       return dst_tp;
@@ -89,15 +91,16 @@ namespace nd {
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
 
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (src_tp[1].extended<ndt::struct_type>()->get_field_count() != field_count) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      const std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      const std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<equal_kernel<ndt::struct_type, ndt::struct_type>>(
@@ -116,16 +119,17 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          // The tuple kernel always calls its children one element at a time
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::struct_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::struct_type>()->get_field_type(i)};
-        equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
+        equal->resolve(this, nullptr, cg, dst_tp, 2, src_field_tp, nkwd, kwds, tp_vars);
       }
 
       return dst_tp;
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2a9d07c..2ea3500 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -33,15 +33,16 @@ namespace nd {
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
 
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (src_tp[1].extended<ndt::tuple_type>()->get_field_count() != field_count) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      const std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      const std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(
@@ -60,16 +61,17 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          // The tuple kernel always calls its children one element at a time
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::tuple_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::tuple_type>()->get_field_type(i)};
-        not_equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
+        not_equal->resolve(this, nullptr, cg, dst_tp, 2, src_field_tp, nkwd, kwds, tp_vars);
       }
 
       return dst_tp;
@@ -89,15 +91,16 @@ namespace nd {
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
 
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (src_tp[1].extended<ndt::struct_type>()->get_field_count() != field_count) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      const std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      const std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(
@@ -116,16 +119,17 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          // The tuple kernel always calls its children one element at a time
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::struct_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::struct_type>()->get_field_type(i)};
-        not_equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
+        not_equal->resolve(this, nullptr, cg, dst_tp, 2, src_field_tp, nkwd, kwds, tp_vars);
       }
 
       return dst_tp;
-- 
2.43.0


From cb3cef4cf8854bfe13b4d5e61d76d25ea084c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 11/90] fix: sso_bytestring resize, growth and self-assignment
 corrupted short contents

---
 include/dynd/types/sso_bytestring.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 37f7ae0..9f60a9b 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -28,16 +28,21 @@ protected:
 
   /** When SSO is used, the size is stored in the last byte */
   size_t sso_size() const { return static_cast<size_t>(static_cast<uint64_t>(m_size) >> 56); }
+  void sso_set_size(size_t size) {
+    m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffULL) |
+                                  (static_cast<uint64_t>(size) << 56));
+  }
   /** When SSO is used, the data pointer inside the object */
   char *sso_data() { return reinterpret_cast<char *>(this); }
   const char *sso_data() const { return reinterpret_cast<const char *>(this); }
   constexpr size_t sso_capacity() const { return 15u - NulPadding; }
   /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
   void sso_assign(const char *data, size_t size) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
-      DYND_MEMCPY(sso_data(), data, size);
+      // The data can come from inside of this object
+      memmove(sso_data(), data, size);
       // Zero out the rest of the bytes for a unique representation
       memset(sso_data() + size, 0, 15u - size);
+      sso_set_size(size);
   }
 
   /** When SSO is not used, the size is stored in m_size */
@@ -116,7 +121,7 @@ public:
       }
     } else if (size <= capacity()) {
       char *heapdata = heap_data();
-      DYND_MEMCPY(heapdata, bytestr, size);
+      memmove(heapdata, bytestr, size);
       if (NulPadding) {
         heapdata[size] = 0;
       }
@@ -146,8 +151,13 @@ public:
 
   void append(const char *bytestr, size_t bssize) {
     size_t old_size = size();
+    const char *old_data = data();
+    // The appended bytes can come from inside of this object, which may get reallocated
+    bool is_own = std::less_equal<const char *>()(old_data, bytestr) &&
+                  std::less<const char *>()(bytestr, old_data + old_size);
+    size_t own_offset = is_own ? bytestr - old_data : 0;
     resize_grow(old_size + bssize);
-    DYND_MEMCPY(data() + old_size, bytestr, bssize);
+    DYND_MEMCPY(data() + old_size, is_own ? data() + own_offset : bytestr, bssize);
   }
 
   void clear() {
@@ -174,13 +184,17 @@ public:
   }
 
   /** Like reserve(), but with exponential growth */
-  void reserve_grow(size_t new_capacity) { reserve(std::max(new_capacity, capacity() * 3 / 2)); }
+  void reserve_grow(size_t new_capacity) {
+    if (capacity() < new_capacity) {
+      reserve(std::max(new_capacity, capacity() * 3 / 2));
+    }
+  }
 
   /** Resizes the bytestring to the specified number of bytes */
   void resize(size_t new_size) {
     reserve(new_size);
     if (is_sso()) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(m_size) | (static_cast<uint64_t>(new_size) << 56));
+      sso_set_size(new_size);
       // Always keep the unused SSO bytes as 0 for unique representation and NUL-padding when that is enabled
       memset(sso_data() + new_size, 0, 15u - new_size);
     } else {
-- 
2.43.0


From f45e97c6cec3f9d3a414b144069aeec4e063ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 12/90] fix: string ordering compared bytes as signed, so
 non-ASCII text sorted before ASCII

---
 include/dynd/kernels/total_order_kernel.hpp |  4 +---
 include/dynd/types/string_type.hpp          | 11 +++++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/dynd/kernels/total_order_kernel.hpp b/include/dynd/kernels/total_order_kernel.hpp
index 23fb76c..f201546 100644
--- a/include/dynd/kernels/total_order_kernel.hpp
+++ b/include/dynd/kernels/total_order_kernel.hpp
@@ -33,9 +33,7 @@ namespace nd {
   template <>
   struct total_order_kernel<string, string> : base_strided_kernel<total_order_kernel<string, string>, 2> {
     void single(char *dst, char *const *src) {
-      *reinterpret_cast<int *>(dst) = std::lexicographical_compare(
-          reinterpret_cast<string *>(src[0])->begin(), reinterpret_cast<string *>(src[0])->end(),
-          reinterpret_cast<string *>(src[1])->begin(), reinterpret_cast<string *>(src[1])->end());
+      *reinterpret_cast<int *>(dst) = *reinterpret_cast<string *>(src[0]) < *reinterpret_cast<string *>(src[1]);
     }
   };
 
diff --git a/include/dynd/types/string_type.hpp b/include/dynd/types/string_type.hpp
index aff14c5..49f5adb 100644
--- a/include/dynd/types/string_type.hpp
+++ b/include/dynd/types/string_type.hpp
@@ -43,19 +43,22 @@ public:
   }
 
   bool operator<(const string &rhs) const {
-    return std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
+    // Compare as unsigned bytes, so that the order of UTF-8 strings is the order of their code points
+    return std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end(), [](char lhs_c, char rhs_c) {
+      return static_cast<unsigned char>(lhs_c) < static_cast<unsigned char>(rhs_c);
+    });
   }
 
   bool operator<=(const string &rhs) const {
-    return !std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
+    return !(rhs < *this);
   }
 
   bool operator>=(const string &rhs) const {
-    return !std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
+    return !(*this < rhs);
   }
 
   bool operator>(const string &rhs) const {
-    return std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
+    return rhs < *this;
   }
 
   string operator+(const string &rhs) {
-- 
2.43.0


From 8baeb7db45b8c00c127378eb685cbbf703290ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 13/90] fix: string search skipped matches right after a match,
 read past the end, and rfind of one character found nothing

---
 include/dynd/string_search.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 60111e7..86cd85f 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -43,7 +43,7 @@ namespace detail {
     else {
       const char *s = haystack;
       while (s < haystack + n) {
-        void *candidate = memchr((void *)s, needle, n);
+        void *candidate = memchr((void *)s, needle, haystack + n - s);
         if (candidate == NULL) {
           return;
         }
@@ -59,9 +59,9 @@ namespace detail {
   template <class match_handler>
   void string_search_1char_reverse(const char *haystack, size_t n, char needle, match_handler &handle_match)
   {
-    for (size_t i = n - 1; i <= 0; --i) {
-      if (haystack[i] == needle) {
-        if (handle_match(i)) {
+    for (size_t i = n; i > 0; --i) {
+      if (haystack[i - 1] == needle) {
+        if (handle_match(i - 1)) {
           return;
         }
       }
@@ -147,6 +147,7 @@ namespace detail {
             return;
           }
           i = i + mlast;
+          continue;
         }
         /* miss: check if next character is part of pattern */
         if (i < w && !bloom.has_char(ss[i + 1])) {
-- 
2.43.0


From 421ac2f54248fd837fa4b795088448e3f227c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 14/90] fix: elementwise operations on multidimensional arrays
 with variable-sized, size-one or missing dimensions read the wrong metadata

---
 include/dynd/callables/base_elwise_callable.hpp    |  5 +----
 include/dynd/callables/elwise_callable.hpp         | 14 +++++++-------
 .../dynd/callables/elwise_dispatch_callable.hpp    | 10 ++++++++--
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 56054ee..e1f6b77 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -63,15 +63,12 @@ namespace nd {
             arg_element_tp[i] = arg_tp[i];
           } else {
             arg_size[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_dim_size();
-            if (arg_size[i] == 1) {
-              data.arg_broadcast[i] = true;
-            }
             arg_element_tp[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_element_type();
           }
         }
 
         for (size_t i = 0; i < N; ++i) {
-          data.arg_var[i] = arg_tp[i].get_id() == var_dim_id;
+          data.arg_var[i] = !data.arg_broadcast[i] && arg_tp[i].get_id() == var_dim_id;
         }
 
         intptr_t res_size;
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index c6b2377..5e263c8 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -77,7 +77,9 @@ namespace nd {
               src_stride[i] = 0;
               child_src_arrmeta[i] = src_arrmeta[i];
             } else {
-              src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
+              // A dimension of size one broadcasts
+              const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
+              src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
               child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
             }
           }
@@ -125,9 +127,10 @@ namespace nd {
                 src_stride[i] = 0;
                 child_src_arrmeta[i] = src_arrmeta[i];
               } else {
+                const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
                 src_offset[i] = 0;
-                src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
-                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
+                src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
@@ -140,10 +143,6 @@ namespace nd {
       }
 
       ndt::type with_return_type(intptr_t ret_size, const ndt::type &ret_element_tp) {
-        if (ret_size == 1) {
-          return ndt::make_type<ndt::var_dim_type>(ret_element_tp);
-        }
-
         return ndt::make_type<ndt::fixed_dim_type>(ret_size, ret_element_tp);
       }
     };
@@ -191,6 +190,7 @@ namespace nd {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
                 src_size[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7839a8a..92a068f 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -45,8 +45,14 @@ namespace nd {
         // Do a pass through the src types to classify them
         const std::vector<ndt::type> &child_arg_tp = child_tp->get_argument_types();
         bool src_all_strided = true, src_all_strided_or_var = true;
+        std::array<bool, N> src_missing;
         for (size_t i = 0; i < nsrc; ++i) {
           intptr_t src_ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          src_missing[i] = src_ndim < static_cast<intptr_t>(reinterpret_cast<data_type *>(data)->ndim);
+          if (src_missing[i]) {
+            // An operand without this dimension broadcasts like a strided dimension of size one
+            continue;
+          }
           switch (src_tp[i].get_id()) {
           case fixed_dim_id:
             break;
@@ -65,7 +71,7 @@ namespace nd {
 
         bool var_broadcast = !src_all_strided;
         for (size_t i = 0; i < nsrc; ++i) {
-          var_broadcast &= src_tp[i].get_id() == var_dim_id ||
+          var_broadcast &= src_missing[i] || src_tp[i].get_id() == var_dim_id ||
                            (src_tp[i].get_id() == fixed_dim_id &&
                             src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1);
         }
@@ -78,7 +84,7 @@ namespace nd {
           } else {
             return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
-        } else if (((dst_variadic) || dst_tp.get_id() == var_dim_id) && (var_broadcast || src_all_strided)) {
+        } else if ((dst_variadic && var_broadcast) || (!dst_variadic && dst_tp.get_id() == var_dim_id)) {
           static callable f = make_callable<elwise_callable<var_dim_id, fixed_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else if (src_all_strided_or_var) {
-- 
2.43.0


From cbdae1d836f4fb62d96e49614b3ecbc10501e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 15/90] fix: axis_perm_to_strides returned dimension sizes
 instead of strides

---
 src/dynd/shape_tools.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index 3a0c287..7f51cb9 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -127,7 +127,6 @@ void dynd::axis_perm_to_strides(intptr_t ndim, const int *axis_perm, const intpt
     int i_perm = axis_perm[i];
     intptr_t dim_size = shape[i_perm];
     out_strides[i_perm] = dim_size > 1 ? element_size : 0;
-    out_strides[i_perm] = dim_size;
     element_size *= dim_size;
   }
 }
-- 
2.43.0


From 0c8b5d187d374ffbfa95227b8cac89192d6ab124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 16/90] fix: permute, rotate and transpose of arrays of three
 or more dimensions produced broken types

---
 src/dynd/array.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 8bd213a..59edf98 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -449,7 +449,7 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
       // No more perm dimensions left, leave type as is
       out_transformed_tp = tp;
     } else {
-      if (tp.get_base_id() == dim_kind_id) {
+      if (tp.get_id() == fixed_dim_id || tp.get_id() == var_dim_id) {
         ++pdd->i;
       }
       tp.extended()->transform_child_types(&permute_type_dims, arrmeta_offset, extra, out_transformed_tp,
@@ -478,10 +478,12 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
     intptr_t perm_ndim = max_i - i + 1;
     // If there are more permutation axes left, process the subtype
     if (max_i < pdd->ndim - 1) {
+      ndt::type permuted_subtp;
       pdd->i = max_i + 1;
-      tp.extended()->transform_child_types(&permute_type_dims,
-                                           arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, subtp,
-                                           out_was_transformed);
+      permute_type_dims(subtp, arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, permuted_subtp,
+                        out_was_transformed);
+      pdd->i = i;
+      subtp = permuted_subtp;
     }
     // Apply the permutation
     dimvector shape(perm_ndim), permuted_shape(perm_ndim);
@@ -516,6 +518,10 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
     throw invalid_argument(ss.str());
   }
 
+  if (ndim == 0) {
+    return *this;
+  }
+
   // Make a shallow copy of the arrmeta. When we permute the type,
   // its arrmeta has identical structure, so we can fix it up
   // while we're transforming the type.
@@ -530,7 +536,8 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
   pdd.arrmeta = res.get()->metadata();
   permute_type_dims(get_type(), 0, &pdd, transformed_tp, was_transformed);
 
-  nd::array second_res = make_array(transformed_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+  nd::array second_res =
+      make_array(transformed_tp, const_cast<char *>(cdata()), get_owner() ? get_owner() : *this, get_flags());
   transformed_tp.extended()->arrmeta_copy_construct(second_res->metadata(), res->metadata(), memory_block());
 
   return second_res;
-- 
2.43.0


From 39cb3dcd419d9aaff4b8d2a83f44204bb898435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 17/90] fix: reshape of an array that is not C-contiguous read
 unrelated memory

---
 src/dynd/array.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 59edf98..1c12150 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -878,6 +878,19 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
     throw invalid_argument(ss.str());
   }
 
+  // The elements of anything which isn't a C-order contiguous block have to be gathered first
+  const size_stride_t *md = reinterpret_cast<const size_stride_t *>(a->metadata());
+  bool contiguous = a.get_type().get_strided_ndim() >= old_ndim;
+  for (intptr_t i = old_ndim - 1, stride = a.get_dtype().get_data_size(); contiguous && i >= 0; --i) {
+    contiguous = md[i].dim_size <= 1 || md[i].stride == stride;
+    stride *= md[i].dim_size;
+  }
+  if (!contiguous) {
+    nd::array copy = nd::empty(ndt::make_type(old_ndim, old_shape.get(), a.get_dtype()));
+    copy.assign(a);
+    return reshape(copy, shape);
+  }
+
   dimvector strides(ndim);
   strides[ndim - 1] = a.get_dtype().get_data_size();
   for (intptr_t i = ndim - 2; i >= 0; --i) {
-- 
2.43.0


From b52667512ef4e400edae41898eee62f6be0194df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 18/90] fix: the sum identity wrote an int32 whatever the type
 being summed

---
 src/dynd/sum.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/dynd/sum.cpp b/src/dynd/sum.cpp
index 756064d..7bb2f1b 100644
--- a/src/dynd/sum.cpp
+++ b/src/dynd/sum.cpp
@@ -19,14 +19,36 @@ static std::vector<ndt::type> func_ptr(const ndt::type &DYND_UNUSED(dst_tp), siz
   return {src_tp[0].get_dtype()};
 }
 
+static std::vector<ndt::type> func_ptr_dst(const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc),
+                                           const ndt::type *DYND_UNUSED(src_tp)) {
+  return {dst_tp};
+}
+
+// The identity has to be of the type being summed
+template <typename T>
+struct zero_kernel : nd::base_strided_kernel<zero_kernel<T>, 0> {
+  void single(char *dst, char *const *DYND_UNUSED(src)) { *reinterpret_cast<T *>(dst) = T(0); }
+};
+
+template <typename T>
+class zero_callable : public nd::default_instantiable_callable<zero_kernel<T>> {
+public:
+  zero_callable()
+      : nd::default_instantiable_callable<zero_kernel<T>>(ndt::make_type<ndt::callable_type>(ndt::make_type<T>(), {})) {
+  }
+};
+
+typedef type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float16, float, double,
+                      dynd::complex<float>, dynd::complex<double>>
+    sum_types;
+
 } // unnamed namespace
 
 DYND_API nd::callable nd::sum = nd::functional::reduction(
-    [] { return 0; },
+    nd::make_callable<nd::multidispatch_callable<1>>(
+        ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
+        nd::callable::make_all<zero_callable, sum_types>(func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
                                            {ndt::make_type<ndt::scalar_kind_type>()}),
-        nd::callable::make_all<nd::sum_callable,
-                               type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t,
-                                             float16, float, double, dynd::complex<float>, dynd::complex<double>>>(
-            func_ptr)));
+        nd::callable::make_all<nd::sum_callable, sum_types>(func_ptr)));
-- 
2.43.0


From cfafab8f3f7d2ec1232e3dc678461ebbeb8f4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 19/90] fix: min and max of arrays holding only infinities
 returned a finite value

---
 src/dynd/statistics.cpp | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/dynd/statistics.cpp b/src/dynd/statistics.cpp
index 15f21bf..9d4271f 100644
--- a/src/dynd/statistics.cpp
+++ b/src/dynd/statistics.cpp
@@ -3,8 +3,7 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
-#include <dynd/callables/limits/max_callable.hpp>
-#include <dynd/callables/limits/min_callable.hpp>
+#include <dynd/callables/default_instantiable_callable.hpp>
 #include <dynd/callables/max_callable.hpp>
 #include <dynd/callables/mean_callable.hpp>
 #include <dynd/callables/min_callable.hpp>
@@ -29,12 +28,46 @@ static std::vector<ndt::type> func_ptr_dst(const ndt::type &dst_tp, size_t DYND_
   return {dst_tp};
 }
 
+// The value no other value is less than, infinite for floating point
+template <typename T>
+struct least_kernel : nd::base_strided_kernel<least_kernel<T>, 0> {
+  void single(char *dst, char *const *DYND_UNUSED(src)) {
+    *reinterpret_cast<T *>(dst) =
+        std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest();
+  }
+};
+
+template <typename T>
+class least_callable : public nd::default_instantiable_callable<least_kernel<T>> {
+public:
+  least_callable()
+      : nd::default_instantiable_callable<least_kernel<T>>(
+            ndt::make_type<ndt::callable_type>(ndt::make_type<T>(), {})) {}
+};
+
+// The value no other value is greater than, infinite for floating point
+template <typename T>
+struct greatest_kernel : nd::base_strided_kernel<greatest_kernel<T>, 0> {
+  void single(char *dst, char *const *DYND_UNUSED(src)) {
+    *reinterpret_cast<T *>(dst) =
+        std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
+  }
+};
+
+template <typename T>
+class greatest_callable : public nd::default_instantiable_callable<greatest_kernel<T>> {
+public:
+  greatest_callable()
+      : nd::default_instantiable_callable<greatest_kernel<T>>(
+            ndt::make_type<ndt::callable_type>(ndt::make_type<T>(), {})) {}
+};
+
 } // unnnamed namespace
 
 DYND_API nd::callable nd::max = nd::functional::reduction(
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
-        nd::callable::make_all<nd::limits::min_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
+        nd::callable::make_all<least_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
                                                                        uint16_t, uint32_t, uint64_t, float, double>>(
             func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
@@ -47,7 +80,7 @@ DYND_API nd::callable nd::mean = nd::make_callable<nd::mean_callable>(ndt::make_
 DYND_API nd::callable nd::min = nd::functional::reduction(
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
-        nd::callable::make_all<nd::limits::max_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
+        nd::callable::make_all<greatest_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
                                                                        uint16_t, uint32_t, uint64_t, float, double>>(
             func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
-- 
2.43.0


From adbbe779b85e19cf403891c85efebcc32ece7417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 20/90] fix: reductions over size-zero, size-one or
 variable-sized dimensions read or wrote the wrong memory

---
 .../callables/base_reduction_callable.hpp     | 37 ++++++++++++-----
 include/dynd/callables/reduction_callable.hpp |  3 ++
 include/dynd/kernels/reduction_kernel.hpp     | 40 ++++++++++++++-----
 3 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index e985a12..a1fe323 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -36,6 +36,15 @@ namespace nd {
 
       base_reduction_callable() : base_callable(ndt::type()) {}
 
+      /**
+       * Passed as the instantiation data of the dimensions inside of a reduced dimension of size zero, which have
+       * no elements to read: they only initialize the destination.
+       */
+      static char *empty_data() {
+        static char tag;
+        return &tag;
+      }
+
       virtual void resolve(call_graph &cg, char *data) = 0;
 
       ndt::type resolve(base_callable *caller, char *data, call_graph &cg, const ndt::type &res_tp, size_t nsrc,
@@ -104,9 +113,10 @@ namespace nd {
         bool broadcast = reinterpret_cast<node_type *>(data)->broadcast;
         bool keepdim = reinterpret_cast<node_type *>(data)->keepdim;
 
-        cg.emplace_back([inner, broadcast, keepdim](kernel_builder &kb, kernel_request_t kernreq,
-                                                    char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+        cg.emplace_back([inner, broadcast, keepdim](kernel_builder &kb, kernel_request_t kernreq, char *data,
+                                                    const char *dst_arrmeta, size_t nsrc,
                                                     const char *const *src_arrmeta) {
+          bool empty = data == empty_data();
           if (inner) {
             if (!broadcast) {
               intptr_t src_size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
@@ -120,7 +130,7 @@ namespace nd {
               }
               e->_size = src_size;
 
-              e->size_first = e->_size;
+              e->size_first = empty ? 0 : e->_size;
               for (size_t i = 0; i < NArg; ++i) {
                 e->src_stride_first[i] = 0;
               }
@@ -157,7 +167,7 @@ namespace nd {
               // The striding parameters
               self_k->_size = src_size;
               // Need to retrieve 'e' again because it may have moved
-              self_k->size_first = self_k->_size;
+              self_k->size_first = empty ? 0 : self_k->_size;
               self_k->dst_stride_first = 0;
               for (size_t i = 0; i < NArg; ++i) {
                 self_k->src_stride_first[i] = 0;
@@ -184,12 +194,13 @@ namespace nd {
                                                                                         src_arrmeta);
               kernreq = kernel_request_strided;
             } else {
-              kb.emplace_back<reduction_kernel<ndt::fixed_dim_type, false, false, NArg>>(kernreq, src_size,
+              empty = empty || src_size == 0;
+              kb.emplace_back<reduction_kernel<ndt::fixed_dim_type, false, false, NArg>>(kernreq, empty ? 1 : src_size,
                                                                                          src_arrmeta);
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
+            kb(kernreq, empty ? empty_data() : nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
                src_element_arrmeta);
           }
         });
@@ -198,14 +209,18 @@ namespace nd {
 
     template <size_t NArg>
     class reduction_callable<var_dim_id, NArg> : public base_reduction_callable {
-      void resolve(call_graph &cg, char *DYND_UNUSED(data)) {
-        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq,
-                           char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) {
+      void resolve(call_graph &cg, char *data) {
+        if (!reinterpret_cast<node_type *>(data)->inner || reinterpret_cast<node_type *>(data)->broadcast) {
+          throw std::runtime_error("a variable-sized dimension must be the innermost one and reduced in a reduction");
+        }
+
+        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
+                           size_t nsrc, const char *const *src_arrmeta) {
           typedef reduction_kernel<ndt::var_dim_type, false, true, NArg> self_type;
           intptr_t root_ckb_offset = kb.size();
           kb.emplace_back<self_type>(
-              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride);
+              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride,
+              data == empty_data());
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
           const char *src_element_arrmeta[NArg];
diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 8f72e5d..dfed744 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -100,6 +100,9 @@ namespace nd {
                                   make_callable<reduction_callable<fixed_dim_id, 2>>()};
           return f[nsrc - 1]->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else {
+          if (nsrc != 1) {
+            throw std::runtime_error("unsupported number of arguments for a reduction of a variable-sized dimension");
+          }
           static callable f = make_callable<reduction_callable<var_dim_id, 1>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         }
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 58f6a9b..7108685 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -268,12 +268,9 @@ namespace nd {
             child_src[j] += src_stride_first[j];
           }
 
-          reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
-
-          for (std::size_t i = 1; i != count; ++i) {
+          for (std::size_t i = 0; i != count; ++i) {
             reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
 
-            dst += dst_stride;
             for (size_t j = 0; j < NArg; ++j) {
               child_src[j] += src_stride[j];
             }
@@ -323,9 +320,11 @@ namespace nd {
     struct reduction_kernel<ndt::var_dim_type, false, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
+      bool empty;
       intptr_t init_offset;
 
-      reduction_kernel(std::intptr_t src0_inner_stride) : src0_inner_stride(src0_inner_stride) {}
+      reduction_kernel(std::intptr_t src0_inner_stride, bool empty)
+          : src0_inner_stride(src0_inner_stride), empty(empty) {}
 
       ~reduction_kernel() {
         this->get_child(init_offset)->destroy();
@@ -333,6 +332,12 @@ namespace nd {
       }
 
       void single_first(char *dst, char *const *src) {
+        if (empty) {
+          // There are no elements at all, not even a variable-sized dimension to look at
+          this->get_child(init_offset)->single(dst, src);
+          return;
+        }
+
         size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
 
         char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
@@ -347,6 +352,12 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != count; ++i) {
+          if (empty) {
+            init_child->single(dst, &src0);
+            dst += dst_stride;
+            continue;
+          }
+
           char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
           init_child->single(dst, &src0_data);
 
@@ -449,11 +460,19 @@ namespace nd {
       ~reduction_kernel() { this->get_child()->destroy(); }
 
       void single_first(char *dst, char *const *src) {
+        if (_size == 0) {
+          return;
+        }
+
         reduction_kernel_prefix *child = this->get_reduction_child();
         child->strided_first(dst, dst_stride, src, src_stride, _size);
       }
 
       void strided_first(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
+        if (_size == 0) {
+          return;
+        }
+
         reduction_kernel_prefix *echild = reinterpret_cast<reduction_kernel_prefix *>(this->get_child());
         kernel_strided_t opchild_first_call = echild->get_first_call_function<kernel_strided_t>();
         kernel_strided_t opchild_followup_call = echild->get_followup_call_function();
@@ -558,7 +577,7 @@ namespace nd {
       void single_first(char *dst, char *const *src) {
         // Initialize the dst values
         this->get_child(dst_init_kernel_offset)->strided(dst, dst_stride, src, src_stride_first, _size);
-        if (src_stride_first[0] == 0) {
+        if (src_stride_first[0] == 0 && size_first != 0) {
           // Then do the accumulation
           this->get_child()->strided(dst, dst_stride, src, src_stride, _size);
         }
@@ -568,7 +587,10 @@ namespace nd {
         kernel_prefix *init_child = this->get_child(dst_init_kernel_offset);
         kernel_prefix *reduction_child = this->get_child();
 
-        char *child_src[NArg] = {src[0]};
+        char *child_src[NArg];
+        for (size_t j = 0; j < NArg; ++j) {
+          child_src[j] = src[j];
+        }
         if (dst_stride == 0) {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
@@ -579,7 +601,7 @@ namespace nd {
             child_src[j] += src_stride_first[j];
           }
 
-          for (size_t i = 1; i != count; ++i) {
+          for (size_t i = 0; i != count && size_first != 0; ++i) {
             reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
 
             for (size_t j = 0; j < NArg; ++j) {
@@ -590,7 +612,7 @@ namespace nd {
           // With a non-zero stride, every iteration is an initialization
           for (size_t i = 0; i != count; ++i) {
             init_child->strided(dst, this->dst_stride, child_src, src_stride_first, _size);
-            if (src_stride_first[0] == 0) {
+            if (src_stride_first[0] == 0 && size_first != 0) {
               reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, _size);
             }
 
-- 
2.43.0


From 07d884c32026c6519e288d5d44ea599f6abe7770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 21/90] fix: reductions keeping more than one dimension used
 the stride of the outer one for the inner one

---
 include/dynd/callables/base_reduction_callable.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index a1fe323..53385bb 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -200,8 +200,9 @@ namespace nd {
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, empty ? empty_data() : nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
-               src_element_arrmeta);
+            // The destination has this dimension when it is not reduced away
+            kb(kernreq, empty ? empty_data() : nullptr,
+               (broadcast || keepdim) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc, src_element_arrmeta);
           }
         });
       }
-- 
2.43.0


From 29b4058644291dd8ea5c114f69b6284379398f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 22/90] fix: read a JSON surrogate pair escape as one character

---
 src/dynd/parse_util.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index c3bb728..69d5442 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -175,6 +175,18 @@ void dynd::unescape_string(const char *strbegin, const char *strend, std::string
             cp = '?';
           }
         }
+        if (cp >= 0xd800 && cp < 0xdc00 && strend - strbegin >= 6 && strbegin[0] == '\\' && strbegin[1] == 'u') {
+          // A UTF-16 surrogate pair, encoded as two consecutive escapes
+          uint32_t low = 0;
+          for (int i = 2; i < 6; ++i) {
+            char d = strbegin[i];
+            low = low * 16 + ('0' <= d && d <= '9' ? d - '0' : (d | 0x20) - 'a' + 10);
+          }
+          if (low >= 0xdc00 && low < 0xe000) {
+            cp = 0x10000 + ((cp - 0xd800) << 10) + (low - 0xdc00);
+            strbegin += 6;
+          }
+        }
         append_utf8_codepoint(cp, out);
         break;
       }
-- 
2.43.0


From ebaf3557f3f2c285802519dae1486f711bdef8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 23/90] fix: parse the unescaped text of a quoted JSON number

---
 include/dynd/parse_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 9a0711c..ed28dc9 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1411,7 +1411,7 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
       } else {
         std::string s;
         unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
+        string_to_number(out_data, tp.get_id(), s.data(), s.data() + s.size(), ectx->errmode);
       }
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
-- 
2.43.0


From c78db832123d289ce5096ffc5c36cb681056e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 24/90] fix: refuse the text of a missing value as a JSON
 number

---
 include/dynd/parse_util.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index ed28dc9..ea171d9 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1406,13 +1406,16 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
   } else if (parse_doublequote_string_no_ws(begin, end, nbegin, nend, escaped)) {
     // Interpret the data inside the string as an int
     try {
-      if (!escaped) {
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
-      } else {
-        std::string s;
+      std::string s;
+      if (escaped) {
         unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), s.data(), s.data() + s.size(), ectx->errmode);
+        nbegin = s.data();
+        nend = s.data() + s.size();
+      }
+      if (!option && parse_na(nbegin, nend)) {
+        throw std::invalid_argument("a missing value is only allowed in an option type");
       }
+      string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
     } catch (const dynd::dynd_exception &e) {
-- 
2.43.0


From 9e4ac94dae330161fb1f4f23eb165aa6e46e9874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 25/90] fix: store the missing value of uint32 options

---
 src/dynd/types/option_type.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index ed93fdb..6ced891 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -25,6 +25,9 @@ void dynd::assign_na_builtin(type_id_t value_id, char *data) {
   case int32_id:
     *reinterpret_cast<int32_t *>(data) = DYND_INT32_NA;
     return;
+  case uint32_id:
+    *reinterpret_cast<uint32_t *>(data) = DYND_UINT32_NA;
+    return;
   case int64_id:
     *reinterpret_cast<int64_t *>(data) = DYND_INT64_NA;
     return;
-- 
2.43.0


From cc7e9c01c816fe06e6828da1a6b94fac47e7a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 26/90] fix: assign a string to an option of string without
 recursing forever

---
 include/dynd/callables/assign_callable.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 5e2c0ad..14fc329 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -630,7 +630,10 @@ namespace nd {
       case string_id:
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                            const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) { kb(kernreq, nullptr, dst_arrmeta, nsrc, src_arrmeta); });
+                           const char *const *src_arrmeta) {
+          kb.pass();
+          kb(kernreq, nullptr, dst_arrmeta, nsrc, src_arrmeta);
+        });
         break;
       default:
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
-- 
2.43.0


From ecf87cff2660405df8ce405177eba2db053a2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 27/90] fix: advance the source between chunks when assigning
 arrays of options

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index ef8dc7f..9240d70 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -792,19 +792,19 @@ namespace nd {
         kernel_strided_t dst_assign_na_fn = dst_assign_na->get_function<kernel_strided_t>();
         // Process in chunks using the dynd default buffer size
         bool1 missing[DYND_BUFFER_CHUNK_SIZE];
+        char *src_copy = src[0];
         while (count > 0) {
           size_t chunk_size = std::min(count, (size_t)DYND_BUFFER_CHUNK_SIZE);
           count -= chunk_size;
-          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, src, src_stride, chunk_size);
+          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, &src_copy, src_stride, chunk_size);
           void *missing_ptr = missing;
-          char *src_copy = src[0];
           do {
             // Process a run of available values
             void *next_missing_ptr = memchr(missing_ptr, 1, chunk_size);
             if (!next_missing_ptr) {
               value_assign_fn(value_assign, dst, dst_stride, &src_copy, src_stride, chunk_size);
               dst += chunk_size * dst_stride;
-              src += chunk_size * src_stride[0];
+              src_copy += chunk_size * src_stride[0];
               break;
             } else if (next_missing_ptr > missing_ptr) {
               size_t segment_size = (char *)next_missing_ptr - (char *)missing_ptr;
-- 
2.43.0


From a3eeeb6b87482a6135c97fd94c9d7ef5130c9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:42 +0000
Subject: [PATCH 28/90] fix: recognise the missing value of string and bytes
 options

---
 include/dynd/kernels/is_na_kernel.hpp | 4 ++--
 src/dynd/types/option_type.cpp        | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dynd/kernels/is_na_kernel.hpp b/include/dynd/kernels/is_na_kernel.hpp
index 4631442..7f3ed27 100644
--- a/include/dynd/kernels/is_na_kernel.hpp
+++ b/include/dynd/kernels/is_na_kernel.hpp
@@ -164,12 +164,12 @@ namespace nd {
 
   template <>
   struct is_na_kernel<bytes> : base_strided_kernel<is_na_kernel<bytes>, 1> {
-    void single(char *dst, char *const *src) { *dst = reinterpret_cast<bytes *>(src[0])->begin() == NULL; }
+    void single(char *dst, char *const *src) { *dst = reinterpret_cast<bytes *>(src[0])->empty(); }
   };
 
   template <>
   struct is_na_kernel<string> : base_strided_kernel<is_na_kernel<string>, 1> {
-    void single(char *dst, char *const *src) { *dst = reinterpret_cast<string *>(src[0])->begin() == NULL; }
+    void single(char *dst, char *const *src) { *dst = reinterpret_cast<string *>(src[0])->empty(); }
   };
 
   template <>
diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index 6ced891..5344760 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -80,6 +80,10 @@ bool dynd::is_avail_builtin(type_id_t value_id, const char *data) {
   case complex_float64_id:
     return reinterpret_cast<const uint64_t *>(data)[0] != DYND_FLOAT64_NA_AS_UINT ||
            reinterpret_cast<const uint64_t *>(data)[1] != DYND_FLOAT64_NA_AS_UINT;
+  case bytes_id:
+    return !reinterpret_cast<const dynd::bytes *>(data)->empty();
+  case string_id:
+    return !reinterpret_cast<const dynd::string *>(data)->empty();
   default:
     return false;
   }
-- 
2.43.0


From 4557767837bf921039f0b0ba8bd87efe9e0f820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 29/90] fix: let assign_na fill arrays of options

---
 src/dynd/option.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dynd/option.cpp b/src/dynd/option.cpp
index b2df4b1..7573b4a 100644
--- a/src/dynd/option.cpp
+++ b/src/dynd/option.cpp
@@ -36,8 +36,7 @@ nd::callable make_assign_na() {
       ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<ndt::any_kind_type>()), {})));
 
   return nd::make_callable<nd::multidispatch_callable<1>>(
-      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::option_type>(ndt::make_type<ndt::any_kind_type>()), {}),
-      children);
+      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}), children);
 }
 
 nd::callable make_is_na() {
-- 
2.43.0


From 3b66b157e6bcd03ae31665d656a8f4a9b599cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 30/90] fix: print a variadic tuple or struct without fields as
 readable datashape

---
 src/dynd/types/struct_type.cpp | 2 +-
 src/dynd/types/tuple_type.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 9933419..4e05a03 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -89,7 +89,7 @@ void ndt::struct_type::print_type(std::ostream &o) const {
     o << ": " << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...}";
+    o << (m_field_count ? ", ...}" : "...}");
   } else {
     o << "}";
   }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 5d774b5..a5d28d2 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -194,7 +194,7 @@ void ndt::tuple_type::print_type(std::ostream &o) const {
     o << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...)";
+    o << (m_field_count ? ", ...)" : "...)");
   } else {
     o << ")";
   }
-- 
2.43.0


From dd886aa68b1db11bc3d2f98dab979fe69c2b9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 31/90] fix: print the Fixed base of a dimensional power

---
 src/dynd/types/pow_dimsym_type.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 2961fe5..149a282 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -26,6 +26,9 @@ void ndt::pow_dimsym_type::print_type(std::ostream &o) const {
       o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
     }
     break;
+  case fixed_dim_kind_id:
+    o << "Fixed";
+    break;
   case var_dim_id:
     o << "var";
     break;
-- 
2.43.0


From f81d6e50a3a4947df1e538b318e508b6be420fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 32/90] fix: refuse a datashape tuple with named fields

---
 src/dynd/types/datashape_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index a4dc23d..37d34b2 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -563,8 +563,7 @@ static ndt::type parse_tuple_or_funcproto(const char *&rbegin, const char *end,
           funcproto_kwd = parse_funcproto_kwds(begin, end, symtable);
           if (!funcproto_kwd.is_null()) {
             if (!datashape::parse_token(begin, end, "->")) {
-              rbegin = begin;
-              return ndt::make_type<ndt::tuple_type>(field_type_list.size(), field_type_list.data());
+              throw datashape::internal_parse_error(begin, "expected '->' after callable prototype with keyword arguments");
             }
 
             ndt::type return_type = datashape::parse(begin, end, symtable);
-- 
2.43.0


From b09bdec2ac29484f3f979034cde09abeae554e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 33/90] fix: read the \U escapes which quoted datashape names
 are printed with

---
 src/dynd/parse_util.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index 69d5442..8ce4be7 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -470,12 +470,14 @@ bool datashape::parse_quoted_string(const char *&rbegin, const char *end, std::s
       case 't':
         out_val += '\t';
         break;
-      case 'u': {
-        if (end - begin < 4) {
+      case 'u':
+      case 'U': {
+        int ndigits = c == 'u' ? 4 : 8;
+        if (end - begin < ndigits) {
           throw datashape::internal_parse_error(begin - 2, "invalid unicode escape sequence in string");
         }
         uint32_t cp = 0;
-        for (int i = 0; i < 4; ++i) {
+        for (int i = 0; i < ndigits; ++i) {
           char d = *begin++;
           cp *= 16;
           if ('0' <= d && d <= '9') {
-- 
2.43.0


From 221c9bdfc46a944d401d43011127a663bdb8977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:13 +0000
Subject: [PATCH 34/90] fix: read the whole size of fixed_string and
 fixed_bytes

---
 src/dynd/types/fixed_bytes_type.cpp  | 5 +++--
 src/dynd/types/fixed_string_type.cpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynd/types/fixed_bytes_type.cpp b/src/dynd/types/fixed_bytes_type.cpp
index 025e193..91517bb 100644
--- a/src/dynd/types/fixed_bytes_type.cpp
+++ b/src/dynd/types/fixed_bytes_type.cpp
@@ -80,7 +80,7 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
     if (datashape::parse_token(begin, end, ']')) {
       // Fixed bytes with just a size parameter
       rbegin = begin;
-      return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), 1);
+      return ndt::make_type<ndt::fixed_bytes_type>(parse<intptr_t>(size_val.data(), size_val.data() + size_val.size()), 1);
     }
     if (!datashape::parse_token(begin, end, ',')) {
       throw datashape::internal_parse_error(begin, "expected closing ']' or another argument");
@@ -99,7 +99,8 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
       throw datashape::internal_parse_error(begin, "expected closing ']'");
     }
     rbegin = begin;
-    return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), atoi(align_val.c_str()));
+    return ndt::make_type<ndt::fixed_bytes_type>(parse<intptr_t>(size_val.data(), size_val.data() + size_val.size()),
+                                            parse<intptr_t>(align_val.data(), align_val.data() + align_val.size()));
   }
   throw datashape::internal_parse_error(begin, "expected opening '['");
 }
\ No newline at end of file
diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index a7fa89c..5ce13de 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -149,9 +149,9 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
     std::string value = datashape::parse_number(begin, end);
     std::string encoding_str;
     string_encoding_t encoding = string_encoding_utf_8;
-    int string_size = 0;
+    intptr_t string_size = 0;
     if (!value.empty()) {
-      string_size = atoi(value.c_str());
+      string_size = parse<intptr_t>(value.data(), value.data() + value.size());
       if (string_size == 0) {
         throw datashape::internal_parse_error(saved_begin, "string size cannot be zero");
       }
-- 
2.43.0


From 07d1e626c69d9071b03fd47fc71b71ac829410ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 35/90] fix: refuse a dimensional power without an element type

---
 src/dynd/types/datashape_parser.cpp | 46 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 37d34b2..23578bc 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -671,6 +671,9 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
           }
           ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
           if ('0' <= *bbegin && *bbegin <= '9') {
             intptr_t dim_size = parse<intptr_t>(bbegin, bend);
             result = ndt::pow(ndt::make_fixed_dim(dim_size, element_tp), exponent);
@@ -685,25 +688,30 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
           }
         } else if (isupper(*nbegin)) {
           std::string exponent_name(nbegin, nend);
-          if (datashape::parse_token(begin, end, '*')) {
-            if ('0' <= *bbegin && *bbegin <= '9') {
-              intptr_t dim_size = parse<intptr_t>(bbegin, bend);
-              result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
-            } else if (compare_range_to_literal(bbegin, bend, "var")) {
-              result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
-            } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
-              result =
-                  ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
-                                                       exponent_name, datashape::parse(begin, end, symtable));
-            } else if (isupper(*bbegin)) {
-              result = ndt::make_type<ndt::pow_dimsym_type>(
-                  ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
-                  exponent_name, datashape::parse(begin, end, symtable));
-            } else {
-              throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
-            }
+          if (!datashape::parse_token(begin, end, '*')) {
+            throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
+          }
+          ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
+          if ('0' <= *bbegin && *bbegin <= '9') {
+            intptr_t dim_size = parse<intptr_t>(bbegin, bend);
+            result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
+                                                          exponent_name, element_tp);
+          } else if (compare_range_to_literal(bbegin, bend, "var")) {
+            result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
+                                                          exponent_name, element_tp);
+          } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
+            result =
+                ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
+                                                     exponent_name, element_tp);
+          } else if (isupper(*bbegin)) {
+            result = ndt::make_type<ndt::pow_dimsym_type>(
+                ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
+                exponent_name, element_tp);
+          } else {
+            throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
           }
         } else {
           throw datashape::internal_parse_error(begin, "expected a number or a typevar symbol");
-- 
2.43.0


From 8923047f9b879048a5c34534fb5869944d097303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 36/90] fix: refuse a fixed_string datashape without a size

---
 src/dynd/types/fixed_string_type.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index 5ce13de..d17b3a8 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -163,10 +163,7 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
         encoding = datashape::string_to_encoding(saved_begin, encoding_str);
       }
     } else {
-      if (!datashape::parse_quoted_string(begin, end, encoding_str)) {
-        throw datashape::internal_parse_error(saved_begin, "expected a size integer");
-      }
-      encoding = datashape::string_to_encoding(saved_begin, encoding_str);
+      throw datashape::internal_parse_error(saved_begin, "expected a size integer");
     }
     if (!datashape::parse_token(begin, end, ']')) {
       throw datashape::internal_parse_error(begin, "expected closing ']'");
-- 
2.43.0


From 1d229fec8ce224548559daa54abdf16897cf8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 37/90] fix: read missing-value texts into an option of bool

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 9240d70..57c5c19 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -837,7 +837,11 @@ namespace nd {
     struct DYND_API string_to_option_bool_ck : nd::base_strided_kernel<string_to_option_bool_ck, 1> {
       void single(char *dst, char *const *src) {
         const string *std = reinterpret_cast<string *>(src[0]);
-        *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        if (parse_na(std->begin(), std->end())) {
+          *dst = DYND_BOOL_NA;
+        } else {
+          *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        }
       }
     };
 
-- 
2.43.0


From 12f234b1fb53c1d0e0e4ec342306c833e4525003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 38/90] fix: assign tuples and structs of more than eight
 fields

---
 include/dynd/callables/assign_callable.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 14fc329..6bd954b 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -688,8 +688,8 @@ namespace nd {
         throw type_error(ss.str());
       }
 
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
-      std::array<uintptr_t, 8> src_arrmeta_offsets;
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> src_arrmeta_offsets(field_count);
       for (int i = 0; i < field_count; ++i) {
         src_arrmeta_offsets[i] = src_sd->get_arrmeta_offsets()[i];
         dst_arrmeta_offsets[i] = dst_sd->get_arrmeta_offsets()[i];
@@ -749,9 +749,9 @@ namespace nd {
       const ndt::struct_type *dst_sd = dst_tp.extended<ndt::struct_type>();
       const ndt::struct_type *src_sd = src_tp[0].extended<ndt::struct_type>();
       intptr_t field_count = dst_sd->get_field_count();
-      std::array<intptr_t, 8> src_permutation;
-      std::array<uintptr_t, 8> src_fields_arrmeta_offsets;
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
+      std::vector<intptr_t> src_permutation(field_count);
+      std::vector<uintptr_t> src_fields_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
 
       if (field_count != src_sd->get_field_count()) {
         std::stringstream ss;
-- 
2.43.0


From da04b73af256d6af4eda4df20817534e73d119cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 39/90] fix: use the metadata of the matching field when a
 struct is assigned

---
 include/dynd/callables/assign_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 6bd954b..c2a7183 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -797,7 +797,7 @@ namespace nd {
         for (intptr_t i = 0; i != field_count; ++i) {
           intptr_t src_i = src_permutation[i];
           src_data_offsets[i] = src_data_offsets_orig[src_i];
-          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[src_i];
+          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[i];
         }
 
         shortvector<const char *> dst_fields_arrmeta(field_count);
-- 
2.43.0


From 57cb3b33cbb7224ce302198760aea7363c50f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 40/90] fix: apply the further indices of a slice of fields to
 the fields

---
 src/dynd/types/struct_type.cpp | 10 +++++-----
 src/dynd/types/tuple_type.cpp  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 4e05a03..2888fce 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -264,12 +264,12 @@ intptr_t ndt::struct_type::apply_linear_index(intptr_t nindices, const irange *i
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &dt = result_e_dt->get_field_type(i);
+        const type &dt = get_field_type(idx);
         if (!dt.is_builtin()) {
-          out_offsets[i] +=
-              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], dt,
-                                                out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
-                                                current_i + 1, root_tp, false, NULL, tmp);
+          out_offsets[i] += dt.extended()->apply_linear_index(
+              nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], result_e_dt->get_field_type(i),
+              out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference, current_i + 1, root_tp, false, NULL,
+              tmp);
         }
       }
       return 0;
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index a5d28d2..03ddc05 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -171,12 +171,12 @@ intptr_t ndt::tuple_type::apply_linear_index(intptr_t nindices, const irange *in
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &ft = result_e_dt->get_field_type(i);
+        const type &ft = get_field_type(idx);
         if (!ft.is_builtin()) {
-          out_offsets[i] +=
-              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], ft,
-                                                out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
-                                                current_i + 1, root_tp, false, NULL, tmp);
+          out_offsets[i] += ft.extended()->apply_linear_index(
+              nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], result_e_dt->get_field_type(i),
+              out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference, current_i + 1, root_tp, false, NULL,
+              tmp);
         }
       }
       return 0;
-- 
2.43.0


From 111786b9f644f789792995d1479d169041ba1053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 41/90] fix: carry and borrow in 128-bit sums, differences and
 negation

---
 include/dynd/int128.hpp  |  6 +++---
 include/dynd/uint128.hpp | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/dynd/int128.hpp b/include/dynd/int128.hpp
index d815039..35680c5 100644
--- a/include/dynd/int128.hpp
+++ b/include/dynd/int128.hpp
@@ -93,7 +93,7 @@ public:
   int128 &operator+=(const int128 &rhs)
   {
     uint64_t lo = m_lo + rhs.m_lo;
-    *this = int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    *this = int128(m_hi + rhs.m_hi + (lo < m_lo), lo);
 
     return *this;
   }
@@ -114,8 +114,8 @@ public:
 
   int128 operator-(const int128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    uint64_t lo = m_lo - rhs.m_lo;
+    return int128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), lo);
   }
 
   int128 operator*(uint32_t rhs) const;
diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index 45ba2dd..42f789f 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -59,7 +59,7 @@ public:
   {
     DYND_ALLOW_UNSIGNED_UNARY_MINUS
     if (this->m_lo != 0) {
-      return uint128(!this->m_hi, -this->m_lo);
+      return uint128(~this->m_hi, -this->m_lo);
     }
     else {
       return uint128(-this->m_hi, 0);
@@ -67,7 +67,7 @@ public:
     DYND_END_ALLOW_UNSIGNED_UNARY_MINUS
   }
 
-  bool operator!() const { return (m_hi != 0) && (m_lo != 0); }
+  bool operator!() const { return (m_hi == 0) && (m_lo == 0); }
 
   uint128 operator~() const { return uint128(~m_hi, ~m_lo); }
 
@@ -111,14 +111,14 @@ public:
 
   uint128 operator-(const uint128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return uint128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    uint64_t lo = m_lo - rhs.m_lo;
+    return uint128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), lo);
   }
 
   uint128 operator-(uint64_t rhs) const
   {
-    uint64_t lo = m_lo + ~rhs + 1;
-    return uint128(m_hi + 0xffffffffffffffffULL + (lo < m_lo), lo);
+    uint64_t lo = m_lo - rhs;
+    return uint128(m_hi - (m_lo < rhs), lo);
   }
 
   uint128 operator*(uint32_t rhs) const;
-- 
2.43.0


From 9622c83225f707fd325781db57ff63301cbaf427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 42/90] fix: keep the sign of an int128 converted to floating
 point

---
 include/dynd/int128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/int128.hpp b/include/dynd/int128.hpp
index 35680c5..721498c 100644
--- a/include/dynd/int128.hpp
+++ b/include/dynd/int128.hpp
@@ -128,7 +128,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.f;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.f);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.f;
@@ -139,7 +139,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.0;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.0);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.0;
-- 
2.43.0


From bbcc9bcfd4f1096a0591acc7e1b8ae40ac81a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 43/90] fix: extend the sign of a negative integer converted to
 uint128

---
 include/dynd/uint128.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index 42f789f..64556a9 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -28,16 +28,16 @@ public:
 
   uint128(bool1) { throw std::runtime_error("uint128(bool1) is not implemented"); }
 
-  uint128(char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(signed char value) : m_lo(value), m_hi(0ULL) {}
+  uint128(char value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
+  uint128(signed char value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(short value) : m_lo(value), m_hi(0ULL) {}
+  uint128(short value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned short value) : m_lo(value), m_hi(0ULL) {}
-  uint128(int value) : m_lo(value), m_hi(0ULL) {}
+  uint128(int value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned int value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long long value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long long value) : m_lo(value), m_hi(0ULL) {}
   uint128(float value);
   uint128(double value);
-- 
2.43.0


From fac212f5d75ddf2884a727e17ae8c0e5cf349b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 44/90] fix: multiply the least int128

---
 src/dynd/int128.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynd/int128.cpp b/src/dynd/int128.cpp
index 9f6c140..c1a2680 100644
--- a/src/dynd/int128.cpp
+++ b/src/dynd/int128.cpp
@@ -76,8 +76,10 @@ dynd::int128::int128(const float128 &DYND_UNUSED(value))
 int128 dynd::int128::operator*(uint32_t rhs) const
 {
   if ((int64_t)m_hi < 0) {
-    // TODO: fix case for minimum int, which will recurse forever
-    return -(-(*this) * rhs);
+    // Multiply the magnitude, which also fits when it is that of the minimum int
+    int128 tmp = -(*this);
+    uint128 res = uint128(tmp.m_hi, tmp.m_lo) * rhs;
+    return -int128(res.m_hi, res.m_lo);
   } else {
     // Split the multiplication into three
     // First product
-- 
2.43.0


From 922cdbb5f1645886ecce781a882f93e5fb8b1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 45/90] fix: truth value of float16 and its conversion to
 int128

---
 include/dynd/float16.hpp | 4 ++--
 src/dynd/int128.cpp      | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/dynd/float16.hpp b/include/dynd/float16.hpp
index d4f320c..430426d 100644
--- a/include/dynd/float16.hpp
+++ b/include/dynd/float16.hpp
@@ -202,9 +202,9 @@ public:
 
   float16 operator-() const { return float16(-static_cast<float>(*this)); }
 
-  bool operator!() const { return (0x7fffu | m_bits) == 0; }
+  bool operator!() const { return (0x7fffu & m_bits) == 0; }
 
-  explicit operator bool() const { return (0x7ffu | m_bits) != 0; }
+  explicit operator bool() const { return (0x7fffu & m_bits) != 0; }
 };
 
 inline float16 operator+(const float16 &DYND_UNUSED(lhs), const float16 &DYND_UNUSED(rhs))
diff --git a/src/dynd/int128.cpp b/src/dynd/int128.cpp
index c1a2680..042331c 100644
--- a/src/dynd/int128.cpp
+++ b/src/dynd/int128.cpp
@@ -61,8 +61,7 @@ dynd::int128::int128(const uint128 &value) : m_lo(value.m_lo), m_hi(value.m_hi)
 }
 #endif
 
-dynd::int128::int128(const float16 &value)
-    : m_lo((int64_t)value), m_hi(value.signbit_() ? 0xffffffffffffffffULL : 0UL)
+dynd::int128::int128(const float16 &value) : int128((int64_t)value)
 {
 }
 
-- 
2.43.0


From 388bb27a0e3676e17f7e65030dc260e5f599fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 46/90] fix: refuse an assignment between types without a
 conversion

---
 include/dynd/callables/assign_callable.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index c2a7183..e3832e3 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -941,6 +941,11 @@ namespace nd {
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
+      if (dst_tp.get_id() != option_id && src_tp[0].get_id() != option_id) {
+        std::stringstream ss;
+        ss << "cannot assign dynd " << src_tp[0] << " to " << dst_tp;
+        throw type_error(ss.str());
+      }
 
       ndt::type val_dst_tp =
           dst_tp.get_id() == option_id ? dst_tp.extended<ndt::option_type>()->get_value_type() : dst_tp;
-- 
2.43.0


From e3fb999827b4d2546102f9fe075f8b6e67b055ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 47/90] fix: numeric limits of the 128-bit integers (floating
 point values one past their range were accepted)

---
 include/dynd/int128.hpp  | 4 ++--
 include/dynd/uint128.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dynd/int128.hpp b/include/dynd/int128.hpp
index 721498c..b8da60f 100644
--- a/include/dynd/int128.hpp
+++ b/include/dynd/int128.hpp
@@ -311,8 +311,8 @@ public:
   static const bool is_specialized = true;
   static dynd::int128(min)() throw() { return dynd::int128(0x8000000000000000ULL, 0ULL); }
   static dynd::int128(max)() throw() { return dynd::int128(0x7fffffffffffffffULL, 0xffffffffffffffffULL); }
-  static const int digits = 0;
-  static const int digits10 = 0;
+  static const int digits = 127;
+  static const int digits10 = 38;
   static const bool is_signed = true;
   static const bool is_integer = true;
   static const bool is_exact = true;
diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index 64556a9..f4142ff 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -291,9 +291,9 @@ public:
   static const bool is_specialized = true;
   static dynd::uint128(min)() throw() { return dynd::uint128(0ULL, 0ULL); }
   static dynd::uint128(max)() throw() { return dynd::uint128(0xffffffffffffffffULL, 0xffffffffffffffffULL); }
-  static const int digits = 0;
-  static const int digits10 = 0;
-  static const bool is_signed = true;
+  static const int digits = 128;
+  static const int digits10 = 38;
+  static const bool is_signed = false;
   static const bool is_integer = true;
   static const bool is_exact = true;
   static const int radix = 2;
-- 
2.43.0


From 92e82660112a33c6fd5c05bb64393212aef56c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 48/90] fix: a provided destination counted as one of the
 required keywords of a callable

---
 src/dynd/callable.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 5cdec25..3025b42 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -113,6 +113,7 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
   }
 
   array dst;
+  size_t nspecial_kwd = 0;
 
   const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
   for (; j < nkwd; ++j, ++unordered_kwds) {
@@ -120,6 +121,7 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
 
     if (k == -1) {
       if (detail::is_special_kwd(dst, unordered_kwds->first, unordered_kwds->second)) {
+        ++nspecial_kwd;
       } else {
         std::stringstream ss;
         ss << "passed an unexpected keyword \"" << unordered_kwds->first << "\" to callable with type "
@@ -150,6 +152,9 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
     }
   }
 
+  // The destination is not one of the keywords of the callable
+  nkwd -= nspecial_kwd;
+
   // Validate the destination type, if it was provided
   if (!dst.is_null()) {
     if (!m_ptr->get_ret_type().match(dst.get_type(), tp_vars)) {
-- 
2.43.0


From fa33681c0b00759e39ce8242cf4e861fd045b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 49/90] fix: a callable wrote its result into a destination of
 another type

---
 src/dynd/callables/base_callable.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynd/callables/base_callable.cpp b/src/dynd/callables/base_callable.cpp
index 4d42c42..544f059 100644
--- a/src/dynd/callables/base_callable.cpp
+++ b/src/dynd/callables/base_callable.cpp
@@ -67,7 +67,12 @@ void nd::base_callable::call(const ndt::type &dst_tp, const char *dst_arrmeta, a
                              const ndt::type *src_tp, const char *const *src_arrmeta, const array *src, size_t nkwd,
                              const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
   call_graph cg;
-  resolve(nullptr, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+  const ndt::type res_tp = resolve(nullptr, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+  if (res_tp != dst_tp) {
+    std::stringstream ss;
+    ss << "callable with type " << m_tp << " produces type " << res_tp << ", not the provided \"dst\" type " << dst_tp;
+    throw std::invalid_argument(ss.str());
+  }
 
   // Generate and evaluate the ckernel
   kernel_builder kb(cg.get());
-- 
2.43.0


From 1e058dda520b1dbf98a524c066edd8016ba99af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:15 +0000
Subject: [PATCH 50/90] fix: take by index built its kernels in the wrong order

---
 .../dynd/callables/take_dispatch_callable.hpp   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 0e1326c..daa1456 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -80,9 +80,6 @@ namespace nd {
 
       ndt::type src0_element_tp = src_tp[0].get_type_at_dimension(NULL, 1).get_canonical_type();
 
-      nd::array error_mode = assign_error_default;
-      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
-
       ndt::type resolved_dst_tp;
       if (src_tp[1].get_id() == var_dim_id) {
         resolved_dst_tp = ndt::make_type<ndt::var_dim_type>(src0_element_tp);
@@ -90,7 +87,7 @@ namespace nd {
         resolved_dst_tp = ndt::make_fixed_dim(src_tp[1].get_dim_size(NULL, NULL), src0_element_tp);
       }
 
-      cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+      cg.emplace_back([dst_tp = resolved_dst_tp, src0_tp = src_tp[0], src1_tp = src_tp[1]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
         kb.emplace_back<indexed_take_ck>(kernreq);
@@ -109,17 +106,17 @@ namespace nd {
         intptr_t index_dim_size;
         ndt::type src0_el_tp, index_el_tp;
         const char *src0_el_meta, *index_el_meta;
-        if (!src_tp[0].get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
+        if (!src0_tp.get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
                                       &src0_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << src_tp[0];
+          ss << "indexed take arrfunc: could not process type " << src0_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
-        if (!src_tp[1].get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
+        if (!src1_tp.get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
                                       &index_el_meta)) {
           std::stringstream ss;
-          ss << "take arrfunc: could not process type " << src_tp[1];
+          ss << "take arrfunc: could not process type " << src1_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -140,6 +137,10 @@ namespace nd {
         kb(kernel_request_single, nullptr, dst_el_meta, 1, &src0_el_meta);
       });
 
+      // The element assignment follows the kernel which uses it
+      nd::array error_mode = assign_error_default;
+      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
+
       return resolved_dst_tp;
     }
 
-- 
2.43.0


From ce24c95182d35b45d968290a99dbb9a87fec9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 51/90] fix: take by mask read the metadata of any source as
 that of a fixed dimension

---
 include/dynd/callables/take_dispatch_callable.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index daa1456..b500542 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -29,6 +29,13 @@ namespace nd {
                       const ndt::type &DYND_UNUSED(dst_tp), size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
+      if (src_tp[0].get_id() != fixed_dim_id || src_tp[1].get_id() != fixed_dim_id) {
+        std::stringstream ss;
+        ss << "masked take arrfunc: could not process types " << src_tp[0] << " and " << src_tp[1]
+           << " as strided dimensions";
+        throw type_error(ss.str());
+      }
+
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
                          size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         typedef nd::masked_take_ck self_type;
-- 
2.43.0


From 7724c43799abc66bbbc1633999e6cafdf19ad91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 52/90] fix: a dispatched callable wrote its result into a
 destination of another type

---
 include/dynd/callables/base_dispatch_callable.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/base_dispatch_callable.hpp b/include/dynd/callables/base_dispatch_callable.hpp
index d69e080..fefa6fb 100644
--- a/include/dynd/callables/base_dispatch_callable.hpp
+++ b/include/dynd/callables/base_dispatch_callable.hpp
@@ -20,8 +20,17 @@ namespace nd {
                       const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
       const callable &child = specialize(dst_tp, nsrc, src_tp);
-      return child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, nsrc, src_tp,
-                            nkwd, kwds, tp_vars);
+      if (dst_tp.is_symbolic()) {
+        return child->resolve(this, nullptr, cg, child->get_ret_type(), nsrc, src_tp, nkwd, kwds, tp_vars);
+      }
+
+      // The kernel of the child writes its own return type
+      if (!child->get_ret_type().match(dst_tp)) {
+        std::stringstream ss;
+        ss << "cannot write the result of a callable with type " << child->get_type() << " into type " << dst_tp;
+        throw std::invalid_argument(ss.str());
+      }
+      return child->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
     }
   };
 
-- 
2.43.0


From eb5af15f52113145e772e6a6cdea2806ea4b2918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 53/90] fix: assigning an int32 to a fixed_string parsed the
 integer's bytes as a string

---
 include/dynd/callables/assign_callable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index e3832e3..8b91bc8 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -205,8 +205,8 @@ namespace nd {
         ndt::type string_tp = dst_id == fixed_string_id
                                   ? ndt::make_type<ndt::fixed_string_type>(string_size, string_encoding)
                                   : ndt::make_type<ndt::string_type>();
-        kb.emplace_back<detail::assignment_kernel<IntType, string, assign_error_default>>(kernreq, string_tp,
-                                                                                          dst_arrmeta);
+        kb.emplace_back<detail::assignment_kernel<string, IntType, assign_error_default>>(
+            kernreq, string_tp, ndt::make_type<IntType>().get_id(), dst_arrmeta);
       });
 
       return dst_tp;
-- 
2.43.0


From 59de2abfc22ed8d94bf856bdf40801f9d1897de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 54/90] fix: nd::range overflowed its element count

---
 include/dynd/callables/range_callable.hpp | 29 ++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 329c05a..a44dba8 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -5,6 +5,9 @@
 
 #pragma once
 
+#include <cmath>
+#include <limits>
+
 #include <dynd/callables/base_callable.hpp>
 #include <dynd/kernels/range_kernel.hpp>
 #include <dynd/types/option_type.hpp>
@@ -15,6 +18,16 @@ namespace nd {
   template <typename ReturnElementType, typename Enable = void>
   class range_callable;
 
+  /**
+   * The number of steps from low up to, and not including, high, where low < high. The difference of two values and
+   * the magnitude of a negative step may not be representable in the signed type they come from.
+   */
+  inline size_t range_size(int64_t low, int64_t high, int64_t step) {
+    uint64_t distance = static_cast<uint64_t>(high) - static_cast<uint64_t>(low);
+    uint64_t magnitude = step > 0 ? static_cast<uint64_t>(step) : 0 - static_cast<uint64_t>(step);
+    return static_cast<size_t>((distance - 1) / magnitude + 1);
+  }
+
   template <typename ReturnElementType>
   class range_callable<ReturnElementType, std::enable_if_t<is_signed_integral<ReturnElementType>::value>>
       : public base_callable {
@@ -37,7 +50,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? static_cast<ReturnElementType>(1) : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
@@ -67,14 +80,14 @@ namespace nd {
         if (stop <= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step - 1) / step),
+          return ndt::make_type<ndt::fixed_dim_type>(range_size(start, stop, step),
                                                      ndt::make_type<ReturnElementType>());
         }
       } else if (step < 0) {
         if (stop >= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step + 1) / step),
+          return ndt::make_type<ndt::fixed_dim_type>(range_size(stop, start, step),
                                                      ndt::make_type<ReturnElementType>());
         }
       } else {
@@ -105,7 +118,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? static_cast<ReturnElementType>(1) : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
@@ -131,8 +144,12 @@ namespace nd {
             reinterpret_cast<const ndt::fixed_dim_type::metadata_type *>(ret_metadata)->stride);
       });
 
-      size_t size = static_cast<size_t>(floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step));
-      return ndt::make_type<ndt::fixed_dim_type>(size, ndt::make_type<ReturnElementType>());
+      ReturnElementType size = floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step);
+      if (step == 0 || size != size || size >= static_cast<ReturnElementType>(std::numeric_limits<intptr_t>::max())) {
+        throw std::runtime_error("nd::range requires a non-zero step that reaches stop in a finite number of steps");
+      }
+      return ndt::make_type<ndt::fixed_dim_type>(size > 0 ? static_cast<size_t>(size) : 0,
+                                                 ndt::make_type<ReturnElementType>());
     }
   };
 
-- 
2.43.0


From 61bc53d62fc78f7fae6a8c076748dc30b138b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 55/90] fix: old_range overflowed its element count

---
 src/dynd/array_range.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/dynd/array_range.cpp b/src/dynd/array_range.cpp
index 5842e29..40500ad 100644
--- a/src/dynd/array_range.cpp
+++ b/src/dynd/array_range.cpp
@@ -3,6 +3,7 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 
@@ -43,6 +44,23 @@ struct range_specialization<int128> {
   }
 };
 
+// The number of steps needed to cover a distance, where both are positive
+template <class T>
+static intptr_t count_steps(T distance, T step) {
+  T count = (distance - 1) / step + 1;
+  if (count > static_cast<T>(std::numeric_limits<intptr_t>::max())) {
+    throw std::runtime_error("nd::range has too many elements");
+  }
+  return static_cast<intptr_t>(count);
+}
+
+static intptr_t count_steps(double count) {
+  if (!(count < static_cast<double>(std::numeric_limits<intptr_t>::max()))) {
+    throw std::runtime_error("nd::range has too many elements");
+  }
+  return static_cast<intptr_t>(count);
+}
+
 template <class T, typename Enable = void>
 struct range_counter {
   static intptr_t count(const void *beginval, const void *endval, const void *stepval) {
@@ -54,13 +72,12 @@ struct range_counter {
       if (end <= begin) {
         return 0;
       }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
+      return count_steps<uint64_t>((uint64_t)end - (uint64_t)begin, (uint64_t)step);
     } else if (step < 0) {
       if (end >= begin) {
         return 0;
       }
-      step = -step;
-      return ((intptr_t)begin - (intptr_t)end + (intptr_t)step - 1) / (intptr_t)step;
+      return count_steps<uint64_t>((uint64_t)begin - (uint64_t)end, 0 - (uint64_t)step);
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
@@ -78,7 +95,7 @@ struct range_counter<T, std::enable_if_t<is_unsigned_integral<T>::value>> {
       if (end <= begin) {
         return 0;
       }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
+      return count_steps<uint64_t>((uint64_t)end - (uint64_t)begin, (uint64_t)step);
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
@@ -99,14 +116,14 @@ struct range_counter<T, std::enable_if_t<dynd::is_floating_point<T>::value>> {
       }
       // Add half a step to make the count robust. This requires
       // that the range given is approximately a multiple of step
-      return (intptr_t)floor((end - begin + 0.5 * step) / step);
+      return count_steps(floor((end - begin + 0.5 * step) / step));
     } else if (step < 0) {
       if (end >= begin) {
         return 0;
       }
       // Add half a step to make the count robust. This requires
       // that the range given is approximately a multiple of step
-      return (intptr_t)floor((end - begin + 0.5 * step) / step);
+      return count_steps(floor((end - begin + 0.5 * step) / step));
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
-- 
2.43.0


From 6033a463d1b8a81c91870ea5a387bcd081051bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:02 +0000
Subject: [PATCH 56/90] fix: linspace did not reproduce its end points exactly

---
 src/dynd/array_range.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array_range.cpp b/src/dynd/array_range.cpp
index 40500ad..7f4fc5c 100644
--- a/src/dynd/array_range.cpp
+++ b/src/dynd/array_range.cpp
@@ -178,7 +178,7 @@ static void old_linspace_specialization(double start, double stop, intptr_t coun
   char *dst = result.data();
   for (intptr_t i = 0; i < count; ++i, dst += stride) {
     double val = ((count - i - 1) * start + i * stop) / double(count - 1);
-    *reinterpret_cast<double *>(dst) = val;
+    *reinterpret_cast<double *>(dst) = i == 0 ? start : i == count - 1 ? stop : val;
   }
 }
 
@@ -202,7 +202,7 @@ static void old_linspace_specialization(dynd::complex<double> start, dynd::compl
     dynd::complex<double> val =
         (double(count - i - 1) * dynd::complex<double>(start) + double(i) * dynd::complex<double>(stop)) /
         double(count - 1);
-    *reinterpret_cast<dynd::complex<double> *>(dst) = val;
+    *reinterpret_cast<dynd::complex<double> *>(dst) = i == 0 ? start : i == count - 1 ? stop : val;
   }
 }
 
-- 
2.43.0


From 2db544198e2d12f98a5c38a2021c472134710716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 57/90] fix: binary_search read a value of another type as the
 element type

---
 include/dynd/callables/binary_search_callable.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index 5f5da11..764d69b 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -5,6 +5,8 @@
 
 #pragma once
 
+#include <sstream>
+
 #include <dynd/callables/base_callable.hpp>
 #include <dynd/comparison.hpp>
 #include <dynd/kernels/binary_search_kernel.hpp>
@@ -34,6 +36,12 @@ namespace nd {
       });
 
       ndt::type element_tp = src_tp[0].at_single(0, nullptr);
+      if (src_tp[1] != element_tp) {
+        std::stringstream ss;
+        ss << "binary_search needs a value of the element type " << element_tp << ", got " << src_tp[1];
+        throw type_error(ss.str());
+      }
+
       ndt::type child_src_tp[2] = {element_tp, element_tp};
 
       total_order->resolve(this, nullptr, cg, ndt::make_type<int>(), 2, child_src_tp, 0, NULL, tp_vars);
-- 
2.43.0


From ecb45f73366ffbe1c41fa0222935b8244068b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:11 +0000
Subject: [PATCH 58/90] fix: the data size of an array type wrapped around

---
 src/dynd/types/fixed_dim_type.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 894c534..a07446d 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -3,6 +3,10 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <limits>
+#include <sstream>
+#include <stdexcept>
+
 #include <dynd/buffer.hpp>
 #include <dynd/exceptions.hpp>
 #include <dynd/parse_util.hpp>
@@ -15,11 +19,14 @@ using namespace std;
 using namespace dynd;
 
 size_t ndt::fixed_dim_type::get_default_data_size() const {
-  if (!m_element_tp.is_builtin()) {
-    return m_dim_size * m_element_tp.extended()->get_default_data_size();
-  } else {
-    return m_dim_size * m_element_tp.get_data_size();
+  size_t element_size =
+      m_element_tp.is_builtin() ? m_element_tp.get_data_size() : m_element_tp.extended()->get_default_data_size();
+  if (element_size != 0 && static_cast<size_t>(m_dim_size) > std::numeric_limits<size_t>::max() / element_size) {
+    stringstream ss;
+    ss << "the data of dynd type " << type(this, true) << " is too large to be addressed";
+    throw overflow_error(ss.str());
   }
+  return m_dim_size * element_size;
 }
 
 void ndt::fixed_dim_type::print_data(std::ostream &o, const char *arrmeta, const char *data) const {
-- 
2.43.0


From d0fe68a180474929ac9f67fb1fff83b97e8aff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 59/90] fix: functional::outer of unsupported arguments

---
 include/dynd/callables/outer_entry_callable.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/dynd/callables/outer_entry_callable.hpp b/include/dynd/callables/outer_entry_callable.hpp
index 94f7c22..adcdd23 100644
--- a/include/dynd/callables/outer_entry_callable.hpp
+++ b/include/dynd/callables/outer_entry_callable.hpp
@@ -5,6 +5,9 @@
 
 #pragma once
 
+#include <sstream>
+#include <string>
+
 #include <dynd/callable.hpp>
 #include <dynd/callables/outer_callable.hpp>
 
@@ -34,6 +37,15 @@ namespace nd {
           const size_t &i = reinterpret_cast<data_type *>(data)->i;
 
           if (i < nsrc) {
+            if (nsrc >= sizeof(m_children) / sizeof(m_children[0])) {
+              throw std::invalid_argument("functional::outer is implemented for at most three arguments, got " +
+                                          std::to_string(nsrc));
+            }
+            if (src_tp[i].get_id() != fixed_dim_id) {
+              std::stringstream ss;
+              ss << "functional::outer needs arguments with fixed dimensions, got " << src_tp[i];
+              throw type_error(ss.str());
+            }
             return m_children[nsrc]->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
 
-- 
2.43.0


From 159bd19d8b5e2e9f3a0ca01f7b71c6461b3fa1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:16 +0000
Subject: [PATCH 60/90] fix: strided_iterator compared positions by address

---
 include/dynd/bytes.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/dynd/bytes.hpp b/include/dynd/bytes.hpp
index 519540c..da3262f 100644
--- a/include/dynd/bytes.hpp
+++ b/include/dynd/bytes.hpp
@@ -158,17 +158,20 @@ public:
     return *this;
   }
 
-  bool operator<(const strided_iterator &rhs) const { return m_data < rhs.m_data; }
+  bool operator<(const strided_iterator &rhs) const
+  {
+    return m_stride < 0 ? rhs.m_data < m_data : m_data < rhs.m_data;
+  }
 
-  bool operator<=(const strided_iterator &rhs) const { return m_data <= rhs.m_data; }
+  bool operator<=(const strided_iterator &rhs) const { return !(rhs < *this); }
 
   bool operator==(const strided_iterator &rhs) const { return m_data == rhs.m_data; }
 
   bool operator!=(const strided_iterator &rhs) const { return m_data != rhs.m_data; }
 
-  bool operator>=(const strided_iterator &rhs) const { return m_data >= rhs.m_data; }
+  bool operator>=(const strided_iterator &rhs) const { return !(*this < rhs); }
 
-  bool operator>(const strided_iterator &rhs) const { return m_data > rhs.m_data; }
+  bool operator>(const strided_iterator &rhs) const { return rhs < *this; }
 
   std::ptrdiff_t operator-(strided_iterator rhs) { return (m_data - rhs.m_data) / m_stride; }
 
-- 
2.43.0


From 45bb6644af041f30fa252fe5b295176f9660304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 61/90] fix: binary_search in an empty array raised

---
 include/dynd/callables/binary_search_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index 764d69b..b006184 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -35,7 +35,7 @@ namespace nd {
         kb(kernreq | kernel_request_data_only, nullptr, nullptr, 2, child_src_arrmeta);
       });
 
-      ndt::type element_tp = src_tp[0].at_single(0, nullptr);
+      ndt::type element_tp = src_tp[0].extended<ndt::base_dim_type>()->get_element_type();
       if (src_tp[1] != element_tp) {
         std::stringstream ss;
         ss << "binary_search needs a value of the element type " << element_tp << ", got " << src_tp[1];
-- 
2.43.0


From 6f2660f7929a369d6130ed879b398bad72ed5a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 62/90] fix: broadcasting dimension fragments left sizes
 uninitialized

---
 src/dynd/types/dim_fragment_type.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/dim_fragment_type.cpp b/src/dynd/types/dim_fragment_type.cpp
index f1d9bf7..041ae6f 100644
--- a/src/dynd/types/dim_fragment_type.cpp
+++ b/src/dynd/types/dim_fragment_type.cpp
@@ -90,13 +90,14 @@ ndt::type ndt::dim_fragment_type::broadcast_with_type(intptr_t ndim, const type
   if (ndim > this_ndim) {
     dimvector shape(ndim);
     type dtp = get_tagged_dims_from_type(ndim - this_ndim, tp, shape.get());
+    memcpy(shape.get() + (ndim - this_ndim), get_tagged_dims(), this_ndim * sizeof(intptr_t));
     if (!broadcast_tagged_dims_from_type(this_ndim, dtp, get_tagged_dims(), shape.get() + (ndim - this_ndim))) {
       return type();
     }
     return make_dim_fragment(ndim, shape.get());
   } else if (ndim < this_ndim) {
     dimvector shape(this_ndim);
-    memcpy(shape.get(), get_tagged_dims(), (this_ndim - ndim) * sizeof(intptr_t));
+    memcpy(shape.get(), get_tagged_dims(), this_ndim * sizeof(intptr_t));
     if (!broadcast_tagged_dims_from_type(ndim, tp, get_tagged_dims() + (this_ndim - ndim),
                                          shape.get() + (this_ndim - ndim))) {
       return type();
-- 
2.43.0


From 58500829ebb8e11c22f662b4267b0686c70bbbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 63/90] fix: var**N matched dimensions which are not
 variable-sized

---
 src/dynd/types/pow_dimsym_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 149a282..53cca37 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -219,6 +219,8 @@ bool ndt::pow_dimsym_type::match(const type &candidate_tp, std::map<std::string,
     for (intptr_t i = 0; i < exponent; ++i) {
       if (concrete_subtype.get_id() == var_dim_id) {
         concrete_subtype = concrete_subtype.extended<base_dim_type>()->get_element_type();
+      } else {
+        return false;
       }
     }
     break;
-- 
2.43.0


From 803863b267adb52e5c9187165e5da25f3c0e2f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 64/90] fix: matching Dim * T dropped the type variables

---
 src/dynd/types/dim_kind_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/dim_kind_type.cpp b/src/dynd/types/dim_kind_type.cpp
index 63e6d44..bf2ad19 100644
--- a/src/dynd/types/dim_kind_type.cpp
+++ b/src/dynd/types/dim_kind_type.cpp
@@ -16,8 +16,8 @@ ndt::dim_kind_type::dim_kind_type(type_id_t id, const type &element_tp)
   this->flags |= (element_tp.get_flags() & (type_flags_operand_inherited | type_flags_value_inherited));
 }
 
-bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1));
+bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
+  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1), tp_vars);
 }
 
 void ndt::dim_kind_type::print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From e455fe9b803cdb329227523dd152db391072f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 65/90] fix: substitution dropped the variadic end of tuples
 and structs

---
 src/dynd/types/substitute_typevars.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index b41192f..018fd93 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -36,6 +36,12 @@ static std::vector<ndt::type> substitute_type_array(const std::vector<ndt::type>
   return tmp_field_types;
 }
 
+static void throw_not_concrete(const ndt::type &pattern) {
+  stringstream ss;
+  ss << "The dynd type " << pattern << " is not concrete as required";
+  throw invalid_argument(ss.str());
+}
+
 // This substitutes just the types supported by the datashape argument grammar
 static void internal_substitute_args(const ndt::type &tp, const char *out_arrmeta, char *out_data,
                                      const char *in_arrmeta, const char *in_data,
@@ -132,14 +138,23 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case var_dim_id:
     return ndt::make_type<ndt::var_dim_type>(
         ndt::substitute(pattern.extended<var_dim_type>()->get_element_type(), typevars, concrete));
-  case struct_id:
+  case struct_id: {
+    bool variadic = pattern.extended<struct_type>()->is_variadic();
+    if (concrete && variadic) {
+      throw_not_concrete(pattern);
+    }
     return ndt::make_type<ndt::struct_type>(
         pattern.extended<struct_type>()->get_field_names(),
-        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete));
+        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete), variadic);
+  }
   case tuple_id: {
+    bool variadic = pattern.extended<tuple_type>()->is_variadic();
+    if (concrete && variadic) {
+      throw_not_concrete(pattern);
+    }
     const std::vector<ndt::type> &element_tp =
         substitute_type_array(pattern.extended<tuple_type>()->get_field_types(), typevars, concrete);
-    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data());
+    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data(), variadic);
   }
   case option_id:
     return ndt::make_type<ndt::option_type>(
-- 
2.43.0


From 3bb253e2cb3f1a2f426591639c1754cb25053ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 66/90] fix: substitution into a constructed type variable
 without a value read past the map

---
 src/dynd/types/substitute_typevars.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 018fd93..db5b692 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -162,6 +162,14 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case typevar_constructed_id: {
     map<std::string, ndt::type>::const_iterator it =
         typevars.find(pattern.extended<typevar_constructed_type>()->get_name());
+    if (it == typevars.end()) {
+      if (concrete) {
+        throw_not_concrete(pattern);
+      }
+      return ndt::make_type<ndt::typevar_constructed_type>(
+          pattern.extended<typevar_constructed_type>()->get_name(),
+          substitute(pattern.extended<typevar_constructed_type>()->get_arg(), typevars, concrete));
+    }
     if (it->second.get_id() == void_id) {
       return substitute(pattern.extended<typevar_constructed_type>()->get_arg(), typevars, concrete);
     }
-- 
2.43.0


From 5a696483d7063fef70f6550df9a40a6fde06029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 67/90] fix: substitution into a callable type dereferenced
 null

---
 src/dynd/types/substitute_typevars.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index db5b692..3fd1435 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -42,6 +42,18 @@ static void throw_not_concrete(const ndt::type &pattern) {
   throw invalid_argument(ss.str());
 }
 
+/**
+ * Substitutes one child type of a type which is rebuilt with transform_child_types
+ */
+static void substitute_child_type(const ndt::type &tp, intptr_t DYND_UNUSED(arrmeta_offset), void *extra,
+                                  ndt::type &out_transformed_tp, bool &out_was_transformed) {
+  const auto &args = *reinterpret_cast<const std::pair<const std::map<std::string, ndt::type> &, bool> *>(extra);
+  out_transformed_tp = ndt::substitute(tp, args.first, args.second);
+  if (out_transformed_tp != tp) {
+    out_was_transformed = true;
+  }
+}
+
 // This substitutes just the types supported by the datashape argument grammar
 static void internal_substitute_args(const ndt::type &tp, const char *out_arrmeta, char *out_data,
                                      const char *in_arrmeta, const char *in_data,
@@ -159,6 +171,13 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case option_id:
     return ndt::make_type<ndt::option_type>(
         ndt::substitute(pattern.extended<option_type>()->get_value_type(), typevars, concrete));
+  case callable_id: {
+    std::pair<const std::map<std::string, ndt::type> &, bool> extra(typevars, concrete);
+    ndt::type result;
+    bool was_transformed = false;
+    pattern.extended()->transform_child_types(&substitute_child_type, 0, &extra, result, was_transformed);
+    return result;
+  }
   case typevar_constructed_id: {
     map<std::string, ndt::type>::const_iterator it =
         typevars.find(pattern.extended<typevar_constructed_type>()->get_name());
-- 
2.43.0


From de032df968af83b3e8ba0ea1b2ef6eff29e68f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 68/90] fix: substitution accepted a dimension power without an
 exponent as concrete

---
 src/dynd/types/substitute_typevars.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 3fd1435..18b90d7 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -297,6 +297,9 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
         throw invalid_argument(ss.str());
       }
     }
+    if (exponent < 0 && concrete) {
+      throw_not_concrete(pattern);
+    }
     // If the exponent is zero, just substitute the rest of the type
     if (exponent == 0) {
       return ndt::substitute(pattern.extended<pow_dimsym_type>()->get_element_type(), typevars, concrete);
-- 
2.43.0


From 334fd453c8a15338905fcab34ea56e48c233cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:22 +0000
Subject: [PATCH 69/90] fix: assigning to or from strings inside compose
 dereferenced null keywords

---
 include/dynd/callables/assign_callable.hpp | 51 +++++++++++++---------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 8b91bc8..5ea3f4e 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -26,10 +26,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode =
-          (kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
       switch (error_mode) {
       case assign_error_default:
       case assign_error_nocheck:
@@ -78,9 +78,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
       switch (error_mode) {
       case assign_error_default:
       case assign_error_nocheck:
@@ -151,9 +152,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       type_id_t src0_id = src_tp[0].get_id();
       size_t src0_size = 0;
@@ -223,10 +225,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode =
-          (kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       cg.emplace_back([error_mode](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                                    const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
@@ -249,9 +251,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
       const ndt::base_string_type *src_fs = src_tp[0].extended<ndt::base_string_type>();
 
       size_t dst_data_size = dst_tp.get_data_size();
@@ -280,9 +283,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
@@ -333,12 +337,13 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       string_encoding_t dst_encoding = dst_tp.extended<ndt::base_string_type>()->get_encoding();
       string_encoding_t src0_encoding = src_tp[0].extended<ndt::char_type>()->get_encoding();
       size_t src0_data_size = src_tp[0].get_data_size();
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
       cg.emplace_back([dst_encoding, src0_data_size, src0_encoding, error_mode](
           kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *DYND_UNUSED(dst_arrmeta),
           size_t DYND_UNUSED(nsrc), const char *const *DYND_UNUSED(src_arrmeta)) {
@@ -385,9 +390,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
       string_encoding_t dst_encoding = dst_tp.extended<ndt::base_string_type>()->get_encoding();
       size_t src0_data_size = src_tp[0].get_data_size();
       string_encoding_t src0_encoding = src_tp[0].extended<ndt::base_string_type>()->get_encoding();
@@ -415,9 +421,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
@@ -462,9 +469,10 @@ namespace nd {
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
-                      size_t DYND_UNUSED(nkwd), const array *kwds,
+                      size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
       const ndt::base_string_type *src_fs = src_tp[0].extended<ndt::base_string_type>();
       size_t dst_data_size = dst_tp.get_data_size();
       string_encoding_t dst_encoding = dst_tp.extended<ndt::char_type>()->get_encoding();
@@ -602,7 +610,8 @@ namespace nd {
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
-      assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      assign_error_mode error_mode =
+          (nkwd == 0 || kwds == NULL || kwds[0].is_na()) ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       type_id_t tid = dst_tp.get_dtype().extended<ndt::option_type>()->get_value_type().get_id();
       switch (tid) {
-- 
2.43.0


From 19c8d43b3f8674d584f58788dfca1ad483042253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 70/90] fix: views into variable-sized dimensions read freed
 metadata when released last

---
 .../memblock/objectarray_memory_block.hpp     | 35 +++++++++++++------
 src/dynd/types/var_dim_type.cpp               |  8 ++---
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 15c7e9f..cb7e8a9 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -9,6 +9,7 @@
 #include <string>
 
 #include <dynd/memblock/base_memory_block.hpp>
+#include <dynd/memory_block.hpp>
 #include <dynd/type.hpp>
 
 namespace dynd {
@@ -26,7 +27,8 @@ namespace nd {
    * The initial count of elements can be set if a good estimate is known.
    *
    * \param dt  The data type of the objects to allocate.
-   * \param arrmeta  The arrmeta corresponding to the data type for the objects to allocate.
+   * \param arrmeta  The arrmeta corresponding to the data type for the objects to allocate. The memory block
+   *                 makes its own copy, because views may keep it alive longer than the array it comes from.
    * \param stride  For objects without a fixed size, the size of the memory to allocate
    *                for each element. This would be typically set to the value for
    *                get_default_data_size() corresponding to default-constructed arrmeta.
@@ -34,8 +36,7 @@ namespace nd {
    */
   class objectarray_memory_block : public base_memory_block {
     ndt::type m_dt;
-    size_t arrmeta_size;
-    const char *m_arrmeta;
+    char *m_arrmeta;
     intptr_t m_stride;
     size_t m_total_allocated_count;
     bool m_finalized;
@@ -43,10 +44,9 @@ namespace nd {
     std::vector<memory_chunk> m_memory_handles;
 
   public:
-    objectarray_memory_block(const ndt::type &dt, size_t arrmeta_size, const char *arrmeta, intptr_t stride,
-                             intptr_t initial_count)
-        : m_dt(dt), arrmeta_size(arrmeta_size), m_arrmeta(arrmeta), m_stride(stride), m_total_allocated_count(0),
-          m_finalized(false), m_memory_handles() {
+    objectarray_memory_block(const ndt::type &dt, const char *arrmeta, intptr_t stride, intptr_t initial_count)
+        : m_dt(dt), m_arrmeta(NULL), m_stride(stride), m_total_allocated_count(0), m_finalized(false),
+          m_memory_handles() {
       if ((dt.get_flags() & type_flag_destructor) == 0) {
         std::stringstream ss;
         ss << "Cannot create objectarray memory block with dynd type " << dt;
@@ -54,14 +54,29 @@ namespace nd {
         throw std::runtime_error(ss.str());
       }
       append_memory(initial_count);
+      if (dt.get_arrmeta_size() > 0) {
+        m_arrmeta = reinterpret_cast<char *>(calloc(1, dt.get_arrmeta_size()));
+        if (m_arrmeta == NULL) {
+          free(m_memory_handles.back().memory);
+          throw std::bad_alloc();
+        }
+        dt.extended()->arrmeta_copy_construct(m_arrmeta, arrmeta, memory_block());
+      }
     }
 
+    objectarray_memory_block(const objectarray_memory_block &) = delete;
+    objectarray_memory_block &operator=(const objectarray_memory_block &) = delete;
+
     ~objectarray_memory_block() {
       for (size_t i = 0, i_end = m_memory_handles.size(); i != i_end; ++i) {
         memory_chunk &mc = m_memory_handles[i];
-        m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
         free(mc.memory);
       }
+      if (m_arrmeta != NULL) {
+        m_dt.extended()->arrmeta_destruct(m_arrmeta);
+        free(m_arrmeta);
+      }
     }
 
     /**
@@ -136,8 +151,8 @@ namespace nd {
           mc->used_count += (count - previous_count);
         } else {
           // Call the destructor on the elements no longer used
-          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, previous_allocated + m_stride * count,
-                                                 m_stride, previous_count - count);
+          m_dt.extended()->data_destruct_strided(m_arrmeta, previous_allocated + m_stride * count, m_stride,
+                                                 previous_count - count);
           mc->used_count -= (previous_count - count);
         }
       }
diff --git a/src/dynd/types/var_dim_type.cpp b/src/dynd/types/var_dim_type.cpp
index fbaba7e..87bd650 100644
--- a/src/dynd/types/var_dim_type.cpp
+++ b/src/dynd/types/var_dim_type.cpp
@@ -314,11 +314,14 @@ void ndt::var_dim_type::arrmeta_default_construct(char *arrmeta, bool blockref_a
   metadata_type *md = reinterpret_cast<metadata_type *>(arrmeta);
   md->stride = element_size;
   md->offset = 0;
+  if (!m_element_tp.is_builtin()) {
+    m_element_tp.extended()->arrmeta_default_construct(arrmeta + sizeof(metadata_type), blockref_alloc);
+  }
   // Allocate a memory block
   if (blockref_alloc) {
     uint32_t flags = m_element_tp.get_flags();
     if (flags & type_flag_destructor) {
-      md->blockref = nd::make_memory_block<nd::objectarray_memory_block>(m_element_tp, sizeof(metadata_type), arrmeta,
+      md->blockref = nd::make_memory_block<nd::objectarray_memory_block>(m_element_tp, arrmeta + sizeof(metadata_type),
                                                                          element_size, 64);
     } else if (flags & type_flag_zeroinit) {
       md->blockref = nd::make_memory_block<nd::zeroinit_memory_block>(m_element_tp);
@@ -326,9 +329,6 @@ void ndt::var_dim_type::arrmeta_default_construct(char *arrmeta, bool blockref_a
       md->blockref = nd::make_memory_block<nd::pod_memory_block>(m_element_tp);
     }
   }
-  if (!m_element_tp.is_builtin()) {
-    m_element_tp.extended()->arrmeta_default_construct(arrmeta + sizeof(metadata_type), blockref_alloc);
-  }
 }
 
 void ndt::var_dim_type::arrmeta_copy_construct(char *dst_arrmeta, const char *src_arrmeta,
-- 
2.43.0


From 46a869650b745c92975420d8f5fe828889ed60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:35 +0000
Subject: [PATCH 71/90] fix: growing the memory of a variable-sized dimension

---
 include/dynd/memblock/pod_memory_block.hpp    | 41 +++++++-----------
 .../dynd/memblock/zeroinit_memory_block.hpp   | 42 +++++++------------
 2 files changed, 28 insertions(+), 55 deletions(-)

diff --git a/include/dynd/memblock/pod_memory_block.hpp b/include/dynd/memblock/pod_memory_block.hpp
index 0165dcf..6c6ea1f 100644
--- a/include/dynd/memblock/pod_memory_block.hpp
+++ b/include/dynd/memblock/pod_memory_block.hpp
@@ -80,38 +80,25 @@ namespace nd {
       //    cout << "allocated at address " << (void *)begin << endl;
     }
 
-    char *resize(char *inout_begin, size_t count) {
+    char *resize(char *previous_allocated, size_t count) {
       intptr_t size_bytes = count * data_size;
+      intptr_t previous_size_bytes = m_memory_current - previous_allocated;
 
-      //    cout << "resizing memory " << (void *)*inout_begin << " / " << (void *)*inout_end << " from size " <<
-      // (*inout_end - *inout_begin) << " to " << size_bytes << endl;
-      //    cout << "memory state before " << (void *)emb->m_memory_begin << " / " << (void *)emb->m_memory_current << "
-      //    /
-      // " << (void *)emb->m_memory_end << endl;
-      char **inout_end = &m_memory_current;
-      char *end = inout_begin + size_bytes;
-      if (end <= m_memory_end) {
+      if (size_bytes <= m_memory_end - previous_allocated) {
         // If it fits, just adjust the current allocation point
-        m_memory_current = end;
-        *inout_end = end;
-      } else {
-        // If it doesn't fit, need to copy to newly malloc'd memory
-        char *old_current = inout_begin, *old_end = *inout_end;
-        // Allocate memory to double the amount used so far, or the requested size, whichever is larger
-        // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
-        append_memory(std::max(m_total_allocated_capacity, size_bytes));
-        memcpy(m_memory_begin, inout_begin, *inout_end - inout_begin);
-        end = m_memory_begin + size_bytes;
-        m_memory_current = end;
-        inout_begin = m_memory_begin;
-        *inout_end = end;
-        m_total_allocated_capacity -= old_end - old_current;
+        m_memory_current = previous_allocated + size_bytes;
+        return previous_allocated;
       }
-      //    cout << "memory state after " << (void *)emb->m_memory_begin << " / " << (void *)emb->m_memory_current << "
-      //    /
-      // " << (void *)emb->m_memory_end << endl;
 
-      return inout_begin;
+      // If it doesn't fit, need to copy to newly malloc'd memory
+      // Allocate memory to double the amount used so far, or the requested size, whichever is larger
+      // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
+      append_memory(std::max(m_total_allocated_capacity, size_bytes));
+      memcpy(m_memory_begin, previous_allocated, previous_size_bytes);
+      m_memory_current = m_memory_begin + size_bytes;
+      m_total_allocated_capacity -= previous_size_bytes;
+
+      return m_memory_begin;
     }
 
     void finalize() {
diff --git a/include/dynd/memblock/zeroinit_memory_block.hpp b/include/dynd/memblock/zeroinit_memory_block.hpp
index d92e1d9..87b2b6b 100644
--- a/include/dynd/memblock/zeroinit_memory_block.hpp
+++ b/include/dynd/memblock/zeroinit_memory_block.hpp
@@ -86,44 +86,30 @@ namespace nd {
       //    cout << "allocated at address " << (void *)begin << endl;
     }
 
-    char *resize(char *inout_begin, size_t count) {
+    char *resize(char *previous_allocated, size_t count) {
       intptr_t size_bytes = count * data_size;
+      intptr_t previous_size_bytes = m_memory_current - previous_allocated;
 
-      //    cout << "resizing memory " << (void *)*inout_begin << " / " << (void *)*inout_end << " from size " <<
-      // (*inout_end - *inout_begin) << " to " << size_bytes << endl;
-      //    cout << "memory state before " << (void *)m_memory_begin << " / " << (void *)m_memory_current << " /
-      // " << (void *)m_memory_end << endl;
-      char **inout_end = &m_memory_current;
-      char *end = inout_begin + size_bytes;
-      if (end <= m_memory_end) {
+      if (size_bytes <= m_memory_end - previous_allocated) {
         // If it fits, just adjust the current allocation point
-        m_memory_current = end;
-        // Zero-initialize any newly allocated memory
-        if (end > *inout_end) {
-          memset(*inout_end, 0, end - *inout_end);
-        }
-        *inout_end = end;
+        m_memory_current = previous_allocated + size_bytes;
       } else {
         // If it doesn't fit, need to copy to newly malloc'd memory
-        char *old_current = inout_begin, *old_end = *inout_end;
-        intptr_t old_size_bytes = *inout_end - inout_begin;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
-        memcpy(m_memory_begin, inout_begin, old_size_bytes);
-        end = m_memory_begin + size_bytes;
-        m_memory_current = end;
-        // Zero-initialize the newly allocated memory
-        memset(m_memory_begin + old_size_bytes, 0, size_bytes - old_size_bytes);
-
-        inout_begin = m_memory_begin;
-        *inout_end = end;
-        m_total_allocated_capacity -= old_end - old_current;
+        memcpy(m_memory_begin, previous_allocated, previous_size_bytes);
+        m_memory_current = m_memory_begin + size_bytes;
+        m_total_allocated_capacity -= previous_size_bytes;
+        previous_allocated = m_memory_begin;
+      }
+
+      // Zero-initialize any newly allocated memory
+      if (size_bytes > previous_size_bytes) {
+        memset(previous_allocated + previous_size_bytes, 0, size_bytes - previous_size_bytes);
       }
-      //    cout << "memory state after " << (void *)m_memory_begin << " / " << (void *)m_memory_current << " /
-      // " << (void *)m_memory_end << endl;
 
-      return inout_begin;
+      return previous_allocated;
     }
 
     void finalize() {
-- 
2.43.0


From 2735abe6c8dbcd6f89104e4fc7a57e7cbf86279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 72/90] fix: growing a variable-sized dimension of strings or
 records

---
 .../dynd/memblock/objectarray_memory_block.hpp  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index cb7e8a9..8c923fa 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -122,18 +122,20 @@ namespace nd {
 
     char *resize(char *previous_allocated, size_t count) {
       memory_chunk *mc = &m_memory_handles.back();
-      size_t previous_index = (previous_allocated - mc->memory) / m_stride;
+      size_t previous_index = (m_stride > 0) ? (previous_allocated - mc->memory) / m_stride : 0;
       size_t previous_count = mc->used_count - previous_index;
       char *result = previous_allocated;
 
       if (mc->capacity_count - previous_index < count) {
         append_memory(std::max(m_total_allocated_count, count));
+        // Adding the chunk may have moved the others
+        mc = &m_memory_handles[m_memory_handles.size() - 2];
         memory_chunk *new_mc = &m_memory_handles.back();
         // Move the old memory to the newly allocated block
         if (previous_count > 0) {
           // Subtract the previously used memory from the old chunk's count
           mc->used_count -= previous_count;
-          memcpy(new_mc->memory, previous_allocated, previous_count);
+          memcpy(new_mc->memory, previous_allocated, m_stride * previous_count);
           // If the old memory only had the memory being resized,
           // free it completely.
           if (previous_allocated == mc->memory) {
@@ -161,7 +163,7 @@ namespace nd {
         // Zero-init the new memory
         intptr_t new_count = count - (intptr_t)previous_count;
         if (new_count > 0) {
-          memset(mc->memory + m_stride * previous_count, 0, m_stride * new_count);
+          memset(result + m_stride * previous_count, 0, m_stride * new_count);
         }
       } else {
         // TODO: Add a default data constructor to base_type
@@ -186,11 +188,12 @@ namespace nd {
         }
         m_memory_handles.front() = m_memory_handles.back();
         m_memory_handles.resize(1);
-        // Reset to zero used elements in the chunk
-        memory_chunk &mc = m_memory_handles.front();
-        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
-        mc.used_count = 0;
       }
+      // Reset to zero used elements in the chunk
+      memory_chunk &mc = m_memory_handles.front();
+      m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
+      mc.used_count = 0;
+      m_total_allocated_count = mc.capacity_count;
     }
 
     void debug_print(std::ostream &o, const std::string &indent) {
-- 
2.43.0


From 2ce9e8ff6de42a7b40861b927bf77f22a3c6de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 73/90] fix: promoting float16 with an integer gives float32 in
 either order

---
 src/dynd/type_promotion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type_promotion.cpp b/src/dynd/type_promotion.cpp
index 715ae58..b822545 100644
--- a/src/dynd/type_promotion.cpp
+++ b/src/dynd/type_promotion.cpp
@@ -132,11 +132,12 @@ ndt::type dynd::promote_types_arithmetic(const ndt::type &tp0, const ndt::type &
         return tp0_val;
       }
       switch (tp1_val.get_base_id()) {
-      // Integer type sizes don't affect float type sizes
+      // Integer type sizes don't affect float type sizes, except
+      // require at least float32
       case bool_kind_id:
       case int_kind_id:
       case uint_kind_id:
-        return tp0_val;
+        return tp0_val.unchecked_get_builtin_id() != float16_id ? tp0_val : ndt::make_type<float>();
       case float_kind_id:
         return ndt::type(reinterpret_cast<ndt::base_type *>(max(
                              max(tp0_val.unchecked_get_builtin_id(), tp1_val.unchecked_get_builtin_id()), float32_id)),
-- 
2.43.0


From 6760daa2940bf64e2aee2f95f8a013c4fbad18d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 74/90] fix: converting an option to a type without missing
 values is not lossless

---
 src/dynd/types/option_type.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index 5344760..9f863a7 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -143,7 +143,8 @@ bool ndt::option_type::is_lossless_assignment(const type &dst_tp, const type &sr
   if (dst_tp.extended() == this) {
     return ::is_lossless_assignment(m_value_tp, src_tp);
   } else {
-    return ::is_lossless_assignment(dst_tp, m_value_tp);
+    // A type which is not an option cannot hold a missing value
+    return false;
   }
 }
 
-- 
2.43.0


From 6e89ddb832a4af5f52da3881631d3475b56410bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:53 +0000
Subject: [PATCH 75/90] fix: complex != real compares for inequality

---
 include/dynd/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/complex.hpp b/include/dynd/complex.hpp
index 8de7b49..981a827 100644
--- a/include/dynd/complex.hpp
+++ b/include/dynd/complex.hpp
@@ -254,7 +254,7 @@ bool operator!=(complex<T> lhs, complex<U> rhs) {
 
 template <typename T, typename U>
 bool operator!=(complex<T> lhs, U rhs) {
-  return lhs.m_real == rhs && !lhs.m_imag;
+  return !(lhs == rhs);
 }
 
 template <typename T>
-- 
2.43.0


From 88fbe5cdac9506b4426707b93b5d6d883407430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:41 +0000
Subject: [PATCH 76/90] fix: arrays made from ragged or empty nested vectors
 and initializer lists

---
 include/dynd/kernels/init_kernel.hpp | 19 +++++--------------
 include/dynd/type.hpp                |  6 ++++++
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/dynd/kernels/init_kernel.hpp b/include/dynd/kernels/init_kernel.hpp
index 0758d83..c5d1171 100644
--- a/include/dynd/kernels/init_kernel.hpp
+++ b/include/dynd/kernels/init_kernel.hpp
@@ -224,7 +224,8 @@ namespace nd {
       void single(char *data, const ContainerType &values) {
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin = memblock->alloc(values.size());
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->size = values.size();
-        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, values.begin(), values.size());
+        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, front_data(values),
+                         values.size());
       }
 
       void contiguous(char *data, const ContainerType *values, size_t size) {
@@ -237,18 +238,8 @@ namespace nd {
 
   } // namespace dynd::nd::detail
 
-  template <typename ContainerType, typename Enable = void>
-  struct container_init;
-
-  template <typename ValueType>
-  struct container_init<std::initializer_list<ValueType>,
-                        std::enable_if_t<ndt::traits<std::initializer_list<ValueType>>::ndim != 1>>
-      : detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>>::init_kernel;
-  };
-
   template <typename ContainerType>
-  struct container_init<ContainerType, std::enable_if_t<ndt::traits<ContainerType>::ndim == 1>> {
+  struct container_init {
     typedef value_type_t<ContainerType> value_type;
 
     std::aligned_union_t<1, detail::init_kernel<ndt::fixed_dim_type, ContainerType>,
@@ -312,8 +303,8 @@ namespace nd {
   };
 
   template <typename T>
-  struct init_kernel<std::vector<T>> : detail::init_kernel<ndt::fixed_dim_type, std::vector<T>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::vector<T>>::init_kernel;
+  struct init_kernel<std::vector<T>> : container_init<std::vector<T>> {
+    using container_init<std::vector<T>>::container_init;
   };
 
   template <typename T, T... first, T... second>
diff --git a/include/dynd/type.hpp b/include/dynd/type.hpp
index 6f92e37..8b665ad 100644
--- a/include/dynd/type.hpp
+++ b/include/dynd/type.hpp
@@ -1012,6 +1012,12 @@ namespace ndt {
 
     static void shape(intptr_t *res, const ContainerType &values) {
       res[0] = values.size();
+      if (values.begin() == values.end()) {
+        for (size_t i = 1; i < ndim; ++i) {
+          res[i] = 0;
+        }
+        return;
+      }
 
       auto iter = values.begin();
       ndt::traits<typename ContainerType::value_type>::shape(res + 1, *iter);
-- 
2.43.0


From be2522e860ed10a4a1dbfec02a7140bc70632e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:04 +0000
Subject: [PATCH 77/90] fix: arrays that are not writable are neither written
 by assignments and callables nor refused as sources of views

---
 include/dynd/kernels/sort_kernel.hpp |  7 +++++++
 src/dynd/array.cpp                   | 24 +++++++++++++++++-------
 src/dynd/callables/base_callable.cpp |  3 +++
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/dynd/kernels/sort_kernel.hpp b/include/dynd/kernels/sort_kernel.hpp
index 0e4f758..b8c4f69 100644
--- a/include/dynd/kernels/sort_kernel.hpp
+++ b/include/dynd/kernels/sort_kernel.hpp
@@ -23,6 +23,13 @@ namespace nd {
 
     ~sort_kernel() { get_child()->destroy(); }
 
+    void call(array *DYND_UNUSED(dst), const array *src)
+    {
+      // The array is sorted in place, so it has to be writable
+      char *src_data[1] = {src[0].data()};
+      single(nullptr, src_data);
+    }
+
     void single(char *DYND_UNUSED(dst), char *const *src)
     {
       kernel_prefix *child = get_child();
diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 1c12150..0fbf244 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -254,7 +254,16 @@ nd::array nd::array::eval_copy(uint32_t access_flags) const {
     dt.extended<ndt::fixed_dim_type>()->reorder_default_constructed_strides(result.get()->metadata(), get_type(),
                                                                             get()->metadata());
   }
-  result.assign(*this);
+  if (access_flags & write_access_flag) {
+    result.assign(*this);
+  } else {
+    // Fill it in through a writable view
+    array writable = make_array(dt, const_cast<char *>(result.cdata()), result, readwrite_access_flags);
+    if (dt.get_arrmeta_size() > 0) {
+      dt.extended()->arrmeta_copy_construct(writable->metadata(), result->metadata(), result);
+    }
+    writable.assign(*this);
+  }
   return result;
 }
 
@@ -634,7 +643,8 @@ nd::array nd::array::new_axis(intptr_t i, intptr_t new_ndim) const {
   ndt::type dst_tp = src_tp.with_new_axis(i, new_ndim);
 
   // This is taken from view_concrete in view.cpp
-  nd::array res = make_array(dst_tp, data(), get_owner() ? get_data_memblock() : *this, get_flags());
+  nd::array res =
+      make_array(dst_tp, const_cast<char *>(cdata()), get_owner() ? get_data_memblock() : *this, get_flags());
 
   char *src_arrmeta = const_cast<char *>(get()->metadata());
   char *dst_arrmeta = res.get()->metadata();
@@ -723,7 +733,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
       }
       // Create the result array, adjusting the type if the data isn't aligned
       // correctly
-      char *data_ptr = data();
+      char *data_ptr = const_cast<char *>(cdata());
       ndt::type result_tp;
       intptr_t dim_size = nbytes / scalar_tp.get_data_size();
       if ((((uintptr_t)data_ptr) & (scalar_tp.get_data_alignment() - 1)) == 0) {
@@ -732,7 +742,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
         throw std::runtime_error("creating an unaligned type");
         //        result_tp = ndt::make_fixed_dim(dim_size, make_unaligned(scalar_tp));
       }
-      array result = make_array(result_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+      array result = make_array(result_tp, data_ptr, get_owner() ? get_owner() : *this, get_flags());
       // The result has one strided ndarray field
       fixed_dim_type_arrmeta *result_md = reinterpret_cast<fixed_dim_type_arrmeta *>(result.get()->metadata());
       result_md->dim_size = dim_size;
@@ -902,8 +912,8 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
     shape_copy[i] = shape(i).as<intptr_t>();
   }
 
-  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(), a.data(), a,
-                                      NULL);
+  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(),
+                                      const_cast<char *>(a.cdata()), a, NULL);
 }
 
 nd::array nd::memmap(const std::string &DYND_UNUSED(filename), intptr_t DYND_UNUSED(begin), intptr_t DYND_UNUSED(end),
@@ -978,7 +988,7 @@ nd::array nd::combine_into_tuple(size_t field_count, const array *field_values)
   }
 
   // Set the data pointers
-  const char **dp = reinterpret_cast<const char **>(result.data());
+  const char **dp = reinterpret_cast<const char **>(const_cast<char *>(result.cdata()));
   for (size_t i = 0; i != field_count; ++i) {
     dp[i] = field_values[i].cdata();
   }
diff --git a/src/dynd/callables/base_callable.cpp b/src/dynd/callables/base_callable.cpp
index 544f059..66e9d3d 100644
--- a/src/dynd/callables/base_callable.cpp
+++ b/src/dynd/callables/base_callable.cpp
@@ -78,6 +78,9 @@ void nd::base_callable::call(const ndt::type &dst_tp, const char *dst_arrmeta, a
   kernel_builder kb(cg.get());
   kb(kernel_request_call, nullptr, dst_arrmeta, nsrc, src_arrmeta);
 
+  // The destination has to be writable
+  dst->data();
+
   kernel_call_t fn = kb.get()->get_function<kernel_call_t>();
   fn(kb.get(), dst, src);
 }
-- 
2.43.0


From 3d9c9dd655975a9f3b750d81e30da7b6253f80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:34 +0000
Subject: [PATCH 78/90] fix: a pointer type does not destruct its target

---
 include/dynd/types/pointer_type.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/pointer_type.hpp b/include/dynd/types/pointer_type.hpp
index 8bdb036..e58689a 100644
--- a/include/dynd/types/pointer_type.hpp
+++ b/include/dynd/types/pointer_type.hpp
@@ -38,7 +38,9 @@ namespace ndt {
   public:
     pointer_type(type_id_t id, const type &target_tp = make_type<any_kind_type>())
         : base_type(id, sizeof(char *), alignof(char *),
-                    target_tp.get_flags() | type_flag_zeroinit | type_flag_blockref,
+                    // The target belongs to the memory block, it isn't constructed or destructed with the pointer
+                    (target_tp.get_flags() & ~uint32_t(type_flag_construct | type_flag_destructor)) |
+                        type_flag_zeroinit | type_flag_blockref,
                     target_tp.get_arrmeta_size() + sizeof(pointer_type_arrmeta), 0, 0),
           m_target_tp(target_tp) {}
 
-- 
2.43.0


From c475902c4b0db0df9bd25100e3110b310b92bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 79/90] fix: converting between options is lossless when the
 conversion of their values is

---
 src/dynd/types/option_type.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index 9f863a7..7aa096d 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -141,7 +141,9 @@ ndt::type ndt::option_type::get_type_at_dimension(char **inout_arrmeta, intptr_t
 
 bool ndt::option_type::is_lossless_assignment(const type &dst_tp, const type &src_tp) const {
   if (dst_tp.extended() == this) {
-    return ::is_lossless_assignment(m_value_tp, src_tp);
+    return ::is_lossless_assignment(m_value_tp, src_tp.get_id() == option_id
+                                                    ? src_tp.extended<option_type>()->get_value_type()
+                                                    : src_tp);
   } else {
     // A type which is not an option cannot hold a missing value
     return false;
-- 
2.43.0


From 62177a14e806a32821c8585e1af516165e2643d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:58 +0000
Subject: [PATCH 80/90] fix: nd::reshape refuses negative sizes and sizes whose
 product overflows, and accepts no sizes at all

---
 src/dynd/array.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 0fbf244..0fa84e2 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -877,7 +877,13 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
   }
   intptr_t size = 1;
   for (intptr_t i = 0; i < ndim; ++i) {
-    size *= shape(i).as<intptr_t>();
+    intptr_t dim_size = shape(i).as<intptr_t>();
+    if (dim_size < 0 || (dim_size > 1 && size > std::numeric_limits<intptr_t>::max() / dim_size)) {
+      stringstream ss;
+      ss << "dynd reshape: invalid size " << dim_size << " of dimension " << i;
+      throw invalid_argument(ss.str());
+    }
+    size *= dim_size;
   }
 
   if (old_size != size) {
@@ -902,9 +908,10 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
   }
 
   dimvector strides(ndim);
-  strides[ndim - 1] = a.get_dtype().get_data_size();
-  for (intptr_t i = ndim - 2; i >= 0; --i) {
-    strides[i] = shape(i + 1).as<intptr_t>() * strides[i + 1];
+  intptr_t stride = a.get_dtype().get_data_size();
+  for (intptr_t i = ndim - 1; i >= 0; --i) {
+    strides[i] = stride;
+    stride *= shape(i).as<intptr_t>();
   }
 
   dimvector shape_copy(ndim);
-- 
2.43.0


From 934b101247f0b405eb93fefbc321a1ccaae6096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:29 +0000
Subject: [PATCH 81/90] fix: new_axis, view_scalars and replace_dtype refuse
 counts and types they cannot handle

---
 src/dynd/array.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 0fa84e2..f99687d 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -627,6 +627,11 @@ nd::array nd::array::replace_dtype(const ndt::type &replacement_tp, intptr_t rep
   // This creates a type which swaps in the new dtype for
   // the existing one. It raises an error if the data layout
   // is incompatible
+  if (replace_ndim < 0 || replace_ndim > get_ndim()) {
+    stringstream ss;
+    ss << "Cannot replace a dtype with " << replace_ndim << " dimensions in dynd type " << get_type();
+    throw invalid_argument(ss.str());
+  }
   ndt::type replaced_tp;
   bool was_transformed = false;
   replace_compatible_dtype_extra extra(replacement_tp, replace_ndim);
@@ -639,6 +644,12 @@ nd::array nd::array::replace_dtype(const ndt::type &replacement_tp, intptr_t rep
 }
 
 nd::array nd::array::new_axis(intptr_t i, intptr_t new_ndim) const {
+  if (new_ndim < 0) {
+    stringstream ss;
+    ss << "Cannot add " << new_ndim << " axes to dynd type " << get_type();
+    throw invalid_argument(ss.str());
+  }
+
   ndt::type src_tp = get_type();
   ndt::type dst_tp = src_tp.with_new_axis(i, new_ndim);
 
@@ -720,7 +731,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
     const ndt::fixed_dim_type *sad = array_type.extended<ndt::fixed_dim_type>();
     const fixed_dim_type_arrmeta *md = reinterpret_cast<const fixed_dim_type_arrmeta *>(get()->metadata());
     const ndt::type &edt = sad->get_element_type();
-    if (edt.is_pod() && (intptr_t)edt.get_data_size() == md->stride &&
+    if (edt.is_pod() && (intptr_t)edt.get_data_size() == md->stride && scalar_tp.get_data_size() != 0 &&
         sad->get_element_type().get_base_id() != expr_kind_id) {
       intptr_t nbytes = md->dim_size * edt.get_data_size();
       // Make sure the element size divides into the # of bytes
-- 
2.43.0


From 23ea595b7225c8a2e0f7384977cf1a9661588c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:23 +0000
Subject: [PATCH 82/90] fix: rotate refuses axes outside the array instead of
 writing outside its axis order

---
 src/dynd/array.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index f99687d..63918ae 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -553,6 +553,12 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
 }
 
 nd::array nd::array::rotate(intptr_t to, intptr_t from) const {
+  if (from != to && (from < 0 || to < 0 || from >= get_ndim() || to >= get_ndim())) {
+    stringstream ss;
+    ss << "Invalid axes provided to dynd axis rotate: from " << from << " to " << to << " for type " << get_type();
+    throw invalid_argument(ss.str());
+  }
+
   if (from < to) {
     intptr_t ndim = to + 1;
     dimvector axes(ndim);
-- 
2.43.0


From 28141cc5b1e6fc989a81cb4137e4f85df9f9e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:47 +0000
Subject: [PATCH 83/90] fix: printing an array separates all elements and does
 not divide by zero on wide elements

---
 src/dynd/type.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 3b2793a..d1a0db7 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -659,7 +659,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     summarize_stats(leading.back(), num_rows, max_num_cols);
   }
   // Get trailing strings
-  for (itrail = max(dim_size - trailing_count, ilead + 1); itrail < dim_size; ++itrail) {
+  for (itrail = max(dim_size - trailing_count, ilead); itrail < dim_size; ++itrail) {
     stringstream ss;
     tp.print_data(ss, arrmeta, data + itrail * stride);
     trailing.push_back(ss.str());
@@ -694,6 +694,8 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     if (leading.size() != (size_t)dim_size) {
       if ((size_t)dim_size > (leading.size() + trailing.size())) {
         o << ",\n ...\n";
+      } else {
+        o << ",\n";
       }
       if (!trailing.empty()) {
         print_indented(o, " ", trailing.front());
@@ -724,7 +726,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       total_cols = (max_num_cols + 2) * (leading.size() + trailing.size());
     }
 
-    intptr_t per_row = packing_cols / (max_num_cols + 2);
+    intptr_t per_row = max(packing_cols / (max_num_cols + 2), (intptr_t)1);
 
     if (leading.size() + trailing.size() == (size_t)dim_size) {
       // Combine the lists if the total size is covered
@@ -750,7 +752,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       for (j = 1; j < per_row && i < i_size; ++j, ++i) {
         o << ", " << setw(max_num_cols) << leading[i] << setw(0);
       }
-      if (i < i_size - 1) {
+      if (i < i_size) {
         o << ",\n";
       }
     }
@@ -764,7 +766,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
         for (j = 1; j < per_row && i < i_size; ++j, ++i) {
           o << ", " << setw(max_num_cols) << trailing[i] << setw(0);
         }
-        if (i < i_size - 1) {
+        if (i < i_size) {
           o << ",\n";
         }
       }
-- 
2.43.0


From 109c69669a16a3f9baeb9fd8492364858317021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:41 +0000
Subject: [PATCH 84/90] fix: classify the axis order of three and more
 dimensions by comparing neighbours

---
 src/dynd/shape_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index 7f51cb9..f2f9eda 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -481,7 +481,7 @@ axis_order_classification_t dynd::classify_strided_axis_order(intptr_t current_s
       axis_order_classification_t aoc;
       // Get the classification from the next dimension onward
       if (edt->get_ndim() > 1) {
-        aoc = classify_strided_axis_order(current_stride, edt->get_element_type(),
+        aoc = classify_strided_axis_order(estride, edt->get_element_type(),
                                           element_arrmeta + sizeof(fixed_dim_type_arrmeta));
       }
       else {
-- 
2.43.0


From 4824dc3c00f8054d8bd22a758df52e0510b5f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:48 +0000
Subject: [PATCH 85/90] fix: reordering the strides of elements without data no
 longer loops forever

---
 src/dynd/types/fixed_dim_type.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index a07446d..6c9dd61 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -474,10 +474,9 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
     if (stride == 0) {
       // Because of the rule that size one dimensions have
       // zero stride, may have to look further
-      intptr_t i = ndim_partial - 2;
-      do {
+      for (intptr_t i = ndim_partial - 2; stride == 0 && i >= 0; --i) {
         stride = md[i].stride;
-      } while (stride == 0 && i >= 0);
+      }
     }
     for (size_t i = 0; i < ndim_partial; ++i) {
       int i_perm = axis_perm[i];
@@ -501,10 +500,9 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
       if (stride == 0) {
         // Because of the rule that size one dimensions have
         // zero stride, may have to look further
-        intptr_t i = ndim - 2;
-        do {
+        for (intptr_t i = ndim - 2; stride == 0 && i >= (intptr_t)ndim_partial; --i) {
           stride = md[i].stride;
-        } while (stride == 0 && i >= (intptr_t)ndim_partial);
+        }
       }
       for (size_t i = ndim_partial; i != ndim; ++i) {
         intptr_t dim_size = md[i].dim_size;
-- 
2.43.0


From b6cbc948a15bc29ddb0bfb5084d69a4baff5bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:08 +0000
Subject: [PATCH 86/90] fix: replacing the element type reaches through named,
 ellipsis and power dimensions

---
 include/dynd/types/ellipsis_dim_type.hpp |  3 +++
 include/dynd/types/pow_dimsym_type.hpp   |  3 +++
 include/dynd/types/typevar_dim_type.hpp  |  3 +++
 src/dynd/types/ellipsis_dim_type.cpp     | 13 +++++++++++++
 src/dynd/types/pow_dimsym_type.cpp       | 13 +++++++++++++
 src/dynd/types/typevar_dim_type.cpp      | 13 +++++++++++++
 6 files changed, 48 insertions(+)

diff --git a/include/dynd/types/ellipsis_dim_type.hpp b/include/dynd/types/ellipsis_dim_type.hpp
index 4832778..b6aa3d9 100644
--- a/include/dynd/types/ellipsis_dim_type.hpp
+++ b/include/dynd/types/ellipsis_dim_type.hpp
@@ -62,6 +62,9 @@ namespace ndt {
                                          const nd::memory_block &embedded_reference) const;
     void arrmeta_destruct(char *arrmeta) const;
 
+    void transform_child_types(type_transform_fn_t transform_fn, intptr_t arrmeta_offset, void *extra,
+                               type &out_transformed_tp, bool &out_was_transformed) const;
+
     bool match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const;
 
     std::map<std::string, std::pair<ndt::type, const char *>> get_dynamic_type_properties() const;
diff --git a/include/dynd/types/pow_dimsym_type.hpp b/include/dynd/types/pow_dimsym_type.hpp
index 4d9ad20..0c8a7e5 100644
--- a/include/dynd/types/pow_dimsym_type.hpp
+++ b/include/dynd/types/pow_dimsym_type.hpp
@@ -69,6 +69,9 @@ namespace ndt {
 
     std::map<std::string, std::pair<ndt::type, const char *>> get_dynamic_type_properties() const;
 
+    void transform_child_types(type_transform_fn_t transform_fn, intptr_t arrmeta_offset, void *extra,
+                               type &out_transformed_tp, bool &out_was_transformed) const;
+
     bool match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const;
 
     virtual type with_element_type(const type &element_tp) const;
diff --git a/include/dynd/types/typevar_dim_type.hpp b/include/dynd/types/typevar_dim_type.hpp
index 21fe202..9983bb5 100644
--- a/include/dynd/types/typevar_dim_type.hpp
+++ b/include/dynd/types/typevar_dim_type.hpp
@@ -55,6 +55,9 @@ namespace ndt {
                                          const nd::memory_block &embedded_reference) const;
     void arrmeta_destruct(char *arrmeta) const;
 
+    void transform_child_types(type_transform_fn_t transform_fn, intptr_t arrmeta_offset, void *extra,
+                               type &out_transformed_tp, bool &out_was_transformed) const;
+
     bool match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const;
 
     std::map<std::string, std::pair<ndt::type, const char *>> get_dynamic_type_properties() const;
diff --git a/src/dynd/types/ellipsis_dim_type.cpp b/src/dynd/types/ellipsis_dim_type.cpp
index 43de556..efc10a2 100644
--- a/src/dynd/types/ellipsis_dim_type.cpp
+++ b/src/dynd/types/ellipsis_dim_type.cpp
@@ -88,6 +88,19 @@ void ndt::ellipsis_dim_type::arrmeta_destruct(char *DYND_UNUSED(arrmeta)) const
   throw type_error("Cannot store data of ellipsis type");
 }
 
+void ndt::ellipsis_dim_type::transform_child_types(type_transform_fn_t transform_fn, intptr_t arrmeta_offset, void *extra,
+                                             type &out_transformed_tp, bool &out_was_transformed) const {
+  type tmp_tp;
+  bool was_transformed = false;
+  transform_fn(m_element_tp, arrmeta_offset, extra, tmp_tp, was_transformed);
+  if (was_transformed) {
+    out_transformed_tp = with_element_type(tmp_tp);
+    out_was_transformed = true;
+  } else {
+    out_transformed_tp = type(this, true);
+  }
+}
+
 bool ndt::ellipsis_dim_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
   // TODO XXX This is wrong, "Any" could represent a type that doesn't match
   // against this one...
diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 53cca37..ab32220 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -99,6 +99,19 @@ void ndt::pow_dimsym_type::arrmeta_destruct(char *DYND_UNUSED(arrmeta)) const {
   throw type_error("Cannot store data of typevar type");
 }
 
+void ndt::pow_dimsym_type::transform_child_types(type_transform_fn_t transform_fn, intptr_t arrmeta_offset, void *extra,
+                                             type &out_transformed_tp, bool &out_was_transformed) const {
+  type tmp_tp;
+  bool was_transformed = false;
+  transform_fn(m_element_tp, arrmeta_offset, extra, tmp_tp, was_transformed);
+  if (was_transformed) {
+    out_transformed_tp = with_element_type(tmp_tp);
+    out_was_transformed = true;
+  } else {
+    out_transformed_tp = type(this, true);
+  }
+}
+
 bool ndt::pow_dimsym_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
   if (candidate_tp.get_id() == typevar_constructed_id) {
     return candidate_tp.extended<typevar_constructed_type>()->match(type(this, true), tp_vars);
diff --git a/src/dynd/types/typevar_dim_type.cpp b/src/dynd/types/typevar_dim_type.cpp
index d668a30..a430b6f 100644
--- a/src/dynd/types/typevar_dim_type.cpp
+++ b/src/dynd/types/typevar_dim_type.cpp
@@ -82,6 +82,19 @@ void ndt::typevar_dim_type::arrmeta_destruct(char *DYND_UNUSED(arrmeta)) const {
   throw type_error("Cannot store data of typevar type");
 }
 
+void ndt::typevar_dim_type::transform_child_types(type_transform_fn_t transform_fn, intptr_t arrmeta_offset, void *extra,
+                                             type &out_transformed_tp, bool &out_was_transformed) const {
+  type tmp_tp;
+  bool was_transformed = false;
+  transform_fn(m_element_tp, arrmeta_offset, extra, tmp_tp, was_transformed);
+  if (was_transformed) {
+    out_transformed_tp = with_element_type(tmp_tp);
+    out_was_transformed = true;
+  } else {
+    out_transformed_tp = type(this, true);
+  }
+}
+
 bool ndt::typevar_dim_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
   if (candidate_tp.is_scalar()) {
     return false;
-- 
2.43.0


From 612c1a6ce0644fb1571778b0b1295e670f6ae782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:42 +0000
Subject: [PATCH 87/90] fix: a shared shape with variable-sized dimensions does
 not depend on their order

---
 src/dynd/array.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 63918ae..290f037 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -1070,8 +1070,6 @@ void dynd::broadcast_input_shapes(intptr_t ninputs, const nd::array *inputs, int
         // A negative shape value means variable-sized
         if (itershape_size > 0) {
           shape[k] = -itershape_size;
-        } else {
-          shape[k] = -1;
         }
       } else if (itershape_size >= 0) {
         if (size != 1 && itershape_size != size) {
@@ -1079,9 +1077,9 @@ void dynd::broadcast_input_shapes(intptr_t ninputs, const nd::array *inputs, int
           throw broadcast_error(broadcast_error_message(ninputs, inputs));
         }
       } else { // itershape_size < 0
-        if (itershape_size == -1 && size > 0) {
-          shape[k] = -size;
-        } else if (size > 1 && itershape_size != -size) {
+        if (itershape_size == -1) {
+          shape[k] = size == 1 ? -1 : -size;
+        } else if (size != 1 && itershape_size != -size) {
           throw broadcast_error(broadcast_error_message(ninputs, inputs));
         }
       }
-- 
2.43.0


From a5466c74cdda45e72d63e5664d03f6e9d1946d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:10 +0000
Subject: [PATCH 88/90] fix: types made through the C interface have a
 reference count and are released

---
 include/dynd/abi/type.h       |  5 +++++
 src/dynd/abi/type.cpp         | 18 ++++++++++++++++++
 src/dynd/abi/types/dense.cpp  |  5 ++---
 src/dynd/abi/types/sparse.cpp |  5 ++---
 src/dynd/abi/types/tuple.cpp  |  3 +--
 5 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/dynd/abi/type.h b/include/dynd/abi/type.h
index eefff6f..35fd803 100644
--- a/include/dynd/abi/type.h
+++ b/include/dynd/abi/type.h
@@ -77,6 +77,11 @@ typedef struct dynd_type_impl dynd_type;
 
 #define dynd_type_metadata(a) ((void*)(a + 1))
 
+// Allocates a type of the given total size, with one reference to it,
+// which is freed once its last reference is dropped.
+#define dynd_malloc_type DYND_ABI(malloc_type)
+DYND_ABI_EXPORT dynd_type *dynd_malloc_type(dynd_size_t) dynd_noexcept;
+
 // Same as previous, but without reference counting.
 // The layout is kept intentionally compatible.
 #define dynd_type_ref DYND_ABI(type_ref)
diff --git a/src/dynd/abi/type.cpp b/src/dynd/abi/type.cpp
index e9929b0..cd60890 100644
--- a/src/dynd/abi/type.cpp
+++ b/src/dynd/abi/type.cpp
@@ -1,9 +1,27 @@
+#include <cstddef>
+#include <cstdlib>
+
 #include "dynd/abi/type.h"
 
+static void release_malloc_type(dynd_resource *resource) dynd_noexcept {
+  // The reference count and with it the type begins before its resource.
+  char *type = reinterpret_cast<char*>(resource) - offsetof(dynd_refcounted, resource);
+  std::free(reinterpret_cast<dynd_type*>(type)->header.allocated.base_ptr);
+}
+
 extern "C" {
 
 DYND_ABI_EXPORT dynd_type_range dynd_type_range_empty(dynd_type_header*) dynd_noexcept {
   return {nullptr, nullptr};
 }
 
+DYND_ABI_EXPORT dynd_type *dynd_malloc_type(dynd_size_t size) dynd_noexcept {
+  dynd_type *type = reinterpret_cast<dynd_type*>(std::malloc(size));
+  dynd_atomic_store(&type->refcount.refcount, dynd_size_t(1u), dynd_memory_order_relaxed);
+  type->refcount.resource.release = &release_malloc_type;
+  type->header.allocated.base_ptr = type;
+  type->header.allocated.size = size;
+  return type;
+}
+
 }
diff --git a/src/dynd/abi/types/dense.cpp b/src/dynd/abi/types/dense.cpp
index 286d17b..9b6d5ce 100644
--- a/src/dynd/abi/types/dense.cpp
+++ b/src/dynd/abi/types/dense.cpp
@@ -56,10 +56,9 @@ static dynd_type *make_dense(dynd_type_constructor_header *, dynd_type_range par
   // Right now things are all rolled together into the single "resource release"
   // function that does too many things.
   // As a shortcut to get this initial pass working, just track deallocation info for
-  // the metadata buffers. This means that it's okay to just use dynd_malloc_buffer
+  // the metadata buffers. This means that it's okay to just use dynd_malloc_type
   // out of the box.
-  dynd_type_dense_concrete *buffer = reinterpret_cast<dynd_type_dense_concrete*>(dynd_malloc_buffer(sizeof(dynd_type_dense_concrete)));
-  dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  dynd_type_dense_concrete *buffer = reinterpret_cast<dynd_type_dense_concrete*>(dynd_malloc_type(sizeof(dynd_type_dense_concrete)));
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&dense_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_dense);
diff --git a/src/dynd/abi/types/sparse.cpp b/src/dynd/abi/types/sparse.cpp
index 081f4fe..b5006c6 100644
--- a/src/dynd/abi/types/sparse.cpp
+++ b/src/dynd/abi/types/sparse.cpp
@@ -56,10 +56,9 @@ static dynd_type *make_sparse(dynd_type_constructor_header *, dynd_type_range pa
   // Right now things are all rolled together into the single "resource release"
   // function that does too many things.
   // As a shortcut to get this initial pass working, just track deallocation info for
-  // the metadata buffers. This means that it's okay to just use dynd_malloc_buffer
+  // the metadata buffers. This means that it's okay to just use dynd_malloc_type
   // out of the box.
-  dynd_type_sparse_concrete *buffer = reinterpret_cast<dynd_type_sparse_concrete*>(dynd_malloc_buffer(sizeof(dynd_type_sparse_concrete)));
-  dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  dynd_type_sparse_concrete *buffer = reinterpret_cast<dynd_type_sparse_concrete*>(dynd_malloc_type(sizeof(dynd_type_sparse_concrete)));
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&sparse_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_sparse);
diff --git a/src/dynd/abi/types/tuple.cpp b/src/dynd/abi/types/tuple.cpp
index 574c205..86790c6 100644
--- a/src/dynd/abi/types/tuple.cpp
+++ b/src/dynd/abi/types/tuple.cpp
@@ -58,8 +58,7 @@ extern DYND_ABI_EXPORT dynd_type_tuple_impl dynd_type_tuple;
 
 static dynd_type *make_tuple(dynd_type_constructor_header *, dynd_type_range parameters) noexcept {
   dynd_size_t num_entries = std::distance(parameters.begin, parameters.end);
-  dynd_type_tuple_concrete_header *buffer = reinterpret_cast<dynd_type_tuple_concrete_header*>(dynd_malloc_buffer(sizeof(dynd_type_tuple_concrete_header) + 8 * num_entries));
-  dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  dynd_type_tuple_concrete_header *buffer = reinterpret_cast<dynd_type_tuple_concrete_header*>(dynd_malloc_type(sizeof(dynd_type_tuple_concrete_header) + 8 * num_entries));
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&tuple_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_tuple);
-- 
2.43.0


From 747f9060c4fea924d40d84876cc4d8abe5bc0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:58 +0000
Subject: [PATCH 89/90] fix: exact equality of variable-sized dimensions of
 different lengths is false and does not raise

---
 src/dynd/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 290f037..0fbcdb1 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -311,6 +311,9 @@ bool nd::array::equals_exact(const array &rhs) const {
   } else if (get_type().get_id() == var_dim_id) {
     // If there's a leading var dimension, convert it to strided and compare
     // (Note: this is an inefficient hack)
+    if (get_shape()[0] != rhs.get_shape()[0]) {
+      return false;
+    }
     ndt::type tp = ndt::make_fixed_dim(get_shape()[0], get_type().extended<ndt::base_dim_type>()->get_element_type());
     return nd::old_view(*this, tp).equals_exact(nd::old_view(rhs, tp));
   } else {
-- 
2.43.0


From b78c598945819ae92010d7578fe9bfc9f292fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:58 +0000
Subject: [PATCH 90/90] fix: filling in a shape of no dimensions does not read
 a size behind it

---
 src/dynd/types/substitute_shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/substitute_shape.cpp b/src/dynd/types/substitute_shape.cpp
index 2bd6c48..137cc47 100644
--- a/src/dynd/types/substitute_shape.cpp
+++ b/src/dynd/types/substitute_shape.cpp
@@ -40,7 +40,7 @@ static void substitute_shape_visitor(const ndt::type &tp, intptr_t DYND_UNUSED(a
                                      ndt::type &out_transformed_tp, bool &out_was_transformed) {
   substitute_shape_data *ssd = reinterpret_cast<substitute_shape_data *>(extra);
   intptr_t ndim = ssd->ndim, i = ssd->i;
-  if (!tp.is_scalar()) {
+  if (i < ndim && !tp.is_scalar()) {
     intptr_t dim_size = ssd->shape[i];
     ndt::type subtp = tp.extended<ndt::base_dim_type>()->get_element_type();
     if (i + 1 < ndim) {
-- 
2.43.0

