From a23f37853b7435a736173b5e111104b793713994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:05 +0000
Subject: [PATCH 01/41] fix: to_number(): avoid signed overflow when adjusting
 huge float exponents

Strings like "12e2147483647" overflowed the int exponent (undefined behavior) and
were converted to a small finite number instead of infinity.
---
 include/gul14/to_number.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index e8bdb15..084984f 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -304,7 +304,9 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (inf_nan.result_valid)
         return inf_nan.result;
 
-    int exponent = 0;
+    // The exponent may temporarily exceed the range of int while it is being adjusted for
+    // the position of the decimal point.
+    long long exponent = 0;
     auto e_pos = str.find_first_of("eE");
     if (e_pos != gul14::string_view::npos)
     {
@@ -351,9 +353,9 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
 
         str_before_point = str_after_point.substr(0, 1);
         str_after_point.remove_prefix(1);
-        exponent -= static_cast<int>(old_digits - str_after_point.length());
+        exponent -= static_cast<long long>(old_digits - str_after_point.length());
     } else {
-        exponent += static_cast<int>(str_before_point.length() - 1);
+        exponent += static_cast<long long>(str_before_point.length() - 1);
     }
 
     // Now the incoming number string is like this:
@@ -370,7 +372,14 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (not norm_val.has_value())
         return nullopt;
 
-    return detail::pow10(exponent) * *norm_val;
+    // Exponents beyond this limit overflow to infinity or underflow to zero anyway
+    constexpr long long max_exponent = 100'000;
+    if (exponent > max_exponent)
+        exponent = max_exponent;
+    else if (exponent < -max_exponent)
+        exponent = -max_exponent;
+
+    return detail::pow10(static_cast<int>(exponent)) * *norm_val;
 }
 
 /**
-- 
2.43.0


From b9d55b82bfbe583d0ca878daeca9e60b05099614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:05 +0000
Subject: [PATCH 02/41] fix: to_number(): reject non-digits after the 19th
 significant float digit

Digits that do not contribute to the result were dropped without looking at them, so
that e.g. "12345678901234567890xyz" was accepted as a number.
---
 include/gul14/to_number.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index 084984f..4eba64b 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -181,6 +181,19 @@ constexpr inline gul14::optional<NumberType> to_normalized_float(gul14::string_v
             >= std::numeric_limits<NumberType>::digits10,
             "FloatConversionIntType is too small for NumberType");
 
+    // Only a limited number of leading digits contributes to the result, but all of the
+    // characters must be digits.
+    for (char c : i1)
+    {
+        if (not is_digit(c))
+            return nullopt;
+    }
+    for (char c : i2)
+    {
+        if (not is_digit(c))
+            return nullopt;
+    }
+
     i1 = i1.substr(0, std::min(i1.length(),
                 size_t(std::numeric_limits<FloatConversionIntType<NumberType>>::digits10)));
     i2 = i2.substr(0, std::min(i2.length(),
-- 
2.43.0


From 446bd285da1d8794a53ee5ec220941f49a20adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 03/41] fix: string_view::substr(): avoid integer overflow for
 counts close to npos

pos + n wrapped around for large n, so that the result extended beyond the end of the
original view.
---
 include/gul14/string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 3f070a4..e204081 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -214,8 +214,8 @@ public:
     constexpr basic_string_view substr(size_type pos, size_type n=npos) const {
         if ( pos > size())
             throw std::out_of_range ( "string_view::substr" );
-        if (n == npos || pos + n > size())
-            n = size () - pos;
+        if (n > size() - pos)
+            n = size() - pos;
         return basic_string_view(data() + pos, n);
     }
 
-- 
2.43.0


From a222ee292cbe69c7617cc64b07e6ba7540085db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 04/41] fix: string_view::compare(pos1, n1, x) must not be
 noexcept

It throws std::out_of_range if pos1 > size(); with noexcept, this terminated the program.
---
 include/gul14/string_view.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index e204081..36c208e 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -224,8 +224,7 @@ public:
         return cmp != 0 ? cmp : (len_ == x.len_ ? 0 : len_ < x.len_ ? -1 : 1);
     }
 
-    constexpr int compare(size_type pos1, size_type n1, basic_string_view x)
-    const noexcept {
+    constexpr int compare(size_type pos1, size_type n1, basic_string_view x) const {
         return substr(pos1, n1).compare(x);
     }
 
-- 
2.43.0


From 5f26858ba17f2c4e6b6d993608b0969ceda678c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 05/41] fix: finally(): copy lvalue callables instead of moving
 from them

The wrong template argument for std::forward turned lvalue arguments into rvalues.
---
 include/gul14/finalizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/finalizer.h b/include/gul14/finalizer.h
index 54df935..33fceb4 100644
--- a/include/gul14/finalizer.h
+++ b/include/gul14/finalizer.h
@@ -167,7 +167,7 @@ public:
  */
 template <typename F>
 FinalAction<typename std::decay_t<F>> finally(F&& f) noexcept {
-    return FinalAction<typename std::decay_t<F>>(std::forward<typename std::decay_t<F>>(f));
+    return FinalAction<typename std::decay_t<F>>(std::forward<F>(f));
 }
 
 /// @}
-- 
2.43.0


From e6c23668fc241a1139f83741bc00999c0695456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 06/41] fix: clamp(): return a reference to v if v is
 equivalent to one of the limits

As documented, and like the overload with comparison function, lo and hi may only be
returned if v is really out of range. This also makes clamp(NaN, lo, hi) return NaN.
---
 include/gul14/num_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 63ddadf..ef99f38 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -206,7 +206,7 @@ bool within_ulp(NumT a, NumT b, unsigned int ulp)
  */
 template<class NumT>
 constexpr const NumT& clamp(const NumT& v, const NumT& lo, const NumT& hi) {
-    return std::max(lo, std::min(v, hi)); // usually more optimized than actually using operator<()
+    return std::min(std::max(v, lo), hi); // usually more optimized than actually using operator<()
 }
 /**
  * \overload
-- 
2.43.0


From ae1e6de44638c48e72292a85d9bf6bcb7fadbd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 07/41] fix: within_orders(): avoid wrap-around for unsigned
 types

a - b wrapped around for unsigned integers with a < b.
---
 include/gul14/num_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index ef99f38..4ec43b1 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -96,7 +96,7 @@ template<typename NumT, typename OrderT,
     >>
 bool within_orders(const NumT a, const NumT b, const OrderT orders) noexcept(false) {
     // std::pow() is not noexcept, which might or might not be true
-    auto difference = gul14::abs(a - b);
+    auto difference = (a > b) ? a - b : b - a;
     if (difference == NumT{ 0 })
         return true;
     auto maximum = std::max(gul14::abs(a), gul14::abs(b));
-- 
2.43.0


From 8fc8ccd4172eb26436f30e43a11d4f648e3702c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 08/41] fix: gcd(): handle the lowest negative number of the
 integer type

The absolute value of e.g. INT_MIN overflowed, so that gcd(INT_MIN, 6) was -2.
---
 include/gul14/gcd_lcm.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/gul14/gcd_lcm.h b/include/gul14/gcd_lcm.h
index 36f5438..73dc018 100644
--- a/include/gul14/gcd_lcm.h
+++ b/include/gul14/gcd_lcm.h
@@ -23,6 +23,7 @@
 #ifndef GUL14_GCD_LCM_H_
 #define GUL14_GCD_LCM_H_
 
+#include <cstdint>
 #include <type_traits>
 
 #include "gul14/internal.h"
@@ -78,17 +79,24 @@ gcd(IntTypeA a, IntTypeB b)
 
     using CommonType = std::common_type_t<IntTypeA, IntTypeB>;
 
-    auto c = gul14::abs(static_cast<CommonType>(a));
-    auto d = gul14::abs(static_cast<CommonType>(b));
+    // Calculate with unsigned magnitudes because the absolute value of the lowest negative
+    // number cannot be represented by CommonType.
+    auto c = static_cast<std::uintmax_t>(a);
+    auto d = static_cast<std::uintmax_t>(b);
+
+    if (std::is_signed<CommonType>::value && a < IntTypeA{ 0 })
+        c = std::uintmax_t{ 0 } - c;
+    if (std::is_signed<CommonType>::value && b < IntTypeB{ 0 })
+        d = std::uintmax_t{ 0 } - d;
 
     while (d != 0)
     {
-        CommonType tmp = d;
+        auto tmp = d;
         d = c % d;
         c = tmp;
     }
 
-    return c;
+    return static_cast<CommonType>(c);
 }
 
 /**
-- 
2.43.0


From aaa10a66aa4f17e59492cd553c97645ed4a8307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:49 +0000
Subject: [PATCH 09/41] fix: escape(): escape the non-printable DEL character

As documented, all non-printable characters are replaced by hex codes, but DEL (0x7f) was
passed through unchanged.
---
 src/escape.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.cc b/src/escape.cc
index d9c45c7..35e09be 100644
--- a/src/escape.cc
+++ b/src/escape.cc
@@ -60,7 +60,7 @@ std::string escape(string_view in)
                 escaped += "\\t";
                 break;
             default:
-                if (c < 32)
+                if (c < 32 || c == 127)
                 {
                     // This applies also to all non-ASCII characters (>127) because they
                     // are mapped to negative values
-- 
2.43.0


From 137049cf3053d049b89164715a5e393cff11b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:49 +0000
Subject: [PATCH 10/41] fix: SlidingBufferExposed::end(): correct position
 after pop_front()

If elements had been removed from the front of a left-aligned buffer, end() returned the
end of the underlying container, so that iterating visited unfilled elements and
begin() != end() held for empty buffers.
---
 include/gul14/SlidingBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index ab9c2a9..65bd1d4 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -1165,7 +1165,7 @@ public:
      */
     auto end() noexcept -> iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.end();
 
         return storage_.begin() + idx_end_;
@@ -1185,7 +1185,7 @@ public:
      */
     auto cend() const noexcept -> const_iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.cend();
 
         return storage_.cbegin() + idx_end_;
-- 
2.43.0


From e7de4ec2251d4dda3a6e264e1be66a404f3e1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:49 +0000
Subject: [PATCH 11/41] fix: SlidingBuffer: make const_reverse_iterator
 dereferencable

The const_iterator advertised non-const pointer and reference types, so that dereferencing
crbegin() did not compile.
---
 include/gul14/SlidingBuffer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index 65bd1d4..9599c52 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -657,9 +657,13 @@ public:
         /// Distance between iterators is represented as this type.
         using difference_type = std::ptrdiff_t;
         /// This type represents a pointer-to-value_type.
-        using pointer = value_type*;
+        using pointer = std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            value_type const*, value_type*>;
         /// This type represents a reference-to-value_type.
-        using reference = value_type&;
+        using reference = std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            value_type const&, value_type&>;
 
         /**
          * Create an iterator pointing into a SlidingBuffer.
-- 
2.43.0


From d651022c25fe431c1dc278129ed0fd0e9a6fc88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:21 +0000
Subject: [PATCH 12/41] fix: SmallVector::erase(): do not self-move elements if
 the range is empty

Erasing an empty range move-assigned all of the following elements to themselves, which
e.g. clears elements of type std::vector.
---
 include/gul14/SmallVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 57cd2ec..c463453 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -738,6 +738,10 @@ public:
         auto range_end = const_cast<Iterator>(last);
         auto num_elements = range_end - range_begin;
 
+        // Avoid self-move-assignment of the trailing elements
+        if (num_elements == 0)
+            return range_begin;
+
         std::move(range_end, end(), range_begin);
         destroy_range(end() - num_elements, end());
 
-- 
2.43.0


From 6ae4f259e2052db4044fe9fa346d20b752954bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:21 +0000
Subject: [PATCH 13/41] fix: SmallVector: allow references to own elements as
 arguments

Like with std::vector, it must be possible to pass a reference to an element of the vector
itself to push_back(), emplace_back(), insert(), and resize(). This resulted in use of
freed memory or in the insertion of a wrong value.
---
 include/gul14/SmallVector.h | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index c463453..074a79b 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -672,10 +672,18 @@ public:
     Reference emplace_back(ArgumentTypes&&... arguments)
     {
         if (size_ == capacity_)
+        {
+            // The arguments may refer to an element of this vector, so they must be used
+            // before the storage is replaced.
+            ValueType value(std::forward<ArgumentTypes>(arguments)...);
             grow();
-
-        ::new(static_cast<void*>(data_end()))
-            ValueType(std::forward<ArgumentTypes>(arguments)...);
+            ::new(static_cast<void*>(data_end())) ValueType(std::move(value));
+        }
+        else
+        {
+            ::new(static_cast<void*>(data_end()))
+                ValueType(std::forward<ArgumentTypes>(arguments)...);
+        }
 
         ++size_;
 
@@ -785,7 +793,8 @@ public:
      */
     Iterator insert(ConstIterator pos, const ValueType& value)
     {
-        return insert_single_value(pos, value);
+        // Insert a copy because value may refer to an element of this vector
+        return insert_single_value(pos, ValueType(value));
     }
 
     /**
@@ -817,14 +826,17 @@ public:
         if (num_elements < 1)
             return begin() + idx;
 
+        // Use a copy because value may refer to an element of this vector
+        const ValueType value_copy(value);
+
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
         // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value);
+        std::fill_n(insert_pos, num_assignable, value_copy);
 
         // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value_copy);
 
         size_ += num_elements;
 
@@ -1018,12 +1030,7 @@ public:
      */
     void push_back(const ValueType& value)
     {
-        if (size_ == capacity_)
-            grow();
-
-        ::new(static_cast<void*>(data_end())) ValueType(value);
-
-        ++size_;
+        emplace_back(value);
     }
 
     /**
@@ -1145,8 +1152,10 @@ public:
         }
         else if (num_elements > size_)
         {
+            // Use a copy because element may refer to an element of this vector
+            const ValueType element_copy(element);
             reserve(num_elements);
-            copy_value_into_uninitialized_cells(size_, num_elements - size_, element);
+            copy_value_into_uninitialized_cells(size_, num_elements - size_, element_copy);
         }
 
         size_ = num_elements;
-- 
2.43.0


From 8a48dfe0695571b6dfc38f30b6de8e2d2f348bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:11 +0000
Subject: [PATCH 14/41] fix: SmallVector: support all input iterators for
 ranges

The range constructor, assign(), and insert() traversed the range twice and thus left
uninitialized elements behind if they were called with single-pass iterators. insert()
could only be compiled for random access iterators.
---
 include/gul14/SmallVector.h | 72 ++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 074a79b..89da5b8 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -866,23 +866,8 @@ public:
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     Iterator insert(ConstIterator pos, InputIterator first, InputIterator last)
     {
-        const auto idx = static_cast<SizeType>(pos - begin());
-        const auto num_elements = static_cast<SizeType>(std::distance(first, last));
-        if (num_elements < 1)
-            return begin() + idx;
-
-        const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
-        Iterator insert_pos = begin() + idx;
-
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
-
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
-
-        size_ += num_elements;
-
-        return insert_pos;
+        return insert_range(pos, first, last,
+            typename std::iterator_traits<InputIterator>::iterator_category{});
     }
 
     /**
@@ -1334,6 +1319,24 @@ private:
      */
     template<typename InputIterator>
     void fill_empty_vector_with_copied_range(InputIterator first, InputIterator last)
+    {
+        fill_empty_vector_with_copied_range(first, last,
+            typename std::iterator_traits<InputIterator>::iterator_category{});
+    }
+
+    // Overload for single-pass iterators
+    template<typename InputIterator>
+    void fill_empty_vector_with_copied_range(InputIterator first, InputIterator last,
+                                             std::input_iterator_tag)
+    {
+        for (; first != last; ++first)
+            emplace_back(*first);
+    }
+
+    // Overload for multi-pass iterators
+    template<typename ForwardIterator>
+    void fill_empty_vector_with_copied_range(ForwardIterator first, ForwardIterator last,
+                                             std::forward_iterator_tag)
     {
         const auto num_elements = static_cast<SizeType>(std::distance(first, last));
 
@@ -1409,6 +1412,41 @@ private:
         reserve(capacity_ + increase);
     }
 
+    // Insert a range of values given by single-pass iterators
+    template<class InputIterator>
+    Iterator insert_range(ConstIterator pos, InputIterator first, InputIterator last,
+                          std::input_iterator_tag)
+    {
+        SmallVector elements(first, last);
+
+        return insert_range(pos, std::make_move_iterator(elements.begin()),
+            std::make_move_iterator(elements.end()), std::forward_iterator_tag{});
+    }
+
+    // Insert a range of values given by multi-pass iterators
+    template<class ForwardIterator>
+    Iterator insert_range(ConstIterator pos, ForwardIterator first, ForwardIterator last,
+                          std::forward_iterator_tag)
+    {
+        const auto idx = static_cast<SizeType>(pos - begin());
+        const auto num_elements = static_cast<SizeType>(std::distance(first, last));
+        if (num_elements < 1)
+            return begin() + idx;
+
+        const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
+        Iterator insert_pos = begin() + idx;
+
+        // Copy-assign to moved-from elements
+        std::copy_n(first, num_assignable, insert_pos);
+
+        // Copy the remaining values into uninitialized cells
+        copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable), last);
+
+        size_ += num_elements;
+
+        return insert_pos;
+    }
+
     /// Insert a single value before the given position.
     template <typename T>
     Iterator insert_single_value(ConstIterator pos, T&& value)
-- 
2.43.0


From 237a7219a621934bfee4ce84c384d7ab3b3afec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:02 +0000
Subject: [PATCH 15/41] fix: SmallVector: free memory and elements if a
 constructor throws

If the constructor of an element throws, the elements that have already been created must
be destroyed and allocated storage must be released. The constructors delegate to the
default constructor so that the destructor takes care of the latter. resize(n, value) and
assign(n, value) leaked elements in the same way.
---
 include/gul14/SmallVector.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 89da5b8..9997e54 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -323,13 +323,13 @@ public:
      * \param num_elements  The number of initial elements
      */
     explicit SmallVector(SizeType num_elements)
+        : SmallVector()
     {
         static_assert(std::is_default_constructible<ValueType>::value,
             "SmallVector: Element type is not default-constructible");
 
         reserve(num_elements);
-        for (SizeType i = 0u; i != num_elements; ++i)
-            ::new(static_cast<void*>(data() + i)) ValueType{};
+        fill_uninitialized_cells_with_default_constructed_elements(0u, num_elements);
         size_ = num_elements;
     }
 
@@ -341,6 +341,7 @@ public:
      * \param value         The value to be copied to the initial elements
      */
     SmallVector(SizeType num_elements, const ValueType& value)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_value(num_elements, value);
     }
@@ -364,6 +365,7 @@ public:
     template<class InputIterator,
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     SmallVector(InputIterator first, InputIterator last)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(first, last);
     }
@@ -378,6 +380,7 @@ public:
      */
     SmallVector(const SmallVector& other)
         noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
+        : SmallVector()
     {
         static_assert(std::is_copy_constructible<ValueType>::value == true,
             "SmallVector: Element type is not copy-constructible");
@@ -413,6 +416,7 @@ public:
      *          list exceeds max_size().
      */
     SmallVector(std::initializer_list<ValueType> init)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(init.begin(), init.end());
     }
@@ -1273,8 +1277,18 @@ private:
     {
         const auto start_ptr = data() + pos;
         const auto end_ptr = start_ptr + num_elements;
-        for (auto p = start_ptr; p != end_ptr; ++p)
-            ::new(static_cast<void*>(p)) ValueType(value);
+        auto ptr = start_ptr;
+
+        try
+        {
+            for (; ptr != end_ptr; ++ptr)
+                ::new(static_cast<void*>(ptr)) ValueType(value);
+        }
+        catch (...)
+        {
+            destroy_range(start_ptr, ptr);
+            throw;
+        }
     }
 
     /// Return a non-dereferencable pointer past the last element.
-- 
2.43.0


From e82555682b4136a0f652b2cdef08ecc52f28354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:02 +0000
Subject: [PATCH 16/41] fix: SmallVector::insert(): do not leak elements if an
 exception is thrown

Elements that had been moved behind the old end of the vector were never destroyed if
creating or assigning one of the inserted elements threw an exception.
---
 include/gul14/SmallVector.h | 59 +++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 9997e54..5030c6a 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -836,11 +836,21 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value_copy);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::fill_n(insert_pos, num_assignable, value_copy);
 
-        // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value_copy);
+            // Copy the remaining values into uninitialized cells
+            copy_value_into_uninitialized_cells(size_, num_elements - num_assignable,
+                value_copy);
+        }
+        catch (...)
+        {
+            destroy_range(insert_pos + num_elements + (size_ - idx) - num_assignable,
+                insert_pos + num_elements + (size_ - idx));
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1450,11 +1460,21 @@ private:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::copy_n(first, num_assignable, insert_pos);
 
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable), last);
+            // Copy the remaining values into uninitialized cells
+            copy_range_into_uninitialized_cells(size_, std::next(first, num_assignable),
+                last);
+        }
+        catch (...)
+        {
+            destroy_range(insert_pos + num_elements + (size_ - idx) - num_assignable,
+                insert_pos + num_elements + (size_ - idx));
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1483,8 +1503,8 @@ private:
         // Construct new back() element by moving from the old back()
         ::new(static_cast<void*>(data_ptr + size_)) ValueType(std::move(*(data_ptr + size_ - 1)));
 
-        std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
+        std::move_backward(insert_pos, data_ptr + size_ - 2, data_ptr + size_ - 1);
 
         *insert_pos = std::forward<T>(value);
 
@@ -1526,11 +1546,24 @@ private:
         // Move-initialize elements in uninitialized space at the back of the container
         const auto from_ptr = data_ptr + size_ - num_move_initialized;
         const auto to_ptr = from_ptr + num_elements;
-        for (SizeType i = 0; i != num_move_initialized; ++i)
-            ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
+        SizeType num_created = 0;
+
+        try
+        {
+            for (; num_created != num_move_initialized; ++num_created)
+            {
+                ::new(static_cast<void*>(to_ptr + num_created))
+                    ValueType(std::move(*(from_ptr + num_created)));
+            }
 
-        // Move elements backwards within old vector size
-        std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+            // Move elements backwards within old vector size
+            std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        }
+        catch (...)
+        {
+            destroy_range(to_ptr, to_ptr + num_created);
+            throw;
+        }
 
         return num_move_initialized;
     }
-- 
2.43.0


From 275d6fe52e10dddd1a506148d176630a3d2da29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:56 +0000
Subject: [PATCH 17/41] fix: TaskHandle::cancel(): keep the result of tasks
 that cannot be canceled

As documented, canceling has no effect if the task is already running, but the handle lost
its access to the result of the task nevertheless.
---
 include/gul14/ThreadPool.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 4b8819b..74b1468 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -172,8 +172,13 @@ public:
          */
         bool cancel()
         {
-            future_ = {};
-            return detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            const bool removed =
+                detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+
+            if (removed)
+                future_ = {};
+
+            return removed;
         }
 
         /**
-- 
2.43.0


From d82c02768eb653d9ab0363c8c12e2de9ab0cb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:56 +0000
Subject: [PATCH 18/41] fix: TaskHandle: distinguish completed from canceled
 tasks

Tasks that had been removed from the queue via cancel_pending_tasks() were reported as
complete, and completed tasks whose result had been retrieved were reported as canceled.
---
 include/gul14/ThreadPool.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 74b1468..396e82b 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -27,6 +27,7 @@
 
 #include <chrono>
 #include <condition_variable>
+#include <atomic>
 #include <functional>
 #include <future>
 #include <memory>
@@ -36,6 +37,7 @@
 #include <vector>
 
 #include <gul14/cat.h>
+#include <gul14/finalizer.h>
 #include <gul14/traits.h>
 
 namespace gul14 {
@@ -152,11 +154,15 @@ public:
          *                task
          * \param pool    A shared pointer to the ThreadPool that the task is associated
          *                with
+         * \param finished  A shared flag that gets set when the function of the task has
+         *                  returned or thrown an exception
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool)
+        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+                   std::shared_ptr<const std::atomic<bool>> finished)
             : future_{ std::move(future) }
             , id_{ id }
             , pool_{ std::move(pool) }
+            , finished_{ std::move(finished) }
         {}
 
         /**
@@ -208,9 +214,15 @@ public:
          */
         bool is_complete() const
         {
-            if (not future_.valid())
+            // A canceled task never finishes, although its future may become ready (with a
+            // broken promise).
+            if (not finished_ or not *finished_)
                 return false;
 
+            // The result has already been retrieved
+            if (not future_.valid())
+                return true;
+
             return future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
         }
 
@@ -244,6 +256,7 @@ public:
         std::future<T> future_;
         TaskId id_{ 0 };
         std::weak_ptr<ThreadPool> pool_;
+        std::shared_ptr<const std::atomic<bool>> finished_;
     };
 
 
@@ -326,11 +339,20 @@ public:
 
                 using PackagedTask = std::packaged_task<Result(ThreadPool&)>;
 
+                auto finished = std::make_shared<std::atomic<bool>>(false);
+
                 auto named_task_ptr = std::make_unique<NamedTaskImpl<PackagedTask>>(
-                    PackagedTask{ std::move(fct) }, std::move(name));
+                    PackagedTask{
+                        [f = std::move(fct), finished](ThreadPool& pool) mutable -> Result
+                        {
+                            auto _ = finally([&finished]() { *finished = true; });
+                            return gul14::invoke(f, pool);
+                        } },
+                    std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this() };
+                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    finished };
 
                 pending_tasks_.emplace_back(
                     next_task_id_, std::move(named_task_ptr), start_time);
-- 
2.43.0


From 396236b6accb3a7144d9b09af9a96fe0190e7826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 19/41] fix: Trigger: let the destructor wait until no thread
 uses the object anymore

---
 include/gul14/Trigger.h | 24 +++++++++++++++++++++++-
 src/Trigger.cc          |  5 +++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/gul14/Trigger.h b/include/gul14/Trigger.h
index 66770f9..8694784 100644
--- a/include/gul14/Trigger.h
+++ b/include/gul14/Trigger.h
@@ -25,6 +25,7 @@
 
 #include <chrono>
 #include <condition_variable>
+#include <cstddef>
 #include <mutex>
 
 #include "gul14/internal.h"
@@ -116,7 +117,7 @@ public:
 
     /**
      * Destructor: Send a final trigger signal so that all threads waiting on this object
-     * have a chance to stop.
+     * have a chance to stop, and wait until they have stopped using the object.
      */
     GUL_EXPORT
     ~Trigger() noexcept;
@@ -189,6 +190,7 @@ public:
     bool wait_for(const std::chrono::duration<Rep, Period>& delta_t) const
     {
         std::unique_lock<std::mutex> lock(mutex_);
+        const WaiterCount count{ *this };
         return cv_.wait_for(lock, delta_t, [this]{ return triggered_; });
     }
 
@@ -212,13 +214,33 @@ public:
     bool wait_until(const std::chrono::time_point<Clock, Duration>& t) const
     {
         std::unique_lock<std::mutex> lock(mutex_);
+        const WaiterCount count{ *this };
         return cv_.wait_until(lock, t, [this]{ return triggered_; });
     }
 
 private:
     mutable std::mutex mutex_; // Protects private data and is used with the condition variable
     mutable std::condition_variable cv_;
+    mutable std::condition_variable cv_no_waiters_; // Signals that num_waiters_ is zero
+    mutable std::size_t num_waiters_ = 0; // Number of threads inside of a wait function
     bool triggered_ = false;
+
+    /// Registers a waiting thread. It must be created and destroyed with mutex_ locked.
+    struct WaiterCount
+    {
+        explicit WaiterCount(const Trigger& trg) noexcept : trg_(trg)
+        {
+            ++trg_.num_waiters_;
+        }
+
+        ~WaiterCount()
+        {
+            if (--trg_.num_waiters_ == 0)
+                trg_.cv_no_waiters_.notify_all();
+        }
+
+        const Trigger& trg_;
+    };
 };
 
 /// @}
diff --git a/src/Trigger.cc b/src/Trigger.cc
index cbf4d61..8f1b779 100644
--- a/src/Trigger.cc
+++ b/src/Trigger.cc
@@ -28,6 +28,10 @@ namespace gul14 {
 Trigger::~Trigger() noexcept
 {
     trigger();
+
+    // Threads that wake up still need the mutex, so it must outlive all wait calls
+    std::unique_lock<std::mutex> lock(mutex_);
+    cv_no_waiters_.wait(lock, [this]{ return num_waiters_ == 0; });
 }
 
 Trigger &Trigger::operator=(bool interrupt) noexcept
@@ -72,6 +76,7 @@ void Trigger::trigger() noexcept
 void Trigger::wait() const
 {
     std::unique_lock<std::mutex> lock(mutex_);
+    const WaiterCount count{ *this };
     cv_.wait(lock, [this]{ return triggered_; });
 }
 
-- 
2.43.0


From ad4706d6b5fbbb09e1c46d0e05908188d18b8844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:41 +0000
Subject: [PATCH 20/41] fix: hexdump_stream(): do not use and change the number
 format of the stream

---
 include/gul14/hexdump.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/gul14/hexdump.h b/include/gul14/hexdump.h
index 94b4c8b..c6ffc25 100644
--- a/include/gul14/hexdump.h
+++ b/include/gul14/hexdump.h
@@ -134,6 +134,12 @@ StreamT& hexdump_stream(StreamT& dest, const IteratorT& begin, const IteratorT&
     const std::string indent(prompt.length(), ' ');
     const std::string empty(nod + 1, ' ');
 
+    // Use our own number format and restore that of the stream afterwards
+    const auto old_flags = dest.flags();
+    const auto old_fill = dest.fill();
+    dest.unsetf(std::ios_base::adjustfield | std::ios_base::basefield
+        | std::ios_base::showbase | std::ios_base::showpos | std::ios_base::uppercase);
+    dest.width(0);
     dest << std::hex << std::setfill('0');
 
     auto it = IteratorT{ begin };
@@ -171,6 +177,10 @@ StreamT& hexdump_stream(StreamT& dest, const IteratorT& begin, const IteratorT&
     if (it != end) {
         dest << indent << "[output truncated...]\n";
     }
+
+    dest.flags(old_flags);
+    dest.fill(old_fill);
+
     return dest;
 }
 /// \endcond
-- 
2.43.0


From 1606399b9da1c2c311b643bbd4d483e3489d7826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:31 +0000
Subject: [PATCH 21/41] fix: ThreadPool: do not destroy function objects with
 the mutex locked

---
 src/ThreadPool.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index b125758..28b86b9 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -81,12 +81,15 @@ ThreadPool::~ThreadPool()
 
 bool ThreadPool::cancel_pending_task(const TaskId task_id)
 {
+    Task removed_task; // must be destroyed after unlocking the mutex
+
     std::lock_guard<std::mutex> lock(mutex_);
 
     auto it = std::find_if(pending_tasks_.begin(), pending_tasks_.end(),
         [task_id](const Task& t) { return t.id_ == task_id; });
     if (it != pending_tasks_.end())
     {
+        removed_task = std::move(*it);
         pending_tasks_.erase(it);
         return true;
     }
@@ -96,12 +99,13 @@ bool ThreadPool::cancel_pending_task(const TaskId task_id)
 
 std::size_t ThreadPool::cancel_pending_tasks()
 {
+    std::vector<Task> removed_tasks; // must be destroyed after unlocking the mutex
+
     std::lock_guard<std::mutex> lock(mutex_);
 
-    std::size_t num_removed = pending_tasks_.size();
-    pending_tasks_.clear();
+    removed_tasks.swap(pending_tasks_);
 
-    return num_removed;
+    return removed_tasks.size();
 }
 
 std::size_t ThreadPool::count_pending() const
@@ -252,6 +256,10 @@ void ThreadPool::perform_work()
             // to continue...
         }
 
+        // The destructor of the function object might use the thread pool, so we must not
+        // hold the lock when calling it.
+        named_task_ptr.reset();
+
         lock.lock();
 
         auto it = std::find(running_task_ids_.begin(), running_task_ids_.end(), id);
-- 
2.43.0


From 1a185a37174d249d783fc9517cbd3806ee5b0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:37 +0000
Subject: [PATCH 22/41] fix: make remove_outliers() usable with iterators

The temporary view bound to the in-place overload, which cannot work on a
view, so that the iterator overload did not compile.
---
 include/gul14/statistics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gul14/statistics.h b/include/gul14/statistics.h
index 23a5d3f..68c3051 100644
--- a/include/gul14/statistics.h
+++ b/include/gul14/statistics.h
@@ -789,7 +789,8 @@ template <typename IteratorT,
 auto remove_outliers(IteratorT const& begin, IteratorT const& end,
         std::size_t outliers, Accessor accessor = ElementAccessor<ElementT>()) -> std::vector<ElementT>
 {
-    return remove_outliers(make_view(begin, end), outliers, accessor);
+    auto const view = make_view(begin, end); // lvalue: selects the copying overload
+    return remove_outliers(view, outliers, accessor);
 }
 
 /**
-- 
2.43.0


From 7262d691592b0766fa4f263858f5d113d68022b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:47 +0000
Subject: [PATCH 23/41] fix: SmallVector copy assignment must not terminate if
 copying an element throws

The elements are copy-constructed, so that the exception specification
depends on the copy constructor and not on the copy assignment operator of
the element type.
---
 include/gul14/SmallVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 5030c6a..6547868 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -921,7 +921,7 @@ public:
      * Copy assignment is only possible if the element type itself is copyable.
      */
     SmallVector& operator=(const SmallVector& other)
-        noexcept(std::is_nothrow_copy_assignable<ValueType>::value)
+        noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
     {
         if (&other != this)
         {
-- 
2.43.0


From 651a8632d5f1535d9185eaf2f38dda987691f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:07 +0000
Subject: [PATCH 24/41] fix: SmallVector must copy elements, not
 list-initialize them from ranges

Copies and ranges of elements with an initializer_list constructor were
wrapped into a list, and ranges of a wider arithmetic type did not compile.
---
 include/gul14/SmallVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 6547868..a772c1f 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -1263,7 +1263,7 @@ private:
         {
             for (auto it = first; it != last; ++it)
             {
-                ::new(static_cast<void*>(data_ptr)) ValueType{ *it };
+                ::new(static_cast<void*>(data_ptr)) ValueType(*it);
                 ++data_ptr;
             }
         }
-- 
2.43.0


From 4ec0e281e355755a93b0fd1b26111b5c6376ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 25/41] fix: expected<void, E>: compare two different errors as
 unequal with operator!=

operator!= returned true for equal errors and false for different ones.
---
 include/gul14/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 91354be..8f406c8 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -2171,7 +2171,7 @@ constexpr bool operator!=(const expected<void, E> &lhs,
                           const expected<void, F> &rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From 76c28275d6209a536bf1f16472afb11e5eb4c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:05 +0000
Subject: [PATCH 26/41] fix: expected: converting constructors leaked a
 default-constructed value; let exceptions of copies pass

The converting constructors constructed the new contents on top of a default-constructed
value that was never destroyed. The copy, move and converting constructors called noexcept
functions and terminated the program if copying or moving the contents threw an exception.
---
 include/gul14/expected.h | 128 ++++++++++++++++++++++++++-------------
 1 file changed, 85 insertions(+), 43 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 8f406c8..5f3a86e 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -359,6 +359,9 @@ using is_move_assignable_or_void = is_void_or<T, std::is_move_assignable<T>>;
 struct no_init_t {};
 static constexpr no_init_t no_init{};
 
+struct init_from_t {};
+static constexpr init_from_t init_from{};
+
 // Implements the storage of the values, and ensures that the destructor is
 // trivial if it can be.
 //
@@ -397,6 +400,19 @@ struct expected_storage_base {
                                            Args &&...args)
       : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}
 
+  // Construct from another expected object; if the construction of the value or of the
+  // error throws, there is nothing to destroy
+  template <class Rhs>
+  expected_storage_base(init_from_t, Rhs &&rhs)
+      : m_no_init(), m_has_val(rhs.has_value()) {
+    if (m_has_val) {
+      ::new (std::addressof(m_val)) T(std::forward<Rhs>(rhs).get());
+    } else {
+      ::new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).geterr().value());
+    }
+  }
+
   ~expected_storage_base() {
     if (m_has_val) {
       m_val.~T();
@@ -444,6 +460,17 @@ template <class T, class E> struct expected_storage_base<T, E, true, true> {
                                            Args &&...args)
       : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(init_from_t, Rhs &&rhs)
+      : m_no_init(), m_has_val(rhs.has_value()) {
+    if (m_has_val) {
+      ::new (std::addressof(m_val)) T(std::forward<Rhs>(rhs).get());
+    } else {
+      ::new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).geterr().value());
+    }
+  }
+
   ~expected_storage_base() = default;
   union {
     T m_val;
@@ -485,6 +512,17 @@ template <class T, class E> struct expected_storage_base<T, E, true, false> {
                                            Args &&...args)
       : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(init_from_t, Rhs &&rhs)
+      : m_no_init(), m_has_val(rhs.has_value()) {
+    if (m_has_val) {
+      ::new (std::addressof(m_val)) T(std::forward<Rhs>(rhs).get());
+    } else {
+      ::new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).geterr().value());
+    }
+  }
+
   ~expected_storage_base() {
     if (!m_has_val) {
       m_unexpect.~unexpected<E>();
@@ -530,6 +568,17 @@ template <class T, class E> struct expected_storage_base<T, E, false, true> {
                                            Args &&...args)
       : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(init_from_t, Rhs &&rhs)
+      : m_no_init(), m_has_val(rhs.has_value()) {
+    if (m_has_val) {
+      ::new (std::addressof(m_val)) T(std::forward<Rhs>(rhs).get());
+    } else {
+      ::new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).geterr().value());
+    }
+  }
+
   ~expected_storage_base() {
     if (m_has_val) {
       m_val.~T();
@@ -570,6 +619,15 @@ template <class E> struct expected_storage_base<void, E, false, true> {
                                            Args &&...args)
       : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(init_from_t, Rhs &&rhs)
+      : m_val(), m_has_val(rhs.has_value()) {
+    if (!m_has_val) {
+      ::new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).geterr().value());
+    }
+  }
+
   ~expected_storage_base() = default;
   struct dummy {};
   union {
@@ -600,6 +658,15 @@ template <class E> struct expected_storage_base<void, E, false, false> {
                                            Args &&...args)
       : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}
 
+  template <class Rhs>
+  expected_storage_base(init_from_t, Rhs &&rhs)
+      : m_dummy(), m_has_val(rhs.has_value()) {
+    if (!m_has_val) {
+      ::new (std::addressof(m_unexpect))
+          unexpected<E>(std::forward<Rhs>(rhs).geterr().value());
+    }
+  }
+
   ~expected_storage_base() {
     if (!m_has_val) {
       m_unexpect.~unexpected<E>();
@@ -864,13 +931,7 @@ struct expected_copy_base<T, E, false> : expected_operations_base<T, E> {
 
   expected_copy_base() = default;
   expected_copy_base(const expected_copy_base &rhs)
-      : expected_operations_base<T, E>(no_init) {
-    if (rhs.has_value()) {
-      this->construct_with(rhs);
-    } else {
-      this->construct_error(rhs.geterr());
-    }
-  }
+      : expected_operations_base<T, E>(init_from, rhs) {}
 
   expected_copy_base(expected_copy_base &&rhs) = default;
   expected_copy_base &operator=(const expected_copy_base &rhs) = default;
@@ -893,14 +954,9 @@ struct expected_move_base<T, E, false> : expected_copy_base<T, E> {
   expected_move_base(const expected_move_base &rhs) = default;
 
   expected_move_base(expected_move_base &&rhs) noexcept(
-      std::is_nothrow_move_constructible<T>::value)
-      : expected_copy_base<T, E>(no_init) {
-    if (rhs.has_value()) {
-      this->construct_with(std::move(rhs));
-    } else {
-      this->construct_error(std::move(rhs.geterr()));
-    }
-  }
+      is_void_or<T, std::is_nothrow_move_constructible<T>>::value
+          &&std::is_nothrow_move_constructible<E>::value)
+      : expected_copy_base<T, E>(init_from, std::move(rhs)) {}
   expected_move_base &operator=(const expected_move_base &rhs) = default;
   expected_move_base &operator=(expected_move_base &&rhs) = default;
 };
@@ -1169,6 +1225,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
       "T must not be unexpected<E>");
   static_assert(!std::is_reference<E>::value, "E must not be a reference");
 
+  template <class, class> friend class expected;
+
   T *valptr() { return std::addressof(this->m_val); }
   const T *valptr() const { return std::addressof(this->m_val); }
   unexpected<E> *errptr() { return std::addressof(this->m_unexpect); }
@@ -1492,13 +1550,9 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   explicit constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(*rhs);
-    } else {
-      this->construct_error(rhs.error());
-    }
-  }
+      : impl_base(detail::init_from,
+                  static_cast<const typename expected<U, G>::impl_base &>(rhs)),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <class U, class G,
             detail::enable_if_t<(std::is_convertible<U const &, T>::value &&
@@ -1507,13 +1561,9 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(*rhs);
-    } else {
-      this->construct_error(rhs.error());
-    }
-  }
+      : impl_base(detail::init_from,
+                  static_cast<const typename expected<U, G>::impl_base &>(rhs)),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U, class G,
@@ -1521,13 +1571,9 @@ public:
                             std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   explicit constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(std::move(*rhs));
-    } else {
-      this->construct_error(std::move(rhs.error()));
-    }
-  }
+      : impl_base(detail::init_from,
+                  static_cast<typename expected<U, G>::impl_base &&>(rhs)),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U, class G,
@@ -1535,13 +1581,9 @@ public:
                            std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(std::move(*rhs));
-    } else {
-      this->construct_error(std::move(rhs.error()));
-    }
-  }
+      : impl_base(detail::init_from,
+                  static_cast<typename expected<U, G>::impl_base &&>(rhs)),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U = T,
-- 
2.43.0


From 55ed13dba8c8859c9e14286fa3f2a5abafcf2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:47 +0000
Subject: [PATCH 27/41] fix: expected: keep a valid value or error if an
 assignment or emplace() throws

The restoring code assigned to an object that had been destroyed already, replacing a value
by an error or emplacing over a value left a destroyed object behind if the construction threw,
and several functions were noexcept and terminated the program instead.
---
 include/gul14/expected.h | 282 ++++++++++++---------------------------
 1 file changed, 87 insertions(+), 195 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 5f3a86e..5ac0e8f 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -680,162 +680,77 @@ template <class E> struct expected_storage_base<void, E, false, false> {
   bool m_has_val;
 };
 
-// This base class provides some handy member functions which can be used in
-// further derived classes
-template <class T, class E>
-struct expected_operations_base : expected_storage_base<T, E> {
-  using expected_storage_base<T, E>::expected_storage_base;
-
-  template <class... Args> void construct(Args &&...args) noexcept {
-    new (std::addressof(this->m_val)) T(std::forward<Args>(args)...);
-    this->m_has_val = true;
-  }
-
-  template <class Rhs> void construct_with(Rhs &&rhs) noexcept {
-    new (std::addressof(this->m_val)) T(std::forward<Rhs>(rhs).get());
-    this->m_has_val = true;
-  }
-
-  template <class... Args> void construct_error(Args &&...args) noexcept {
-    new (std::addressof(this->m_unexpect))
-        unexpected<E>(std::forward<Args>(args)...);
-    this->m_has_val = false;
-  }
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-
-  // These assign overloads ensure that the most efficient assignment
-  // implementation is used while maintaining the strong exception guarantee.
-  // The problematic case is where rhs has a value, but *this does not.
-  //
-  // This overload handles the case where we can just copy-construct `T`
-  // directly into place without throwing.
-  template <class U = T,
-            detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>
-                * = nullptr>
-  void assign(const expected_operations_base &rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(rhs.get());
-    } else {
-      assign_common(rhs);
-    }
-  }
-
-  // This overload handles the case where we can attempt to create a copy of
-  // `T`, then no-throw move it into place if the copy was successful.
-  template <class U = T,
-            detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
-                                std::is_nothrow_move_constructible<U>::value>
-                * = nullptr>
-  void assign(const expected_operations_base &rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      T tmp = rhs.get();
-      geterr().~unexpected<E>();
-      construct(std::move(tmp));
-    } else {
-      assign_common(rhs);
-    }
-  }
+// Destroy the old contents of a union and construct new ones in its place. If the
+// construction throws, the old contents are restored.
+//
+// This overload is used if the construction cannot throw.
+template <class New, class Old, class... Args,
+          detail::enable_if_t<std::is_nothrow_constructible<New, Args &&...>::value>
+              * = nullptr>
+void replace_contents(New &new_val, Old &old_val, Args &&...args) {
+  old_val.~Old();
+  ::new (std::addressof(new_val)) New(std::forward<Args>(args)...);
+}
 
-  // This overload is the worst-case, where we have to move-construct the
-  // unexpected value into temporary storage, then try to copy the T into place.
-  // If the construction succeeds, then everything is fine, but if it throws,
-  // then we move the old unexpected value back into place before rethrowing the
-  // exception.
-  template <class U = T,
-            detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
-                                !std::is_nothrow_move_constructible<U>::value>
-                * = nullptr>
-  void assign(const expected_operations_base &rhs) {
-    if (!this->m_has_val && rhs.m_has_val) {
-      auto tmp = std::move(geterr());
-      geterr().~unexpected<E>();
+// This overload constructs the new contents first and moves them into place if that can
+// be done without throwing.
+template <class New, class Old, class... Args,
+          detail::enable_if_t<!std::is_nothrow_constructible<New, Args &&...>::value &&
+                              std::is_nothrow_move_constructible<New>::value>
+              * = nullptr>
+void replace_contents(New &new_val, Old &old_val, Args &&...args) {
+  New tmp(std::forward<Args>(args)...);
+  old_val.~Old();
+  ::new (std::addressof(new_val)) New(std::move(tmp));
+}
 
+// This overload moves the old contents away, and back again if the construction of the
+// new ones fails.
+template <class New, class Old, class... Args,
+          detail::enable_if_t<!std::is_nothrow_constructible<New, Args &&...>::value &&
+                              !std::is_nothrow_move_constructible<New>::value>
+              * = nullptr>
+void replace_contents(New &new_val, Old &old_val, Args &&...args) {
+  Old tmp(std::move(old_val));
+  old_val.~Old();
 #ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        construct(rhs.get());
-      } catch (...) {
-        geterr() = std::move(tmp);
-        throw;
-      }
-#else
-      construct(rhs.get());
-#endif
-    } else {
-      assign_common(rhs);
-    }
-  }
-
-  // These overloads do the same as above, but for rvalues
-  template <class U = T,
-            detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>
-                * = nullptr>
-  void assign(expected_operations_base &&rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(std::move(rhs).get());
-    } else {
-      assign_common(std::move(rhs));
-    }
+  try {
+    ::new (std::addressof(new_val)) New(std::forward<Args>(args)...);
+  } catch (...) {
+    ::new (std::addressof(old_val)) Old(std::move(tmp));
+    throw;
   }
-
-  template <class U = T,
-            detail::enable_if_t<!std::is_nothrow_move_constructible<U>::value>
-                * = nullptr>
-  void assign(expected_operations_base &&rhs) {
-    if (!this->m_has_val && rhs.m_has_val) {
-      auto tmp = std::move(geterr());
-      geterr().~unexpected<E>();
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        construct(std::move(rhs).get());
-      } catch (...) {
-        geterr() = std::move(tmp);
-        throw;
-      }
 #else
-      construct(std::move(rhs).get());
+  ::new (std::addressof(new_val)) New(std::forward<Args>(args)...);
 #endif
-    } else {
-      assign_common(std::move(rhs));
-    }
-  }
-
-#else
-
-  // If exceptions are disabled then we can just copy-construct
-  void assign(const expected_operations_base &rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(rhs.get());
-    } else {
-      assign_common(rhs);
-    }
-  }
+}
 
-  void assign(expected_operations_base &&rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(std::move(rhs).get());
-    } else {
-      assign_common(std::move(rhs));
-    }
-  }
+// This base class provides some handy member functions which can be used in
+// further derived classes
+template <class T, class E>
+struct expected_operations_base : expected_storage_base<T, E> {
+  using expected_storage_base<T, E>::expected_storage_base;
 
-#endif
+  // If constructing the new contents throws, the old contents are kept. This is
+  // guaranteed unless moving both, T and E, may throw.
+  void assign(const expected_operations_base &rhs) { assign_impl(rhs); }
+  void assign(expected_operations_base &&rhs) { assign_impl(std::move(rhs)); }
 
-  // The common part of move/copy assigning
-  template <class Rhs> void assign_common(Rhs &&rhs) {
+  template <class Rhs> void assign_impl(Rhs &&rhs) {
     if (this->m_has_val) {
       if (rhs.m_has_val) {
         get() = std::forward<Rhs>(rhs).get();
       } else {
-        destroy_val();
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        replace_contents(this->m_unexpect, this->m_val,
+                         std::forward<Rhs>(rhs).geterr());
+        this->m_has_val = false;
       }
     } else {
-      if (!rhs.m_has_val) {
+      if (rhs.m_has_val) {
+        replace_contents(this->m_val, this->m_unexpect,
+                         std::forward<Rhs>(rhs).get());
+        this->m_has_val = true;
+      } else {
         geterr() = std::forward<Rhs>(rhs).geterr();
       }
     }
@@ -870,19 +785,13 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
 
   template <class... Args> void construct() noexcept { this->m_has_val = true; }
 
-  // This function doesn't use its argument, but needs it so that code in
-  // levels above this can work independently of whether T is void
-  template <class Rhs> void construct_with(Rhs &&) noexcept {
-    this->m_has_val = true;
-  }
-
-  template <class... Args> void construct_error(Args &&...args) noexcept {
+  template <class... Args> void construct_error(Args &&...args) {
     new (std::addressof(this->m_unexpect))
         unexpected<E>(std::forward<Args>(args)...);
     this->m_has_val = false;
   }
 
-  template <class Rhs> void assign(Rhs &&rhs) noexcept {
+  template <class Rhs> void assign(Rhs &&rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
@@ -1018,8 +927,10 @@ struct expected_move_assign_base<T, E, false>
 
   expected_move_assign_base &
   operator=(expected_move_assign_base &&rhs) noexcept(
-      std::is_nothrow_move_constructible<T>::value
-          &&std::is_nothrow_move_assignable<T>::value) {
+      is_void_or<T, conjunction<std::is_nothrow_move_constructible<T>,
+                                std::is_nothrow_move_assignable<T>>>::value
+          &&std::is_nothrow_move_constructible<E>::value
+              &&std::is_nothrow_move_assignable<E>::value) {
     this->assign(std::move(rhs));
     return *this;
   }
@@ -1639,21 +1550,8 @@ public:
     if (has_value()) {
       val() = std::forward<U>(v);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(std::forward<U>(v));
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
-      }
-#else
-      ::new (valptr()) T(std::forward<U>(v));
+      detail::replace_contents(val(), err(), std::forward<U>(v));
       this->m_has_val = true;
-#endif
     }
 
     return *this;
@@ -1705,24 +1603,10 @@ public:
                                T, Args &&...>::value> * = nullptr>
   void emplace(Args &&...args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      replace_value(std::forward<Args>(args)...);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(std::forward<Args>(args)...);
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
-      }
-#else
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      detail::replace_contents(val(), err(), std::forward<Args>(args)...);
       this->m_has_val = true;
-#endif
     }
   }
 
@@ -1748,25 +1632,33 @@ public:
       T t(il, std::forward<Args>(args)...);
       val() = std::move(t);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(il, std::forward<Args>(args)...);
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
-      }
-#else
-      ::new (valptr()) T(il, std::forward<Args>(args)...);
+      detail::replace_contents(val(), err(), il, std::forward<Args>(args)...);
       this->m_has_val = true;
-#endif
     }
   }
 
 private:
+  // If constructing the new value throws, the old one is kept (unless T is immovable)
+  template <class... Args, class U = T,
+            detail::enable_if_t<std::is_move_assignable<U>::value> * = nullptr>
+  void replace_value(Args &&...args) {
+    T t(std::forward<Args>(args)...);
+    val() = std::move(t);
+  }
+  template <class... Args, class U = T,
+            detail::enable_if_t<!std::is_move_assignable<U>::value &&
+                                std::is_move_constructible<U>::value> * = nullptr>
+  void replace_value(Args &&...args) {
+    detail::replace_contents(val(), val(), std::forward<Args>(args)...);
+  }
+  template <class... Args, class U = T,
+            detail::enable_if_t<!std::is_move_assignable<U>::value &&
+                                !std::is_move_constructible<U>::value> * = nullptr>
+  void replace_value(Args &&...args) {
+    val().~T();
+    ::new (valptr()) T(std::forward<Args>(args)...);
+  }
+
   using t_is_void = std::true_type;
   using t_is_not_void = std::false_type;
   using t_is_nothrow_move_constructible = std::true_type;
-- 
2.43.0


From f2ce5126c415f034ff0093148318056ac764c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:47 +0000
Subject: [PATCH 28/41] fix: expected: swap() restored a destroyed object by
 assigning to it after an exception

---
 include/gul14/expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 5ac0e8f..df3d9dd 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1711,7 +1711,7 @@ private:
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1734,7 +1734,7 @@ private:
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 0832d9d7699cd953ce110724540180fcd54ba186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:28 +0000
Subject: [PATCH 29/41] fix: date::parse() did not compile with any format

parse_manip took a gul14::basic_string_view with std::char_traits, a class that cannot
be instantiated because its conversion to std::basic_string needs gul14::char_traits.
---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 31f4757..4824073 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7639,7 +7639,7 @@ public:
         , offset_(offset)
         {}
 
-    parse_manip(gul14::basic_string_view<CharT, Traits> format, Parsable& tp,
+    parse_manip(gul14::basic_string_view<CharT> format, Parsable& tp,
                 std::basic_string<CharT, Traits, Alloc>* abbrev = nullptr,
                 std::chrono::minutes* offset = nullptr)
         : format_(format)
-- 
2.43.0


From 6b136196bcbe3324b76ba53e68fd913faf1bcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:14 +0000
Subject: [PATCH 30/41] fix: date::parse(): %p was ignored where
 time_get::get() does not apply it without an hour

libstdc++ only evaluates the AM/PM designator if %I has been parsed in the same call,
so that 01:00:00 PM was read as 01:00:00.
---
 include/gul14/date.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 4824073..c5508a7 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -4475,6 +4475,13 @@ ampm_names()
     return std::make_pair(nm, nm+sizeof(nm)/sizeof(nm[0]));
 }
 
+}  // namespace detail
+
+#endif  // ONLY_C_LOCALE
+
+namespace detail
+{
+
 template <class CharT, class Traits, class FwdIter>
 FwdIter
 scan_keyword(std::basic_istream<CharT, Traits>& is, FwdIter kb, FwdIter ke)
@@ -4581,8 +4588,6 @@ scan_keyword(std::basic_istream<CharT, Traits>& is, FwdIter kb, FwdIter ke)
 
 }  // namespace detail
 
-#endif  // ONLY_C_LOCALE
-
 template <class CharT, class Traits, class Duration>
 std::basic_ostream<CharT, Traits>&
 to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
@@ -6713,17 +6718,20 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     {
                         int tp = not_a_ampm;
 #if !ONLY_C_LOCALE
-                        tm = std::tm{};
-                        tm.tm_hour = 1;
-                        ios::iostate err = ios::goodbit;
-                        f.get(is, nullptr, is, err, &tm, command, fmt+1);
-                        is.setstate(err);
-                        if (tm.tm_hour == 1)
-                            tp = 0;
-                        else if (tm.tm_hour == 13)
-                            tp = 1;
-                        else
-                            is.setstate(err);
+                        // Compare with the names of the stream's locale: time_get::get()
+                        // need not apply a %p that is parsed without an hour.
+                        std::basic_string<CharT, Traits> nm[2];
+                        for (int i = 0; i < 2; ++i)
+                        {
+                            std::basic_ostringstream<CharT, Traits> os;
+                            os.imbue(is.getloc());
+                            tm = std::tm{};
+                            tm.tm_hour = 1 + 12*i;
+                            std::use_facet<std::time_put<CharT>>(os.getloc())
+                                .put(os, os, os.fill(), &tm, command, fmt+1);
+                            nm[i] = os.str();
+                        }
+                        tp = static_cast<int>(detail::scan_keyword(is, nm, nm+2) - nm);
 #else
                         auto nm = detail::ampm_names();
                         auto i = detail::scan_keyword(is, nm.first, nm.second) - nm.first;
-- 
2.43.0


From 7ebcdc2631c5d846b8a4bcb72bab445a11874b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:14 +0000
Subject: [PATCH 31/41] fix: date::parse(): do not negate an offset that could
 not be read (overflow)

---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index c5508a7..94f3c84 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7113,7 +7113,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             }
                         }
                     }
-                    if (neg)
+                    if (neg && !is.fail())
                         toff = -toff;
                     checked_set(temp_offset, toff, not_a_offset, is);
                     command = nullptr;
-- 
2.43.0


From f584268c051281488b2ab2e1f296f9a85152cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:59 +0000
Subject: [PATCH 32/41] fix: ThreadPool: a scheduled task might not be started
 although a thread is idle

If the only worker thread waiting for its start time was woken up to execute another
task, the other threads slept on.
---
 src/ThreadPool.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 28b86b9..d5ed7fc 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -243,8 +243,15 @@ void ThreadPool::perform_work()
         running_task_ids_.push_back(id);
         running_task_names_.push_back(name);
 
+        const bool have_pending_tasks = !pending_tasks_.empty();
+
         lock.unlock();
 
+        // This thread may have been the only one to wait for the start time of one of the
+        // other tasks, so another one has to take over.
+        if (have_pending_tasks)
+            cv_.notify_one();
+
         try
         {
             (*named_task_ptr)(*this);
-- 
2.43.0


From 47d905d648cf157db54babaf8f4f0d22f91a27c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:01 +0000
Subject: [PATCH 33/41] fix: SmallVector::crbegin() and crend() could not be
 called for const vectors

---
 include/gul14/SmallVector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index a772c1f..0919657 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -582,7 +582,7 @@ public:
      *
      * The iterator cannot be dereferenced if the vector is empty.
      */
-    ConstReverseIterator crbegin() noexcept
+    ConstReverseIterator crbegin() const noexcept
     {
         return std::make_reverse_iterator(end());
     }
@@ -593,7 +593,7 @@ public:
      *
      * The iterator cannot be dereferenced if the vector is empty.
      */
-    ConstReverseIterator crend() noexcept
+    ConstReverseIterator crend() const noexcept
     {
         return std::make_reverse_iterator(begin());
     }
-- 
2.43.0


From 8c97141771f5c217ad716247f37c593c0a7d657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:08 +0000
Subject: [PATCH 34/41] fix: type_name() cuts off types with a semicolon in a
 character template argument

---
 include/gul14/type_name.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gul14/type_name.h b/include/gul14/type_name.h
index 54bdd85..74af424 100644
--- a/include/gul14/type_name.h
+++ b/include/gul14/type_name.h
@@ -98,9 +98,11 @@ constexpr string_view type_name()
     auto const start_idx = s.find(" = ") + 3; // len(" = ") == 3
     s.remove_prefix(start_idx);
 
-    auto const colon_idx = s.find(";");
+    // A semicolon can also be part of the type, e.g. in a character template argument
+    auto const colon_idx = s.rfind(';');
     auto const suff_length =
-        (colon_idx != string_view::npos) ? s.length() - colon_idx : 1; // len("]") == 1
+        (colon_idx != string_view::npos && s.find(" = ", colon_idx) != string_view::npos)
+            ? s.length() - colon_idx : 1; // len("]") == 1
     s.remove_suffix(suff_length);
     return s;
 #elif defined(_MSC_VER)
-- 
2.43.0


From 9296c4e4901af30f37b770549132fda46d4393ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 35/41] fix: hexdump() is garbled by locales with digit
 grouping

The offsets and values were written as numbers, so that a locale of the stream (or, for
hexdump() returning a string, the global locale) with a thousands separator put it
between the hex digits.
---
 include/gul14/hexdump.h | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/include/gul14/hexdump.h b/include/gul14/hexdump.h
index c6ffc25..98e47a3 100644
--- a/include/gul14/hexdump.h
+++ b/include/gul14/hexdump.h
@@ -23,12 +23,14 @@
 #ifndef GUL14_HEXDUMP_H_
 #define GUL14_HEXDUMP_H_
 
+#include <cstdint>
 #include <iomanip>
 #include <sstream>
 #include <type_traits>
 #include <utility>
 
 #include "gul14/internal.h"
+#include "gul14/string_util.h"
 #include "gul14/string_view.h"
 
 ////// Overview of the prototypes contained in here, but without template specifications:
@@ -134,28 +136,19 @@ StreamT& hexdump_stream(StreamT& dest, const IteratorT& begin, const IteratorT&
     const std::string indent(prompt.length(), ' ');
     const std::string empty(nod + 1, ' ');
 
-    // Use our own number format and restore that of the stream afterwards
-    const auto old_flags = dest.flags();
-    const auto old_fill = dest.fill();
-    dest.unsetf(std::ios_base::adjustfield | std::ios_base::basefield
-        | std::ios_base::showbase | std::ios_base::showpos | std::ios_base::uppercase);
+    // Only strings and characters are written to the stream, so that its number format
+    // and locale do not matter
     dest.width(0);
-    dest << std::hex << std::setfill('0');
 
     auto it = IteratorT{ begin };
 
     // Inspired by epatel @ stack overflow, https://stackoverflow.com/a/29865
     for (size_t i = 0; (it != end and i < maxelem) or (i == 0); i += 16) {
-        dest << (i ? indent : prompt) << std::setw(6) << i << ": ";
+        dest << (i ? indent : prompt) << hex_string(static_cast<std::uint32_t>(i)).substr(2) << ": ";
         auto line = it;
         for (size_t j = 0; j < 16; ++j) {
             if (it != end) {
-                const unsigned long long ch = static_cast<
-                        typename std::make_unsigned<
-                            typename std::decay<decltype(*it)>::type
-                        >::type
-                    >(*it++);
-                dest << std::setw(nod) << ch << ' ';
+                dest << hex_string(*it++) << ' ';
             } else {
                 if (!is_char) {
                     break;
@@ -178,9 +171,6 @@ StreamT& hexdump_stream(StreamT& dest, const IteratorT& begin, const IteratorT&
         dest << indent << "[output truncated...]\n";
     }
 
-    dest.flags(old_flags);
-    dest.fill(old_fill);
-
     return dest;
 }
 /// \endcond
-- 
2.43.0


From af307b0c2dca07cb7a5b3abbe994e80cbbc4a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:54 +0000
Subject: [PATCH 36/41] fix: replace_inplace() used parts of the string after
 changing them

If needle or hammer refer to a part of haystack, they were changed (or left dangling) by
the first replacement.
---
 src/replace.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/replace.cc b/src/replace.cc
index 68449c2..7c8bfa8 100644
--- a/src/replace.cc
+++ b/src/replace.cc
@@ -55,12 +55,8 @@ std::string& replace_inplace(std::string& haystack, string_view needle, string_v
     if (needle.empty())
         return haystack;
 
-    auto pos = haystack.find(needle.data(), 0, needle.length());
-    while (pos != std::string::npos) {
-        haystack.erase(pos, needle.length());
-        haystack.insert(pos, hammer.data(), hammer.length());
-        pos = haystack.find(needle.data(), pos + hammer.length(), needle.length());
-    }
+    // needle and hammer may refer to parts of haystack, so it must not change until the end
+    haystack = replace(haystack, needle, hammer);
     return haystack;
 }
 
-- 
2.43.0


From 22fd3be67e25b16b5a8d557ac7ce69ab63e43336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:57 +0000
Subject: [PATCH 37/41] fix: date parsing accepted days of the year that do not
 exist

Parsing "2021-366" or "2021-000" with "%Y-%j" succeeded and yielded January 1
or December 31 of the same year instead of failing.
---
 include/gul14/date.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 94f3c84..7d3004d 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7322,6 +7322,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             if (j != not_a_doy && Y != not_a_year)
             {
                 auto ymd_trial = year_month_day{local_days(year{Y}/1/1) + days{j-1}};
+                if (year{Y} != ymd_trial.year())
+                    goto broken;
                 if (m == not_a_month)
                     m = static_cast<int>(static_cast<unsigned>(ymd_trial.month()));
                 else if (month(static_cast<unsigned>(m)) != ymd_trial.month())
-- 
2.43.0


From 225b80b9419053489a87caf573f5d6f030d69258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:57 +0000
Subject: [PATCH 38/41] fix: date parsing rejected consistent hours of the 24-
 and 12-hour clock

Text with both %H and %I but without %p (e.g. "15 03") was rejected for all
hours from 13 to 23.
---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 7d3004d..d1c4f7a 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7409,7 +7409,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             if (H != 0 && H != 12)
                                 goto broken;
                         }
-                        else if (!(I == H || I == H+12))
+                        else if (!(H == I || H == I+12))
                         {
                             goto broken;
                         }
-- 
2.43.0


From d0f3d6cb854903965f433e8472780d019ddebc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:57 +0000
Subject: [PATCH 39/41] fix: formatting a negative duration with %R lost the
 sign

---
 include/gul14/date.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index d1c4f7a..facefef 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -5182,6 +5182,11 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                 {
                     if (!fds.has_tod)
                         os.setstate(std::ios::failbit);
+                    if (insert_negative)
+                    {
+                        os << '-';
+                        insert_negative = false;
+                    }
                     if (fds.tod.hours() < hours{10})
                         os << CharT{'0'};
                     os << fds.tod.hours().count() << CharT{':'};
-- 
2.43.0


From 680a569bba22dbcbfad875b1ea385817984d3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:56 +0000
Subject: [PATCH 40/41] fix: date parsing accepted contradicting week numbers

If the date was computed from one kind of week number, the week numbers were
not verified: "2021-W53-1" and "2021-W00-1" with "%G-W%V-%u" yielded days of
other ISO years, and contradictions between %U, %W, %G, and %V were ignored.
---
 include/gul14/date.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index facefef..21c5579 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7266,7 +7266,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             }
             if (Y < static_cast<int>(year::min()) || Y > static_cast<int>(year::max()))
                 Y = not_a_year;
-            bool computed = false;
             if (G != not_a_year && V != not_a_week_num && wd != not_a_weekday)
             {
                 year_month_day ymd_trial = sys_days(year{G-1}/December/Thursday[last]) +
@@ -7284,7 +7283,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (Y != not_a_year && U != not_a_week_num && wd != not_a_weekday)
             {
@@ -7303,7 +7301,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (Y != not_a_year && W != not_a_week_num && wd != not_a_weekday)
             {
@@ -7322,7 +7319,6 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     d = static_cast<int>(static_cast<unsigned>(ymd_trial.day()));
                 else if (day(static_cast<unsigned>(d)) != ymd_trial.day())
                     goto broken;
-                computed = true;
             }
             if (j != not_a_doy && Y != not_a_year)
             {
@@ -7346,7 +7342,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     wd = static_cast<int>((weekday(sys_days(ymd)) - Sunday).count());
                 else if (wd != static_cast<int>((weekday(sys_days(ymd)) - Sunday).count()))
                     goto broken;
-                if (!computed)
+                // Weeks must agree with the date even if it was computed from one of them
                 {
                     if (G != not_a_year || V != not_a_week_num)
                     {
-- 
2.43.0


From 887a268cd45b49483e4db5d60f83ca8c96c15ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:33 +0000
Subject: [PATCH 41/41] fix: parsing accepted invalid year_month and month_day
 values

Parsing "09-31" into a month_day and a text without year into a year_month
succeeded and stored an object that is not ok().
---
 include/gul14/date.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 21c5579..b325a15 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7526,7 +7526,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt, year_month&
     using CT = std::chrono::seconds;
     fields<CT> fds{};
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
-    if (!fds.ymd.month().ok())
+    if (!(fds.ymd.year()/fds.ymd.month()).ok())
         is.setstate(std::ios::failbit);
     if (!is.fail())
         ym = fds.ymd.year()/fds.ymd.month();
@@ -7542,7 +7542,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt, month_day&
     using CT = std::chrono::seconds;
     fields<CT> fds{};
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
-    if (!fds.ymd.month().ok() || !fds.ymd.day().ok())
+    if (!(fds.ymd.month()/fds.ymd.day()).ok())
         is.setstate(std::ios::failbit);
     if (!is.fail())
         md = fds.ymd.month()/fds.ymd.day();
-- 
2.43.0

