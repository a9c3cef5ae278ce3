From d651b9afe87b3ff4863098da2f13085f5d217823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 01/57] fix: compare Dyadic numbers on a common denominator

The comparison operators scaled the number with the larger power instead of
the one with the smaller power, so 1/1 < 1/2 was true.
---
 intervals/src/dyadic.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/intervals/src/dyadic.cpp b/intervals/src/dyadic.cpp
index fbbd00a..cad35c0 100644
--- a/intervals/src/dyadic.cpp
+++ b/intervals/src/dyadic.cpp
@@ -107,8 +107,8 @@ bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul < Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) < rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) < rmul)
+                          : lmul < Dyadic::shift(rmul, lpow - rpow);
 }
 bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -117,8 +117,8 @@ bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul <= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) <= rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) <= rmul)
+                          : lmul <= Dyadic::shift(rmul, lpow - rpow);
 }
 bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -127,8 +127,8 @@ bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul > Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) > rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) > rmul)
+                          : lmul > Dyadic::shift(rmul, lpow - rpow);
 }
 bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -137,8 +137,8 @@ bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul >= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) >= rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) >= rmul)
+                          : lmul >= Dyadic::shift(rmul, lpow - rpow);
 }
 std::ostream& rpy::intervals::operator<<(std::ostream& os, const Dyadic& arg)
 {
-- 
2.43.0


From d9eb94b75fc5210f42c62de13095fdee7b92c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 02/57] fix: keep the interval type when expanding a dyadic
 interval

expand_interval and aligned rebuilt the interval with the default (Clopen)
type, so dissecting into Opencl dyadic intervals never finished.
---
 intervals/src/dyadic_interval.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intervals/src/dyadic_interval.cpp b/intervals/src/dyadic_interval.cpp
index 741a270..93355eb 100644
--- a/intervals/src/dyadic_interval.cpp
+++ b/intervals/src/dyadic_interval.cpp
@@ -130,7 +130,7 @@ DyadicInterval& DyadicInterval::shrink_interval_left(Dyadic::power_t arg)
 }
 DyadicInterval& DyadicInterval::expand_interval(Dyadic::power_t arg)
 {
-    *this = DyadicInterval{dincluded_end(), m_power - arg};
+    *this = DyadicInterval{dincluded_end(), m_power - arg, m_interval_type};
     return *this;
 }
 bool DyadicInterval::contains_dyadic(const DyadicInterval& other) const
@@ -153,7 +153,8 @@ bool DyadicInterval::aligned() const
     DyadicInterval parent{static_cast<const Dyadic&>(*this), m_power - 1,
                           m_interval_type};
     return operator==(
-            DyadicInterval{static_cast<const Dyadic&>(parent), m_power});
+            DyadicInterval{static_cast<const Dyadic&>(parent), m_power,
+                           m_interval_type});
 }
 DyadicInterval& DyadicInterval::flip_interval()
 {
-- 
2.43.0


From 59a53607c894cba88c5abc94ab82329127fabf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 03/57] fix: intersection and union of intervals keep the
 interval type

Both turned Opencl arguments into a Clopen result, which does not contain
the same points.
---
 intervals/src/intersection_and_union.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intervals/src/intersection_and_union.cpp b/intervals/src/intersection_and_union.cpp
index 6477807..c7abf13 100644
--- a/intervals/src/intersection_and_union.cpp
+++ b/intervals/src/intersection_and_union.cpp
@@ -26,7 +26,7 @@ RealInterval intervals::intersection(const Interval& lhs,
     auto inf = std::max(linf, rinf);
     auto sup = std::min(lsup, rsup);
 
-    return RealInterval(inf, sup);
+    return RealInterval(inf, sup, lhs.type());
 }
 
 
@@ -34,5 +34,5 @@ RealInterval
 intervals::interval_union(const Interval& lhs, const Interval& rhs) noexcept
 {
     return RealInterval(std::min(lhs.inf(), rhs.inf()),
-                        std::max(lhs.sup(), rhs.sup()));
+                        std::max(lhs.sup(), rhs.sup()), lhs.type());
 }
\ No newline at end of file
-- 
2.43.0


From a7566769fd344fc2891d5edcf138547e8148c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 04/57] fix: keep intermediate points when merging disjoint
 partitions

---
 intervals/src/partition.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index 0537640..00f3485 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -144,22 +144,23 @@ Partition Partition::merge(const Partition& other) const
     Partition result(
             RealInterval(std::min(linf, rinf), std::max(lsup, rsup), type()));
 
-    if (lsup < rinf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(lsup);
-        }
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rinf);
-        }
-    } else if (rsup < linf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rsup);
+    if (lsup < rinf || rsup < linf) {
+        const auto& left = (lsup < rinf) ? *this : other;
+        const auto& right = (lsup < rinf) ? other : *this;
+        const auto& lpts = left.m_intermediate_points;
+        const auto& rpts = right.m_intermediate_points;
+
+        result.m_intermediate_points.reserve(lpts.size() + rpts.size() + 2);
+        result.m_intermediate_points.insert(result.m_intermediate_points.end(),
+                                            lpts.begin(), lpts.end());
+        if RPY_LIKELY (left.sup() != left.inf()) {
+            result.m_intermediate_points.push_back(left.sup());
         }
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(linf);
+        if RPY_LIKELY (right.inf() != right.sup()) {
+            result.m_intermediate_points.push_back(right.inf());
         }
+        result.m_intermediate_points.insert(result.m_intermediate_points.end(),
+                                            rpts.begin(), rpts.end());
     } else {
 
         // At worst, the result has size size() + other.size();
-- 
2.43.0


From 1c5807b517dc5d5f866b4c0b6f67b4f91a78b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 05/57] fix: do not search for segments outside the given
 interval

---
 intervals/src/dyadic_searcher.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/intervals/src/dyadic_searcher.cpp b/intervals/src/dyadic_searcher.cpp
index e37f8b2..6beb32b 100644
--- a/intervals/src/dyadic_searcher.cpp
+++ b/intervals/src/dyadic_searcher.cpp
@@ -45,7 +45,7 @@ void DyadicSearcher::expand_left(ScaledPredicate& predicate,
     bool is_aligned = di.aligned();
     --di;// moving to the left
 
-    if (is_aligned) {
+    if (is_aligned && di.multiplier() >= 0) {
         // It's possible that the interval contains two dyadics of starting
         // length if and only if the left hand is not aligned and the right
         // hand is aligned.
@@ -54,6 +54,10 @@ void DyadicSearcher::expand_left(ScaledPredicate& predicate,
             --di;
         }
     }
+
+    // Stop at the left-hand end of the unit interval.
+    if (di.multiplier() < 0) { return; }
+
     /*
      * At this stage, we should be in the situation where predicate(di) is
      * false. So we should split the interval in half, and check the right hand
@@ -90,6 +94,9 @@ void DyadicSearcher::expand_right(ScaledPredicate& predicate,
      */
     ++di;// moving to the right.
 
+    // Stop at the right-hand end of the unit interval.
+    if (di.multiplier() >= Dyadic::int_two_to_int_power(di.power())) { return; }
+
     while (di.power() < m_max_depth) {
         DyadicInterval right(di);
         right.shrink_interval_right();
-- 
2.43.0


From d2eb443dcdc906b22fb8439d1f52d5fd4cd48029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 06/57] fix: treat default-constructed algebra objects as zero
 in arithmetic

---
 .../roughpy/algebra/algebra_base_impl.h       | 63 ++++++++++---------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_base_impl.h b/algebra/include/roughpy/algebra/algebra_base_impl.h
index 54f400e..cab3906 100644
--- a/algebra/include/roughpy/algebra/algebra_base_impl.h
+++ b/algebra/include/roughpy/algebra/algebra_base_impl.h
@@ -291,9 +291,9 @@ AlgebraBase<Interface, DerivedImpl>::add(const algebra_t& rhs) const
         if (is_equivalent_to_zero(*this)) { return algebra_t(); }
         return p_impl->clone();
     }
-    RPY_CHECK_CONTEXTS(rhs);
 
     if (is_equivalent_to_zero(*this)) { return rhs.p_impl->clone(); }
+    RPY_CHECK_CONTEXTS(rhs);
     return p_impl->add(rhs);
 }
 template <
@@ -307,9 +307,8 @@ AlgebraBase<Interface, DerivedImpl>::sub(const algebra_t& rhs) const
         return p_impl->clone();
     }
 
-    RPY_CHECK_CONTEXTS(rhs);
-
     if (is_equivalent_to_zero(*this)) { return rhs.p_impl->uminus(); }
+    RPY_CHECK_CONTEXTS(rhs);
     return p_impl->sub(rhs);
 }
 template <
@@ -320,12 +319,11 @@ AlgebraBase<Interface, DerivedImpl>::mul(const algebra_t& rhs) const
 {
     if (is_equivalent_to_zero(rhs)) {
         if (is_equivalent_to_zero(*this)) { return algebra_t(); }
-        return p_impl->clone();
+        return p_impl->zero_like();
     }
 
+    if (is_equivalent_to_zero(*this)) { return rhs.p_impl->zero_like(); }
     RPY_CHECK_CONTEXTS(rhs);
-
-    if (is_equivalent_to_zero(*this)) { return rhs.p_impl->clone(); }
     return p_impl->mul(rhs);
 }
 
@@ -477,7 +475,10 @@ traits::algebra_of<Interface>&
 AlgebraBase<Interface, DerivedImpl>::add_inplace(const algebra_t& rhs)
 {
     if (is_equivalent_to_zero(rhs)) { return downcast(*this); }
-    if (is_equivalent_to_zero(*this)) { *this = algebra_t(); }
+    if (is_equivalent_to_zero(*this)) {
+        *this = rhs.p_impl->clone();
+        return downcast(*this);
+    }
     RPY_CHECK_CONTEXTS(rhs);
     p_impl->add_inplace(rhs);
     return downcast(*this);
@@ -489,7 +490,10 @@ traits::algebra_of<Interface>&
 AlgebraBase<Interface, DerivedImpl>::sub_inplace(const algebra_t& rhs)
 {
     if (is_equivalent_to_zero(rhs)) { return downcast(*this); }
-    if (is_equivalent_to_zero(*this)) { *this = algebra_t(); }
+    if (is_equivalent_to_zero(*this)) {
+        *this = rhs.p_impl->uminus();
+        return downcast(*this);
+    }
     RPY_CHECK_CONTEXTS(rhs);
     p_impl->sub_inplace(rhs);
     return downcast(*this);
@@ -500,8 +504,11 @@ template <
 traits::algebra_of<Interface>&
 AlgebraBase<Interface, DerivedImpl>::mul_inplace(const algebra_t& rhs)
 {
-    if (is_equivalent_to_zero(rhs)) { return downcast(*this); }
-    if (is_equivalent_to_zero(*this)) { *this = algebra_t(); }
+    if (is_equivalent_to_zero(*this)) { return downcast(*this); }
+    if (is_equivalent_to_zero(rhs)) {
+        p_impl->clear();
+        return downcast(*this);
+    }
     RPY_CHECK_CONTEXTS(rhs);
     p_impl->mul_inplace(rhs);
     return downcast(*this);
@@ -539,9 +546,8 @@ AlgebraBase<Interface, DerivedImpl>::add_scal_mul(
 )
 {
     if (!is_equivalent_to_zero(lhs) && !rhs.is_zero()) {
-        RPY_CHECK_CONTEXTS(lhs);
-
         if (!is_equivalent_to_zero(*this)) {
+            RPY_CHECK_CONTEXTS(lhs);
             p_impl->add_scal_mul(lhs, rhs);
         } else {
             *this = lhs.smul(rhs);
@@ -558,9 +564,8 @@ AlgebraBase<Interface, DerivedImpl>::sub_scal_mul(
 )
 {
     if (!is_equivalent_to_zero(lhs) && !rhs.is_zero()) {
-        RPY_CHECK_CONTEXTS(lhs);
-
         if (!is_equivalent_to_zero(*this)) {
+            RPY_CHECK_CONTEXTS(lhs);
             p_impl->sub_scal_mul(lhs, rhs);
         } else {
             *this = lhs.smul(rhs).uminus();
@@ -577,12 +582,11 @@ AlgebraBase<Interface, DerivedImpl>::add_scal_div(
 )
 {
     if (!is_equivalent_to_zero(lhs)) {
-        RPY_CHECK_CONTEXTS(lhs);
-
         if (rhs.is_zero()) {
             RPY_THROW(std::invalid_argument, "cannot divide by zero");
         }
         if (!is_equivalent_to_zero(*this)) {
+            RPY_CHECK_CONTEXTS(lhs);
             p_impl->add_scal_div(lhs, rhs);
         } else {
             *this = lhs.sdiv(rhs);
@@ -599,12 +603,11 @@ AlgebraBase<Interface, DerivedImpl>::sub_scal_div(
 )
 {
     if (!is_equivalent_to_zero(lhs)) {
-        RPY_CHECK_CONTEXTS(lhs);
-
         if (rhs.is_zero()) {
             RPY_THROW(std::invalid_argument, "cannot divide by zero");
         }
         if (!is_equivalent_to_zero(*this)) {
+            RPY_CHECK_CONTEXTS(lhs);
             p_impl->sub_scal_div(lhs, rhs);
         } else {
             *this = lhs.sdiv(rhs).uminus();
@@ -621,12 +624,11 @@ traits::algebra_of<Interface>& AlgebraBase<Interface, DerivedImpl>::add_mul(
 )
 {
     if (!is_equivalent_to_zero(lhs) && !is_equivalent_to_zero(rhs)) {
-        RPY_CHECK_CONTEXTS(lhs);
-        RPY_CHECK_CONTEXTS(rhs);
-
         if (is_equivalent_to_zero(*this)) {
             *this = lhs.mul(rhs);
         } else {
+            RPY_CHECK_CONTEXTS(lhs);
+            RPY_CHECK_CONTEXTS(rhs);
             p_impl->add_mul(lhs, rhs);
         }
     }
@@ -640,12 +642,11 @@ traits::algebra_of<Interface>& AlgebraBase<Interface, DerivedImpl>::sub_mul(
 )
 {
     if (!is_equivalent_to_zero(lhs) && !is_equivalent_to_zero(rhs)) {
-        RPY_CHECK_CONTEXTS(lhs);
-        RPY_CHECK_CONTEXTS(rhs);
-
         if (is_equivalent_to_zero(*this)) {
             *this = lhs.mul(rhs).uminus();
         } else {
+            RPY_CHECK_CONTEXTS(lhs);
+            RPY_CHECK_CONTEXTS(rhs);
             p_impl->sub_mul(lhs, rhs);
         }
     }
@@ -659,9 +660,10 @@ traits::algebra_of<Interface>& AlgebraBase<Interface, DerivedImpl>::mul_smul(
 )
 {
     if (!is_equivalent_to_zero(lhs) && !rhs.is_zero()) {
-        RPY_CHECK_CONTEXTS(lhs);
-
-        if (!is_equivalent_to_zero(*this)) { p_impl->mul_smul(lhs, rhs); }
+        if (!is_equivalent_to_zero(*this)) {
+            RPY_CHECK_CONTEXTS(lhs);
+            p_impl->mul_smul(lhs, rhs);
+        }
     } else if (!is_equivalent_to_zero(*this)) {
         p_impl->clear();
     }
@@ -675,12 +677,13 @@ traits::algebra_of<Interface>& AlgebraBase<Interface, DerivedImpl>::mul_sdiv(
 )
 {
     if (!is_equivalent_to_zero(lhs)) {
-        RPY_CHECK_CONTEXTS(lhs);
-
         if (rhs.is_zero()) {
             RPY_THROW(std::invalid_argument, "cannot divide by zero");
         }
-        if (!is_equivalent_to_zero(*this)) { p_impl->mul_sdiv(lhs, rhs); }
+        if (!is_equivalent_to_zero(*this)) {
+            RPY_CHECK_CONTEXTS(lhs);
+            p_impl->mul_sdiv(lhs, rhs);
+        }
     } else if (!is_equivalent_to_zero(*this)) {
         p_impl->clear();
     }
-- 
2.43.0


From b3842e7a332b3d17340651748a8773195026923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 07/57] fix: keep every bit of the type code in packed scalar
 type pointers

---
 scalars/include/roughpy/scalars/packed_scalar_type_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
index 7f167fb..cfc8375 100644
--- a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
+++ b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
@@ -92,7 +92,7 @@ public:
 
     constexpr PackedScalarTypePointer(type_info_t info, enumeration_type ty)
         : m_data((static_cast<integral_type>(bit_cast<uint32_t>(info))
-                  << MaxEnumBits)
+                  << NonPointerBits)
                  | ModeMask | (static_cast<integral_type>(ty) & EnumMask))
     {}
 
@@ -118,7 +118,7 @@ public:
     constexpr type_info_t get_type_info() const noexcept
     {
         return bit_cast<type_info_t>(
-                static_cast<uint32_t>((m_data & TypeInfoMask) >> MaxEnumBits)
+                static_cast<uint32_t>((m_data & TypeInfoMask) >> NonPointerBits)
         );
     }
 
-- 
2.43.0


From 967febe0273355653945542e5ad61455c41d2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 08/57] fix: record the scalar type when allocating a value of
 a type given by its type info

---
 scalars/src/scalar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 435a197..30b2be9 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -52,6 +52,8 @@ void Scalar::allocate_data()
         if (!tp_o) {
             RPY_THROW(std::runtime_error, "unable to allocate scalar");
         }
+        p_type_and_content_type
+            = type_pointer(*tp_o, p_type_and_content_type.get_enumeration());
     }
 
     RPY_DBG_ASSERT(p_type_and_content_type.is_pointer());
-- 
2.43.0


From 7a1e084a9d8199256f0300b55962147b5e5841e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 09/57] fix: implement negation of scalars

---
 scalars/src/scalar/arithmetic.cpp | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d1f0478..ef65ca2 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -54,13 +54,19 @@ using rpy::scalars::dtl::ScalarContentType;
 
 static inline void
 uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
-{}
+{
+#define X(T)                                                                   \
+    *static_cast<T*>(dst) = static_cast<T>(-*static_cast<const T*>(ptr));      \
+    return
+    DO_FOR_EACH_X(info)
+#undef X
+    RPY_THROW(std::domain_error, "unsupported operation");
+}
 
 Scalar Scalar::operator-() const
 {
     Scalar result;
     const auto info = type_info();
-    optional<const ScalarType*> stype;
     if (!fast_is_zero()) {
         switch (p_type_and_content_type.get_enumeration()) {
             case ScalarContentType::TrivialBytes:
@@ -74,27 +80,10 @@ Scalar Scalar::operator-() const
             case ScalarContentType::OpaquePointer:
             case ScalarContentType::ConstOpaquePointer:
             case ScalarContentType::OwnedPointer:
-                stype = type();
-                RPY_CHECK(stype);
-                result.p_type_and_content_type = type_pointer(
-                        *stype,
-                        dtl::ScalarContentType::OwnedPointer
-                );
-                result.allocate_data();
-                uminus_impl(result.opaque_pointer, opaque_pointer, info);
-                break;
             case ScalarContentType::Interface:
             case ScalarContentType::OwnedInterface:
-                result.p_type_and_content_type = type_pointer(
-                        *stype,
-                        dtl::ScalarContentType::OwnedPointer
-                );
-                result.allocate_data();
-                uminus_impl(
-                        result.opaque_pointer,
-                        interface_ptr->pointer(),
-                        info
-                );
+                result = Scalar(info);
+                uminus_impl(result.mut_pointer(), pointer(), info);
                 break;
         }
     }
-- 
2.43.0


From f8de874c623da3770619911423b3e9a3fb0957b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 10/57] fix: read and write elements of sparse vectors through
 scalar references

---
 .../sparse_mutable_ref_scalar_trait.h           |  5 ++++-
 scalars/include/roughpy/scalars/scalar.h        |  9 ++++++++-
 scalars/src/scalar.cpp                          |  5 ++++-
 scalars/src/scalar/arithmetic.cpp               | 17 ++++++++++++++---
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
index 7f77ab8..026cc9a 100644
--- a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
+++ b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
@@ -77,7 +77,10 @@ private:
 public:
     void set_value(const Scalar& value) override;
 
-    const void* pointer() const noexcept override { return &m_data; }
+    const void* pointer() const noexcept override
+    {
+        return &static_cast<const value_type&>(m_data);
+    }
 
 private:
     template <typename F>
diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index ec15161..8094214 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -213,6 +213,13 @@ class ROUGHPY_SCALARS_EXPORT Scalar
 
     void copy_from_opaque_pointer(devices::TypeInfo info, const void* src);
 
+    bool is_interface() const noexcept
+    {
+        const auto mode = p_type_and_content_type.get_enumeration();
+        return mode == dtl::ScalarContentType::Interface
+                || mode == dtl::ScalarContentType::OwnedInterface;
+    }
+
 protected:
     type_pointer packed_type() const noexcept
     {
@@ -321,7 +328,7 @@ public:
             typename = enable_if_t<is_base_of_v<ScalarInterface, I>>>
     explicit Scalar(std::unique_ptr<I>&& iface)
         : p_type_and_content_type(
-                  nullptr,
+                  devices::type_info<typename I::value_type>(),
                   dtl::ScalarContentType::OwnedInterface
           ),
           interface_ptr(std::move(iface).release())
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 30b2be9..5f726de 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -243,7 +243,6 @@ Scalar::~Scalar()
             break;
         case dtl::ScalarContentType::Interface:
         case dtl::ScalarContentType::OwnedInterface:
-            RPY_DBG_ASSERT(interface_ptr != nullptr);
             delete interface_ptr;
             interface_ptr = nullptr;
             break;
@@ -298,6 +297,8 @@ Scalar& Scalar::operator=(const Scalar& other)
 //                        "is not allowed"
 //                    );
             }
+        } else if (is_interface()) {
+            interface_ptr->set_value(other);
         } else {
             dtl::scalar_convert_copy(
                 mut_pointer(),
@@ -314,6 +315,8 @@ Scalar& Scalar::operator=(Scalar&& other) noexcept
     if (&other != this) {
         if (p_type_and_content_type.is_null()) {
             construct_inplace(this, std::move(other));
+        } else if (is_interface()) {
+            interface_ptr->set_value(other);
         } else {
             dtl::scalar_convert_copy(mut_pointer(), type_info(), other);
         }
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index ef65ca2..500d5ce 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -192,7 +192,9 @@ inline void scalar_inplace_arithmetic(Scalar& dst, const Scalar& src, Op&& op)
 Scalar& Scalar::operator+=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
-    if (!other.fast_is_zero()) {
+    if (is_interface()) {
+        interface_ptr->add_inplace(other);
+    } else if (!other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, AddInplace());
     }
     return *this;
@@ -201,7 +203,9 @@ Scalar& Scalar::operator+=(const Scalar& other)
 Scalar& Scalar::operator-=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
-    if (!other.fast_is_zero()) {
+    if (is_interface()) {
+        interface_ptr->sub_inplace(other);
+    } else if (!other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, SubInplace());
     }
     return *this;
@@ -210,7 +214,9 @@ Scalar& Scalar::operator-=(const Scalar& other)
 Scalar& Scalar::operator*=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
-    if (!fast_is_zero() && !other.fast_is_zero()) {
+    if (is_interface()) {
+        interface_ptr->mul_inplace(other);
+    } else if (!fast_is_zero() && !other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, MulInplace());
     } else {
         operator=(0);
@@ -268,6 +274,11 @@ Scalar& Scalar::operator/=(const Scalar& other)
         RPY_THROW(std::domain_error, "division by zero");
     }
 
+    if (is_interface()) {
+        interface_ptr->div_inplace(other);
+        return *this;
+    }
+
     /*
      * We need to check some additional things here.
      * Division need not be defined for all scalar types. For instance, integers
-- 
2.43.0


From 0aabf93cc623aabed90a0225bd1772f1f968fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 11/57] fix: allow a sparse vector as both operands of an
 in-place operation

---
 vendored/libalgebra_lite/sparse_vector.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index 76c5b44..6e0e5c5 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -462,20 +462,22 @@ public:
 
         const auto& zero = coefficient_ring::zero();
 
-        for (; rit != rend; ++rit) {
-            auto it = m_data.find(rit->first);
+        while (rit != rend) {
+            // rhs might be *this, so advance before the element is erased
+            const auto& ritem = *(rit++);
+            auto it = m_data.find(ritem.first);
             if (it != lend) {
-                op(it->second, rit->second);
+                op(it->second, ritem.second);
                 if (it->second == zero) {
                     m_data.erase(it);
                 } else {
                     update_degree_for_key(it->first);
                 }
             } else {
-                assert(rit->second != zero);
+                assert(ritem.second != zero);
                 scalar_type new_val = zero;
-                op(new_val, rit->second);
-                insert_new_value(rit->first, new_val);
+                op(new_val, ritem.second);
+                insert_new_value(ritem.first, new_val);
             }
         }
 
-- 
2.43.0


From 4b66545a87a492f534445be327b7a6aaeea46ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 12/57] fix: iterating over a default-constructed algebra
 object yields nothing

---
 algebra/include/roughpy/algebra/algebra_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_iterator.h b/algebra/include/roughpy/algebra/algebra_iterator.h
index 140a8b7..29c9985 100644
--- a/algebra/include/roughpy/algebra/algebra_iterator.h
+++ b/algebra/include/roughpy/algebra/algebra_iterator.h
@@ -207,16 +207,16 @@ AlgebraIterator<Algebra>::operator->() const
 template <typename Algebra>
 bool AlgebraIterator<Algebra>::operator==(const AlgebraIterator& other) const
 {
-    if (!p_interface || !other.p_interface) { return false; }
+    if (!p_interface || !other.p_interface) {
+        return !p_interface && !other.p_interface;
+    }
     if (m_tag != other.m_tag) { return false; }
     return p_interface->equals(*other.p_interface);
 }
 template <typename Algebra>
 bool AlgebraIterator<Algebra>::operator!=(const AlgebraIterator& other) const
 {
-    if (!p_interface || !other.p_interface) { return true; }
-    if (m_tag != other.m_tag) { return true; }
-    return !p_interface->equals(*other.p_interface);
+    return !(*this == other);
 }
 
 }// namespace algebra
-- 
2.43.0


From 210602beb47a36d6feff13eb303fd85a01a05de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 13/57] fix: second parent of a tensor word of degree three or
 more

---
 vendored/libalgebra_lite/tensor_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/tensor_basis.h b/vendored/libalgebra_lite/tensor_basis.h
index ca4d8e6..4491c85 100644
--- a/vendored/libalgebra_lite/tensor_basis.h
+++ b/vendored/libalgebra_lite/tensor_basis.h
@@ -61,7 +61,7 @@ public:
         auto tmp = arg.index();
         auto letter = tmp / m_powers[degree - 1];
         return {key_type(1, letter),
-                key_type(degree - 1, tmp - letter * m_width)};
+                key_type(degree - 1, tmp - letter * m_powers[degree - 1])};
     }
 
     std::string key_to_string(const key_type&) const;
-- 
2.43.0


From 06c9b90941df6c2faf0ecd96f309e0ad9ae294d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 14/57] fix: adjoint of left tensor multiplication for sparse
 operands

---
 vendored/libalgebra_lite/free_tensor.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 8153b65..ab68a96 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -969,9 +969,10 @@ private:
         using s_t = typename coefficient_ring::scalar_type;
         for (auto&& pr : mul) {
             const auto& val = pr.value();
+            if (val == coefficient_ring::zero()) { continue; }
             result.inplace_binary_op(
                     shift_down(arg, pr.key()),
-                    [&val](const s_t& l, const s_t& r) { return l + val * r; }
+                    [&val](s_t& l, const s_t& r) { l += val * r; }
             );
         }
     }
@@ -1000,7 +1001,8 @@ private:
                 auto suffix_degree = degree - prefix_degree;
                 auto* optr = result.as_mut_ptr()
                         + basis.start_of_degree(suffix_degree);
-                const auto* iptr = arg.as_ptr() + index * powers[suffix_degree];
+                const auto* iptr = arg.as_ptr() + basis.start_of_degree(degree)
+                        + index * powers[suffix_degree];
 
                 for (dimn_t i = 0; i < powers[suffix_degree]; ++i) {
                     optr[i] += value * iptr[i];
-- 
2.43.0


From 8e0ea91d29e4c2ec5cffb87a1d555523fa74a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:42 +0000
Subject: [PATCH 15/57] fix: signature derivative with Lie elements of another
 vector type than the result

---
 algebra/src/lite_context.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5ca211f..8e69da3 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -489,10 +489,10 @@ template <VectorType VType>
 typename LiteContext<Coefficients>::template free_tensor_t<VType>
 LiteContext<Coefficients>::lie_to_tensor_impl(const Lie& arg) const
 {
-    // If arg is an object from this context, then we can just use the maps
-    // directly
+    // If arg is an object from this context with the right vector type, then we
+    // can just use the maps directly
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.lie_to_tensor(algebra_cast<lie_t<VType>>(*arg));
     }
 
-- 
2.43.0


From b0c7aff3ff1de885620e732235072bd30ddd8eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 16/57] fix: truncate out of range terms when constructing from
 keyed data

---
 algebra/src/lite_context.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 8e69da3..6a7444e 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -452,12 +452,13 @@ OutType LiteContext<Coefficients>::construct_impl(
 
     Slice<const scalar_type> raw_data;
 
-    const auto size = std::min(data.data.size(), basis->size(-1));
+    const auto data_size = data.data.size();
+    const auto dimension = basis->size(-1);
     std::vector<scalar_type> tmp;
     const auto* this_type = ctype();
     if (data.data.type() != this_type) {
-        tmp.resize(data.data.size());
-        scalars::ScalarArray tmp_sa(this_type, tmp.data(), size);
+        tmp.resize(data_size);
+        scalars::ScalarArray tmp_sa(this_type, tmp.data(), data_size);
         this_type->convert_copy(tmp_sa, data.data);
         raw_data = tmp;
     } else {
@@ -465,16 +466,18 @@ OutType LiteContext<Coefficients>::construct_impl(
     }
 
     if (data.data.has_keys()) {
-        // Sparse data
+        // Sparse data, terms outside this basis are truncated
         const auto* keys = data.data.keys();
 
-        for (dimn_t i = 0; i < size; ++i) {
-            result[basis->index_to_key(keys[i])] = raw_data[i];
+        for (dimn_t i = 0; i < data_size; ++i) {
+            if (keys[i] < dimension) {
+                result[basis->index_to_key(keys[i])] = raw_data[i];
+            }
         }
 
     } else {
         // Dense data
-
+        const auto size = std::min(data_size, dimension);
         for (dimn_t i = 0; i < size; ++i) {
             // Replace this with a more efficient method once it's implemented
             // at the lower level
-- 
2.43.0


From 4eccf23e7e1371ec5f392d6568e59526314c2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:37 +0000
Subject: [PATCH 17/57] fix: do not cache stream log signatures of a
 non-default context

---
 streams/src/dyadic_caching_layer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index a35b02b..e89f88f 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -95,6 +95,14 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
     const auto stream_resolution = metadata().default_resolution;
 
     if (interval.power() == stream_resolution) {
+        // The cache only holds values for the default context, an element of
+        // a different context could be missing terms.
+        const auto& default_ctx = *metadata().default_context;
+        if (ctx.depth() != default_ctx.depth()
+            || ctx.ctype() != default_ctx.ctype()) {
+            return log_signature_impl(interval, ctx);
+        }
+
         std::lock_guard<std::recursive_mutex> access(m_compute_lock);
 
         auto& cached = m_cache[interval];
-- 
2.43.0


From 70c086d2cea635a3ef41038f47c5bf32e5379ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:11 +0000
Subject: [PATCH 18/57] fix: scale partially covered pieces of a piecewise
 abelian stream by their covered fraction

---
 streams/src/piecewise_abelian_stream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streams/src/piecewise_abelian_stream.cpp b/streams/src/piecewise_abelian_stream.cpp
index 39ecf94..e9df367 100644
--- a/streams/src/piecewise_abelian_stream.cpp
+++ b/streams/src/piecewise_abelian_stream.cpp
@@ -173,7 +173,12 @@ algebra::Lie PiecewiseAbelianStream::log_signature_impl(
         } else if (pa >= a && pb <= b) {
             // [-----[p-----p)---)
             lies.push_back(piece.second);
-        } else if (pb <= pb) {
+        } else if (pa < a && pb > b) {
+            // [p---[------)---p)
+            lies.push_back(piece.second.smul(
+                    scalars::Scalar((b - a) / (pb - pa))
+            ));
+        } else if (pb <= b) {
             // [p---[---p)-----)
             lies.push_back(piece.second.smul(to_multiplier_upper(piece.first, a)
             ));
-- 
2.43.0


From d2c3700cfeb973a6d5188c04614da57f2b4a23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:20 +0000
Subject: [PATCH 19/57] fix: tick stream with ticks at zero and before did not
 terminate

---
 streams/src/tick_stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streams/src/tick_stream.cpp b/streams/src/tick_stream.cpp
index ebd22ce..6d50dca 100644
--- a/streams/src/tick_stream.cpp
+++ b/streams/src/tick_stream.cpp
@@ -79,10 +79,11 @@ streams::TickStream::smallest_dyadic_containing_all_events(
 optional<streams::TickStream::DyadicInterval>
 streams::TickStream::smallest_dyadic_containing_all_negative_events() const
 {
+    // A clopen dyadic interval with included end 0 is on the positive side
     auto zeu = (metadata().interval_type == intervals::IntervalType::Clopen)
-            ? std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
+            ? std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0))
-            : std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
+            : std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0));
 
     if (zeu != m_granular_times.begin()) {
-- 
2.43.0


From 4db6587336b19833837ef937f282c45133e2d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 20/57] fix: in-place arithmetic on a reference with another
 scalar type lost the type of the destination

---
 scalars/src/scalar/type_promotion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/type_promotion.cpp b/scalars/src/scalar/type_promotion.cpp
index ef8c145..8f2e3c3 100644
--- a/scalars/src/scalar/type_promotion.cpp
+++ b/scalars/src/scalar/type_promotion.cpp
@@ -173,8 +173,8 @@ devices::TypeInfo scalars::dtl::compute_dest_type(
         case ScalarContentType::OpaquePointer:
         case ScalarContentType::ConstOpaquePointer:
         case ScalarContentType::Interface:
-        case ScalarContentType::OwnedInterface: return dst_type;
+        case ScalarContentType::OwnedInterface: return type_info_from(dst_type);
     }
 
-    RPY_UNREACHABLE_RETURN(dst_type);
+    RPY_UNREACHABLE_RETURN(type_info_from(dst_type));
 }
-- 
2.43.0


From a3a6abac9c170df2c161c9d509b21f4ea69b8bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 21/57] fix: categorical ticks were placed at the wrong
 dimension when the channel or variant was given by name

---
 streams/src/stream_construction_helper.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/streams/src/stream_construction_helper.cpp b/streams/src/stream_construction_helper.cpp
index 9bb45f6..55c2a5d 100644
--- a/streams/src/stream_construction_helper.cpp
+++ b/streams/src/stream_construction_helper.cpp
@@ -67,8 +67,11 @@ void StreamConstructionHelper::add_categorical(param_t timestamp,
     const auto found = p_schema->find(string(channel));
     RPY_CHECK(found != p_schema->end());
     RPY_CHECK(variant < found->second->num_variants());
-    auto key = static_cast<key_type>(found - p_schema->begin())
-            + static_cast<key_type>(variant) + 1;
+    auto idx = p_schema->channel_variant_to_stream_dim(
+            static_cast<dimn_t>(found - p_schema->begin()),
+            variant
+    );
+    auto key = static_cast<key_type>(idx + 1);
     next_entry(timestamp)[key] += scalars::Scalar(1);
 }
 void StreamConstructionHelper::add_categorical(param_t timestamp,
@@ -83,7 +86,8 @@ void StreamConstructionHelper::add_categorical(param_t timestamp,
     RPY_CHECK(found != variants.end());
 
     auto key = static_cast<key_type>(p_schema->channel_variant_to_stream_dim(
-            channel, static_cast<dimn_t>(found - variants.begin())));
+            channel, static_cast<dimn_t>(found - variants.begin())))
+            + 1;
     next_entry(timestamp)[key] += scalars::Scalar(1);
 }
 void StreamConstructionHelper::add_categorical(param_t timestamp,
-- 
2.43.0


From e473d5ed93e3420a3f767b6df8613a7251a60b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 22/57] fix: values on a channel without lead-lag were refused,
 and placed at the wrong dimension when given by label

---
 .../streams/stream_construction_helper.h      | 42 ++++++++-----------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/streams/include/roughpy/streams/stream_construction_helper.h b/streams/include/roughpy/streams/stream_construction_helper.h
index 0c988fc..6a8436a 100644
--- a/streams/include/roughpy/streams/stream_construction_helper.h
+++ b/streams/include/roughpy/streams/stream_construction_helper.h
@@ -100,38 +100,32 @@ template <typename T>
 void StreamConstructionHelper::add_value(param_t timestamp, dimn_t channel,
                                          T&& value)
 {
-    auto lead_idx = p_schema->channel_variant_to_stream_dim(channel, 0);
-    auto lag_idx = p_schema->channel_variant_to_stream_dim(channel, 1);
+    RPY_CHECK(channel < p_schema->size());
 
     scalars::Scalar current(std::forward<T>(value));
 
-    next_entry(timestamp)[static_cast<key_type>(lead_idx + 1)]
-            += current - m_previous_values[lead_idx];
-    next_entry(timestamp)[static_cast<key_type>(lag_idx + 1)]
-            += current - m_previous_values[lag_idx];
-
-    m_previous_values[lead_idx] = current;
-    m_previous_values[lag_idx] = current;
+    // A value channel has one dimension or, with lead-lag, two
+    const auto first_idx = p_schema->channel_to_stream_dim(channel);
+    const auto num_variants = p_schema->nth(channel)->second->num_variants();
+    for (dimn_t i = 0; i < num_variants; ++i) {
+        const auto idx = first_idx + i;
+        next_entry(timestamp)[static_cast<key_type>(idx + 1)]
+                += current - m_previous_values[idx];
+        m_previous_values[idx] = current;
+    }
 }
 template <typename T>
 void StreamConstructionHelper::add_value(param_t timestamp, string_view label,
                                          T&& value)
 {
-    const auto found = p_schema->find(string(label));
-    RPY_CHECK(found != p_schema->end());
-
-    auto lead_idx = found->second->variant_id_of_label("lead");
-    auto lag_idx = found->second->variant_id_of_label("lag");
-
-    scalars::Scalar current(std::forward<T>(value));
-
-    next_entry(timestamp)[static_cast<key_type>(lead_idx + 1)]
-            += current - m_previous_values[lead_idx];
-    next_entry(timestamp)[static_cast<key_type>(lag_idx + 1)]
-            += current - m_previous_values[lag_idx];
-
-    m_previous_values[lead_idx] = current;
-    m_previous_values[lag_idx] = current;
+    const std::shared_ptr<const StreamSchema> schema(p_schema);
+    const auto found = schema->find(string(label));
+    RPY_CHECK(found != schema->end());
+    add_value(
+            timestamp,
+            static_cast<dimn_t>(found - schema->begin()),
+            std::forward<T>(value)
+    );
 }
 
 }// namespace streams
-- 
2.43.0


From 6ab4a5cdb2df5cae9610e8a8478adeacd644b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:23 +0000
Subject: [PATCH 23/57] fix: schema labels: padding a schema with a numeric
 label lost a channel; categorical ticks by name refused a final schema

---
 streams/src/schema.cpp                     | 8 +++++++-
 streams/src/stream_construction_helper.cpp | 7 ++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/streams/src/schema.cpp b/streams/src/schema.cpp
index 01fba76..4c3bc06 100644
--- a/streams/src/schema.cpp
+++ b/streams/src/schema.cpp
@@ -241,7 +241,13 @@ StreamChannel& StreamSchema::insert(
 )
 {
     RPY_CHECK(!m_is_final);
-    if (label.empty()) { label = std::to_string(size()); }
+    if (label.empty()) {
+        // The number of the channel, unless it is already used as a label
+        dimn_t number = size();
+        do {
+            label = std::to_string(number++);
+        } while (find(label) != end());
+    }
 
     // Some users might have labelled their channels using numbers.
     // Silly, but handle it gracefully.
diff --git a/streams/src/stream_construction_helper.cpp b/streams/src/stream_construction_helper.cpp
index 55c2a5d..a34509c 100644
--- a/streams/src/stream_construction_helper.cpp
+++ b/streams/src/stream_construction_helper.cpp
@@ -64,11 +64,12 @@ void StreamConstructionHelper::add_categorical(param_t timestamp,
                                                string_view channel,
                                                dimn_t variant)
 {
-    const auto found = p_schema->find(string(channel));
-    RPY_CHECK(found != p_schema->end());
+    const StreamSchema& schema = *p_schema;
+    const auto found = schema.find(string(channel));
+    RPY_CHECK(found != schema.end());
     RPY_CHECK(variant < found->second->num_variants());
     auto idx = p_schema->channel_variant_to_stream_dim(
-            static_cast<dimn_t>(found - p_schema->begin()),
+            static_cast<dimn_t>(found - schema.begin()),
             variant
     );
     auto key = static_cast<key_type>(idx + 1);
-- 
2.43.0


From 3b3fa7b577f3736d6f364e5f103aad146a7ab421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:39 +0000
Subject: [PATCH 24/57] fix: division of scalars of different types used the
 type of the numerator before promotion

---
 scalars/src/scalar/arithmetic.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 500d5ce..28d1fe2 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -308,10 +308,19 @@ Scalar& Scalar::operator/=(const Scalar& other)
         ));
     }
 
+    // The type of this might have changed.
+    const auto dest_info = type_info();
+
+    // Rationals (and polynomials over them) can only be divided by rationals
+    const auto rat_info = devices::type_info<rational_scalar_type>();
+    if (dest_info == rat_info && rat_denom_info != rat_info) {
+        rational_denom.change_type(rat_info);
+    }
+
     // Now we should be ready
-#define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rat_denom_info);\
+#define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rational_denom.type_info());\
     break
-    DO_FOR_EACH_X(num_info)
+    DO_FOR_EACH_X(dest_info)
 #undef X
 
     return *this;
-- 
2.43.0


From 62d30c80801fa89a3f4841afc4f403b2f1fe87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:48 +0000
Subject: [PATCH 25/57] fix: arithmetic with default-constructed (zero)
 scalars, and negative zero was not zero

---
 scalars/src/scalar.cpp            |  9 +++++++--
 scalars/src/scalar/arithmetic.cpp | 17 ++++++++++++-----
 scalars/src/scalar/casts.cpp      |  5 +++++
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 5f726de..007b278 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -258,7 +258,12 @@ Scalar::~Scalar()
 Scalar& Scalar::operator=(const Scalar& other)
 {
     if (&other != this) {
-        if (this->fast_is_zero()) {
+        if (this->fast_is_zero() && other.fast_is_zero()) {
+            // Either might have no type at all
+            if (!other.p_type_and_content_type.is_null()) {
+                p_type_and_content_type = other.p_type_and_content_type;
+            }
+        } else if (this->fast_is_zero()) {
             p_type_and_content_type = other.p_type_and_content_type;
 
             const auto info = type_info();
@@ -332,7 +337,7 @@ bool Scalar::is_zero() const noexcept
     switch (p_type_and_content_type.get_enumeration()) {
         case dtl::ScalarContentType::TrivialBytes:
         case dtl::ScalarContentType::ConstTrivialBytes:
-            return bit_cast<uintptr_t>(trivial_bytes) == 0;
+            return is_pointer_zero(trivial_bytes, p_type_and_content_type);
         case dtl::ScalarContentType::OpaquePointer:
         case dtl::ScalarContentType::ConstOpaquePointer:
         case dtl::ScalarContentType::OwnedPointer:
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 28d1fe2..d482c61 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -66,8 +66,8 @@ uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
 Scalar Scalar::operator-() const
 {
     Scalar result;
-    const auto info = type_info();
     if (!fast_is_zero()) {
+        const auto info = type_info();
         switch (p_type_and_content_type.get_enumeration()) {
             case ScalarContentType::TrivialBytes:
             case ScalarContentType::ConstTrivialBytes:
@@ -191,8 +191,9 @@ inline void scalar_inplace_arithmetic(Scalar& dst, const Scalar& src, Op&& op)
 
 Scalar& Scalar::operator+=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
-    if (is_interface()) {
+    if (p_type_and_content_type.is_null()) {
+        operator=(other);
+    } else if (is_interface()) {
         interface_ptr->add_inplace(other);
     } else if (!other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, AddInplace());
@@ -202,8 +203,9 @@ Scalar& Scalar::operator+=(const Scalar& other)
 
 Scalar& Scalar::operator-=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
-    if (is_interface()) {
+    if (p_type_and_content_type.is_null()) {
+        operator=(-other);
+    } else if (is_interface()) {
         interface_ptr->sub_inplace(other);
     } else if (!other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, SubInplace());
@@ -274,6 +276,11 @@ Scalar& Scalar::operator/=(const Scalar& other)
         RPY_THROW(std::domain_error, "division by zero");
     }
 
+    if (p_type_and_content_type.is_null()) {
+        // Zero, divided by anything, is zero
+        return *this;
+    }
+
     if (is_interface()) {
         interface_ptr->div_inplace(other);
         return *this;
diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 1fd731b..0332af4 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -167,6 +167,11 @@ bool scalars::dtl::scalar_convert_copy(
         const Scalar& src
 ) noexcept
 {
+    if (src.fast_is_zero()) {
+        // There might be no value (or type) to look at
+        const int zero = 0;
+        return convert_impl(dst, dst_type, &zero, 1);
+    }
     auto src_info = src.type_info();
 #define X(TP) return convert_impl(dst, dst_type, (const TP*) src.pointer(), 1)
     DO_FOR_EACH_X(src_info)
-- 
2.43.0


From e44f9d22e44016b1dd249046bdebbdfd8f33f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:30 +0000
Subject: [PATCH 26/57] fix: division by a reference to a zero scalar is
 refused like division by a zero value

---
 scalars/src/scalar/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d482c61..db1625f 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -272,7 +272,7 @@ do_divide(T* dst, const void* divisor, const devices::TypeInfo& info){
 
 Scalar& Scalar::operator/=(const Scalar& other)
 {
-    if (other.fast_is_zero()) {
+    if (other.is_zero()) {
         RPY_THROW(std::domain_error, "division by zero");
     }
 
-- 
2.43.0


From ab7ef019792018eb665d0fb06a112493d87be444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:30 +0000
Subject: [PATCH 27/57] fix: half precision scalars were taken as zero when
 converted to rationals

---
 scalars/src/scalar/casts.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 0332af4..895f211 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -84,7 +84,25 @@ write_result(D* dst, const T* src, dimn_t count) noexcept
 }
 
 template <typename D, typename T>
-static inline enable_if_t<!is_constructible_v<D, const T&>, bool>
+static inline enable_if_t<
+        !is_constructible_v<D, const T&>
+                && (is_same_v<T, half> || is_same_v<T, bfloat16>),
+        bool>
+write_result(D* dst, const T* src, dimn_t count) noexcept
+{
+    // Go via float, which holds all of these values
+    for (dimn_t i = 0; i < count; ++i) {
+        const auto tmp = static_cast<float>(src[i]);
+        if (!write_result(dst++, &tmp, 1)) { return false; }
+    }
+    return true;
+}
+
+template <typename D, typename T>
+static inline enable_if_t<
+        !is_constructible_v<D, const T&>
+                && !(is_same_v<T, half> || is_same_v<T, bfloat16>),
+        bool>
 write_result(D*, const T*, dimn_t) noexcept
 {
     return false;
-- 
2.43.0


From e6975eef2169733c6367a02c7e97ccbf5c32bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 28/57] fix: comparing scalars of different types rounded large
 integers and crashed on infinities

---
 scalars/src/scalar/comparison.cpp | 48 ++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/scalars/src/scalar/comparison.cpp b/scalars/src/scalar/comparison.cpp
index 802bc40..c5316c2 100644
--- a/scalars/src/scalar/comparison.cpp
+++ b/scalars/src/scalar/comparison.cpp
@@ -34,6 +34,7 @@
 #include "do_macro.h"
 #include <roughpy/scalars/scalar_types.h>
 
+#include <cmath>
 #include <limits>
 
 using namespace rpy;
@@ -78,6 +79,23 @@ compare_same(const void* lhs, const void* rhs, TypeInfo info) noexcept
     return false;
 }
 
+/*
+ * Converting an integer to floating point might round it, but any floating
+ * point number that is in the range of the integer type converts exactly if it
+ * is an integer.
+ */
+template <typename L, typename R>
+constexpr bool compare_int_float(L lhs, R rhs) noexcept
+{
+    constexpr R bound = R(L(1) << (std::numeric_limits<L>::digits - 1)) * 2;
+    if (!(rhs < bound && rhs >= (is_signed_v<L> ? -bound : R(0)))) {
+        // Out of range, or NaN
+        return false;
+    }
+    return static_cast<R>(static_cast<L>(rhs)) == rhs
+            && static_cast<L>(rhs) == lhs;
+}
+
 template <typename T>
 constexpr bool compare_wrap_equal(const T& lhs, const T& rhs) noexcept
 {
@@ -113,13 +131,7 @@ constexpr enable_if_t<
         bool>
 compare_wrap_equal(const L& lhs, const R& rhs) noexcept
 {
-    /*
-     * Left is signed integral, right is fp, make sure lhs is smaller than the
-     * mantissa bits of rhs
-     */
-    constexpr L unique_max = (L(1) << std::numeric_limits<R>::digits) - 1;
-    return (lhs <= unique_max && lhs >= -unique_max)
-            && static_cast<R>(lhs) == rhs;
+    return compare_int_float(lhs, rhs);
 }
 template <typename L, typename R>
 constexpr enable_if_t<
@@ -128,12 +140,7 @@ constexpr enable_if_t<
         bool>
 compare_wrap_equal(const L& lhs, const R& rhs) noexcept
 {
-    /*
-     * Left is unsigned integral, right is fp, make sure lhs is smaller than the
-     * mantissa bits of rhs
-     */
-    constexpr L unique_max = (L(1) << std::numeric_limits<R>::digits) - 1;
-    return (lhs <= unique_max) && static_cast<R>(lhs) == rhs;
+    return compare_int_float(lhs, rhs);
 }
 
 template <typename L, typename R>
@@ -174,7 +181,16 @@ constexpr enable_if_t<
         bool>
 compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
 {
-    return static_cast<R>(lhs) == rhs;
+    return compare_int_float(lhs, rhs);
+}
+template <typename L, typename R>
+constexpr enable_if_t<
+        !is_same_v<L, R> && is_floating_point_v<L>
+                && is_floating_point_v<R>,
+        bool>
+compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
+{
+    return lhs == rhs;
 }
 template <typename L, typename R>
 constexpr enable_if_t<
@@ -191,6 +207,10 @@ template <typename L>
 constexpr bool
 compare_wrap_unequal(const L& lhs, const rational_scalar_type& rhs) noexcept
 {
+    if constexpr (is_floating_point_v<L>) {
+        // There are no rationals for these values
+        if (!std::isfinite(lhs)) { return false; }
+    }
     return rational_scalar_type(lhs) == rhs;
 }
 template <typename R>
-- 
2.43.0


From 523cc9d0979ba62c5b8389c785b4989c618fa56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:22 +0000
Subject: [PATCH 29/57] fix: promotion of an unsigned and a signed integer type
 holds the values of both

---
 scalars/src/scalar/type_promotion.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scalars/src/scalar/type_promotion.cpp b/scalars/src/scalar/type_promotion.cpp
index 8f2e3c3..7663b82 100644
--- a/scalars/src/scalar/type_promotion.cpp
+++ b/scalars/src/scalar/type_promotion.cpp
@@ -34,6 +34,12 @@ devices::TypeInfo compute_int_promotion(
             if (traits::is_signed(src_info)) {
                 // If src is signed the we must make sure that the dst is signed
                 info.code = src_info.code;
+                // and large enough to hold the values of both
+                if (info.bytes <= dst_info.bytes
+                    && info.bytes < sizeof(int64_t)) {
+                    info.bytes *= 2;
+                    info.alignment = info.bytes;
+                }
             } else {
                 // If src is unsigned then dst might not be large enough
                 if (info.bytes <= src_info.bytes
-- 
2.43.0


From ebef85353ea94ffac57425de915864d8f7565ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:01 +0000
Subject: [PATCH 30/57] fix: dividing a reference to a scalar by a scalar of
 another type divided a copy

---
 scalars/src/scalar/arithmetic.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index db1625f..5b12e4b 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -309,10 +309,12 @@ Scalar& Scalar::operator/=(const Scalar& other)
      * rather than whatever the rational type is.
      */
     if (num_info != true_denom_info) {
-        change_type(dtl::compute_dest_type(
+        const auto out_info = dtl::compute_dest_type(
                 p_type_and_content_type,
                 other.p_type_and_content_type
-        ));
+        );
+        // Changing type detaches a reference from what it refers to
+        if (out_info != num_info) { change_type(out_info); }
     }
 
     // The type of this might have changed.
-- 
2.43.0


From 9ac6b6a2a4634a8198d0256deea79b7135be3c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 31/57] fix: moving a strided dense iterator by an offset
 ignored the stride

---
 roughpy_compute/dense/views.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/views.hpp b/roughpy_compute/dense/views.hpp
index 37435c9..4876118 100644
--- a/roughpy_compute/dense/views.hpp
+++ b/roughpy_compute/dense/views.hpp
@@ -51,7 +51,7 @@ public:
     constexpr StridedDenseIterator(Iter_ base,
                                    difference_type stride,
                                    difference_type offset) noexcept
-        : base_(base + offset), stride_(stride) {}
+        : base_(base + offset * stride), stride_(stride) {}
 
 
     [[nodiscard]]
-- 
2.43.0


From e7b0547aaab681c78778c375fbb1fed3dc076c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 32/57] fix: adjoint of left multiplication dropped the terms
 of the argument above the output degree

---
 roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp b/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
index ea523ea..3acf1e7 100644
--- a/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
+++ b/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
@@ -39,8 +39,8 @@ void ft_adj_lmul(DenseTensorView<OutIter> out,
      * as those operations do.
      */
 
-    const auto arg_max_degree = std::min(arg.max_degree() - op.min_degree(), out.max_degree());
-    auto arg_min_degree = std::max(arg.min_degree() - op.max_degree(), out.min_degree());
+    const auto arg_max_degree = std::min(arg.max_degree(), op.max_degree() + out.max_degree());
+    auto arg_min_degree = std::max(arg.min_degree(), op.min_degree() + out.min_degree());
 
     for (Degree arg_degree = arg_max_degree; arg_degree >= arg_min_degree; --
          arg_degree)
-- 
2.43.0


From 471f1562a832d79e30d7feab761770ef67f64c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 33/57] fix: antipode of a tensor of degree zero read and wrote
 the level above

---
 roughpy_compute/dense/basic/free_tensor_antipode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/basic/free_tensor_antipode.hpp b/roughpy_compute/dense/basic/free_tensor_antipode.hpp
index 4a8187d..12bb456 100644
--- a/roughpy_compute/dense/basic/free_tensor_antipode.hpp
+++ b/roughpy_compute/dense/basic/free_tensor_antipode.hpp
@@ -69,7 +69,7 @@ void ft_antipode(
 
     // The level one elements are mapped to the corresponding level one
     // elements, with signing
-    if (min_degree <= 1) {
+    if (min_degree <= 1 && max_degree >= 1) {
         signer.for_degree(1);
         auto arg_level = arg.at_level(1);
         auto out_level = out.at_level(1);
-- 
2.43.0


From ecc473889674c44a1b078472596bd4e8092360a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 34/57] fix: shuffle product with operands of different degrees
 read past the shorter one and lost terms

---
 roughpy_compute/dense/basic/shuffle_tensor_product.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/basic/shuffle_tensor_product.hpp b/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
index c67a37d..0edb031 100644
--- a/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
+++ b/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
@@ -43,7 +43,7 @@ void st_fma(
     out[0] += op(lhs[0] * rhs[0]);
     Index out_size = width;
 
-    for (Degree out_deg = 1; out_deg <= lhs.max_degree(); ++out_deg) {
+    for (Degree out_deg = 1; out_deg <= out.max_degree(); ++out_deg) {
         auto out_level = out.at_level(out_deg);
 
         for (Index i = 0; i < out_size; ++i) {
@@ -74,6 +74,12 @@ void st_fma(
                         rhs_idx
                 );
 
+                // the coefficients above the maximum degree are implicitly zero
+                if (lhs_degree > lhs.max_degree()
+                    || rhs_degree > rhs.max_degree()) {
+                    continue;
+                }
+
                 auto lhs_level = lhs.at_level(lhs_degree);
                 auto rhs_level = rhs.at_level(rhs_degree);
                 acc += lhs_level[lhs_idx] * rhs_level[rhs_idx];
-- 
2.43.0


From 916300d301a633c377300c9a58adbc0eaa126636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 35/57] fix: adjoint of the shuffle product read and wrote past
 operands of smaller degree

---
 .../dense/basic/shuffle_tensor_adjoint_mul.hpp           | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp b/roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp
index 3faea96..d6ad38c 100644
--- a/roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp
+++ b/roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp
@@ -22,7 +22,7 @@ void st_adj_mul(
 
     using Mask = BitMask<Index>;
 
-    CacheArray<int16_t, 32> letters(out.max_degree());
+    CacheArray<int16_t, 32> letters(arg.max_degree());
     const Index width = out.width();
 
     for (Degree func_degree = 0; func_degree <= arg.max_degree(); ++func_degree) {
@@ -56,6 +56,13 @@ void st_adj_mul(
                     out_degree,
                     out_idx);
 
+                // the coefficients of op above its maximum degree are implicitly
+                // zero, and those above the maximum degree of out are not wanted
+                if (op_degree > op.max_degree()
+                    || out_degree > out.max_degree()) {
+                    continue;
+                }
+
                 auto op_level = op.at_level(op_degree);
                 auto out_level = out.at_level(out_degree);
 
-- 
2.43.0


From 66594920cf87374c9e062d2c6324a9cfae2887b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:24 +0000
Subject: [PATCH 36/57] fix: dense tensor logarithm depended on what was in the
 output

---
 roughpy_compute/dense/intermediate/free_tensor_log.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/roughpy_compute/dense/intermediate/free_tensor_log.hpp b/roughpy_compute/dense/intermediate/free_tensor_log.hpp
index 04e9e48..0f59398 100644
--- a/roughpy_compute/dense/intermediate/free_tensor_log.hpp
+++ b/roughpy_compute/dense/intermediate/free_tensor_log.hpp
@@ -19,6 +19,7 @@ void ft_log(DenseTensorView<OutIter> out, DenseTensorView<ArgIter> arg)
 
     constexpr Scalar unit { 1 };
 
+    out[0] = Scalar { 0 };
 
     auto const max_degree = out.max_degree();
     for (Degree deg=max_degree; deg > 0; --deg) {
-- 
2.43.0


From 9e3cdde24c196f5fe91771db674cc7baf9405265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 37/57] fix: evaluating a polynomial added the factors of each
 monomial

---
 vendored/libalgebra_lite/polynomial.h       | 4 ++--
 vendored/libalgebra_lite/polynomial_basis.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vendored/libalgebra_lite/polynomial.h b/vendored/libalgebra_lite/polynomial.h
index 58e1ff5..d8fe1df 100644
--- a/vendored/libalgebra_lite/polynomial.h
+++ b/vendored/libalgebra_lite/polynomial.h
@@ -89,8 +89,8 @@ public:
         using ring = typename polynomial::coefficient_ring;
         auto ans = ring::zero();
         for (const auto& item : *this) {
-            auto key_result = item.first.template eval<ring>(arg);
-            ring::add_inplace(ans, ring::mul(item.second, key_result));
+            auto key_result = item.key().template eval<ring>(arg);
+            ring::add_inplace(ans, ring::mul(item.value(), key_result));
         }
         return ans;
     }
diff --git a/vendored/libalgebra_lite/polynomial_basis.h b/vendored/libalgebra_lite/polynomial_basis.h
index b1b29b9..9dcb22d 100644
--- a/vendored/libalgebra_lite/polynomial_basis.h
+++ b/vendored/libalgebra_lite/polynomial_basis.h
@@ -84,10 +84,10 @@ public:
     template <typename Coefficients, typename MapType>
     typename Coefficients::scalar_type eval(const MapType& arg) const noexcept
     {
-        auto result = Coefficients::zero();
+        auto result = Coefficients::one();
 
         for (const auto& item : m_data) {
-            Coefficients::add_inplace(result,
+            Coefficients::mul_inplace(result,
                     power<Coefficients>(arg[item.first], item.second));
         }
         return result;
-- 
2.43.0


From d0daa4ac3a49961ba0810220160878efd29056f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 38/57] fix: product of monomials used an iterator invalidated
 by its own insertions

---
 vendored/libalgebra_lite/basis/polynomial_basis.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vendored/libalgebra_lite/basis/polynomial_basis.cpp b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
index de81721..1178c54 100644
--- a/vendored/libalgebra_lite/basis/polynomial_basis.cpp
+++ b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
@@ -34,10 +34,9 @@ std::ostream& operator<<(std::ostream& os, const monomial& arg)
 
 monomial& monomial::operator*=(const monomial& rhs)
 {
-    const auto lend = m_data.end();
     for (const auto& item : rhs.m_data) {
         auto it = m_data.find(item.first);
-        if (it == lend) {
+        if (it == m_data.end()) {
             m_data.insert(item);
         } else {
             it->second += item.second;
-- 
2.43.0


From 8c392ce36461271fce9901bcf7c73bc9057a4d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 39/57] fix: product of generic monomials used an iterator
 invalidated by its own insertions

---
 platform/src/generics/polynomial_type/monomial.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/platform/src/generics/polynomial_type/monomial.cpp b/platform/src/generics/polynomial_type/monomial.cpp
index a324e50..8adf0ca 100644
--- a/platform/src/generics/polynomial_type/monomial.cpp
+++ b/platform/src/generics/polynomial_type/monomial.cpp
@@ -34,9 +34,8 @@ deg_t Monomial::operator[](Indeterminate indeterminate) const noexcept {
 
 Monomial& Monomial::operator*=(const Monomial& rhs)
 {
-    const auto lend = m_data.end();
     for (const auto& [ind, pow] : rhs) {
-        if (auto it = m_data.find(ind); it != lend) {
+        if (auto it = m_data.find(ind); it != m_data.end()) {
             it->second += pow;
         } else { m_data.emplace(ind, pow); }
     }
-- 
2.43.0


From 3ef051ef384dbc53abd8ecf823e206bf07b73790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 40/57] fix: adding and subtracting polynomials used an
 iterator invalidated by their own insertions

---
 platform/src/generics/polynomial_type/polynomial.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/platform/src/generics/polynomial_type/polynomial.cpp b/platform/src/generics/polynomial_type/polynomial.cpp
index 090580e..21553ea 100644
--- a/platform/src/generics/polynomial_type/polynomial.cpp
+++ b/platform/src/generics/polynomial_type/polynomial.cpp
@@ -24,11 +24,10 @@ deg_t Polynomial::degree() const noexcept
 
 void generics::poly_add_inplace(Polynomial& lhs, const Polynomial& rhs)
 {
-    const auto lend = lhs.end();
     dtl::RationalCoeff zero;
     for (const auto& [rhs_key, rhs_coeff] : rhs) {
         auto it = lhs.find(rhs_key);
-        if (it != lend) {
+        if (it != lhs.end()) {
             // Update existing term
             mpq_add(it->second.content, it->second.content, rhs_coeff.content);
             // If the resulting coefficient is zero, remove the term
@@ -42,11 +41,10 @@ void generics::poly_add_inplace(Polynomial& lhs, const Polynomial& rhs)
 
 void generics::poly_sub_inplace(Polynomial& lhs, const Polynomial& rhs)
 {
-    const auto lend = lhs.end();
     dtl::RationalCoeff zero;
     for (const auto& [rhs_key, rhs_coeff] : rhs) {
         auto it = lhs.find(rhs_key);
-        if (it != lend) {
+        if (it != lhs.end()) {
             // Update existing term
             mpq_sub(it->second.content, it->second.content, rhs_coeff.content);
             // If the resulting coefficient is zero, remove the term
-- 
2.43.0


From f245372d89316d2ed5501c49acb4eb5842440a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 41/57] fix: subtracting a polynomial from itself erased the
 terms being iterated over

---
 platform/src/generics/polynomial_type/polynomial.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/platform/src/generics/polynomial_type/polynomial.cpp b/platform/src/generics/polynomial_type/polynomial.cpp
index 21553ea..9682160 100644
--- a/platform/src/generics/polynomial_type/polynomial.cpp
+++ b/platform/src/generics/polynomial_type/polynomial.cpp
@@ -41,6 +41,12 @@ void generics::poly_add_inplace(Polynomial& lhs, const Polynomial& rhs)
 
 void generics::poly_sub_inplace(Polynomial& lhs, const Polynomial& rhs)
 {
+    if (&lhs == &rhs) {
+        // erasing terms of lhs would invalidate the iteration over rhs
+        lhs.clear();
+        return;
+    }
+
     dtl::RationalCoeff zero;
     for (const auto& [rhs_key, rhs_coeff] : rhs) {
         auto it = lhs.find(rhs_key);
-- 
2.43.0


From bcfe313f0da12d656d9bd60682ad2c66b5697f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 42/57] fix: <= on monomials of equal degree was true whenever
 it held for the first factor and false for equal monomials

---
 .../src/generics/polynomial_type/monomial.cpp     | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/platform/src/generics/polynomial_type/monomial.cpp b/platform/src/generics/polynomial_type/monomial.cpp
index 8adf0ca..8853951 100644
--- a/platform/src/generics/polynomial_type/monomial.cpp
+++ b/platform/src/generics/polynomial_type/monomial.cpp
@@ -88,20 +88,7 @@ bool generics::operator<(const Monomial& lhs, const Monomial& rhs) noexcept
 
 bool generics::operator<=(const Monomial& lhs, const Monomial& rhs) noexcept
 {
-    const auto ldegree = lhs.degree();
-    const auto rdegree = rhs.degree();
-
-    if (ldegree < rdegree) { return true; }
-
-    if (ldegree == rdegree) {
-        return std::lexicographical_compare(lhs.begin(),
-                                            lhs.end(),
-                                            rhs.begin(),
-                                            rhs.end(),
-                                            std::less_equal<>());
-    }
-
-    return false;
+    return !(rhs < lhs);
 }
 
 
-- 
2.43.0


From 6198a261292e6652d0cd514a5de5ca1779648432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:24 +0000
Subject: [PATCH 43/57] fix: default sizes of the Lie algebra multiplied the
 dimensions of the degrees

---
 algebra/src/context.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/algebra/src/context.cpp b/algebra/src/context.cpp
index af99928..f2b9b7b 100644
--- a/algebra/src/context.cpp
+++ b/algebra/src/context.cpp
@@ -105,7 +105,6 @@ ContextBase::ContextBase(
         // memory.
         p_tensor_sizes = tsizes;
         tsizes[0] = 1;
-        tsizes[1] = 1 + m_width;
         for (deg_t i = 1; i <= m_depth; ++i) {
             tsizes[i] = 1 + tsizes[i - 1] * m_width;
         }
@@ -118,9 +117,8 @@ ContextBase::ContextBase(
         // memory.
         p_lie_sizes = lsizes;
         lsizes[0] = 0;
-        lsizes[1] = m_width;
-        for (int i = 2; i <= m_depth; ++i) {
-            lsizes[i] = helper(i) * lsizes[i - 1];
+        for (int i = 1; i <= m_depth; ++i) {
+            lsizes[i] = helper(i) + lsizes[i - 1];
         }
     }
 }
-- 
2.43.0


From 001c8fde21403638429c249cbeb3cdfbabd32d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:24 +0000
Subject: [PATCH 44/57] fix: Moebius function beyond the tabulated values never
 terminated

---
 algebra/src/hall_set_size.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algebra/src/hall_set_size.cpp b/algebra/src/hall_set_size.cpp
index 157e6af..452de8f 100644
--- a/algebra/src/hall_set_size.cpp
+++ b/algebra/src/hall_set_size.cpp
@@ -40,7 +40,7 @@ using namespace rpy::algebra;
 HallSetSizeHelper::HallSetSizeHelper(deg_t width, deg_t depth)
     : m_width(width), m_depth(depth)
 {
-    if (static_cast<dimn_t>(m_depth) > m_mobius.size()) {
+    if (static_cast<dimn_t>(m_depth) >= m_mobius.size()) {
         std::vector<bool> tmp;
         tmp.resize(m_depth / 2, true);
         tmp[0] = false;
@@ -66,15 +66,16 @@ HallSetSizeHelper::HallSetSizeHelper(deg_t width, deg_t depth)
          * Odyssey, 421-432.
          */
 
-        auto old_size = static_cast<int>(m_mobius.size());
+        auto old_size = static_cast<int>(m_mobius.size()) - 1;
         m_mobius.resize(m_depth + 1, 1);
         for (auto& prime : primes) {
             for (deg_t i = (old_size / prime) + 1, m = i * prime; m <= m_depth;
-                 ++i) {
+                 ++i, m = i * prime) {
                 m_mobius[m] *= -prime;
             }
             auto p2 = prime * prime;
-            for (deg_t i = (old_size / p2) + 1, m = i * p2; m <= m_depth; ++i) {
+            for (deg_t i = (old_size / p2) + 1, m = i * p2; m <= m_depth;
+                 ++i, m = i * p2) {
                 m_mobius[m] = 0;
             }
         }
-- 
2.43.0


From 36958fe43cd3d9b3c7f4cac60b8afc3b5cda6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:13 +0000
Subject: [PATCH 45/57] fix: copy assignment of a scalar array made an owned
 copy look borrowed and wrote over unconstructed elements

---
 scalars/src/scalar_array.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 737225b..e387a63 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -163,23 +163,28 @@ ScalarArray::~ScalarArray()
 
 ScalarArray& ScalarArray::operator=(const ScalarArray& other)
 {
-    if (&other != this && !other.p_type_and_mode.is_null()) {
+    if (&other != this) {
         this->~ScalarArray();
+        p_type_and_mode = other.p_type_and_mode;
+        m_size = 0;
 
-        if (p_type_and_mode.is_null()) {
-            p_type_and_mode = other.p_type_and_mode;
+        if (other.empty()) {
+            // Nothing to copy: this is now an empty array of the same type
+            p_type_and_mode.update_enumeration(
+                    dtl::ScalarArrayStorageModel::BorrowConst
+            );
+            return *this;
         }
 
         auto info = type_info();
         if (p_type_and_mode.is_pointer()) {
-            auto device = p_type_and_mode->device();
-            owned_buffer = device->raw_alloc(
-                    other.size() * info.bytes,
-                    info.alignment
-            );
-            m_size = other.size();
+            // Some types have to construct the elements of the new array
+            *this = p_type_and_mode->allocate(other.size());
             p_type_and_mode->convert_copy(*this, other);
         } else {
+            p_type_and_mode.update_enumeration(
+                    dtl::ScalarArrayStorageModel::Owned
+            );
             RPY_CHECK(traits::is_fundamental(info));
             auto device = devices::get_host_device();
 
-- 
2.43.0


From 0ec826f66c154896ec10e6437bf2aba003c7b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:13 +0000
Subject: [PATCH 46/57] fix: scalar array of a fundamental type started from an
 uninitialised buffer

---
 scalars/src/scalar_array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index e387a63..0c9c241 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -106,12 +106,13 @@ ScalarArray::ScalarArray(const ScalarType* type, dimn_t size)
 
 ScalarArray::ScalarArray(devices::TypeInfo info, dimn_t size)
     : p_type_and_mode(info, dtl::ScalarArrayStorageModel::Owned),
+      owned_buffer(),
       m_size(size)
 {
     RPY_CHECK(traits::is_fundamental(info));
     if (size != 0) {
         owned_buffer
-                = devices::get_host_device()->raw_alloc(size*info.alignment, info.alignment);
+                = devices::get_host_device()->raw_alloc(size*info.bytes, info.alignment);
     }
 }
 
-- 
2.43.0


From 2afe4ab21cb145a9d2143ea9659b8ae1216dff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:13 +0000
Subject: [PATCH 47/57] fix: converting into a larger array read past the end
 of the source

---
 scalars/src/scalar_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 80c8ab0..46e62f0 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -138,7 +138,7 @@ void ScalarType::convert_copy(
                 dst.type_info(),
                 src.pointer(),
                 src.type_info(),
-                dst.size()
+                src.size()
         )) {
         RPY_THROW(std::runtime_error, "convert copy failed");
     }
-- 
2.43.0


From da1c39f7ffe07471a7490dd7b8999b35443eb471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:13 +0000
Subject: [PATCH 48/57] fix: copies of an array with borrowed keys lost them,
 and allocating keys freed borrowed ones

---
 scalars/src/key_scalar_array.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index df4747b..5ea82df 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -47,6 +47,8 @@ KeyScalarArray::KeyScalarArray(const KeyScalarArray& other)
         m_owns_keys = true;
         allocate_keys();
         std::copy_n(other.p_keys, other.size(), const_cast<key_type*>(p_keys));
+    } else {
+        p_keys = other.p_keys;
     }
 }
 KeyScalarArray::KeyScalarArray(KeyScalarArray&& other) noexcept
@@ -146,7 +148,9 @@ void KeyScalarArray::allocate_scalars(idimn_t count) {
 }
 void KeyScalarArray::allocate_keys(idimn_t count) {
     if (count != 0) {
-        if (p_keys != nullptr) { delete[] p_keys; }
+        if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
+        p_keys = nullptr;
+        m_owns_keys = false;
 
         if (count == -1) {
             count = static_cast<idimn_t>(size());
-- 
2.43.0


From bac4f517798ce7211f5620d7c053c6d97559fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:31 +0000
Subject: [PATCH 49/57] fix: copying a keyed array with borrowed keys returned
 nothing and read keys it did not have

---
 scalars/src/key_scalar_array.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index 5ea82df..0547e2a 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -81,9 +81,18 @@ KeyScalarArray KeyScalarArray::copy_or_move() && {
         return std::move(*this);
     }
 
-    KeyScalarArray result(static_cast<ScalarArray&&>(*this).copy_or_clone());
-    result.allocate_keys();
-    std::copy_n(p_keys, size(), result.keys());
+    KeyScalarArray result;
+    // Assignment takes a copy of the scalars if they are borrowed
+    if (is_owning()) {
+        static_cast<ScalarArray&>(result) = static_cast<ScalarArray&&>(*this);
+    } else {
+        static_cast<ScalarArray&>(result)
+                = static_cast<const ScalarArray&>(*this);
+    }
+    if (has_keys()) {
+        result.allocate_keys();
+        std::copy_n(p_keys, result.size(), result.keys());
+    }
 
     return result;
 }
-- 
2.43.0


From a1ed9c289b2d9024d831c69928257785c18e4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:31 +0000
Subject: [PATCH 50/57] fix: assigning to a keyed array destroyed its scalars
 twice

---
 scalars/src/key_scalar_array.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index 0547e2a..2bfe4d9 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -99,7 +99,9 @@ KeyScalarArray KeyScalarArray::copy_or_move() && {
 KeyScalarArray& KeyScalarArray::operator=(const KeyScalarArray& other)
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
+        p_keys = nullptr;
+        m_owns_keys = false;
         ScalarArray::operator=(other);
         if (other.m_owns_keys) {
             allocate_keys();
@@ -117,7 +119,9 @@ KeyScalarArray& KeyScalarArray::operator=(const KeyScalarArray& other)
 KeyScalarArray& KeyScalarArray::operator=(const ScalarArray& other)
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
+        p_keys = nullptr;
+        m_owns_keys = false;
         ScalarArray::operator=(other);
     }
     return *this;
@@ -125,12 +129,15 @@ KeyScalarArray& KeyScalarArray::operator=(const ScalarArray& other)
 KeyScalarArray& KeyScalarArray::operator=(KeyScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
+        p_keys = nullptr;
+        m_owns_keys = false;
 
         ScalarArray::operator=(std::move(other));
         p_keys = other.p_keys;
         other.p_keys = nullptr;
         m_owns_keys = other.m_owns_keys;
+        other.m_owns_keys = false;
 
     }
     return *this;
@@ -138,7 +145,9 @@ KeyScalarArray& KeyScalarArray::operator=(KeyScalarArray&& other) noexcept
 KeyScalarArray& KeyScalarArray::operator=(ScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarArray();
+        if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
+        p_keys = nullptr;
+        m_owns_keys = false;
         ScalarArray::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From 24e3482200357de6651deb8234f689d5b9170c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:31 +0000
Subject: [PATCH 51/57] fix: assigning to a scalar stream used its rows after
 destroying them

---
 scalars/src/key_scalar_stream.cpp | 2 --
 scalars/src/scalar_stream.cpp     | 2 --
 2 files changed, 4 deletions(-)

diff --git a/scalars/src/key_scalar_stream.cpp b/scalars/src/key_scalar_stream.cpp
index 9f30a3f..790ead9 100644
--- a/scalars/src/key_scalar_stream.cpp
+++ b/scalars/src/key_scalar_stream.cpp
@@ -52,7 +52,6 @@ KeyScalarStream::KeyScalarStream(KeyScalarStream&& other) noexcept
 KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<const ScalarStream&>(other));
         m_key_stream = other.m_key_stream;
     }
@@ -61,7 +60,6 @@ KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 KeyScalarStream& KeyScalarStream::operator=(KeyScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<ScalarStream&&>(other));
         m_key_stream = std::move(other.m_key_stream);
     }
diff --git a/scalars/src/scalar_stream.cpp b/scalars/src/scalar_stream.cpp
index c35b7e9..7b6a981 100644
--- a/scalars/src/scalar_stream.cpp
+++ b/scalars/src/scalar_stream.cpp
@@ -77,7 +77,6 @@ ScalarStream::ScalarStream(ScalarArray base, std::vector<dimn_t> shape)
 ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = other.m_stream;
         p_type = other.p_type;
     }
@@ -86,7 +85,6 @@ ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 ScalarStream& ScalarStream::operator=(ScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = std::move(other.m_stream);
         p_type = other.p_type;
     }
-- 
2.43.0


From 5fa2a6aeeee350dd7b4669a66dbea435eccf3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:31 +0000
Subject: [PATCH 52/57] fix: row without keys after a row with keys shifted the
 keys of later rows

---
 scalars/src/key_scalar_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/src/key_scalar_stream.cpp b/scalars/src/key_scalar_stream.cpp
index 790ead9..13480e9 100644
--- a/scalars/src/key_scalar_stream.cpp
+++ b/scalars/src/key_scalar_stream.cpp
@@ -83,7 +83,7 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
         if (m_key_stream.empty()) {
             m_key_stream.resize(ScalarStream::row_count(), nullptr);
         }
@@ -96,7 +96,7 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
         if (m_key_stream.empty()) {
             m_key_stream.resize(ScalarStream::row_count(), nullptr);
         }
-- 
2.43.0


From 5fbf65e81b85f3851975bd3bd00f736b9cbe47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:57 +0000
Subject: [PATCH 53/57] fix: restricting a restricted stream undid the first
 restriction

---
 streams/src/stream.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/streams/src/stream.cpp b/streams/src/stream.cpp
index c58eaac..1388f20 100644
--- a/streams/src/stream.cpp
+++ b/streams/src/stream.cpp
@@ -81,10 +81,14 @@ void Stream::restrict_to(const Stream::Interval& interval)
 
 Stream Stream::restrict(const Stream::Interval& interval) const
 {
-    RealInterval support(interval);
-    if (p_impl) { support = p_impl->schema().adjust_interval(interval); }
+    if (!p_impl) { return {p_impl, RealInterval(interval)}; }
 
-    return {p_impl, support};
+    // A restriction never reaches beyond the support of what it restricts
+    const auto support = p_impl->schema().adjust_interval(interval);
+    const auto inf = std::max(support.inf(), m_support.inf());
+    const auto sup = std::max(inf, std::min(support.sup(), m_support.sup()));
+
+    return {p_impl, RealInterval(inf, sup, support.type())};
 }
 
 const algebra::Context& rpy::streams::Stream::get_default_context() const
-- 
2.43.0


From 0619041145d6518986363051288f8ee8242448b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:32 +0000
Subject: [PATCH 54/57] fix: Brownian increments did not have the variance of
 their intervals

---
 streams/include/roughpy/streams/brownian_stream.h |  2 +-
 streams/src/brownian_stream.cpp                   | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/streams/include/roughpy/streams/brownian_stream.h b/streams/include/roughpy/streams/brownian_stream.h
index 3e306b4..e200321 100644
--- a/streams/include/roughpy/streams/brownian_stream.h
+++ b/streams/include/roughpy/streams/brownian_stream.h
@@ -47,7 +47,7 @@ class ROUGHPY_STREAMS_EXPORT BrownianStream : public DynamicallyConstructedStrea
 
     RPY_NO_DISCARD
     algebra::Lie gaussian_increment(const algebra::Context& ctx,
-                                    param_t length) const;
+                                    param_t variance) const;
 
 protected:
     RPY_NO_DISCARD
diff --git a/streams/src/brownian_stream.cpp b/streams/src/brownian_stream.cpp
index 7769afd..02f3372 100644
--- a/streams/src/brownian_stream.cpp
+++ b/streams/src/brownian_stream.cpp
@@ -35,18 +35,20 @@
 
 #include <cereal/types/vector.hpp>
 
+#include <cmath>
+
 using namespace rpy;
 using namespace rpy::streams;
 
 algebra::Lie BrownianStream::gaussian_increment(
         const algebra::Context& ctx,
-        param_t length
+        param_t variance
 ) const
 {
     const auto& md = metadata();
     scalars::KeyScalarArray incr(p_generator->normal_random(
             scalars::Scalar(0.),
-            scalars::Scalar(length),
+            scalars::Scalar(std::sqrt(variance)),
             md.width
     ));
     return ctx.construct_lie({std::move(incr), md.cached_vector_type});
@@ -69,9 +71,11 @@ pair<algebra::Lie, algebra::Lie> BrownianStream::compute_child_lie_increments(
     const auto mean
             = parent_value.smul(scalars::Scalar(md.data_scalar_type, 1, 2));
 
-    auto length = ldexp(0.5, left_di.power());
+    // Given the increment over the parent, the increment over either half is
+    // normal with variance equal to half of the length of the half.
+    const param_t variance = std::ldexp(0.5, -left_di.power());
 
-    const auto perturbation = gaussian_increment(*md.default_context, length);
+    const auto perturbation = gaussian_increment(*md.default_context, variance);
     return {mean.add(perturbation), mean.sub(perturbation)};
 }
 DynamicallyConstructedStream::Lie BrownianStream::make_new_root_increment(
-- 
2.43.0


From e47b1ae887a8496a9c523d748b88c6999c92e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:24 +0000
Subject: [PATCH 55/57] fix: refining a dynamically constructed increment lost
 the halves already computed

---
 .../src/dynamically_constructed_stream.cpp    | 55 +++++--------------
 1 file changed, 13 insertions(+), 42 deletions(-)

diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index d55e045..673ea35 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -47,51 +47,22 @@ void streams::DynamicallyConstructedStream::refine_accuracy(
     DynamicallyConstructedStream::data_increment increment,
     resolution_t desired) const
 {
-    RPY_DBG_ASSERT(increment->first.power() < desired);
-    //
-    //    // get all the intervals in the tree "below" increment->first
-    //    auto range = m_data_tree.equal_range(increment->first);
-    //
-    //    // update all the leaves below until we reach the desired accuracy
-    //    while (range.first != range.second) {
-    //        if (range.first->second.accuracy() >= desired) {
-    //            // Do nothing, but advance until after this interval
-    //            DyadicInterval val(range.first->first);
-    //            ++val;
-    //
-    //            for (; range.first->first < val; ++range.first) {}
-    //        } else if (DataIncrement::is_leaf(range.first)) {
-    //            // If we're at depth and have a leaf, then
-    //            // divide and refine down.
-    //            DyadicInterval val(range.first->first);
-    //            val.shrink_interval_left();
-    //            range.first = insert_children_and_refine(range.first, val);
-    //        } else {
-    //            // If we're not a leaf, then continue down the tree until
-    //            // we reach a leaf.
-    //            ++range.first;
-    //        }
-    //    }
-    auto [leaf_above, end] = m_data_tree.equal_range(increment->first);
-
-    for (; leaf_above != end && leaf_above->first.power() < desired; ++leaf_above) {
-        if (!DataIncrement::is_leaf(leaf_above)) { continue; }
-
-        DyadicInterval refined_inc(increment->first);
-        DyadicInterval refined_end(increment->first);
-        refined_inc.shrink_interval_left(desired - increment->first.power());
-        ++refined_end;
-        refined_end.shrink_interval_left(desired - increment->first.power());
+    if (increment->second.accuracy() >= desired) { return; }
 
-        for (; refined_inc < refined_end; ++(++refined_inc)) {
-            while (leaf_above->first.contains_dyadic(refined_inc)
-                && !dyadic_equals(leaf_above->first, refined_inc)) {
-                leaf_above = insert_children_and_refine(leaf_above, refined_inc);
-            }
+    DyadicInterval left_half(increment->first);
+    left_half.shrink_interval_left();
 
-            update_parents(leaf_above);
-        }
+    if (DataIncrement::is_leaf(increment)) {
+        insert_children_and_refine(increment, left_half);
     }
+
+    // Refine both halves, and then recompute the value of this increment (and
+    // of those above) from the refined halves.
+    auto left = m_data_tree.find(left_half);
+    RPY_DBG_ASSERT(left != m_data_tree.end());
+    refine_accuracy(left, desired);
+    refine_accuracy(left->second.sibling(), desired);
+    update_parents(left);
 }
 
 DynamicallyConstructedStream::data_increment
-- 
2.43.0


From e4211a42e1a16232804a73fc80698ba5230495d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:45 +0000
Subject: [PATCH 56/57] fix: root of a dynamically constructed stream did not
 agree with its two halves

---
 streams/src/dynamically_constructed_stream.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index 673ea35..f98e5b4 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -110,10 +110,9 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
             neighbour.power(),
             old_root);
         root = insert_node(new_root,
-                           make_new_root_increment(new_root),
-                           old_root->first.power(),
+                           Lie(),
+                           new_root.power(),
                            old_root);
-        update_parent_accuracy(old_root);
 
         RPY_DBG_ASSERT(old_root != it_neighbour);
         RPY_DBG_ASSERT(it_neighbour != root);
@@ -122,6 +121,9 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
         old_root->second.sibling(it_neighbour);
         it_neighbour->second.parent(root);
         it_neighbour->second.sibling(old_root);
+
+        // The increment over the new root is that of its two halves.
+        update_parents(old_root);
     }
     return root;
 }
@@ -191,11 +193,10 @@ void streams::DynamicallyConstructedStream::update_parents(
     //        top = update_parent_accuracy(below);
     //    }
     const auto& md = metadata();
-    auto root = m_data_tree.begin();
+    const auto dtend = m_data_tree.end();
 
-    while (current != root) {
-        auto parent = current->second.parent();
-        RPY_DBG_ASSERT(parent != m_data_tree.end());
+    for (auto parent = current->second.parent(); parent != dtend;
+         parent = current->second.parent()) {
         auto sibling = current->second.sibling();
 
         auto accuracy_available = std::min(current->second.accuracy(),
-- 
2.43.0


From 424eec2cec9276bdd6cf5b0a1f81a23733c315f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:45 +0000
Subject: [PATCH 57/57] fix: queries of a dynamically constructed stream on the
 other side of zero never returned

---
 .../streams/dynamically_constructed_stream.h  |  3 +++
 .../src/dynamically_constructed_stream.cpp    | 21 +++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index c818977..88829fe 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -106,6 +106,9 @@ private:
 
     void refine_accuracy(data_increment increment, resolution_t desired) const;
 
+    RPY_NO_DISCARD
+    data_increment find_root(DyadicInterval di) const;
+
     RPY_NO_DISCARD
     data_increment expand_root_until_contains(data_increment root,
                                               DyadicInterval di) const;
diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index f98e5b4..ddc573b 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -65,6 +65,23 @@ void streams::DynamicallyConstructedStream::refine_accuracy(
     update_parents(left);
 }
 
+DynamicallyConstructedStream::data_increment
+streams::DynamicallyConstructedStream::find_root(DyadicInterval di) const
+{
+    // No dyadic interval contains points on both sides of zero, so there is a
+    // separate root for each side: the first interval in the tree belongs to
+    // the negative side, if there is one, and the last to the other.
+    const auto dtend = m_data_tree.end();
+    if (m_data_tree.empty()) { return dtend; }
+
+    const bool negative = di.inf() < 0;
+    auto root = negative ? m_data_tree.begin() : std::prev(dtend);
+    if ((root->first.inf() < 0) != negative) { return dtend; }
+
+    while (root->second.parent() != dtend) { root = root->second.parent(); }
+    return root;
+}
+
 DynamicallyConstructedStream::data_increment
 streams::DynamicallyConstructedStream::insert_node(
     DynamicallyConstructedStream::DyadicInterval di,
@@ -276,9 +293,9 @@ algebra::Lie DynamicallyConstructedStream::log_signature(
         return found->second.lie();
     }
 
-    auto root = m_data_tree.begin();
+    auto root = find_root(interval);
     if (root == end) {
-        // The tree currently holds no data.
+        // The tree currently holds no data on this side of zero.
         root = insert_node(interval,
                            make_new_root_increment(interval),
                            interval.power(),
-- 
2.43.0

