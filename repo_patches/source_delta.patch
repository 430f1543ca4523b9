From dfdd019ef50808137bf201657a4ec5a83ad4b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 01/70] fix: compare dyadics by value when their powers differ

---
 intervals/src/dyadic.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/intervals/src/dyadic.cpp b/intervals/src/dyadic.cpp
index fbbd00a..cad35c0 100644
--- a/intervals/src/dyadic.cpp
+++ b/intervals/src/dyadic.cpp
@@ -107,8 +107,8 @@ bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul < Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) < rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) < rmul)
+                          : lmul < Dyadic::shift(rmul, lpow - rpow);
 }
 bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -117,8 +117,8 @@ bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul <= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) <= rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) <= rmul)
+                          : lmul <= Dyadic::shift(rmul, lpow - rpow);
 }
 bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -127,8 +127,8 @@ bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul > Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) > rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) > rmul)
+                          : lmul > Dyadic::shift(rmul, lpow - rpow);
 }
 bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
 {
@@ -137,8 +137,8 @@ bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
     auto rmul = rhs.multiplier();
     auto rpow = rhs.power();
 
-    return (lpow <= rpow) ? (lmul >= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) >= rmul;
+    return (lpow <= rpow) ? (Dyadic::shift(lmul, rpow - lpow) >= rmul)
+                          : lmul >= Dyadic::shift(rmul, lpow - rpow);
 }
 std::ostream& rpy::intervals::operator<<(std::ostream& os, const Dyadic& arg)
 {
-- 
2.43.0


From d7be1fff32061f65407a1eb74f9370dfb1964aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 02/70] fix: keep intermediate points when merging separated
 partitions

---
 intervals/src/partition.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index 0537640..169dd26 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -144,22 +144,24 @@ Partition Partition::merge(const Partition& other) const
     Partition result(
             RealInterval(std::min(linf, rinf), std::max(lsup, rsup), type()));
 
-    if (lsup < rinf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(lsup);
-        }
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rinf);
-        }
-    } else if (rsup < linf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rsup);
+    if (lsup < rinf || rsup < linf) {
+        // The two partitions are separated by a gap: everything that belongs to
+        // the left-most comes before everything that belongs to the right-most.
+        const Partition& left = (lsup < rinf) ? *this : other;
+        const Partition& right = (lsup < rinf) ? other : *this;
+        auto& points = result.m_intermediate_points;
+
+        points.reserve(left.size() + right.size());
+        points.insert(points.end(), left.m_intermediate_points.begin(),
+                      left.m_intermediate_points.end());
+        if RPY_LIKELY (left.inf() != left.sup()) {
+            points.push_back(left.sup());
         }
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(linf);
+        if RPY_LIKELY (right.inf() != right.sup()) {
+            points.push_back(right.inf());
         }
+        points.insert(points.end(), right.m_intermediate_points.begin(),
+                      right.m_intermediate_points.end());
     } else {
 
         // At worst, the result has size size() + other.size();
-- 
2.43.0


From 81c16d575924cab5cf0e0ba1243093a2c06ca299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:40 +0000
Subject: [PATCH 03/70] fix: keep the interval type in DyadicInterval expansion
 and alignment

---
 intervals/src/dyadic_interval.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intervals/src/dyadic_interval.cpp b/intervals/src/dyadic_interval.cpp
index 741a270..93355eb 100644
--- a/intervals/src/dyadic_interval.cpp
+++ b/intervals/src/dyadic_interval.cpp
@@ -130,7 +130,7 @@ DyadicInterval& DyadicInterval::shrink_interval_left(Dyadic::power_t arg)
 }
 DyadicInterval& DyadicInterval::expand_interval(Dyadic::power_t arg)
 {
-    *this = DyadicInterval{dincluded_end(), m_power - arg};
+    *this = DyadicInterval{dincluded_end(), m_power - arg, m_interval_type};
     return *this;
 }
 bool DyadicInterval::contains_dyadic(const DyadicInterval& other) const
@@ -153,7 +153,8 @@ bool DyadicInterval::aligned() const
     DyadicInterval parent{static_cast<const Dyadic&>(*this), m_power - 1,
                           m_interval_type};
     return operator==(
-            DyadicInterval{static_cast<const Dyadic&>(parent), m_power});
+            DyadicInterval{static_cast<const Dyadic&>(parent), m_power,
+                           m_interval_type});
 }
 DyadicInterval& DyadicInterval::flip_interval()
 {
-- 
2.43.0


From 21d416a540a2f49f96e6e2961f30329ac5fe24b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:44 +0000
Subject: [PATCH 04/70] fix: make segment callable from Python predicates

---
 roughpy/src/intervals/segmentation.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/intervals/segmentation.cpp b/roughpy/src/intervals/segmentation.cpp
index bc03817..2de6f4f 100644
--- a/roughpy/src/intervals/segmentation.cpp
+++ b/roughpy/src/intervals/segmentation.cpp
@@ -41,6 +41,22 @@ static const char* SEGMENT_DOC
 void python::init_segmentation(py::module_& m)
 {
 
-    m.def("segment", &segment, "interval"_a, "predicate"_a, "max_depth"_a,
-          SEGMENT_DOC);
+    /*
+     * Interval is abstract, so it cannot be passed to a Python callable by
+     * copy. Hand the predicate a RealInterval instead.
+     */
+    m.def(
+            "segment",
+            [](const Interval& interval, const py::function& predicate,
+               dyadic_depth_t max_depth) {
+                return segment(
+                        interval,
+                        [&predicate](const Interval& arg) {
+                            return predicate(RealInterval(arg)).cast<bool>();
+                        },
+                        max_depth
+                );
+            },
+            "interval"_a, "predicate"_a, "max_depth"_a, SEGMENT_DOC
+    );
 }
-- 
2.43.0


From 2b26b9136855ba3d4d7577cd9b1ba673e1003878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 05/70] fix: keep segmentation inside the interval being
 segmented

---
 intervals/src/scaled_predicate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intervals/src/scaled_predicate.cpp b/intervals/src/scaled_predicate.cpp
index 0f134d3..3c9009c 100644
--- a/intervals/src/scaled_predicate.cpp
+++ b/intervals/src/scaled_predicate.cpp
@@ -41,5 +41,7 @@ RealInterval ScaledPredicate::unscale(const Interval& interval) const
 }
 bool ScaledPredicate::operator()(const Interval& interval) const
 {
+    // The search must not leave the interval that is being segmented
+    if (interval.inf() < 0.0 || interval.sup() > 1.0) { return false; }
     return m_func(unscale(interval));
 }
-- 
2.43.0


From efef3fcf37196ca447515ca3859c58c998073241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:25 +0000
Subject: [PATCH 06/70] fix: use the overlapped fraction of partially covered
 pieces

---
 streams/src/piecewise_abelian_stream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streams/src/piecewise_abelian_stream.cpp b/streams/src/piecewise_abelian_stream.cpp
index 39ecf94..4846168 100644
--- a/streams/src/piecewise_abelian_stream.cpp
+++ b/streams/src/piecewise_abelian_stream.cpp
@@ -173,14 +173,19 @@ algebra::Lie PiecewiseAbelianStream::log_signature_impl(
         } else if (pa >= a && pb <= b) {
             // [-----[p-----p)---)
             lies.push_back(piece.second);
-        } else if (pb <= pb) {
+        } else if (pb <= b) {
             // [p---[---p)-----)
             lies.push_back(piece.second.smul(to_multiplier_upper(piece.first, a)
             ));
-        } else if (pa >= a && pb > b) {
+        } else if (pa >= a) {
             // [---[p----)----p)
             lies.push_back(piece.second.smul(to_multiplier_lower(piece.first, b)
             ));
+        } else {
+            // [p---[-----)---p)
+            lies.push_back(
+                    piece.second.smul(scalars::Scalar((b - a) / (pb - pa)))
+            );
         }
     }
 
-- 
2.43.0


From b56f43d37a342ad8b9ffdeec7f5e45ebc45ca278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 07/70] fix: do not mix contexts in the dyadic cache of a
 stream

---
 streams/src/dyadic_caching_layer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index a35b02b..e19ba46 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -95,6 +95,11 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
     const auto stream_resolution = metadata().default_resolution;
 
     if (interval.power() == stream_resolution) {
+        // The cache only holds values computed with the default context.
+        if (&ctx != metadata().default_context.get()) {
+            return log_signature_impl(interval, ctx);
+        }
+
         std::lock_guard<std::recursive_mutex> access(m_compute_lock);
 
         auto& cached = m_cache[interval];
-- 
2.43.0


From 6dbd67d32909133a989007ace8b06d51cfb126e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:30 +0000
Subject: [PATCH 08/70] fix: give every cached stream its own cache id

---
 .../include/roughpy/streams/dyadic_caching_layer.h   |  5 ++++-
 streams/src/dyadic_caching_layer.cpp                 | 12 +++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/streams/include/roughpy/streams/dyadic_caching_layer.h b/streams/include/roughpy/streams/dyadic_caching_layer.h
index 7b4ba6a..371aaec 100644
--- a/streams/include/roughpy/streams/dyadic_caching_layer.h
+++ b/streams/include/roughpy/streams/dyadic_caching_layer.h
@@ -63,7 +63,10 @@ class ROUGHPY_STREAMS_EXPORT DyadicCachingLayer : public StreamInterface
     mutable std::map<intervals::DyadicInterval, algebra::Lie> m_cache;
     mutable std::recursive_mutex m_compute_lock;
 
-    uuids::uuid m_cache_id;
+    uuids::uuid m_cache_id{generate_cache_id()};
+
+    RPY_NO_DISCARD
+    static uuids::uuid generate_cache_id();
 
 public:
     using StreamInterface::StreamInterface;
diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index e19ba46..12b95b7 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -54,9 +54,13 @@
 using namespace rpy;
 using namespace rpy::streams;
 
+uuids::uuid DyadicCachingLayer::generate_cache_id()
+{
+    return uuids::random_generator()();
+}
+
 DyadicCachingLayer::DyadicCachingLayer()
-    : StreamInterface(), m_cache(), m_compute_lock(),
-          m_cache_id(uuids::random_generator()())
+    : StreamInterface(), m_cache(), m_compute_lock()
 {
 //    auto path = get_config().stream_cache_dir() / to_string(m_cache_id);
 //    {
@@ -67,7 +71,8 @@ DyadicCachingLayer::DyadicCachingLayer()
 }
 
 DyadicCachingLayer::DyadicCachingLayer(DyadicCachingLayer&& other) noexcept
-    : StreamInterface(static_cast<StreamInterface&&>(other))
+    : StreamInterface(static_cast<StreamInterface&&>(other)),
+      m_cache_id(other.m_cache_id)
 {
     std::lock_guard<std::recursive_mutex> access(other.m_compute_lock);
     m_cache = std::move(other.m_cache);
@@ -79,6 +84,7 @@ DyadicCachingLayer::operator=(DyadicCachingLayer&& other) noexcept
         std::lock_guard<std::recursive_mutex> this_access(m_compute_lock);
         std::lock_guard<std::recursive_mutex> that_access(other.m_compute_lock);
         m_cache = std::move(other.m_cache);
+        m_cache_id = other.m_cache_id;
         StreamInterface::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From c1971c8b5e50051d7d03d6d7385e767cb23f1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:57 +0000
Subject: [PATCH 09/70] fix: make raw byte form of rationals and polynomials
 reversible

---
 scalars/src/scalar/raw_bytes.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/scalars/src/scalar/raw_bytes.cpp b/scalars/src/scalar/raw_bytes.cpp
index 99a082d..57e57ca 100644
--- a/scalars/src/scalar/raw_bytes.cpp
+++ b/scalars/src/scalar/raw_bytes.cpp
@@ -44,9 +44,9 @@ void to_raw_bytes_impl_helper(std::vector<byte>& out,
     auto it = out.begin() + curr_size;
     *it = (helper.is_negative()) ? 1 : 0;
     ++it;
-    uint64_t limbs_size = helper.size();
+    uint64_t limbs_size = helper.nbytes();
     it = std::copy_n(reinterpret_cast<const byte*>(&limbs_size),
-                     sizeof(uint8_t),
+                     sizeof(uint64_t),
                      it);
     std::copy_n(reinterpret_cast<const byte*>(helper.limbs()), limbs_size, it);
 }
@@ -58,7 +58,7 @@ void to_raw_bytes_impl(std::vector<byte>& out,
 {
     out.reserve(out.size() + count * sizeof(rational_scalar_type));
     for (dimn_t i = 0; i < count; ++i) {
-        const auto& backend = data->backend();
+        const auto& backend = data[i].backend();
 #if RPY_USING_GMP
         using helper_t = scalars::dtl::MPIntegerSerializationHelper<
             remove_pointer_t
@@ -162,7 +162,7 @@ dimn_t from_raw_bytes_impl(
 {
     auto advance = 1 + sizeof(uint64_t);
     const auto* src = bytes.data();
-    RPY_CHECK(bytes.size() > advance);
+    RPY_CHECK(bytes.size() >= advance);
 
     auto is_negative = static_cast<bool>(*(src++));
     uint64_t nbytes_large = 0;
@@ -170,7 +170,7 @@ dimn_t from_raw_bytes_impl(
     src += sizeof(uint64_t);
     auto nbytes = static_cast<dimn_t>(nbytes_large);
     advance += nbytes;
-    RPY_CHECK(bytes.size() > advance);
+    RPY_CHECK(bytes.size() >= advance);
 
     dimn_t n_limbs = 0;
     if (nbytes > 0) {
@@ -211,6 +211,7 @@ void from_raw_bytes_impl(rational_scalar_type* dst,
         auto advance = from_raw_bytes_impl(num_helper, {src, remaining});
         src += advance;
         remaining -= advance;
+        offset += advance;
         advance = from_raw_bytes_impl(den_helper, {src, remaining});
         src += advance;
         remaining -= advance;
@@ -242,12 +243,12 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
 {
     constexpr auto sizeof_idep = sizeof(typename indeterminate_type::packed_type) + sizeof(typename indeterminate_type::integral_type);
     constexpr auto sizeof_term = sizeof_idep + sizeof(lal::deg_t);
-    RPY_CHECK(bytes.size() > sizeof(uint64_t));
+    RPY_CHECK(bytes.size() >= sizeof(uint64_t));
     uint64_t size_large = 0;
     from_raw_bytes_impl(&size_large, 1, bytes);
     auto size = static_cast<dimn_t>(size_large);
 
-    RPY_CHECK(bytes.size() > size_large*sizeof_term + sizeof(uint64_t));
+    RPY_CHECK(bytes.size() >= size_large*sizeof_term + sizeof(uint64_t));
     const auto* src = bytes.data() + sizeof(uint64_t);
 
     indeterminate_type tmp_idep(0, 0);
@@ -259,7 +260,7 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
         src += sizeof_term;
     }
 
-    return size + sizeof(uint64_t);
+    return size * sizeof_term + sizeof(uint64_t);
 }
 
 dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte> bytes)
@@ -279,6 +280,7 @@ dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte>
     dimn_t remaining = bytes.size() - sizeof(uint64_t);
 
     for (dimn_t i=0; i<count; ++i) {
+        tmp_key = monomial();
         advance = from_raw_bytes_impl(tmp_key, {src, remaining});
         from_raw_bytes_impl(&tmp_value, 1, {src + advance, remaining-advance}, &offset);
         advance += offset;
-- 
2.43.0


From 6c9882bb7aef0daab292f89815c3b536d22da6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 10/70] fix: reload sparse algebra elements from their archives

---
 .../include/roughpy/algebra/algebra_base.h    |  6 ++++++
 .../roughpy/algebra/algebra_base_impl.h       | 15 ++++++++++-----
 algebra/src/algebra_base.cpp                  | 19 +++++++++++++++++++
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_base.h b/algebra/include/roughpy/algebra/algebra_base.h
index 0a2c9f8..dc595f4 100644
--- a/algebra/include/roughpy/algebra/algebra_base.h
+++ b/algebra/include/roughpy/algebra/algebra_base.h
@@ -336,6 +336,12 @@ UnspecifiedAlgebraType construct_dense_algebra(
         AlgebraType atype
 );
 
+ROUGHPY_ALGEBRA_EXPORT
+UnspecifiedAlgebraType construct_sparse_algebra(
+        scalars::KeyScalarArray&& data, const context_pointer& ctx,
+        AlgebraType atype
+);
+
 ROUGHPY_ALGEBRA_EXPORT void check_contexts_compatible(
         const context_pointer& ref, const context_pointer& other
 );
diff --git a/algebra/include/roughpy/algebra/algebra_base_impl.h b/algebra/include/roughpy/algebra/algebra_base_impl.h
index 54f400e..dcd228b 100644
--- a/algebra/include/roughpy/algebra/algebra_base_impl.h
+++ b/algebra/include/roughpy/algebra/algebra_base_impl.h
@@ -799,18 +799,23 @@ void AlgebraBase<Interface, Derived>::load(
                 dtl::construct_dense_algebra(std::move(tmp), ctx, atype)
         );
     } else {
-        p_impl = dtl::downcast_interface_ptr<Interface>(
-                dtl::try_create_new_empty(ctx, atype)
-        );
-
         serial::size_type size;
         RPY_SERIAL_SERIALIZE_SIZE(size);
 
+        scalars::KeyScalarArray tmp(ctx->ctype(), static_cast<dimn_t>(size));
+        tmp.allocate_keys();
+        auto* keys = tmp.keys();
+
         for (serial::size_type i = 0; i < size; ++i) {
             std::pair<typename Interface::key_type, scalars::Scalar> val;
             RPY_SERIAL_SERIALIZE_BARE(val);
-            p_impl->get_mut(val.first) = val.second;
+            keys[i] = val.first;
+            tmp[i] = val.second;
         }
+
+        p_impl = dtl::downcast_interface_ptr<Interface>(
+                dtl::construct_sparse_algebra(std::move(tmp), ctx, atype)
+        );
     }
 }
 
diff --git a/algebra/src/algebra_base.cpp b/algebra/src/algebra_base.cpp
index c084b97..efae4d7 100644
--- a/algebra/src/algebra_base.cpp
+++ b/algebra/src/algebra_base.cpp
@@ -84,6 +84,25 @@ UnspecifiedAlgebraType algebra::dtl::construct_dense_algebra(
     return ctx->construct(atype, cdata);
 }
 
+UnspecifiedAlgebraType algebra::dtl::construct_sparse_algebra(
+        scalars::KeyScalarArray&& data, const context_pointer& ctx,
+        AlgebraType atype
+)
+{
+    // Sparse construction data is labelled by index in the basis order, which
+    // for the Lie basis is not the same thing as the key.
+    if (atype == AlgebraType::Lie && !data.empty()) {
+        const auto basis = ctx->get_lie_basis();
+        auto* keys = data.keys();
+        for (dimn_t i = 0; i < data.size(); ++i) {
+            keys[i] = static_cast<key_type>(basis.key_to_index(keys[i]));
+        }
+    }
+
+    VectorConstructionData cdata{std::move(data), VectorType::Sparse};
+    return ctx->construct(atype, cdata);
+}
+
 void rpy::algebra::dtl::check_contexts_compatible(
         const context_pointer& ref, const context_pointer& other
 )
-- 
2.43.0


From 105578820cc75db23e6170e1c91f025b0398bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 11/70] fix: reload empty scalar arrays from their archives

---
 scalars/src/scalar_array.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 737225b..e4c6c97 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -481,6 +481,11 @@ void ScalarArray::from_raw_bytes(
 {
     RPY_CHECK(is_null());
     auto tp_o = scalar_type_of(info);
+    if (count == 0) {
+        // There is nothing to allocate or to read
+        *this = tp_o ? ScalarArray(*tp_o) : ScalarArray(info);
+        return;
+    }
     if (tp_o) {
         *this = (*tp_o)->allocate(count);
     } else {
-- 
2.43.0


From 3f965f12668035cc3996684ee2d5f9ead1ca5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:02 +0000
Subject: [PATCH 12/70] fix: report stream pickling failures as Python
 exceptions

---
 roughpy/src/streams/stream.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index 370bdaf..5d32129 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -501,9 +501,13 @@ stream___getnewargs_ex__(PyObject* self, PyObject* RPY_UNUSED_VAR)
     PyObject* data;
 
     std::stringstream ss;
-    {
+    try {
         rpy::archives::BinaryOutputArchive oar(ss);
         oar(reinterpret_cast<python::RPyStream*>(self)->m_data);
+    } catch (const std::exception& exc) {
+        // Not every kind of stream can be serialized
+        PyErr_SetString(PyExc_RuntimeError, exc.what());
+        return nullptr;
     }
 
     auto s = ss.str();
@@ -636,7 +640,7 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
 
         // Ensure that the stream object is initialised in the data slot.
         construct_inplace<streams::Stream>(&self->m_data);
-        {
+        try {
             std::string raw(
                     PyByteArray_AS_STRING(pybuff),
                     PyByteArray_GET_SIZE(pybuff)
@@ -644,6 +648,10 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
             std::stringstream ss(raw);
             rpy::archives::BinaryInputArchive iar(ss);
             iar(self->m_data);
+        } catch (const std::exception& exc) {
+            Py_DECREF(reinterpret_cast<PyObject*>(self));
+            PyErr_SetString(PyExc_RuntimeError, exc.what());
+            return nullptr;
         }
 
         return reinterpret_cast<PyObject*>(self);
-- 
2.43.0


From 19bbfcad04b0a11fdb0da05815365729462a3d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 13/70] fix: do not look for a dyadic interval spanning zero in
 tick streams

---
 streams/src/tick_stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streams/src/tick_stream.cpp b/streams/src/tick_stream.cpp
index ebd22ce..8bb6de5 100644
--- a/streams/src/tick_stream.cpp
+++ b/streams/src/tick_stream.cpp
@@ -79,10 +79,12 @@ streams::TickStream::smallest_dyadic_containing_all_events(
 optional<streams::TickStream::DyadicInterval>
 streams::TickStream::smallest_dyadic_containing_all_negative_events() const
 {
+    // An event at zero belongs to the interval starting at zero if intervals
+    // are clopen, and to the interval ending at zero otherwise.
     auto zeu = (metadata().interval_type == intervals::IntervalType::Clopen)
-            ? std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
+            ? std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0))
-            : std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
+            : std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0));
 
     if (zeu != m_granular_times.begin()) {
-- 
2.43.0


From 679c1c4913f3600ac903b1a635ef23b7cc08c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 14/70] fix: adjoint of left multiplication with sparse
 operands

---
 vendored/libalgebra_lite/free_tensor.h  | 6 ++++--
 vendored/libalgebra_lite/tensor_basis.h | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 8153b65..972707c 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -971,7 +971,7 @@ private:
             const auto& val = pr.value();
             result.inplace_binary_op(
                     shift_down(arg, pr.key()),
-                    [&val](const s_t& l, const s_t& r) { return l + val * r; }
+                    [&val](s_t& l, const s_t& r) { l += val * r; }
             );
         }
     }
@@ -1000,7 +1000,9 @@ private:
                 auto suffix_degree = degree - prefix_degree;
                 auto* optr = result.as_mut_ptr()
                         + basis.start_of_degree(suffix_degree);
-                const auto* iptr = arg.as_ptr() + index * powers[suffix_degree];
+                const auto* iptr = arg.as_ptr()
+                        + basis.start_of_degree(degree)
+                        + index * powers[suffix_degree];
 
                 for (dimn_t i = 0; i < powers[suffix_degree]; ++i) {
                     optr[i] += value * iptr[i];
diff --git a/vendored/libalgebra_lite/tensor_basis.h b/vendored/libalgebra_lite/tensor_basis.h
index ca4d8e6..4491c85 100644
--- a/vendored/libalgebra_lite/tensor_basis.h
+++ b/vendored/libalgebra_lite/tensor_basis.h
@@ -61,7 +61,7 @@ public:
         auto tmp = arg.index();
         auto letter = tmp / m_powers[degree - 1];
         return {key_type(1, letter),
-                key_type(degree - 1, tmp - letter * m_width)};
+                key_type(degree - 1, tmp - letter * m_powers[degree - 1])};
     }
 
     std::string key_to_string(const key_type&) const;
-- 
2.43.0


From 9e9fb6f681eb8977dfaf8e91bec4a54206b82751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:57 +0000
Subject: [PATCH 15/70] fix: answer key queries on tensor and Lie bases for the
 given key

---
 roughpy/src/algebra/basis.cpp      | 17 ++++++++++++++---
 roughpy/src/algebra/lie_key.cpp    | 14 +++++++++-----
 roughpy/src/algebra/tensor_key.cpp | 26 +++++++++++---------------
 3 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/roughpy/src/algebra/basis.cpp b/roughpy/src/algebra/basis.cpp
index dc3e301..2ca67f6 100644
--- a/roughpy/src/algebra/basis.cpp
+++ b/roughpy/src/algebra/basis.cpp
@@ -71,8 +71,8 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
     );
     basis.def(
             "key_to_index",
-            [](const T& self, const python::PyLieKey& key) {
-                return self.key_to_index(0);
+            [](const T& self, const K& key) {
+                return self.key_to_index(static_cast<key_type>(key));
             },
             "key"_a,
             "Takes a :py:attr:`key` and returns an integer corresponding to the index."
@@ -80,7 +80,18 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
 
     basis.def(
             "parents",
-            [](const T& self, const K& key) { return self.parents(0); },
+            [](const T& self, const K& key) {
+                const auto internal_key = static_cast<key_type>(key);
+                if (is_same_v<K, python::PyLieKey>
+                    && self.letter(internal_key)) {
+                    // Letters of a Lie basis have no left parent
+                    return py::make_tuple(py::none(), key);
+                }
+                const auto parents = self.parents(internal_key);
+                return py::make_tuple(
+                        K(self, *parents.first), K(self, *parents.second)
+                );
+            },
             "key"_a,
             "Splits off the first letter and returns the letter and the remainder of the word."
     );
diff --git a/roughpy/src/algebra/lie_key.cpp b/roughpy/src/algebra/lie_key.cpp
index 12a0a8e..2cd8ecb 100644
--- a/roughpy/src/algebra/lie_key.cpp
+++ b/roughpy/src/algebra/lie_key.cpp
@@ -484,8 +484,10 @@ optional<key_type> to_internal_key_recurse(const algebra::LieBasis& basis, const
 
     optional<key_type> result;
 
-    auto left = to_internal_key_recurse(basis, base + static_cast<dimn_t>(*base));
-    auto right = to_internal_key_recurse(basis, ++base);
+    // An offset points to the left element of a pair further down the tree.
+    const auto* pair = base + static_cast<dimn_t>(*base);
+    auto left = to_internal_key_recurse(basis, pair);
+    auto right = to_internal_key_recurse(basis, pair + 1);
 
     if (left && right) {
         result = basis.child(*left, *right);
@@ -502,10 +504,12 @@ python::PyLieKey::operator key_type() const noexcept {
         return static_cast<key_type>(m_data[0]);
     }
 
-    auto combined = to_internal_key_recurse(m_basis, m_data.data());
+    auto left = to_internal_key_recurse(m_basis, m_data.data());
+    auto right = to_internal_key_recurse(m_basis, m_data.data() + 1);
 
-    if (combined) {
-        return *combined;
+    if (left && right) {
+        auto combined = m_basis.child(*left, *right);
+        if (combined) { return *combined; }
     }
 
     return 0;
diff --git a/roughpy/src/algebra/tensor_key.cpp b/roughpy/src/algebra/tensor_key.cpp
index 26e5af2..ff06a8b 100644
--- a/roughpy/src/algebra/tensor_key.cpp
+++ b/roughpy/src/algebra/tensor_key.cpp
@@ -82,27 +82,23 @@ python::PyTensorKey python::PyTensorKey::rparent() const
 pair<python::PyTensorKey, python::PyTensorKey>
 python::PyTensorKey::split_n(deg_t n) const
 {
-    if (m_key == 0) {
-        return std::make_pair(PyTensorKey(m_basis, 0), PyTensorKey(m_basis, 0));
-    }
+    const auto letters = to_letters();
+    const auto degree = static_cast<deg_t>(letters.size());
     if (n <= 0) {
-        return std::make_pair(*this,PyTensorKey(m_basis, 0));
+        return std::make_pair(*this, PyTensorKey(m_basis, 0));
     }
-    if (n >= m_basis.depth()) {
+    if (n >= degree) {
         return std::make_pair(PyTensorKey(m_basis, 0), *this);
     }
 
-    auto width = m_basis.width();
-    //TODO: needs better implementation
-    key_type shift = 1;
-    for (deg_t i=0; i<n; ++i) {
-        shift *= width;
-    }
-    auto left = (m_key - 1) / shift;
-    auto right = 1 + ((m_key - 1) % shift);
-
-    return std::make_pair(PyTensorKey(m_basis, left), PyTensorKey(m_basis, right));
+    // The right hand key takes the last n letters
+    const auto mid = letters.begin() + (degree - n);
+    std::vector<let_t> left(letters.begin(), mid);
+    std::vector<let_t> right(mid, letters.end());
 
+    return std::make_pair(
+            PyTensorKey(m_basis, left), PyTensorKey(m_basis, right)
+    );
 }
 bool python::PyTensorKey::is_letter() const
 {
-- 
2.43.0


From d3013c3e9cfec0097586f4d6c011544de7763974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:21 +0000
Subject: [PATCH 16/70] fix: use the variant of categorical ticks

---
 roughpy/src/streams/tick_stream.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/streams/tick_stream.cpp b/roughpy/src/streams/tick_stream.cpp
index 827c9e4..126bf7d 100644
--- a/roughpy/src/streams/tick_stream.cpp
+++ b/roughpy/src/streams/tick_stream.cpp
@@ -162,7 +162,12 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
         auto lie_elt = pmd.ctx->zero_lie(meta.cached_vector_type);
 
         auto channel_it = schema.find(tick.label);
-        RPY_DBG_ASSERT(channel_it != schema.end());
+        if (channel_it == schema.end()) {
+            RPY_THROW(
+                    py::value_error,
+                    "tick label '" + tick.label + "' is not in the schema"
+            );
+        }
         auto& channel = channel_it->second;
         auto idx = schema.label_to_stream_dim(tick.label);
         auto key = schema.label_to_lie_key(tick.label);
@@ -208,7 +213,11 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
                 }
             }
             case streams::ChannelType::Categorical: {
-                lie_elt[key] += scalars::Scalar(1);
+                // Each variant of a categorical channel is a dimension
+                const auto variant_key = schema.label_to_lie_key(
+                        tick.label + ':' + tick.data.cast<string>()
+                );
+                lie_elt[variant_key] += scalars::Scalar(pmd.scalar_type, 1);
                 break;
             }
             case streams::ChannelType::Lie:
-- 
2.43.0


From 04c1c14f4856a85efaab23f02f870a310760bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:13 +0000
Subject: [PATCH 17/70] fix: keep the stream depth when only a scalar type is
 requested

---
 roughpy/src/streams/signature_arguments.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/signature_arguments.cpp b/roughpy/src/streams/signature_arguments.cpp
index 1e34f1b..efbcb97 100644
--- a/roughpy/src/streams/signature_arguments.cpp
+++ b/roughpy/src/streams/signature_arguments.cpp
@@ -197,7 +197,7 @@ int python::parse_sig_args(
             } else if (Py_TYPE(dtype) == &PyUnicode_Type) {
                 const auto* dtype_str = PyUnicode_AsUTF8(dtype);
                 const auto ctype_o = scalars::get_type(dtype_str);
-                if (ctype_o) {
+                if (!ctype_o) {
                     PyErr_SetString(
                             PyExc_TypeError,
                             "unrecognised scalar type id"
@@ -229,6 +229,9 @@ int python::parse_sig_args(
             }
         }
 
+        // Only the scalar type was given, so the depth is unchanged.
+        if (depth == 0) { depth = smeta->default_context->depth(); }
+
         sigargs->ctx = smeta->default_context->get_alike(depth, ctype);
     } else {
         // a provided context always takes priority over other configurations.
-- 
2.43.0


From dea79e89db66730abe7512a4d101822cc7bfa460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 18/70] fix: convert scalar types when truncating data in a
 context

---
 algebra/src/lite_context.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5ca211f..61e979d 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -457,7 +457,7 @@ OutType LiteContext<Coefficients>::construct_impl(
     const auto* this_type = ctype();
     if (data.data.type() != this_type) {
         tmp.resize(data.data.size());
-        scalars::ScalarArray tmp_sa(this_type, tmp.data(), size);
+        scalars::ScalarArray tmp_sa(this_type, tmp.data(), tmp.size());
         this_type->convert_copy(tmp_sa, data.data);
         raw_data = tmp;
     } else {
-- 
2.43.0


From a42c1d006e55b007d90685ff3b79cabf1613bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:39 +0000
Subject: [PATCH 19/70] fix: adjoint of left multiplication with empty dense
 operands

---
 vendored/libalgebra_lite/free_tensor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 972707c..a1be193 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -984,6 +984,8 @@ private:
          const dense_vector_base<tensor_basis, coefficient_ring, VSM>& arg,
          const BT<tensor_basis, coefficient_ring>& mul) const
     {
+        if (arg.empty()) { return; }
+
         const auto& basis = result.basis();
         const auto& powers = basis.powers();
 
@@ -1020,6 +1022,8 @@ private:
          const dense_vector_base<tensor_basis, coefficient_ring, BSM>& mul
     ) const
     {
+        if (arg.empty() || mul.empty()) { return; }
+
         const auto& basis = result.basis();
         const auto* sizes = basis.sizes().data();
         const auto* powers = basis.powers().data();
-- 
2.43.0


From c848bb1faee88e33b0b980c11f4bf142851b6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 20/70] fix: read missing coefficients and keep read
 coefficients valid

---
 roughpy/src/algebra/algebra_iterator.cpp | 6 +++++-
 roughpy/src/algebra/free_tensor.cpp      | 7 +++++--
 roughpy/src/algebra/lie.cpp              | 7 +++++--
 roughpy/src/algebra/shuffle_tensor.cpp   | 7 +++++--
 vendored/libalgebra_lite/dense_vector.h  | 4 +++-
 5 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/roughpy/src/algebra/algebra_iterator.cpp b/roughpy/src/algebra/algebra_iterator.cpp
index f553e5f..83693c5 100644
--- a/roughpy/src/algebra/algebra_iterator.cpp
+++ b/roughpy/src/algebra/algebra_iterator.cpp
@@ -53,7 +53,11 @@ static void init_iterator(py::module_& m, const char* iter_name)
     klass.def("key", [](const AlgebraIteratorItem<Algebra>& item) {
         return KeyType(item.basis(), item.key());
     });
-    klass.def("value", &AlgebraIteratorItem<Algebra>::value);
+    klass.def("value", [](const AlgebraIteratorItem<Algebra>& item) {
+        // the value must not refer to the storage of the algebra element
+        const scalars::Scalar value = item.value();
+        return scalars::Scalar(value);
+    });
 }
 
 #define MAKE_ITERATOR_TYPE(ALG, KEY)                                           \
diff --git a/roughpy/src/algebra/free_tensor.cpp b/roughpy/src/algebra/free_tensor.cpp
index 3de0545..fb35a3b 100644
--- a/roughpy/src/algebra/free_tensor.cpp
+++ b/roughpy/src/algebra/free_tensor.cpp
@@ -174,10 +174,13 @@ void python::init_free_tensor(py::module_& m)
     python::setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const FreeTensor& self, key_type key) {
-        return self[key];
+        // the value must not refer to the storage of self
+        const scalars::Scalar value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const FreeTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             const scalars::Scalar value = self[static_cast<key_type>(tkey)];
+             return scalars::Scalar(value);
          });
 
     klass.def("exp", &FreeTensor::exp, "Computes the truncated exponential of a :class:`~FreeTensor` instance.");
diff --git a/roughpy/src/algebra/lie.cpp b/roughpy/src/algebra/lie.cpp
index eedb20e..e6b3cba 100644
--- a/roughpy/src/algebra/lie.cpp
+++ b/roughpy/src/algebra/lie.cpp
@@ -166,10 +166,13 @@ void python::init_lie(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const Lie& self, key_type key) {
-        return self[key];
+        // the value must not refer to the storage of self
+        const scalars::Scalar value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const Lie& self, const PyLieKey& lkey) {
-             return self[static_cast<key_type>(lkey)];
+             const scalars::Scalar value = self[static_cast<key_type>(lkey)];
+             return scalars::Scalar(value);
          });
 
     klass.def("__repr__", [](const Lie& self) {
diff --git a/roughpy/src/algebra/shuffle_tensor.cpp b/roughpy/src/algebra/shuffle_tensor.cpp
index c53a22b..cd63569 100644
--- a/roughpy/src/algebra/shuffle_tensor.cpp
+++ b/roughpy/src/algebra/shuffle_tensor.cpp
@@ -198,10 +198,13 @@ void rpy::python::init_shuffle_tensor(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const ShuffleTensor& self, key_type key) {
-        return self[key];
+        // the value must not refer to the storage of self
+        const scalars::Scalar value = self[key];
+        return scalars::Scalar(value);
     });
     klass.def("__getitem__", [](const ShuffleTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             const scalars::Scalar value = self[static_cast<key_type>(tkey)];
+             return scalars::Scalar(value);
          });
 
 
diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index 7035518..47d5435 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -198,7 +198,9 @@ public:
     template <typename Index>
     const_reference operator[](Index idx) const noexcept
     {
-        return m_storage[p_basis->key_to_index(idx)];
+        const auto index = p_basis->key_to_index(idx);
+        if (index >= m_storage.size()) { return coefficient_ring::zero(); }
+        return m_storage[index];
     }
 
     pointer as_mut_ptr() noexcept { return m_storage.data(); }
-- 
2.43.0


From 1d4b3bd7201aa19c67c9c2f1a966040e7792449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 21/70] fix: in-place operations of sparse elements with
 themselves

---
 vendored/libalgebra_lite/sparse_vector.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index 76c5b44..def6da3 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -462,20 +462,22 @@ public:
 
         const auto& zero = coefficient_ring::zero();
 
-        for (; rit != rend; ++rit) {
-            auto it = m_data.find(rit->first);
+        while (rit != rend) {
+            // rhs might be this vector, so move on before erasing
+            const auto& item = *(rit++);
+            auto it = m_data.find(item.first);
             if (it != lend) {
-                op(it->second, rit->second);
+                op(it->second, item.second);
                 if (it->second == zero) {
                     m_data.erase(it);
                 } else {
                     update_degree_for_key(it->first);
                 }
             } else {
-                assert(rit->second != zero);
+                assert(item.second != zero);
                 scalar_type new_val = zero;
-                op(new_val, rit->second);
-                insert_new_value(rit->first, new_val);
+                op(new_val, item.second);
+                insert_new_value(item.first, new_val);
             }
         }
 
-- 
2.43.0


From 46282239a630547729afa20f024b4144fa227404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 22/70] fix: keep the degree of dense adjoints and of cleared
 dense elements

---
 vendored/libalgebra_lite/dense_vector.h | 6 +++++-
 vendored/libalgebra_lite/free_tensor.h  | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index 47d5435..c8b0c8d 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -206,7 +206,11 @@ public:
     pointer as_mut_ptr() noexcept { return m_storage.data(); }
     const_pointer as_ptr() const noexcept { return m_storage.data(); }
 
-    void clear() noexcept(noexcept(m_storage.clear())) { m_storage.clear(); }
+    void clear() noexcept(noexcept(m_storage.clear()))
+    {
+        m_storage.clear();
+        m_degree = 0;
+    }
 
     // these need to be implemented in terms of kernels.
 
diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index a1be193..8fdc1bd 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -990,7 +990,7 @@ private:
         const auto& powers = basis.powers();
 
         const auto arg_deg = arg.degree();
-        result.resize_exact(basis.size(arg_deg));
+        result.resize_exact(basis.size(arg_deg), arg_deg);
 
         for (auto&& pr : mul) {
             const auto key = pr.key();
@@ -1031,7 +1031,7 @@ private:
         const auto arg_deg = arg.degree();
         const auto param_deg = mul.degree();
         const auto target_deg = std::min(arg_deg, param_deg);
-        result.resize_exact(sizes[arg_deg]);
+        result.resize_exact(sizes[arg_deg], arg_deg);
 
         auto* optr = result.as_mut_ptr();
         const auto* aptr = arg.as_ptr();
-- 
2.43.0


From 2eac801ffb6ae3da8d152b2201f35eb11d3b01fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 23/70] fix: keep the first increment inside the support of
 increment streams

---
 roughpy/src/streams/lie_increment_stream.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 09e880d..38fe3e9 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -44,6 +44,7 @@
 #include "schema_finalization.h"
 #include "stream.h"
 
+#include <cmath>
 #include <limits>
 #include <pybind11/pytypes.h>
 
@@ -207,8 +208,15 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
 
     if (!indices.empty()) {
         auto minmax = std::minmax_element(indices.begin(), indices.end());
+        // An increment is seen at the start of the dyadic interval of the
+        // stream's resolution that contains its index; this must be inside the
+        // support or else queries with a finer resolution miss it.
+        const auto first_param = ldexp(
+                std::floor(ldexp(*minmax.first, *md.resolution)),
+                -*md.resolution
+        );
         effective_support = intervals::RealInterval(
-                *minmax.first,
+                first_param,
                 *minmax.second + ldexp(1.0, -*md.resolution),
                 md.interval_type
         );
-- 
2.43.0


From cdeeda9334a260c17a6dcab7c0078068f2568576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 24/70] fix: do not lose data in dyadic intervals finer than
 the stream's resolution

---
 streams/src/dyadic_caching_layer.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index 12b95b7..178c162 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -94,12 +94,24 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
                                   resolution_t resolution,
                                   const algebra::Context& ctx) const
 {
+    const auto stream_resolution = metadata().default_resolution;
+
+    // Everything in an interval of the stream's resolution is seen at its
+    // included end, wherever in that interval it is.
+    if (interval.power() > stream_resolution) {
+        intervals::DyadicInterval tmp(interval);
+        tmp.expand_interval(interval.power() - stream_resolution);
+        RPY_DBG_ASSERT(tmp.power() == stream_resolution);
+        if (rational_equals(tmp, interval)) {
+            return log_signature(tmp, stream_resolution, ctx);
+        }
+        return algebra::Lie();
+    }
+
     if (empty(interval)) {
         return ctx.zero_lie(DyadicCachingLayer::metadata().cached_vector_type);
     }
 
-    const auto stream_resolution = metadata().default_resolution;
-
     if (interval.power() == stream_resolution) {
         // The cache only holds values computed with the default context.
         if (&ctx != metadata().default_context.get()) {
@@ -115,16 +127,6 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
         return cached.borrow_mut();
     }
 
-    if (interval.power() > stream_resolution) {
-        intervals::DyadicInterval tmp(interval);
-        tmp.expand_interval(interval.power() - stream_resolution);
-        RPY_DBG_ASSERT(tmp.power() == stream_resolution);
-        if (rational_equals(tmp, interval)) {
-            return log_signature(tmp, stream_resolution, ctx);
-        }
-        return algebra::Lie();
-    }
-
     intervals::DyadicInterval lhs_itvl(interval);
     intervals::DyadicInterval rhs_itvl(interval);
     lhs_itvl.shrink_interval_left();
-- 
2.43.0


From d2cdd7d5c569c2a304dfa78f1d812c252d96035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:30 +0000
Subject: [PATCH 25/70] fix: keep every tick inside the default support of tick
 streams

---
 roughpy/src/streams/tick_stream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/roughpy/src/streams/tick_stream.cpp b/roughpy/src/streams/tick_stream.cpp
index 126bf7d..bfc7db7 100644
--- a/roughpy/src/streams/tick_stream.cpp
+++ b/roughpy/src/streams/tick_stream.cpp
@@ -243,6 +243,15 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
         index.insert(di.included_end());
     }
 
+    if (!pmd.support) {
+        // Every tick must be in the support unless a support is requested.
+        meta.effective_support = intervals::RealInterval(
+                std::min(0.0, *index.begin()),
+                std::max(1.0, *index.rbegin() + ldexp(1.0, -*pmd.resolution)),
+                pmd.interval_type
+        );
+    }
+
     streams::Stream result(streams::TickStream(
             std::vector<param_t>(index.begin(), index.end()),
             std::move(raw_data), *pmd.resolution, pmd.schema, std::move(meta)
-- 
2.43.0


From e2631f9164b156543d38af9b579799aeeda96f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:30 +0000
Subject: [PATCH 26/70] fix: let a simplified stream answer on its whole
 partition

---
 streams/src/stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streams/src/stream.cpp b/streams/src/stream.cpp
index c58eaac..ccc3c51 100644
--- a/streams/src/stream.cpp
+++ b/streams/src/stream.cpp
@@ -249,6 +249,8 @@ Stream Stream::simplify(
     StreamMetadata new_md(metadata());
     new_md.default_resolution = resolution;
     new_md.default_context = &ctx;
+    // The pieces may reach beyond the support of this stream.
+    new_md.effective_support = RealInterval(partition);
 
     return Stream(PiecewiseAbelianStream(
             std::move(pieces),
-- 
2.43.0


From 0c3eaf36ee6a5cf7ad495c37fd82695e5ff17ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 27/70] fix: allocate storage for rationals constructed from
 plain numbers

---
 scalars/include/roughpy/scalars/scalar.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index ec15161..8c62403 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -271,8 +271,15 @@ public:
         : p_type_and_content_type(type, dtl::ScalarContentType::TrivialBytes),
           integer_for_convenience(0)
     {
+        void* dst = trivial_bytes;
+        if (dtl::content_type_of(type_info())
+            == dtl::ScalarContentType::OwnedPointer) {
+            // Values of this type do not fit in the inline storage.
+            allocate_data();
+            dst = opaque_pointer;
+        }
         dtl::scalar_convert_copy(
-                trivial_bytes,
+                dst,
                 type_info(),
                 &value,
                 devices::type_info<remove_cvref_t<T>>()
-- 
2.43.0


From e674db8b8503293151f9f253c44f0a440d27eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 28/70] fix: accept schema items without options

---
 roughpy/src/args/parse_schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/args/parse_schema.cpp b/roughpy/src/args/parse_schema.cpp
index 0937099..14054a7 100644
--- a/roughpy/src/args/parse_schema.cpp
+++ b/roughpy/src/args/parse_schema.cpp
@@ -121,7 +121,7 @@ void handle_seq_item(StreamSchema* schema, string label, py::sequence data)
 
     auto len = py::len(data);
 
-    RPY_CHECK(len > 1);
+    RPY_CHECK(len >= 1);
     auto type = py_to_channel_type(data[0]);
 
     if (len == 1) {
-- 
2.43.0


From e3838e2b11ce622beae1ad663090a7fd35487ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 29/70] fix: negate scalars

---
 scalars/src/scalar/arithmetic.cpp | 107 ++++++++++++++++--------------
 1 file changed, 58 insertions(+), 49 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d1f0478..02a35fe 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -52,55 +52,6 @@ using namespace rpy::scalars;
 
 using rpy::scalars::dtl::ScalarContentType;
 
-static inline void
-uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
-{}
-
-Scalar Scalar::operator-() const
-{
-    Scalar result;
-    const auto info = type_info();
-    optional<const ScalarType*> stype;
-    if (!fast_is_zero()) {
-        switch (p_type_and_content_type.get_enumeration()) {
-            case ScalarContentType::TrivialBytes:
-            case ScalarContentType::ConstTrivialBytes:
-                result.p_type_and_content_type = type_pointer(
-                        info,
-                        dtl::ScalarContentType::TrivialBytes
-                );
-                uminus_impl(result.trivial_bytes, trivial_bytes, info);
-                break;
-            case ScalarContentType::OpaquePointer:
-            case ScalarContentType::ConstOpaquePointer:
-            case ScalarContentType::OwnedPointer:
-                stype = type();
-                RPY_CHECK(stype);
-                result.p_type_and_content_type = type_pointer(
-                        *stype,
-                        dtl::ScalarContentType::OwnedPointer
-                );
-                result.allocate_data();
-                uminus_impl(result.opaque_pointer, opaque_pointer, info);
-                break;
-            case ScalarContentType::Interface:
-            case ScalarContentType::OwnedInterface:
-                result.p_type_and_content_type = type_pointer(
-                        *stype,
-                        dtl::ScalarContentType::OwnedPointer
-                );
-                result.allocate_data();
-                uminus_impl(
-                        result.opaque_pointer,
-                        interface_ptr->pointer(),
-                        info
-                );
-                break;
-        }
-    }
-    return result;
-}
-
 namespace {
 
 struct RPY_LOCAL AddInplace {
@@ -152,6 +103,64 @@ do_op(void* dst, const void* src, devices::TypeInfo type, Op&& op)
     RPY_THROW(std::domain_error, "unsupported operation");
 }
 
+}// namespace
+
+static inline void
+uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
+{
+    // dst is zero
+    do_op(dst, ptr, info, SubInplace());
+}
+
+Scalar Scalar::operator-() const
+{
+    Scalar result;
+    const auto info = type_info();
+    optional<const ScalarType*> stype;
+    if (!fast_is_zero()) {
+        switch (p_type_and_content_type.get_enumeration()) {
+            case ScalarContentType::TrivialBytes:
+            case ScalarContentType::ConstTrivialBytes:
+                result.p_type_and_content_type = type_pointer(
+                        info,
+                        dtl::ScalarContentType::TrivialBytes
+                );
+                uminus_impl(result.trivial_bytes, trivial_bytes, info);
+                break;
+            case ScalarContentType::OpaquePointer:
+            case ScalarContentType::ConstOpaquePointer:
+            case ScalarContentType::OwnedPointer:
+                stype = type();
+                RPY_CHECK(stype);
+                result.p_type_and_content_type = type_pointer(
+                        *stype,
+                        dtl::ScalarContentType::OwnedPointer
+                );
+                result.allocate_data();
+                uminus_impl(result.opaque_pointer, opaque_pointer, info);
+                break;
+            case ScalarContentType::Interface:
+            case ScalarContentType::OwnedInterface:
+                stype = type();
+                RPY_CHECK(stype);
+                result.p_type_and_content_type = type_pointer(
+                        *stype,
+                        dtl::ScalarContentType::OwnedPointer
+                );
+                result.allocate_data();
+                uminus_impl(
+                        result.opaque_pointer,
+                        interface_ptr->pointer(),
+                        info
+                );
+                break;
+        }
+    }
+    return result;
+}
+
+namespace {
+
 template <typename Op>
 inline void scalar_inplace_arithmetic(
         void* dst,
-- 
2.43.0


From 895586b17c616976da48c4b7f9a11284af31d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 30/70] fix: read and modify coefficients of sparse elements
 through references

---
 .../sparse_mutable_ref_scalar_trait.h         | 14 +++++++----
 scalars/include/roughpy/scalars/scalar.h      | 14 +++++++++++
 scalars/src/scalar.cpp                        | 13 +++++++++++
 scalars/src/scalar/arithmetic.cpp             | 23 ++++++++++++++++---
 4 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
index 7f77ab8..9823e92 100644
--- a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
+++ b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
@@ -77,7 +77,10 @@ private:
 public:
     void set_value(const Scalar& value) override;
 
-    const void* pointer() const noexcept override { return &m_data; }
+    const void* pointer() const noexcept override
+    {
+        return &static_cast<const value_type&>(m_data);
+    }
 
 private:
     template <typename F>
@@ -138,9 +141,12 @@ public:
 
     static Scalar make(reference arg)
     {
-        return Scalar(std::make_unique<dtl::SparseMutableRefScalarImpl<Vector>>(
-                std::move(arg)
-        ));
+        return Scalar(
+                *scalar_type_of<value_type>(),
+                std::make_unique<dtl::SparseMutableRefScalarImpl<Vector>>(
+                        std::move(arg)
+                )
+        );
     }
 };
 
diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index 8c62403..eb7307f 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -334,6 +334,17 @@ public:
           interface_ptr(std::move(iface).release())
     {}
 
+    template <
+            typename I,
+            typename = enable_if_t<is_base_of_v<ScalarInterface, I>>>
+    explicit Scalar(const ScalarType* type, std::unique_ptr<I>&& iface)
+        : p_type_and_content_type(
+                  type,
+                  dtl::ScalarContentType::OwnedInterface
+          ),
+          interface_ptr(std::move(iface).release())
+    {}
+
     explicit Scalar(const ScalarType* type, int64_t num, int64_t denom);
 
     Scalar(const Scalar& other);
@@ -525,6 +536,9 @@ public:
     RPY_SERIAL_LOAD_FN();
 
 private:
+    // The interface through which the value must be modified, or null
+    interface_pointer_t mut_interface() const noexcept;
+
     std::vector<byte> to_raw_bytes() const;
     void from_raw_bytes(devices::TypeInfo info, Slice<byte> bytes);
 };
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 435a197..58d08f4 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -296,6 +296,8 @@ Scalar& Scalar::operator=(const Scalar& other)
 //                        "is not allowed"
 //                    );
             }
+        } else if (auto* iface = mut_interface()) {
+            iface->set_value(other);
         } else {
             dtl::scalar_convert_copy(
                 mut_pointer(),
@@ -312,6 +314,8 @@ Scalar& Scalar::operator=(Scalar&& other) noexcept
     if (&other != this) {
         if (p_type_and_content_type.is_null()) {
             construct_inplace(this, std::move(other));
+        } else if (auto* iface = mut_interface()) {
+            iface->set_value(other);
         } else {
             dtl::scalar_convert_copy(mut_pointer(), type_info(), other);
         }
@@ -435,6 +439,15 @@ void* Scalar::mut_pointer()
     RPY_UNREACHABLE_RETURN(nullptr);
 }
 
+Scalar::interface_pointer_t Scalar::mut_interface() const noexcept
+{
+    switch (p_type_and_content_type.get_enumeration()) {
+        case dtl::ScalarContentType::Interface:
+        case dtl::ScalarContentType::OwnedInterface: return interface_ptr;
+        default: return nullptr;
+    }
+}
+
 bool Scalar::is_mutable() const noexcept
 {
     return !static_cast<bool>(
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 02a35fe..585c079 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -213,7 +213,11 @@ Scalar& Scalar::operator+=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, AddInplace());
+        if (auto* iface = mut_interface()) {
+            iface->add_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, AddInplace());
+        }
     }
     return *this;
 }
@@ -222,7 +226,11 @@ Scalar& Scalar::operator-=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, SubInplace());
+        if (auto* iface = mut_interface()) {
+            iface->sub_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, SubInplace());
+        }
     }
     return *this;
 }
@@ -231,7 +239,11 @@ Scalar& Scalar::operator*=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!fast_is_zero() && !other.fast_is_zero()) {
-        scalar_inplace_arithmetic(*this, other, MulInplace());
+        if (auto* iface = mut_interface()) {
+            iface->mul_inplace(other);
+        } else {
+            scalar_inplace_arithmetic(*this, other, MulInplace());
+        }
     } else {
         operator=(0);
     }
@@ -288,6 +300,11 @@ Scalar& Scalar::operator/=(const Scalar& other)
         RPY_THROW(std::domain_error, "division by zero");
     }
 
+    if (auto* iface = mut_interface()) {
+        iface->div_inplace(other);
+        return *this;
+    }
+
     /*
      * We need to check some additional things here.
      * Division need not be defined for all scalar types. For instance, integers
-- 
2.43.0


From f65f4fad450e6ced6a8ae3fc6ad0ddc3089d91b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 31/70] fix: accept numpy dtypes in signature queries

---
 roughpy/src/streams/signature_arguments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/streams/signature_arguments.cpp b/roughpy/src/streams/signature_arguments.cpp
index efbcb97..02ffa38 100644
--- a/roughpy/src/streams/signature_arguments.cpp
+++ b/roughpy/src/streams/signature_arguments.cpp
@@ -207,7 +207,7 @@ int python::parse_sig_args(
                 ctype = *ctype_o;
             }
 #ifdef ROUGHPY_WITH_NUMPY
-            else if (Py_TYPE(dtype) == &PyArrayDescr_Type) {
+            else if (py::isinstance<py::dtype>(dtype)) {
                 ctype = python::npy_dtype_to_ctype(
                         py::reinterpret_borrow<py::dtype>(dtype)
                 );
-- 
2.43.0


From af307542506718a7b8dd3ca92961c5bafad18728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 32/70] fix: convert between storage types inside a context

---
 algebra/src/lite_context.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 61e979d..913f9cc 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -489,10 +489,10 @@ template <VectorType VType>
 typename LiteContext<Coefficients>::template free_tensor_t<VType>
 LiteContext<Coefficients>::lie_to_tensor_impl(const Lie& arg) const
 {
-    // If arg is an object from this context, then we can just use the maps
-    // directly
+    // If arg is an object from this context and of the right storage type, then
+    // we can just use the maps directly
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.lie_to_tensor(algebra_cast<lie_t<VType>>(*arg));
     }
 
@@ -512,7 +512,7 @@ LiteContext<Coefficients>::tensor_to_lie_impl(const FreeTensor& arg) const
 {
 
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.tensor_to_lie(algebra_cast<free_tensor_t<VType>>(*arg));
     }
 
-- 
2.43.0


From 2fee28b5157a7e8d0f9460e6c55ab6fe1f5423a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 33/70] fix: truncate sparse data at the depth of the context

---
 algebra/src/lite_context.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 913f9cc..31fa13f 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -465,11 +465,14 @@ OutType LiteContext<Coefficients>::construct_impl(
     }
 
     if (data.data.has_keys()) {
-        // Sparse data
+        // Sparse data, truncated at the depth of the basis
         const auto* keys = data.data.keys();
+        const dimn_t max_key = basis->size(-1);
 
-        for (dimn_t i = 0; i < size; ++i) {
-            result[basis->index_to_key(keys[i])] = raw_data[i];
+        for (dimn_t i = 0; i < data.data.size(); ++i) {
+            if (keys[i] < max_key) {
+                result[basis->index_to_key(keys[i])] = raw_data[i];
+            }
         }
 
     } else {
-- 
2.43.0


From bd44e5bc5ea581ff5f62738154497f8a3e5bd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 34/70] fix: keep the keys of sparse rows of increments

---
 roughpy/src/args/parse_data_argument.cpp |  9 +++++++--
 scalars/src/key_scalar_stream.cpp        | 14 ++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index faec40b..9f875b9 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -276,7 +276,12 @@ void ConversionManager::handle_lie_leaf(LeafItem& leaf)
         }
     } else {
         allocate_leaf(new_leaf);
-        for (auto&& item : leaf_lie) { push(item.key(), item.value()); }
+        // Keyed data is labelled by index in the basis order, which for the
+        // Lie basis is not the same thing as the key.
+        const auto basis = leaf_lie.basis();
+        for (auto&& item : leaf_lie) {
+            push(basis.key_to_index(item.key()), item.value());
+        }
     }
 }
 
@@ -707,7 +712,7 @@ void ParsedData::fill_ks_stream(scalars::KeyScalarStream& ks_stream)
             case LeafType::Dict:
             case LeafType::Lie:
             case LeafType::Sequence:
-                ks_stream.push_back(leaf.data.borrow());
+                ks_stream.push_back(leaf.data.borrow(), leaf.data.keys());
                 break;
         }
     }
diff --git a/scalars/src/key_scalar_stream.cpp b/scalars/src/key_scalar_stream.cpp
index 9f30a3f..832bb17 100644
--- a/scalars/src/key_scalar_stream.cpp
+++ b/scalars/src/key_scalar_stream.cpp
@@ -85,10 +85,9 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
-        if (m_key_stream.empty()) {
-            m_key_stream.resize(ScalarStream::row_count(), nullptr);
-        }
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
+        // Once some row has keys, every row has an entry in the key stream.
+        m_key_stream.resize(ScalarStream::row_count(), nullptr);
         m_key_stream.push_back(key_ptr);
     }
     ScalarStream::push_back(scalar_data);
@@ -98,10 +97,9 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
-        if (m_key_stream.empty()) {
-            m_key_stream.resize(ScalarStream::row_count(), nullptr);
-        }
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
+        // Once some row has keys, every row has an entry in the key stream.
+        m_key_stream.resize(ScalarStream::row_count(), nullptr);
         m_key_stream.push_back(key_ptr);
     }
     ScalarStream::push_back(std::move(scalar_data));
-- 
2.43.0


From bf9c97c3ea7946565b76343fdd8b224f87e3e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 35/70] fix: give unlabelled channels a free number

---
 streams/src/schema.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/streams/src/schema.cpp b/streams/src/schema.cpp
index 01fba76..394de82 100644
--- a/streams/src/schema.cpp
+++ b/streams/src/schema.cpp
@@ -241,10 +241,14 @@ StreamChannel& StreamSchema::insert(
 )
 {
     RPY_CHECK(!m_is_final);
-    if (label.empty()) { label = std::to_string(size()); }
-
-    // Some users might have labelled their channels using numbers.
-    // Silly, but handle it gracefully.
+    if (label.empty()) {
+        // Some users might have labelled their channels using numbers.
+        // Silly, but handle it gracefully.
+        auto number = size();
+        do {
+            label = std::to_string(number++);
+        } while (find(label) != end());
+    }
 
     auto pos = find(label);
     if (pos != end()) { return *pos->second; }
-- 
2.43.0


From 43f89f15c2a5decaed1d9c9aa3f599c47720a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:12 +0000
Subject: [PATCH 36/70] fix: guard the pool of small objects against concurrent
 use

The pool hands out the memory of every algebra object and of every
stream, and queries of a stream run without the interpreter lock, but
boost::pool does no locking: two threads could be given the same block.
---
 platform/src/alloc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/src/alloc.cpp b/platform/src/alloc.cpp
index de84b02..03d876f 100644
--- a/platform/src/alloc.cpp
+++ b/platform/src/alloc.cpp
@@ -4,6 +4,7 @@
 
 #include "roughpy/platform/alloc.h"
 
+#include <mutex>
 #include <new>
 
 #include <boost/pool/singleton_pool.hpp>
@@ -96,6 +97,8 @@ boost::pool<MyAlignedAlloc>* get_pool() noexcept
     return &pool;
 }
 
+// boost::pool does no locking of its own
+std::mutex s_pool_lock;
 
 }
 
@@ -107,6 +110,7 @@ void* rpy::mem::small_object_alloc(size_t size)
     if (size > small_block_size) {
         return aligned_alloc(max_alignment, size);
     }
+    std::lock_guard<std::mutex> access(s_pool_lock);
     return get_pool()->malloc();
 }
 
@@ -115,6 +119,7 @@ void rpy::mem::small_object_free(void* ptr, size_t size)
     if (size > small_block_size) {
         aligned_free(ptr, size);
     } else {
+        std::lock_guard<std::mutex> access(s_pool_lock);
         get_pool()->free(static_cast<char*>(ptr));
     }
 
-- 
2.43.0


From 53d240436b6d291316817b50d2d6ec5b2f9d2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 37/70] fix: equal tensor keys have equal hashes

The hash included the basis, which equality does not compare.
---
 roughpy/src/algebra/tensor_key.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/tensor_key.cpp b/roughpy/src/algebra/tensor_key.cpp
index ff06a8b..0a67257 100644
--- a/roughpy/src/algebra/tensor_key.cpp
+++ b/roughpy/src/algebra/tensor_key.cpp
@@ -219,7 +219,9 @@ python::PyTensorKey python::operator*(
 }
 
 hash_t python::hash_value(const python::PyTensorKey& key) noexcept {
-    auto seed = hash_value(key.m_basis);
+    // Equality compares the width and the letters only.
+    hash_t seed = 0;
+    hash_combine(seed, key.m_basis.width());
     hash_combine(seed, key.m_key);
     return seed;
 }
-- 
2.43.0


From f965e2ffd6766bbb7c5c9a15d9e2a5ef2bde63f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 38/70] fix: do not keep an iterator across insertions when
 multiplying monomials

---
 vendored/libalgebra_lite/basis/polynomial_basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vendored/libalgebra_lite/basis/polynomial_basis.cpp b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
index de81721..6332f63 100644
--- a/vendored/libalgebra_lite/basis/polynomial_basis.cpp
+++ b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
@@ -34,10 +34,10 @@ std::ostream& operator<<(std::ostream& os, const monomial& arg)
 
 monomial& monomial::operator*=(const monomial& rhs)
 {
-    const auto lend = m_data.end();
     for (const auto& item : rhs.m_data) {
+        // Insertion invalidates all iterators, including the end.
         auto it = m_data.find(item.first);
-        if (it == lend) {
+        if (it == m_data.end()) {
             m_data.insert(item);
         } else {
             it->second += item.second;
-- 
2.43.0


From 36e7095c99cfeee62887baf1c16e2bed269ec48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 39/70] fix: monomial powers multiply the exponents and return
 a result

---
 roughpy/src/scalars/r_py_polynomial.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index b9f1be2..18c4a8d 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -795,9 +795,15 @@ PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject*)
             return nullptr;
         }
 
+        if (power == 0) {
+            return PyMonomial_FromMonomial(scalars::monomial());
+        }
+
         auto* result = PyMonomial_FromMonomial(lhs);
+        if (result == nullptr) { return nullptr; }
         auto& result_mon = cast_mon(result);
-        for (auto& comp : result_mon) { comp.second += power; }
+        for (auto& comp : result_mon) { comp.second *= power; }
+        return result;
     }
 
     Py_RETURN_NOTIMPLEMENTED;
@@ -825,7 +831,13 @@ PyObject* monomial_inplace_pow(PyObject* self, PyObject* other, PyObject*)
             return nullptr;
         }
 
-        for (auto& comp : lhs) { comp.second += power; }
+        if (power == 0) {
+            lhs = scalars::monomial();
+        } else {
+            for (auto& comp : lhs) { comp.second *= power; }
+        }
+        Py_INCREF(self);
+        return self;
     }
 
     Py_RETURN_NOTIMPLEMENTED;
-- 
2.43.0


From 0a852edde6cd9241757cf3d5d9efe17b956421cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 40/70] fix: in-place operators on monomials and polynomials
 return a new reference

---
 roughpy/src/scalars/r_py_polynomial.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 18c4a8d..1b3e6a7 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -768,6 +768,7 @@ PyObject* monomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_mon(self);
         const auto& rhs = cast_mon(other);
         lhs *= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1373,6 +1374,7 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs *= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1381,12 +1383,14 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly *= poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly *= poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1561,6 +1565,7 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs += rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1569,12 +1574,14 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly += poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly += poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1604,6 +1611,7 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs -= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1612,12 +1620,14 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly -= poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly -= poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1656,6 +1666,7 @@ PyObject* polynomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         cast_poly(self) /= scalar;
+        Py_INCREF(self);
         return self;
     }
 
-- 
2.43.0


From b6f32e0f2a5699e697fec9605bc197bdc8e92d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 41/70] fix: in-place division of a monomial divides

---
 roughpy/src/scalars/r_py_polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 1b3e6a7..286f039 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1029,7 +1029,7 @@ PyObject* monomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         rat_t divisor = rat_t(1) / scalar;
-        return PyPolynomial_FromPolynomial(poly_t(mon, scalar));
+        return PyPolynomial_FromPolynomial(poly_t(mon, divisor));
     }
 
     // We might want to support other types in the future
-- 
2.43.0


From baecfd5ac9fbb901be3a6e07827f7dd7e14e551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 42/70] fix: reading a polynomial coefficient does not
 terminate the process

---
 roughpy/src/scalars/r_py_polynomial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 286f039..4dae71b 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1279,7 +1279,8 @@ PyObject* polynomial_subscript(PyObject* self, PyObject* index)
 {
     const auto& poly = cast_poly(self);
     if (is_monomial(index)) {
-        return py::cast(scalars::Scalar(poly[cast_mon(index)])).release().ptr();
+        // The coefficient has a rational type, not a native one.
+        return py::cast(scalars::Scalar(*scalars::scalar_type_of<rat_t>(), rat_t(poly[cast_mon(index)]))).release().ptr();
     }
 
     PyErr_SetString(
-- 
2.43.0


From 52e62ee1e11a00cbd63c916b331100f133f72005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 43/70] fix: assigning a polynomial coefficient accepts values
 rather than rejecting them

---
 roughpy/src/scalars/r_py_polynomial.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 4dae71b..e45e713 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1309,24 +1309,27 @@ int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         }
 
         monomial = scalars::monomial(indet);
+    } else {
+        PyErr_SetString(
+                PyExc_TypeError,
+                "polynomial index must be monomial or str"
+        );
+        return -1;
     }
 
-    rat_t newarg;
-    if (py_scalar_to_rat(newarg, arg)) {
-        PyErr_SetString(PyExc_ValueError, "could not parse value");
+    if (arg == nullptr) {
+        PyErr_SetString(PyExc_TypeError, "cannot delete a coefficient");
         return -1;
     }
 
-    if (newarg != rat_t(0)) {
-        poly[monomial] = newarg;
-        return 0;
+    rat_t newarg;
+    if (!py_scalar_to_rat(newarg, arg)) {
+        PyErr_SetString(PyExc_ValueError, "could not parse value");
+        return -1;
     }
 
-    PyErr_SetString(
-            PyExc_TypeError,
-            "polynomial index must be monomial or str"
-    );
-    return -1;
+    poly[monomial] = newarg;
+    return 0;
 }
 PyObject* polynomial_mul(PyObject* self, PyObject* other)
 {
-- 
2.43.0


From bc3a31b8ce0920b10fb76b497c7c7dceb21fd9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 44/70] fix: report the degree of a monomial

---
 roughpy/src/scalars/r_py_polynomial.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index e45e713..83501b2 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1051,8 +1051,7 @@ PyObject* monomial_repr(PyObject* self)
 }
 PyObject* monomial_degree(PyObject* self, PyObject* RPY_UNUSED_VAR)
 {
-    PyErr_SetString(PyExc_NotImplementedError, "not implemented");
-    return nullptr;
+    return PyLong_FromLong(cast_mon(self).degree());
 }
 PyObject* PyMonomial_FromIndeterminate(scalars::indeterminate_type indet)
 {
-- 
2.43.0


From c603fdc9328bed3f3cc80ca7a05c486b489d4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:44 +0000
Subject: [PATCH 45/70] fix: monomials do not hold zeroth or negative powers

Monomial(x1=0) differed from Monomial().
---
 roughpy/src/scalars/r_py_polynomial.cpp | 38 +++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 83501b2..99e3c52 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -493,6 +493,25 @@ void python::init_monomial(py::module_& m)
     m.add_object("PolynomialScalar", (PyObject*) &RPyPolynomial_Type);
 }
 
+// Multiply by a power of an indeterminate; the zeroth power is the unit.
+static bool multiply_by_power(
+        scalars::monomial& monomial,
+        scalars::indeterminate_type indet,
+        PyObject* py_power
+)
+{
+    auto power = PyLong_AsLong(py_power);
+    if (power == -1 && PyErr_Occurred()) { return false; }
+    if (power < 0) {
+        PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
+        return false;
+    }
+    if (power > 0) {
+        monomial *= scalars::monomial(indet, static_cast<deg_t>(power));
+    }
+    return true;
+}
+
 static bool insert_from_pair(scalars::monomial& monomial, PyObject* item)
 {
     auto* first = PyTuple_GetItem(item, 0);
@@ -506,10 +525,7 @@ static bool insert_from_pair(scalars::monomial& monomial, PyObject* item)
     scalars::indeterminate_type indet(0, 0);
 
     if (!indeterminate_from_string(first, indet)) { return false; }
-    auto pow = PyLong_AsLong(second);
-
-    monomial *= scalars::monomial(indet, static_cast<deg_t>(pow));
-    return true;
+    return multiply_by_power(monomial, indet, second);
 }
 
 static bool
@@ -595,8 +611,7 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
             );
             return false;
         }
-        auto pow = PyLong_AsLong(value);
-        p_obj->m_data *= scalars::monomial(letter, static_cast<deg_t>(pow));
+        if (!multiply_by_power(p_obj->m_data, letter, value)) { return false; }
     }
     return true;
 }
@@ -683,7 +698,7 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         PyErr_SetString(PyExc_TypeError, "index should be a string");
         return -1;
     }
-    if (!PyLong_Check(arg)) {
+    if (arg == nullptr || !PyLong_Check(arg)) {
         PyErr_SetString(PyExc_TypeError, "expected an int");
         return -1;
     }
@@ -692,7 +707,14 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
     if (!indeterminate_from_string(index, letter)) { return -1; }
 
     try {
-        mon[letter] = static_cast<deg_t>(PyLong_AsLong(arg));
+        scalars::monomial result;
+        for (const auto& item : mon) {
+            if (!(item.first == letter)) {
+                result *= scalars::monomial(item.first, item.second);
+            }
+        }
+        if (!multiply_by_power(result, letter, arg)) { return -1; }
+        mon = std::move(result);
     } catch (std::exception& exc) {
         PyErr_SetString(PyExc_RuntimeError, "an unexpected error occurred");
         return -1;
-- 
2.43.0


From 95cf70396be1044f267646dca2f7eaeadb9ddf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:44 +0000
Subject: [PATCH 46/70] fix: read integers and fractions of any size as
 polynomial coefficients

---
 roughpy/src/scalars/r_py_polynomial.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 99e3c52..28e5f47 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -32,6 +32,7 @@
 
 #include "r_py_polynomial.h"
 
+#include <cmath>
 #include <sstream>
 
 #include "roughpy/core/check.h"                    // for throw_exception
@@ -725,32 +726,30 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
 
 static inline bool py_scalar_to_rat(rat_t& result, PyObject* scalar) noexcept
 {
-    if (PyLong_Check(scalar)) {
-        result = rat_t(PyLong_AsLongLong(scalar));
-        return true;
-    }
     if (PyFloat_Check(scalar)) {
-        result = rat_t(PyFloat_AsDouble(scalar));
+        const auto value = PyFloat_AsDouble(scalar);
+        if (!std::isfinite(value)) { return false; }
+        result = rat_t(value);
         return true;
     }
 
     try {
         auto fraction = get_py_rational();
-        if (py::isinstance(scalar, fraction)) {
-            auto numr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "numerator")
+        if (PyLong_Check(scalar) || py::isinstance(scalar, fraction)) {
+            // Numerators and denominators can be larger than any native type.
+            const auto numr = py::str(py::handle(scalar).attr("numerator"));
+            const auto denr = py::str(py::handle(scalar).attr("denominator"));
+            result = rat_t(
+                    static_cast<string>(numr) + '/' + static_cast<string>(denr)
             );
-            auto denr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "denominator")
-            );
-
-            result = rat_t(numr, denr);
             return true;
         }
     } catch (py::error_already_set&) {
         // If the error state is set, then clear it. This isn't really an
         // error.
         PyErr_Clear();
+    } catch (std::exception&) {
+        // The text could not be parsed, so this isn't a scalar.
     }
 
     return false;
-- 
2.43.0


From 79fb2ee3a3f3d2a74eefcfc94869ea856bc0f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:35 +0000
Subject: [PATCH 47/70] fix: free product of empty dense tensors

The product of two dense tensors read the first coefficient of each, even
of a tensor that stores none.
---
 vendored/libalgebra_lite/free_tensor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 8fdc1bd..9bb368d 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -511,6 +511,9 @@ public:
     fma(dense_tensor_vec<Coeff>& out, const dense_tensor_vec<Coeff>& lhs,
         const dense_tensor_vec<Coeff>& rhs, Op op, deg_t max_degree) const
     {
+        // An empty vector is zero and has no coefficients to read.
+        if (lhs.empty() || rhs.empty()) { return; }
+
         const auto& basis = out.basis();
         if (max_degree >= basis.depth()) { max_degree = basis.depth(); }
 
-- 
2.43.0


From 1566bf9b47a0ed183a148711d01d07bb08b9825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:35 +0000
Subject: [PATCH 48/70] fix: antipode of an empty dense tensor

---
 vendored/libalgebra_lite/free_tensor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 9bb368d..a3c77a8 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -731,6 +731,8 @@ void antipode_helper<Coefficients>::handle_antipode(
         const dense_vector_base<tensor_basis, Coefficients, Storage>& arg
 ) const
 {
+    if (arg.empty()) { return; }
+
     result.resize_exact(arg.dimension());
     auto* optr = result.as_mut_ptr();
     const auto* iptr = arg.as_ptr();
-- 
2.43.0


From e15d99259bcbf9e24204cb9765c0b4a18e9f1e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 49/70] fix: keep the signedness of scalar values without a
 scalar type

The type information was stored one bit too low, where its lowest bit is
taken by the mode; unsigned integers were read as signed ones.
---
 scalars/include/roughpy/scalars/packed_scalar_type_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
index 7f167fb..cfc8375 100644
--- a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
+++ b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
@@ -92,7 +92,7 @@ public:
 
     constexpr PackedScalarTypePointer(type_info_t info, enumeration_type ty)
         : m_data((static_cast<integral_type>(bit_cast<uint32_t>(info))
-                  << MaxEnumBits)
+                  << NonPointerBits)
                  | ModeMask | (static_cast<integral_type>(ty) & EnumMask))
     {}
 
@@ -118,7 +118,7 @@ public:
     constexpr type_info_t get_type_info() const noexcept
     {
         return bit_cast<type_info_t>(
-                static_cast<uint32_t>((m_data & TypeInfoMask) >> MaxEnumBits)
+                static_cast<uint32_t>((m_data & TypeInfoMask) >> NonPointerBits)
         );
     }
 
-- 
2.43.0


From f51872b74ef9541b087b54f6d393f96b522b464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 50/70] fix: do not read beyond the source when converting an
 array of scalars

---
 scalars/src/scalar_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 80c8ab0..46e62f0 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -138,7 +138,7 @@ void ScalarType::convert_copy(
                 dst.type_info(),
                 src.pointer(),
                 src.type_info(),
-                dst.size()
+                src.size()
         )) {
         RPY_THROW(std::runtime_error, "convert copy failed");
     }
-- 
2.43.0


From c3a4a14cf2e9d08fe7507b8e3ad979a2269b0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:24 +0000
Subject: [PATCH 51/70] fix: scalars own values of types that do not fit inline

Scalars made from a value of such a type had no type to allocate from, and
values given as lvalues were always put in separately allocated storage.
---
 scalars/include/roughpy/scalars/scalar.h | 37 ++----------------------
 scalars/src/scalar.cpp                   |  4 +++
 2 files changed, 6 insertions(+), 35 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index eb7307f..4423485 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -264,9 +264,8 @@ public:
     template <
             typename T,
             typename = enable_if_t<
-                    !is_pointer_v<T> && is_standard_layout_v<T>
-                    && is_trivially_copyable_v<T>
-                    && is_trivially_destructible_v<T>>>
+                    !is_pointer_v<remove_cvref_t<T>>
+                    && dtl::can_be_scalar<remove_cvref_t<T>>::value>>
     explicit Scalar(const ScalarType* type, T&& value)
         : p_type_and_content_type(type, dtl::ScalarContentType::TrivialBytes),
           integer_for_convenience(0)
@@ -286,38 +285,6 @@ public:
         );
     }
 
-    template <
-            typename T,
-            enable_if_t<
-                    !is_pointer_v<T>
-                            && (!is_standard_layout_v<T>
-                                || !is_trivially_copyable_v<T>
-                                || !is_trivially_destructible_v<T>),
-                    int>
-            = 0>
-    explicit Scalar(const ScalarType* type, T&& value)
-        : p_type_and_content_type(type, dtl::ScalarContentType::OwnedPointer),
-          integer_for_convenience(0)
-    {
-        allocate_data();
-        auto this_info = type_info();
-        auto value_info = devices::type_info<remove_cvref_t<T>>();
-        if (this_info == value_info) {
-            construct_inplace(
-                    static_cast<remove_cvref_t<T>*>(opaque_pointer),
-                    std::forward<T>(value)
-            );
-        } else {
-            dtl::scalar_convert_copy(
-                    opaque_pointer,
-                    this_info,
-                    &value,
-                    value_info,
-                    1
-            );
-        }
-    }
-
     explicit Scalar(const ScalarType* type, void* ptr);
     explicit Scalar(const ScalarType* type, const void* ptr);
     explicit Scalar(devices::TypeInfo info, void* ptr);
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 58d08f4..4d40113 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -52,6 +52,10 @@ void Scalar::allocate_data()
         if (!tp_o) {
             RPY_THROW(std::runtime_error, "unable to allocate scalar");
         }
+        p_type_and_content_type = type_pointer(
+            *tp_o,
+            dtl::ScalarContentType::OwnedPointer
+        );
     }
 
     RPY_DBG_ASSERT(p_type_and_content_type.is_pointer());
-- 
2.43.0


From 81602b2b06773e284a96d202147d8b2e8c874c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:24 +0000
Subject: [PATCH 52/70] fix: arithmetic on scalars without a type

---
 scalars/src/scalar.cpp            | 4 ++++
 scalars/src/scalar/arithmetic.cpp | 9 +++++----
 scalars/src/scalar/casts.cpp      | 6 ++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 4d40113..60d2c9c 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -263,6 +263,10 @@ Scalar& Scalar::operator=(const Scalar& other)
     if (&other != this) {
         if (this->fast_is_zero()) {
             p_type_and_content_type = other.p_type_and_content_type;
+            if (other.fast_is_zero()) {
+                integer_for_convenience = 0;
+                return *this;
+            }
 
             const auto info = type_info();
             switch (p_type_and_content_type.get_enumeration()) {
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 585c079..390e106 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -115,9 +115,9 @@ uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
 Scalar Scalar::operator-() const
 {
     Scalar result;
-    const auto info = type_info();
     optional<const ScalarType*> stype;
     if (!fast_is_zero()) {
+        const auto info = type_info();
         switch (p_type_and_content_type.get_enumeration()) {
             case ScalarContentType::TrivialBytes:
             case ScalarContentType::ConstTrivialBytes:
@@ -211,7 +211,7 @@ inline void scalar_inplace_arithmetic(Scalar& dst, const Scalar& src, Op&& op)
 
 Scalar& Scalar::operator+=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
+    if (p_type_and_content_type.is_null()) { return *this = other; }
     if (!other.fast_is_zero()) {
         if (auto* iface = mut_interface()) {
             iface->add_inplace(other);
@@ -224,7 +224,7 @@ Scalar& Scalar::operator+=(const Scalar& other)
 
 Scalar& Scalar::operator-=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
+    if (p_type_and_content_type.is_null()) { return *this = -other; }
     if (!other.fast_is_zero()) {
         if (auto* iface = mut_interface()) {
             iface->sub_inplace(other);
@@ -237,7 +237,7 @@ Scalar& Scalar::operator-=(const Scalar& other)
 
 Scalar& Scalar::operator*=(const Scalar& other)
 {
-    RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
+    if (p_type_and_content_type.is_null()) { return *this; }
     if (!fast_is_zero() && !other.fast_is_zero()) {
         if (auto* iface = mut_interface()) {
             iface->mul_inplace(other);
@@ -304,6 +304,7 @@ Scalar& Scalar::operator/=(const Scalar& other)
         iface->div_inplace(other);
         return *this;
     }
+    if (p_type_and_content_type.is_null()) { return *this; }
 
     /*
      * We need to check some additional things here.
diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 1fd731b..96e1ca5 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -167,6 +167,12 @@ bool scalars::dtl::scalar_convert_copy(
         const Scalar& src
 ) noexcept
 {
+    if (src.fast_is_zero()) {
+        // This might not have a type
+        const int32_t zero = 0;
+        return convert_impl(dst, dst_type, &zero, 1);
+    }
+
     auto src_info = src.type_info();
 #define X(TP) return convert_impl(dst, dst_type, (const TP*) src.pointer(), 1)
     DO_FOR_EACH_X(src_info)
-- 
2.43.0


From b35361921f80cf0cbdf966f2c06fdce41594b528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:24 +0000
Subject: [PATCH 53/70] fix: divide in the type of the result

---
 scalars/src/scalar.cpp            |  2 +-
 scalars/src/scalar/arithmetic.cpp | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 60d2c9c..e72204f 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -339,7 +339,7 @@ bool Scalar::is_zero() const noexcept
     switch (p_type_and_content_type.get_enumeration()) {
         case dtl::ScalarContentType::TrivialBytes:
         case dtl::ScalarContentType::ConstTrivialBytes:
-            return bit_cast<uintptr_t>(trivial_bytes) == 0;
+            return is_pointer_zero(trivial_bytes, p_type_and_content_type);
         case dtl::ScalarContentType::OpaquePointer:
         case dtl::ScalarContentType::ConstOpaquePointer:
         case dtl::ScalarContentType::OwnedPointer:
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 390e106..ff5fc47 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -296,7 +296,7 @@ do_divide(T* dst, const void* divisor, const devices::TypeInfo& info){
 
 Scalar& Scalar::operator/=(const Scalar& other)
 {
-    if (other.fast_is_zero()) {
+    if (other.is_zero()) {
         RPY_THROW(std::domain_error, "division by zero");
     }
 
@@ -335,10 +335,25 @@ Scalar& Scalar::operator/=(const Scalar& other)
         ));
     }
 
+    // The type of this might have changed just now. Everything that is not an
+    // integer divides by values of its own type, polynomials by rationals.
+    const auto this_info = type_info();
+    if (this_info.code == devices::TypeCode::APRationalPolynomial) {
+        if (rat_denom_info != this_info) {
+            rational_denom.change_type(
+                    devices::type_info<rational_scalar_type>()
+            );
+        }
+    } else if (!traits::is_integral(this_info)
+               && this_info != rat_denom_info) {
+        rational_denom.change_type(this_info);
+    }
+    const auto denom_info = rational_denom.type_info();
+
     // Now we should be ready
-#define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rat_denom_info);\
+#define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), denom_info);\
     break
-    DO_FOR_EACH_X(num_info)
+    DO_FOR_EACH_X(this_info)
 #undef X
 
     return *this;
-- 
2.43.0


From 0c72c170c87a4a57293976ce37e83d8a2b860110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 54/70] fix: convert half precision numbers to rationals, and
 report conversions that fail

Half and bfloat16 values could not be converted to rationals or polynomials,
and a number out of the range of an integer type terminated the process.
---
 scalars/src/scalar/casts.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 96e1ca5..c0fcf2b 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -45,7 +45,13 @@ static inline enable_if_t<
         bool>
 write_result(D* dst, const T* src, dimn_t count) noexcept
 {
-    for (dimn_t i = 0; i < count; ++i) { construct_inplace(dst++, *(src++)); }
+    try {
+        for (dimn_t i = 0; i < count; ++i) {
+            construct_inplace(dst++, *(src++));
+        }
+    } catch (...) {
+        return false;
+    }
     return true;
 }
 
@@ -85,9 +91,21 @@ write_result(D* dst, const T* src, dimn_t count) noexcept
 
 template <typename D, typename T>
 static inline enable_if_t<!is_constructible_v<D, const T&>, bool>
-write_result(D*, const T*, dimn_t) noexcept
+write_result(D* dst, const T* src, dimn_t count) noexcept
 {
-    return false;
+    if constexpr (is_same_v<T, half> || is_same_v<T, bfloat16>) {
+        // Everything can be constructed from a float
+        try {
+            for (dimn_t i = 0; i < count; ++i) {
+                dst[i] = D(static_cast<float>(src[i]));
+            }
+        } catch (...) {
+            return false;
+        }
+        return true;
+    } else {
+        return false;
+    }
 }
 
 static inline bool write_single_poly(rational_poly_scalar* dst, const rational_poly_scalar& value)
-- 
2.43.0


From 771642ae6f208d68174bb6c16fb558c296b380f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 55/70] fix: read buffers with their own number of dimensions

The item size was used for the number of dimensions, so every buffer that
could not be borrowed was read beyond its shape and strides.
---
 roughpy/src/args/buffer_info.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/args/buffer_info.h b/roughpy/src/args/buffer_info.h
index 297b370..b459f97 100644
--- a/roughpy/src/args/buffer_info.h
+++ b/roughpy/src/args/buffer_info.h
@@ -39,7 +39,7 @@ public:
 
     RPY_NO_DISCARD bool is_contiguous() const noexcept
     {
-        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'A'));
+        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'C'));
     }
 
     RPY_NO_DISCARD idimn_t itemsize() const noexcept
@@ -50,7 +50,7 @@ public:
 
     RPY_NO_DISCARD idimn_t ndim() const noexcept
     {
-        return static_cast<idimn_t>(m_view.itemsize);
+        return static_cast<idimn_t>(m_view.ndim);
     }
 
     RPY_NO_DISCARD const Py_ssize_t* shape() const noexcept
-- 
2.43.0


From fbac9799874ac2c09c61ad7be4aa962c8d09245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 56/70] fix: the type of a scalar without a scalar type is an
 error

Zero and integer scalars have no scalar type; asking for it terminated the
process.
---
 roughpy/src/scalars/scalars.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 5532c19..0043c7a 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -100,7 +100,11 @@ void python::init_scalars(pybind11::module_& m)
     py::class_<Scalar> klass(m, "Scalar", SCALAR_DOC);
 
     klass.def("scalar_type", [](const Scalar& self) {
-        return scalar_type_to_py_type(*self.type());
+        const auto type = self.type();
+        if (!type || *type == nullptr) {
+            RPY_THROW(py::type_error, "the scalar does not have a type");
+        }
+        return scalar_type_to_py_type(*type);
     });
 
     RPY_WARNING_PUSH
@@ -253,9 +257,9 @@ void python::init_scalars(pybind11::module_& m)
         std::stringstream ss;
         ss << "Scalar(type=";
         auto tp = self.type();
-        if (tp) {
+        if (tp && *tp != nullptr) {
             ss << string((*tp)->name());
-        } else {
+        } else if (!tp) {
             auto info = self.type_info();
             if (info.code == devices::TypeCode::Int) {
                 ss << "int" << CHAR_BIT * info.bytes;
-- 
2.43.0


From 29345a8729889dc80de5131410c786e82a13141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:31 +0000
Subject: [PATCH 57/70] fix: the variance of a Brownian midpoint falls with the
 length

The exponent had the wrong sign: the finer the halves of an interval, the
larger were their increments.
---
 streams/src/brownian_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/src/brownian_stream.cpp b/streams/src/brownian_stream.cpp
index 7769afd..065c639 100644
--- a/streams/src/brownian_stream.cpp
+++ b/streams/src/brownian_stream.cpp
@@ -69,7 +69,7 @@ pair<algebra::Lie, algebra::Lie> BrownianStream::compute_child_lie_increments(
     const auto mean
             = parent_value.smul(scalars::Scalar(md.data_scalar_type, 1, 2));
 
-    auto length = ldexp(0.5, left_di.power());
+    auto length = ldexp(0.5, -left_di.power());
 
     const auto perturbation = gaussian_increment(*md.default_context, length);
     return {mean.add(perturbation), mean.sub(perturbation)};
-- 
2.43.0


From c662f74443657b545714436c69256bdfbf550e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:02 +0000
Subject: [PATCH 58/70] fix: refine all of a dynamic stream and keep its two
 sides of zero apart

A query on the other side of zero than the first never returned, the value
of a new root was not that of its halves, and only the leftmost leaf below
an interval was refined to the requested accuracy.
---
 .../src/dynamically_constructed_stream.cpp    | 84 +++++++------------
 1 file changed, 31 insertions(+), 53 deletions(-)

diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index d55e045..df8a654 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -47,51 +47,18 @@ void streams::DynamicallyConstructedStream::refine_accuracy(
     DynamicallyConstructedStream::data_increment increment,
     resolution_t desired) const
 {
-    RPY_DBG_ASSERT(increment->first.power() < desired);
-    //
-    //    // get all the intervals in the tree "below" increment->first
-    //    auto range = m_data_tree.equal_range(increment->first);
-    //
-    //    // update all the leaves below until we reach the desired accuracy
-    //    while (range.first != range.second) {
-    //        if (range.first->second.accuracy() >= desired) {
-    //            // Do nothing, but advance until after this interval
-    //            DyadicInterval val(range.first->first);
-    //            ++val;
-    //
-    //            for (; range.first->first < val; ++range.first) {}
-    //        } else if (DataIncrement::is_leaf(range.first)) {
-    //            // If we're at depth and have a leaf, then
-    //            // divide and refine down.
-    //            DyadicInterval val(range.first->first);
-    //            val.shrink_interval_left();
-    //            range.first = insert_children_and_refine(range.first, val);
-    //        } else {
-    //            // If we're not a leaf, then continue down the tree until
-    //            // we reach a leaf.
-    //            ++range.first;
-    //        }
-    //    }
-    auto [leaf_above, end] = m_data_tree.equal_range(increment->first);
-
-    for (; leaf_above != end && leaf_above->first.power() < desired; ++leaf_above) {
-        if (!DataIncrement::is_leaf(leaf_above)) { continue; }
+    if (increment->second.accuracy() >= desired) { return; }
 
-        DyadicInterval refined_inc(increment->first);
-        DyadicInterval refined_end(increment->first);
-        refined_inc.shrink_interval_left(desired - increment->first.power());
-        ++refined_end;
-        refined_end.shrink_interval_left(desired - increment->first.power());
-
-        for (; refined_inc < refined_end; ++(++refined_inc)) {
-            while (leaf_above->first.contains_dyadic(refined_inc)
-                && !dyadic_equals(leaf_above->first, refined_inc)) {
-                leaf_above = insert_children_and_refine(leaf_above, refined_inc);
-            }
-
-            update_parents(leaf_above);
-        }
+    if (DataIncrement::is_leaf(increment)) {
+        // this updates the accuracy of increment and of those above it
+        (void) insert_children_and_refine(increment, increment->first);
     }
+
+    // The half that shares the included end comes next in the tree; all
+    // leaves below both halves have to reach the desired accuracy.
+    auto child = std::next(increment);
+    refine_accuracy(child, desired);
+    refine_accuracy(child->second.sibling(), desired);
 }
 
 DynamicallyConstructedStream::data_increment
@@ -138,11 +105,7 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
             make_neighbour_root_increment(neighbour),
             neighbour.power(),
             old_root);
-        root = insert_node(new_root,
-                           make_new_root_increment(new_root),
-                           old_root->first.power(),
-                           old_root);
-        update_parent_accuracy(old_root);
+        root = insert_node(new_root, Lie(), new_root.power(), old_root);
 
         RPY_DBG_ASSERT(old_root != it_neighbour);
         RPY_DBG_ASSERT(it_neighbour != root);
@@ -151,6 +114,9 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
         old_root->second.sibling(it_neighbour);
         it_neighbour->second.parent(root);
         it_neighbour->second.sibling(old_root);
+
+        // the value of the new root is that of its two halves
+        update_parent_accuracy(old_root);
     }
     return root;
 }
@@ -220,11 +186,10 @@ void streams::DynamicallyConstructedStream::update_parents(
     //        top = update_parent_accuracy(below);
     //    }
     const auto& md = metadata();
-    auto root = m_data_tree.begin();
+    const auto dtend = m_data_tree.end();
 
-    while (current != root) {
+    while (current->second.parent() != dtend) {
         auto parent = current->second.parent();
-        RPY_DBG_ASSERT(parent != m_data_tree.end());
         auto sibling = current->second.sibling();
 
         auto accuracy_available = std::min(current->second.accuracy(),
@@ -304,9 +269,22 @@ algebra::Lie DynamicallyConstructedStream::log_signature(
         return found->second.lie();
     }
 
-    auto root = m_data_tree.begin();
+    // No dyadic interval contains points of both sides of zero, so there is
+    // one tree for each side.
+    const auto same_side = [&interval](const_data_increment other) {
+        return (other->first.inf() < 0.0) == (interval.inf() < 0.0);
+    };
+    auto root = m_data_tree.lower_bound(interval);
+    if (root == end || !same_side(root)) {
+        root = (root == m_data_tree.begin()) ? end : std::prev(root);
+        if (root != end && !same_side(root)) { root = end; }
+    }
+    while (root != end && root->second.parent() != end) {
+        root = root->second.parent();
+    }
+
     if (root == end) {
-        // The tree currently holds no data.
+        // The tree on this side currently holds no data.
         root = insert_node(interval,
                            make_new_root_increment(interval),
                            interval.power(),
-- 
2.43.0


From 0118eb90e56c51737fc0caac23638f1d6c8f65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:38 +0000
Subject: [PATCH 59/70] fix: reload a Brownian stream in the order it was saved

The seed and the name of the generator were read in the opposite order, so
that a pickled stream could not be loaded.
---
 streams/include/roughpy/streams/brownian_stream.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streams/include/roughpy/streams/brownian_stream.h b/streams/include/roughpy/streams/brownian_stream.h
index 3e306b4..5f13d78 100644
--- a/streams/include/roughpy/streams/brownian_stream.h
+++ b/streams/include/roughpy/streams/brownian_stream.h
@@ -109,12 +109,13 @@ RPY_SERIAL_LOAD_FN_IMPL(BrownianStream)
     const auto* stype = md.data_scalar_type;
 //    set_metadata(std::move(md));
 
-    std::string generator;
-    RPY_SERIAL_SERIALIZE_VAL(generator);
-
+    // the same order as they were saved in
     std::vector<uint64_t> seed;
     RPY_SERIAL_SERIALIZE_VAL(seed);
 
+    std::string generator;
+    RPY_SERIAL_SERIALIZE_VAL(generator);
+
     std::string state;
     RPY_SERIAL_SERIALIZE_VAL(state);
 
-- 
2.43.0


From 7617febeff0522072d5651fe21d4384ae390a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:18 +0000
Subject: [PATCH 60/70] fix: ask the increments of a tensor valued stream at
 the given resolution

The resolution was used to cut the interval but not given on, so that the
pieces were rounded to the resolution of the increments and lost them.
---
 streams/src/tensor_valued_stream.cpp | 16 ++++++++++++++++
 streams/src/tensor_valued_stream.h   | 12 ++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/streams/src/tensor_valued_stream.cpp b/streams/src/tensor_valued_stream.cpp
index 9290d4f..5300521 100644
--- a/streams/src/tensor_valued_stream.cpp
+++ b/streams/src/tensor_valued_stream.cpp
@@ -39,6 +39,22 @@ algebra::Lie TensorValuedStream::log_signature_impl(
     return p_increment_stream->log_signature(interval, ctx);
 }
 
+algebra::Lie TensorValuedStream::log_signature(
+    const intervals::DyadicInterval& interval,
+    resolution_t resolution,
+    const algebra::Context& ctx) const
+{
+    return p_increment_stream->log_signature(interval, resolution, ctx);
+}
+
+algebra::Lie TensorValuedStream::log_signature(
+    const intervals::Interval& interval,
+    resolution_t resolution,
+    const algebra::Context& ctx) const
+{
+    return p_increment_stream->log_signature(interval, resolution, ctx);
+}
+
 const intervals::RealInterval& TensorValuedStream::domain() const noexcept
 {
     return m_domain;
diff --git a/streams/src/tensor_valued_stream.h b/streams/src/tensor_valued_stream.h
index 969e15b..332affd 100644
--- a/streams/src/tensor_valued_stream.h
+++ b/streams/src/tensor_valued_stream.h
@@ -45,6 +45,18 @@ protected:
         const algebra::Context& ctx) const override;
 
 public:
+    using ValueStream::log_signature;
+
+    RPY_NO_DISCARD algebra::Lie log_signature(
+        const intervals::DyadicInterval& interval,
+        resolution_t resolution,
+        const algebra::Context& ctx) const override;
+
+    RPY_NO_DISCARD algebra::Lie log_signature(
+        const intervals::Interval& interval,
+        resolution_t resolution,
+        const algebra::Context& ctx) const override;
+
     const intervals::RealInterval& domain() const noexcept override;
 
     RPY_NO_DISCARD std::shared_ptr<const ValueStream> query(
-- 
2.43.0


From 5fe4767905e91e7507a35846deb6a054eef68f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 61/70] fix: round queries of another depth to the stream's
 resolution too

A query of another depth than the stream's was cut without regard to the
resolution of the stream and lost or moved increments.
---
 streams/src/dyadic_caching_layer.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index 178c162..2aa7267 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -146,13 +146,8 @@ DyadicCachingLayer::log_signature(const intervals::Interval& domain,
                                   resolution_t resolution,
                                   const algebra::Context& ctx) const
 {
-    // For now, if the ctx depth is not the same as md depth just do the
-    // calculation without caching be smarter about this in the future.
     const auto& md = DyadicCachingLayer::metadata();
     RPY_CHECK(ctx.width() == md.width);
-    if (ctx.depth() != md.default_context->depth()) {
-        return StreamInterface::log_signature(domain, resolution, ctx);
-    }
 
     auto dyadic_dissection = intervals::to_dyadic_intervals(domain, resolution);
 
-- 
2.43.0


From dcdce16ecffb1e41a4fbc6eedeb2b0f8311237fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:36 +0000
Subject: [PATCH 62/70] fix: the adjoint of free multiplication has the type of
 its argument

---
 roughpy/src/algebra/free_multiply_funcs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/free_multiply_funcs.cpp b/roughpy/src/algebra/free_multiply_funcs.cpp
index f43ae4c..c04d384 100644
--- a/roughpy/src/algebra/free_multiply_funcs.cpp
+++ b/roughpy/src/algebra/free_multiply_funcs.cpp
@@ -186,12 +186,13 @@ adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
     algebra::context_pointer ctx;
     if (py::isinstance<algebra::FreeTensor>(multiplier)) {
         const auto& left_real = multiplier.cast<const algebra::FreeTensor&>();
-        result_alg_type = algebra::AlgebraType::FreeTensor;
         ctx = left_real.context();
         mul_raw = (&*left_real);
         if (py::isinstance<algebra::FreeTensor>(arg)) {
+            result_alg_type = algebra::AlgebraType::FreeTensor;
             arg_raw = &*arg.cast<const algebra::FreeTensor&>();
         } else if (py::isinstance<algebra::ShuffleTensor>(arg)) {
+            result_alg_type = algebra::AlgebraType::ShuffleTensor;
             arg_raw = &*arg.cast<const algebra::ShuffleTensor&>();
         } else {
             RPY_THROW(std::runtime_error,"argument 'right' must be of type "
@@ -204,8 +205,10 @@ adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
         ctx = left_real.context();
         mul_raw = (&*left_real);
         if (py::isinstance<algebra::FreeTensor>(arg)) {
+            result_alg_type = algebra::AlgebraType::FreeTensor;
             arg_raw = &*arg.cast<const algebra::FreeTensor&>();
         } else if (py::isinstance<algebra::ShuffleTensor>(arg)) {
+            result_alg_type = algebra::AlgebraType::ShuffleTensor;
             arg_raw = &*arg.cast<const algebra::ShuffleTensor&>();
         } else {
             RPY_THROW(std::runtime_error,"argument 'right' must be of type "
-- 
2.43.0


From 5f5d80b7f4e50ce02d57a9ea2a64b009513c4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:22 +0000
Subject: [PATCH 63/70] fix: a sparse vector does not keep zero multiples

---
 vendored/libalgebra_lite/sparse_vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index def6da3..855c47e 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -477,7 +477,10 @@ public:
                 assert(item.second != zero);
                 scalar_type new_val = zero;
                 op(new_val, item.second);
-                insert_new_value(item.first, new_val);
+                // a multiple of zero is not stored
+                if (new_val != zero) {
+                    insert_new_value(item.first, new_val);
+                }
             }
         }
 
-- 
2.43.0


From 5c0c654c4e386a1e9beeaaf3a485bf4205395c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 64/70] fix: dense kernel ft_adj_lmul lost terms when the
 output is truncated or the operator starts above degree zero

---
 roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp b/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
index ea523ea..c0b82d8 100644
--- a/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
+++ b/roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp
@@ -39,8 +39,8 @@ void ft_adj_lmul(DenseTensorView<OutIter> out,
      * as those operations do.
      */
 
-    const auto arg_max_degree = std::min(arg.max_degree() - op.min_degree(), out.max_degree());
-    auto arg_min_degree = std::max(arg.min_degree() - op.max_degree(), out.min_degree());
+    const auto arg_max_degree = std::min(arg.max_degree(), out.max_degree() + op.max_degree());
+    auto arg_min_degree = std::max(arg.min_degree(), out.min_degree() + op.min_degree());
 
     for (Degree arg_degree = arg_max_degree; arg_degree >= arg_min_degree; --
          arg_degree)
-- 
2.43.0


From ec02c41f92a4d73eb724011e284e2671325c0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 65/70] fix: dense antipode kernel wrote degree one through
 views of degree zero

---
 roughpy_compute/dense/basic/free_tensor_antipode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/basic/free_tensor_antipode.hpp b/roughpy_compute/dense/basic/free_tensor_antipode.hpp
index 4a8187d..12bb456 100644
--- a/roughpy_compute/dense/basic/free_tensor_antipode.hpp
+++ b/roughpy_compute/dense/basic/free_tensor_antipode.hpp
@@ -69,7 +69,7 @@ void ft_antipode(
 
     // The level one elements are mapped to the corresponding level one
     // elements, with signing
-    if (min_degree <= 1) {
+    if (min_degree <= 1 && max_degree >= 1) {
         signer.for_degree(1);
         auto arg_level = arg.at_level(1);
         auto out_level = out.at_level(1);
-- 
2.43.0


From 09d98c5bbc68ae3eb7f7fdc0e52159d39154dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 66/70] fix: strided dense iterator did not scale offsets by
 its stride

---
 roughpy_compute/dense/views.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/roughpy_compute/dense/views.hpp b/roughpy_compute/dense/views.hpp
index 37435c9..abff96e 100644
--- a/roughpy_compute/dense/views.hpp
+++ b/roughpy_compute/dense/views.hpp
@@ -99,7 +99,7 @@ public:
         StridedDenseIterator const& iter,
         difference_type offset) noexcept
     {
-        return {iter.base_, iter.stride_, offset};
+        return {iter.base_, iter.stride_, offset * iter.stride_};
     }
 
     [[nodiscard]]
@@ -107,7 +107,7 @@ public:
         difference_type offset,
         StridedDenseIterator const& iter) noexcept
     {
-        return {iter.base_, iter.stride_, offset};
+        return {iter.base_, iter.stride_, offset * iter.stride_};
     }
 
     [[nodiscard]]
@@ -115,7 +115,7 @@ public:
         StridedDenseIterator const& iter,
         difference_type offset) noexcept
     {
-        return {iter.base_, iter.stride_, -offset};
+        return {iter.base_, iter.stride_, -offset * iter.stride_};
     }
 
     friend constexpr difference_type operator-(StridedDenseIterator const& lhs,
-- 
2.43.0


From 827739fca7edcee6008ae663c9cf942b56bdf4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 67/70] fix: compressed matrix used the offsets' iterator for
 its indices

---
 roughpy_compute/common/sparse_matrix.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/roughpy_compute/common/sparse_matrix.hpp b/roughpy_compute/common/sparse_matrix.hpp
index 40a32e8..9ed5cc1 100644
--- a/roughpy_compute/common/sparse_matrix.hpp
+++ b/roughpy_compute/common/sparse_matrix.hpp
@@ -2,6 +2,7 @@
 #define ROUGHPY_COMPUTE_COMMON_SPARSE_MATRIX_HPP
 
 #include <algorithm>
+#include <cassert>
 #include <cstdint>
 #include <iterator>
 #include <utility>
@@ -217,7 +218,7 @@ public:
         assert(n_non_zero_ <= n_offsets_ * inner_dim_);
     }
 
-    using compressed_range = dtl::CompressedRange<DataIter_, OffsetIter_>;
+    using compressed_range = dtl::CompressedRange<DataIter_, IndicesIter_>;
 
     constexpr compressed_range in_dim(Index dim) const noexcept
     {
@@ -257,8 +258,8 @@ public:
 
         if (dim_begin == dim_end) { return zero; }
 
-        const auto inner_begin = indices_[dim_begin];
-        const auto inner_end = indices_[dim_end];
+        const auto inner_begin = indices_ + dim_begin;
+        const auto inner_end = indices_ + dim_end;
         auto inner = std::find(inner_begin, inner_end, inner_dim);
         if (inner == inner_end) { return zero; }
 
-- 
2.43.0


From eeff334654910ad9646d68c16592befe5505975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 68/70] fix: tiled shuffle product kernel did not compile and
 left out the last term

---
 roughpy_compute/dense/basic/shuffle_tensor_product.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/roughpy_compute/dense/basic/shuffle_tensor_product.hpp b/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
index c67a37d..c9998e7 100644
--- a/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
+++ b/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
@@ -139,7 +139,7 @@ void st_fma(
 
             std::fill_n(tile.data(), width, Scalar{0});
 
-            for (Mask mask{}; mask < Mask(out_deg - 1); ++mask) {
+            for (Mask mask{}; mask <= Mask(out_deg - 1); ++mask) {
 
                 Index lhs_idx = 0;
                 Degree lhs_degree = 0;
@@ -149,6 +149,8 @@ void st_fma(
                 TensorBasis::pack_masked_index(
                         letters.data(),
                         out_deg - 2,
+                        width,
+                        mask,
                         lhs_degree,
                         lhs_idx,
                         rhs_degree,
-- 
2.43.0


From a446ce3a379dc5422f11268f1d6aef68246c6fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0000
Subject: [PATCH 69/70] fix: logarithm kernel added what was in the output's
 constant term

---
 roughpy_compute/dense/intermediate/free_tensor_log.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/roughpy_compute/dense/intermediate/free_tensor_log.hpp b/roughpy_compute/dense/intermediate/free_tensor_log.hpp
index 04e9e48..aa7d47d 100644
--- a/roughpy_compute/dense/intermediate/free_tensor_log.hpp
+++ b/roughpy_compute/dense/intermediate/free_tensor_log.hpp
@@ -20,6 +20,8 @@ void ft_log(DenseTensorView<OutIter> out, DenseTensorView<ArgIter> arg)
     constexpr Scalar unit { 1 };
 
 
+    out[0] = Scalar { 0 };
+
     auto const max_degree = out.max_degree();
     for (Degree deg=max_degree; deg > 0; --deg) {
         auto const max_level = max_degree - deg + 1;
-- 
2.43.0


From b4c547337b0326ab705cefbb94a43ecfcbfa75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:20 +0000
Subject: [PATCH 70/70] fix: increments given for a time that already had one
 were dropped

---
 .../roughpy/streams/lie_increment_stream.h     |  2 +-
 streams/src/lie_increment_stream.cpp           | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/streams/include/roughpy/streams/lie_increment_stream.h b/streams/include/roughpy/streams/lie_increment_stream.h
index 826353b..4957348 100644
--- a/streams/include/roughpy/streams/lie_increment_stream.h
+++ b/streams/include/roughpy/streams/lie_increment_stream.h
@@ -49,7 +49,7 @@ public:
     using Lie = algebra::Lie;
 
 private:
-    boost::container::flat_map<param_t, Lie> m_data;
+    boost::container::flat_map<param_t, std::vector<Lie>> m_data;
 
 public:
     using DyadicCachingLayer::DyadicCachingLayer;
diff --git a/streams/src/lie_increment_stream.cpp b/streams/src/lie_increment_stream.cpp
index 4cabe77..4eea6e6 100644
--- a/streams/src/lie_increment_stream.cpp
+++ b/streams/src/lie_increment_stream.cpp
@@ -96,15 +96,15 @@ LieIncrementStream::LieIncrementStream(
                         scalars::KeyScalarArray(*buffer.type(), dptr, width),
                         md.cached_vector_type};
 
-                auto [it, inserted]
-                        = m_data.try_emplace(index, ctx.construct_lie(cdata));
+                auto [it, inserted] = m_data.try_emplace(index);
+                it->second.push_back(ctx.construct_lie(cdata));
 
                 if (inserted && param_needs_adding) {
                     /*
                      * We've inserted a new element, so we should now add the param
                      * value if it is needed.
                      */
-                    it->second[param_slot] = Scalar(index - previous_param);
+                    it->second.back()[param_slot] = Scalar(index - previous_param);
                 }
                 previous_param = index;
                 dptr += stride;
@@ -142,16 +142,16 @@ LieIncrementStream::LieIncrementStream(
                 md.cached_vector_type
         };
 
-        auto [it, inserted]
-                = m_data.try_emplace(index, ctx.construct_lie(cdata));
-
+        // Increments at one parameter follow each other in the order given
+        auto [it, inserted] = m_data.try_emplace(index);
+        it->second.push_back(ctx.construct_lie(cdata));
 
         if (inserted && param_needs_adding) {
             /*
              * We've inserted a new element, so we should now add the param
              * value if it is needed.
              */
-            it->second[param_slot] = index - previous_param;
+            it->second.back()[param_slot] = index - previous_param;
         }
         previous_param = index;
 
@@ -166,7 +166,7 @@ LieIncrementStream::LieIncrementStream(std::vector<pair<param_t, Lie>>&& data,
 {
     m_data.reserve(data.size());
     for (auto&& [param, lie] : data | views::move) {
-        m_data.emplace(param, std::move(lie));
+        m_data[param].push_back(std::move(lie));
     }
 
 }
@@ -192,7 +192,7 @@ algebra::Lie LieIncrementStream::log_signature_impl(
     lies.reserve(static_cast<dimn_t>(end - begin));
 
     for (auto it = begin; it != end; ++it) {
-        lies.push_back(&it->second);
+        for (const auto& lie : it->second) { lies.push_back(&lie); }
     }
 
     return ctx.cbh(lies, md.cached_vector_type);
-- 
2.43.0

