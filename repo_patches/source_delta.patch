From 714053242f9c0c36fb593a08baf7b6e61b107feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 01/46] fix: BigInt += and -= with the same object on both
 sides

The destination is resized before the size of the right operand is read, so
with one object on both sides the loop over the right operand ran past the end
of the words.
---
 include/walnut/big_int.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b269f9d..cc2f9b8 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -275,14 +275,17 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be the same object as `this`, so its size must be read before
+    // resizing.
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Add(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Add(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Add(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Add(other_extension, carry, &carry);
@@ -347,14 +350,17 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be the same object as `this`, so its size must be read before
+    // resizing.
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Subtract(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Subtract(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Subtract(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Subtract(other_extension, carry, &carry);
-- 
2.43.0


From a8d69f8456cbbcbb0665a19c02df6ff945bc716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 02/46] fix: BigInt ++ and -- at word boundaries

Incrementing the largest value of a length wrote past the last word instead of
adding one, and a step that made the top word redundant did not trim it, so the
value compared unequal to the same integer.
---
 include/walnut/big_int.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index cc2f9b8..f8053e3 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -320,13 +320,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       ++words_[i];
       if (words_[i] != 0) {
+        Trim();
         return *this;
       }
     }
     ++words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::min()) {
-      ++i;
-      ++words_[i] = 0;
+      words_.push_back(BigUIntWord{0});
     } else {
       Trim();
     }
@@ -396,6 +396,7 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       --words_[i];
       if ((BigIntWord)words_[i] != -1) {
+        Trim();
         return *this;
       }
     }
-- 
2.43.0


From 03df36ee80313ab5ec110a4806e40dd2703a8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 03/46] fix: BigInt::abs of the lowest single word value

The result kept its sign because the magnitude does not fit one signed word.
---
 include/walnut/big_int.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index f8053e3..ce0821e 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -736,7 +736,9 @@ class BigInt {
   }
 
   BigInt abs() const {
-    if (used_words() == 1) {
+    // The absolute value of the lowest single word value needs two words.
+    if (used_words() == 1 &&
+        BigIntWord{words_[0]} != std::numeric_limits<BigIntWord>::min()) {
       return BigInt(BigIntWord{words_[0].SignedAbs()});
     }
     if (BigIntWord{words_[used_words() - 1]} >= 0) {
-- 
2.43.0


From f3893a8575264f1811d126f61132f4c0042acb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 04/46] fix: division when the partial remainder becomes short

When a step of the long division cancels so many bits that the remainder loses
its top words, the next step read a word past the end of the remainder.
---
 include/walnut/big_uint.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index b38162b..d7976d1 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -265,6 +265,7 @@ class BigUInt {
   BigUIntWord GetAtBitOffset(size_t shift) const {
     size_t word_index = shift / bits_per_word;
     unsigned word_offset = shift % bits_per_word;
+    if (word_index >= words_.size()) return BigUIntWord{0};
     BigUIntWord next{0};
     if (word_index + 1 < words_.size()) {
       next = words_[word_index+1];
-- 
2.43.0


From 360ab13766dfdcf4ae1b8675654f2d5943708005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 05/46] fix: dividing the lowest single word value by -1

The quotient does not fit one word, and the machine division traps.
---
 include/walnut/big_int.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index ce0821e..87ed1cd 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -660,7 +660,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the quotient.
   BigInt operator/(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (IsWordDivision(other)) {
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
     }
     BigInt unused;
@@ -684,7 +684,7 @@ class BigInt {
   //
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (IsWordDivision(other)) {
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
@@ -694,7 +694,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the remainder.
   BigInt operator%(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (IsWordDivision(other)) {
       return BigInt(BigIntWord{words_[0]} %
                         BigIntWord{other.words_[0]});
     }
@@ -867,6 +867,14 @@ class BigInt {
     }
   }
 
+  // Returns true if *this and `other` are single words whose quotient also fits
+  // in a single word, which is not the case for min / -1.
+  constexpr bool IsWordDivision(const BigInt& other) const {
+    return used_words() == 1 && other.used_words() == 1 &&
+           !(BigIntWord{other.words_[0]} == -1 &&
+             BigIntWord{words_[0]} == std::numeric_limits<BigIntWord>::min());
+  }
+
   BigInt MultiplySlow(const BigInt& other) const;
 
   // Mask everyone of `other` words with `mask`, then subtract other_masked *
-- 
2.43.0


From 5f216ebf6e6af67b10c8eaa037733074f2f58290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 06/46] fix: BigUInt left shift by more than one word

The words below the shifted value were left uninitialized.
---
 include/walnut/big_uint.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index d7976d1..e5b8b9b 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -76,6 +76,9 @@ class BigUInt {
       result.words_.resize(allocate);
       BigUIntWord prev(0);
       const int prev_right_shift = bits_per_word - word_left_shift;
+      for (size_t i = 0; i < out; ++i) {
+        result.words_[i] = 0;
+      }
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in] << word_left_shift |
                                prev >> prev_right_shift;
@@ -86,6 +89,9 @@ class BigUInt {
     } else {
       size_t copy = used_words();
       result.words_.resize(copy + out);
+      for (size_t i = 0; i < out; ++i) {
+        result.words_[i] = 0;
+      }
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in];
       }
-- 
2.43.0


From eaba3e2533c8c60019ac1ddc2d75e94b9a12d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 07/46] fix: carry into a new word in BigUInt::AddLeftShifted

The word appended for the carry was not initialized.
---
 include/walnut/big_uint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index e5b8b9b..02588b8 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -185,7 +185,7 @@ class BigUInt {
       pos++;
     }
     for (; carry; pos++) {
-      words_.resize(std::max(used_words(), (pos + 1)));
+      words_.resize(std::max(used_words(), (pos + 1)), BigUIntWord{0});
       words_[pos] = words_[pos].Add(carry, &carry);
     }
     assert(used_words() == std::max(old_used, pos));
-- 
2.43.0


From 80984205630816469055ef7df64391a870611af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 08/46] fix: HomoPoint2::LexicographicallyLt with a negative
 denominator

---
 include/walnut/homo_point2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/homo_point2.h b/include/walnut/homo_point2.h
index 0928a7b..a5ae229 100644
--- a/include/walnut/homo_point2.h
+++ b/include/walnut/homo_point2.h
@@ -69,8 +69,9 @@ class HomoPoint2 {
     vector_from_origin_(v), dist_denom_(w) { }
 
   static bool LexicographicallyLt(const HomoPoint2& a, const HomoPoint2& b) {
-    auto a_scaled = a.vector_from_origin() * b.dist_denom();
-    auto b_scaled = b.vector_from_origin() * a.dist_denom();
+    int sign_flip = b.dist_denom().GetAbsMult(a.dist_denom());
+    auto a_scaled = a.vector_from_origin() * (b.dist_denom() * sign_flip);
+    auto b_scaled = b.vector_from_origin() * (a.dist_denom() * sign_flip);
     return std::lexicographical_compare(a_scaled.coords().begin(),
                                         a_scaled.coords().end(),
                                         b_scaled.coords().begin(),
-- 
2.43.0


From efc9a521412a65fb22869d34f6d858c3a440d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 09/46] fix: HomoPoint3::Get2DTwistDir with denominators of
 opposite signs

---
 src/walnut/homo_point3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 165ef3a..56f97bf 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -99,9 +99,12 @@ BigIntWord HomoPoint3::Get2DTwistDir(int drop_dimension, const HomoPoint3& p1,
     vector_from_origin().DropDimension(drop_dimension) * p3.dist_denom();
   Vector2 p3_from_origin =
     p3.vector_from_origin().DropDimension(drop_dimension) * dist_denom();
-  return (p1_from_origin - p2_from_origin1).Cross(
-      p3_from_origin - p2_from_origin3).GetSign() ^
-    p1.dist_denom().SignExtension() ^ p3.dist_denom().SignExtension();
+  BigInt cross = (p1_from_origin - p2_from_origin1).Cross(
+      p3_from_origin - p2_from_origin3);
+  if (p1.dist_denom().HasDifferentSign(p3.dist_denom())) {
+    cross.Negate();
+  }
+  return cross.GetSign();
 }
 
 void HomoPoint3::Reduce() {
-- 
2.43.0


From b7c73d5da1bf850de591aaf7351f016783f97a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 10/46] fix: HomoPoint3::FromDoubles with a grain larger than 1

---
 src/walnut/homo_point3.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 56f97bf..25b040d 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -27,12 +27,12 @@ HomoPoint3 HomoPoint3::FromDoubles(int min_exponent, double x, double y,
   int64_t y_mantissa = Decompose(y, &y_exp);
   int64_t z_mantissa = Decompose(z, &z_exp);
 
-  int denom_exp = std::min(0,
-                           std::max(min_exponent,
-                                    std::min({x_exp, y_exp, z_exp})));
-  return HomoPoint3(SafeShiftLeft(x_mantissa, x_exp - denom_exp),
-                    SafeShiftLeft(y_mantissa, y_exp - denom_exp),
-                    SafeShiftLeft(z_mantissa, z_exp - denom_exp),
+  int grain_exp = std::max(min_exponent, std::min({x_exp, y_exp, z_exp}));
+  int denom_exp = std::min(0, grain_exp);
+  int scale_exp = grain_exp - denom_exp;
+  return HomoPoint3(SafeShiftLeft(x_mantissa, x_exp - grain_exp) << scale_exp,
+                    SafeShiftLeft(y_mantissa, y_exp - grain_exp) << scale_exp,
+                    SafeShiftLeft(z_mantissa, z_exp - grain_exp) << scale_exp,
                     BigInt(1) << -denom_exp);
 }
 
-- 
2.43.0


From e8ea80c1b65d3f59709f7fdcfc8365407e17e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 11/46] fix: HalfSpace3Compare for planes whose normal
 components add up to zero

---
 include/walnut/half_space3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/half_space3.h b/include/walnut/half_space3.h
index 23e75fa..3f9abf2 100644
--- a/include/walnut/half_space3.h
+++ b/include/walnut/half_space3.h
@@ -278,8 +278,8 @@ std::ostream& operator<<(std::ostream& out, const HalfSpace3& p);
 // This is useful for putting `HalfSpace3`s in a std::map or std::set.
 struct HalfSpace3Compare {
   bool operator()(const HalfSpace3& a, const HalfSpace3& b) const {
-    BigInt scale_a = (b.x() + b.y() + b.z()).abs();
-    BigInt scale_b = (a.x() + a.y() + a.z()).abs();
+    BigInt scale_a = b.x().abs() + b.y().abs() + b.z().abs();
+    BigInt scale_b = a.x().abs() + a.y().abs() + a.z().abs();
 
     return std::make_tuple(a.x().Multiply(scale_a),
                            a.y().Multiply(scale_a),
-- 
2.43.0


From c783b4fafed254f9222650e2888e0496d00609e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 12/46] fix: HalfSpace2SidelessCompare for lines with a zero x
 component

---
 include/walnut/half_space2_sideless_compare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/half_space2_sideless_compare.h b/include/walnut/half_space2_sideless_compare.h
index b3f35b9..55a602f 100644
--- a/include/walnut/half_space2_sideless_compare.h
+++ b/include/walnut/half_space2_sideless_compare.h
@@ -26,7 +26,7 @@ struct HalfSpace2SidelessCompare {
           /*flip=*/h1.x().HasDifferentSign(h2.x()), h2.d() * h1.x());
     } else {
       return (h1.d() * h2.y()).LessThan(
-          /*flip=*/h1.y().HasDifferentSign(h2.x()), h2.d() * h1.y());
+          /*flip=*/h1.y().HasDifferentSign(h2.y()), h2.d() * h1.y());
     }
   }
 };
-- 
2.43.0


From 782344d64c23a8bdf0acfe9bc934717c4aa04b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 13/46] fix: SubtractIdsFilter subtracts from the first listed
 id

---
 include/walnut/boolean_operation_filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 13eda01..8293967 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -118,8 +118,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       return std::make_pair(false, false);
     } 
 
-    std::pair<bool, bool> total(content_info_by_id[0].pwn > 0,
-                                content_info_by_id[0].has_polygons());
+    const BSPContentInfo& minuend = content_info_by_id[ids_[0]];
+    std::pair<bool, bool> total(minuend.pwn > 0, minuend.has_polygons());
 
     for (size_t i = 1; i < ids_.size(); ++i) {
       BSPContentId id = ids_[i];
-- 
2.43.0


From 78e7220bec6309cc95f950929f8317cd45700db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 14/46] fix: inverted and subtracted ids without content have a
 winding number of 0

---
 include/walnut/boolean_operation_filter.h | 3 ++-
 include/walnut/bsp_visitor.h              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 8293967..edaee63 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -127,7 +127,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       std::pair<bool, bool> id_result;
 
       if (id >= content_info_by_id.size()) {
-        id_result = std::make_pair(false, false);
+        // The id does not have any content, so its pwn is 0 everywhere.
+        id_result = std::make_pair(true, false);
       } else {
         id_result =  std::make_pair(content_info_by_id[id].pwn >= 0,
                                     content_info_by_id[id].has_polygons());
diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 52e0134..b3c8238 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -53,7 +53,8 @@ class InvertedPolygonFilter {
   std::pair<bool, bool> operator()(
       const std::vector<BSPContentInfo>& content_info_by_id) {
     if (accept_id_ >= content_info_by_id.size()) {
-      return std::make_pair(false, false);
+      // The id does not have any content, so its pwn is 0 everywhere.
+      return std::make_pair(true, false);
     } else {
       return std::make_pair(content_info_by_id[accept_id_].pwn >= 0,
                             content_info_by_id[accept_id_].has_polygons());
-- 
2.43.0


From 98585e6cb4e0aba0dad61ed62e82f4f9e65f2632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:55 +0000
Subject: [PATCH 15/46] fix: assertion about skipped border events in
 ApplySecondary

---
 include/walnut/polygon_event_point.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index beca202..83276b1 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -819,8 +819,16 @@ void PolygonEventPointPartition::ApplySecondary(
                                                        pos_polygons);
   size_t neg_used = 0;
   size_t pos_used = 0;
+  // The first main event after the most recently skipped border polygon
+  // events. If heap events had to be processed before that main event, then it
+  // is visited again, even though it is possibly not the first event of its
+  // location.
+  const PolygonEventPoint* border_skip_end = event_points;
+  // Fix an unused variable warning in release builds.
+  (void)(border_skip_end);
   while (event_points_pos < event_points_end) {
-    assert(event_points_pos->new_location);
+    assert(event_points_pos->new_location ||
+           event_points_pos == border_skip_end);
     // Skip main events for border polygons
     while (event_points_pos < event_points_end) {
       if (event_points_pos->start) {
@@ -843,6 +851,7 @@ void PolygonEventPointPartition::ApplySecondary(
         }
       }
     }
+    border_skip_end = event_points_pos;
     if (event_points_pos == event_points_end) break;
     bool neg_new_location = true;
     bool pos_new_location = true;
-- 
2.43.0


From 3b10f5fed4fe2cf2c227fe7a8c2eec5e03725187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:01 +0000
Subject: [PATCH 16/46] fix: content added to a BSP node that is already split

---
 include/walnut/bsp_node.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index bf0ab25..4dfc908 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -277,6 +277,18 @@ class BSPNode {
     }
   }
 
+  // Adds `change` to the PWN of this node and of all of its descendants.
+  void AddPWN(BSPContentId id, int change) {
+    if (id >= content_info_by_id_.size()) {
+      content_info_by_id_.resize(id + 1);
+    }
+    content_info_by_id_[id].pwn += change;
+    if (!IsLeaf()) {
+      negative_child_->AddPWN(id, change);
+      positive_child_->AddPWN(id, change);
+    }
+  }
+
   // Update the children's PWN based on this node's contents.
   //
   // This may only be called on an interior node.
@@ -500,6 +512,13 @@ std::pair<int, bool> BSPNode<OutputPolygonParent>::GetPWNEffectAtVertex(
 template <typename OutputPolygonParent>
 void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
   assert(split_.IsValid());
+  // If this node was split before the content was added, then the children
+  // may not know about all of the ids yet.
+  for (BSPNode* child : {negative_child(), positive_child()}) {
+    if (child->content_info_by_id_.size() < content_info_by_id_.size()) {
+      child->content_info_by_id_.resize(content_info_by_id_.size());
+    }
+  }
   for (PolygonRep& polygon : contents_) {
     for (size_t i = 0; i < polygon.vertex_count(); ++i) {
       const EdgeRep& current_edge = polygon.const_edge(i);
@@ -517,9 +536,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          push_info.first;
+        push_to_child->AddPWN(polygon.id, push_info.first);
       }
 
       const EdgeRep& next_edge =
@@ -529,9 +546,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          -push_info.first;
+        push_to_child->AddPWN(polygon.id, -push_info.first);
       }
     }
   }
-- 
2.43.0


From d500da8f49ec61a4170c01ec6cf094b045a04cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 17/46] fix: border polygon count of a partition when a start
 event precedes an end event at its location

---
 include/walnut/polygon_event_point.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index 83276b1..289e1bc 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -463,16 +463,6 @@ PolygonEventPointPartition GetLowestCost(
 inline void PolygonEventPointPartition::DiscountBorderPolygons(
     const PolygonEventPoint* event_points,
     size_t parent_poly_count) {
-  split_location_begin = split_index;
-  while (!event_points[split_location_begin].new_location) {
-    assert(split_location_begin > 0);
-    --split_location_begin;
-    if (event_points[split_location_begin].start) {
-      // This event points to a border polygon, not a neg polygon.
-      --neg_poly_count;
-      ++border_poly_count;
-    }
-  }
   split_location_end = split_index + 1;
   while (split_location_end < parent_poly_count*2 &&
          !event_points[split_location_end].new_location) {
@@ -481,6 +471,20 @@ inline void PolygonEventPointPartition::DiscountBorderPolygons(
     }
     ++split_location_end;
   }
+  split_location_begin = split_index;
+  while (!event_points[split_location_begin].new_location) {
+    assert(split_location_begin > 0);
+    --split_location_begin;
+    if (event_points[split_location_begin].start) {
+      // This event points to a border polygon or to a pos polygon that starts
+      // on the split plane, not to a neg polygon.
+      --neg_poly_count;
+      if (event_points[split_location_begin].index.partner <
+          split_location_end) {
+        ++border_poly_count;
+      }
+    }
+  }
   for (size_t i = split_index; i < split_location_end; ++i) {
     if (event_points[i].start &&
         event_points[i].index.partner < split_location_end) {
-- 
2.43.0


From dc4bd25537d9742508ffc7ff3d1eed8a0054a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 18/46] fix: two polygons without vertices compare as different

---
 include/walnut/convex_polygon.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index b6dbe36..bedfb2d 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -842,6 +842,9 @@ bool ConvexPolygon<EdgeParent>::operator==(
   if (vertex_count() != other.vertex_count()) {
     return false;
   }
+  if (vertex_count() == 0) {
+    return true;
+  }
   size_t match_offset = 0;
   while (true) {
     if (match_offset == vertex_count()) {
-- 
2.43.0


From c4bd0a20d4da0161c92f753fc4b3f1f4d2a8a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 19/46] fix: polygon comparison ignores the data of the first
 edge

---
 include/walnut/convex_polygon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index bedfb2d..c88b712 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -856,7 +856,7 @@ bool ConvexPolygon<EdgeParent>::operator==(
     }
     ++match_offset;
   }
-  for (size_t i = 1, j = match_offset + 1; i < vertex_count(); ++i, ++j) {
+  for (size_t i = 0, j = match_offset; i < vertex_count(); ++i, ++j) {
     if (vertex(i).DropDimension(drop_dimension()) !=
         other.vertex(j % vertex_count()).DropDimension(drop_dimension())) {
       return false;
-- 
2.43.0


From 04763142f0d56ad6cca1d3c1d153874d683912ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:41 +0000
Subject: [PATCH 20/46] fix: section of a flat bounding box had repeated
 vertices

---
 include/walnut/aabb.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/walnut/aabb.h b/include/walnut/aabb.h
index 72b6535..de04e92 100644
--- a/include/walnut/aabb.h
+++ b/include/walnut/aabb.h
@@ -193,6 +193,14 @@ ConvexPolygonRep AABB::IntersectPlane(
   // prism.
   const int dim1 = (drop_dimension + 1) % 3;
   const int dim2 = (drop_dimension + 2) % 3;
+  if (min_point_num_.components()[dim1] ==
+      max_point_num_.components()[dim1] ||
+      min_point_num_.components()[dim2] ==
+      max_point_num_.components()[dim2]) {
+    // The prism is flat, and `plane` is not parallel to it. So the
+    // intersection does not have any area.
+    return ConvexPolygonRep();
+  }
   Vector3 dir1 = Vector3::Zero();
   Vector3 dir2 = Vector3::Zero();
   Vector3 dir3 = Vector3::Zero();
-- 
2.43.0


From 9f86ef8dec79f87caa0285d1bd1f7b4febd8661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 21/46] fix: AABB diagonal length with a denominator other than
 1

---
 include/walnut/aabb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/aabb.h b/include/walnut/aabb.h
index de04e92..0cb5806 100644
--- a/include/walnut/aabb.h
+++ b/include/walnut/aabb.h
@@ -166,7 +166,7 @@ class AABB {
   }
 
   double GetDiagonalLength() const {
-    return sqrt((double)GetSquaredDiagonalLengthNumerator() / (double)denom());
+    return sqrt((double)GetSquaredDiagonalLengthNumerator()) / (double)denom();
   }
 
  private:
-- 
2.43.0


From 5ce737751373df9a2fda8ffef38b655b5b74f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:13 +0000
Subject: [PATCH 22/46] fix: edge on an open line was split twice at the same
 location

---
 include/walnut/edge_line_connector.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/walnut/edge_line_connector.h b/include/walnut/edge_line_connector.h
index c92025a..b020fb9 100644
--- a/include/walnut/edge_line_connector.h
+++ b/include/walnut/edge_line_connector.h
@@ -418,7 +418,6 @@ class EdgeLineConnector {
       if (remove->second.partner != active_edges.end()) {
         ActiveEdge partner = remove->second.partner;
         assert(partner->second.partner == remove);
-        need_partners_.push_back(partner);
         partner->second.partner = active_edges.end();
         need_partners_.push_back(partner);
       }
-- 
2.43.0


From 2d5e54cff5fc8258c2d33c4a7f19b60b96538d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:25 +0000
Subject: [PATCH 23/46] fix: bounding box of a polygon stale after inversion,
 edge split and edge merge

---
 include/walnut/aabb_convex_polygon.h | 31 ++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/walnut/aabb_convex_polygon.h b/include/walnut/aabb_convex_polygon.h
index 0e1f71d..c6ae9fa 100644
--- a/include/walnut/aabb_convex_polygon.h
+++ b/include/walnut/aabb_convex_polygon.h
@@ -159,6 +159,18 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
     aabb_tracker_.RotateIndices(offset, vertex_count());
   }
 
+  // Overrides the non-virtual function from ConvexPolygon.
+  void SplitEdge(size_t split_index, HomoPoint3 mid_point) {
+    Parent::SplitEdge(split_index, std::move(mid_point));
+    RebuildTracker();
+  }
+
+  // Overrides the non-virtual function from ConvexPolygon.
+  void Invert() {
+    Parent::Invert();
+    RebuildTracker();
+  }
+
   // Overrides the non-virtual function from ConvexPolygon.
   ConvexPolygonSplitInfo GetSplitInfo(const HalfSpace3& half_space) const {
     switch (aabb().GetPlaneSide(half_space)) {
@@ -228,12 +240,21 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
       return false;
     }
 
-    aabb_tracker_ = ConvexVertexAABBTracker(Parent::vertices_begin(),
-                                            Parent::vertices_end());
+    RebuildTracker();
     return true;
   }
 
  protected:
+  // Overrides the non-virtual function from ConvexPolygon.
+  bool TryMergeEdge(size_t index) {
+    if (!Parent::TryMergeEdge(index)) {
+      return false;
+    }
+
+    RebuildTracker();
+    return true;
+  }
+
   // Overrides the non-virtual function from ConvexPolygon.
   template <typename ParentRef, typename SplitInfoRef>
   static void FillInSplitChildren(ParentRef&& parent, SplitInfoRef&& split,
@@ -257,6 +278,12 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
   template <typename OtherEdgeParent>
   friend class AABBConvexPolygon;
 
+  // Recalculates the extreme vertices after the vertices were changed.
+  void RebuildTracker() {
+    aabb_tracker_ = ConvexVertexAABBTracker(Parent::vertices_begin(),
+                                            Parent::vertices_end());
+  }
+
   ConvexVertexAABBTracker aabb_tracker_;
 };
 
-- 
2.43.0


From a9617fd187b7cdf2cd461b5f760c122baa7d01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:59 +0000
Subject: [PATCH 24/46] fix: merging connected edges when only one of them has
 a partner

---
 include/walnut/connected_polygon.h | 32 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/walnut/connected_polygon.h b/include/walnut/connected_polygon.h
index 977176a..88952b1 100644
--- a/include/walnut/connected_polygon.h
+++ b/include/walnut/connected_polygon.h
@@ -141,7 +141,11 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
   }
 
   bool CanMerge(const ConnectedEdge& next) const {
-    if (partner() != nullptr && next.partner() != nullptr) {
+    if ((partner() == nullptr) != (next.partner() == nullptr)) {
+      // Only part of the merged edge would have a partner.
+      return false;
+    }
+    if (partner() != nullptr) {
       if (&partner()->polygon() != &next.partner()->polygon()) {
         // The edges have different partner polygons. They cannot be merged.
         return false;
@@ -153,14 +157,18 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
       const FinalEdgeRep& partner =
         next.partner()->polygon().edge(next.partner()->edge_index());
 
-      // Temporarily unlink the partner to prevent an infinite loop. Even
+      // Temporarily unlink the partners to prevent an infinite loop. Even
       // though the partner points to `this`, save the value because `this` is
       // a const pointer and `old_value` is non-const.
       ConnectedEdge* old_value = partner_->partner_;
+      ConnectedEdge* old_next_value = next.partner_->partner_;
       assert(old_value == this);
+      assert(old_next_value == &next);
       partner_->partner_ = nullptr;
+      next.partner_->partner_ = nullptr;
       bool merge_result = partner.CanMerge(/*next=*/next_partner);
       partner_->partner_ = old_value;
+      next.partner_->partner_ = old_next_value;
       if (!merge_result) return false;
     }
     return Parent::CanMerge(next);
@@ -197,14 +205,17 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
   void Merge(ConnectedEdge& next) {
     assert(CanMerge(next));
     if (next.partner() != nullptr) {
-      // This signals the partner not to try and merge this polygon's edges
-      // again (preventing an infinite loop).
+      // Unlink the partners so that they do not try and merge this polygon's
+      // edges again (preventing an infinite loop).
+      ConnectedEdge* remaining_partner = next.partner_;
       partner_->partner_ = nullptr;
-      partner_ = next.partner_;
-      partner_->partner_ = this;
+      partner_ = nullptr;
+      remaining_partner->partner_ = nullptr;
       next.partner_ = nullptr;
 
-      partner()->polygon().MergeConnectedEdge(partner()->edge_index());
+      partner_ = remaining_partner->polygon().MergeConnectedEdge(
+          remaining_partner->edge_index());
+      partner_->partner_ = this;
     }
     Parent::Merge(next);
   }
@@ -455,12 +466,15 @@ class ConnectedPolygon : public ParentTemplate::template MakeParent<
     }
   }
 
-  // Called by ConnectedEdge.
-  void MergeConnectedEdge(size_t index) {
+  // Called by ConnectedEdge. Returns the merged edge.
+  ConnectedEdgeRep* MergeConnectedEdge(size_t index) {
     bool merged = static_cast<FinalPolygon*>(this)->TryMergeEdge(index);
     // Fix an unused variable warning in release builds.
     (void)(merged);
     assert(merged);
+    // If the edge at `index` was merged with the first edge, then it is the
+    // last edge now.
+    return &edge(index < vertex_count() ? index : vertex_count() - 1);
   }
 };
 
-- 
2.43.0


From 18d0717c39aaab27c443093f52b336ac979dc899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:11 +0000
Subject: [PATCH 25/46] fix: moved-from big integers could not be copied

---
 include/walnut/big_int_words.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/walnut/big_int_words.h b/include/walnut/big_int_words.h
index 1b55f52..52ab96e 100644
--- a/include/walnut/big_int_words.h
+++ b/include/walnut/big_int_words.h
@@ -30,7 +30,9 @@ class BigIntWords {
       first_(other.first_),
       extra_size_(other.extra_size_) {
     extra_ = other.extra_;
+    // Leave `other` in a state that can be copied.
     other.extra_ = nullptr;
+    other.extra_size_ = 0;
   }
 
   constexpr BigIntWords(const BigIntWords& other) :
@@ -180,7 +182,10 @@ class BigIntWords {
 
   constexpr BigIntWords& operator=(BigIntWords&& other) {
     first_ = other.first_;
+    // The size must always match the storage.
+    const size_t extra_size = extra_size_;
     extra_size_ = other.extra_size_;
+    other.extra_size_ = extra_size;
     BigUIntWord* const extra = extra_;
     extra_ = other.extra_;
     other.extra_ = extra;
-- 
2.43.0


From 047ee53b12d369d41de2eabdb6ef2bcd48748728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:17 +0000
Subject: [PATCH 26/46] fix: prepending a range of a concatenated range to one
 with several pieces put it in the wrong place

---
 include/walnut/concat_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 3e025e1..1350500 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -73,7 +73,7 @@ class ConcatRange {
     Append(start, end);
 
     std::rotate(/*first=*/ranges_.begin(),
-        /*n_first=*/ranges_.begin() + ranges_.size() - original_ranges_size,
+        /*n_first=*/ranges_.begin() + original_ranges_size - 1,
         /*last=*/ranges_.end() - 1);
   }
 
-- 
2.43.0


From 91c097ae0cf774488e23791148cf0dc3350dc066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:17 +0000
Subject: [PATCH 27/46] fix: facets whose first vertex is repeated at the end
 were dropped

---
 include/walnut/planar_range.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/walnut/planar_range.h b/include/walnut/planar_range.h
index 4b440d5..847dd29 100644
--- a/include/walnut/planar_range.h
+++ b/include/walnut/planar_range.h
@@ -102,12 +102,13 @@ inline void PlanarRange<Point3Iterator>::Build(
     return;
   }
 
-  const Point3Rep& p2 = *remaining_begin;
+  Point3Iterator p2 = remaining_begin;
   size_ = 2;
   ++remaining_begin;
 
-  // Keep p1 and p2 pointing to where they are. Use the next soonest point for
-  // p3 such that p1, p2, and p3 are not coincident.
+  // Keep p1 and p2 pointing to where they are, except that p2 is moved forward
+  // while it is the same point as p1. Use the next soonest point for p3 such
+  // that p1, p2, and p3 are not coincident.
   //
   // After the loop ends, `plane_` holds the plane formed from p1, p2, and p3.
   do {
@@ -117,7 +118,10 @@ inline void PlanarRange<Point3Iterator>::Build(
       return;
     }
     const Point3Rep& p3 = *remaining_begin;
-    plane_ = HalfSpace3(p1, p2, p3);
+    plane_ = HalfSpace3(p1, *p2, p3);
+    if (*p2 == p1) {
+      p2 = remaining_begin;
+    }
     ++size_;
     ++remaining_begin;
   } while (!plane_.IsValid());
-- 
2.43.0


From 3f184f17ae02331ba0e73fad61357b0d481301e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:17 +0000
Subject: [PATCH 28/46] fix: endless loop when decomposing some non-monotone
 polygons

---
 include/walnut/monotone_range.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/walnut/monotone_range.h b/include/walnut/monotone_range.h
index 884996e..305813e 100644
--- a/include/walnut/monotone_range.h
+++ b/include/walnut/monotone_range.h
@@ -248,6 +248,8 @@ inline void MonotoneRange<Point3Iterator>::Build(
     chain_dir_ = 0;
     return;
   }
+  const Point3Iterator input_begin = remaining_begin;
+  const Point3Iterator input_end = remaining_end;
   Point3Iterator range_end = remaining_end;
   --remaining_end;
 
@@ -368,8 +370,22 @@ inline void MonotoneRange<Point3Iterator>::Build(
   chain2_.Append(remaining_end, range_end);
 
   if (remaining_begin != remaining_end) {
+    Point3Iterator new_end = remaining_end;
+    ++new_end;
+    if (last_accepted == input_begin && new_end == input_end) {
+      // Both chains only contain the first and last input vertices, because
+      // the neighbor of each is too far away in the monotone dimension. Make a
+      // triangle out of those two vertices and *remaining_begin, which is past
+      // the last input vertex, so that at least one vertex is removed from the
+      // input range.
+      const Point3Iterator new_vertex = remaining_begin;
+      ++remaining_begin;
+      chain1_.Prepend(new_vertex, remaining_begin);
+      chain2_.Clear();
+      chain2_.Append(input_begin, remaining_begin);
+    }
     --remaining_begin;
-    ++remaining_end;
+    remaining_end = new_end;
   }
 }
 
-- 
2.43.0


From f069752714f6b80ee87ad40c40e48ce926c60493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:17 +0000
Subject: [PATCH 29/46] fix: polygons with collinear starts taken for
 collinear, or read past their end

---
 .../walnut/orienting_monotone_decomposer.h    | 31 ++++++++-----------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index a718476..1ee4fd7 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -192,11 +192,11 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   while (*chain2_pos == minimum_vertex) {
     advanced = true;
     ++chain2_pos;
-    // chain2 must contain the maximum value. It was already validated that
-    // chain1 contains a maximum value which is different from the minimum. So
-    // chain2 must also contain a maximum that is different from the minimum
-    // before its end.
-    assert(chain2_pos != chain2_end);
+    if (chain2_pos == chain2_end) {
+      // The minimum and the maximum are equal, so all vertices have the same
+      // component in the monotone dimension.
+      return false;
+    }
   }
 
   if (advanced) {
@@ -218,21 +218,16 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   // Keep looping until a non-collinear vertex is found, or all of the
   // vertices in both chains are consumed.
   while (true) {
-    // Entries are preferentially taken from chain1, and both chains contain
-    // the max element. So as long as chain1 is not completely consumed,
-    // chain2 still contains at least the max element.
-    if (chain1_pos == chain1_end) {
-      // Chain1 was completely consumed, which means only the maximum vertex
-      // remains in chain2. All of the vertices were collinear.
-#ifndef NDEBUG
-      ++chain2_pos;
-      assert(chain2_pos == chain2_end);
-#endif
+    if (chain1_pos == chain1_end && chain2_pos == chain2_end) {
+      // All of the vertices were collinear.
       return false;
     }
-    assert(chain2_pos != chain2_end);
-    const bool chain1_is_current =
-      chain1_pos->CompareComponent(monotone_dimension, *chain2_pos) <= 0;
+    // Entries are preferentially taken from chain1. After it is consumed, the
+    // only vertices that can remain in chain2 are those that tie with the
+    // maximum vertex in the monotone dimension.
+    const bool chain1_is_current = chain1_pos != chain1_end &&
+      (chain2_pos == chain2_end ||
+       chain1_pos->CompareComponent(monotone_dimension, *chain2_pos) <= 0);
     const Point3Rep& current = chain1_is_current ? *chain1_pos : *chain2_pos;
     const BigIntWord twist =
       minimum_vertex.Get2DTwistDir(drop_dimension, collinear_vertex, current);
-- 
2.43.0


From f1ab20ed2f0a84430620eb1134e2a11d9cd647ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:17 +0000
Subject: [PATCH 30/46] fix: convex decomposition merged inverted and folded
 triangles into non-convex polygons

---
 include/walnut/monotone_decomposer.h | 93 +++++++++++++++++++++++-----
 1 file changed, 76 insertions(+), 17 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 408250c..f03420e 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -27,6 +27,8 @@
 //     worse in the sense that more overlapping polygons will be outputted than
 //     strictly necessary.
 
+// For std::all_of and std::find_if
+#include <algorithm>
 #include <functional>
 #include <vector>
 
@@ -108,22 +110,15 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
     if (!convex_top_.empty()) {
       assert(!convex_bottom_.empty());
       if (convex_top_.back() == p1 && convex_bottom_.back() == p2) {
-        bool set_orientation = false;
-        if (orientation_ == 0) {
-          set_orientation = true;
-          orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
-        }
         // For non-self-intersecting polygons, orientation_ will always be 0 or
         // -1. However for self-intersecting polygons, the triangulator can
         // produce flipped triangles, in which case orientation_ will be 1.
-        const Point3Rep& prev_top = convex_top_.size() > 1 ?
-          convex_top_.end()[-2] : convex_bottom_.front();
-        const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
-          convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDir(drop_dimension_, prev_top, p3) *
-              orientation_ <= 0 &&
-            p2.Get2DTwistDir(drop_dimension_, prev_bottom, p3) *
-              orientation_ >= 0) {
+        const int triangle_orientation =
+          p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+        if (CanMerge(triangle_orientation, p1, p2, p3)) {
+          if (orientation_ == 0) {
+            orientation_ = triangle_orientation;
+          }
           if (p3_is_top_chain) {
             if (p1 != p3) {
               convex_top_.push_back(p3);
@@ -135,10 +130,6 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
           }
           return;
         }
-        if (set_orientation) {
-          // If the triangle isn't merged, restore the old orientation.
-          orientation_ = 0;
-        }
       }
       EmitRange(orientation_, convex_top_.rbegin(), convex_top_.rend(),
                 convex_bottom_.begin(), convex_bottom_.end());
@@ -156,6 +147,74 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
   }
 
  private:
+  // Returns true if the polygon being built remains convex after inserting
+  // `p3` between `p1` (the last top vertex) and `p2` (the last bottom vertex).
+  //
+  // `triangle_orientation` is the orientation of [p1, p2, p3].
+  bool CanMerge(int triangle_orientation, const Point3Rep& p1,
+                const Point3Rep& p2, const Point3Rep& p3) const {
+    if (orientation_ == 0) {
+      return triangle_orientation == 0 || IsForward();
+    }
+    if (triangle_orientation * orientation_ < 0 ||
+        (triangle_orientation == 0 && TurnsAround(p1, p3, p2))) {
+      return false;
+    }
+    const Point3Rep& prev_top = GetPrevious(convex_top_, convex_bottom_);
+    const int top_twist =
+      p1.Get2DTwistDirReduced(drop_dimension_, prev_top, p3) * orientation_;
+    if (top_twist > 0 || (top_twist == 0 && TurnsAround(prev_top, p1, p3))) {
+      return false;
+    }
+    const Point3Rep& prev_bottom = GetPrevious(convex_bottom_, convex_top_);
+    const int bottom_twist =
+      p2.Get2DTwistDirReduced(drop_dimension_, prev_bottom, p3) * orientation_;
+    return bottom_twist > 0 ||
+           (bottom_twist == 0 && !TurnsAround(prev_bottom, p2, p3));
+  }
+
+  // Returns the last vertex before `chain.back()` that is different from it,
+  // where `other_chain` is what comes before the first vertex of `chain`.
+  static const Point3Rep& GetPrevious(
+      const std::vector<Point3Rep>& chain,
+      const std::vector<Point3Rep>& other_chain) {
+    const auto differs = [&chain](const Point3Rep& p) {
+      return p != chain.back();
+    };
+    const auto in_chain = std::find_if(chain.rbegin(), chain.rend(), differs);
+    if (in_chain != chain.rend()) return *in_chain;
+    return *std::find_if(other_chain.begin(), other_chain.end(), differs);
+  }
+
+  // Returns true if the vertices of the polygon being built, which must be
+  // collinear, advance in one direction from the last top vertex to the last
+  // bottom vertex, so that they can become one side of a convex polygon.
+  bool IsForward() const {
+    const Point3Rep* prev2 = nullptr;
+    const Point3Rep* prev = nullptr;
+    const auto advance = [&](const Point3Rep& next) {
+      if (prev != nullptr && *prev == next) return true;
+      if (prev2 != nullptr && TurnsAround(*prev2, *prev, next)) return false;
+      prev2 = prev;
+      prev = &next;
+      return true;
+    };
+    return std::all_of(convex_top_.rbegin(), convex_top_.rend(), advance) &&
+           std::all_of(convex_bottom_.begin(), convex_bottom_.end(), advance);
+  }
+
+  // Returns true if the direction from `b` to `c` is the opposite of the
+  // direction from `a` to `b`, given that the 3 points are collinear.
+  static bool TurnsAround(const Point3Rep& a, const Point3Rep& b,
+                          const Point3Rep& c) {
+    for (int i = 0; i < 3; ++i) {
+      const int in = b.CompareComponent(i, a);
+      const int out = c.CompareComponent(i, b);
+      if ((in < 0 && out > 0) || (in > 0 && out < 0)) return true;
+    }
+    return false;
+  }
+
   // The orientation of the polygon being built. -1 for counter-clockwise, 1
   // for clockwise, or 0 for collinear.
   int orientation_;
-- 
2.43.0


From 6dc771948559339cd1d4666a0e5a338fabfeb67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:53 +0000
Subject: [PATCH 31/46] fix: NudgingPlaneBuilder kept a plane without later
 constrained vertices

HasLargePlane caches the plane of the vertices that were added so far. When
fewer than three constrained vertices followed, the cached plane was still
returned, so it did not contain these vertices and the repaired facet was not
planar.
---
 include/walnut/nudging_plane_builder.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index a5f7448..da7d5e5 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -81,6 +81,9 @@ inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
     if (constrained_count_ == 3) {
       plane_ = BuildFromPlaneInfo();
       plane_set_ = true;
+    } else {
+      // A plane that was built before does not contain the new vertex.
+      plane_set_ = false;
     }
     return true;
   } else {
-- 
2.43.0


From 1f6ce704aacab4f77ffc6b894d009f5825aaf0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:53 +0000
Subject: [PATCH 32/46] fix: MeshPlaneRepairer reversed the vertices taken from
 a facet's end

The first piece of a split facet takes vertices from the beginning and from
the end of the facet. Two or more vertices from the end were appended in
reverse order, so the piece crossed itself.
---
 include/walnut/mesh_plane_repairer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/walnut/mesh_plane_repairer.h b/include/walnut/mesh_plane_repairer.h
index 9a1ebd8..d9f395d 100644
--- a/include/walnut/mesh_plane_repairer.h
+++ b/include/walnut/mesh_plane_repairer.h
@@ -230,10 +230,9 @@ inline void MeshPlaneRepairer<PolygonData>::FinishFacet(PolygonData data) {
       polygon_vertices_.push_back(*it);
     }
 
-    // Copy the end portion of the accepted range in reverse order.
-    for (ActiveVertexIterator it = accepted_from_end_end;
-         it != remaining_end;) {
-      --it;
+    // Copy the end portion of the accepted range.
+    for (ActiveVertexIterator it = remaining_end;
+         it != accepted_from_end_end; ++it) {
       (*it)->TryAddAdjacent(&polygon.plane);
       polygon_vertices_.push_back(*it);
     }
-- 
2.43.0


From f205ccdf8c1121a4d82a9706cb5b1f6ae166ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:52 +0000
Subject: [PATCH 33/46] fix: NudgingPlaneBuilder divided by zero when its first
 vertices are collinear

The plane was always built from the first three suitable vertices. When these
were collinear (a facet that starts on a straight run of its border) the plane
was invalid, and reducing it divided by zero. Vertices that do not contribute to
the plane are passed over now.
---
 include/walnut/nudging_plane_builder.h | 33 +++++++++--
 src/walnut/nudging_plane_builder.cpp   | 78 +++++++++++++++++++-------
 2 files changed, 86 insertions(+), 25 deletions(-)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index da7d5e5..95ec7d0 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -24,7 +24,7 @@ class NudgingPlaneBuilder {
   // Use the accepted vertices to build a plane.
   //
   // This may only be called after 3 or more calls to `AddUnconstrained` and
-  // `TryAddConstrained`.
+  // `TryAddConstrained` with vertices that are not all collinear.
   HalfSpace3 Build() const& {
     if (plane_set_) {
       return plane_;
@@ -36,7 +36,7 @@ class NudgingPlaneBuilder {
   // Use the accepted vertices to build a plane.
   //
   // This may only be called after 3 or more calls to `AddUnconstrained` and
-  // `TryAddConstrained`.
+  // `TryAddConstrained` with vertices that are not all collinear.
   HalfSpace3 Build() && {
     if (plane_set_) {
       return std::move(plane_);
@@ -48,15 +48,26 @@ class NudgingPlaneBuilder {
   bool HasLargePlane();
 
  private:
-  // This may only be called if `plane_info_used_` >= 3.
+  // Selects 3 vertices, including all of the constrained ones, that are not
+  // collinear. The vertices are returned in the order they were added.
+  //
+  // Returns false if there are no such vertices.
+  bool SelectVertices(std::array<const HomoPoint3*, 3>& selected) const;
+
+  // This may only be called if `SelectVertices` returns true.
   HalfSpace3 BuildFromPlaneInfo() const;
 
+  // Returns true if the vertices in `plane_info_` that match `constrained`,
+  // along with `vertex`, are distinct and not collinear.
+  bool IsIndependent(bool constrained, const HomoPoint3* vertex) const;
+
   struct VertexInfo {
     bool constrained;
     const HomoPoint3* vertex;
   };
   std::array<VertexInfo, 6> plane_info_;
   size_t plane_info_used_ = 0;
+  size_t unconstrained_count_ = 0;
   size_t constrained_count_ = 0;
   // This is only initialized if constrained_count_ == 3.
   HalfSpace3 plane_;
@@ -64,15 +75,24 @@ class NudgingPlaneBuilder {
 };
 
 inline void NudgingPlaneBuilder::AddUnconstrained(const HomoPoint3* vertex) {
-  if (plane_info_used_ < 3) {
+  // Vertices that are collinear with the earlier ones do not help to define
+  // the plane.
+  if (unconstrained_count_ < 3 && constrained_count_ < 3 &&
+      IsIndependent(/*constrained=*/false, vertex)) {
     plane_info_[plane_info_used_].constrained = false;
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
+    ++unconstrained_count_;
   }
 }
 
 inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
   if (constrained_count_ < 3) {
+    if (!IsIndependent(/*constrained=*/true, vertex)) {
+      // Every plane through the earlier constrained vertices contains this one
+      // too.
+      return true;
+    }
     plane_info_[plane_info_used_].constrained = true;
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
@@ -92,9 +112,10 @@ inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
 }
 
 inline bool NudgingPlaneBuilder::HasLargePlane() {
-  if (plane_info_used_ < 3) return false;
-
   if (!plane_set_) {
+    std::array<const HomoPoint3*, 3> selected;
+    if (!SelectVertices(selected)) return false;
+
     plane_ = BuildFromPlaneInfo();
     plane_set_ = true;
   }
diff --git a/src/walnut/nudging_plane_builder.cpp b/src/walnut/nudging_plane_builder.cpp
index 30ab83e..3ae1339 100644
--- a/src/walnut/nudging_plane_builder.cpp
+++ b/src/walnut/nudging_plane_builder.cpp
@@ -1,30 +1,70 @@
 #include "walnut/nudging_plane_builder.h"
 
+#include <cassert>
+
 namespace walnut {
 
-HalfSpace3 NudgingPlaneBuilder::BuildFromPlaneInfo() const {
-  std::array<const HomoPoint3*, 3> filtered_vertices;
-  // The number of remaining unconstrained vertices to accept.
-  size_t accept_unconstrained = 3 - constrained_count_;
-
-  for (size_t i = 0, accepted = 0; accepted < 3; ++i) {
-    const VertexInfo& info = plane_info_[i];
-    bool accept;
-    if (info.constrained) {
-      accept = true;
-    } else if (accept_unconstrained > 0) {
-      accept = true;
-      --accept_unconstrained;
-    } else {
-      accept = false;
+namespace {
+
+bool AreIndependent(const std::array<const HomoPoint3*, 3>& vertices,
+                    size_t count) {
+  if (count == 2) return *vertices[0] != *vertices[1];
+  if (count == 3) {
+    return HalfSpace3(*vertices[0], *vertices[1], *vertices[2]).IsValid();
+  }
+  return true;
+}
+
+}  // namespace
+
+bool NudgingPlaneBuilder::IsIndependent(bool constrained,
+                                        const HomoPoint3* vertex) const {
+  std::array<const HomoPoint3*, 3> vertices;
+  size_t count = 0;
+  for (size_t i = 0; i < plane_info_used_; ++i) {
+    if (plane_info_[i].constrained == constrained) {
+      vertices[count++] = plane_info_[i].vertex;
     }
-    if (accept) {
-      filtered_vertices[accepted] = info.vertex;
+  }
+  vertices[count++] = vertex;
+  return AreIndependent(vertices, count);
+}
+
+bool NudgingPlaneBuilder::SelectVertices(
+    std::array<const HomoPoint3*, 3>& selected) const {
+  std::array<bool, 6> accept;
+  std::array<const HomoPoint3*, 3> accepted_vertices;
+  size_t accepted = 0;
+  for (size_t i = 0; i < plane_info_used_; ++i) {
+    accept[i] = plane_info_[i].constrained;
+    if (accept[i]) {
+      accepted_vertices[accepted++] = plane_info_[i].vertex;
+    }
+  }
+  // Complete the constrained vertices with the first suitable unconstrained
+  // vertices.
+  for (size_t i = 0; i < plane_info_used_ && accepted < 3; ++i) {
+    if (accept[i]) continue;
+    accepted_vertices[accepted] = plane_info_[i].vertex;
+    if (AreIndependent(accepted_vertices, accepted + 1)) {
+      accept[i] = true;
       ++accepted;
     }
   }
-  HalfSpace3 result(*filtered_vertices[0], *filtered_vertices[1],
-                    *filtered_vertices[2]);
+  if (accepted < 3) return false;
+
+  for (size_t i = 0, pos = 0; i < plane_info_used_; ++i) {
+    if (accept[i]) selected[pos++] = plane_info_[i].vertex;
+  }
+  return true;
+}
+
+HalfSpace3 NudgingPlaneBuilder::BuildFromPlaneInfo() const {
+  std::array<const HomoPoint3*, 3> selected;
+  bool found = SelectVertices(selected);
+  assert(found);
+  (void)(found);
+  HalfSpace3 result(*selected[0], *selected[1], *selected[2]);
   result.Reduce();
   return result;
 }
-- 
2.43.0


From 1caa4f84eb06792a8a51609c43f270d4b6ca93fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:37 +0000
Subject: [PATCH 34/46] fix: redirecting an entry that shares a value left the
 others that share it behind

RedirectableValue::Redirect only changed the given entry, so vertices merged
by VertexDoublePoint3Mapper could end up with different values, depending on
the order of the edges.
---
 include/walnut/redirectable_value.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/walnut/redirectable_value.h b/include/walnut/redirectable_value.h
index 100c1e8..43cbcb1 100644
--- a/include/walnut/redirectable_value.h
+++ b/include/walnut/redirectable_value.h
@@ -75,16 +75,16 @@ class RedirectableValue {
     return *redirect_;
   }
 
-  // Change this entry so that when it is dereferenced the value at `to` is
-  // accessed instead.
+  // Change this entry, and every entry that currently shares its value, so that
+  // when it is dereferenced the value at `to` is accessed instead.
   void Redirect(RedirectableValue& to) {
+    RedirectableValue& final_from = primary();
     RedirectableValue& final_to = to.primary();
-    if (&final_to == redirect_) return;
+    if (&final_to == &final_from) return;
 
-    if (redirect_ == this) {
-      reinterpret_cast<Value *>(&value_)->~Value();
-    }
-    redirect_ = &to.primary();
+    reinterpret_cast<Value *>(&final_from.value_)->~Value();
+    final_from.redirect_ = &final_to;
+    redirect_ = &final_to;
   }
 
  private:
-- 
2.43.0


From 3d8911d9760691ba866c483b3993a656ba5c8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 35/46] fix: constructing a deed from nullptr dereferenced it

---
 include/walnut/deed.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index a324337..0efab18 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -55,7 +55,9 @@ class GenericDeed {
   GenericDeed() = default;
 
   GenericDeed(DeedTarget* object) : object_(object) {
-    if (object != nullptr && object->owner_ != nullptr) {
+    if (object == nullptr) return;
+
+    if (object->owner_ != nullptr) {
       lender_ = object->owner_;
       lender_->MarkLent();
     }
-- 
2.43.0


From 40406d3dec00b698b1752144354c6a5f4542dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:17 +0000
Subject: [PATCH 36/46] fix: advancing a ConcatRange iterator ignored the
 offset within a range

Advancing to the end read past the list of ranges.
---
 include/walnut/concat_range.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 1350500..808d851 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -221,9 +221,12 @@ class ConcatRangeIteratorHelper {
 
   ConcatRangeIteratorHelper operator+(size_t index) const {
     ConcatRangeIteratorHelper copy(*this);
-    while (true) {
+    while (index > 0) {
       size_t range_size = copy.range_end() - copy.input_pos();
-      if (index < range_size) break;
+      if (index < range_size) {
+        copy.pos_ += index;
+        break;
+      }
       copy.AdvanceRange();
       index -= range_size;
     }
-- 
2.43.0


From b57b73a5f5b60b1cc6c5091c4551de7800439051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:41 +0000
Subject: [PATCH 37/46] fix: postfix steps and offsets of TransformIterator
 dropped the transformer

---
 include/walnut/transform_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/walnut/transform_iterator.h b/include/walnut/transform_iterator.h
index be94507..a6db800 100644
--- a/include/walnut/transform_iterator.h
+++ b/include/walnut/transform_iterator.h
@@ -71,7 +71,7 @@ class TransformIterator {
   }
 
   TransformIterator operator++(int) {
-    return TransformIterator(input_iterator_++);
+    return TransformIterator(input_iterator_++, transform_);
   }
 
   auto& operator--() {
@@ -80,15 +80,15 @@ class TransformIterator {
   }
 
   auto operator--(int) {
-    return TransformIterator(input_iterator_--);
+    return TransformIterator(input_iterator_--, transform_);
   }
 
   auto operator+(difference_type offset) const {
-    return TransformIterator(input_iterator_ + offset);
+    return TransformIterator(input_iterator_ + offset, transform_);
   }
 
   auto operator-(difference_type offset) const {
-    return TransformIterator(input_iterator_ - offset);
+    return TransformIterator(input_iterator_ - offset, transform_);
   }
 
   template <typename OtherInputIterator>
-- 
2.43.0


From d132a4b0017f09b4aaadf51e07aff8dc201c2a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:02 +0000
Subject: [PATCH 38/46] fix: GenericDeed::Lend left the object with the lender

Moving the object afterwards overwrote the mark that the lender has lent it.
---
 include/walnut/deed.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index 0efab18..02f72f3 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -152,6 +152,9 @@ class GenericDeed {
   GenericDeed(DeedTarget* object, GenericDeed* borrowed_from) :
       object_(object), lender_(borrowed_from) {
     lender_->MarkLent();
+    if (object_) {
+      object_->owner_ = this;
+    }
   }
 
   void MarkLent() {
-- 
2.43.0


From 7e5415d19308ceda947c52185c22495fd0405e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:09 +0000
Subject: [PATCH 39/46] fix: VTKToWalnutMesh converts every triangle of a strip

Every triangle of a strip was converted from the first three vertices of the
strip, all in the orientation of the first triangle.
---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index 59c5819..c20b5b0 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -86,11 +86,11 @@ std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
   while (input->GetStrips()->GetNextCell(vertex_count, input_vertices)) {
     for (vtkIdType i = 0; i < vertex_count - 2; ++i) {
       HomoPoint3 vertices[3];
-      if ((i & 0) ^ flip) {
+      if ((i & 1) ^ flip) {
         // The vertices are in clockwise order. Reverse them first.
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[2 - j], coordinates);
+          input->GetPoint(input_vertices[i + 2 - j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
@@ -98,7 +98,7 @@ std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
       } else {
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[j], coordinates);
+          input->GetPoint(input_vertices[i + j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
-- 
2.43.0


From 5bafe6cd10897f8739177b6eac0c7743e0c82ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 40/46] fix: VTKToWalnutMesh drops degenerate triangles of
 strips

A triangle of a strip whose vertices are on one line (usual in strips that
jump) became a facet without a plane, which failed an assertion or left an
invalid facet in the mesh.
---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index c20b5b0..9fc393c 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -104,10 +104,9 @@ std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
                                                 coordinates[2]);
         }
       }
-      HalfSpace3 plane(vertices[0], vertices[1], vertices[2]);
-      int drop_dimension = plane.normal().GetFirstNonzeroDimension();
-      polygon_factory.result.emplace_back(std::move(plane), drop_dimension,
-                                          std::move(vertices));
+      // Nothing is emitted if the triangle is degenerate.
+      polygon_factory.Build(/*begin=*/std::begin(vertices),
+                            /*end=*/std::end(vertices));
     }
   }
 
-- 
2.43.0


From 9d45f5c7a76977540c0fb2ab8fe97d43079e4176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 41/46] fix: export VTK points as doubles

vtkPoints holds floats by default, so the doubles that the mapper chose for
the vertices were rounded to floats, and vertices that are distinct doubles
could end up in the same place.
---
 vtk_interface/include/walnut/walnut_to_vtk_mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtk_interface/include/walnut/walnut_to_vtk_mesh.h b/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
index b2b56bb..3280943 100644
--- a/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
+++ b/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
@@ -66,6 +66,8 @@ SaveWalnutMeshToVTK(const std::vector<Polygon>& mesh,
   // Now that all points have been inserted and merged into `map`, they can be
   // added to `points`.
   auto points = vtkSmartPointer<vtkPoints>::New();
+  // The default is float, which would round the doubles again.
+  points->SetDataTypeToDouble();
   for (std::pair<const DoublePoint3, RedirectableValue<vtkIdType>>& p : map) {
     if (p.second.IsPrimary()) {
       *p.second = points->InsertNextPoint(p.first.x, p.first.y, p.first.z);
@@ -97,6 +99,8 @@ std::enable_if_t<!IsConnectedPolygon<Polygon>::value>
 SaveWalnutMeshToVTK(const std::vector<Polygon>& mesh, vtkPolyData* save_to) {
   std::unordered_map<DoublePoint3, vtkIdType> point_map;
   auto points = vtkSmartPointer<vtkPoints>::New();
+  // The default is float, which would round the doubles again.
+  points->SetDataTypeToDouble();
 
   auto cell_array = vtkSmartPointer<vtkCellArray>::New();
   for (const Polygon& polygon : mesh) {
-- 
2.43.0


From 7aaa3e0e641fc1c8848bcbe4d50e4399ab6b6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:44 +0000
Subject: [PATCH 42/46] fix: keep CollectorVisitor's record of which split made
 an edge valid

---
 include/walnut/bsp_visitor.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index b3c8238..e54d7d3 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -269,7 +269,12 @@ class CollectorVisitor : public BSPVisitor<PolygonRep> {
   void Accept(PolygonRep&& polygon) override {
     for (size_t i = 0; i < polygon.vertex_count(); ++i) {
       auto& edge = polygon.bsp_edge_info(i);
-      auto it = split_plane_map_.find(edge.edge_first_coincident.split);
+      auto it = split_plane_map_.find(edge.edge_created_by.split);
+      if (it != split_plane_map_.end()) {
+        edge.edge_created_by.split = it->second;
+      }
+
+      it = split_plane_map_.find(edge.edge_first_coincident.split);
       if (it != split_plane_map_.end()) {
         edge.edge_first_coincident.split = it->second;
       }
-- 
2.43.0


From a7b47e67a7a7e23c14298ec5e90c80114d9b1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:18 +0000
Subject: [PATCH 43/46] fix: ConnectingVisitor forgets partitioner planes that
 made an edge

---
 include/walnut/connecting_visitor.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/walnut/connecting_visitor.h b/include/walnut/connecting_visitor.h
index e25210f..9d41f4a 100644
--- a/include/walnut/connecting_visitor.h
+++ b/include/walnut/connecting_visitor.h
@@ -86,6 +86,11 @@ class ConnectingVisitor
         edge.edge_first_coincident.split = nullptr;
       }
 
+      it = interior_nodes_.find(edge.edge_created_by.split);
+      if (it != interior_nodes_.end() && it->second.temporary) {
+        edge.edge_created_by.split = nullptr;
+      }
+
       it = interior_nodes_.find(edge.vertex_last_coincident.split);
       assert(it != interior_nodes_.end());
       if (it->second.temporary) {
-- 
2.43.0


From 8fb0594cc2bab49ec5ed7c560cd0716e23373933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:09 +0000
Subject: [PATCH 44/46] fix: BigInt to floating point conversion near and
 beyond the largest finite value

A negative most significant word overflowed to -inf before the lower words were
added, so the result was NaN, or infinite for representable values.
---
 src/walnut/big_int.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/walnut/big_int.cpp b/src/walnut/big_int.cpp
index b7d4281..e094e91 100644
--- a/src/walnut/big_int.cpp
+++ b/src/walnut/big_int.cpp
@@ -53,10 +53,12 @@ BigInt::operator double() const {
       return std::numeric_limits<double>::infinity() *
              BigIntWord{words_[used - 1]};
     }
-    return std::ldexp(BigIntWord{words_[used - 1]},
-                      static_cast<int>(first_shift)) +
-           words_[used - 2].ToDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 2)));
+    // Add the words before shifting them, because a negative most significant
+    // word could overflow even though the sum does not.
+    return std::ldexp(
+        std::ldexp(BigIntWord{words_[used - 1]}, bits_per_word) +
+          words_[used - 2].ToDoubleWithShift(0),
+        static_cast<int>(bits_per_word * (used - 2)));
   }
 }
 
@@ -76,12 +78,14 @@ BigInt::operator long double() const {
       return std::numeric_limits<long double>::infinity() *
              BigIntWord{words_[used - 1]};
     }
-    return std::ldexp((long double)BigIntWord{words_[used - 1]},
-                      static_cast<int>(bits_per_word * (used - 1))) +
-           words_[used - 2].ToLongDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 2))) +
-           words_[used - 3].ToLongDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 3)));
+    // Add the words before shifting them, because a negative most significant
+    // word could overflow even though the sum does not.
+    return std::ldexp(
+        std::ldexp((long double)BigIntWord{words_[used - 1]},
+                   2 * bits_per_word) +
+          words_[used - 2].ToLongDoubleWithShift(bits_per_word) +
+          words_[used - 3].ToLongDoubleWithShift(0),
+        static_cast<int>(bits_per_word * (used - 3)));
   }
 }
 
-- 
2.43.0


From 5939acf4fe58930d5dbd398838d93eb546580ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:09 +0000
Subject: [PATCH 45/46] fix: AABB::GetDiagonalLength overflowed although the
 length is small

---
 include/walnut/aabb.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/walnut/aabb.h b/include/walnut/aabb.h
index 0cb5806..d448670 100644
--- a/include/walnut/aabb.h
+++ b/include/walnut/aabb.h
@@ -1,6 +1,7 @@
 #ifndef WALNUT_AABB_H__
 #define WALNUT_AABB_H__
 
+#include <cmath>
 #include <vector>
 
 #include "walnut/mutable_convex_polygon.h"
@@ -166,7 +167,11 @@ class AABB {
   }
 
   double GetDiagonalLength() const {
-    return sqrt((double)GetSquaredDiagonalLengthNumerator()) / (double)denom();
+    // The squared length can be too large for a double, even if the length is
+    // small.
+    return static_cast<double>(
+        std::sqrt((long double)GetSquaredDiagonalLengthNumerator()) /
+        (long double)denom());
   }
 
  private:
-- 
2.43.0


From cbcb94ba11497db5380b06ee190667764846c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:38 +0000
Subject: [PATCH 46/46] fix: keep the data of the parent class when a BSP edge
 is split

---
 include/walnut/bsp_edge_info.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/bsp_edge_info.h b/include/walnut/bsp_edge_info.h
index ffe27ed..98d3694 100644
--- a/include/walnut/bsp_edge_info.h
+++ b/include/walnut/bsp_edge_info.h
@@ -30,6 +30,7 @@ class BSPEdgeInfo : public ParentTemplate {
   // the vertex boundary angle from the edge boundary angle instead of
   // inheriting the parent's vertex boundary angle.
   BSPEdgeInfo(const BSPEdgeInfo& parent, const HomoPoint3& new_source) :
+    Parent(parent, new_source),
     edge_created_by(parent.edge_created_by),
     edge_first_coincident(parent.edge_first_coincident),
     vertex_last_coincident(parent.edge_last_coincident),
@@ -40,6 +41,7 @@ class BSPEdgeInfo : public ParentTemplate {
   // Inherit the vertex boundary angle from the parent, but default initialize
   // the edge boundary angle.
   BSPEdgeInfo(const BSPEdgeInfo& parent, const PluckerLine& new_line) :
+    Parent(parent, new_line),
     vertex_last_coincident(parent.vertex_last_coincident) { }
 
   // Create a new line starting on a new vertex on the parent's existing edge.
@@ -48,6 +50,7 @@ class BSPEdgeInfo : public ParentTemplate {
   // angle. Default initialize the edge boundary angle.
   BSPEdgeInfo(const BSPEdgeInfo& parent, const HomoPoint3& new_source,
               const PluckerLine& new_line) :
+    Parent(parent, new_source, new_line),
     vertex_last_coincident(parent.edge_last_coincident) { }
 
   bool operator==(const EdgeInfoRoot&) const {
-- 
2.43.0

