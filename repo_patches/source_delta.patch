From c9b9080641978500967d90d140c98b2e5ae42944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 001/163] fix: z component of Vec3 rotation about an axis used
 u*z instead of u*x

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index ee24996..9339250 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -277,7 +277,7 @@ namespace geom {
             // (expected to be within 5% of "naïve" performance)
             T p0 = sum_of_products(v, y, w, z);
             T p1 = sum_of_products(u, x, w, z);
-            T p2 = sum_of_products(u, z, v, y);
+            T p2 = sum_of_products(u, x, v, y);
             
             T q0 = diff_of_products(v, z, w, y);
             T q1 = diff_of_products(w, x, u, z);
-- 
2.43.0


From 9eb9fb348611cc62b6e48c31c20fdb3a681dd259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 002/163] fix: Vec3 rotation about a center point had a wrong
 sign in the axis projection

---
 geomc/linalg/vecdetail/Vec3.h | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 9339250..59d04c4 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -309,30 +309,9 @@ namespace geom {
          * the axis `(u, v, w)`, and centerpoint `(a, b, c)`.
          */
         Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians){
-            const T& x = this->x;
-            const T& y = this->y;
-            const T& z = this->z;
-            
-            T cc = std::cos(radians);
-            T ss = std::sin(radians);
-            T oneMcos = 1 - cc;
-            
-            T u2 = u * u;
-            T v2 = v * v;
-            T w2 = w * w;
-            T uxvywz = diff_of_products(u, x, v, y) - (w * z);
-            
-            T p0 = sum_of_products(b, v, c, w);
-            T p1 = sum_of_products(a, u, c, w);
-            T p2 = sum_of_products(a, u, b, v);
-            T q0 = diff_of_products(a, v2 + w2, u, p0 - uxvywz);
-            T q1 = diff_of_products(b, u2 + w2, v, p1 - uxvywz);
-            T q2 = diff_of_products(c, u2 + v2, w, p2 - uxvywz);
-            
-            return Vec<T,3>(
-                    q0 * oneMcos + x * cc + (-c*v + b*w - w*y + v*z) * ss,
-                    q1 * oneMcos + y * cc + ( c*u - a*w + w*x - u*z) * ss,
-                    q2 * oneMcos + z * cc + (-b*u + a*v - v*x + u*y) * ss);
+            // rotate about the origin of a frame centered at (a, b, c)
+            const Vec<T,3> ctr(a, b, c);
+            return ctr + (*this - ctr).rotate(u, v, w, radians);
         }
         
         /**
-- 
2.43.0


From 842fb1d3faad23305df202e1ac95be7f9ae4ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 003/163] fix: Vec2::rotate(center, radians) called a member
 that does not exist

---
 geomc/linalg/vecdetail/Vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 68682b0..e466fc9 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -145,7 +145,7 @@ namespace geom {
          * @param radians Angle of rotation.
          */
         Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
+            return center + (((*this) - center).rotated(radians));
         }
 
         /**
-- 
2.43.0


From 6b55a37e5e93381a61b6ecaf39c8b84293bff963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 004/163] fix: Vec2::from_polar swapped radius and angle

---
 geomc/linalg/vecdetail/Vec2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index e466fc9..57fe58e 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -162,8 +162,8 @@ namespace geom {
          */
         inline Vec<T,2> from_polar() const {
             Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
             return v;
         }
 
-- 
2.43.0


From c771d124c0ab05a69877daf197b41fc5bed7d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 005/163] fix: Vec::reflect_about called a member that does not
 exist

---
 geomc/linalg/vecdetail/VecBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/VecBase.h b/geomc/linalg/vecdetail/VecBase.h
index 8348580..9eb0a74 100644
--- a/geomc/linalg/vecdetail/VecBase.h
+++ b/geomc/linalg/vecdetail/VecBase.h
@@ -604,7 +604,7 @@ public:
      */
     self_t reflect_about(self_t normal) const {
         normal = normal.unit();
-        return this->neg() + normal * 2 * this->dot(normal);
+        return -(*this) + normal * 2 * this->dot(normal);
     }
 
     /**
-- 
2.43.0


From 45e1cd9c4f2d781629fd6f1cb4d7709f4504b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 006/163] fix: from_rgb, from_argb and from_rgba named a
 conversion constant that does not exist

---
 geomc/linalg/vecdetail/Vec3.h |  6 +++---
 geomc/linalg/vecdetail/Vec4.h | 16 ++++++++--------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 59d04c4..0880312 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -52,9 +52,9 @@ namespace geom {
      */
     template <typename T> 
     Vec<T,3> from_rgb(int aRGB){
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,3>(r,g,b);
     }
 
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index 2116bac..ddedb0d 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -19,18 +19,18 @@ namespace geom {
      *===========================*/
 
     template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,4>(r,g,b,a);
     }
 
     template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((rgba & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T b = ((rgba & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T a =  (rgba & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,4>(r,g,b,a);
     }
 
-- 
2.43.0


From 21e7bfc05ca37429a47df65ab756bde598a9b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 007/163] fix: Quat::rotation_direction_align rotated by twice
 the angle between the vectors

---
 geomc/linalg/Quaternion.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 39e444e..f749879 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -103,7 +103,13 @@ public:
     {
         Vec<T,3> axis = v ^ alignWith;
         T d = v.dot(alignWith);
-        return Quat<T>(axis, d);
+        if (d <= -1) {
+            // antiparallel: half a turn about any axis perpendicular to `v`
+            Vec<T,3> u = std::abs(v.x) < std::abs(v.y) ? Vec<T,3>(1,0,0) : Vec<T,3>(0,1,0);
+            return Quat<T>((v ^ u).unit(), 0);
+        }
+        // `(axis, d)` is the rotation by twice the angle
+        return Quat<T>(axis, 1 + d).unit();
     }
 
     /*******************************
-- 
2.43.0


From e869d7c1174f5261dadf2d15bea7d4e7a440fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 008/163] fix: Quat::rotation_scale did not compile, and was
 NaN for the null rotation

---
 geomc/linalg/Quaternion.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index f749879..78f5e1c 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -233,7 +233,8 @@ public:
     // this may go the "long way" around. that what we want?
     Quat<T> rotation_scale(T t) const {
         // assumes a unit quaternion.
-        const T w = std::max(-1, std::min(Vec<T,4>::w, 1));
+        const T w = std::max((T)-1, std::min(this->w, (T)1));
+        if (imag().is_zero()) return identity();
         T omega = std::acos(w);
         T theta = omega * t;
         return Quat<T>(std::sin(theta) * imag().unit(), std::cos(theta));
-- 
2.43.0


From a8199610ade2254f6bc4c50f04cd244d8ad3cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 009/163] fix: Quat::slerp assigned to a const parameter, and
 was NaN between equal orientations

---
 geomc/linalg/Quaternion.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 78f5e1c..ed3b196 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -247,7 +247,7 @@ public:
      * @param t Interpolation parameter between 0 and 1.
      * @return 
      */
-    Quat<T> slerp(const Quat<T> &q1, T t) const {
+    Quat<T> slerp(Quat<T> q1, T t) const {
         // assumed unit quaternion.
         const Quat<T> &q0 = *this;
         T dot = q0.dot(q1);
@@ -255,10 +255,12 @@ public:
             dot = -dot;
             q1 = -q1;
         }
-        dot = std::max(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
+        dot = std::max<T>(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
         T omega = std::acos(dot);
         T theta = omega * t;
-        Quat<T> q2 = (q1 - q0 * dot).unit();
+        Quat<T> q2 = q1 - q0 * dot;
+        if (q2.is_zero()) return q0; // same orientation
+        q2 = q2.unit();
         return std::cos(theta) * q0 + std::sin(theta) * q2;
     }
     
-- 
2.43.0


From d49b0eff3ff7a0deda91706f3143bc84e3295dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 010/163] fix: Quat axis-angle conversions did not compile for
 types other than double

---
 geomc/linalg/Quaternion.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index ed3b196..59225c8 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -199,8 +199,8 @@ public:
      * `(x, y, z, radians)`.
      */
     Vec<T,4> to_axis_angle_rotation() const {
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
-        double alpha = 2 * std::acos(w_clamp);
+        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, (T)-1), (T)1);
+        T alpha = 2 * std::acos(w_clamp);
         if (detail::VecBase<T,4>::x == 0 and 
             detail::VecBase<T,4>::y == 0 and
             detail::VecBase<T,4>::z == 0)
@@ -217,7 +217,7 @@ public:
      */
     Vec<T,3> to_angular_velocity() const {
         // assumes a unit quaternion.
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
+        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, (T)-1), (T)1);
         T alpha = 2 * std::acos(w_clamp);
         if (imag().is_zero()) {
             return Vec<T,3>::zeros;
-- 
2.43.0


From d2644d6bd08451f5232f87fc6f44bd56b3a57c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 011/163] fix: log() and pow() of a quaternion with no
 imaginary part were NaN

---
 geomc/linalg/Quaternion.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 59225c8..a1b462f 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -319,6 +319,7 @@ geom::Quat<T> log(const geom::Quat<T>& q) {
     T q_m = q.mag();
     T v_m = q.imag().mag();
     T k   = std::acos(q.w / q_m);
+    if (v_m == 0) return geom::Quat<T>(k, 0, 0, std::log(q_m)); // any axis will do
     return geom::Quat<T>(k * q.imag() / v_m, std::log(q_m));
 }
 
@@ -330,7 +331,8 @@ geom::Quat<T> pow(const geom::Quat<T> &q, U a) {
     T mag = q.mag();
     if (mag == 0) return geom::Quat<T>(0,0,0,1);
     U theta = std::acos(q.real() / mag); // :(
-    geom::Vec<T,3> nhat = q.imag().unit();
+    geom::Vec<T,3> nhat(1,0,0); // any axis will do for a real q
+    if (not q.imag().is_zero()) nhat = q.imag().unit();
     return std::pow(mag, a) * geom::Quat<T>(
         nhat * std::sin(a * theta), 
         std::cos(a * theta));
-- 
2.43.0


From bde5c881d7a476db528177c840ce6f1476e86ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 012/163] fix: Quat::exp() and Quat::log() did not compile; the
 functions they call were declared after the class

---
 geomc/linalg/Quaternion.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index a1b462f..0e54b2a 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -11,6 +11,12 @@
 #include <cmath>
 #include <geomc/linalg/Vec.h>
 
+// used by the class, defined below
+namespace std {
+    template <typename T> geom::Quat<T> exp(const geom::Quat<T>& q);
+    template <typename T> geom::Quat<T> log(const geom::Quat<T>& q);
+}
+
 namespace geom {
 
 /** @ingroup linalg 
-- 
2.43.0


From 8d2421773a846f47c0cd8d261bc3f4f82eb4846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 013/163] fix: mtx_aliases_storage missed storage that overlaps
 without being contained

---
 geomc/linalg/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 90a6336..cd731d1 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -321,11 +321,11 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
         for (index_t j = 0; j < b.storage_token_count(); j++) {
             auto& tka = buf_a[i];
             auto& tkb = buf_b[j];
-            if (tka.lo < tkb.lo or tka.hi > tkb.hi) return false;
+            if (tka.lo < tkb.hi and tkb.lo < tka.hi) return true;
         }
     }
     
-    return true;
+    return false;
 }
 
 template <typename T, index_t N>
-- 
2.43.0


From 90960d007a2bab0ef7f112b9d920c067c0593164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 014/163] fix: mul() into or from a vector did not compile;
 mtx_aliases_storage had no vector/matrix overloads

---
 geomc/linalg/Matrix.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index cd731d1..d53250e 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -328,9 +328,28 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
     return false;
 }
 
-template <typename T, index_t N>
-inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,N>& b) {
-    return a.begin() == b.begin();
+template <typename T, index_t M, typename U, index_t N>
+inline bool mtx_aliases_storage(const Vec<T,M>& a, const Vec<U,N>& b) {
+    const void* pa = a.begin();
+    const void* pb = b.begin();
+    return pa == pb;
+}
+
+template <typename Mx, typename T, index_t N>
+inline bool mtx_aliases_storage(const Mx& a, const Vec<T,N>& b) {
+    typename Mx::storagebuffer_t buf = a.get_storage_token_buffer();
+    a.get_storage_tokens(buf.get());
+    const void* lo = b.begin();
+    const void* hi = b.end();
+    for (index_t i = 0; i < a.storage_token_count(); i++) {
+        if (buf[i].lo < hi and lo < buf[i].hi) return true;
+    }
+    return false;
+}
+
+template <typename T, index_t N, typename Mx>
+inline bool mtx_aliases_storage(const Vec<T,N>& a, const Mx& b) {
+    return mtx_aliases_storage(b, a);
 }
 
 
-- 
2.43.0


From 477ca30118e9cead80f098d2dd309de514f5e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 015/163] fix: diagonal * matrix product multiplied the
 diagonal matrix's own elements

---
 geomc/linalg/mtxdetail/MatrixMult.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 573c911..15d6379 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -113,9 +113,9 @@ public:
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,M,N>& a, const Mat& b) {
         const T* dp = a.diagonal_begin();
-        for (index_t r = 0; r < b.rows(); ++r, ++dp) {
-            for (index_t c = 0; c < a.cols(); ++c) {
-                d->set(r,c, (*dp) * a(r,c));
+        for (index_t r = 0; r < a.rows(); ++r) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                d->set(r,c, r < b.rows() ? dp[r] * b(r,c) : T(0));
             }
         }
     }
-- 
2.43.0


From a1ddc0876f711e255cb2a62ad78011c6c12964cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 016/163] fix: matrix * diagonal product read past the operands
 if the diagonal matrix was wide

---
 geomc/linalg/mtxdetail/MatrixMult.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 15d6379..bd4a009 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -93,9 +93,9 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::DiagMatrix<T,M,N>& b) {
         const T* dp = b.diagonal_begin();
-        for (index_t c = 0; c < b.cols(); ++c, ++dp) {
+        for (index_t c = 0; c < b.cols(); ++c) {
             for (index_t r = 0; r < a.rows(); ++r) {
-                d->set(r,c, (*dp) * a(r,c));
+                d->set(r,c, c < a.cols() ? dp[c] * a(r,c) : T(0));
             }
         }
     }
-- 
2.43.0


From 812b0ded2848a7248fda57285f903defec396414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 017/163] fix: the product of two diagonal matrices did not
 compile

---
 geomc/linalg/mtxdetail/MatrixMult.h | 56 ++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index bd4a009..188d8cc 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -37,6 +37,19 @@ namespace detail {
         >::value \
     >::type
 
+template <typename Mt> struct _IsDiagMatrix { static const bool val = false; };
+template <typename T, index_t M, index_t N>
+struct _IsDiagMatrix<geom::DiagMatrix<T,M,N>> { static const bool val = true; };
+
+// The diagonal matrix implementations need to avoid each other, too:
+#define REQUIRE_PLAIN_MATRIX_T(Mt) \
+    typename std::enable_if< \
+        std::is_base_of< \
+            geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
+            Mt \
+        >::value and not detail::_IsDiagMatrix<Mt>::val \
+    >::type
+
 
 /************************************
  * Matrix mult implementations      *
@@ -84,7 +97,7 @@ public:
 
 // mtx * diag
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_PLAIN_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
@@ -104,7 +117,7 @@ public:
 
 // diag * mtx
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_PLAIN_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
@@ -129,23 +142,31 @@ public:
     
     typedef geom::DiagMatrix<T,L,N> return_t;
     
+    // number of diagonal elements of the product which may be nonzero
+    static index_t diag_size(const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
+        return std::min(a.rows(), std::min(a.cols(), b.cols()));
+    }
+    
     // diagonal destination matrix
     template <typename U, index_t I, index_t J>
     static void mul(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diag_size(a, b);
+        U* pc = d->diagonal_begin();
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb, ++pc) {
             *pc = (*pa) * (*pb);
         }
+        std::fill(pc, d->diagonal_end(), U(0));
     }
     
     template <typename U, index_t I, index_t J>
     static void mul_acc(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diag_size(a, b);
+        U* pc = d->diagonal_begin();
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb, ++pc) {
             *pc += (*pa) * (*pb);
         }
     }
@@ -153,19 +174,21 @@ public:
     // arbitrary destination matrix
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diag_size(a, b);
         d->set_zero();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb) {
             d->set(i, i, (*pa) * (*pb));
         }
     }
     
     template <typename Md>
     static void mul_acc(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diag_size(a, b);
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb) {
             d->set(i, i, (*d)(i,i) + (*pa) * (*pb));
         }
     }
@@ -413,6 +436,7 @@ public:
 //      can increment matrix ptr and use     v++ % N.
 
 #undef REQUIRE_MATRIX_T
+#undef REQUIRE_PLAIN_MATRIX_T
 
 }; // namespace geom
 }; // namespace detail
-- 
2.43.0


From 4db0432b705c490dac462dcd17ac77949e77b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 018/163] fix: permutation_sign counted k transpositions for a
 cycle of k elements, instead of k - 1

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f066627..76712cb 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -486,7 +486,8 @@ index_t permutation_sign(index_t* p, index_t n) {
         do {
             // source of the new element at this position:
             index_t next = p[cur];
-            odd = not odd;
+            // a cycle of k elements is a product of (k - 1) transpositions
+            if (next != i) odd = not odd;
             // mark this element as visited by mapping it to itself
             p[cur] = cur;
             // ...and then proceed
-- 
2.43.0


From cb8aae925907f90b92199abcbeade66b11e2face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 019/163] fix: PermutationMatrix::sign() did not return a value
 it had to compute

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 76712cb..a9bee05 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -155,9 +155,8 @@ public:
             for (index_t i = 0; i < n; i++) {
                 row_dst[row_src[i]] = i;
             }
-        } else {
-            return _sign;
         }
+        return _sign;
     }
     
     
-- 
2.43.0


From 529d39e626f30b7bdc7918edab9a51dd27906c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 020/163] fix: product of permutation matrices kept the sign of
 the overwritten matrix

---
 geomc/linalg/mtxdetail/MatrixMult.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 188d8cc..ddab751 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -381,6 +381,7 @@ public:
             d_rd[i] = s_b[s_a[i]];
             d_cd[i] = d_a[d_b[i]];
         }
+        d->_sign = 0; // not computed yet
     }
 };
 
-- 
2.43.0


From 1b73e5ac535728934eddda60a0455cea9481f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 021/163] fix: product of permutation matrices into a general
 matrix was transposed

---
 geomc/linalg/mtxdetail/MatrixMult.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index ddab751..cc207f1 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -355,13 +355,13 @@ public:
     typedef geom::PermutationMatrix<((M < N) ? M : N)> return_t;
     
     template <typename Md>
-    static void mul(Md* d, const Ma& a, const Ma& b) {
-        const index_t* d_a = a.getRowDestinations();
-        const index_t* d_b = b.getRowDestinations();
+    static void mul(Md* d, const Ma& a, const Mb& b) {
+        const index_t* s_a = a.getRowSources();
+        const index_t* s_b = b.getRowSources();
         
         d->set_zero();
         for (index_t i = 0; i < a.rows(); i++) {
-            d->set(i, d_a[d_b[i]], 1);
+            d->set(i, s_b[s_a[i]], 1);
         }
     }
     
-- 
2.43.0


From 23993acdf1cae24611f70c0a2a981f2d036bb241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 022/163] fix: set_identity() of a non-square matrix put ones
 off the diagonal

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 0ab80ab..3e939be 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -500,9 +500,9 @@ public:
      */
     void set_identity() {
         set_zero();
-        T *last = data_end();
-        for (T *p = data_begin(); p < last; p += cols() + 1) {
-            *p = 1;
+        const index_t diag = std::min(rows(), cols());
+        for (index_t i = 0; i < diag; ++i) {
+            set(i, i, 1);
         }
     }
     
-- 
2.43.0


From bf8093291b003bbe41c373140ba8a2199228cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 023/163] fix: SimpleMatrix::as_transpose() did not compile

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 3e939be..f3f3c78 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -484,15 +484,19 @@ public:
      */
 #ifdef PARSING_DOXYGEN
     WrapperMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR> 
-    as_transpose() const {
+    as_transpose() {
 #else
     SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> 
-    as_transpose() const {
+    as_transpose() {
 #endif
-        return 
-        SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED>(
-            data.get(), cols(), rows()
-        );
+        typedef SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> txpose_t;
+        if constexpr (M == DYNAMIC_DIM and N == DYNAMIC_DIM) {
+            return txpose_t(data.get(), cols(), rows());
+        } else if constexpr (M == DYNAMIC_DIM or N == DYNAMIC_DIM) {
+            return txpose_t(data.get(), M == DYNAMIC_DIM ? rows() : cols());
+        } else {
+            return txpose_t(data.get());
+        }
     }
     
     /**
-- 
2.43.0


From 4a237c1d9e0c8635228649f3fe523bcf8f762728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 024/163] fix: transpose() of a matrix in wrapped storage did
 not compile

---
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5239760..5e3f64a 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -113,7 +113,8 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 struct _ImplMtxTxpose<geom::SimpleMatrix<T,M,N,Lyt,P> > {
     
     typedef geom::SimpleMatrix<T,M,N,Lyt,P> Mx;
-    typedef geom::SimpleMatrix<T,N,M,Lyt,P> return_t;
+    // a new matrix must own its storage, even if the argument does not
+    typedef geom::SimpleMatrix<T,N,M,Lyt,P == STORAGE_WRAPPED ? STORAGE_UNIQUE : P> return_t;
     
     
     // xxx: this is masked by alias checking, which will duplicate
-- 
2.43.0


From cb97d86910b7d283502ea586007685065ff2d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 025/163] fix: transpose() into shared storage transposed a
 second time, from the overwritten source

---
 geomc/linalg/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index d53250e..b61a3f7 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -689,6 +689,7 @@ transpose(Md *into, const Mx &m) {
         return_t buf = detail::_ImplMtxInstance<return_t>::instance(m.cols(), m.rows());
         txpose_t::transpose(&buf, m);
         detail::_mtxcopy(into, buf);
+        return;
     }
 #endif
     txpose_t::transpose(into, m);
-- 
2.43.0


From 641683d5dc1c7fc8218b180c81844c3d8ad0552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 026/163] fix: decrementing a GridIterator across a row skipped
 the last point of the row

---
 geomc/shape/GridIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 8452fa8..b4b4fd2 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -145,7 +145,7 @@ private:
         for (index_t i = dim_first;
                 i != dim_end and --(pt[i]) < region.lo[i];
                 i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i] - 1;
+            if (i != dim_last) pt[i] = region.hi[i];
         }
     }
     
-- 
2.43.0


From a7a1bf94b8304705ee5eee89f3312fafc8261466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 027/163] fix: advancing a GridIterator ignored its position
 and the region's origin, and did not compile for index_t

---
 geomc/shape/GridIterator.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index b4b4fd2..e1ccef6 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -150,17 +150,18 @@ private:
     }
     
     inline void advance(index_t n) {
-        point_t dest = point_t(0);
         point_t dim  = region.dimensions();
-        index_t vol  = region.volume();
         
-        for (index_t i = dim_last; i != dim_first - dim_increment; i -= dim_increment) {
-            vol     = vol / dim[i];
-            dest[i] = n / vol;
-            n       = n % vol;
+        for (index_t i = dim_first; i != dim_last; i += dim_increment) {
+            // offset along this axis, with floor division carrying to the next
+            index_t k = index_t(pt[i] - region.lo[i]) + n;
+            index_t d = dim[i];
+            index_t r = k % d;
+            if (r < 0) r += d;
+            pt[i] = region.lo[i] + r;
+            n     = (k - r) / d;
         }
-        
-        pt = dest;
+        pt[dim_last] += n;
     }
     
     inline index_t distance_to(const GridIterator<T,N,Order> &other) const {
-- 
2.43.0


From 3e3e2172b4ed72a4390a198ae0be5c4c4dc61ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 028/163] fix: GridIterators could not be assigned

---
 geomc/shape/GridIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index e1ccef6..bc65ca9 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -74,7 +74,7 @@ public:
     typedef typename PointType<T,N>::point_t point_t;
     
     /// Region over which to iterate
-    const Rect<T,N> region;
+    Rect<T,N> region;
     /// Current point
     point_t pt;
     
@@ -210,7 +210,7 @@ public:
     static const ArrayOrder order;
     typedef typename PointType<T,1>::point_t point_t;
     
-    const Rect<T,1> region;
+    Rect<T,1> region;
     point_t pt;
     
     GridIterator(const Rect<T,1> &r):
-- 
2.43.0


From c73de2fec93a1e659b35fc80362a1de4a39d4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 029/163] fix: one-dimensional GridIterator: exclusive bound
 was extended, order was undefined, begin() assumed the default order

---
 geomc/shape/GridIterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index bc65ca9..2d61e6f 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -207,7 +207,7 @@ class GridIterator<T,1,Order> :
 
 public:
 
-    static const ArrayOrder order;
+    static constexpr ArrayOrder order = Order;
     typedef typename PointType<T,1>::point_t point_t;
     
     Rect<T,1> region;
@@ -217,11 +217,11 @@ public:
             region(r),
             pt(region.lo) {}
     GridIterator(const point_t &lo, const point_t &hi):
-            region(lo, hi + 1),
+            region(lo, hi - 1),
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-        GridIterator<T,1> other = *this;
+        GridIterator<T,1,Order> other = *this;
         other.pt = region.lo;
         return other;
     }
-- 
2.43.0


From ac54e7f9ba4eac44fe173ba251c77b0420a9eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 030/163] fix: TransposeIterators could not be assigned

---
 geomc/linalg/mtxdetail/MatrixLayout.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixLayout.h b/geomc/linalg/mtxdetail/MatrixLayout.h
index ddc2eb9..5ff0464 100644
--- a/geomc/linalg/mtxdetail/MatrixLayout.h
+++ b/geomc/linalg/mtxdetail/MatrixLayout.h
@@ -18,11 +18,11 @@ struct TransposeIterator :
     typedef typename std::conditional<Const, const T*, T*>::type pointer_t;
     typedef typename std::conditional<Const, const T&, T&>::type ref_t;
     
-    const pointer_t base;
-    const index_t   major; // # elements along major (consecutive) axis
-    const index_t   minor; // # elements along minor axis
-          index_t   i;     // ordinal of this iterator
-          pointer_t p;     // pointed memory location
+    pointer_t base;
+    index_t   major; // # elements along major (consecutive) axis
+    index_t   minor; // # elements along minor axis
+    index_t   i;     // ordinal of this iterator
+    pointer_t p;     // pointed memory location
     
     /*
     Numbers increase with memory address:
-- 
2.43.0


From 102a64563286dcf38cab316d9f7c7dbac9f9327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 031/163] fix: scalar multiple of a matrix in wrapped storage
 did not compile

---
 geomc/linalg/mtxdetail/MatrixArithmetic.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index da8a99f..259951a 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -151,8 +151,8 @@ template <typename Mx>
 struct _ImplMatrixScale {
     typedef Mx return_t;
     
-    template <typename Md, typename U>
-    static void scale(Md *d, U k, const Mx &m) {
+    template <typename Md, typename U, typename Ms>
+    static void scale(Md *d, U k, const Ms &m) {
         for (index_t r = 0; r < m.rows(); ++r) {
             for (index_t c = 0; c < m.cols(); ++c) {
                 d->set(r, c, k * m(r,c));
@@ -161,6 +161,19 @@ struct _ImplMatrixScale {
     }
 };
 
+////////// wrapped storage case //////////
+
+// a new matrix must own its storage, even if the argument does not
+template <typename T, index_t M, index_t N, MatrixLayout Lyt>
+struct _ImplMatrixScale < SimpleMatrix<T,M,N,Lyt,STORAGE_WRAPPED> > {
+    typedef SimpleMatrix<T,M,N,Lyt> return_t;
+    
+    template <typename Md, typename U>
+    static void scale(Md *d, U k, const SimpleMatrix<T,M,N,Lyt,STORAGE_WRAPPED> &m) {
+        _ImplMatrixScale<return_t>::scale(d, k, m);
+    }
+};
+
 ////////// diagonal case //////////
 
 template <typename T, index_t M, index_t N>
-- 
2.43.0


From 9027177a346a725456123c9a246435011deb7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 032/163] fix: rows of matrices other than SimpleMatrix could
 not be read: no member get(), and compared as columns

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 38ae378..be3b2e2 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -208,7 +208,7 @@ private:
     
     friend class boost::iterator_core_access;
     
-    inline bool equal(const MtxColIterator<M,RefType>& other) const {
+    inline bool equal(const MtxRowIterator<M,RefType>& other) const {
         return (other.mtx == mtx) and (other.pt == pt);
     }
     
@@ -230,7 +230,7 @@ private:
     
     inline RefType dereference() const {
         // always make sure this is calling the function with the right const-ness!
-        return mtx->get(pt.row, pt.col);
+        return (*mtx)(pt.row, pt.col);
     }
     
 };
@@ -275,7 +275,7 @@ public:
     
     // TODO: this should be a reference?
     inline operator T() const {
-        return ((const M*)m)->get(row, col);
+        return (*(const M*)m)(row, col);
     }
     
 };
-- 
2.43.0


From 33e165bb73b8ad073bd6e847a8cf1e08d9930978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 033/163] fix: rows of a matrix other than SimpleMatrix could
 not be indexed; MatrixHandle did not compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 geomc/linalg/mtxtypes/MatrixHandle.h    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index be3b2e2..c0fb937 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -314,7 +314,7 @@ struct _ImplMtxReftype {
 
 template <typename M, typename T>
 struct _ImplMtxConstRowtype {
-    typedef MtxRowIterator<M, const T> const_row_iterator;
+    typedef MtxRowIterator<const M, const T> const_row_iterator;
 };
 
 template <typename M, typename T>
diff --git a/geomc/linalg/mtxtypes/MatrixHandle.h b/geomc/linalg/mtxtypes/MatrixHandle.h
index 3f4d1a1..9f1b7e0 100644
--- a/geomc/linalg/mtxtypes/MatrixHandle.h
+++ b/geomc/linalg/mtxtypes/MatrixHandle.h
@@ -42,7 +42,7 @@ class MatrixHandle : public detail::WriteableMatrixBase<T,DYNAMIC_DIM, DYNAMIC_D
 public:
     typedef typename detail::_ImplMtxReftype<MatrixHandle<T>,T>::reference reference;
     
-    using detail::WriteableMatrixBase<T,DYNAMIC_DIM,DYNAMIC_DIM, MatrixHandle<T> >::get;
+    using detail::WriteableMatrixBase<T,DYNAMIC_DIM,DYNAMIC_DIM, MatrixHandle<T> >::operator();
     
     MatrixHandle() {}
     virtual ~MatrixHandle() {}
@@ -68,7 +68,7 @@ public:
     typedef typename M::elem_t elem_t;
     typedef typename MatrixHandle<elem_t>::reference reference;
     
-    using MatrixHandle<elem_t>::get;
+    using MatrixHandle<elem_t>::operator();
     
     M *m;
     MatrixWrapper(M *m):m(m) {}
-- 
2.43.0


From 44d06af6333432bc47b5c98d372af0ea77a76b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 034/163] fix: det4x4() did not compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fe052b9..3e229ee 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -86,7 +86,7 @@ inline T det3x3(
 /// Compute the 4x4 matrix determinant.
 template <typename T>
 T det4x4(const T m[16]) {
-    const detail::_m4x4<T>& v = *reinterpret_cast<detail::_m4x4<T>*>(m);
+    const detail::_m4x4<T>& v = *reinterpret_cast<const detail::_m4x4<T>*>(m);
     return 
         diff_of_products(
             v.a, det3x3(v.f, v.g, v.h,  v.j, v.k, v.l,  v.n, v.o, v.p),
-- 
2.43.0


From 633cfa194ff7b74f120ab0abe095ddc4c61dc18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 035/163] fix: determinants of n x n matrices did not compile,
 and multiplied the wrong elements for the diagonal

---
 geomc/linalg/mtxdetail/MatrixDet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 3e229ee..c1aedc3 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -121,7 +121,7 @@ T det_destructive(T* m, index_t n) {
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonals, if A is triangular
     for (index_t i = 0; i < n; ++i) {
-        d *= m[i * i];
+        d *= m[i * (n + 1)];
     }
     return d;
 }
@@ -140,13 +140,13 @@ template <typename T>
 T detNxN(const T* m, index_t n) {
     bool odd;
     SmallStorage<T, 64> buf(m, n * n);
-    if (decomp_plu(buf.get(), n, n, nullptr, &odd) != 0) return 0;
+    if (decomp_plu(buf.begin(), n, n, nullptr, &odd) != 0) return 0;
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonal elems, if A is triangular
     // and det(AB) = det(A) * det(B). So if M = LU,
     // because `L` has unit diagonal, det(M) is just the diagonal elements of `U`.
     for (index_t i = 0; i < n; ++i) {
-        d *= buf[i * i];
+        d *= buf[i * (n + 1)];
     }
     return d;
 }
@@ -166,7 +166,7 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 inline T det(const SimpleMatrix<T, M, N, Lyt, P>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     if (M * N == 0 and m.rows() != m.cols()) return 0;
-    return det(m.data_begin(), m.rows());
+    return detNxN(m.data_begin(), m.rows());
 }
 
 // 2x2 matrix det
-- 
2.43.0


From 37def3dc64519831f8d763bc51cce64cd82e13db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 036/163] fix: determinant of a diagonal matrix did not compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index c1aedc3..0ba59bf 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -202,7 +202,7 @@ T det(const DiagMatrix<T,N,M>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     T d = 1;
     if (m.rows() != m.cols()) return 0;
-    for (T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
+    for (const T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
         d *= *a;
     }
     return d;
-- 
2.43.0


From 44e8a8ffc0baf0efe298166aeb11b7069b3c9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 037/163] fix: determinant of a permutation matrix did not
 compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 0ba59bf..be94e7a 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -224,7 +224,7 @@ template <index_t N>
 inline index_t det(const PermutationMatrix<N>& m) {
     index_t n = m.rows();
     SmallStorage<index_t,(N > 32 ? N : 32)> p(m.getRowSources(), n);
-    return permutation_sign(p.get(), n);
+    return permutation_sign(p.begin(), n);
 }
 
 /// @} // ingroup matrix
-- 
2.43.0


From 4f4da47e3da42a7f729ece6bb7f6f197cf500e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 038/163] fix: LU decomposition ignored the last pivot:
 singular matrices went undetected, the last column (row) of tall (wide)
 matrices was not eliminated

---
 geomc/linalg/LUDecomp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index 54689af..e25a486 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -116,7 +116,7 @@ index_t decomp_lup(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
@@ -202,7 +202,7 @@ index_t decomp_plu(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
-- 
2.43.0


From 9d1d7d2bce4bc7b4b2c7fdc5d11a9618af1ddf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 039/163] fix: orthogonal() and nullspace() failed for
 independent vectors whose leading components are dependent

---
 geomc/linalg/Orthogonal.h | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index ec11bdf..24d8f2e 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -67,7 +67,7 @@ namespace geom {
  */
 template <typename T, index_t N>
 Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
-    Vec<T,N> o;
+    Vec<T,N> o, y;
     index_t  P[N];
     T        m[N * (N-1)];
     const T* v0 = v[0].begin();
@@ -76,18 +76,23 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
     std::copy(v0, v0 + N * (N-1), m);
     
     bool parity_swap = false;
-    if (decomp_plu(m, N-1, N, P, &parity_swap) > 0) {
+    if (decomp_lup(m, N-1, N, P, &parity_swap) > 0) {
         // matrix is singular; nullity is > 1. return 0 vector.
         return Vec<T,N>();
     }
     
-    o[N-1] = 1;
+    y[N-1] = 1;
     for (index_t r = N-2; r >= 0; r--) {
         // back substitute.
         for (index_t c = N-1; c > r; c--) {
-            o[r] -= o[c] * mx(r,c);
+            y[r] -= y[c] * mx(r,c);
         }
-        o[r] /= mx(r,r);
+        y[r] /= mx(r,r);
+    }
+    
+    // undo the column permutation
+    for (index_t i = 0; i < N; i++) {
+        o[P[i]] = y[i];
     }
     
     return o;
@@ -138,7 +143,7 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-    index_t P[N - 2];     //     (N-1 and N cases handled above)
+    index_t P[N];         //     (N-1 and N cases handled above)
             T* n0 = null_basis[0].begin();
     const T* b0 = bases[0].begin();
     
@@ -154,19 +159,24 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     
     // get V to row-echelon form
     bool parity_swap = false;
-    if (decomp_plu(m, n, N, P, &parity_swap) > 0) return false;
+    if (decomp_lup(m, n, N, P, &parity_swap) > 0) return false;
     
     // foreach null space basis
     for (index_t b = 0; b < N - n; b++) {
-        X(b + n, b) = 1;
+        T y[N] = {};
+        y[b + n] = 1;
         // back substitute.
         for (index_t r = n - 1; r >= 0; r--) {
-            T& x_i =  X(r, b);
-            x_i    = -V(r, n + b);
+            T& y_i =  y[r];
+            y_i    = -V(r, n + b);
             for (index_t c = r + 1; c < n; c++) {
-                x_i -= V(r, c) * X(c, b);
+                y_i -= V(r, c) * y[c];
             }
-            x_i /= V(r, r);
+            y_i /= V(r, r);
+        }
+        // undo the column permutation
+        for (index_t i = 0; i < N; i++) {
+            X(P[i], b) = y[i];
         }
     }
     
-- 
2.43.0


From cf5e5e65ab84e8841bce9f7a3d91f494ed20a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 040/163] fix: inverse of a dynamically sized matrix did not
 compile

---
 geomc/linalg/mtxdetail/MatrixInv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 2aa16ee..29be054 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -270,7 +270,7 @@ struct _ImplMtxInvRaw<T,0> {
                 // make a buffer with the same layout as the output
                 static constexpr MatrixLayout Lyt = Md::Layout;
                 SmallStorage<T,64> buf(n * n); // try not to alloc
-                WrapperMatrix<T,0,0,Lyt> bmx(buf.get(), n, n);
+                WrapperMatrix<T,0,0,Lyt> bmx(buf.begin(), n, n);
                 detail::_mtxcopy(&bmx, m);
                 return geom::invNxN(into->data_begin(), bmx.data_begin(), n);
         }
-- 
2.43.0


From 5125d7f89e43761283cda1aaf04091f051ff86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 041/163] fix: inverse of a diagonal matrix did not compile,
 and would have read the source after clearing it

---
 geomc/linalg/mtxdetail/MatrixInv.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 29be054..735c802 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -375,14 +375,27 @@ public:
     
     typedef geom::DiagMatrix<T, (M != 0 ? M : N), (M != 0 ? M : N)> return_t;
     
+    template <typename Md>
+    static inline void _set_diagonal(Md* into, index_t i, const T& v) {
+        into->set(i, i, v);
+    }
+    
+    template <typename U, index_t J, index_t K>
+    static inline void _set_diagonal(geom::DiagMatrix<U,J,K>* into, index_t i, const T& v) {
+        into->diagonal(i) = v;
+    }
+    
     template <typename Md>
     static bool inv(Md *into, const geom::DiagMatrix<T,M,N>& m) {
+        for (const T *p = m.diagonal_begin(); p != m.diagonal_end(); ++p) {
+            if (*p == 0) return false;
+        }
+        // `into` may alias `m`
+        const geom::DiagMatrix<T,M,N> src = m;
         into->set_zero(); // for newly allocated matrices, redundant. oh well.
-        T *p = m.diagonal_begin();
-        for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
-            T elem = *p;
-            if (elem == 0) return false;
-            into->set(i,i, 1/elem);
+        const T *p = src.diagonal_begin();
+        for (index_t i = 0; p != src.diagonal_end(); ++i, ++p) {
+            _set_diagonal(into, i, 1 / *p);
         }
         return true;
     }
-- 
2.43.0


From f8994db09e556d92f993f7fe8f5d64484725ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 042/163] fix: cholesky() of a column-major matrix did not
 compile

---
 geomc/linalg/Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Cholesky.h b/geomc/linalg/Cholesky.h
index cfa7b18..9ce6903 100644
--- a/geomc/linalg/Cholesky.h
+++ b/geomc/linalg/Cholesky.h
@@ -85,7 +85,7 @@ cholesky(SimpleMatrix<T,M,N,Lyt,P>* m) {
     if (M * N == 0 and m->rows() != m->cols()) {
         return false;
     }
-    return cholesky<T,true>(m->begin(), m->rows());
+    return cholesky<T,Lyt == ROW_MAJOR>(m->data_begin(), m->rows());
 }
 #endif
 
-- 
2.43.0


From 8902959efb1faa25b5984639152b0c89e42ccef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 043/163] fix: AffineTransform::resized() dropped the
 translation of the inverse

---
 geomc/linalg/AffineTransform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index ed72436..6b46cf5 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -184,9 +184,11 @@ public:
             }
             // keep translation components in the homogenous column
             xf.mat(i,M) = static_cast<U>(mat(i,N));
+            xf.inv(i,M) = static_cast<U>(inv(i,N));
         }
         // this ought to be 1, but let's be pedantic
         xf.mat(M,M) = mat(N,N);
+        xf.inv(M,M) = inv(N,N);
         return xf;
     }
     
-- 
2.43.0


From d69fdfdca576403c5f9a3037bdacfe401be5a040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 044/163] fix: dividing an AffineTransform by itself did not
 update its inverse correctly

---
 geomc/linalg/AffineTransform.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 6b46cf5..f746e68 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -168,8 +168,10 @@ public:
      * the inverse of `xf`.
      */
     AffineTransform<T,N>& operator/=(const AffineTransform<T,N>& xf) {
-        mat = xf.inv * mat;
+        // n.b.: `xf` may be `this`
+        SimpleMatrix<T,N+1,N+1> m = xf.inv * mat;
         inv = inv * xf.mat;
+        mat = m;
         return *this;
     }
     
-- 
2.43.0


From 5792feee3480f1ae545e11842a5f65152088754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 045/163] fix: aligning a direction with its opposite turned
 about y even if the direction was not perpendicular to y

---
 geomc/linalg/AffineTransform.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index f746e68..1a14ae6 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -441,6 +441,25 @@ inline void rotmat(
     rotmat(into, axis.x, axis.y, axis.z, ctr.x, ctr.y, ctr.z, theta);
 }
 
+namespace detail {
+
+// fill the upper 3x3 elements of `into` with a half turn which reverses the unit vector `dir`
+template <typename T, index_t N>
+void rotmat_reverse(SimpleMatrix<T,N,N>* into, const Vec<T,3>& dir) {
+    // the axis is any direction perpendicular to `dir`
+    Vec<T,3> u = std::abs(dir.y) < std::abs(dir.x)
+                    ? Vec<T,3>(-dir.z, 0, dir.x)
+                    : Vec<T,3>(0, dir.z, -dir.y);
+    u /= u.mag();
+    for (index_t r = 0; r < 3; ++r) {
+        for (index_t c = 0; c < 3; ++c) {
+            into->set(r, c, 2 * u[r] * u[c] - (r == c));
+        }
+    }
+}
+
+} // namespace detail
+
 // rotation aligning `dir` with `alignWith`.
 // modified from http://www.iquilezles.org/www/articles/noacos/noacos.htm
 template <typename T>
@@ -455,7 +474,7 @@ inline void rotmat_direction_align(
     // handle poles
     if (std::abs(c) == 1) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        if (c < 0) detail::rotmat_reverse(into, dir);
         return;
     }
     
@@ -481,7 +500,7 @@ SimpleMatrix<T,3,3> rotmat_direction_align(
     if (std::abs(c) == 1) {
         SimpleMatrix<T,3,3> out;
         // 180 degree case:
-        if (c < 0) { out.set(0, 0, -1); out.set(2, 2, -1); }
+        if (c < 0) detail::rotmat_reverse(&out, dir);
         return out;
     }
     
@@ -575,7 +594,7 @@ inline void rotmat_direction_align(
     // handle poles
     if (std::abs(c) == 1) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        if (c < 0) detail::rotmat_reverse(into, dir);
         return;
     }
     
-- 
2.43.0


From dfd39e3c2546e4d366c71103bd15f50809ed89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 046/163] fix: Ray::dist2() normalised by the length of the
 offset instead of the direction; Ray::sdf() did not compile

---
 geomc/linalg/Ray.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9f9eb6e..c9bb51e 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -84,15 +84,12 @@ public:
     
     /// Signed distance from `p` to the nearest point on the ray.
     inline T sdf(point_t p) const {
-        return std::sqrt(dist2());
+        return std::sqrt(dist2(p));
     }
     
     /// Compute the square of the distance from `p` to the nearest point on the ray.
     inline T dist2(point_t p) const {
-        point_t b = p - origin;
-        T b2 = b.mag2();
-        T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
+        return (p - project(p)).mag2();
     }
     
 }; // class Ray
-- 
2.43.0


From c9e18601745b93a7d64f2ef7599e3b3005657336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 047/163] fix: converting a Dual to another discontinuity
 policy was ambiguous, and copied the derivative to the value

---
 geomc/function/functiondetail/DualImpl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 0f04048..5323629 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -148,7 +148,7 @@ struct Dual {
     
     /// Construct a Dual from one with a different discontinuity policy.
     template <DiscontinuityPolicy DP1>
-    constexpr Dual(const Dual<T,DP1>& d):x(d.dx), dx(d.dx) {}
+    constexpr Dual(const Dual<T,DP1>& d):x(d.x), dx(d.dx) {}
     
     /// Copy-construct a Dual
     constexpr Dual(const Dual& d) = default;
@@ -211,7 +211,7 @@ struct Dual {
     // conversion
     
     template <typename U>
-    requires std::convertible_to<T,U>
+    requires std::convertible_to<T,U> and (not std::same_as<T,U>)
     inline operator Dual<U>() const {
         return {
             static_cast<U>(x), 
-- 
2.43.0


From e5b8cb8484ffb87aa1f54010190ea14ed895354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 048/163] fix: default-constructed Dual had an uninitialized
 value

---
 geomc/function/functiondetail/DualImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 5323629..5704060 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -138,7 +138,7 @@ struct Dual {
      *******************************/
    
     /// Construct a Dual default value and 0 derivative.
-    constexpr Dual():dx(0) {}
+    constexpr Dual():x(0),dx(0) {}
     
     /// Construct a Dual with value `x` and 0 derivative.
     constexpr Dual(T x):x(x),dx(0) {}
-- 
2.43.0


From 023c5db20577f9bb112dd025633501b8cb2cd22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 049/163] fix: const Duals could not be compared

---
 geomc/function/functiondetail/DualImpl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 5704060..df99874 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -170,17 +170,17 @@ struct Dual {
     // comparison
     
     /// Equality of primal component
-    inline bool operator==(const Dual<T,Dp> &d) { return x == d.x; }
+    inline bool operator==(const Dual<T,Dp> &d) const { return x == d.x; }
     /// Inequality of primal component
-    inline bool operator!=(const Dual<T,Dp> &d) { return x != d.x; }
+    inline bool operator!=(const Dual<T,Dp> &d) const { return x != d.x; }
     /// Greater-or-equal-to comparison of primal component
-    inline bool operator>=(const Dual<T,Dp> &d) { return x >= d.x; }
+    inline bool operator>=(const Dual<T,Dp> &d) const { return x >= d.x; }
     /// Less-or-equal-to comparison of primal component
-    inline bool operator<=(const Dual<T,Dp> &d) { return x <= d.x; }
+    inline bool operator<=(const Dual<T,Dp> &d) const { return x <= d.x; }
     /// Greater-than comparison of primal component
-    inline bool operator> (const Dual<T,Dp> &d) { return x  > d.x; }
+    inline bool operator> (const Dual<T,Dp> &d) const { return x  > d.x; }
     /// Less-than comparison of primal component
-    inline bool operator< (const Dual<T,Dp> &d) { return x  < d.x; }
+    inline bool operator< (const Dual<T,Dp> &d) const { return x  < d.x; }
     
     /// Post-increment
     Dual<T,Dp> operator++(int) {
-- 
2.43.0


From c206376f970a8542d7f6c3da9a99aa56d724a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 050/163] fix: derivative of tan(Dual) had the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 35e9cb6..438f56e 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -297,7 +297,7 @@ inline geom::Dual<T,P> cos(const geom::Dual<T,P> &d) {
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> tan(const geom::Dual<T,P> &d) {
     T c = std::cos(d.x);
-    return geom::Dual<T,P>(std::tan(d.x), -d.dx / (c*c));
+    return geom::Dual<T,P>(std::tan(d.x), d.dx / (c*c));
 }
 
 
-- 
2.43.0


From c49afb145c7605c91f3f04a3edc942332448d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 051/163] fix: derivative of exp(Dual) had the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 438f56e..76005a8 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -360,7 +360,7 @@ inline geom::Dual<T,P> atan2(const geom::Dual<T,P> &y, const geom::Dual<T,P> &x)
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> exp(const geom::Dual<T,P> &d) {
     T e = std::exp(d.x);
-    return geom::Dual<T,P>(e, -d.dx * e);
+    return geom::Dual<T,P>(e, d.dx * e);
 }
 
 
-- 
2.43.0


From 391f53b620c2e49fed67aeb3dfa7ebbdff9a7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 052/163] fix: pow() of two Duals was ambiguous with a wrong
 derivative; pow() of a Dual and a scalar did not compile for every policy,
 and was NaN at zero

---
 geomc/function/functiondetail/DualFunctions.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 76005a8..2be057a 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -395,7 +395,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     T a_c = pow(base.x, xp.x);
     return geom::Dual<T,P>(
         a_c,
-        base.dx * xp.x * a_c / xp.x +
+        base.dx * xp.x * std::pow(base.x, xp.x - 1) +
         xp.dx * a_c * std::log(base.x)
     );
     
@@ -406,12 +406,12 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
  * @brief Returns `base` raised to exponent `xp`.
  * @related geom::Dual
  */
-template <typename T, typename U>
-inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
+template <typename T, std::convertible_to<T> U, geom::DiscontinuityPolicy P>
+inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
-        base.dx * xp * a_x / base.x
+        base.dx * xp * std::pow(base.x, T(xp) - 1)
     );
 }
 
@@ -420,10 +420,10 @@ inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
  * @brief Returns `base` raised to exponent `xp`.
  * @related geom::Dual
  */
-template <typename T, typename U, geom::DiscontinuityPolicy P>
+template <typename T, std::convertible_to<T> U, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
     T a_x = pow(base, xp.x);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         xp.dx * a_x * std::log(base)
     );
-- 
2.43.0


From 918112e22d2ac4925bb54fec7f78f562da026cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 053/163] fix: multiplying a Dual by a scalar in place did not
 compile

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 2be057a..dce047b 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -59,7 +59,7 @@ template <typename T, typename U, DiscontinuityPolicy Dp>
 requires requires(T t, U u) {
     {t * u} -> std::convertible_to<T>;
 }
-constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, T s) {
+constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, U s) {
     x.x  = x.x  * s;
     x.dx = x.dx * s;
     return x;
-- 
2.43.0


From 68f9139b13064b675b8b3b876e4b4822c4ec6480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 054/163] fix: max() of Duals with a policy other than the
 default lost its value

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index dce047b..4408b3a 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -545,7 +545,7 @@ inline geom::Dual<T,P> max(const geom::Dual<T,P> &d1, const geom::Dual<T,P> &d2)
     } else {
         dx = gt ? d1.dx : d2.dx;
     }
-    return geom::Dual<T>(x,dx);
+    return geom::Dual<T,P>(x,dx);
 }
 
 
-- 
2.43.0


From 7c2f47dbb2bce4a578ebb292d9391e02f99c8712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 055/163] fix: diff_of_products() of Duals did not compile

---
 geomc/function/functiondetail/UtilDetail.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index bc1437a..7d15f16 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -99,7 +99,7 @@ struct _ImplFMADot<Dual<T,P>, void> {
         T dp = geom::sum_of_products<T>(a.x, b.dx, a.dx, b.x);
         T dq = geom::sum_of_products<T>(c.x, d.dx, c.dx, d.x);
         return Dual<T,P>(
-            geom::diff_of_products<T>(a, b, c, d),
+            geom::diff_of_products<T>(a.x, b.x, c.x, d.x),
             dp - dq);
     }
     
-- 
2.43.0


From f0e646a084ee91ac2937a2d6d01850167b869a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 056/163] fix: products and multiply_add() of complex numbers
 did not compile

---
 geomc/function/functiondetail/UtilDetail.h | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index 7d15f16..02cf7fe 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -135,10 +135,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i -
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r - cd_r, ab_i - cd_i};
     }
     
@@ -150,10 +150,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i +
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r + cd_r, ab_i + cd_i};
     }
     
@@ -164,19 +164,19 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // todo: better...?
         // (a + bi) * (c + di) = (ac - bd) + (ad + bc)i
-        // auto ab_r = diff_of_products(a.real, b.real, a.imag, b.imag);
-        // auto ab_i =  sum_of_products(a.real, b.imag, a.imag, b.real);
-        // return {ab_r + c.real, ab_i + c.i};
+        // auto ab_r = diff_of_products(a.real(), b.real(), a.imag(), b.imag());
+        // auto ab_i =  sum_of_products(a.real(), b.imag(), a.imag(), b.real());
+        // return {ab_r + c.real(), ab_i + c.i};
         
         // or maybe try to kahanify this yourself...?
         
         // (a + bi) * (c + di) + (k_r + k_i i)
         // real: (ac - bd + k_r)
-        auto bd_k = geom::multiply_add<T>(-a.imag, b.imag, c.real);
-        auto real = geom::multiply_add<T>( a.real, b.real, bd_k);
+        auto bd_k = geom::multiply_add<T>(-a.imag(), b.imag(), c.real());
+        auto real = geom::multiply_add<T>( a.real(), b.real(), bd_k);
         // imag: (ad + bc + k_i)
-        auto bc_k = geom::multiply_add<T>(a.imag, b.real, c.imag);
-        auto imag = geom::multiply_add<T>(a.real, b.imag, bc_k);
+        auto bc_k = geom::multiply_add<T>(a.imag(), b.real(), c.imag());
+        auto imag = geom::multiply_add<T>(a.real(), b.imag(), bc_k);
         return {real, imag};
     }
 };
-- 
2.43.0


From 349d4682b47169fce46ae1a4c4d37bcbfc7c04a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 057/163] fix: derivative of (scalar - Dual) had the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 4408b3a..3ae561c 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -195,7 +195,7 @@ requires requires(T t, U u) {
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
     return Dual<T,Dp>{
         s - d.x,
-        d.dx
+        -d.dx
     };
 }
 
-- 
2.43.0


From 1285b03d1b577555f6a2472480cb84847ccc07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 058/163] fix: multiplying or dividing a Dual by itself in
 place used the overwritten value

---
 geomc/function/functiondetail/DualFunctions.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 3ae561c..f9c51d6 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -47,10 +47,11 @@ constexpr Dual<T,Dp> operator*(U s, const Dual<T,Dp>& d) {
 /// Multiply and assign to dual.
 template <typename T, DiscontinuityPolicy Dp>
 constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, const Dual<T,Dp>& y) {
-    T x_x = x.x;
-    x.x  = x.x * y.x;
     // product rule: x * dy + y * dx
-    x.dx = sum_of_products(x_x, y.dx, y.x, x.dx);
+    // (y may be the same object as x)
+    T dx = sum_of_products(x.x, y.dx, y.x, x.dx);
+    x.x  = x.x * y.x;
+    x.dx = dx;
     return x;
 }
 
@@ -110,9 +111,10 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp>& operator/=(Dual<T,Dp>& x, const Dual<U,Dp>& y) {
-    auto x_x = x.x;
+    // (y may be the same object as x)
+    T dx = diff_of_products(x.dx, y.x, x.x, y.dx) / (y.x * y.x);
     x.x  = x.x / y.x;
-    x.dx = diff_of_products(x.dx, y.x, x_x, y.dx) / (y.x * y.x);
+    x.dx = dx;
     return x;
 }
 
-- 
2.43.0


From 94cbeb0f5ff625d7beff47b5df1d416c7921e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 059/163] fix: ceil_div() of negative integers was off by one

---
 geomc/function/Utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index c160ad2..308a168 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -225,7 +225,9 @@ constexpr auto ceil_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::ceil(a / b);
     } else {
-        return (a + b - 1) / b;
+        // integer division rounds towards zero; correct any inexact positive quotient
+        auto q = a / b;
+        return (a % b != 0 and (a < 0) == (b < 0)) ? q + 1 : q;
     }
 }
 
-- 
2.43.0


From bb89daa54a76e4855214fc295f0ca1cf08d288ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 060/163] fix: floor_div() of negative integers was off by one

---
 geomc/function/Utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index 308a168..1b35bc6 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -252,7 +252,9 @@ constexpr auto floor_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::floor(a / b);
     } else {
-        return (a + b) / b - 1;
+        // integer division rounds towards zero; correct any inexact negative quotient
+        auto q = a / b;
+        return (a % b != 0 and (a < 0) != (b < 0)) ? q - 1 : q;
     }
 }
 
-- 
2.43.0


From 91e1628ef14e3356f8f8ef2d8e1a4624cde62c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 061/163] fix: a const Rect could not be extended by a point

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index cb2192a..9776ebf 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -300,7 +300,7 @@ public:
      *
      * @return A Rect fully containing `this` and the point `p`.
      */
-    Rect<T,N> operator|(const point_t& p) {
+    Rect<T,N> operator|(const point_t& p) const {
         // point union
         return Rect<T,N>(
             std::min(lo, p),
-- 
2.43.0


From 5530b2b5967ec08ba8c171636e89d60bc817ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 062/163] fix: slicing a Rect to a lower dimension did not
 compile

---
 geomc/shape/Rect.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 9776ebf..b1ac8e1 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -244,8 +244,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
@@ -265,8 +265,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
-- 
2.43.0


From 670a5c22c8fb553c56ee2a5d607120ea1eaccf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 063/163] fix: Rect::abs() did not compile

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index b1ac8e1..0f545d9 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -723,8 +723,8 @@ public:
      */
     Rect<T,N> abs() const {
         Rect<T,N> out;
-        T* lo_i     = ptype::iterator(lo);
-        T* hi_i     = ptype::iterator(hi);
+        const T* lo_i = ptype::iterator(lo);
+        const T* hi_i = ptype::iterator(hi);
         T* out_lo_i = ptype::iterator(out.lo);
         T* out_hi_i = ptype::iterator(out.hi);
         for (index_t i = 0; i < N; ++i) {
-- 
2.43.0


From 4346545043cc9780291d562881e96bdd42ba88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 064/163] fix: Rects sharing only boundary points were reported
 as not intersecting

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 0f545d9..ab4a71b 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -626,8 +626,8 @@ public:
     bool intersects(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
             // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     <= ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] <= ptype::iterator(lo)[axis]) {
+            if (ptype::iterator(hi)[axis]     < ptype::iterator(box.lo)[axis] or
+                ptype::iterator(box.hi)[axis] < ptype::iterator(lo)[axis]) {
                 return false;
             }
         }
-- 
2.43.0


From 4b05897e1ebe0af1d84db824d1f124adf00c5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 065/163] fix: center of an integer Rect with negative
 coordinates could be outside of it

---
 geomc/shape/Rect.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index ab4a71b..9a44cea 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -653,7 +653,12 @@ public:
      * @return The center point of this region.
      */
     point_t center() const {
-        return (hi + lo + endpoint_measure) / 2;
+        if constexpr (std::is_integral<T>::value) {
+            // division rounds toward zero; keep it away from negative coordinates
+            return lo + (hi - lo + endpoint_measure) / 2;
+        } else {
+            return (hi + lo) / 2;
+        }
     }
 
     /**
-- 
2.43.0


From 61b67e63cba9419ae98b363a5f3f2c7e20d513a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 066/163] fix: Rect::set_dimensions() gave integer Rects the
 wrong size or center

---
 geomc/shape/Rect.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 9a44cea..90b9cf8 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -692,11 +692,7 @@ public:
         // [0|1|2|3|4]
         // [0|1|2|3]
 
-        // xxx fixme for int types
-        dim = std::abs(dim);
-        point_t diff = (dim - dimensions()) / 2;
-        lo = lo - diff;
-        hi = hi + diff;
+        *this = from_center(center(), std::abs(dim));
     }
 
     /**
-- 
2.43.0


From f93272b910609560e97e0ba1229c2f408dbfadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 067/163] fix: Rect::contact_vector() truncated the
 displacement to an integer

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 90b9cf8..b65b40e 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -912,8 +912,8 @@ public:
         point_t v;
         bool overlap[N];
         bool all_overlap = true;
-        index_t shortest_axis;
-        index_t shortest_val = std::numeric_limits<T>::max();
+        index_t shortest_axis = 0;
+        T shortest_val = std::numeric_limits<T>::max();
         for (index_t i = 0; i < N; ++i) {
             auto r0 = this->axis(i);
             auto r1 = other.axis(i);
-- 
2.43.0


From eecd47169f8373f72806b15d1d927371a9be9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 068/163] fix: Rect::project() and sdf() went to a corner
 instead of the nearest surface point

---
 geomc/shape/Rect.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index b65b40e..00a51d2 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -849,15 +849,21 @@ public:
      * `clip()` leaves `p` unchanged if it lies in the Rect's interior.
      */
     point_t project(point_t p) const {
+        if (not contains(p)) return clip(p);
         T* p_i = ptype::iterator(p);
         const T* lo_i = ptype::iterator(lo);
         const T* hi_i = ptype::iterator(hi);
+        // p is inside; find the face which is closest to p
+        index_t axis = 0;
+        T face = lo_i[0];
+        T d    = p_i[0] - lo_i[0];
         for (index_t i = 0; i < N; ++i) {
-            // for each coordinate, find the extrumum which is closest to p
-            T d_lo = std::abs(p_i[i] - lo_i[i]);
-            T d_hi = std::abs(p_i[i] - hi_i[i]);
-            p_i[i] = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            T d_lo = p_i[i] - lo_i[i];
+            T d_hi = hi_i[i] - p_i[i];
+            if (d_lo < d) { axis = i; face = lo_i[i]; d = d_lo; }
+            if (d_hi < d) { axis = i; face = hi_i[i]; d = d_hi; }
         }
+        p_i[axis] = face;
         return p;
     }
 
@@ -866,7 +872,7 @@ public:
      */
     T sdf(point_t p) const {
         T sign = contains(p) ? -1 : 1;
-        return sign * project(p).dist(p);
+        return sign * ptype::mag(project(p) - p);
     }
 
     /**
-- 
2.43.0


From f166eaa7bfd299bd753ee3384090afd617fe3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 069/163] fix: excluding a Rect from another changed the
 operand and returned an empty Rect

---
 geomc/shape/Rect.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 00a51d2..f618aaa 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -415,7 +415,7 @@ public:
      * @param other Range to be excluded from the range of this `Rect`.
      * @return A new `Rect` whose range does not overlap `other`.
      */
-    Rect<T,N> operator-(const Rect<T,N>& other) {
+    Rect<T,N> operator-(const Rect<T,N>& other) const {
         // todo: instead of returning empty() when an interval is split in two,
         //   choose the larger
         // todo: make an exclude_signed() and handle empty-interval case,
@@ -423,19 +423,25 @@ public:
         //   •   a  - (-b) =   a + b
         //   • (-a) -   b  = -(a + b)
         //   • (-a) - (-b) = -(a - b)
-        Rect<T,N> out;
+        constexpr T e = std::is_integral<T>::value ? 1 : 0;
+        Rect<T,N> out = *this;
+        bool covered = true;
         for (index_t i = 0; i < N; ++i) {
             T b_lo = ptype::iterator(other.lo)[i];
             T a_lo = ptype::iterator(lo)[i];
             T a_hi = ptype::iterator(hi)[i];
             T b_hi = ptype::iterator(other.hi)[i];
-            if (b_lo > b_hi) continue;
+            if (b_lo > b_hi) {
+                covered = false;
+                continue;
+            }
             bool pick_lo = b_lo < a_lo;
             bool pick_hi = b_hi > a_hi;
-            ptype::iterator(lo)[i] = pick_lo ? a_hi : std::min(a_hi, b_lo);
-            ptype::iterator(hi)[i] = pick_hi ? a_lo : std::max(b_hi, a_lo);
+            covered = covered and pick_lo and pick_hi;
+            ptype::iterator(out.hi)[i] = pick_lo ? a_hi : std::min<T>(a_hi, b_lo - e);
+            ptype::iterator(out.lo)[i] = pick_hi ? a_lo : std::max<T>(a_lo, b_hi + e);
         }
-        return out;
+        return covered ? Rect<T,N>() : out;
     }
 
 
-- 
2.43.0


From c19adbc10fe5699c612b2ab3f1878c919432e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 070/163] fix: Sphere-sphere intersection ignored the radius of
 the other sphere

---
 geomc/shape/Sphere.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 01f5821..53fa9c2 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -70,7 +70,8 @@ public:
      * @return `true` if `s` overlaps with this sphere's volume, false otherwise.
      */
     bool intersects(Sphere s) const {
-        return ptype::mag2(center - s.center) <= r * r;
+        T r_sum = r + s.r;
+        return ptype::mag2(center - s.center) <= r_sum * r_sum;
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-- 
2.43.0


From 62ef939715981ba0d045a0beb42c09fd26050675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 071/163] fix: Sphere-Rect intersection tested the radius as if
 it were the center

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 53fa9c2..e97aa13 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -75,7 +75,7 @@ public:
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-        return rect.dist2(r) <= r * r;
+        return rect.dist2(center) <= r * r;
     }
     
     point_t convex_support(point_t d) const {
-- 
2.43.0


From 869920ceccb92fbe9ba10caeafabdb21ab348166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 072/163] fix: Capsule::project() and normal() did not compile

---
 geomc/shape/Capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 3765eb8..96b52d0 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -61,7 +61,7 @@ public:
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
         T frac = v.dot(axis) / axis.mag2();
-        return p0 + axis * clamp(frac, 0, 1);
+        return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
     /**
-- 
2.43.0


From cf8728040ee66bf918dc6a00eeac3d4626f61dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 073/163] fix: Cylinder did not contain the points of its far
 cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e1cb579..b43c45e 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -64,7 +64,7 @@ class Cylinder:
         T d  = a.dot(b);
         T x2 = d * d / a2;
         bool in_r = b2 - x2 <= radius * radius;
-        bool in_caps = x2 < a2 and d >= 0;
+        bool in_caps = x2 <= a2 and d >= 0;
         return in_r and in_caps;
     }
     
-- 
2.43.0


From 6e4ee5551effcb3968744deed85f3af554a5af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 074/163] fix: Cylinder::sdf() was zero everywhere inside the
 cylinder

---
 geomc/shape/Cylinder.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index b43c45e..76b229c 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -91,15 +91,16 @@ class Cylinder:
         T r = std::sqrt(b2 - x2) - radius;
         // signed fractional distance along the axis to the nearest cap
         s = std::max(-s, (s - 1));
-        // sdf is negative (inside shape) iff (s, r) in the negative quadrant
-        T sign = (s < 0 and r < 0) ? -1 : 1;
+        // inside the shape iff (s, r) in the negative quadrant;
+        // then the distance is to the nearer of the wall and the cap
+        if (s < 0 and r < 0) return std::max(r, s * std::sqrt(a2));
         // clamped coordinates, to project orthogonally to the wall/cap
         s = std::max(s, (T)0);
         r = std::max(r, (T)0);
         // squared axis-parallel distance to cap
         x2 = s * s * a2;
         // signed distance to the surface point
-        return sign * std::sqrt(r * r + x2);
+        return std::sqrt(r * r + x2);
     }
     
     Vec<T,N> project(Vec<T,N> p) const {
-- 
2.43.0


From d3f4bd4627db93bcbd0314b5b3453e3c0ef7abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 075/163] fix: Cylinder::normal() outside the rim of the far
 cap pointed away from the near cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 76b229c..7742105 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -157,7 +157,7 @@ class Cylinder:
             // p projects onto the cap
             if (r_dist > radius) {
                 // p projects onto the rim of the cap
-                n = p - (r * radius + p0);
+                n = p - (r * radius + (s < 0 ? p0 : p1));
             } else {
                 // p projects to the cap face; normal is axial
                 n = s < 0 ? -a : a;
-- 
2.43.0


From dc6656a0bc54a97f627c54c2779076df323055c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 076/163] fix: Dilated constructed from a shape alone had an
 uninitialized dilation

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8757cd9..bdbd5f3 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -66,7 +66,7 @@ public:
     Dilated():dilation((T)0) {}
     
     /// Wrap `s` with zero dilation.
-    Dilated(const Shape& s):shape(s) {}
+    Dilated(const Shape& s):shape(s), dilation((T)0) {}
     
     /// Dilate `s` by the amount `dilation`.
     Dilated(const Shape& s, T dilation):shape(s), dilation(dilation) {}
-- 
2.43.0


From 5a984b0e3fddc4838ee3bb017d122fc8ed9ce72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 077/163] fix: Dilated did not contain its surface

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index bdbd5f3..c791f59 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -77,7 +77,7 @@ public:
     
     /// Point containment test.
     bool contains(Vec<T,N> p) const {
-        return sdf(p) < 0;
+        return sdf(p) <= 0;
     }
     
     /// Signed distance function.
-- 
2.43.0


From 1e27c9b2ac01f65a8f452a46aa8b99127bb340a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 078/163] fix: dilate() did not compile for real-valued shapes

---
 geomc/shape/Dilated.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index c791f59..4beb744 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -126,7 +126,7 @@ public:
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s, std::max(dilation, 0));
+    return Dilated<Shape>(s, std::max<typename Shape::elem_t>(dilation, 0));
 }
 
 /**
@@ -135,7 +135,7 @@ inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s.shape, std::max(s.dilation + dilation, 0));
+    return Dilated<Shape>(s.shape, std::max<typename Shape::elem_t>(s.dilation + dilation, 0));
 }
 
 /**
@@ -160,7 +160,7 @@ inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
  */
 template <typename T, index_t N>
 inline Sphere<T,N> dilate(const Sphere<T,N>& s, T dilation) {
-    return Sphere<T,N>(s.center, std::max(s.r + dilation, 0));
+    return Sphere<T,N>(s.center, std::max<T>(s.r + dilation, 0));
 }
 
 /**
-- 
2.43.0


From 87e7868f498634d9e09db1ea71d7c1465631ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 079/163] fix: dilating a Plane moved it against its normal

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 4beb744..0d4d386 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -147,7 +147,7 @@ inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dil
  */
 template <typename T, index_t N>
 inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
-    p.d += dilation;
+    p.d -= dilation;
     return p;
 }
 
-- 
2.43.0


From f51093b1a8f663cd7ee7cb3b984aa3ed49f1b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 080/163] fix: a Dilated shape was reported as convex if its
 base was ray-intersectable

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 0d4d386..630cca2 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -192,7 +192,7 @@ template <typename Shape>
 struct implements_shape_concept<Dilated<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 /// @}  // addtogroup traits
-- 
2.43.0


From a5cf2b170f249d453d20406d757702dcc4d2dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 081/163] fix: transforming a Plane misplaced it: the sign of
 its distance was inverted

---
 geomc/shape/Plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index a134e65..c4a3fea 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -150,10 +150,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d; // a point on the plane
+        Vec<T,N> p0 = -d * normal; // a point on the plane
         Vec<T,N> p1 = xf.apply(p0); // the new position of that point
         normal = xf.apply_normal(normal).unit(); // construct a plane with transformed normal
-        d = p1.dot(normal); // and transformed position
+        d = -p1.dot(normal); // and transformed position
     }
     
     /**
@@ -161,10 +161,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply_inverse(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d;
+        Vec<T,N> p0 = -d * normal;
         Vec<T,N> p1 = xf.apply_inverse(p0);
         normal = xf.apply_inverse_normal(normal).unit();
-        d = p1.dot(normal);
+        d = -p1.dot(normal);
     }
     
     /**
-- 
2.43.0


From de7fae91aedf3ef029f0493b846a98d2fd767956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 082/163] fix: Plane-Sphere intersection test was inverted

---
 geomc/shape/Plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index c4a3fea..6fb2806 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -182,7 +182,7 @@ public:
      * @return `true` if and only if this plane passes through `s`.
      */
     inline bool intersects(const Sphere<T,N> &s) const {
-        return distance(s.center) >= s.r;
+        return std::abs(distance(s.center)) <= s.r;
     }
     
     /**
-- 
2.43.0


From 926c23f70d2ade4a6b1b0790a1443a8ffe85adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 083/163] fix: Plane never intersected a convex hull

---
 geomc/shape/Plane.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 6fb2806..a36e147 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -200,9 +200,10 @@ public:
                 // if a point lies on the plane, or another point lies on the
                 // other side of the plane, then this shape crosses the plane.
                 if (dist == 0 || ((dist < 0) != negative)){
-                    return false;
+                    return true;
                 }
             } else {
+                if (dist == 0) return true;
                 negative = dist < 0;
             }
         }
-- 
2.43.0


From 78063319528c125731c09122a1b932dc18229ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 084/163] fix: Cylinder::convex_support() along the axis was
 NaN

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 7742105..b5b54e3 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -195,7 +195,7 @@ class Cylinder:
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
         Vec<T,N> a = p1 - p0;
-        Vec<T,N> perp = (d - d.project_on(a)).unit() * radius;
+        Vec<T,N> perp = (d - d.project_on(a)).with_length(radius);
         return (d.dot(a) > 0 ? p1 : p0) + perp;
     }
     
-- 
2.43.0


From 18bf0e41b89371e7cc7377d45ddd120605b49e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 085/163] fix: Cylinder::project() and normal() of a point on
 the axis were NaN

---
 geomc/shape/Cylinder.h | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index b5b54e3..5a41907 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -55,6 +55,21 @@ class Cylinder:
         p1(p1),
         radius(radius) {}
     
+protected:
+    
+    // a unit vector perpendicular to `a`; the radial direction of points on the axis.
+    static Vec<T,N> perpendicular(Vec<T,N> a) {
+        index_t k = 0;
+        for (index_t i = 1; i < N; ++i) {
+            if (std::abs(a[i]) < std::abs(a[k])) k = i;
+        }
+        Vec<T,N> v;
+        v[k] = 1;
+        return (v - v.project_on(a)).unit();
+    }
+    
+public:
+    
     /// Shape-point intersection test.
     bool contains(Vec<T,N> p) const {
         Vec<T,N> a = p1 - p0;
@@ -108,17 +123,16 @@ class Cylinder:
         Vec<T,N> a = p1 - p0;
         // vec from "base" of cylinder to p
         Vec<T,N> b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
-        T a2 = a.mag2(); // squared length of axis (side 1)
+        T a2 = a.mag2(); // squared length of axis
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
+        // radial vector
+        Vec<T,N> r = b - s * a;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
+        T r_dist = r.mag();
         // unit length radial vector
-        Vec<T,N> r = (p - p0 - s * a) / r_dist;
+        r = r_dist > 0 ? r / r_dist : perpendicular(a);
         // adjust `r` and `s` to lie on the cylinder boundary
         if (s < 0 or s > 1) {
             // p projects onto the cap
@@ -140,17 +154,16 @@ class Cylinder:
         auto a = p1 - p0;
         // vec from "base" of cylinder to p
         auto b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
-        T a2 = a.mag2(); // squared length of axis (side 1)
+        T a2 = a.mag2(); // squared length of axis
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
+        // radial vector
+        Vec<T,N> r = b - s * a;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
+        T r_dist = r.mag();
         // unit length radial vector
-        auto r = (p - p0 - s * a) / r_dist;
+        r = r_dist > 0 ? r / r_dist : perpendicular(a);
         // choose the outward direction
         Vec<T,N> n;
         if (s < 0 or s > 1) {
-- 
2.43.0


From 4d86d593c0e3299e89931070f8a84ebc4c3e56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 086/163] fix: an Oriented shape was reported as convex if its
 base was ray-intersectable

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 7dda825..05fc655 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -346,7 +346,7 @@ template <typename Shape>
 struct implements_shape_concept<Oriented<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 /// @} // addtogroup traits
-- 
2.43.0


From 780a04eb95af11684f281279c570d70f586e7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 087/163] fix: a const oriented box could not be tested against
 another

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 05fc655..f9c2de1 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -204,7 +204,7 @@ public:
      * @param b1 OritentedRect to test against.
      * @return `true` if and only if `this` overlaps with `b1`; `false` otherwise.
      */
-    bool intersects(const Oriented< Rect<T,N> >& b1) {
+    bool intersects(const Oriented< Rect<T,N> >& b1) const {
         // we will make ourselves axis-aligned; this is the same as applying
         // the inverse of our xf. We apply the inverse of xf to b1 too,
         // to preserve the relationhip between the us. From this, we
-- 
2.43.0


From 4464a8d98663178ee9c47b346128fc03dfbf8924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 088/163] fix: volume of a reflected oriented box was negative

---
 geomc/shape/Oriented.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index f9c2de1..1971d58 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -229,7 +229,8 @@ public:
                 mx(j,i) = s * xf.mat(j,i);
             }
         }
-        return det_destructive(mx.data_begin(), N);
+        // a reflection does not make the volume negative
+        return std::abs(det_destructive(mx.data_begin(), N));
     }
     
 }; // class Oriented<Rect>
-- 
2.43.0


From 483b45f6bab523959c2e1d81bd4d2982cec22470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 089/163] fix: gradient of one-dimensional PerlinNoise was
 computed from an uninitialized value

---
 geomc/function/PerlinNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 684470c..ae217b7 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -164,7 +164,7 @@ public:
                 f[pair] = mix(t, a, b);
                 
                 // apply the multivariate chain rule:
-                point_t w;
+                point_t w{};
                 // dt/dx is only nonzero along the current axis:
                 T* w_i  = pointtype::iterator(w) + axis;
                 //        dmix_dt(t, ...) * dt/dx
-- 
2.43.0


From 99e9932439d8072b2a95d18b9776de34ef5fb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 090/163] fix: PerlinNoise hashed lattice points with
 overflowing signed arithmetic

---
 geomc/function/PerlinNoise.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index ae217b7..6beef38 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -183,14 +183,15 @@ public:
 protected:
     
     inline const point_t& get_grid_gradient(const grid_t& pt) const {
-        index_t idx = 0;
+        // unsigned, so that the multiplication wraps
+        uint64_t idx = 0;
         for (index_t i = 0; i < N; ++i) {
             // do an iterated linear congruential scramble, using Knuth's constants:
             // xxx: todo: make portable
             index_t k = gridtype::iterator(pt)[i];
-            idx = 6364136223846793005LL * (k + idx) + 1442695040888963407LL;
+            idx = 6364136223846793005ULL * (k + idx) + 1442695040888963407ULL;
         }
-        idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
+        idx = idx % PERLIN_NUM_GRADIENTS;
         
         // xxx: todo: confirm the above is okay and delete this:
         // idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
-- 
2.43.0


From 5695390a5d29fe8b84fb7f9ab689d9b682b69758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 091/163] fix: sampling a Raster with interpolation given at
 runtime did not compile, nor a one-dimensional one with interpolation

---
 geomc/function/Raster.h                      | 14 +++++++-------
 geomc/function/functiondetail/RasterDetail.h |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index d6fa9cd..4444a4c 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -276,16 +276,16 @@ public:
     }
     
     /**
-     * Sample this Raster at `pt`.
+     * Sample this Raster at `p`.
      * 
-     * @param pt Point to sample.
+     * @param p Point to sample.
      * @param edge Edge sampling behavior.
      * @param interp Sample interpolation strategy.
      * @return Sampled data.
      */
-    sample_t sample(const coord_t &pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
+    sample_t sample(const coord_t &p, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
         grid_t gridPt;
-        pt = toGridSpace(pt);
+        coord_t pt = toGridSpace(p);
         
         switch (interp) {
         case INTERP_NEAREST:
@@ -300,7 +300,7 @@ public:
             // copy surrounding 2^M sample pts into a contiguous buffer
             copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
             
-            return interp_linear(s.begin(), buf_l, M);
+            return interp_linear(PointType<I,M>::iterator(s), buf_l, M);
         }
         case INTERP_CUBIC:
         {
@@ -311,7 +311,7 @@ public:
             // copy surrounding 4^M sample pts into a contiguous buffer
             copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
             
-            return interp_cubic(s.begin(), buf_c, M);
+            return interp_cubic(PointType<I,M>::iterator(s), buf_c, M);
         }
         default:
             return m_abyss;
@@ -371,7 +371,7 @@ public:
             return m_abyss;
         }
         
-        return sample_t(m_data.get() + offs);
+        return PointType<O,N>::from_ptr(m_data.get() + offs);
     }
     
     /**
diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 041874b..56ee1fb 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -104,7 +104,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt, gridPt + grid_t(1)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt, gridPt + grid_t(1)));
         
         return interp_linear(PointType<I,N>::iterator(s), buf, N);
     }
@@ -123,7 +123,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
         
         return interp_cubic(PointType<I,N>::iterator(s), buf, N);
     }
-- 
2.43.0


From e05833cb1f01b6846a9be5bf5c439384d2399d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 092/163] fix: sampling a Raster with interpolation given at
 runtime overflowed its buffer

---
 geomc/function/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 4444a4c..ee36c7b 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -298,7 +298,7 @@ public:
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
-            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
+            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(1)), edge);
             
             return interp_linear(PointType<I,M>::iterator(s), buf_l, M);
         }
@@ -309,7 +309,7 @@ public:
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
-            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
+            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(2)), edge);
             
             return interp_cubic(PointType<I,M>::iterator(s), buf_c, M);
         }
-- 
2.43.0


From 79f8ca23c97aec18632c05a9e55e05c4d6a29291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 093/163] fix: Raster samples at negative coordinates were
 rounded toward zero

---
 geomc/function/Raster.h                      | 6 +++---
 geomc/function/functiondetail/RasterDetail.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index ee36c7b..8975882 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -289,12 +289,12 @@ public:
         
         switch (interp) {
         case INTERP_NEAREST:
-            gridPt = grid_t(pt + coord_t(0.5));
+            gridPt = (grid_t)std::floor(pt + coord_t(0.5));
             return sample_discrete(gridPt, edge);
         case INTERP_LINEAR:
         {
             sample_t buf_l[1<<M];
-            gridPt = (grid_t)pt;
+            gridPt = (grid_t)std::floor(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
@@ -305,7 +305,7 @@ public:
         case INTERP_CUBIC:
         {
             sample_t buf_c[1<<(2*M)];
-            gridPt = (grid_t)pt;
+            gridPt = (grid_t)std::floor(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 56ee1fb..99fd387 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -86,7 +86,7 @@ public:
     typedef typename Raster<I,O,N,Channels>::sample_t sample_t;
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
-        grid_t gridPt = grid_t(pt + coord_t(0.5));
+        grid_t gridPt = (grid_t)std::floor(pt + coord_t(0.5));
         return r->template sample_discrete<Edge>(gridPt);
     }
 };
@@ -100,7 +100,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<N];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t)std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
@@ -119,7 +119,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<(2*N)];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t)std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-- 
2.43.0


From 7a2c0e7f8e84a11b90cd88457bbefc8dc925aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 094/163] fix: mirroring the edges of a Raster with one sample
 along an axis divided by zero

---
 geomc/function/functiondetail/RasterDetail.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 99fd387..9a008a7 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -42,6 +42,7 @@ template <>
 class _ImplEdge<EDGE_MIRROR> {
 public:
     static inline index_t coord(index_t c, index_t max) {
+        if (max <= 1) return 0;
         c = std::abs(c);
         max -= 1;
         int cyc = c/max;
-- 
2.43.0


From 6d2dfb1ecf5e012f14fd22a4eb81b79a286768b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 095/163] fix: Raster sample coordinates were stretched by one
 sample

---
 geomc/function/Raster.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 8975882..ec7629d 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -431,7 +431,8 @@ public:
 protected:
     
     inline coord_t toGridSpace(const coord_t &pt) const {
-        return (coord_t)m_extent * m_domain.unmap(pt);
+        // the ends of the domain are the first and last sample
+        return ((coord_t)m_extent - (coord_t)1) * m_domain.unmap(pt);
     }
     
     template <EdgeBehavior Edge>
-- 
2.43.0


From 563e5c043d3f261e942cf3647ff8aecd7d0a75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 096/163] fix: default abyss value of a scalar Raster was
 uninitialized

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index ec7629d..90b0d14 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -128,7 +128,7 @@ protected:
     grid_t    m_extent;
     index_t   m_size;
     boost::shared_array<O> m_data;
-    sample_t  m_abyss;
+    sample_t  m_abyss{};
     Rect<I,M> m_domain;
     
 public:
-- 
2.43.0


From 2a35ac57be4389141467032538eae98b60f58375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 097/163] fix: sum of two SphericalHarmonics returned nothing
 and used an uninitialized index

---
 geomc/function/SphericalHarmonics.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 8fc86c8..e9e364f 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -545,11 +545,10 @@ class SphericalHarmonics {
      * Construct a SphericalHarmonics function which is the sum of this and another.
      */
     SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) {
-        index_t n = std::max(sh.size(), size());
-        SphericalHarmonics<T,Bands> out(n);
-        for (index_t i; i < n; i++) {
-            out.coeffs[i] = coeffs[i] + sh.coeffs[i];
-        }
+        SphericalHarmonics<T,Bands> out(std::max(sh.bands(), bands()));
+        out += *this;
+        out += sh;
+        return out;
     }
     
     /**
-- 
2.43.0


From 4214a186d10dd9bcd479c1d720849282493136e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 098/163] fix: ZonalHarmonics made from SphericalHarmonics had
 wrongly scaled (or NaN) coefficients

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index e9e364f..3c6e34b 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -614,7 +614,7 @@ class ZonalHarmonics {
         const T pi = boost::math::constants::pi<T>();
         Dimension<Bands>::set(n_bands,sh.bands());
         for (index_t l = 0; l < bands(); l++) {
-            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l - 1) / (4 * pi));
+            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l + 1) / (4 * pi));
         }
     }
     
-- 
2.43.0


From 8925e307be385a84f16eb8372403b1f45fdfa5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 099/163] fix: dot product of ZonalHarmonics with different
 band counts read past the end

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 3c6e34b..440fb9f 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -660,7 +660,7 @@ class ZonalHarmonics {
     T dot(const ZonalHarmonics<T,B> &zh) const {
         T sum = 0;
         const index_t n = std::min(bands(), zh.bands());
-        for (index_t i = 0; i < bands(); i++) {
+        for (index_t i = 0; i < n; i++) {
             sum += coeff(i) * zh.coeff(i);
         }
         return sum;
-- 
2.43.0


From d263280192f75ea88d0f8d2a5031c5e97e358c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 100/163] fix: ZonalHarmonics::project() evaluated wrong
 polynomials and stored them in the wrong bands

---
 geomc/function/SphericalHarmonics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 440fb9f..69d668b 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -761,11 +761,11 @@ class ZonalHarmonics {
         if (bands() > 1) coeffs[1] = x * val;
         T p_0 = 1;
         T p_1 = x;
-        for (index_t i = 1; i < bands(); i++) {
-            T p_i = (2 * i + 1) * x * p_1 - i * p_0 / ((T)i + 1);
+        for (index_t i = 1; i < bands() - 1; i++) {
+            T p_i = ((2 * i + 1) * x * p_1 - i * p_0) / ((T)i + 1);
             p_0 = p_1;
             p_1 = p_i;
-            coeffs[i] = val * p_i;
+            coeffs[i + 1] = val * p_i;
         }
     }
     
-- 
2.43.0


From 91fe03211e37917891077d7e055730dcb520025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 101/163] fix: SphericalHarmonics made from ZonalHarmonics with
 fewer bands read past their end

---
 geomc/function/SphericalHarmonics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 69d668b..2bf5e9f 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -190,7 +190,7 @@ class SphericalHarmonics {
         const index_t b = Bands > 0 ? std::min(zh.bands(), Bands) : zh.bands();
         Dimension<Bands>::set(n_bands, b);
         clear();
-        for (index_t l = 0; l < bands(); l++) {
+        for (index_t l = 0; l < std::min(b, zh.bands()); l++) {
             T k = std::sqrt((4*pi) / (2 * l + 1));
             T p = zh.coeff(l);
             T v = p * k;
@@ -214,7 +214,7 @@ class SphericalHarmonics {
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
+                coeff(l,m) *= (l < zh.bands() ? zh.coeff(l) : (T)0) * std::sqrt((4*pi) / (2 * l + 1));
             }
         }
     }
-- 
2.43.0


From 13de75e47da83d4379468ce3df9d30e5bd898be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 102/163] fix: SphericalHarmonics::normalize() did not make the
 integral 1

---
 geomc/function/SphericalHarmonics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 2bf5e9f..8c85fca 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -285,9 +285,10 @@ class SphericalHarmonics {
      * If the integral is currently 0, no change will be made.
      */
     void normalize() {
-        T nh = coeffs[0];
+        // integral over the sphere
+        T nh = coeffs[0] * std::sqrt(4 * boost::math::constants::pi<T>());
         if (nh == 0) return;
-        for (index_t i = 1; i < size(); i++) {
+        for (index_t i = 0; i < size(); i++) {
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From 53229a953fd4f48c6f3c8a8e734ff1bd10e7567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 103/163] fix: generate_lambertian(1) used two bands

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 8c85fca..2805079 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -685,7 +685,7 @@ class ZonalHarmonics {
         clear();
         T fac = 1;
         coeffs[0] = 0.25;
-        if (bands() > 1) {
+        if (ct > 1) {
             coeffs[1] = 0.5;
             for (index_t n = 2; n < ct; n += 2) { // odd bands are 0.
                 fac *= n * (n - 1);
-- 
2.43.0


From 02923595175d69ff38e6e1ffa54cdcb741c85ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 104/163] fix: copy of a Deque with spare heap capacity claimed
 capacity it did not have

---
 geomc/Deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 928156e..6411574 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -90,7 +90,7 @@ public:
     /// Construct a new circular buffer containing copies of all the items in `other`.
     Deque(const Deque<T,N>& other):
             _data((other._size > N) ? (new storage_t[other._capacity]) : _buf),
-            _capacity(std::max(other._capacity, N)),
+            _capacity((other._size > N) ? other._capacity : N),
             _head(0),
             _size(other._size)
     {
-- 
2.43.0


From a053d1e11784d39e3ef44fd617f0c564100bae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 105/163] fix: move-assigning a Deque to itself destroyed its
 items

---
 geomc/Deque.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 6411574..0f33b79 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -165,6 +165,7 @@ public:
     
     /// Move the contents of `other` to this buffer
     Deque& operator=(Deque&& other) {
+        if (&other == this) return *this; // no self-assign
         // destroy all our stuff
         for (index_t i = 0; i < _size; ++i) {
             item(i)->~T();
-- 
2.43.0


From 7ae92fb03442e6620bf94b7751245f50c3ac43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 106/163] fix: const Deques could not be compared

---
 geomc/Deque.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 0f33b79..43ff207 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -232,7 +232,7 @@ public:
      *
      * Two Deques are equal iff they contain equal elements in equal order.
      */
-    bool operator==(const Deque<T, N>& other) {
+    bool operator==(const Deque<T, N>& other) const {
         if (this == &other)       return true;  // literally the same object
         if (_size != other._size) return false; // different number of items; unequal
         for (index_t i = 0; i < _size; ++i) {
@@ -242,7 +242,7 @@ public:
     }
     
     /// Inequality operator.
-    bool operator!=(const Deque<T, N>& other) {
+    bool operator!=(const Deque<T, N>& other) const {
         return not ((*this) == other);
     }
     
-- 
2.43.0


From 6b3e1e159f5e4223b330acd1cdb8a974d2284368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 107/163] fix: adding an item of a full Deque to the Deque
 itself read it after it was destroyed

---
 geomc/Deque.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 43ff207..3aeb689 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -262,7 +262,12 @@ public:
     /// Add an element to the end of the buffer.
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_back(U&& t) {
-        reserve(_size + 1);
+        if (_size == _capacity) {
+            // `t` may be one of our own items, which are about to be moved
+            T tmp(std::forward<U>(t));
+            reserve(_size + 1);
+            return push_back(std::move(tmp));
+        }
         T* p = item(_size);
         // placement new, using move semantics if applicable:
         new (p) T(std::forward<U>(t));
@@ -278,7 +283,12 @@ public:
      */
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_front(U&& t) {
-        reserve(_size + 1);
+        if (_size == _capacity) {
+            // `t` may be one of our own items, which are about to be moved
+            T tmp(std::forward<U>(t));
+            reserve(_size + 1);
+            return push_front(std::move(tmp));
+        }
         const index_t n = capacity();
         _head = (_head + n - 1) % n;
         T* place = get() + _head;
-- 
2.43.0


From d057a407a0c9af67e9eb501ee31a09a47398f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 108/163] fix: growing a SmallStorage moved items that did not
 exist

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 0adb2ce..e79e776 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -51,7 +51,7 @@ private:
             size_t new_capacity = std::max(n, _capacity * 2);
             storage_t* new_data = new storage_t[new_capacity];
             T* src = begin();
-            for (size_t i = 0; i < n; ++i) {
+            for (size_t i = 0; i < _size; ++i) {
                 new (new_data + i) T{std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
-- 
2.43.0


From 3ca342593b09b213e0ed0648dee44657fd78513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 109/163] fix: moved-from SmallStorage destroyed its items a
 second time

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index e79e776..f31ae7a 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -154,8 +154,8 @@ public:
             // empty the other container
             other._capacity = N;
             other._data     = other._buffer;
-            other._size     = 0;
         }
+        other._size = 0;
     }
     
     /// Destroy this array and its contents.
-- 
2.43.0


From b0a43a5109fee25ca613cade388f0618ff24651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 110/163] fix: move-assigning a SmallStorage to itself
 destroyed its items

---
 geomc/SmallStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index f31ae7a..55411a2 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -168,6 +168,7 @@ public:
     
     /// Move the contents of `other` into this array.
     SmallStorage<T,N>& operator=(SmallStorage<T,N>&& other) {
+        if (&other == this) return *this; // no self-assign
         _destroy(_data, _size);
         // if we have allocated storage, free it. we're going to clobber
         if (_capacity > N) delete [] _data;
-- 
2.43.0


From aeae80a959491df31dfcbf32f00195616ba9bc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 111/163] fix: adding an item of a full SmallStorage to the
 storage itself read it after it was destroyed

---
 geomc/SmallStorage.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 55411a2..9cfe5db 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -234,7 +234,10 @@ public:
     
     /// Add a copy of the given item to the end of the array, increasing its size by 1.
     T& push_back(const T& item) {
-        _ensure_capacity(_size + 1);
+        if (_size == _capacity) {
+            // `item` may be one of our own items, which are about to be moved
+            return emplace_back(item);
+        }
         T* place = reinterpret_cast<T*>(_data + _size);
         new (place) T {item};
         _size += 1;
@@ -244,9 +247,17 @@ public:
     /// Construct a new item at the end of the array from the given constructor arguments.
     template <typename... Args>
     T& emplace_back(Args&&... args) {
-        _ensure_capacity(_size + 1);
-        T* place = reinterpret_cast<T*>(_data + _size);
-        new (place) T {std::forward<Args>(args)...};
+        T* place;
+        if (_size == _capacity) {
+            // `args` may refer to our own items, which are about to be moved
+            T tmp {std::forward<Args>(args)...};
+            _ensure_capacity(_size + 1);
+            place = reinterpret_cast<T*>(_data + _size);
+            new (place) T {std::move(tmp)};
+        } else {
+            place = reinterpret_cast<T*>(_data + _size);
+            new (place) T {std::forward<Args>(args)...};
+        }
         _size += 1;
         return *place;
     }
-- 
2.43.0


From baf9cd15f5b0301954c73a6c04397dacbfbcf480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 112/163] fix: XoshiroRand could not be seeded with a non-const
 entropy array

---
 geomc/random/Xorshiro.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index aaaa804..ad7e19a 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -2,6 +2,7 @@
 
 #include <atomic>
 #include <chrono>
+#include <concepts>
 #include <geomc/random/Random.h>
 
 namespace geom {
@@ -41,7 +42,7 @@ public:
         s[3] = splitmix64(&x);
     }
     
-    template <typename F>
+    template <std::invocable F>
     void seed(F&& entropy) {
         // wangjangle the entropy a bit; this ensures (e.g.) that there are no zeros
         uint64_t x = entropy();
-- 
2.43.0


From 0c3afcb228b706c09754278bc86bd6ec61056fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 113/163] fix: reseeding a Random kept bits drawn from the old
 state

---
 geomc/random/LCRand.cpp | 1 +
 geomc/random/MTRand.cpp | 1 +
 geomc/random/Random.h   | 6 ++++++
 geomc/random/Xorshiro.h | 3 +++
 4 files changed, 11 insertions(+)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index b48b96c..2d35504 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -24,6 +24,7 @@ uint32_t LCRand::rand32(){
 
 void LCRand::rseed(uint64_t seed){
     state = seed;
+    clear_bits();
 }
 
 } /* namespace geom */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a889d89..dafd735 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -71,4 +71,5 @@ void MTRand::rseed(uint64_t seed){
         mt_buffer[i] = seeder.rand32();
     }
     mt_index = 0;
+    clear_bits();
 }
diff --git a/geomc/random/Random.h b/geomc/random/Random.h
index f88113e..c4bd50a 100644
--- a/geomc/random/Random.h
+++ b/geomc/random/Random.h
@@ -261,6 +261,12 @@ namespace geom {
         
     protected:
     
+    /// Drop any random bits left over from before the generator was (re)seeded.
+    void clear_bits() {
+        _bitpool  = 0;
+        _bitsleft = 0;
+    }
+    
     uint32_t     _bitpool;
     unsigned int _bitsleft;
     };
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index ad7e19a..87c4a8d 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -40,6 +40,7 @@ public:
         s[1] = splitmix64(&x);
         s[2] = splitmix64(&x);
         s[3] = splitmix64(&x);
+        clear_bits();
     }
     
     template <std::invocable F>
@@ -53,6 +54,7 @@ public:
         s[2] = splitmix64(&x);
         x = entropy();
         s[3] = splitmix64(&x);
+        clear_bits();
     }
     
     void seed(const uint64_t entropy[4]) {
@@ -60,6 +62,7 @@ public:
         s[1] = entropy[1];
         s[2] = entropy[2];
         s[3] = entropy[3];
+        clear_bits();
     }
     
     uint64_t rand64() {
-- 
2.43.0


From 8046ed7d29dd2c1aeb1be9fead4d5e7ee55460a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 114/163] fix: random integers below a large bound were biased,
 and an empty range divided by zero

---
 geomc/random/Random.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b5a053e..b574f51 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -189,13 +189,15 @@ template <> double Random::rand<double>() {
 template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
     unsigned int bits, val, lo;
 
+    if (hi == 0) return 0; // the only value on offer
+
     do {
         bits = rand<unsigned int>();
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & INT_SIGNBIT) & ~(lo+(hi-1)) );
+        //i.e. the end of the chunk is below its beginning
+    } while ( (unsigned int)(lo + (hi - 1)) < lo );
     return val;
 }
 
@@ -212,13 +214,15 @@ template <> int Random::rand<int>(int hi) {
 template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
     unsigned long bits, val, lo;
 
+    if (hi == 0) return 0; // the only value on offer
+
     do {
         bits = rand<unsigned long>();
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_SIGNBIT) & ~(lo+(hi-1)) );
+        //i.e. the end of the chunk is below its beginning
+    } while ( (unsigned long)(lo + (hi - 1)) < lo );
     return val;
 }
 
@@ -235,13 +239,15 @@ template <> long Random::rand<long>(long hi) {
 template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
     unsigned long long bits, val, lo;
 
+    if (hi == 0) return 0; // the only value on offer
+
     do {
         bits = rand<unsigned long long>();
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_LONG_SIGNBIT) & ~(lo+(hi-1)) );
+        //i.e. the end of the chunk is below its beginning
+    } while ( (unsigned long long)(lo + (hi - 1)) < lo );
     return val;
 }
 
-- 
2.43.0


From 6da10ca3fb0aab17bb6573b1e2561e9c06ac888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 115/163] fix: random integers in a range wider than the
 greatest int overflowed

---
 geomc/random/Random.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b574f51..708a1ba 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -204,7 +204,7 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
 
 template <> int Random::rand<int>(int hi) {
     if (hi < 0) {
-        return -rand<unsigned int>(-hi);
+        return -rand<unsigned int>(-(unsigned int)hi);
     } else {
         return rand<unsigned int>(hi);
     }
@@ -229,7 +229,7 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
 
 template <> long Random::rand<long>(long hi) {
     if (hi < 0) {
-        return -rand<unsigned long>(-hi);
+        return -rand<unsigned long>(-(unsigned long)hi);
     } else {
         return rand<unsigned long>(hi);
     }
@@ -254,7 +254,7 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
 
 template <> long long Random::rand<long long>(long long hi) {
     if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
+        return -rand<unsigned long long>(-(unsigned long long)hi);
     } else {
         return rand<unsigned long long>(hi);
     }
@@ -274,19 +274,18 @@ template <> double Random::rand<double>(double hi) {
  * Full Range Specializations     *
  **********************************/
 
-// todo: some of these will fail for ranges crossing zero where lo - hi is
-// greater than INT_MAX.
-
 
 template <> int Random::rand<int>(int lo, int hi) {
-    int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
+    // unsigned, because the extent of the range may exceed the greatest `int`
+    unsigned int lo1 = min(hi,lo);
+    return rand<unsigned int>(max(hi,lo) - lo1) + lo1;
 }
 
 
 template <> long long Random::rand<long long>(long long lo, long long hi) {
-    long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
+    // unsigned, because the extent of the range may exceed the greatest `long long`
+    unsigned long long lo1 = min(hi,lo);
+    return rand<unsigned long long>(max(hi,lo) - lo1) + lo1;
 }
 
 
-- 
2.43.0


From d6d9448a48fffa4c22ab529f2fb1f1ecae869258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 116/163] fix: Sampler::solidball(radius) was denser near the
 center

---
 geomc/random/RandomTools.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index d7c2d60..8838cc4 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -177,8 +177,7 @@ public:
      */
     template <index_t N> 
     inline Vec<T,N> solidball(T radius) {
-        T r = std::pow(this->rng->template rand<T>(), ((T)1)/N);
-        return solidball<N>() * r * radius;
+        return solidball<N>() * radius;
     }
     
     /**
-- 
2.43.0


From de9f8088f13100f61c20417012db4f86eb33ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 117/163] fix: Sampler's shell, solidcap and solidarc left out
 the samples near the minimum radius

---
 geomc/random/RandomTools.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 8838cc4..c1a2951 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -191,7 +191,8 @@ public:
      */
     template <index_t N> 
     Vec<T,N> shell(T minradius, T maxradius) {
-        T radius = std::pow(this->rng->template rand<T>(minradius/maxradius, 1), ((T)1)/N);
+        T min_vol = std::pow(minradius/maxradius, (T)N);
+        T radius  = std::pow(this->rng->template rand<T>(min_vol, 1), ((T)1)/N);
         return this->unit<N>() * radius * maxradius;
     }
     
@@ -285,7 +286,8 @@ public:
      * distributed throughout the volume.
      */
     inline Vec<T,3> solidcap(Vec<T,3> dir, T half_angle_radians, T minR, T maxR) {
-        T r = this->rng->template rand<T>(minR / maxR, 1);
+        T f = minR / maxR;
+        T r = this->rng->template rand<T>(f * f * f, 1);
         r = maxR * std::cbrt(r);
         return r * this->cap(dir, half_angle_radians);
     }
@@ -375,7 +377,8 @@ public:
     Vec<T,2> solidarc(T min_radians, T max_radians,
                       T min_radius,  T max_radius) {
         T angle = this->rng->template rand<T>(min_radians, max_radians);
-        T len   = max_radius * std::sqrt(this->rng->template rand<T>(min_radius / max_radius, 1));
+        T f     = min_radius / max_radius;
+        T len   = max_radius * std::sqrt(this->rng->template rand<T>(f * f, 1));
         return Vec<T,2>(len,angle).from_polar();
     }
     
-- 
2.43.0


From a3b8959830d00e74b9a05809baf3901aaf571130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 118/163] fix: Sampler::cap about the -z direction sampled the
 cap about +z

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index c1a2951..56d03d9 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -272,7 +272,7 @@ public:
     inline Vec<T,3> cap(Vec<T,3> dir, T half_angle_radians) {
         Vec<T,3> v = this->cap(half_angle_radians);
         Vec<T,3> rotAxis = Vec<T,3>(0,0,1).cross(dir);
-        if (rotAxis.is_zero()) return v;
+        if (rotAxis.is_zero()) return dir.z < 0 ? -v : v;
         return v.rotate(rotAxis, std::acos(dir.z/dir.mag()));
     }
     
-- 
2.43.0


From 7c962ae0f7072be38958ce6e630ca7cbdb2dcaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 119/163] fix: SampleGeometry.h could not be instantiated

---
 geomc/random/SampleGeometry.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/geomc/random/SampleGeometry.h b/geomc/random/SampleGeometry.h
index f0cec05..bcaf2e2 100644
--- a/geomc/random/SampleGeometry.h
+++ b/geomc/random/SampleGeometry.h
@@ -1,7 +1,10 @@
 #pragma once
 
 #include <random>
-#include <geomc/shape/ShapeTypes.h>
+#include <cmath>
+#include <geomc/shape/Rect.h>
+#include <geomc/shape/Simplex.h>
+#include <geomc/shape/Sphere.h>
 
 namespace geom {
     
@@ -11,7 +14,7 @@ namespace geom {
 /// Implements the RandomDistribution concept
 template <typename Shape>
 struct ShapeDistribution {
-    typedef Shape::point_t result_type;
+    typedef typename Shape::point_t result_type;
     typedef Shape          param_type;
     Shape shape;
     
@@ -29,9 +32,9 @@ struct SampleShape {};
 
 template <typename T, index_t N>
 struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
-    Simplex<T,N> shape;
+    using ShapeDistribution<Simplex<T,N>>::shape;
     
-    SampleShape(const Simplex<T,N>& s):ShapeDistribution(s) {}
+    SampleShape(const Simplex<T,N>& s):ShapeDistribution<Simplex<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
@@ -57,8 +60,8 @@ struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
 
 template <typename T, index_t N>
 struct SampleShape<Rect<T,N>> : public ShapeDistribution<Rect<T,N>> {
-    Rect<T,N> shape;
-    SampleShape(const Rect<T,N>& s):ShapeDistribution(s) {}
+    using ShapeDistribution<Rect<T,N>>::shape;
+    SampleShape(const Rect<T,N>& s):ShapeDistribution<Rect<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
@@ -74,14 +77,18 @@ struct SampleShape<Rect<T,N>> : public ShapeDistribution<Rect<T,N>> {
 
 template <typename T, index_t N>
 struct SampleShape<Sphere<T,N>> : public ShapeDistribution<Sphere<T,N>> {
-    Sphere<T,N> shape;
-    SampleShape(const Sphere<T,N>& s):ShapeDistribution(s) {}
+    using ShapeDistribution<Sphere<T,N>>::shape;
+    SampleShape(const Sphere<T,N>& s):ShapeDistribution<Sphere<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
         std::uniform_real_distribution<T> u(0,1);
-        Vec<T,N> p = rnd<T,N>(rng).unit();
-        p = p * shape.r * std::pow(u(rng), 1/(T)N) + shape.center;
+        std::normal_distribution<T> gauss(0,1);
+        Vec<T,N> p;
+        for (index_t i = 0; i < N; ++i) {
+            p[i] = gauss(rng);
+        }
+        p = p.unit() * shape.r * std::pow(u(rng), 1/(T)N) + shape.center;
         return p;
     }
 };
-- 
2.43.0


From b126b7dd1dd8870b7243c8bbaaf858851124bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 120/163] fix: sampling a Simplex of fewer than N + 1 vertices
 read vertices it does not have

---
 geomc/random/SampleGeometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/random/SampleGeometry.h b/geomc/random/SampleGeometry.h
index bcaf2e2..86af327 100644
--- a/geomc/random/SampleGeometry.h
+++ b/geomc/random/SampleGeometry.h
@@ -43,13 +43,13 @@ struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
         std::exponential_distribution<T> e(1);
         T s[N + 1];
         T sum = 0;
-        for (index_t i = 0; i < N + 1; ++i) {
+        for (index_t i = 0; i < shape.n; ++i) {
             T xi = e(rng);
             s[i] = xi;
             sum += xi;
         }
         Vec<T,N> p;
-        for (index_t i = 0; i < N + 1; ++i) {
+        for (index_t i = 0; i < shape.n; ++i) {
             T xi = s[i] / sum;
             p += xi * shape.pts[i];
         }
-- 
2.43.0


From 2cde6e37d99a96382764429d6bca37572a861aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 121/163] fix: trace_simplex() read the ray parameter past the
 end of the solution, and tested coordinates it had not solved for

---
 geomc/shape/Simplex.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c9e6222..0dbf9e0 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -571,8 +571,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     
     // linear solve
     Vec<T,N> x = ray.origin - verts[0];
-    index_t skip = uv ? 0 : N - 1;
-    if (not linear_solve(bases, 1, &x, skip)) return false;
+    if (not linear_solve(bases, 1, &x)) return false;
     
     // inside simplex?
     T sum = 0;
@@ -583,7 +582,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     if (sum > 1) return false;
     
     // output result
-    *s  = x[N];
+    *s  = x[N - 1];
     if (uv) *uv = x.template resized<N-1>();
     return true;
 }
-- 
2.43.0


From 07b1a2c9ccf99d0eb0d1cbcd76095555822fd5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 122/163] fix: Simplex::is_facing() did not test all the
 coordinates of a simplex that spans a subspace

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 0dbf9e0..fa84674 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -320,7 +320,7 @@ public:
                 
                 // check that the coordinates of `p` are inside the simplex
                 T sum = 0;
-                for (index_t i = n_null; i < n_bases; ++i) {
+                for (index_t i = n_null; i < N; ++i) {
                     sum += x[i];
                     if (x[i] < 0 or sum > 1) return false;
                 }
-- 
2.43.0


From 53d75555c84e360e043c397fe6389fd6615cf7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 123/163] fix: Simplex::measure() was negative for inverted
 full simplexes and zero for others that span a subspace

---
 geomc/shape/Simplex.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index fa84674..59c4cca 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -383,7 +383,9 @@ public:
             if (n == 3) return (pts[1] - pts[0]).cross(pts[2] - pts[0]).mag() / 2;
         }
         // full volume
-        if (n == N + 1) return volume();
+        if (n == N + 1) return std::abs(volume());
+        // an empty simplex or a point has no extent
+        if (n < 2) return 0;
         // otherwise, construct the basis of the simplex.
         // we'll use it to compute the volume
         Vec<T,N> bases[N];
@@ -397,12 +399,14 @@ public:
         // divided by n factorial. i suspect the gram matrix could probably
         // be computed more efficiently, because it's symmetric
         T buf[N * N];
-        WrapperMatrix<T,0,0> b {buf, n, n};
-        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n};
-        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n};
+        // there is one fewer basis than there are vertices
+        const index_t n_bases = n - 1;
+        WrapperMatrix<T,0,0> b {buf, n_bases, n_bases};
+        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n_bases};
+        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n_bases};
         // (n x n) = (n x N) * (N x n)
         mul(&b, m0, m1);
-        return std::sqrt(std::abs(det_destructive(buf, n))) / k;
+        return std::sqrt(std::abs(det_destructive(buf, n_bases))) / k;
     }
     
     /**
-- 
2.43.0


From 63395ff0a37db58cacefe9ea3b4c2315f948e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 124/163] fix: Simplex::intersect() reported a hit for some
 rays that miss

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 59c4cca..835e6f6 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -236,7 +236,7 @@ public:
             if (linear_solve(m, 2, B)) {
                 // intersect all the ranges of s for which 0 <= w_i <= 1.
                 Rect<T,1> interval = Rect<T,1>::full;
-                for (index_t i = 0; i < N + 1 and interval.hi > interval.lo; ++i) {
+                for (index_t i = 0; i < N + 1 and interval.hi >= interval.lo; ++i) {
                     // w_i = p_i + k_i * s
                     // solve for w_i = 0 and w_i = 1:
                     T p_i = B[0][i];
-- 
2.43.0


From c362e3be4189090f019191bd1c7fc8776c1c54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 125/163] fix: Simplex::normal() was not of unit length, and
 faced inward from the interior

---
 geomc/shape/Simplex.h                    | 5 +++--
 geomc/shape/shapedetail/SimplexProject.h | 9 +++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 835e6f6..3136826 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -458,17 +458,18 @@ public:
             p,
             detail::ProjectionOp::PROJECT
         };
-        if (normal) *normal = proj.normal_direction();
+        if (normal) *normal = proj.outward_normal();
         return proj.distance() * (proj.result.contains ? -1 : 1);
     }
     
+    /// Unit-length direction away from the nearest point on the simplex, and away from its interior.
     Vec<T,N> normal(Vec<T,N> p) const {
         detail::SimplexProjection<T,N> proj {
             *this,
             p,
             detail::ProjectionOp::PROJECT
         };
-        return proj.normal_direction();
+        return proj.outward_normal();
     }
     
     
diff --git a/geomc/shape/shapedetail/SimplexProject.h b/geomc/shape/shapedetail/SimplexProject.h
index c82a654..d2e845d 100644
--- a/geomc/shape/shapedetail/SimplexProject.h
+++ b/geomc/shape/shapedetail/SimplexProject.h
@@ -364,6 +364,15 @@ public:
         return out_normal;
     }
     
+    /**
+     * @brief Compute the unit-length outward-facing normal of the simplex nearest to `p`.
+     */
+    Vec<T,N> outward_normal() {
+        // from the interior, the direction to the point is the inward one
+        Vec<T,N> n = normal_direction().unit();
+        return result.contains ? -n : n;
+    }
+    
     /**
      * @brief Extract the face to which `p` projects.
      */
-- 
2.43.0


From 325d61c31fa72ddcdf550ffb458f8cdb9d12b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 126/163] fix: a reused Intersector began with a null search
 direction after finding an overlap

---
 geomc/shape/Intersect.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 9cb0f1e..43f8428 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -64,7 +64,8 @@ public:
             if (k < 0 or a == cur_simplex->pts[cur_simplex->n - 1]) {
                 // we tried to search as far as we could in direction `d`,
                 // but got no closer to the origin. 
-                separation_axis = -a.project_on(d);
+                Vec<T,N> axis = -a.project_on(d);
+                if (not axis.is_zero()) separation_axis = axis;
                 // return whether the origin is inside the minkowski difference
                 return k >= 0;
             }
@@ -89,7 +90,9 @@ public:
             std::swap(cur_simplex, next_simplex);
             if (cur_simplex->n == N + 1 or d.is_zero()) {
                 // the simplex is full, and the origin is inside it.
-                separation_axis = d;
+                // (there is no separating axis. keep the last one, since a null vector
+                // is not a direction that the next test could begin with)
+                if (not d.is_zero()) separation_axis = d;
                 return true;
             }
             if (iterations > max_iterations or d.mag2() == 0) { return true; }
-- 
2.43.0


From d3fd1fd19640a88aa9e7b257523ae6b678eef991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 127/163] fix: Frustum::intersect() was wrong for rays through
 the tip, in the h=0 plane, or parallel to the projected axis

---
 geomc/shape/Frustum.h | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 38c1f43..3a944d7 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -107,34 +107,31 @@ public:
         
         // first make our ray subspace basis orthogonal:
         Vec<T,N> o_ortho = ray.origin - ray.origin.project_on(ray.direction);
+        T o_x = ray.origin.fraction_on(ray.direction);
+        
+        // handle degenerate cases
+        if (o_ortho == (T)0) {
+            // ray passes through the origin. the frustum intersection is full iff the ray is 
+            // inside the frustum; else only the frustum tip is hit, if it's included in
+            // the height range.
+            T h = ray.direction[N-1];
+            if (h != 0 and base.contains((ray.direction / h).template resized<N-1>())) {
+                return slab_range;
+            }
+            return Rect<T,1>(-o_x, -o_x) & slab_range;
+        } else if (ray.direction[N-1] == 0 and o_ortho[N-1] == 0) {
+            // the ray lies in the h=0 plane, and does not pass through the origin
+            return Rect<T,1>::empty;
+        }
         Vec<T,N> z_plus;
         z_plus[N-1] = 1;
         // project the Z+ axis to the ray subspace. (the point on the projected ray
         // which is closest to the origin is a multiple of this point)
         // todo: this can probably be optimized:
         Vec<T,N> o_base = z_plus.project_on(ray.direction) + z_plus.project_on(o_ortho);
-        // project V to the h=0 plane
-        Vec<T,N> v_base = ray.direction - ray.direction.project_on(o_base);
+        // the direction of the ray subspace which lies in the h=0 plane
+        Vec<T,N> v_base = o_ortho[N-1] * ray.direction - ray.direction[N-1] * o_ortho;
         
-        // handle degenerate cases
-        if (o_base[N-1] == 0) {
-            // the ray lies in the h=0 plane
-            if (o_base == (T)0) [[unlikely]] {
-                // the ray passes through the origin, and intersects the
-                // frustum tip, if it's included in the height range
-                T s = ray.direction.fraction_on(ray.origin);
-                return Rect<T,1>(s, s) & slab_range;
-            } else {
-                // the ray does not pass through the origin
-                return Rect<T,1>::empty;
-            }
-        } else if (v_base == (T)0) {
-            // ray passes through the origin. the frustum intersection is full iff the ray is 
-            // inside the the frustum; else it is empty.
-            return base.contains(o_base.template resized<N-1>())
-                ? slab_range         // full range  & slab_range
-                : Rect<T,1>::empty;  // empty range & slab_range
-        }
         // put `o` onto the h=1 plane
         o_base /= o_base[N-1];
         
@@ -171,7 +168,6 @@ public:
         */
         Vec<T,N> lo {ray_base.at_multiple(s.lo), 1};
         Vec<T,N> hi {ray_base.at_multiple(s.hi), 1};
-        T o_x    = ray.origin.fraction_on(ray.direction);
         T p_lo_y = lo.fraction_on(o_ortho);
         T p_hi_y = hi.fraction_on(o_ortho);
         T p_lo_x = lo.fraction_on(ray.direction);
-- 
2.43.0


From 750ddcf69dd515cf776070eb3221bcaf199602c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 128/163] fix: Frustum::intersect() missed rays that enter the
 frustum behind their origin

---
 geomc/shape/Frustum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 3a944d7..d2f1595 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -184,10 +184,10 @@ public:
         if ((h0 < 0) != (h1 < 0)) {
             // if the two hits are on either side of h=0, then the interval is inverted.
             // (we have already handled the ray through the origin case).
-            // which of the two half-infinite intervals should be intersected with the slab?
-            s = (slab_range.lo < 0)
-                ? Rect<T,1>(std::numeric_limits<T>::lowest(), s.lo)
-                : Rect<T,1>(s.hi, std::numeric_limits<T>::max());
+            // which of the two half-infinite intervals is on the frustum's side of h=0?
+            s = ((ray.direction[N-1] < 0) == (clipped_height().lo < 0))
+                ? Rect<T,1>(s.hi, std::numeric_limits<T>::max())
+                : Rect<T,1>(std::numeric_limits<T>::lowest(), s.lo);
         }
         // intersect the slab with the frustum interval.
         return s & slab_range;
-- 
2.43.0


From 7595b65fde8a389f2ee781434deb8cbf43f1f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 129/163] fix: Extruded::normal() did not compile where
 narrowing is an error

---
 geomc/shape/Extruded.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index 72ce502..b6398a0 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -104,7 +104,7 @@ public:
                 T wall_dist = std::abs(base.sdf(p_base));
                 if (cap_dist < wall_dist) {
                     // the cap is nearest. use its normal
-                    return {Vec<T,N-1>{}, (cap_h >= height.hi) ? 1 : -1};
+                    return {Vec<T,N-1>{}, (T)((cap_h >= height.hi) ? 1 : -1)};
                 }
             }
             // the wall is nearest, use its normal
@@ -113,7 +113,7 @@ public:
             // p beyond the top or bottom cap
             if (inside_base) {
                 // p directly above or below a cap
-                return {Vec<T,N-1>{}, (h >= height.hi) ? 1 : -1};
+                return {Vec<T,N-1>{}, (T)((h >= height.hi) ? 1 : -1)};
             } else {
                 // p is outside the base shape
                 Vec<T,N> cap_pt {
-- 
2.43.0


From 91302f81b2e09f98ffc801e45b9baba48d9bb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 130/163] fix: Cylinder::intersect: a ray running along the
 wall lies within the (closed) cylinder

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 5a41907..7b1ab07 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -235,7 +235,7 @@ public:
         // construct an interval holding the ray's overlap with the infinite cylinder
         if (k0 != 0 and quadratic_solve(roots, k0, k1, k2)) {
             interval = Rect<T,1>::spanning_corners(roots[0], roots[1]);
-        } else if (k2 < 0) {
+        } else if (k2 <= 0) {
             // if there is no intersection, then it might be the case that 
             // the ray points exactly down the interior of the cylinder, which
             // can only happen if the ray origin is inside too (k2 < 0). also
-- 
2.43.0


From 403b1637f4dc7acd02b203b21c7bb13e80b65322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 131/163] fix: PermutationMatrix: exchanging a row or column
 with itself does not change the sign

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index a9bee05..563f33d 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -339,7 +339,7 @@ public:
         dst[src[b]] = a;
         // swap a/b
         std::swap(src[a], src[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -358,7 +358,7 @@ public:
         src[dst[b]] = a;
         // swap a/b
         std::swap(dst[a], dst[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
-- 
2.43.0


From 9c9f6f21b354a12f2c92d5020be8d5829934cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 132/163] fix: Deque.h and SmallStorage.h use std::optional
 without including it

---
 geomc/Deque.h        | 1 +
 geomc/SmallStorage.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 3aeb689..19677ca 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -1,3 +1,4 @@
+#include <optional>
 #include <type_traits>
 #include <utility>
 #include <geomc/Storage.h>
diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 9cfe5db..f795470 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <optional>
 #include <geomc/geomc_defs.h>
 
 namespace geom {
-- 
2.43.0


From 685bf3af96aedbf87cb466acfa0d81a5f327ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 133/163] fix: DualImpl.h uses std::ostream without including
 it

---
 geomc/function/functiondetail/DualImpl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index df99874..3e22111 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <ostream>
 #include <geomc/geomc_defs.h>
 
 
-- 
2.43.0


From 0b5d4ad0fc24d7e16fb109c5c331ce2fa267f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 134/163] fix: Vec::is_finite_real did not compile

---
 geomc/linalg/vecdetail/Vec2.h | 2 +-
 geomc/linalg/vecdetail/Vec3.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 57fe58e..7513aea 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -103,7 +103,7 @@ namespace geom {
 
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
         }
         
         /*===========================*
diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 0880312..66bd2dc 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -331,9 +331,9 @@ namespace geom {
         
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(this->x) and
-                   is_real(this->y) and
-                   is_real(this->z);
+            return detail::is_real(this->x) and
+                   detail::is_real(this->y) and
+                   detail::is_real(this->z);
         }
 
     private:
-- 
2.43.0


From 49419621406a666854efbd15c5968960070caee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 135/163] fix: GridIterator.h could not be included on its own

---
 geomc/linalg/mtxdetail/MatrixGlue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/mtxdetail/MatrixGlue.h b/geomc/linalg/mtxdetail/MatrixGlue.h
index 8c3c9b4..5bc2065 100644
--- a/geomc/linalg/mtxdetail/MatrixGlue.h
+++ b/geomc/linalg/mtxdetail/MatrixGlue.h
@@ -12,6 +12,7 @@
 
 #include <geomc/GeomException.h>
 #include <geomc/Storage.h>
+#include <geomc/shape/ShapeTypes.h>
 #include <geomc/shape/GridIterator.h>
 
 namespace geom {
-- 
2.43.0


From f11d1d1585a0c9cf284fc0fdaf198019ea111613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 136/163] fix: brace initialization of Vec<T,N> for N > 4, and
 of Quat, did not compile

---
 geomc/linalg/Quaternion.h | 7 +++----
 geomc/linalg/Vec.h        | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 0e54b2a..2c071d6 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -8,6 +8,7 @@
 #ifndef QUATERNION_H_
 #define QUATERNION_H_
 
+#include <cassert>
 #include <cmath>
 #include <geomc/linalg/Vec.h>
 
@@ -68,10 +69,8 @@ public:
      */
     Quat(const std::initializer_list<T>& items):
             detail::VecCommon< T,4,Quat<T>>(items.begin()) {
-        // items.size() not constexpr in c++11  D:<
-        static_assert(
-            items.size() == 4,
-            "Quaternion must be initialized with 4 elements");
+        // (a function parameter's size is not a constant expression)
+        assert(items.size() == 4 and "Quaternion must be initialized with 4 elements");
     }
     
     /*******************************
diff --git a/geomc/linalg/Vec.h b/geomc/linalg/Vec.h
index dbaee90..853b3c0 100644
--- a/geomc/linalg/Vec.h
+++ b/geomc/linalg/Vec.h
@@ -8,6 +8,7 @@
 #ifndef VEC_H_
 #define VEC_H_
 
+#include <cassert>
 #include <type_traits>
 
 #include <geomc/Hash.h>
@@ -327,10 +328,8 @@ public:
     Vec(const std::initializer_list<T>& items):
         detail::VecCommon< T,N,Vec<T,N> >(items.begin())
     {
-#if __cplusplus >= 201402L
-        // items.size() not constexpr in c++11  D:<
-        static_assert(items.size() == N, "Vector must be initialized with N items");
-#endif
+        // (a function parameter's size is not a constant expression)
+        assert(items.size() == N and "Vector must be initialized with N items");
     }
 #endif
     
-- 
2.43.0


From 8f0aa5b92ad199cfdec434e2f01194400cdb3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 137/163] fix: BinLatticePartition::query(Rect) did not compile

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 408cebe..8924b3f 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -274,7 +274,7 @@ public:
     }
 
     region_iterator query(Rect<T,N> region){
-        return region_iterator(*this, binRegion(region));
+        return region_iterator(this, binRegion(region));
     }
 
     region_iterator query(point_t pt, T radius){
-- 
2.43.0


From 2721f72fe665f65516305ff87dfc918291cd6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:16 +0000
Subject: [PATCH 138/163] fix: hashing a Ray or a Simplex did not compile

---
 geomc/linalg/Ray.h    | 2 +-
 geomc/shape/Simplex.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index c9bb51e..0c016db 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -140,7 +140,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Ray<T,N>, H> {
     H operator()(const Ray<T,N> &r) const {
         H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
     }
 };
 
diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 3136826..010503d 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -603,7 +603,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Simplex<T,N>, H> {
     H operator()(const Simplex<T,N>& s) const {
         H nonce = geom::truncated_constant<H>(0x8159bb983f797983, 0xe8904e94430f7555);
-        return geom::hash_array<H>(nonce, s.pts, s.n);
+        return geom::hash_array<Vec<T,N>,H>(nonce, s.pts, s.n);
     }
 };
 
-- 
2.43.0


From 6ffe33e5adcc5b005144f767d74ae00505ab448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:16 +0000
Subject: [PATCH 139/163] fix: hashing a std::tuple did not compile

---
 geomc/Hash.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/Hash.h b/geomc/Hash.h
index 0d95480..ec743d1 100644
--- a/geomc/Hash.h
+++ b/geomc/Hash.h
@@ -11,6 +11,12 @@ namespace geom {
 template <typename T, typename H>
 H hash(const T& obj);
 
+template <typename H>
+inline constexpr H hash_combine_many(H h);
+
+template <typename H, typename... Hs>
+inline constexpr H hash_combine_many(H h, Hs... hashes);
+
 
 namespace detail {
 
-- 
2.43.0


From ef2d5574c558e18c924de64d48e34845db56256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 140/163] fix: the product of a diagonal and a permutation
 matrix was ambiguous

---
 geomc/linalg/mtxdetail/MatrixMult.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index cc207f1..16f4d91 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -41,13 +41,19 @@ template <typename Mt> struct _IsDiagMatrix { static const bool val = false; };
 template <typename T, index_t M, index_t N>
 struct _IsDiagMatrix<geom::DiagMatrix<T,M,N>> { static const bool val = true; };
 
-// The diagonal matrix implementations need to avoid each other, too:
+template <typename Mt> struct _IsPermuteMatrix { static const bool val = false; };
+template <index_t N>
+struct _IsPermuteMatrix<geom::PermutationMatrix<N>> { static const bool val = true; };
+
+// The diagonal matrix implementations need to avoid each other, too
+// (and leave products with a permutation to the permutation implementations):
 #define REQUIRE_PLAIN_MATRIX_T(Mt) \
     typename std::enable_if< \
         std::is_base_of< \
             geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
             Mt \
         >::value and not detail::_IsDiagMatrix<Mt>::val \
+          and not detail::_IsPermuteMatrix<Mt>::val \
     >::type
 
 
-- 
2.43.0


From 0b05dd446493eddf007711a524639ea5601f6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 141/163] fix: Simplex::project() did not take const or
 temporary points

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 010503d..667443a 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -473,7 +473,7 @@ public:
     }
     
     
-    Vec<T,N> project(Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
+    Vec<T,N> project(const Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
         detail::SimplexProjection<T,N> proj {
             *this,
             p,
-- 
2.43.0


From a66739ce94d666ab92ea002f5ed302483309f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 142/163] fix: whether an Extruded or Frustum is Convex was
 asked of the wrong concept of its base

---
 geomc/shape/Extruded.h | 2 +-
 geomc/shape/Frustum.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index b6398a0..990756d 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -244,7 +244,7 @@ template <typename Shape>
 struct implements_shape_concept<Extruded<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value
+        implements_shape_concept<Shape, Convex>::value
     >
 {};
 
diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index d2f1595..4d0740a 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -296,7 +296,7 @@ template <typename Shape>
 struct implements_shape_concept<Frustum<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 
-- 
2.43.0


From 9526d5663ba09072ced29d29806c0a589338ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 143/163] fix: Dilated shapes claimed an sdf which their base
 did not have

---
 geomc/shape/Dilated.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 630cca2..c345d9e 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -188,6 +188,13 @@ struct implements_shape_concept<Dilated<Shape>, Projectable> :
         implements_shape_concept<Shape, Projectable>::value>
 {};
 
+template <typename Shape>
+struct implements_shape_concept<Dilated<Shape>, SdfEvaluable> : 
+    public std::integral_constant<
+        bool,
+        implements_shape_concept<Shape, SdfEvaluable>::value>
+{};
+
 template <typename Shape>
 struct implements_shape_concept<Dilated<Shape>, Convex> : 
     public std::integral_constant<
-- 
2.43.0


From 517f8e651a852037ef08a0bfdd26c72ecb4badbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 144/163] fix: Capsule claimed to be RayIntersectable without
 providing intersect()

---
 geomc/shape/Capsule.h | 55 ++++++++++---------------------------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 96b52d0..6733353 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -2,6 +2,8 @@
 
 #include <geomc/linalg/Vec.h>
 #include <geomc/shape/Shape.h>
+#include <geomc/shape/Sphere.h>
+#include <geomc/shape/Cylinder.h>
 #include <geomc/function/Utils.h>
 
 namespace geom {
@@ -101,54 +103,21 @@ public:
         return ptype::unit(p - nearest_axis_point(p));
     }
     
-    /*
-    xxx: todo: this. consider using https://www.shadertoy.com/view/Xt3SzX
     /// Shape-ray intersection test.
     Rect<T,1> intersect(const Ray<T,N>& ray) const {
-        Vec<T,N> a = p1 - p0;
-        Vec<T,N> b = ray.origin - p0;
-        T a2 = a.mag2();
-        T b2 = b.mag2();
-        T d  = a.dot(b);
-        T s  = d / a2;  // fractional projection of ray origin onto axis
-        T x2 = d * s;
-        T m  = ray.direction.dot(a);
-        
-        // construct quadratic coeffs
-        T k0 = ray.direction.mag2() - m * m / a2;
-        T k1 = 2 * (b.dot(ray.direction) - d * m / a2);
-        T k2 = b2 - x2 - radius * radius;
-        
-        // setup for cylinder intersection
-        T roots[2];
-        Rect<T,1> interval;
-        
-        // construct an interval holding the ray's overlap with the infinite cylinder
-        if (k0 != 0 and quadratic_solve(roots, k0, k1, k2)) {
-            interval = Rect<T,1>::spanning_corners(roots[0], roots[1]);
-        } else if (k2 < 0) {
-            // if there is no intersection, then it might be the case that 
-            // the ray points exactly down the interior of the cylinder, which
-            // can only happen if the ray origin is inside too (k2 < 0). also
-            // due to precision this manifests sometimes when there is one root:
-            // when v and a are aligned then k0 is 0, and the equation can take the form
-            // `0x^2 + (small)x + c = 0`; this should be treated the same as 'no solution'.
-            // (Tangent rays with a single root will have k0 ≠ 0 and should be intersected
-            // normally).
-            interval = Rect<T,1>::full;
-        } else {
-            // no intersection
-            return Rect<T,1>::empty;
+        // the capsule is convex, and is the union of a cylinder and its two end
+        // spheres; so the ray is inside it over the hull of its overlaps with those.
+        Rect<T,1> parts[3] = {
+            Sphere<T,N>(p0, radius).intersect(ray),
+            Sphere<T,N>(p1, radius).intersect(ray),
+            p0 == p1 ? Rect<T,1>::empty : Cylinder<T,N>(p0, p1, radius).intersect(ray)
+        };
+        Rect<T,1> interval = Rect<T,1>::empty;
+        for (const Rect<T,1>& part : parts) {
+            if (not part.is_empty()) interval |= part;
         }
-        
-        // trace the endcaps
-        // xxx: this is the wrong interval logic
-        interval &= Sphere<T,N>(p0, radius).intersect(ray);
-        interval &= Sphere<T,N>(p1, radius).intersect(ray);
-        
         return interval;
     }
-    */
     
 };
 
-- 
2.43.0


From e2b5c8d4c1df2482bdd6fce643e6fa71e665d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:47 +0000
Subject: [PATCH 145/163] fix: transpose a diagonal matrix into one whose
 dimensions are static in different places (did not compile)

---
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5e3f64a..f04baa2 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -154,7 +154,8 @@ struct _ImplMtxTxpose<geom::DiagMatrix<T,M,N> > {
         mtx_copy_txpose(d, m);
     }
     
-    inline static void transpose(return_t* d, const geom::DiagMatrix<T,M,N>& m) {
+    template <typename S, index_t J, index_t K>
+    inline static void transpose(geom::DiagMatrix<S,J,K>* d, const geom::DiagMatrix<T,M,N>& m) {
         // diagonal unaffected by transpose
         std::copy(m.diagonal_begin(), m.diagonal_end(), d->diagonal_begin());
     }
-- 
2.43.0


From 66a7a1ada5252f8add2ebcde1245c45770439b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 146/163] fix: mul() and mul_acc() of a dynamic matrix and a
 vector into a vector did not check that the operands' dimensions agree

---
 geomc/linalg/Matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index b61a3f7..3fcaf1b 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -499,6 +499,10 @@ mul(Md *into, const Ma &a, const Mb &b) {
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
     
+    // do the source matrix dimensions agree?
+    if (A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // if neither configuration yields dimension agreement:
     if (not ((Dr::rows(*into) == A::rows(a) and Dr::cols(*into) == B::cols(b)) or
              (Dc::rows(*into) == A::rows(a) and Dc::cols(*into) == B::cols(b))) ) {
@@ -543,6 +547,10 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
     
+    // do the source matrix dimensions agree?
+    if (A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // if neither configuration yields dimension agreement:
     if (not ((Dr::rows(*into) == A::rows(a) and Dr::cols(*into) == B::cols(b)) or
              (Dc::rows(*into) == A::rows(a) and Dc::cols(*into) == B::cols(b))) ) {
-- 
2.43.0


From ad5a20b6955045c7a01c313aee42ed6cdd3ce0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:28 +0000
Subject: [PATCH 147/163] fix: equal Duals with different derivatives had
 different hashes

---
 geomc/function/functiondetail/DualFunctions.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index f9c51d6..9292b3b 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -255,10 +255,9 @@ constexpr Dual<T,Dp> operator-(const Dual<T,Dp>& d) {
 template <typename T, DiscontinuityPolicy Dp, typename H>
 struct Digest<Dual<T,Dp>, H> {
     H operator()(const Dual<T,Dp>& d) const {
-        return hash_combine<H>(
-            geom::hash<T,H>(d.x),
-            geom::hash<T,H>(d.dx)
-        );
+        // equality of duals compares only the primal component;
+        // equal objects must have equal hashes.
+        return geom::hash<T,H>(d.x);
     }
 };
 
-- 
2.43.0


From 33557010b31fd9f0c3206fc214ed0a07d8d35b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 148/163] fix: Tree: the successor of a subtree was found
 inside that subtree

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4928a47..5fc7e48 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -862,7 +862,7 @@ protected:
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us
-            for (NodeRef c = child; c != off_end_child; ++c) {
+            for (NodeRef c = std::next(child); c != off_end_child; ++c) {
                 if (c->n_children > 0) {
                     successor = c->child_first;
                     break;
-- 
2.43.0


From 0e50a384cb93e298a3db917e1fa16ac02f455dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 149/163] fix: Tree: the first item after a node's items could
 be one before them

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 5fc7e48..df704ac 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -889,7 +889,7 @@ protected:
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
-                for (NodeRef c = node; c != end_c; ++c) {
+                for (NodeRef c = std::next(node); c != end_c; ++c) {
                     if (c->n_items > 0) {
                         return c->items_first;
                     }
-- 
2.43.0


From 2b2e1437652a1c1143f229bb49aef6f6667c38d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 150/163] fix: Tree: inserting a node at end() read the parent
 of the off-end node

---
 geomc/Tree.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index df704ac..77d6a2d 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1010,7 +1010,8 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and n != this->end()._root) return this->end();
+        if (n != this->end()._root and
+                (n == this->_storage->_nodes.end() or n->parent != p)) return this->end();
         
         // set the insert point for empty nodes
         if (parent_childless) {
@@ -1091,7 +1092,8 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and this->end()._root != n) return this->end();
+        if (n != this->end()._root and
+                (n == this->_storage->_nodes.end() or n->parent != p)) return this->end();
         if (i_begin == i_end)                          return this->end();
         
         // set the insert point for empty nodes
-- 
2.43.0


From a356eff821c39f87c9605690f52a6d04438f8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 151/163] fix: Tree: items of ancestors were lost or wrong when
 a leaf next to empty siblings changed

---
 geomc/Tree.h | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 77d6a2d..c31ea08 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -359,36 +359,25 @@ protected:
             ItemRef new_last,
             index_t delta_items) {
         
-        NodeRef prev_child = _nodes.end();
-        NodeRef n = leaf;
-        
-        ItemRef old_first = n->items_first;
-        ItemRef old_last  = n->items_last;
-        
-        // update ancestors' item count and boundary items
-        while (n != _nodes.end()) {
+        // update this node's and its ancestors' item count and boundary items
+        for (NodeRef n = leaf; n != _nodes.end(); n = n->parent) {
             n->n_items += delta_items;
             
             if (n->n_items == 0) {
                 n->items_first = n->items_last = _items.end();
+            } else if (n == leaf) {
+                n->items_first = new_first;
+                n->items_last  = new_last;
             } else {
-                // If we ascended from an edge node, that node certainly
-                // controls (or used to control) our edge item. 
-                // But it might have also controlled our edge item if the 
-                // edge sibling doesn't have any items. In this case,
-                // its previous edge item will also be ours.
-                if (n->child_first == prev_child or 
-                        n->items_first == old_first) {
-                    n->items_first = new_first;
-                }
-                if (n->child_last == prev_child or
-                        n->items_last == old_last) {
-                    n->items_last = new_last;
-                }
+                // our edge items are those of our first and last
+                // children which have any items.
+                NodeRef first = n->child_first;
+                while (first->n_items == 0) ++first;
+                NodeRef last = n->child_last;
+                while (last->n_items == 0) --last;
+                n->items_first = first->items_first;
+                n->items_last  = last->items_last;
             }
-            
-            prev_child = n;
-            n = n->parent;
         }
     }
     
-- 
2.43.0


From 89fbdaf1460567869ef96645bed43d6ced1faace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 152/163] fix: Tree: a tree built from a list of items counted
 its nodes instead of its items, and could not be built from none

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c31ea08..17700f7 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -203,8 +203,8 @@ public:
         
         // assign items to root
         node->items_first = _items.begin();
-        node->items_last  = _items.end(); --(node->items_last);
-        node->n_items     = _nodes.size();
+        node->items_last  = _items.empty() ? _items.end() : std::prev(_items.end());
+        node->n_items     = _items.size();
     }
     
     
-- 
2.43.0


From 80bd88d50636001675c0d82334edad18f576fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 153/163] fix: Tree: copies and moved trees kept references
 into their source, and a copy's root had lost its last item

---
 geomc/Tree.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 17700f7..646e928 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -184,8 +184,15 @@ public:
     }
     
     
-    /// Default move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other) = default;
+    /// Move constructor. `other` becomes an empty tree.
+    Tree(Tree<NodeItem, LeafItem>&& other):
+            _nodes(std::move(other._nodes)),
+            _items(std::move(other._items)) {
+        recalculate_tree();
+        other._nodes.clear();
+        other._items.clear();
+        other._nodes.push_back(Node(&other, other._nodes.end()));
+    }
     
     
     /**
@@ -342,6 +349,7 @@ protected:
     
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
+        n->parent      = _nodes.end();
         n->child_first = std::next(n);
         n->child_last  = _nodes.end(); --(n->child_last);
         n->items_first = _items.begin();
@@ -1668,10 +1676,8 @@ protected:
                 }
                     
                 // fixup the items_end along the right edge of this subtree.
-                NodeRef descendent = node;
-                for (NodeRef ancestor = node->parent;
-                        ancestor != this->_root;
-                        descendent = ancestor, ancestor = ancestor->parent) {
+                for (NodeRef ancestor = node; ancestor != this->_root; ) {
+                    ancestor = ancestor->parent;
                     if (ancestor->n_items > 0) ancestor->items_last = last_item;
                 }
                 
-- 
2.43.0


From 8d58c5aa237190054e65d9eaa159ea60dcf22533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 154/163] fix: Tree: clear() advanced an erased iterator and
 left ancestors with deleted items

---
 geomc/Tree.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 646e928..74d8e3e 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1541,16 +1541,11 @@ public:
             ItemRef endpt = n->items_last; ++endpt;
             
             // delete the items
-            ItemRef next_item;
-            index_t n_deleted = 0;
-            for (next_item = n->items_first; next_item != endpt; ++next_item) {
-                this->_storage->_items.erase(next_item);
-                ++n_deleted;
-            }
-            ItemRef prev_item = next_item; --prev_item;
+            index_t n_deleted = n->n_items;
+            this->_storage->_items.erase(n->items_first, endpt);
             
-            // update item boundaries / counts
-            this->_storage->update_boundary_items(n, next_item, prev_item, -n_deleted);
+            // update item boundaries / counts (this node has no items left)
+            this->_storage->update_boundary_items(n, endpt, endpt, -n_deleted);
         }
     }
     
-- 
2.43.0


From cba9b478a819bca085bc6999f3262303cc0a4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 155/163] fix: Tree: erasing an item did not compile, and would
 have truncated its node's items

---
 geomc/Tree.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 74d8e3e..31385b7 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1487,8 +1487,8 @@ public:
             // this is a linear check; if we *knew* we were the parent, the
             // entire operation would be log(n). laaaaame.
             bool found = false;
-            for (item_iterator i = n->items_begin(); 
-                    i != n->items_end(); 
+            for (item_iterator i = this->items_begin(); 
+                    i != this->items_end(); 
                     ++i) {
                 if (i == item) {
                     found = true;
@@ -1497,20 +1497,22 @@ public:
             }
             
             if (found) {
+                bool is_first = item == n->items_first;
+                bool is_last  = item == n->items_last;
                 ItemRef next_item = this->_storage->_items.erase(item);
                 ItemRef prev_item = next_item; --prev_item;
                 
                 // figure out the new begin / end items
                 ItemRef new_begin, new_end;
-                if (item == n->items_first) {
+                if (is_first) {
                     new_begin = next_item;
                 } else {
                     new_begin = n->items_first;
                 }
-                if (item == n->items_last) {
+                if (is_last) {
                     new_end = prev_item;
                 } else {
-                    new_end = prev_item;
+                    new_end = n->items_last;
                 }
                 
                 this->_storage->update_boundary_items(
@@ -1520,7 +1522,7 @@ public:
                     -1);
                 
                 ok  = true;
-                ret = next_item;
+                ret = is_last ? this->items_end() : next_item;
             }
         }
         
-- 
2.43.0


From 1a3e9a9c5dcf3f27c7b0c52e84557b56abc7df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 156/163] fix: Tree: erasing the only child returned a node of
 another subtree; erasing end() read the off-end node

---
 geomc/Tree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 31385b7..3bea7ee 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1564,7 +1564,8 @@ public:
      */
     self_t erase(const self_t& child, bool* success=nullptr) const {
         // child must be our child
-        if (child._root->parent != this->_root or 
+        if (child._root == this->_storage->_nodes.end() or
+            child._root->parent != this->_root or 
             // and must not be global root
             child._root->parent == this->_storage->_nodes.end()) {
             if (success) *success = false;
@@ -1591,7 +1592,7 @@ public:
         }
         
         if (success) *success = true;
-        return self_t(next_node, this->_storage);
+        return this->_root->n_children == 0 ? this->end() : self_t(next_node, this->_storage);
     }
     
     
-- 
2.43.0


From df2b704fa741f58be735c39a831dfc9bb2d31a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 157/163] fix: Tree: inserting several items or nodes did not
 compile

---
 geomc/Tree.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 3bea7ee..4ecce62 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1102,7 +1102,7 @@ public:
         // todo: this->_storage->_nodes.reserve(n_items);
         NodeRef prev_end_node  = this->end()._root;
         NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, base_t::Node(this->_storage, p, *(i_begin++)));
+            n, typename base_t::Node(this->_storage, p, *(i_begin++)));
         NodeRef last_new_node  = first_new_node;
         
         // transfer ownership of the parent's items to the first child.
@@ -1118,7 +1118,7 @@ public:
         index_t ct = 1;
         for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
             last_new_node = this->_storage->_nodes.insert(
-                n, base_t::Node(this->_storage, p, *i));
+                n, typename base_t::Node(this->_storage, p, *i));
         }
         
         // adjust child endpoints if necessary
@@ -1251,12 +1251,14 @@ public:
     template <typename LeafItemIterator>
     item_iterator insert_items(
             const item_iterator& insert_before,
-            const LeafItemIterator  begin_item,
+                  LeafItemIterator  begin_item,
             const LeafItemIterator& end_item,
             index_t* new_item_count=nullptr) const {
         // todo: it would be great if we could protect against the user
         //   providing an insert_pt that doesn't belong to the parent
         
+        if (new_item_count) *new_item_count = 0;
+        
         // must insert to a leaf node
         if (this->node_count() > 0) {
             return this->items_end();
@@ -1269,8 +1271,8 @@ public:
         // retrieve parent and insert point
         NodeRef n = this->_root;
         ItemRef insert_pt = insert_before;
-        if (n.n_items == 0) {
-            insert_pt = item_successor(n);
+        if (n->n_items == 0) {
+            insert_pt = this->item_successor(n);
         }
         
         // insert the first item
@@ -1287,7 +1289,7 @@ public:
         
         // figure out the new begin/end items
         ItemRef new_begin, new_end;
-        if (insert_before == n->items_first) {
+        if (insert_pt == n->items_first or n->n_items == 0) {
             new_begin = first_new_item;
         } else {
             new_begin = n->items_first;
-- 
2.43.0


From 3c7e3905443c1dba2302ce4c907ce4c21519844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 158/163] fix: Tree: const access to a tree did not compile

---
 geomc/Tree.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4ecce62..c03f875 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -225,7 +225,7 @@ public:
     
     /// Construct a new tree from the given subtree.
     Tree(const ConstSubtree<NodeItem, LeafItem>& other):
-            _nodes(other.subtree_begin(), other.subtree_end()),
+            _nodes(other.subtree_begin()._root, other.subtree_end()._root),
             _items(other.items_begin(), other.items_end()) {
         // make a root (we only added the children)
         _nodes.push_front(*other._root);
@@ -244,7 +244,8 @@ public:
     
     /// Get a const subtree iterator to the root of this tree.
     inline ConstSubtree<NodeItem, LeafItem> root() const {
-        return ConstSubtree<NodeItem, LeafItem>(_nodes.begin(), this);
+        // (the handle gives no mutable access)
+        return ConstSubtree<NodeItem, LeafItem>(const_cast<std::list<Node>&>(_nodes).begin(), this);
     }
     
     
@@ -280,7 +281,7 @@ public:
      * in sibling-contiguous order.
      */
     ConstSubtree<NodeItem, LeafItem> end() const {
-        return ConstSubtree<NodeItem, LeafItem>(_nodes.end(), this);
+        return ConstSubtree<NodeItem, LeafItem>(const_cast<std::list<Node>&>(_nodes).end(), this);
     }
     
     
@@ -712,7 +713,8 @@ public:
      * nodes in this subtree, beginning with the first child of this node.
      */
     inline self_t subtree_begin() const {
-        return _root->child_first;
+        // (a childless node's subtree is empty)
+        return _root->n_children > 0 ? self_t(_root->child_first, _storage) : subtree_end();
     }
     
     
@@ -916,6 +918,9 @@ protected:
     // curiously recurring pattern is weird :[
     ConstSubtree(const base_t& other):base_t(other) {}
     
+    ConstSubtree(const typename base_t::NodeRef& root, typename base_t::StorageRef storage):
+        base_t(root, storage) {}
+    
     ConstSubtree() {}
     
 public:
@@ -950,6 +955,7 @@ protected:
     using typename base_t::StorageRef;
     
     friend class SubtreeBase<NodeItem, LeafItem, false>;
+    friend class ConstSubtree<NodeItem, LeafItem>;
     friend class Tree<NodeItem, LeafItem>;
     
     // allow myself to construct myself.
-- 
2.43.0


From 828ed62cb3929e6db6cad39a0de89c829c70f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 159/163] fix: Tree: queries ended early at a descendant which
 occupies the off-end position

---
 geomc/Tree.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c03f875..d8e5daa 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -507,6 +507,9 @@ public:
         Key        _key;
         BoundingFn _bound;
         TestFn     _test;
+        // the off-end node of `_root` may also be one of its descendants;
+        // being there does not mean that the query is finished.
+        bool       _done;
         
     public:
         
@@ -516,24 +519,27 @@ public:
                 _root(start),
                 _key(key),
                 _bound(bound),
-                _test(test) {
+                _test(test),
+                _done(start == start.global_end()) {
             find_result();
         }
         
         /// Return true if this iterator points to the subtree at `other`.
         bool operator==(const I& other) const {
-            return other == _item;
+            return other == _item and (_done or other != _root.end());
         }
         
         /// Return true if this iterator does not point to the subtree at `other`.
         bool operator!=(const I& other) const {
-            return other != _item;
+            return not (*this == other);
         }
         
         /// Find the next result at or beyond the Subtree `other`.
         QueryIterator& operator=(const I& other) {
             _item = other;
+            _done = other == _root.end();
             find_result();
+            return *this;
         }
     
     private:
@@ -544,18 +550,20 @@ public:
                 _item = _item.begin();
             } else if (_item == _root) {
                 _item = _root.end();
+                _done = true;
             } else {
                 // nothing further for us here. pop back out.
                 // while item is the last child of its parent, ascend:
                 while (_item._root == _item.parent()._root->child_last and _item.parent() != _root) {
                     _item = _item.parent();
                 }
+                _done = _item._root == _item.parent()._root->child_last;
                 ++_item;
             }
         }
         
         void find_result() {
-            while (_item != _root.end() and _item != _item.tree().end() and not _test(_item, _key)) {
+            while (not _done and not _test(_item, _key)) {
                 next_candidate();
             }
         }
@@ -568,7 +576,7 @@ public:
         }
         
         bool equal(const QueryIterator& other) const {
-            return _item == other._item;
+            return _item == other._item and _done == other._done;
         }
         
         const I& dereference() const {
-- 
2.43.0


From 8c0d3a8c78ac2b44b7fb729c9a959da2388a6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 160/163] fix: Tree: find_parent() looked in nodes outside the
 subtree, and the bounded search skipped siblings of nodes it descended into

---
 geomc/Tree.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index d8e5daa..5a17126 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -764,7 +764,8 @@ public:
      */
     self_t find_parent(const const_item_iterator& i) const {
         NodeRef subtree_last = node_successor(_root);
-        for (NodeRef n = _root; n != subtree_last; ++n) {
+        // (other nodes may lie between a node and its descendants)
+        for (NodeRef n = _root; n != subtree_last; n = (n == _root) ? subtree_begin()._root : std::next(n)) {
             if (n->n_children == 0 and n->n_items > 0) {
                 ItemRef end_item = n->items_last; ++end_item;
                 for (ItemRef j = n->items_first; j != end_item; ++j) {
@@ -791,30 +792,31 @@ public:
      */
     template <bool BoundingFn(const NodeItem&, const LeafItem&)>
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef cur_root     = _root;
-        NodeRef subtree_last = node_successor(_root);
-        while (cur_root != subtree_last) {
+        NodeRef cur_root = _root;
+        while (true) {
             if (BoundingFn(cur_root->data, *i)) {
                 // cur_root may contain `i`
                 if (cur_root->n_children > 0) {
                     // recurse
                     cur_root = cur_root->child_first;
-                } else {
+                    continue;
+                } else if (cur_root->n_items > 0) {
                     // look for item
                     ItemRef end_item = cur_root->items_last; ++end_item;
                     for (ItemRef j = cur_root->items_first; j != end_item; ++j) {
                         // found it
                         if (j == i) return self_t(cur_root, _storage);
                     }
-                    // our current node is a leaf, so there is no subtree to jump over.
-                    ++cur_root;
                 }
-            } else {
-                // check next sibling
-                cur_root = node_successor(cur_root);
             }
+            // check the next sibling, of this node or of its nearest ancestor which has one
+            while (cur_root != _root and cur_root == cur_root->parent->child_last) {
+                cur_root = cur_root->parent;
+            }
+            if (cur_root == _root) break;
+            ++cur_root;
         }
-        return this->end();;
+        return this->end();
     }
     
     
-- 
2.43.0


From 84489f7ed616728b997be0dda4aeb3e4482af6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:39 +0000
Subject: [PATCH 161/163] fix: Tree: copying a tree skipped the childless
 siblings of the nodes it copied

---
 geomc/Tree.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 5a17126..d1e1456 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1657,12 +1657,11 @@ protected:
         ItemRef begin_items = this->_root->items_first;
         // last / most recent assigned leaf item in the list: 
         ItemRef last_item   = begin_items; --last_item;
-        NodeRef end_child   = this->node_successor(this->_root);
         
         // in essence we "build" the tree by simply taking ownership of 
         // the nodes/items that already exist. we walk over the nodes in 
         // tree order, which means that child nodes are taken in order too.
-        for (NodeRef node = this->_root; node != end_child; ) {
+        for (NodeRef node = this->_root; ; ) {
             node->child_first = node->child_last = 
                 (node->n_children > 0) ? begin_child : this->_storage->_nodes.end();
             node->items_first = node->items_last = 
@@ -1697,8 +1696,13 @@ protected:
                     if (ancestor->n_items > 0) ancestor->items_last = last_item;
                 }
                 
-                // done populating this tree. populate the next sibling tree.
-                node = this->node_successor(node);
+                // done populating this tree. populate the next sibling tree
+                // (of this node or of its nearest ancestor which has one).
+                while (node != this->_root and node == node->parent->child_last) {
+                    node = node->parent;
+                }
+                if (node == this->_root) break;
+                ++node;
             }
         }
     }
-- 
2.43.0


From 2c0ca12ea9ecb87b27a58857dd2bd597f4d99bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:01 +0000
Subject: [PATCH 162/163] fix: Tree: handles to a const tree did not compile

---
 geomc/Tree.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index d1e1456..99d985c 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -173,8 +173,10 @@ class Tree {
         
     };
     
-    std::list<Node>     _nodes;
-    std::list<LeafItem> _items;
+    // (handles to a const tree are made of the same iterators as handles
+    // to a mutable one; they do not give mutable access)
+    mutable std::list<Node>     _nodes;
+    mutable std::list<LeafItem> _items;
     
 public:
     
@@ -244,8 +246,7 @@ public:
     
     /// Get a const subtree iterator to the root of this tree.
     inline ConstSubtree<NodeItem, LeafItem> root() const {
-        // (the handle gives no mutable access)
-        return ConstSubtree<NodeItem, LeafItem>(const_cast<std::list<Node>&>(_nodes).begin(), this);
+        return ConstSubtree<NodeItem, LeafItem>(_nodes.begin(), this);
     }
     
     
@@ -281,7 +282,7 @@ public:
      * in sibling-contiguous order.
      */
     ConstSubtree<NodeItem, LeafItem> end() const {
-        return ConstSubtree<NodeItem, LeafItem>(const_cast<std::list<Node>&>(_nodes).end(), this);
+        return ConstSubtree<NodeItem, LeafItem>(_nodes.end(), this);
     }
     
     
-- 
2.43.0


From 4ed34ce3aa42f07aa6916415a5be2f57bebd1b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:31 +0000
Subject: [PATCH 163/163] fix: Tree: adopting a subtree did not compile

---
 geomc/Tree.h | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 99d985c..c51776a 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -923,6 +923,7 @@ protected:
     
     typedef SubtreeBase<NodeItem, LeafItem, true> base_t;
     friend class SubtreeBase<NodeItem, LeafItem, true>;
+    friend class Subtree<NodeItem, LeafItem>;
     friend class Tree<NodeItem, LeafItem>;
     
     // allow myself to construct myself.
@@ -1346,7 +1347,9 @@ public:
      * this node immediately before `insert_before`.
      *
      * If `insert_before` is not a child or end-child of this node, the
-     * tree is unchanged and `end()` is returned.
+     * tree is unchanged and `end()` is returned. Likewise if this is a leaf
+     * node with items and the other subtree is not: this node's items 
+     * would belong to its new child, which is not a leaf.
      *
      * Invalidates all `end()` subtrees.
      *
@@ -1355,17 +1358,29 @@ public:
      * @return An iterator pointing at the root of the new adopted subtree.
      */
     self_t adopt(const const_iterator& other_subtree, const self_t& insert_before) const {
+        index_t n_children = other_subtree.node_count();
+        if (this->node_count() == 0 and this->item_count() > 0 and n_children > 0) {
+            return this->end();
+        }
+        
+        // copy the other subtree aside; it may belong to this tree.
+        std::list<LeafItem> new_items(
+            other_subtree.items_begin(),
+            other_subtree.items_end());
+        std::list<typename base_t::Node> new_nodes(
+            other_subtree.subtree_begin()._root,
+            other_subtree.subtree_end()._root);
+        
+        index_t prev_count = this->node_count();
         self_t new_node = insert_child_node(insert_before, *other_subtree);
-        if (new_node == this->end()) return new_node;
+        if (this->node_count() == prev_count) return new_node;
         
         NodeRef n = new_node._root;
         
         // insert all the items
         // (also updates the boundary items; etc.)
         // new node is now a valid leaf with a buncha items:
-        ItemRef first_new_item = n.insert_items(
-            other_subtree.items_begin(),
-            other_subtree.items_end());
+        new_node.insert_items(new_items.begin(), new_items.end());
         
         // todo: _storage->_nodes.reserve(...)
         
@@ -1373,11 +1388,11 @@ public:
         NodeRef subtree_end    = this->node_successor(n);
         NodeRef first_new_node = this->_storage->_nodes.insert(
             subtree_end, 
-            other_subtree.subtree_begin()._root, 
-            other_subtree.subtree_end()._root);
+            new_nodes.begin(), 
+            new_nodes.end());
         
         // update the new root's child list
-        n->n_children = other_subtree.node_count();
+        n->n_children = n_children;
         if (first_new_node != subtree_end) {
             n->child_first = first_new_node;
             n->child_last  = subtree_end; --(n->child_last);
-- 
2.43.0

