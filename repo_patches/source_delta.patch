From f7cfe4448a647a03cdb04e8c4215dc7129401dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 01/30] fix: circular interpolation follows the shortest arc
 and reports the travelled ratio

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index ef3ae0c..2eeaa02 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -178,14 +178,14 @@ Vec3<Real> lerp(const Vec3<Real>& from, const Vec3<Real>& to, Real ratio, Interp
 template <class Real>
 Real clerp(Real from, Real to, Real ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	return from + delta * ratio;
 }
 
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
@@ -195,11 +195,11 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-	ratio = angle / delta;
+	ratio = (delta == Real(0)) ? Real(1) : (angle - from) / delta;
 	return angle;
 }
 
-- 
2.43.0


From 1775c23c5eec7c636502e6d11564fd21b5309726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 02/30] fix: quartic and quintic easing keep double precision

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index 2eeaa02..83d3380 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -72,11 +72,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuarticIn:	return t * t * t * t;
 	case InterpolationMode::QuarticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return -t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuarticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? Real(8) * t * t * t * t
 			: -Real(0.5) * (t0 * t0 * t0 * t0 - Real(2));
@@ -84,11 +84,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuinticIn:	return t * t * t * t * t;
 	case InterpolationMode::QuinticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return t0 * t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuinticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? 16.0f * t * t * t * t * t
 			: Real(0.5) * (t0 * t0 * t0 * t0 * t0 + Real(2));
-- 
2.43.0


From 0044481a95eca35d7884b7d3c9d165714557b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 03/30] fix: Mat4 inversion takes the rigid shortcut only for
 affine matrices

---
 libs/mathlib/include/impl/mat4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b10e63c..75d6ae2 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -652,7 +652,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 template <class Real>
 Mat4<Real>& Mat4<Real>::invert()
 {
-	if (isOrthonormal())
+	if (isOrthonormal() && isTrs())
 	{
 		Real r;
 		r = x.y; x.y = y.x; y.x = r;
@@ -951,7 +951,7 @@ Real Mat4<Real>::determinant() const
 template <class Real>
 Mat4<Real> Mat4<Real>::inversed() const
 {
-	if (isOrthonormal())
+	if (isOrthonormal() && isTrs())
 	{
 		Mat4<Real> result;
 
-- 
2.43.0


From 857e7e18c70464a1612508ccf9ae81103ec71e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 04/30] fix: matrix products measure their flags unless both
 factors are orthonormal

---
 libs/mathlib/include/impl/mat2.h |  4 ++++
 libs/mathlib/include/impl/mat3.h | 12 ++++++++++++
 libs/mathlib/include/impl/mat4.h |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2f23f9b..4d36a5f 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -104,6 +104,8 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 	x.y = td * m.x.x + te * m.x.y;
 	y.y = td * m.y.x + te * m.y.y;
 	flags &= m.flags;
+	if (!isOrthonormal())
+		optimize();
 	return *this;
 }
 
@@ -537,6 +539,8 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
 		dest.flags = a.flags & b.flags;
+		if (!dest.isOrthonormal())
+			dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 81736e5..4e18a0c 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -337,6 +337,8 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
 	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
 	flags &= m.flags;
+	if (!isOrthonormal())
+		optimize();
 	return *this;
 }
 
@@ -449,6 +451,8 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
 	flags &= m.flags;
+	if (!isOrthonormal())
+		optimize();
 
 	return *this;
 }
@@ -544,6 +548,8 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
 	flags &= m.flags;
+	if (!isOrthonormal())
+		optimize();
 
 	return *this;
 }
@@ -717,6 +723,8 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
     r.flags = flags & m.flags;
+    if (!r.isOrthonormal())
+        r.optimize();
 
     return r;
 }
@@ -809,6 +817,8 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
     r.flags = flags & m.flags;
+    if (!r.isOrthonormal())
+        r.optimize();
 
     return r;
 }
@@ -1085,6 +1095,8 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
 		dest.flags = a.flags & b.flags;
+		if (!dest.isOrthonormal())
+			dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 75d6ae2..19123c3 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1305,6 +1305,8 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
 		dest.flags = a.flags & b.flags;
+		if (!dest.isOrthonormal() || !dest.isTrs())
+			dest.optimize();
 	}
 }
 
-- 
2.43.0


From 7a091cce36d300f49b469b44f208b219a80da805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 05/30] fix: Mat3 rotations about a named axis refresh the
 flags

---
 libs/mathlib/include/impl/mat3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 4e18a0c..34e167b 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -523,7 +523,7 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -620,7 +620,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -789,7 +789,7 @@ Mat3<Real> Mat3<Real>::rotated(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -883,7 +883,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
-- 
2.43.0


From e039b52a5b67ad96afb692f024432709d83b3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:23 +0000
Subject: [PATCH 06/30] fix: transposition refreshes the flags of matrices that
 are not orthonormal

---
 libs/mathlib/include/impl/mat2.h | 6 +++++-
 libs/mathlib/include/impl/mat3.h | 6 +++++-
 libs/mathlib/include/impl/mat4.h | 5 ++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 4d36a5f..a6ea5c5 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -251,7 +251,9 @@ template <class Real>
 Mat2<Real>& Mat2<Real>::transpose()
 {
 	Real t = x.y; x.y = y.x; y.x = t;
-	// flags unchanged by transposition
+	// flags of an orthonormal matrix are unchanged by transposition
+	if (!isOrthonormal())
+		optimize();
 	return *this;
 }
 
@@ -362,6 +364,8 @@ Mat2<Real> Mat2<Real>::transposed() const
 	r.y.x = x.y;
 	r.y.y = y.y;
 	r.flags = flags;
+	if (!r.isOrthonormal())
+		r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 34e167b..b9030b9 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -669,7 +669,9 @@ Mat3<Real>& Mat3<Real>::transpose()
 	t = x.y; x.y = y.x; y.x = t;
 	t = x.z; x.z = z.x; z.x = t;
 	t = y.z; y.z = z.y; z.y = t;
-	// flags unchanged by transposition
+	// flags of an orthonormal matrix are unchanged by transposition
+	if (!isOrthonormal())
+		optimize();
 	return *this;
 }
 
@@ -901,6 +903,8 @@ Mat3<Real> Mat3<Real>::transposed() const
 	r.z.y = y.z;
 	r.z.z = z.z;
 	r.flags = flags;
+	if (!r.isOrthonormal())
+		r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 19123c3..2bd5232 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -645,8 +645,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 	r = y.z; y.z = z.y; z.y = r;
 	r = y.w; y.w = t.y; t.y = r;
 	r = z.w; z.w = t.z; t.z = r;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -914,7 +913,7 @@ Mat4<Real> Mat4<Real>::transposed() const
 	r.t.z = z.w;
 	r.t.w = t.w;
 
-	r.flags = flags;
+	r.optimize();
 
 	return r;
 }
-- 
2.43.0


From 718ebca5dcdb4892a21a646de5c6e098598df65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 07/30] fix: Mat4::orthogonalError includes the fourth column
 of non-affine matrices

---
 libs/mathlib/include/impl/mat4.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 2bd5232..b314436 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1068,7 +1068,10 @@ Real Mat4<Real>::orthogonalError() const
 		Real xy = x * y;
 		Real xz = x * z;
 		Real yz = y * z;
-		return xy * xy + xz * xz + yz * yz;
+		Real xt = x * t;
+		Real yt = y * t;
+		Real zt = z * t;
+		return xy * xy + xz * xz + yz * yz + xt * xt + yt * yt + zt * zt;
 	}
 }
 
-- 
2.43.0


From 1211474e14ed4064abcbbc90c1371672a32ae7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 08/30] fix: Mat4 scale and translate refresh the flags of
 non-affine and near-identity matrices

---
 libs/mathlib/include/impl/mat4.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b314436..10c5076 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -480,7 +480,7 @@ Mat4<Real>& Mat4<Real>::translate(const Vec3<Real>& translation)
 	t += translation;
 	if (!translation.isNull())
 	{
-		flags &= ~Flags::Identity;
+		optimize();
 	}
 	return *this;
 }
@@ -498,8 +498,7 @@ Mat4<Real>& Mat4<Real>::scale(const Vec3<Real>& coefficients)
 	t.z *= coefficients.z;
 	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
 	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
+		optimize();
 	}
 	return *this;
 }
@@ -553,7 +552,7 @@ Mat4<Real>& Mat4<Real>::translatePre(const Vec3<Real>& translation)
 	t += delta;
 	if (!translation.isNull())
 	{
-		flags &= ~Flags::Identity;
+		optimize();
 	}
 	return *this;
 }
@@ -568,8 +567,7 @@ Mat4<Real>& Mat4<Real>::scalePre(const Vec3<Real>& coefficients)
 	z *= coefficients.z;
 	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
 	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
+		optimize();
 	}
 	return *this;
 }
-- 
2.43.0


From e96f4753089f9d833cd6c6eee27b5772935b1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 09/30] fix: Mat4::invert of a matrix of determinant one yields
 an initialised result

---
 libs/mathlib/include/impl/mat4.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 10c5076..c2771b1 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -711,7 +711,14 @@ Mat4<Real>& Mat4<Real>::invert()
 
 	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;
 
-	return (det == Real(0)) ? set(Zero) : set(inv / det);
+	if (det == Real(0))
+		return set(Zero);
+
+	inv /= det;
+
+	inv.optimize();
+
+	return set(inv);
 }
 
 
-- 
2.43.0


From d92f84b0e1bd421663a95a80dd483b3c39298c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 10/30] fix: Quat operator/ multiplies by the inverse of the
 divisor

---
 libs/mathlib/include/impl/quat.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 62e67a9..607d760 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -461,10 +461,9 @@ Quat<Real> Quat<Real>::operator - () const
 template <class Real>
 Quat<Real> Quat<Real>::operator / (const Quat &q) const
 {
-	//invert q; r = q^(-1), assumes q is normalized
-	Quat r = Quat(-q.x, -q.y, -q.z, q.w);
-	Real s = Real(1) / (r.w * r.w - r.x * r.x - r.y * r.y - r.z * r.z);
-	Quat p = *this * q;
+	//p = (*this) * q^(-1), q need not be normalized
+	Real s = Real(1) / (q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
+	Quat p = *this * q.inverse();
 	p.x *= s;
 	p.y *= s;
 	p.z *= s;
-- 
2.43.0


From 6193532984e07e6a228c287b2bbc8fe3b476d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 11/30] fix: Quat between opposite directions is a half turn,
 not the identity

---
 libs/mathlib/include/impl/quat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 607d760..df57331 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -154,10 +154,13 @@ Quat<Real>& Quat<Real>::set(const Vec3<Real>& from2, const Vec3<Real>& to2)
 	}
 	if (cost < Real(-0.99999))
 	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(-1);
+		// opposite directions: half a turn about any axis perpendicular to them
+		Vec3<Real> t = from % (from.x * from.x < Real(0.5) ? Vec3<Real>(1, 0, 0) : Vec3<Real>(0, 1, 0));
+		t.normalize();
+		x = t.x;
+		y = t.y;
+		z = t.z;
+		w = Real(0);
 		return *this;
 	}
 
-- 
2.43.0


From 629eb635385a6bea12de4995ab5f51131f138502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 12/30] fix: Quat::set(from, via, to) compiles

---
 libs/mathlib/include/impl/quat.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index df57331..6808691 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -286,11 +286,13 @@ Quat<Real>& Quat<Real>::set(const Quat& from, const Quat& via, const Quat& to)
 	qni.z = -via.z;
 	qni.w = via.w;
 
-	Quat tmp = log(qni * from) + log(qni * to);
-	tmp.x *= -0.25f;
-	tmp.y *= -0.25f;
-	tmp.z *= -0.25f;
-	tmp.w *= -0.25f;
+	Quat a = log(qni * from);
+	Quat b = log(qni * to);
+	Quat tmp;
+	tmp.x = (a.x + b.x) * Real(-0.25);
+	tmp.y = (a.y + b.y) * Real(-0.25);
+	tmp.z = (a.z + b.z) * Real(-0.25);
+	tmp.w = (a.w + b.w) * Real(-0.25);
 
 	return set(via * exp(tmp));
 }
-- 
2.43.0


From 482a95e2b84f783b284c27181c5b917b56f632b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 13/30] fix: Quat::slerpMaxAngle starts at from and takes the
 short way

---
 libs/mathlib/include/impl/quat.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 6808691..ac57d09 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -231,12 +231,18 @@ Quat<Real>& Quat<Real>::slerpMaxAngle(const Quat& from, const Quat& to, Real max
 	assert(maxAngle >= Real(0));
 
 	Quat fromto = from.inverse() * to;
+	if (fromto.w < Real(0))
+		fromto = -fromto;
 
 	Vec3<Real> axis;
 	Real angle;
 	fromto.toAxisAngle(axis, angle);
 
-	return set(axis, min(angle, maxAngle));
+	Quat start = from;
+	Quat step;
+	step.set(axis, min(angle, maxAngle));
+
+	return set(start * step);
 }
 
 template <class Real>
-- 
2.43.0


From 96be19e8a056c6be2fc93b7f4fbde9d745061c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 14/30] fix: Vec3 slerp handles directions more than a right
 angle apart

---
 libs/mathlib/include/impl/vec3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index d29fc18..b11c7d4 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -135,7 +135,7 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		}
 		else
 		{
-			Real angle = asin(sinAngle);
+			Real angle = atan2(sinAngle, (u * v) / (lengthU * lengthV));
 
 			Quat<Real> q;
 			q.set(n, angle * ratio);
@@ -172,11 +172,11 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
 		Real sinAngle = n * n.normalized();
 
-		Real angle = asin(sinAngle);
-
-		if (angle == Real(0))
+		if (sinAngle == Real(0))
 			return set(v);
 
+		Real angle = atan2(sinAngle, (u * v) / (lengthU * lengthV));
+
 		Real actualAngle = (angle >= Real(0))
 			? ((angle > maxAngle) ? maxAngle : angle)
 			: ((angle < -maxAngle) ? -maxAngle : angle);
-- 
2.43.0


From 933b10f209c778e4b136005bb5ed9924c113b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:59 +0000
Subject: [PATCH 15/30] fix: AABB hits checks the exit of every slab and lets
 slabs be entered early

---
 libs/mathlib/include/impl/aabb2.h | 33 +++++++++++++-----------
 libs/mathlib/include/impl/aabb3.h | 43 ++++++++++++++++---------------
 2 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index d6f290d..dbcf6be 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -384,7 +384,8 @@ bool AABB2<Real>::contains(const AABB2<Real>& box) const
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
 {
-    t = Real(0);
+    t = std::numeric_limits<Real>::lowest();
+    Real exit = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -401,10 +402,9 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
     if (ray.direction.y == Real(0))
@@ -422,19 +422,23 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
+    // The box must be entered from outside
+    if (t < Real(0) || t > exit)
+        return false;
+
     return true;
 }
 
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
 {
-    t = Real(0);
+    t = std::numeric_limits<Real>::lowest();
+    Real exit = std::numeric_limits<Real>::max();
 
     Vec2<Real> delta = line.end - line.start;
 
@@ -453,10 +457,9 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
     if (delta.y == Real(0))
@@ -474,13 +477,13 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
-    if (t > Real(1))
+    // The box must be entered from outside, within the line
+    if (t < Real(0) || t > Real(1) || t > exit)
         return false;
     
     return true;
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 8670fb4..fe3f3ff 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -405,7 +405,8 @@ bool AABB3<Real>::contains(const AABB3<Real>& box) const
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
 {
-    t = Real(0);
+    t = std::numeric_limits<Real>::lowest();
+    Real exit = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -422,10 +423,9 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
     if (ray.direction.y == Real(0))
@@ -443,10 +443,9 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
     if (ray.direction.z == Real(0))
@@ -464,19 +463,23 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
+    // The box must be entered from outside
+    if (t < Real(0) || t > exit)
+        return false;
+
     return true;
 }
 
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
 {
-    t = Real(0);
+    t = std::numeric_limits<Real>::lowest();
+    Real exit = std::numeric_limits<Real>::max();
 
     Vec3<Real> delta = line.end - line.start;
 
@@ -495,10 +498,9 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
     if (delta.y == Real(0))
@@ -516,10 +518,9 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
     if (delta.z == Real(0))
@@ -537,13 +538,13 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, exit]
         t = std::max(t, tinf);
+        exit = std::min(exit, tsup);
     }
 
-    if (t > Real(1))
+    // The box must be entered from outside, within the line
+    if (t < Real(0) || t > Real(1) || t > exit)
         return false;
     
     return true;
-- 
2.43.0


From 4349d5ef3b3965c20519620d33ec96cb10ec2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 16/30] fix: Line3::distance of a point on the line is zero

---
 libs/mathlib/include/impl/line3.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/line3.h b/libs/mathlib/include/impl/line3.h
index 4c5f560..c2e06c8 100644
--- a/libs/mathlib/include/impl/line3.h
+++ b/libs/mathlib/include/impl/line3.h
@@ -64,12 +64,10 @@ template <class Real>
 Real Line3<Real>::distance(const Vec3<Real>& point) const
 {
 	Vec3<Real> d = end - start;
-	Vec3<Real> northo = (point - start) % d;
-	Vec3<Real> n = d % northo;
-	Real l = n.normalize();
+	Real l = d.normalize();
 	return (l == Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: ((point - start) % d).length();
 }
 
 template <class Real>
-- 
2.43.0


From e31901368acbbbbdf3833f805140512f583c8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 17/30] fix: Ray distance is measured to the half-line

---
 libs/mathlib/include/impl/ray2.h | 5 ++++-
 libs/mathlib/include/impl/ray3.h | 8 +++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/mathlib/include/impl/ray2.h b/libs/mathlib/include/impl/ray2.h
index e727d67..561794b 100644
--- a/libs/mathlib/include/impl/ray2.h
+++ b/libs/mathlib/include/impl/ray2.h
@@ -45,7 +45,10 @@ Vec2<Real> Ray2<Real>::pointAt(Real dist) const
 template <class Real>
 Real Ray2<Real>::distance(const Vec2<Real> &point) const
 {
-	return MATHLIB_NS::abs(-direction.y * (point.x - start.x) + direction.x * (point.y - start.y));
+	Vec2<Real> d = point - start;
+	return (d * direction <= Real(0))
+		? MATHLIB_NS::distance(start, point)
+		: MATHLIB_NS::abs(-direction.y * d.x + direction.x * d.y);
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/ray3.h b/libs/mathlib/include/impl/ray3.h
index 6361383..b9f562f 100644
--- a/libs/mathlib/include/impl/ray3.h
+++ b/libs/mathlib/include/impl/ray3.h
@@ -45,12 +45,10 @@ Vec3<Real> Ray3<Real>::pointAt(Real dist) const
 template <class Real>
 Real Ray3<Real>::distance(const Vec3<Real>& point) const
 {
-	Vec3<Real> northo = (point - start) % direction;
-	Vec3<Real> n = direction % northo;
-	Real l = n.normalize();
-	return (l == Real(0))
+	Vec3<Real> d = point - start;
+	return (d * direction <= Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: (d % direction).length();
 }
 
 template <class Real>
-- 
2.43.0


From 1f31acaf38dc23170bc01a4f0c3966e05eefc6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 18/30] fix: Plane::project along a direction takes the
 distance of the plane into account

---
 libs/mathlib/include/impl/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 753c692..68d8a92 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -214,7 +214,7 @@ bool Plane<Real>::project(Vec3<Real>& projection, const Vec3<Real>& point, const
 	if (f == Real(0))
 		return false;
 
-	projection = point - direction * ((point * normal) / f);
+	projection = point - direction * (distance(point) / f);
 
 	return true;
 }
-- 
2.43.0


From 2cf547c7701f83b76d67d630d26f8eca5c806a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:46 +0000
Subject: [PATCH 19/30] fix: Frustum queries keep the precision of the distance

---
 libs/mathlib/include/impl/frustum.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 4504c6a..0b11338 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -85,7 +85,7 @@ bool Frustum<Real>::contains(const Vec3<Real>& point) const
 {
 	for (int i = 0; i < 6; i++)
     {
-		float distance = planes[i].distance(point);
+		Real distance = planes[i].distance(point);
 
         if (distance > 0.0f)
         {
@@ -107,7 +107,7 @@ bool Frustum<Real>::contains(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > -sphere.radius)
         {
@@ -123,7 +123,7 @@ bool Frustum<Real>::intersects(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > sphere.radius)
         {
-- 
2.43.0


From 30615978efcecd2827a95bfc78946f55423b7be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 20/30] fix: fmodPositive of a tiny negative number stays below
 the modulus

---
 libs/mathlib/include/functions.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 91baa75..22f377a 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -124,7 +124,17 @@ Real fmodPositive(Real x, Real y)
 {
 	assert(y > Real(0));
 	Real r = ::fmod(x, y);
-	return (r >= Real(0)) ? r : y + r;
+	if (r < Real(0))
+	{
+		r += y;
+
+		// A tiny negative remainder rounds up to y itself
+		if (r >= y)
+		{
+			r = Real(0);
+		}
+	}
+	return r;
 }
 
 template <class Real>
-- 
2.43.0


From 27bc28ec2f6df7bc7241244f111b73925fc8e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 21/30] fix: closedBezierSpline of two points

---
 libs/mathlib/include/impl/spline3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 77f11ed..4a7dbc8 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -620,8 +620,9 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 		a[i*n+i+1]	= Real(1);
 	}
 
-	a[0]       = Real(4);	a[1]           = Real(1);	a[n-1]         = Real(1);
-	a[(n-1)*n] = Real(1);	a[(n-1)*n+n-2] = Real(1);	a[(n-1)*n+n-1] = Real(4);
+	// With two points both neighbours are the same point, and its coefficients add up.
+	a[0]       = Real(4);	a[1]           += Real(1);	a[n-1]         += Real(1);
+	a[(n-1)*n] += Real(1);	a[(n-1)*n+n-2] += Real(1);	a[(n-1)*n+n-1] = Real(4);
 
 	for (i = 0; i < n-1; i++)
 	{
-- 
2.43.0


From 77de35738921ab3a8f29eabc31bbfd46e8386b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 22/30] fix: GaussJordan compares pivots in the precision of
 the matrix

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f532b34..0f9a574 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -155,9 +155,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 				{
 					if (ipiv[k] == -1)
 					{
-						if (fabsf(a[j*n+k]) >= big)
+						if (std::fabs(a[j*n+k]) >= big)
 						{
-							big = fabsf(a[j*n+k]);
+							big = std::fabs(a[j*n+k]);
 							irow = j;
 							icol = k;
 						}
-- 
2.43.0


From ec8364aca6cb96b1dd30c49ca8d3032dfa6374b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 23/30] fix: solveCyclic reports a singular cyclic matrix

---
 libs/mathlib/include/impl/linearequations.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 0f9a574..d0a5155 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -103,11 +103,18 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		if (result)
 		{
 			// Form v · x / (1 + v · z).
-			Real fact = (x[0] + beta * x[n-1] / gamma) / (Real(1) + z[0] + beta * z[n-1] / gamma);
+			Real den = Real(1) + z[0] + beta * z[n-1] / gamma;
+			if (den == Real(0))
+			{
+				result = false; // The cyclic matrix is singular.
+			}
+			else
+			{
+				Real fact = (x[0] + beta * x[n-1] / gamma) / den;
 
-			// Now get the solution vector x
-			for (int i = 0; i < n; i++)
-				x[i] -= fact * z[i];
+				for (int i = 0; i < n; i++)
+					x[i] -= fact * z[i];
+			}
 		}
 	}
 	
-- 
2.43.0


From d0d0847042b2ed894cf6115ff61e7413b696b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 24/30] fix: GaussJordan leaves the inverse of the matrix

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index d0a5155..f95860e 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -209,9 +209,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 
 		// Normalize row
 		pivinv = Real(1) / a[icol*n+icol];
+		a[icol*n+icol] = Real(1);
 		for (l = 0; l < n; l++)
 			a[icol*n+l] *= pivinv;
-		a[icol*n+icol] = Real(1);
 		for (l = 0; l < m; l++)
 			b[icol*m+l] *= pivinv;
 
@@ -222,9 +222,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			{
 				// ...except for the pivot one, of course.
 				dum = a[ll*n+icol];
+				a[ll*n+icol] = Real(0);
 				for (l = 0; l < n; l++)
 					a[ll*n+l] -= a[icol*n+l]*dum;
-				a[ll*n+icol] = Real(0);
 				for (l = 0; l < m; l++)
 					b[ll*m+l] -= b[icol*m+l]*dum;
 			}
-- 
2.43.0


From c576fe372eace8869d33b26330ab368101ca84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 25/30] fix: Mat2 and Mat3 products with the matrix itself

---
 libs/mathlib/include/impl/mat2.h |  5 +++++
 libs/mathlib/include/impl/mat3.h | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index a6ea5c5..b57f33b 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -94,6 +94,11 @@ Mat2<Real>& Mat2<Real>::operator*=(Real k)
 template <class Real>
 Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 {
+	if (&m == this)
+	{
+		const Mat2 copy(m);
+		return *this *= copy;
+	}
 	if (m.isIdentity())
 		return *this;
 	if (isIdentity())
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index b9030b9..dac59af 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -322,6 +322,11 @@ Mat3<Real>& Mat3<Real>::operator*=(Real k)
 template <class Real>
 Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 {
+	if (&m == this)
+	{
+		const Mat3 copy(m);
+		return *this *= copy;
+	}
 	if (m.isIdentity())
 		return *this;
 	if (isIdentity())
@@ -432,6 +437,11 @@ Mat3<Real>& Mat3<Real>::scale(const Vec3<Real>& coefficients)
 template <class Real>
 Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 {
+	if (&m == this)
+	{
+		const Mat3 copy(m);
+		return rotate(copy);
+	}
 	if (m.isIdentity())
 		return *this;
 
@@ -529,6 +539,11 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 template <class Real>
 Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 {
+	if (&m == this)
+	{
+		const Mat3 copy(m);
+		return rotatePre(copy);
+	}
 	if (m.isIdentity())
 		return *this;
 
-- 
2.43.0


From aa41e5f9d86578e037409fe30ea8e26ec9838aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 26/30] fix: matrix transforms of a vector into itself

---
 libs/mathlib/include/impl/mat2.h  |  5 +++--
 libs/mathlib/include/impl/mat3.h  |  7 ++++---
 libs/mathlib/include/impl/mat34.h |  7 ++++---
 libs/mathlib/include/impl/mat4.h  | 32 +++++++++++++++++--------------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index b57f33b..0f1bfb1 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -501,8 +501,9 @@ Mat2<CastReturnType> Mat2<Real>::cast() const
 template <class Real>
 void Mat2<Real>::transform(Vec2<Real>& dest, const Vec2<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x;
-	dest.y = src.x * x.y + src.y * y.y;
+	const Vec2<Real> v(src); // dest may be src.
+	dest.x = v.x * x.x + v.y * y.x;
+	dest.y = v.x * x.y + v.y * y.y;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index dac59af..dac3a94 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -1061,9 +1061,10 @@ Mat3<CastReturnType> Mat3<Real>::cast() const
 template <class Real>
 void Mat3<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> v(src); // dest may be src.
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index b7f1428..d99018c 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -556,9 +556,10 @@ Mat34<CastReturnType> Mat34<Real>::cast() const
 template <class Real>
 void Mat34<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
-	dest.y = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
-	dest.z = src.x * rs.x.z + src.y * rs.y.z + src.z * rs.z.z + t.z;
+	const Vec3<Real> v(src); // dest may be src.
+	dest.x = v.x * rs.x.x + v.y * rs.y.x + v.z * rs.z.x + t.x;
+	dest.y = v.x * rs.x.y + v.y * rs.y.y + v.z * rs.z.y + t.y;
+	dest.z = v.x * rs.x.z + v.y * rs.y.z + v.z * rs.z.z + t.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index c2771b1..4006f91 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1153,9 +1153,10 @@ Mat4<CastReturnType> Mat4<Real>::cast() const
 template <class Real>
 void Mat4<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + t.z;
+	const Vec3<Real> v(src); // dest may be src.
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x + t.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y + t.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z + t.z;
 }
 
 template <class Real>
@@ -1184,10 +1185,11 @@ void Mat4<Real>::transform(Vec3<Real>* dest, const Vec3<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transform(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w + src.w * t.w;
+	const Vec4<Real> v(src); // dest may be src.
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x + v.w * t.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y + v.w * t.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z + v.w * t.z;
+	dest.w = v.x * x.w + v.y * y.w + v.z * z.w + v.w * t.w;
 }
 
 template <class Real>
@@ -1216,9 +1218,10 @@ void Mat4<Real>::transform(Vec4<Real>* dest, const Vec4<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transformVector(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> v(src); // dest may be src.
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
 }
 
 template <class Real>
@@ -1247,10 +1250,11 @@ void Mat4<Real>::transformVector(Vec3<Real>* dest, const Vec3<Real>* src, size_t
 template <class Real>
 void Mat4<Real>::transformVector(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w;
+	const Vec4<Real> v(src); // dest may be src.
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
+	dest.w = v.x * x.w + v.y * y.w + v.z * z.w;
 }
 
 template <class Real>
-- 
2.43.0


From ecb3a0af2709b612cece63b05660938e4f1a0f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 27/30] fix: BezierSegmentFwdDiff3f and BezierSegmentFwdDiff3d
 name the existing class

---
 libs/mathlib/include/common.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/common.h b/libs/mathlib/include/common.h
index b63626b..8b46987 100644
--- a/libs/mathlib/include/common.h
+++ b/libs/mathlib/include/common.h
@@ -80,7 +80,7 @@ template <class Real> class Circle;
 template <class Real> class Sphere;
 template <class Real> class HermiteSplineSegment3;
 template <class Real> class BezierSegment3;
-template <class Real> class BezierSegmentFwdDiff3;
+template <class Real> class BezierSegment3FwdDiff;
 template <class Real> class SplineSolver3;
 template <class Real> class Frustum;
 
@@ -112,7 +112,7 @@ typedef Circle<float> Circlef;
 typedef Sphere<float> Spheref;
 typedef HermiteSplineSegment3<float> HermiteSplineSegment3f;
 typedef BezierSegment3<float> BezierSegment3f;
-typedef BezierSegmentFwdDiff3<float> BezierSegmentFwdDiff3f;
+typedef BezierSegment3FwdDiff<float> BezierSegmentFwdDiff3f;
 typedef SplineSolver3<float> SplineSolver3f;
 typedef Frustum<float> Frustumf;
 
@@ -144,7 +144,7 @@ typedef Circle<double> Circled;
 typedef Sphere<double> Sphered;
 typedef HermiteSplineSegment3<double> HermiteSplineSegment3d;
 typedef BezierSegment3<double> BezierSegment3d;
-typedef BezierSegmentFwdDiff3<double> BezierSegmentFwdDiff3d;
+typedef BezierSegment3FwdDiff<double> BezierSegmentFwdDiff3d;
 typedef SplineSolver3<double> SplineSolver3d;
 typedef Frustum<double> Frustumd;
 
-- 
2.43.0


From d61814811741f3fe99b8371f1766a546a495322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 28/30] fix: Mat4 from a Mat3 and a translation is defined

---
 libs/mathlib/include/impl/mat4.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 4006f91..25273ed 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -40,6 +40,13 @@ Mat4<Real>::Mat4(Real k)
 	}
 }
 
+template <class Real>
+Mat4<Real>::Mat4(const Mat3<Real>& m, const Vec3<Real>& t)
+	: flags(Flags::Uninitialized)
+{
+	set(m, t);
+}
+
 template <class Real>
 Mat4<Real>::Mat4(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z, const Vec3<Real>& t)
 	: flags(Flags::Uninitialized)
@@ -81,6 +88,12 @@ Mat4<Real>& Mat4<Real>::set(const Mat4<Real>& m)
 	return *this;
 }
 
+template <class Real>
+Mat4<Real>& Mat4<Real>::set(const Mat3<Real>& rs, const Vec3<Real>& t)
+{
+	return set(rs.x, rs.y, rs.z, t);
+}
+
 template <class Real>
 Mat4<Real>& Mat4<Real>::set(const Quat<Real>& q, const Vec3<Real>& t)
 {
-- 
2.43.0


From 7d7179377cae2ef840dea9d0ee29de68ba43d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 29/30] fix: randAmplitude(from, to) of reals never returned a
 negative value

---
 libs/mathlib/include/functions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 22f377a..91796f1 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -106,10 +106,8 @@ Real randAmplitude(Real f)
 template <class Real>
 Real randAmplitude(Real from, Real to)
 {
-	int r = ::rand();
-	return (r >= 0)
-		? (from + Real(r) * (to - from) / Real(RAND_MAX))
-		: -(from + Real(r) * (to - from) / Real(RAND_MAX));
+	Real r = randAmplitude<Real>(to - from);
+	return (r >= Real(0)) ? from + r : -from + r;
 }
 
 template <class Real>
-- 
2.43.0


From b6db76c2fd72864f66343563ea83c0ab52716acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 30/30] fix: random unit vectors only pointed into the positive
 quadrant or octant

---
 libs/mathlib/include/impl/vec2.h | 4 ++--
 libs/mathlib/include/impl/vec3.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/vec2.h b/libs/mathlib/include/impl/vec2.h
index 82dac3b..a88659f 100644
--- a/libs/mathlib/include/impl/vec2.h
+++ b/libs/mathlib/include/impl/vec2.h
@@ -531,8 +531,8 @@ Vec2<Real> Vec2<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
 
 		l = n.normalize();
 
diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index b11c7d4..1e4e908 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -762,9 +762,9 @@ Vec3<Real> Vec3<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
-		n.z = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
+		n.z = randAmplitude(Real(1));
 
 		l = n.normalize();
 
-- 
2.43.0

