From a3b04090c5a907ac82208ed323cff1e63a80761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:19 +0000
Subject: [PATCH 01/53] fix: keep component constructor of Vec within its
 dimensions

Vec2(x, y) stored the third component past the end of its array.
---
 src/tinymesh/core/vec.h | 796 ++++++++++++++++++++--------------------
 1 file changed, 398 insertions(+), 398 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 76ae2e9..0f57a2b 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -1,398 +1,398 @@
-#ifdef _MSC_VER
-#pragma once
-#endif
-
-#ifndef TINYMESH_VEC_H
-#define TINYMESH_VEC_H
-
-#include <array>
-#include <algorithm>
-#include <functional>
-#include <type_traits>
-
-#include <Eigen/Core>
-
-template <typename Float, int Dims>
-class Vec {
-    static_assert(std::is_floating_point<Float>::value, "Vector base type must be floating point number!");
-    static_assert(Dims > 1, "Vector dimension must be more than 1!");
-
-    using EigenVectorType = Eigen::Matrix<Float, Dims, 1>;
-
-public:
-    Vec() {
-        std::fill(elems.begin(), elems.end(), Float(0.0));
-    }
-
-    explicit Vec(Float x) {
-        std::fill(elems.begin(), elems.end(), x);
-    }
-
-    explicit Vec(Float x, Float y, Float z = 0.0, Float w = 0.0) {
-        std::fill(elems.begin(), elems.end(), w);
-
-        elems[0] = x;
-        if (Dims >= 1) elems[1] = y;
-        if (Dims >= 2) elems[2] = z;
-    }
-
-    explicit Vec(const Vec &other) {
-        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
-    }
-
-    Vec &operator=(const Vec other) {
-        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
-        return *this;
-    }
-
-    Vec(const EigenVectorType &v) {
-        for (int d = 0; d < Dims; d++) {
-            elems[d] = v(d);
-        }
-    }
-
-    Vec &operator=(const EigenVectorType &v) {
-        for (int d = 0; d < Dims; d++) {
-            elems[d] = v(d);
-        }
-        return *this;
-    }
-
-    operator EigenVectorType() const {
-        EigenVectorType v;
-        for (int d = 0; d < Dims; d++) {
-            v(d) = elems[d];
-        }
-        return v;
-    }
-
-    bool operator==(const Vec &other) const {
-        if (elems.size() != other.elems.size()) {
-            return false;
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            if (elems[i] != other.elems[i]) {
-                return false;
-            }
-        }
-
-        return true;
-    }
-
-    bool operator!=(const Vec &other) const {
-        return !this->operator==(other);
-    }
-
-    Vec &operator+=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (size_t i = 0; i < Dims; i++) {
-            elems[i] += other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec operator-() const {
-        Vec<Float, Dims> ret;
-        for (size_t i = 0; i < elems.size(); i++) {
-            ret.elems[i] = -elems[i];
-        }
-        return ret;
-    }
-
-    Vec &operator-=(const Vec &other) {
-        return this->operator+=(-other);
-    }
-
-    Vec &operator*=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            elems[i] *= other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec &operator*=(Float s) {
-        for (int i = 0; i < Dims; i++) {
-            elems[i] *= s;
-        }
-
-        return *this;
-    }
-
-    Vec &operator/=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            if (other.elems[i] == 0.0) {
-                throw std::runtime_error("Zero division!");
-            }
-            elems[i] /= other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec &operator/=(double s) {
-        if (s == 0.0) {
-            throw std::runtime_error("Zero division");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            elems[i] /= s;
-        }
-
-        return *this;
-    }
-
-    Float &operator[](int i) {
-        return elems[i];
-    }
-
-    Float operator[](int i) const {
-        return elems[i];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 1, Dummy>::type x() const {
-        return elems[0];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 2, Dummy>::type y() const {
-        return elems[1];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 3, Dummy>::type z() const {
-        return elems[2];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 4, Dummy>::type w() const {
-        return elems[3];
-    }
-
-private:
-    std::array<Float, Dims> elems;
-};
-
-// Type definition
-using Vec2 = Vec<double, 2>;
-using Vec3 = Vec<double, 3>;
-
-// standard output
-template <typename Float, int Dims>
-std::ostream &operator<<(std::ostream &os, const Vec<Float, Dims> &v) {
-    os << "[ ";
-    for (int d = 0; d < Dims; d++) {
-        os << v[d];
-        if (d != Dims - 1) os << ", ";
-    }
-    os << " ]";
-    return os;
-}
-
-// Basic arithmetics
-template <typename Float, int Dims>
-Vec<Float, Dims> operator+(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret += v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret -= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret *= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator/(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret /= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator/(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret /= s;
-    return ret;
-}
-
-template <typename Float, int Rows, int Cols>
-Vec<Float, Rows> operator*(const Eigen::Matrix<Float, Rows, Cols> &m, const Vec<Float, Cols> &v) {
-    return Vec<Float, Rows>(m * Eigen::Matrix<Float, Cols, 1>(v));
-}
-
-// GLSL like vector arithmetics
-template <typename Float, int Dims>
-Float dot(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    Float ret = 0.0;
-    for (int i = 0; i < Dims; i++) {
-        ret += v1[i] * v2[i];
-    }
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> cross(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2,
-                       typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float x = v1[1] * v2[2] - v1[2] * v2[1];
-    const Float y = v1[2] * v2[0] - v1[0] * v2[2];
-    const Float z = v1[0] * v2[1] - v1[1] * v2[0];
-    return Vec<Float, Dims>{ x, y, z };
-}
-
-template <typename Float, int Dims>
-Float length(const Vec<Float, Dims> &v) {
-    return std::sqrt(dot(v, v));
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> normalize(const Vec<Float, Dims> &v) {
-    return v / length(v);
-}
-
-// Arithmetics for 3D vectors
-
-//! Angle a-b-c in radian (smaller side)
-template <typename Float, int Dims>
-double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-             typename std::enable_if<Dims == 3>::type * = 0) {
-    const Vec3 e0 = a - b;
-    const Vec3 e1 = c - b;
-    return std::atan2(length(cross(e0, e1)), dot(e0, e1));
-}
-
-//! check if the triangle is obtuse
-template <typename Float, int Dims>
-bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-            typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float l0 = length(b - a);
-    const Float l1 = length(c - b);
-    const Float l2 = length(a - c);
-    std::array<Float, 3> ls = { l0, l1, l2 };
-    std::sort(ls.begin(), ls.end(), std::less<Float>());
-    return ls[0] * ls[0] + ls[1] * ls[1] < ls[2] * ls[2];
-}
-
-//! cotangent for angle a-b-c
-template <typename Float, int Dims>
-Float cot(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-          typename std::enable_if<Dims == 3>::type * = 0) {
-    const Vec3 e0 = a - b;
-    const Vec3 e1 = c - b;
-    return dot(e0, e1) / (length(cross(e0, e1)) + (Float)1.0e-20);
-}
-
-template <typename Float, int Dims>
-Float dihedral(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2, const Vec<Float, Dims> &v3,
-               const Vec<Float, Dims> &v1rev, typename std::enable_if<Dims == 3>::type * = 0) {
-    using V = Vec<Float, Dims>;
-    const V e12 = v2 - v1;
-    const V e13 = v3 - v1;
-    const V n1 = cross(e12, e13);
-    const Float l1 = length(n1);
-    const V e42 = v2 - v1rev;
-    const V e43 = v3 - v1rev;
-    const V n4 = cross(e42, e43);
-    const Float l4 = length(n4);
-    if (l1 == 0.0 || l4 == 0.0) {
-        return 0.0;
-    }
-
-    const double cosTheta = dot(n1, n4) / (l1 * l4);
-    return std::acos(std::max(-1.0, std::min(cosTheta, 1.0)));
-}
-
-namespace std {
-
-// Hash
-template <typename Float, int Dims>
-struct hash<Vec<Float, Dims>> {
-    std::size_t operator()(const Vec<Float, Dims> &v) const {
-        std::size_t h = 0;
-        for (int i = 0; i < Dims; i++) {
-            h = std::hash<Float>()(v[i]) ^ (h << 1);
-        }
-        return h;
-    }
-};
-
-template <typename Float, int Dims>
-Vec<Float, Dims> abs(const Vec<Float, Dims> &v) {
-    Vec<Float, Dims> ret;
-    for (int d = 0; d < Dims; d++) {
-        ret[d] = std::abs(v[d]);
-    }
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> min(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
-    Vec<Float, Dims> v;
-    for (int d = 0; d < Dims; d++) {
-        v[d] = std::min(v0[d], v1[d]);
-    }
-    return v;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> max(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
-    Vec<Float, Dims> v;
-    for (int d = 0; d < Dims; d++) {
-        v[d] = std::max(v0[d], v1[d]);
-    }
-    return v;
-}
-
-}  // namespace std
-
-#endif  // TINYMESH_VEC_H
+#ifdef _MSC_VER
+#pragma once
+#endif
+
+#ifndef TINYMESH_VEC_H
+#define TINYMESH_VEC_H
+
+#include <array>
+#include <algorithm>
+#include <functional>
+#include <type_traits>
+
+#include <Eigen/Core>
+
+template <typename Float, int Dims>
+class Vec {
+    static_assert(std::is_floating_point<Float>::value, "Vector base type must be floating point number!");
+    static_assert(Dims > 1, "Vector dimension must be more than 1!");
+
+    using EigenVectorType = Eigen::Matrix<Float, Dims, 1>;
+
+public:
+    Vec() {
+        std::fill(elems.begin(), elems.end(), Float(0.0));
+    }
+
+    explicit Vec(Float x) {
+        std::fill(elems.begin(), elems.end(), x);
+    }
+
+    explicit Vec(Float x, Float y, Float z = 0.0, Float w = 0.0) {
+        std::fill(elems.begin(), elems.end(), w);
+
+        elems[0] = x;
+        if (Dims >= 2) elems[1] = y;
+        if (Dims >= 3) elems[2] = z;
+    }
+
+    explicit Vec(const Vec &other) {
+        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
+    }
+
+    Vec &operator=(const Vec other) {
+        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
+        return *this;
+    }
+
+    Vec(const EigenVectorType &v) {
+        for (int d = 0; d < Dims; d++) {
+            elems[d] = v(d);
+        }
+    }
+
+    Vec &operator=(const EigenVectorType &v) {
+        for (int d = 0; d < Dims; d++) {
+            elems[d] = v(d);
+        }
+        return *this;
+    }
+
+    operator EigenVectorType() const {
+        EigenVectorType v;
+        for (int d = 0; d < Dims; d++) {
+            v(d) = elems[d];
+        }
+        return v;
+    }
+
+    bool operator==(const Vec &other) const {
+        if (elems.size() != other.elems.size()) {
+            return false;
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            if (elems[i] != other.elems[i]) {
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    bool operator!=(const Vec &other) const {
+        return !this->operator==(other);
+    }
+
+    Vec &operator+=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (size_t i = 0; i < Dims; i++) {
+            elems[i] += other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec operator-() const {
+        Vec<Float, Dims> ret;
+        for (size_t i = 0; i < elems.size(); i++) {
+            ret.elems[i] = -elems[i];
+        }
+        return ret;
+    }
+
+    Vec &operator-=(const Vec &other) {
+        return this->operator+=(-other);
+    }
+
+    Vec &operator*=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            elems[i] *= other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec &operator*=(Float s) {
+        for (int i = 0; i < Dims; i++) {
+            elems[i] *= s;
+        }
+
+        return *this;
+    }
+
+    Vec &operator/=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            if (other.elems[i] == 0.0) {
+                throw std::runtime_error("Zero division!");
+            }
+            elems[i] /= other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec &operator/=(double s) {
+        if (s == 0.0) {
+            throw std::runtime_error("Zero division");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            elems[i] /= s;
+        }
+
+        return *this;
+    }
+
+    Float &operator[](int i) {
+        return elems[i];
+    }
+
+    Float operator[](int i) const {
+        return elems[i];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 1, Dummy>::type x() const {
+        return elems[0];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 2, Dummy>::type y() const {
+        return elems[1];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 3, Dummy>::type z() const {
+        return elems[2];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 4, Dummy>::type w() const {
+        return elems[3];
+    }
+
+private:
+    std::array<Float, Dims> elems;
+};
+
+// Type definition
+using Vec2 = Vec<double, 2>;
+using Vec3 = Vec<double, 3>;
+
+// standard output
+template <typename Float, int Dims>
+std::ostream &operator<<(std::ostream &os, const Vec<Float, Dims> &v) {
+    os << "[ ";
+    for (int d = 0; d < Dims; d++) {
+        os << v[d];
+        if (d != Dims - 1) os << ", ";
+    }
+    os << " ]";
+    return os;
+}
+
+// Basic arithmetics
+template <typename Float, int Dims>
+Vec<Float, Dims> operator+(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret += v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret -= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret *= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(Float s, const Vec<Float, Dims> &v) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator/(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret /= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator/(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret /= s;
+    return ret;
+}
+
+template <typename Float, int Rows, int Cols>
+Vec<Float, Rows> operator*(const Eigen::Matrix<Float, Rows, Cols> &m, const Vec<Float, Cols> &v) {
+    return Vec<Float, Rows>(m * Eigen::Matrix<Float, Cols, 1>(v));
+}
+
+// GLSL like vector arithmetics
+template <typename Float, int Dims>
+Float dot(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    Float ret = 0.0;
+    for (int i = 0; i < Dims; i++) {
+        ret += v1[i] * v2[i];
+    }
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> cross(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2,
+                       typename std::enable_if<Dims == 3>::type * = 0) {
+    const Float x = v1[1] * v2[2] - v1[2] * v2[1];
+    const Float y = v1[2] * v2[0] - v1[0] * v2[2];
+    const Float z = v1[0] * v2[1] - v1[1] * v2[0];
+    return Vec<Float, Dims>{ x, y, z };
+}
+
+template <typename Float, int Dims>
+Float length(const Vec<Float, Dims> &v) {
+    return std::sqrt(dot(v, v));
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> normalize(const Vec<Float, Dims> &v) {
+    return v / length(v);
+}
+
+// Arithmetics for 3D vectors
+
+//! Angle a-b-c in radian (smaller side)
+template <typename Float, int Dims>
+double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+             typename std::enable_if<Dims == 3>::type * = 0) {
+    const Vec3 e0 = a - b;
+    const Vec3 e1 = c - b;
+    return std::atan2(length(cross(e0, e1)), dot(e0, e1));
+}
+
+//! check if the triangle is obtuse
+template <typename Float, int Dims>
+bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+            typename std::enable_if<Dims == 3>::type * = 0) {
+    const Float l0 = length(b - a);
+    const Float l1 = length(c - b);
+    const Float l2 = length(a - c);
+    std::array<Float, 3> ls = { l0, l1, l2 };
+    std::sort(ls.begin(), ls.end(), std::less<Float>());
+    return ls[0] * ls[0] + ls[1] * ls[1] < ls[2] * ls[2];
+}
+
+//! cotangent for angle a-b-c
+template <typename Float, int Dims>
+Float cot(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+          typename std::enable_if<Dims == 3>::type * = 0) {
+    const Vec3 e0 = a - b;
+    const Vec3 e1 = c - b;
+    return dot(e0, e1) / (length(cross(e0, e1)) + (Float)1.0e-20);
+}
+
+template <typename Float, int Dims>
+Float dihedral(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2, const Vec<Float, Dims> &v3,
+               const Vec<Float, Dims> &v1rev, typename std::enable_if<Dims == 3>::type * = 0) {
+    using V = Vec<Float, Dims>;
+    const V e12 = v2 - v1;
+    const V e13 = v3 - v1;
+    const V n1 = cross(e12, e13);
+    const Float l1 = length(n1);
+    const V e42 = v2 - v1rev;
+    const V e43 = v3 - v1rev;
+    const V n4 = cross(e42, e43);
+    const Float l4 = length(n4);
+    if (l1 == 0.0 || l4 == 0.0) {
+        return 0.0;
+    }
+
+    const double cosTheta = dot(n1, n4) / (l1 * l4);
+    return std::acos(std::max(-1.0, std::min(cosTheta, 1.0)));
+}
+
+namespace std {
+
+// Hash
+template <typename Float, int Dims>
+struct hash<Vec<Float, Dims>> {
+    std::size_t operator()(const Vec<Float, Dims> &v) const {
+        std::size_t h = 0;
+        for (int i = 0; i < Dims; i++) {
+            h = std::hash<Float>()(v[i]) ^ (h << 1);
+        }
+        return h;
+    }
+};
+
+template <typename Float, int Dims>
+Vec<Float, Dims> abs(const Vec<Float, Dims> &v) {
+    Vec<Float, Dims> ret;
+    for (int d = 0; d < Dims; d++) {
+        ret[d] = std::abs(v[d]);
+    }
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> min(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
+    Vec<Float, Dims> v;
+    for (int d = 0; d < Dims; d++) {
+        v[d] = std::min(v0[d], v1[d]);
+    }
+    return v;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> max(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
+    Vec<Float, Dims> v;
+    for (int d = 0; d < Dims; d++) {
+        v[d] = std::max(v0[d], v1[d]);
+    }
+    return v;
+}
+
+}  // namespace std
+
+#endif  // TINYMESH_VEC_H
-- 
2.43.0


From d5bfcaf54672b9591b160b9b775ae1c4b93e67b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:19 +0000
Subject: [PATCH 02/53] fix: subtract instead of multiply in Vec/scalar
 operator-

Both v - s and s - v returned v * s.
---
 src/tinymesh/core/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 0f57a2b..7be7ade 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -221,14 +221,14 @@ Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
     auto ret = v;
-    ret *= s;
+    ret -= Vec<Float, Dims>(s);
     return ret;
 }
 
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
+    Vec<Float, Dims> ret(s);
+    ret -= v;
     return ret;
 }
 template <typename Float, int Dims>
-- 
2.43.0


From 9cbdd8c4a5a2c055e15b31fcc7e70a7e474f1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:19 +0000
Subject: [PATCH 03/53] fix: use second corner for its Voronoi test in
 Triangle::closestPoint

The vector to the third corner was used, so the returned point was not the
closest one for most queries outside the triangle.
---
 src/tinymesh/core/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/triangle.cpp b/src/tinymesh/core/triangle.cpp
index 77c46ca..134f60d 100644
--- a/src/tinymesh/core/triangle.cpp
+++ b/src/tinymesh/core/triangle.cpp
@@ -16,7 +16,7 @@ Vec3 Triangle::closestPoint(const Vec3 &p) const {
     const double d2 = dot(ac, ap);
     if (d1 <= 0.0 && d2 <= 0.0) return p0;  //#1
 
-    const Vec3 bp = p - p2;
+    const Vec3 bp = p - p1;
     const double d3 = dot(ab, bp);
     const double d4 = dot(ac, bp);
     if (d3 >= 0.0 && d4 <= d3) return p1;  //#2
-- 
2.43.0


From 328fee366dbea1045ad6439e66764c9b9964f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 04/53] fix: do not mistake an isolated triangle for a hole

Face::isHole() was derived from the boundary flags of the edges, which are set
on both sides of a boundary edge.  A triangle without neighbors was therefore
reported as a hole, and dropped when the mesh was exported, saved or cloned.
Mark the faces created for boundary loops explicitly instead.
---
 src/tinymesh/core/completion.cpp | 1 +
 src/tinymesh/core/face.cpp       | 8 +-------
 src/tinymesh/core/face.h         | 1 +
 src/tinymesh/core/mesh.cpp       | 1 +
 4 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 8219f3a..54b9785 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -253,6 +253,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
                 it->isBoundary_ = false;
                 it->rev_->isBoundary_ = false;
             }
+            face->isHole_ = false;
             break;
         }
 
diff --git a/src/tinymesh/core/face.cpp b/src/tinymesh/core/face.cpp
index c73ba45..9e4ef97 100644
--- a/src/tinymesh/core/face.cpp
+++ b/src/tinymesh/core/face.cpp
@@ -76,13 +76,7 @@ int Face::numCorners() const {
 }
 
 bool Face::isHole() const {
-    // Face is hole if all the vertices are at the boundary.
-    for (auto it = this->he_begin(); it != this->he_end(); ++it) {
-        if (!it->isBoundary()) {
-            return false;
-        }
-    }
-    return true;
+    return isHole_;
 }
 
 bool Face::isBoundary() const {
diff --git a/src/tinymesh/core/face.h b/src/tinymesh/core/face.h
index 0f4ef98..b8fe9a6 100644
--- a/src/tinymesh/core/face.h
+++ b/src/tinymesh/core/face.h
@@ -67,6 +67,7 @@ public:
 private:
     Halfedge *halfedge_ = nullptr;
     int index_ = -1;
+    bool isHole_ = false;
 
     friend class Mesh;
 };
diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index db11b9c..caef70c 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -304,6 +304,7 @@ void Mesh::construct() {
         Assertion(he.get() != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
+            face->isHole_ = true;
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-- 
2.43.0


From 009d69ef0c6e7cdda5ea9e9ea45a88a4910611bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 05/53] fix: clear boundary flags on both sides of a filled
 hole's edges

Only the hole side was cleared, so the vertices and faces around a filled hole
still reported to be at the boundary, and smoothing, remeshing and edge collapse
kept skipping them.
---
 src/tinymesh/core/completion.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 54b9785..1b8658a 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -65,9 +65,13 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
     new_he1->next_ = new_he2;
     new_he2->next_ = new_he0;
 
-    new_he0->isBoundary_ = false;
-    new_he1->isBoundary_ = false;
-    new_he2->isBoundary_ = false;
+    // Edges of a new triangle are no longer at the boundary, seen from both sides
+    for (Halfedge *he : { new_he0, new_he1, new_he2 }) {
+        he->isBoundary_ = false;
+        if (he->rev_) {
+            he->rev_->isBoundary_ = false;
+        }
+    }
 
     auto new_face = new Face();
     addFace(new_face);
-- 
2.43.0


From 57bdb9653a06c5e1b99b74015a9932a19c9b5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 06/53] fix: do not merge a front vertex into a locked one

The advancing front checked the lock of the same vertex twice, and could move a
locked vertex of the original hole boundary.
---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 1b8658a..b0b16a5 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -266,7 +266,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         for (int i = 0; i < N; i++) {
             const int prev = (i - 1 + N) % N;
             const int next = (i + 1) % N;
-            if (!face_vs[i]->isLocked() && !face_vs[i]->isLocked() &&
+            if (!face_vs[i]->isLocked() && !face_vs[next]->isLocked() &&
                 length(face_vs[i]->pos() - face_vs[next]->pos()) < 0.5 * avgEdgeLen) {
                 Halfedge *he = face_hes[i];
                 std::vector<Halfedge *> v_hes;
-- 
2.43.0


From bd7898bafcfdf5e0ae1ab9fe02442d770ec30b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 07/53] fix: forget old indices when a mesh is loaded or
 constructed again

Triangles of the previous contents were appended to the new ones.
---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index caef70c..b5f42a0 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -71,6 +71,7 @@ void Mesh::load(const std::string &filename) {
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     // Load new mesh
     const std::string ext = fs::path(filename.c_str()).extension().string();
@@ -90,6 +91,7 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
-- 
2.43.0


From 7065dbfb9730482d723bffda4ebe886e5ad82240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 08/53] fix: remove all degenerate triangles on construction

The triangle swapped into the place of a removed one was not examined, so a mesh
ending with degenerate triangles was rejected.
---
 src/tinymesh/core/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index b5f42a0..94dd0c9 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -185,7 +185,7 @@ double Mesh::getMeanFaceArea() const {
 }
 
 void Mesh::construct() {
-    for (size_t i = 0; i < indices_.size(); i += 3) {
+    for (size_t i = 0; i < indices_.size();) {
         if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2] ||
             indices_[i + 2] == indices_[i + 0]) {
             const int size = (int)indices_.size();
@@ -193,6 +193,8 @@ void Mesh::construct() {
             std::swap(indices_[i + 1], indices_[size - 2]);
             std::swap(indices_[i + 2], indices_[size - 1]);
             indices_.resize(size - 3);
+        } else {
+            i += 3;
         }
     }
 
-- 
2.43.0


From a817527255ef6bd920ef3a07fd397d3f405764f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 09/53] fix: detect unreferenced vertices before following
 their halfedges

Vertices used only by removed triangles made construction dereference a null
pointer ahead of the check that reports them.
---
 src/tinymesh/core/mesh.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 94dd0c9..387d84a 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -290,6 +290,10 @@ void Mesh::construct() {
 
     // For convenience, advance halfedge of each boundary vertex to one that is on the boundary
     for (auto v : vertices_) {
+        if (v->halfedge_ == nullptr) {
+            Error("Some vertices are not referenced by any polygon!");
+        }
+
         Halfedge *he = v->halfedge_;
         do {
             if (he->rev_ == nullptr) {
@@ -352,10 +356,6 @@ void Mesh::construct() {
 
     // Check if the mesh is non-manifold
     for (auto v : vertices_) {
-        if (v->halfedge_ == nullptr) {
-            Error("Some vertices are not referenced by any polygon!");
-        }
-
         uint32_t count = v->isBoundary() ? -1 : 0;
         Halfedge *he = v->halfedge_;
         do {
-- 
2.43.0


From 996425e34ad2f825de2d425e4c1c378120a248ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 10/53] fix: reject malformed index buffers

An index beyond the vertices, or an incomplete last triangle, was read out of
bounds.
---
 src/tinymesh/core/mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 387d84a..f060595 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -93,9 +93,16 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     faces_.clear();
     indices_.clear();
 
+    if (indices.size() % 3 != 0) {
+        Error("Number of indices must be a multiple of three!");
+    }
+
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : indices) {
+        if (i >= vertices.size()) {
+            Error("Vertex index out of range: %d", i);
+        }
         const Vec3 &pos = vertices[i];
 
         if (uniqueVertices.count(pos) == 0) {
-- 
2.43.0


From 9714cc31f4e9fd6e5a816c12658f6789333c46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 11/53] fix: refuse to flip a boundary edge

Boundary halfedges are paired with those of the hole face, so the check for a
missing opposite never fired and the flip rewired the hole as if it were a
triangle.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index f060595..7135e9e 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -883,6 +883,11 @@ bool Mesh::flipHE(Halfedge *he) {
         Error("Flip is called boundary halfedge!");
     }
 
+    // Skip halfedge at the boundary
+    if (he->isBoundary() || rev->isBoundary()) {
+        return false;
+    }
+
     Vertex *u0 = he->src();
     Vertex *u1 = he->prev()->src();
     Vertex *u2 = rev->src();
-- 
2.43.0


From 03f6fdc9dd6b8667431d1c251f44cb8eb620cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 12/53] fix: refuse to collapse an inner edge joining two
 boundary vertices

The merged vertex would belong to two boundary fans, and the result could not be
cloned or loaded again.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 7135e9e..e1b7428 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -746,6 +746,11 @@ bool Mesh::collapseHE(Halfedge *he) {
         return false;
     }
 
+    // Merging two boundary vertices across the interior makes the mesh non-manifold
+    if (v0->isBoundary() && v2->isBoundary()) {
+        return false;
+    }
+
     // Collect neighboring vertices of the one to be removed
     std::vector<Vertex *> neighbors;
     for (auto it = v2->he_begin(); it != v2->he_end(); ++it) {
-- 
2.43.0


From 4505c85692c0b3e85f11adbfdb8c7f11cd9247f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:01 +0000
Subject: [PATCH 13/53] fix: do not keep a reference into a growing vector of
 halfedges

Adding the halfedges of a boundary loop may reallocate the vector while a
reference to the first halfedge of the loop is still used.
---
 src/tinymesh/core/mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index e1b7428..bbd7608 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -315,7 +315,8 @@ void Mesh::construct() {
     // Construct new faces (possibly non-triangle) for each boundary components
     const auto numHalfedges = static_cast<int>(halfedges_.size());
     for (int i = 0; i < numHalfedges; i++) {
-        auto &he = halfedges_[i];
+        // Hold it by value because "halfedges_" may be reallocated in the loop below.
+        auto he = halfedges_[i];
         Assertion(he.get() != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
-- 
2.43.0


From ca517025baa68eed11aaf14920e1add7ef04ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:39 +0000
Subject: [PATCH 14/53] fix: report a face as collapsed when either of its
 edges was

Collapsing one edge already removes the face, but false was returned unless both
edges could be collapsed.  The caller then went on iterating over removed
elements.
---
 src/tinymesh/core/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index bbd7608..dfc93f1 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -872,7 +872,7 @@ bool Mesh::collapseFace(Face *f) {
     bool ret = collapseHE(he1);
     Assertion(he2->index() >= 0 && he2->index() < numHalfedges(), "Error!!");
 
-    ret &= collapseHE(he2);
+    ret |= collapseHE(he2);
 
     return ret;
 
-- 
2.43.0


From db63e5f7159efe700e643d1f9d3bd4118434e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:39 +0000
Subject: [PATCH 15/53] fix: return principal directions with their own
 curvatures

The direction of maximum curvature was returned as that of minimum curvature and
the other way around.
---
 src/tinymesh/ops/features.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 39c8372..9c76460 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -60,10 +60,10 @@ void getPrincipalCurvaturesFromTensors(std::vector<double> &ks_max, std::vector<
         double k_max = M(1, 1) + tt * M(0, 1);
         Vec3 t_min, t_max;
         if (k_max > k_min) {
-            t_max = c * up - s * vp;
+            t_max = s * up + c * vp;
         } else {
             std::swap(k_min, k_max);
-            t_max = s * up + c * vp;
+            t_max = c * up - s * vp;
         }
         t_min = normalize(cross(np, t_max));
 
-- 
2.43.0


From 0616d1d062e163783e48f11ab9123f0e77aad591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:39 +0000
Subject: [PATCH 16/53] fix: halve the mean curvature of a vertex

The mean curvature normal [Meyer et al. 2003] has twice the mean curvature for
its length: H of a unit sphere is one rather than two.
---
 src/tinymesh/core/vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/vertex.cpp b/src/tinymesh/core/vertex.cpp
index 1fb9bb8..d19199e 100644
--- a/src/tinymesh/core/vertex.cpp
+++ b/src/tinymesh/core/vertex.cpp
@@ -229,7 +229,7 @@ double Vertex::H() const {
             }
         }
     }
-    return -1.0 * dot(laplace, this->normal()) / (2.0 * sumAreas);
+    return -1.0 * dot(laplace, this->normal()) / (4.0 * sumAreas);
 }
 
 Vertex::VertexIterator Vertex::v_begin() {
-- 
2.43.0


From ec9447954a9c4bf839b01de04a0f8b071be19d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:39 +0000
Subject: [PATCH 17/53] fix: save vertex positions to *.obj without loss of
 digits

Six digits are less than a float holds, and close vertices were merged when the
file was loaded again.
---
 src/tinymesh/core/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index dfc93f1..217285e 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -4,6 +4,8 @@
 #include <cstring>
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <set>
 #include <map>
 #include <queue>
@@ -498,6 +500,7 @@ void Mesh::saveOBJ(const std::string &filename) const {
         Error("Failed to open file: %s", filename.c_str());
     }
 
+    writer << std::setprecision(std::numeric_limits<double>::max_digits10);
     for (const auto &v : vertices_) {
         writer << "v " << v->pos().x() << " " << v->pos().y() << " " << v->pos().z() << std::endl;
     }
-- 
2.43.0


From 0dd4457937af568230678689723fcb986b44acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:39 +0000
Subject: [PATCH 18/53] fix: report files that cannot be saved

Saving *.ply to a path that cannot be opened was ignored, and so were failures
of writing in either format.
---
 src/tinymesh/core/mesh.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 217285e..c11893b 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -520,6 +520,9 @@ void Mesh::saveOBJ(const std::string &filename) const {
     }
 
     writer.close();
+    if (writer.fail()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 void Mesh::savePLY(const std::string &filename) const {
@@ -529,7 +532,7 @@ void Mesh::savePLY(const std::string &filename) const {
     buffer.open(filename.c_str(), std::ios::out | std::ios::binary);
 
     std::ostream outstream(&buffer);
-    if (outstream.fail()) {
+    if (!buffer.is_open()) {
         Error("Failed to open file: %s", filename.c_str());
     }
 
@@ -573,6 +576,10 @@ void Mesh::savePLY(const std::string &filename) const {
     plyfile.get_comments().push_back("generated by tinyply 2.2");
 
     plyfile.write(outstream, true);
+
+    if (outstream.fail() || buffer.close() == nullptr) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 bool Mesh::splitHE(Halfedge *he) {
-- 
2.43.0


From d441d0f361e442f7a5be791947c398382748adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:56 +0000
Subject: [PATCH 19/53] fix: reject *.ply files with unexpected contents

Missing elements, positions other than floats, polygons other than triangles and
wrong vertex indices were read as if they were valid, out of bounds of the
buffers.
---
 src/tinymesh/core/mesh.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index c11893b..2e0b5c0 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -458,21 +458,37 @@ void Mesh::loadPLY(const std::string &filename) {
         std::cerr << "tinyply exception: " << e.what() << std::endl;
     }
 
+    if (!vert_data || !face_data) {
+        Error("Vertices or faces are not found: %s", filename.c_str());
+    }
+
     // Read vertex data
     file.read(reader);
 
     // Copy vertex data
     const size_t numVerts = vert_data->count;
+    if (vert_data->t != tinyply::Type::FLOAT32) {
+        Error("Vertex positions must be single-precision floats: %s", filename.c_str());
+    }
     std::vector<float> raw_vertices(numVerts * 3);
     std::memcpy(raw_vertices.data(), vert_data->buffer.get(), sizeof(float) * numVerts * 3);
 
     const size_t numFaces = face_data->count;
+    if (face_data->t != tinyply::Type::INT32 && face_data->t != tinyply::Type::UINT32) {
+        Error("Vertex indices must be 32-bit integers: %s", filename.c_str());
+    }
+    if (face_data->buffer.size_bytes() != sizeof(uint32_t) * numFaces * 3) {
+        Error("Non-triangle face might be contained: %s", filename.c_str());
+    }
     std::vector<uint32_t> raw_indices(numFaces * 3);
     std::memcpy(raw_indices.data(), face_data->buffer.get(), sizeof(uint32_t) * numFaces * 3);
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : raw_indices) {
+        if (i >= numVerts) {
+            Error("Vertex index out of range: %d", i);
+        }
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
             uniqueVertices[pos] = static_cast<uint32_t>(vertices_.size());
-- 
2.43.0


From 80509b9d5ff8bee1ee5e19b67f0aa0b61f96d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:22 +0000
Subject: [PATCH 20/53] fix: rotate a vector to its opposite

The rotation axis of two opposite vectors is not given by their cross product,
which is zero and cannot be normalized.
---
 src/tinymesh/core/utils.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/utils.h b/src/tinymesh/core/utils.h
index 64c8457..6757b4c 100644
--- a/src/tinymesh/core/utils.h
+++ b/src/tinymesh/core/utils.h
@@ -51,6 +51,13 @@ inline EigenMatrix3 rotationFromTwoVectors(const Vec3 &v0, const Vec3 &v1) {
     if (std::abs(theta) < 1.0e-12) {
         return EigenMatrix3::Identity();
     }
+
+    // Any axis perpendicular to the vectors is valid if they are opposite
+    if (length(outer) <= 1.0e-12 * length(v0) * length(v1)) {
+        const Vec3 e = std::abs(v0.x()) < 0.5 * length(v0) ? Vec3(1.0, 0.0, 0.0) : Vec3(0.0, 1.0, 0.0);
+        return rotationAxisAngle(theta, normalize(cross(v0, e)));
+    }
+
     const Vec3 axis = normalize(outer);
     return rotationAxisAngle(theta, axis);
 }
-- 
2.43.0


From 1bab05d98cb08f12901e305d5e7d03fab9eef5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:22 +0000
Subject: [PATCH 21/53] fix: allow feature line field without feature lines

The field vanishes on a mesh without ridges and valleys, such as a sphere, and
normalizing it raised a zero division.
---
 src/tinymesh/ops/features.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 9c76460..764e7a2 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -723,7 +723,9 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
 
     for (auto it : uniqueNonRV) {
         const int i = it.second;
-        rvDirections[it.first] = normalize(Vec3(xx(i, 0), xx(i, 1), xx(i, 2)));
+        const Vec3 d(xx(i, 0), xx(i, 1), xx(i, 2));
+        const double l = length(d);
+        rvDirections[it.first] = l > 1.0e-8 ? d / l : Vec3(0.0);
     }
 
     // Convert std::vector to EigenMatrix
-- 
2.43.0


From 89a367a054ec458563843f7a0bba34e06983ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:22 +0000
Subject: [PATCH 22/53] fix: declare getCurvatureTensors as it is defined

The function could not be linked because the declaration in the header takes the
output frames by const reference.
---
 src/tinymesh/ops/ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/ops.h b/src/tinymesh/ops/ops.h
index 1878f22..57ac025 100644
--- a/src/tinymesh/ops/ops.h
+++ b/src/tinymesh/ops/ops.h
@@ -45,7 +45,7 @@ TINYMESH_API EigenMatrix getHeatKernelSignatures(const EigenSparseMatrix &L, int
  * Compute per-vertex curvature tensor (i.e., the 2nd fundamental form)
  */
 TINYMESH_API void getCurvatureTensors(const Mesh &mesh, std::vector<EigenMatrix2> &tensors,
-                                      const std::vector<LocalFrame> &frames);
+                                      std::vector<LocalFrame> &frames);
 
 /**
  * Compute principal curvatures and their directions [Rusinkiewicz 2004]
-- 
2.43.0


From 9b3dd277559ac9b14a2f8d7134d1484a365e85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:22 +0000
Subject: [PATCH 23/53] fix: allow heat kernel signatures of one eigenvalue or
 one time

The second eigenvalue was read even if only one was requested, and the time was
not a number if only one was requested.
---
 src/tinymesh/ops/features.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 764e7a2..2e6b62f 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -153,11 +153,11 @@ EigenMatrix getHeatKernelSignatures(const EigenSparseMatrix &L, int K, int nTime
     EigenVector lambda = eigs.eigenvalues();
 
     const double t_min = 4.0 * std::log(10) / std::max(1.0e-12, lambda(K - 1));
-    const double t_max = 4.0 * std::log(10) / std::max(1.0e-12, lambda(1));
+    const double t_max = 4.0 * std::log(10) / std::max(1.0e-12, lambda(std::min(1, K - 1)));
 
     const double log_t_min = std::log(t_min);
     const double log_t_max = std::log(t_max);
-    const double inc = (log_t_max - log_t_min) / (nTimes - 1);
+    const double inc = (log_t_max - log_t_min) / std::max(1, nTimes - 1);
     EigenVector times(nTimes);
     for (int i = 0; i < nTimes; i++) {
         times(i) = std::exp(log_t_min + i * inc);
-- 
2.43.0


From 0d73cfc6600f9c4787a1d645565165e28f72479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:22 +0000
Subject: [PATCH 24/53] fix: keep progress bar within its width

A step beyond the total threw std::length_error, which aborted simplifyQEM with
verbose output when an odd number of faces had to be removed.
---
 src/tinymesh/core/progress.h | 204 +++++++++++++++++------------------
 1 file changed, 102 insertions(+), 102 deletions(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index 830eacf..bab14d5 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -1,102 +1,102 @@
-#ifdef _MSC_VER
-#pragma once
-#endif
-
-#ifndef PROGRESS_H
-#define PROGRESS_H
-
-#include <iostream>
-#include <iomanip>
-#include <string>
-#include <chrono>
-#include <sstream>
-
-#include "debug.h"
-
-class ProgressBar {
-public:
-    ProgressBar() {
-    }
-
-    ProgressBar(int total) {
-        m_step = 0;
-        m_total = total;
-        m_description = "";
-        start = std::chrono::system_clock::now();
-    }
-
-    virtual ~ProgressBar() {
-    }
-
-    template <typename... Args>
-    void set_description(const char *format, Args... args) {
-        m_description = STR_FMT(format, args...);
-    }
-
-    void step(int n = 1) {
-        m_step += n;
-        auto now = std::chrono::system_clock::now();
-
-        const double percent = 100.0 * m_step / m_total;
-        const int64_t elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(now - start).count();
-        const double time_msec_per_step = (double)elapsed / (double)m_step;
-        const double rest_time = time_msec_per_step * (m_total - m_step);
-
-        const int n_min = (int)(elapsed / 1000.0) / 60;
-        const int n_sec = (int)(elapsed / 1000.0) % 60;
-        const int r_min = (int)(rest_time / 1000.0) / 60;
-        const int r_sec = (int)(rest_time / 1000.0) % 60;
-
-        std::string it_text = "";
-        const int steps_per_sec = (int)(1000.0 / time_msec_per_step);
-        if (steps_per_sec > 0) {
-            std::ostringstream oss;
-            if (steps_per_sec < 1000) {
-                oss << steps_per_sec;
-            } else {
-                oss << "1000+";
-            }
-            oss << "it/s";
-            it_text = oss.str();
-        } else {
-            std::ostringstream oss;
-            oss << std::setprecision(2);
-            oss << time_msec_per_step / 1000.0 << "s/it";
-            it_text = oss.str();
-        }
-
-        const int tick = (int)(m_width * m_step / m_total);
-        std::string pbar = std::string(tick, '=');
-        if (tick != m_width) {
-            pbar += ">";
-            pbar += std::string(m_width - tick - 1, ' ');
-        }
-
-        if (m_step == m_total || m_step % std::max(1, (m_total / 1000)) == 0) {
-            Print("\r");
-            if (!m_description.empty()) {
-                Print("%s ", m_description.c_str());
-            }
-            Print("[%3d%%]|%s| %d/%d [%02d:%02d<%02d:%02d, %s]", (int)percent, pbar.c_str(), m_step, m_total, n_min,
-                  n_sec, r_min, r_sec, it_text.c_str());
-        }
-
-        if (m_step == m_total) {
-            Print("\n");
-        }
-    }
-
-    void finish() {
-        if (m_step != m_total) {
-            step(m_total - m_step);
-        }
-    }
-
-private:
-    const int m_width = 40;
-    int m_step, m_total;
-    std::string m_description = "";
-    std::chrono::system_clock::time_point start;
-};
-
-#endif  // PROGRESS_H
+#ifdef _MSC_VER
+#pragma once
+#endif
+
+#ifndef PROGRESS_H
+#define PROGRESS_H
+
+#include <iostream>
+#include <iomanip>
+#include <string>
+#include <chrono>
+#include <sstream>
+
+#include "debug.h"
+
+class ProgressBar {
+public:
+    ProgressBar() {
+    }
+
+    ProgressBar(int total) {
+        m_step = 0;
+        m_total = total;
+        m_description = "";
+        start = std::chrono::system_clock::now();
+    }
+
+    virtual ~ProgressBar() {
+    }
+
+    template <typename... Args>
+    void set_description(const char *format, Args... args) {
+        m_description = STR_FMT(format, args...);
+    }
+
+    void step(int n = 1) {
+        m_step += n;
+        auto now = std::chrono::system_clock::now();
+
+        const double percent = 100.0 * m_step / m_total;
+        const int64_t elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(now - start).count();
+        const double time_msec_per_step = (double)elapsed / (double)m_step;
+        const double rest_time = time_msec_per_step * (m_total - m_step);
+
+        const int n_min = (int)(elapsed / 1000.0) / 60;
+        const int n_sec = (int)(elapsed / 1000.0) % 60;
+        const int r_min = (int)(rest_time / 1000.0) / 60;
+        const int r_sec = (int)(rest_time / 1000.0) % 60;
+
+        std::string it_text = "";
+        const int steps_per_sec = (int)(1000.0 / time_msec_per_step);
+        if (steps_per_sec > 0) {
+            std::ostringstream oss;
+            if (steps_per_sec < 1000) {
+                oss << steps_per_sec;
+            } else {
+                oss << "1000+";
+            }
+            oss << "it/s";
+            it_text = oss.str();
+        } else {
+            std::ostringstream oss;
+            oss << std::setprecision(2);
+            oss << time_msec_per_step / 1000.0 << "s/it";
+            it_text = oss.str();
+        }
+
+        const int tick = std::max(0, std::min(m_width, (int)((int64_t)m_width * m_step / m_total)));
+        std::string pbar = std::string(tick, '=');
+        if (tick != m_width) {
+            pbar += ">";
+            pbar += std::string(m_width - tick - 1, ' ');
+        }
+
+        if (m_step == m_total || m_step % std::max(1, (m_total / 1000)) == 0) {
+            Print("\r");
+            if (!m_description.empty()) {
+                Print("%s ", m_description.c_str());
+            }
+            Print("[%3d%%]|%s| %d/%d [%02d:%02d<%02d:%02d, %s]", (int)percent, pbar.c_str(), m_step, m_total, n_min,
+                  n_sec, r_min, r_sec, it_text.c_str());
+        }
+
+        if (m_step == m_total) {
+            Print("\n");
+        }
+    }
+
+    void finish() {
+        if (m_step != m_total) {
+            step(m_total - m_step);
+        }
+    }
+
+private:
+    const int m_width = 40;
+    int m_step, m_total;
+    std::string m_description = "";
+    std::chrono::system_clock::time_point start;
+};
+
+#endif  // PROGRESS_H
-- 
2.43.0


From 66ccc8031011108c23a13cdb7600f39749d7c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:22 +0000
Subject: [PATCH 25/53] fix: compute distance to bounds in its own dimensions

Bounds2::distance did not compile.
---
 src/tinymesh/core/bounds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/bounds.h b/src/tinymesh/core/bounds.h
index cbbcb3c..ede6787 100644
--- a/src/tinymesh/core/bounds.h
+++ b/src/tinymesh/core/bounds.h
@@ -56,8 +56,8 @@ public:
     }
 
     double distance(const VecD &p) {
-        const Vec3 vmin = std::abs(posMin_ - p);
-        const Vec3 vmax = std::abs(posMax_ - p);
+        const VecD vmin = std::abs(posMin_ - p);
+        const VecD vmax = std::abs(posMax_ - p);
         double dist = 0.0;
         for (int d = 0; d < Dims; d++) {
             if (p[d] < posMin_[d] || posMax_[d] < p[d]) {
-- 
2.43.0


From aa44d6c4a68c51a9aed201a487ffe1f44a1ae4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:22 +0000
Subject: [PATCH 26/53] fix: assert that BVH is not empty on queries

Querying an empty BVH dereferenced a null pointer.
---
 src/tinymesh/core/bvh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/bvh.cpp b/src/tinymesh/core/bvh.cpp
index 208bb59..d28d93e 100644
--- a/src/tinymesh/core/bvh.cpp
+++ b/src/tinymesh/core/bvh.cpp
@@ -79,6 +79,8 @@ double BVH::distance(const Vec3 &p) const {
 }
 
 Vec3 BVH::closestPoint(const Vec3 &query) const {
+    Assertion(root != nullptr, "BVH has no triangle!");
+
     std::stack<BVHNode *> stk;
     stk.push(root);
 
-- 
2.43.0


From 914d5c50f6bad1bddd744a607d256b522c5ccdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:22 +0000
Subject: [PATCH 27/53] fix: compute area of a polygon rather than of its
 corners

Areas of triangles of successive corners were summed, which is right only for
triangles.
---
 src/tinymesh/core/face.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/face.cpp b/src/tinymesh/core/face.cpp
index 9e4ef97..5367068 100644
--- a/src/tinymesh/core/face.cpp
+++ b/src/tinymesh/core/face.cpp
@@ -57,14 +57,14 @@ double Face::area() const {
     }
 
     const int N = static_cast<int>(vs.size());
-    double area = 0.0;
+    Vec3 area(0.0);
     for (int i = 1; i < N - 1; i++) {
-        const Vec3 &p0 = vs[i];
-        const Vec3 &p1 = vs[i - 1];
+        const Vec3 &p0 = vs[0];
+        const Vec3 &p1 = vs[i];
         const Vec3 &p2 = vs[i + 1];
-        area += 0.5 * length(cross(p1 - p0, p2 - p0));
+        area += 0.5 * cross(p1 - p0, p2 - p0);
     }
-    return area;
+    return length(area);
 }
 
 int Face::numCorners() const {
-- 
2.43.0


From 8493c26b866deb2e9f2e3ebf38c25d38ac577f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:21 +0000
Subject: [PATCH 28/53] fix: refuse a collapse that turns over a triangle

---
 src/tinymesh/core/mesh.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 2e0b5c0..c1dcded 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -816,16 +816,13 @@ bool Mesh::collapseHE(Halfedge *he) {
     }
     norm = normalize(norm);
 
-    double sign = 0.0;
     for (size_t i = 0; i < neighbors.size(); i++) {
         const size_t j = (i + 1) % neighbors.size();
         const Vec3 e1 = neighbors[i]->pos() - v0->pos();
         const Vec3 e2 = neighbors[j]->pos() - v0->pos();
-        const double s = dot(norm, cross(e1, e2));
-        if (sign * s < 0.0) {
+        if (dot(norm, cross(e1, e2)) < 0.0) {
             return false;
         }
-        sign = s;
     }
 
     // Update origins of all outward halfedges
-- 
2.43.0


From 5c76c6772e5cfdf1961b2ae88ed19242788ef71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:10 +0000
Subject: [PATCH 29/53] fix: keep the progress bar's rate in range when no time
 has passed

---
 src/tinymesh/core/progress.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index bab14d5..397b91e 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -5,6 +5,7 @@
 #ifndef PROGRESS_H
 #define PROGRESS_H
 
+#include <algorithm>
 #include <iostream>
 #include <iomanip>
 #include <string>
@@ -48,7 +49,7 @@ public:
         const int r_sec = (int)(rest_time / 1000.0) % 60;
 
         std::string it_text = "";
-        const int steps_per_sec = (int)(1000.0 / time_msec_per_step);
+        const int steps_per_sec = (int)std::min(1000.0, 1000.0 / time_msec_per_step);
         if (steps_per_sec > 0) {
             std::ostringstream oss;
             if (steps_per_sec < 1000) {
-- 
2.43.0


From 34813f541be6b458ed4f06fda28fb913091b0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:08 +0000
Subject: [PATCH 30/53] fix: make cotangent weights independent of the mesh
 scale

---
 src/tinymesh/core/halfedge.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/halfedge.cpp b/src/tinymesh/core/halfedge.cpp
index fb0a2a9..3d8902c 100644
--- a/src/tinymesh/core/halfedge.cpp
+++ b/src/tinymesh/core/halfedge.cpp
@@ -1,6 +1,10 @@
 #define TINYMESH_API_EXPORT
 #include "halfedge.h"
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include "core/vertex.h"
 #include "core/face.h"
 
@@ -32,12 +36,13 @@ double Halfedge::cotWeight() const {
     const Vec3 &p1 = v1->pos();
     const Vec3 &p2 = v2->pos();
     const Vec3 &p3 = v3->pos();
+    const double tiny = std::numeric_limits<double>::min();
     const double sin_a = ::length(cross(p0 - p2, p1 - p2));
     const double cos_a = dot(p0 - p2, p1 - p2);
-    const double cot_a = cos_a / std::max(sin_a, 1.0e-6);
+    const double cot_a = cos_a / std::max({ sin_a, 1.0e-6 * std::abs(cos_a), tiny });
     const double sin_b = ::length(cross(p0 - p3, p1 - p3));
     const double cos_b = dot(p0 - p3, p1 - p3);
-    const double cot_b = cos_b / std::max(sin_b, 1.0e-6);
+    const double cot_b = cos_b / std::max({ sin_b, 1.0e-6 * std::abs(cos_b), tiny });
     return 0.5 * (cot_a + cot_b);
 }
 
-- 
2.43.0


From 477fa442481ad2c7eef2914f4479430fc8daddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:12 +0000
Subject: [PATCH 31/53] fix: leave hole faces out of cotangent weights

---
 src/tinymesh/core/halfedge.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/halfedge.cpp b/src/tinymesh/core/halfedge.cpp
index 3d8902c..432bb16 100644
--- a/src/tinymesh/core/halfedge.cpp
+++ b/src/tinymesh/core/halfedge.cpp
@@ -36,13 +36,14 @@ double Halfedge::cotWeight() const {
     const Vec3 &p1 = v1->pos();
     const Vec3 &p2 = v2->pos();
     const Vec3 &p3 = v3->pos();
+    // A hole has no angle opposite to its edges
     const double tiny = std::numeric_limits<double>::min();
     const double sin_a = ::length(cross(p0 - p2, p1 - p2));
     const double cos_a = dot(p0 - p2, p1 - p2);
-    const double cot_a = cos_a / std::max({ sin_a, 1.0e-6 * std::abs(cos_a), tiny });
+    const double cot_a = this->face()->isHole() ? 0.0 : cos_a / std::max({ sin_a, 1.0e-6 * std::abs(cos_a), tiny });
     const double sin_b = ::length(cross(p0 - p3, p1 - p3));
     const double cos_b = dot(p0 - p3, p1 - p3);
-    const double cot_b = cos_b / std::max({ sin_b, 1.0e-6 * std::abs(cos_b), tiny });
+    const double cot_b = this->rev()->face()->isHole() ? 0.0 : cos_b / std::max({ sin_b, 1.0e-6 * std::abs(cos_b), tiny });
     return 0.5 * (cot_a + cot_b);
 }
 
-- 
2.43.0


From 4611bc4f53602c110f255370035cfc59e0adb8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:29 +0000
Subject: [PATCH 32/53] fix: leave hole faces out of vertex normals

---
 src/tinymesh/core/vertex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinymesh/core/vertex.cpp b/src/tinymesh/core/vertex.cpp
index d19199e..d8f931e 100644
--- a/src/tinymesh/core/vertex.cpp
+++ b/src/tinymesh/core/vertex.cpp
@@ -47,6 +47,10 @@ Vec3 Vertex::normal() const {
     // Reference: Weights for Computing Vertex Normals from Facet Normals
     Vec3 norm = Vec3(0.0);
     for (auto it = he_begin(); it != he_end(); ++it) {
+        if (it->face()->isHole()) {
+            continue;
+        }
+
         const Vec3 p0 = this->pos();
         const Vec3 p1 = it->dst()->pos();
         const Vec3 p2 = it->next()->dst()->pos();
-- 
2.43.0


From 35c099e8025cff245e1efb83a30a51e4b2441580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:29 +0000
Subject: [PATCH 33/53] fix: share out the whole area of right-angled triangles

---
 src/tinymesh/core/vec.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 7be7ade..2e6c54b 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -315,12 +315,7 @@ double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Flo
 template <typename Float, int Dims>
 bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
             typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float l0 = length(b - a);
-    const Float l1 = length(c - b);
-    const Float l2 = length(a - c);
-    std::array<Float, 3> ls = { l0, l1, l2 };
-    std::sort(ls.begin(), ls.end(), std::less<Float>());
-    return ls[0] * ls[0] + ls[1] * ls[1] < ls[2] * ls[2];
+    return dot(b - a, c - a) < 0 || dot(c - b, a - b) < 0 || dot(a - c, b - c) < 0;
 }
 
 //! cotangent for angle a-b-c
-- 
2.43.0


From 050904db595212e21214e7c4d5e3acb208e246ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:54 +0000
Subject: [PATCH 34/53] fix: solve L0 smoothing with a solver that converges
 for its matrix

---
 src/tinymesh/filters/denoise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index c335a53..533f819 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -294,7 +294,7 @@ void denoiseL0Smooth(Mesh &mesh, double alpha, double beta) {
         EigenSparseMatrix A = I + alpha * R.transpose() * R + beta * D.transpose() * D;
         EigenMatrix bb = pVecInit + beta * D.transpose() * delta;
 
-        Eigen::BiCGSTAB<EigenSparseMatrix> cg;
+        Eigen::ConjugateGradient<EigenSparseMatrix, Eigen::Lower | Eigen::Upper> cg;
         cg.compute(A);
         pVec = cg.solve(bb);
         if (cg.info() != Eigen::Success) {
-- 
2.43.0


From 724cdd3e9b95cde833e3ffebc04998a09d0b1d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:29 +0000
Subject: [PATCH 35/53] fix: choose the smaller area among fills whose angles
 are within the bound

With the default bound the fill is documented to have the least area, but a
fill with a smaller angle was preferred over one with a smaller area.
---
 src/tinymesh/core/completion.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index b0b16a5..c1ecfdd 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -163,8 +163,10 @@ void Mesh::holeFillMinDihedral_(Face *face, double dihedralBound) {
                 const double D = std::max(a01, a12);
                 const double WangleNew = std::max(D, std::max(Wangle(i, m), Wangle(m, k)));
 
-                if (WangleNew < Wangle(i, k) ||
-                    (abs(WangleNew - Wangle(i, k)) < dihedralBound && WareaNew < Warea(i, k))) {
+                // Angles within the bound are equally good, then a smaller area is better
+                const bool isBetter = std::abs(WangleNew - Wangle(i, k)) < dihedralBound ? WareaNew < Warea(i, k)
+                                                                                        : WangleNew < Wangle(i, k);
+                if (isBetter) {
                     Warea(i, k) = WareaNew;
                     Wangle(i, k) = WangleNew;
                     O(i, k) = m;
-- 
2.43.0


From 37bc5eaa9ede81abdc73def84a49a55efb0b66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:29 +0000
Subject: [PATCH 36/53] fix: trisect straight and reflex corners of the
 advancing front

The new vertices were put on the front itself or outside the hole, where the
front never closed or the next normal was zero.
---
 src/tinymesh/core/completion.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index c1ecfdd..f0510c9 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -336,6 +336,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         // Search vertex with minimum open angle
         double minAngle = 1.0e20;
         int minIndex = -1;
+        Vec3 minAxis(0.0);
         for (int i = 0; i < N; i++) {
             const int prev = (i - 1 + N) % N;
             const int next = (i + 1) % N;
@@ -356,6 +357,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             if (theta < minAngle) {
                 minAngle = theta;
                 minIndex = i;
+                minAxis = length(outer) > 0.0 ? sign * normalize(outer) : norm;
             }
         }
 
@@ -446,8 +448,10 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             const double len1 = (length(e1) * 2.0 + length(e2)) / 3.0;
             const double len2 = (length(e1) + length(e2) * 2.0) / 3.0;
 
-            const Vec3 pnew1 = p1 + normalize(e1 * 2.0 + e2) * len1;
-            const Vec3 pnew2 = p1 + normalize(e1 + e2 * 2.0) * len2;
+            // Trisect the open angle, which may be straight or reflex
+            const EigenVector3 dir = (EigenVector3)normalize(e2);
+            const Vec3 pnew1 = p1 + (Vec3)(rotationAxisAngle(minAngle * 2.0 / 3.0, minAxis) * dir) * len1;
+            const Vec3 pnew2 = p1 + (Vec3)(rotationAxisAngle(minAngle / 3.0, minAxis) * dir) * len2;
 
             Vertex *new_vert1 = new Vertex(pnew1);
             Vertex *new_vert2 = new Vertex(pnew2);
-- 
2.43.0


From 1d6eeabe437c0bca077c89632ba1049e959265d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:51 +0000
Subject: [PATCH 37/53] fix: make the frames of curvature tensors orthonormal

The first axis was an edge, which is not perpendicular to the normal, so that
tensors and directions depended on which edge came first.
---
 src/tinymesh/ops/features.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 2e6b62f..931558c 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -272,6 +272,7 @@ void getCurvatureTensors(const Mesh &mesh, std::vector<EigenMatrix2> &tensors, s
             break;
         }
         vp = normalize(cross(np, up));
+        up = cross(vp, np);
 
         EigenMatrix2 M = EigenMatrix2::Zero();
         double sumWgt = 0.0;
-- 
2.43.0


From 829af9a6a6fd4fcebabfd78bbe5c2eecfa86b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:52 +0000
Subject: [PATCH 38/53] fix: differentiate curvatures at umbilical points, too

Umbilical points have no principal directions, and their curvature counted as
zero in the derivatives of the triangles around them.
---
 src/tinymesh/ops/features.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 931558c..d06de6c 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -389,8 +389,8 @@ getPrincipalCurvaturesWithDerivatives(const Mesh &mesh, bool smoothTensors) {
 
         std::array<EigenVector3, 3> Mfs;
         for (int k = 0; k < 3; k++) {
-            const Vec3 &up = ts_max[ids[k]];
-            const Vec3 &vp = ts_min[ids[k]];
+            const Vec3 &up = std::get<0>(frames[ids[k]]);
+            const Vec3 &vp = std::get<1>(frames[ids[k]]);
             const Vec3 &np = std::get<2>(frames[ids[k]]);
             const EigenMatrix3 rot = rotationFromTwoVectors(nf, np);
 
@@ -400,8 +400,7 @@ getPrincipalCurvaturesWithDerivatives(const Mesh &mesh, bool smoothTensors) {
             new_uf << dot(rot_uf, up), dot(rot_uf, vp);
             new_vf << dot(rot_vf, up), dot(rot_vf, vp);
 
-            EigenMatrix2 M;
-            M << ks_max[ids[k]], 0.0, 0.0, ks_min[ids[k]];
+            const EigenMatrix2 &M = tensors[ids[k]];
             Mfs[k] << secondForm(M, new_uf, new_uf),  //
                 secondForm(M, new_uf, new_vf),        //
                 secondForm(M, new_vf, new_vf);
-- 
2.43.0


From 0f6c1231f08a2a9d587f71f4b1f4985054f70022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:31 +0000
Subject: [PATCH 39/53] fix: choose frame axes that are not parallel to the
 vertex normal

Frames collapsed when the first edge around a vertex was parallel to its
normal.
---
 src/tinymesh/ops/features.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index d06de6c..eeffe8f 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -268,10 +268,13 @@ void getCurvatureTensors(const Mesh &mesh, std::vector<EigenMatrix2> &tensors, s
         const Vec3 np = vertex->normal();
         Vec3 up, vp;
         for (auto it = vertex->v_begin(); it != vertex->v_end(); ++it) {
-            up = normalize(it->pos() - vertex->pos());
-            break;
+            // Avoid edges (nearly) parallel to the normal
+            const Vec3 v = cross(np, normalize(it->pos() - vertex->pos()));
+            if (length(v) > length(vp)) {
+                vp = v;
+            }
         }
-        vp = normalize(cross(np, up));
+        vp = normalize(vp);
         up = cross(vp, np);
 
         EigenMatrix2 M = EigenMatrix2::Zero();
-- 
2.43.0


From b41cf9fc1434b7428abe96be0348aae2c218cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:23 +0000
Subject: [PATCH 40/53] fix: restore the line endings of vec.h and progress.h

---
 src/tinymesh/core/progress.h | 206 ++++-----
 src/tinymesh/core/vec.h      | 786 +++++++++++++++++------------------
 2 files changed, 496 insertions(+), 496 deletions(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index 397b91e..7072bcb 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -1,103 +1,103 @@
-#ifdef _MSC_VER
-#pragma once
-#endif
-
-#ifndef PROGRESS_H
-#define PROGRESS_H
-
-#include <algorithm>
-#include <iostream>
-#include <iomanip>
-#include <string>
-#include <chrono>
-#include <sstream>
-
-#include "debug.h"
-
-class ProgressBar {
-public:
-    ProgressBar() {
-    }
-
-    ProgressBar(int total) {
-        m_step = 0;
-        m_total = total;
-        m_description = "";
-        start = std::chrono::system_clock::now();
-    }
-
-    virtual ~ProgressBar() {
-    }
-
-    template <typename... Args>
-    void set_description(const char *format, Args... args) {
-        m_description = STR_FMT(format, args...);
-    }
-
-    void step(int n = 1) {
-        m_step += n;
-        auto now = std::chrono::system_clock::now();
-
-        const double percent = 100.0 * m_step / m_total;
-        const int64_t elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(now - start).count();
-        const double time_msec_per_step = (double)elapsed / (double)m_step;
-        const double rest_time = time_msec_per_step * (m_total - m_step);
-
-        const int n_min = (int)(elapsed / 1000.0) / 60;
-        const int n_sec = (int)(elapsed / 1000.0) % 60;
-        const int r_min = (int)(rest_time / 1000.0) / 60;
-        const int r_sec = (int)(rest_time / 1000.0) % 60;
-
-        std::string it_text = "";
-        const int steps_per_sec = (int)std::min(1000.0, 1000.0 / time_msec_per_step);
-        if (steps_per_sec > 0) {
-            std::ostringstream oss;
-            if (steps_per_sec < 1000) {
-                oss << steps_per_sec;
-            } else {
-                oss << "1000+";
-            }
-            oss << "it/s";
-            it_text = oss.str();
-        } else {
-            std::ostringstream oss;
-            oss << std::setprecision(2);
-            oss << time_msec_per_step / 1000.0 << "s/it";
-            it_text = oss.str();
-        }
-
-        const int tick = std::max(0, std::min(m_width, (int)((int64_t)m_width * m_step / m_total)));
-        std::string pbar = std::string(tick, '=');
-        if (tick != m_width) {
-            pbar += ">";
-            pbar += std::string(m_width - tick - 1, ' ');
-        }
-
-        if (m_step == m_total || m_step % std::max(1, (m_total / 1000)) == 0) {
-            Print("\r");
-            if (!m_description.empty()) {
-                Print("%s ", m_description.c_str());
-            }
-            Print("[%3d%%]|%s| %d/%d [%02d:%02d<%02d:%02d, %s]", (int)percent, pbar.c_str(), m_step, m_total, n_min,
-                  n_sec, r_min, r_sec, it_text.c_str());
-        }
-
-        if (m_step == m_total) {
-            Print("\n");
-        }
-    }
-
-    void finish() {
-        if (m_step != m_total) {
-            step(m_total - m_step);
-        }
-    }
-
-private:
-    const int m_width = 40;
-    int m_step, m_total;
-    std::string m_description = "";
-    std::chrono::system_clock::time_point start;
-};
-
-#endif  // PROGRESS_H
+#ifdef _MSC_VER
+#pragma once
+#endif
+
+#ifndef PROGRESS_H
+#define PROGRESS_H
+
+#include <algorithm>
+#include <iostream>
+#include <iomanip>
+#include <string>
+#include <chrono>
+#include <sstream>
+
+#include "debug.h"
+
+class ProgressBar {
+public:
+    ProgressBar() {
+    }
+
+    ProgressBar(int total) {
+        m_step = 0;
+        m_total = total;
+        m_description = "";
+        start = std::chrono::system_clock::now();
+    }
+
+    virtual ~ProgressBar() {
+    }
+
+    template <typename... Args>
+    void set_description(const char *format, Args... args) {
+        m_description = STR_FMT(format, args...);
+    }
+
+    void step(int n = 1) {
+        m_step += n;
+        auto now = std::chrono::system_clock::now();
+
+        const double percent = 100.0 * m_step / m_total;
+        const int64_t elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(now - start).count();
+        const double time_msec_per_step = (double)elapsed / (double)m_step;
+        const double rest_time = time_msec_per_step * (m_total - m_step);
+
+        const int n_min = (int)(elapsed / 1000.0) / 60;
+        const int n_sec = (int)(elapsed / 1000.0) % 60;
+        const int r_min = (int)(rest_time / 1000.0) / 60;
+        const int r_sec = (int)(rest_time / 1000.0) % 60;
+
+        std::string it_text = "";
+        const int steps_per_sec = (int)std::min(1000.0, 1000.0 / time_msec_per_step);
+        if (steps_per_sec > 0) {
+            std::ostringstream oss;
+            if (steps_per_sec < 1000) {
+                oss << steps_per_sec;
+            } else {
+                oss << "1000+";
+            }
+            oss << "it/s";
+            it_text = oss.str();
+        } else {
+            std::ostringstream oss;
+            oss << std::setprecision(2);
+            oss << time_msec_per_step / 1000.0 << "s/it";
+            it_text = oss.str();
+        }
+
+        const int tick = std::max(0, std::min(m_width, (int)((int64_t)m_width * m_step / m_total)));
+        std::string pbar = std::string(tick, '=');
+        if (tick != m_width) {
+            pbar += ">";
+            pbar += std::string(m_width - tick - 1, ' ');
+        }
+
+        if (m_step == m_total || m_step % std::max(1, (m_total / 1000)) == 0) {
+            Print("\r");
+            if (!m_description.empty()) {
+                Print("%s ", m_description.c_str());
+            }
+            Print("[%3d%%]|%s| %d/%d [%02d:%02d<%02d:%02d, %s]", (int)percent, pbar.c_str(), m_step, m_total, n_min,
+                  n_sec, r_min, r_sec, it_text.c_str());
+        }
+
+        if (m_step == m_total) {
+            Print("\n");
+        }
+    }
+
+    void finish() {
+        if (m_step != m_total) {
+            step(m_total - m_step);
+        }
+    }
+
+private:
+    const int m_width = 40;
+    int m_step, m_total;
+    std::string m_description = "";
+    std::chrono::system_clock::time_point start;
+};
+
+#endif  // PROGRESS_H
diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 2e6c54b..01fdc24 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -1,393 +1,393 @@
-#ifdef _MSC_VER
-#pragma once
-#endif
-
-#ifndef TINYMESH_VEC_H
-#define TINYMESH_VEC_H
-
-#include <array>
-#include <algorithm>
-#include <functional>
-#include <type_traits>
-
-#include <Eigen/Core>
-
-template <typename Float, int Dims>
-class Vec {
-    static_assert(std::is_floating_point<Float>::value, "Vector base type must be floating point number!");
-    static_assert(Dims > 1, "Vector dimension must be more than 1!");
-
-    using EigenVectorType = Eigen::Matrix<Float, Dims, 1>;
-
-public:
-    Vec() {
-        std::fill(elems.begin(), elems.end(), Float(0.0));
-    }
-
-    explicit Vec(Float x) {
-        std::fill(elems.begin(), elems.end(), x);
-    }
-
-    explicit Vec(Float x, Float y, Float z = 0.0, Float w = 0.0) {
-        std::fill(elems.begin(), elems.end(), w);
-
-        elems[0] = x;
-        if (Dims >= 2) elems[1] = y;
-        if (Dims >= 3) elems[2] = z;
-    }
-
-    explicit Vec(const Vec &other) {
-        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
-    }
-
-    Vec &operator=(const Vec other) {
-        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
-        return *this;
-    }
-
-    Vec(const EigenVectorType &v) {
-        for (int d = 0; d < Dims; d++) {
-            elems[d] = v(d);
-        }
-    }
-
-    Vec &operator=(const EigenVectorType &v) {
-        for (int d = 0; d < Dims; d++) {
-            elems[d] = v(d);
-        }
-        return *this;
-    }
-
-    operator EigenVectorType() const {
-        EigenVectorType v;
-        for (int d = 0; d < Dims; d++) {
-            v(d) = elems[d];
-        }
-        return v;
-    }
-
-    bool operator==(const Vec &other) const {
-        if (elems.size() != other.elems.size()) {
-            return false;
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            if (elems[i] != other.elems[i]) {
-                return false;
-            }
-        }
-
-        return true;
-    }
-
-    bool operator!=(const Vec &other) const {
-        return !this->operator==(other);
-    }
-
-    Vec &operator+=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (size_t i = 0; i < Dims; i++) {
-            elems[i] += other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec operator-() const {
-        Vec<Float, Dims> ret;
-        for (size_t i = 0; i < elems.size(); i++) {
-            ret.elems[i] = -elems[i];
-        }
-        return ret;
-    }
-
-    Vec &operator-=(const Vec &other) {
-        return this->operator+=(-other);
-    }
-
-    Vec &operator*=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            elems[i] *= other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec &operator*=(Float s) {
-        for (int i = 0; i < Dims; i++) {
-            elems[i] *= s;
-        }
-
-        return *this;
-    }
-
-    Vec &operator/=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            if (other.elems[i] == 0.0) {
-                throw std::runtime_error("Zero division!");
-            }
-            elems[i] /= other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec &operator/=(double s) {
-        if (s == 0.0) {
-            throw std::runtime_error("Zero division");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            elems[i] /= s;
-        }
-
-        return *this;
-    }
-
-    Float &operator[](int i) {
-        return elems[i];
-    }
-
-    Float operator[](int i) const {
-        return elems[i];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 1, Dummy>::type x() const {
-        return elems[0];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 2, Dummy>::type y() const {
-        return elems[1];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 3, Dummy>::type z() const {
-        return elems[2];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 4, Dummy>::type w() const {
-        return elems[3];
-    }
-
-private:
-    std::array<Float, Dims> elems;
-};
-
-// Type definition
-using Vec2 = Vec<double, 2>;
-using Vec3 = Vec<double, 3>;
-
-// standard output
-template <typename Float, int Dims>
-std::ostream &operator<<(std::ostream &os, const Vec<Float, Dims> &v) {
-    os << "[ ";
-    for (int d = 0; d < Dims; d++) {
-        os << v[d];
-        if (d != Dims - 1) os << ", ";
-    }
-    os << " ]";
-    return os;
-}
-
-// Basic arithmetics
-template <typename Float, int Dims>
-Vec<Float, Dims> operator+(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret += v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret -= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret -= Vec<Float, Dims>(s);
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    Vec<Float, Dims> ret(s);
-    ret -= v;
-    return ret;
-}
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret *= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator/(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret /= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator/(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret /= s;
-    return ret;
-}
-
-template <typename Float, int Rows, int Cols>
-Vec<Float, Rows> operator*(const Eigen::Matrix<Float, Rows, Cols> &m, const Vec<Float, Cols> &v) {
-    return Vec<Float, Rows>(m * Eigen::Matrix<Float, Cols, 1>(v));
-}
-
-// GLSL like vector arithmetics
-template <typename Float, int Dims>
-Float dot(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    Float ret = 0.0;
-    for (int i = 0; i < Dims; i++) {
-        ret += v1[i] * v2[i];
-    }
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> cross(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2,
-                       typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float x = v1[1] * v2[2] - v1[2] * v2[1];
-    const Float y = v1[2] * v2[0] - v1[0] * v2[2];
-    const Float z = v1[0] * v2[1] - v1[1] * v2[0];
-    return Vec<Float, Dims>{ x, y, z };
-}
-
-template <typename Float, int Dims>
-Float length(const Vec<Float, Dims> &v) {
-    return std::sqrt(dot(v, v));
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> normalize(const Vec<Float, Dims> &v) {
-    return v / length(v);
-}
-
-// Arithmetics for 3D vectors
-
-//! Angle a-b-c in radian (smaller side)
-template <typename Float, int Dims>
-double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-             typename std::enable_if<Dims == 3>::type * = 0) {
-    const Vec3 e0 = a - b;
-    const Vec3 e1 = c - b;
-    return std::atan2(length(cross(e0, e1)), dot(e0, e1));
-}
-
-//! check if the triangle is obtuse
-template <typename Float, int Dims>
-bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-            typename std::enable_if<Dims == 3>::type * = 0) {
-    return dot(b - a, c - a) < 0 || dot(c - b, a - b) < 0 || dot(a - c, b - c) < 0;
-}
-
-//! cotangent for angle a-b-c
-template <typename Float, int Dims>
-Float cot(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-          typename std::enable_if<Dims == 3>::type * = 0) {
-    const Vec3 e0 = a - b;
-    const Vec3 e1 = c - b;
-    return dot(e0, e1) / (length(cross(e0, e1)) + (Float)1.0e-20);
-}
-
-template <typename Float, int Dims>
-Float dihedral(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2, const Vec<Float, Dims> &v3,
-               const Vec<Float, Dims> &v1rev, typename std::enable_if<Dims == 3>::type * = 0) {
-    using V = Vec<Float, Dims>;
-    const V e12 = v2 - v1;
-    const V e13 = v3 - v1;
-    const V n1 = cross(e12, e13);
-    const Float l1 = length(n1);
-    const V e42 = v2 - v1rev;
-    const V e43 = v3 - v1rev;
-    const V n4 = cross(e42, e43);
-    const Float l4 = length(n4);
-    if (l1 == 0.0 || l4 == 0.0) {
-        return 0.0;
-    }
-
-    const double cosTheta = dot(n1, n4) / (l1 * l4);
-    return std::acos(std::max(-1.0, std::min(cosTheta, 1.0)));
-}
-
-namespace std {
-
-// Hash
-template <typename Float, int Dims>
-struct hash<Vec<Float, Dims>> {
-    std::size_t operator()(const Vec<Float, Dims> &v) const {
-        std::size_t h = 0;
-        for (int i = 0; i < Dims; i++) {
-            h = std::hash<Float>()(v[i]) ^ (h << 1);
-        }
-        return h;
-    }
-};
-
-template <typename Float, int Dims>
-Vec<Float, Dims> abs(const Vec<Float, Dims> &v) {
-    Vec<Float, Dims> ret;
-    for (int d = 0; d < Dims; d++) {
-        ret[d] = std::abs(v[d]);
-    }
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> min(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
-    Vec<Float, Dims> v;
-    for (int d = 0; d < Dims; d++) {
-        v[d] = std::min(v0[d], v1[d]);
-    }
-    return v;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> max(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
-    Vec<Float, Dims> v;
-    for (int d = 0; d < Dims; d++) {
-        v[d] = std::max(v0[d], v1[d]);
-    }
-    return v;
-}
-
-}  // namespace std
-
-#endif  // TINYMESH_VEC_H
+#ifdef _MSC_VER
+#pragma once
+#endif
+
+#ifndef TINYMESH_VEC_H
+#define TINYMESH_VEC_H
+
+#include <array>
+#include <algorithm>
+#include <functional>
+#include <type_traits>
+
+#include <Eigen/Core>
+
+template <typename Float, int Dims>
+class Vec {
+    static_assert(std::is_floating_point<Float>::value, "Vector base type must be floating point number!");
+    static_assert(Dims > 1, "Vector dimension must be more than 1!");
+
+    using EigenVectorType = Eigen::Matrix<Float, Dims, 1>;
+
+public:
+    Vec() {
+        std::fill(elems.begin(), elems.end(), Float(0.0));
+    }
+
+    explicit Vec(Float x) {
+        std::fill(elems.begin(), elems.end(), x);
+    }
+
+    explicit Vec(Float x, Float y, Float z = 0.0, Float w = 0.0) {
+        std::fill(elems.begin(), elems.end(), w);
+
+        elems[0] = x;
+        if (Dims >= 2) elems[1] = y;
+        if (Dims >= 3) elems[2] = z;
+    }
+
+    explicit Vec(const Vec &other) {
+        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
+    }
+
+    Vec &operator=(const Vec other) {
+        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
+        return *this;
+    }
+
+    Vec(const EigenVectorType &v) {
+        for (int d = 0; d < Dims; d++) {
+            elems[d] = v(d);
+        }
+    }
+
+    Vec &operator=(const EigenVectorType &v) {
+        for (int d = 0; d < Dims; d++) {
+            elems[d] = v(d);
+        }
+        return *this;
+    }
+
+    operator EigenVectorType() const {
+        EigenVectorType v;
+        for (int d = 0; d < Dims; d++) {
+            v(d) = elems[d];
+        }
+        return v;
+    }
+
+    bool operator==(const Vec &other) const {
+        if (elems.size() != other.elems.size()) {
+            return false;
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            if (elems[i] != other.elems[i]) {
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    bool operator!=(const Vec &other) const {
+        return !this->operator==(other);
+    }
+
+    Vec &operator+=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (size_t i = 0; i < Dims; i++) {
+            elems[i] += other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec operator-() const {
+        Vec<Float, Dims> ret;
+        for (size_t i = 0; i < elems.size(); i++) {
+            ret.elems[i] = -elems[i];
+        }
+        return ret;
+    }
+
+    Vec &operator-=(const Vec &other) {
+        return this->operator+=(-other);
+    }
+
+    Vec &operator*=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            elems[i] *= other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec &operator*=(Float s) {
+        for (int i = 0; i < Dims; i++) {
+            elems[i] *= s;
+        }
+
+        return *this;
+    }
+
+    Vec &operator/=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            if (other.elems[i] == 0.0) {
+                throw std::runtime_error("Zero division!");
+            }
+            elems[i] /= other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec &operator/=(double s) {
+        if (s == 0.0) {
+            throw std::runtime_error("Zero division");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            elems[i] /= s;
+        }
+
+        return *this;
+    }
+
+    Float &operator[](int i) {
+        return elems[i];
+    }
+
+    Float operator[](int i) const {
+        return elems[i];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 1, Dummy>::type x() const {
+        return elems[0];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 2, Dummy>::type y() const {
+        return elems[1];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 3, Dummy>::type z() const {
+        return elems[2];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 4, Dummy>::type w() const {
+        return elems[3];
+    }
+
+private:
+    std::array<Float, Dims> elems;
+};
+
+// Type definition
+using Vec2 = Vec<double, 2>;
+using Vec3 = Vec<double, 3>;
+
+// standard output
+template <typename Float, int Dims>
+std::ostream &operator<<(std::ostream &os, const Vec<Float, Dims> &v) {
+    os << "[ ";
+    for (int d = 0; d < Dims; d++) {
+        os << v[d];
+        if (d != Dims - 1) os << ", ";
+    }
+    os << " ]";
+    return os;
+}
+
+// Basic arithmetics
+template <typename Float, int Dims>
+Vec<Float, Dims> operator+(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret += v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret -= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret -= Vec<Float, Dims>(s);
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
+    Vec<Float, Dims> ret(s);
+    ret -= v;
+    return ret;
+}
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret *= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(Float s, const Vec<Float, Dims> &v) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator/(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret /= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator/(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret /= s;
+    return ret;
+}
+
+template <typename Float, int Rows, int Cols>
+Vec<Float, Rows> operator*(const Eigen::Matrix<Float, Rows, Cols> &m, const Vec<Float, Cols> &v) {
+    return Vec<Float, Rows>(m * Eigen::Matrix<Float, Cols, 1>(v));
+}
+
+// GLSL like vector arithmetics
+template <typename Float, int Dims>
+Float dot(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    Float ret = 0.0;
+    for (int i = 0; i < Dims; i++) {
+        ret += v1[i] * v2[i];
+    }
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> cross(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2,
+                       typename std::enable_if<Dims == 3>::type * = 0) {
+    const Float x = v1[1] * v2[2] - v1[2] * v2[1];
+    const Float y = v1[2] * v2[0] - v1[0] * v2[2];
+    const Float z = v1[0] * v2[1] - v1[1] * v2[0];
+    return Vec<Float, Dims>{ x, y, z };
+}
+
+template <typename Float, int Dims>
+Float length(const Vec<Float, Dims> &v) {
+    return std::sqrt(dot(v, v));
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> normalize(const Vec<Float, Dims> &v) {
+    return v / length(v);
+}
+
+// Arithmetics for 3D vectors
+
+//! Angle a-b-c in radian (smaller side)
+template <typename Float, int Dims>
+double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+             typename std::enable_if<Dims == 3>::type * = 0) {
+    const Vec3 e0 = a - b;
+    const Vec3 e1 = c - b;
+    return std::atan2(length(cross(e0, e1)), dot(e0, e1));
+}
+
+//! check if the triangle is obtuse
+template <typename Float, int Dims>
+bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+            typename std::enable_if<Dims == 3>::type * = 0) {
+    return dot(b - a, c - a) < 0 || dot(c - b, a - b) < 0 || dot(a - c, b - c) < 0;
+}
+
+//! cotangent for angle a-b-c
+template <typename Float, int Dims>
+Float cot(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+          typename std::enable_if<Dims == 3>::type * = 0) {
+    const Vec3 e0 = a - b;
+    const Vec3 e1 = c - b;
+    return dot(e0, e1) / (length(cross(e0, e1)) + (Float)1.0e-20);
+}
+
+template <typename Float, int Dims>
+Float dihedral(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2, const Vec<Float, Dims> &v3,
+               const Vec<Float, Dims> &v1rev, typename std::enable_if<Dims == 3>::type * = 0) {
+    using V = Vec<Float, Dims>;
+    const V e12 = v2 - v1;
+    const V e13 = v3 - v1;
+    const V n1 = cross(e12, e13);
+    const Float l1 = length(n1);
+    const V e42 = v2 - v1rev;
+    const V e43 = v3 - v1rev;
+    const V n4 = cross(e42, e43);
+    const Float l4 = length(n4);
+    if (l1 == 0.0 || l4 == 0.0) {
+        return 0.0;
+    }
+
+    const double cosTheta = dot(n1, n4) / (l1 * l4);
+    return std::acos(std::max(-1.0, std::min(cosTheta, 1.0)));
+}
+
+namespace std {
+
+// Hash
+template <typename Float, int Dims>
+struct hash<Vec<Float, Dims>> {
+    std::size_t operator()(const Vec<Float, Dims> &v) const {
+        std::size_t h = 0;
+        for (int i = 0; i < Dims; i++) {
+            h = std::hash<Float>()(v[i]) ^ (h << 1);
+        }
+        return h;
+    }
+};
+
+template <typename Float, int Dims>
+Vec<Float, Dims> abs(const Vec<Float, Dims> &v) {
+    Vec<Float, Dims> ret;
+    for (int d = 0; d < Dims; d++) {
+        ret[d] = std::abs(v[d]);
+    }
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> min(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
+    Vec<Float, Dims> v;
+    for (int d = 0; d < Dims; d++) {
+        v[d] = std::min(v0[d], v1[d]);
+    }
+    return v;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> max(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
+    Vec<Float, Dims> v;
+    for (int d = 0; d < Dims; d++) {
+        v[d] = std::max(v0[d], v1[d]);
+    }
+    return v;
+}
+
+}  // namespace std
+
+#endif  // TINYMESH_VEC_H
-- 
2.43.0


From 48b8fe591563da4d6b845e6936daed4db96bfcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:23 +0000
Subject: [PATCH 41/53] fix: keep the feature line system regular on
 featureless components

The factorization failed and uninitialized values were returned.
---
 src/tinymesh/ops/features.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index eeffe8f..30dd69f 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -697,7 +697,8 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
                 }
                 sumWgt += weight;
             }
-            tripNonRV.emplace_back(row, row, sumWgt);
+            // Keep the system regular for components without any ridge-valley vertex
+            tripNonRV.emplace_back(row, row, sumWgt + 1.0e-12);
         }
     }
 
-- 
2.43.0


From 993da49b77e95874bb6f50414df47183766688ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:23 +0000
Subject: [PATCH 42/53] fix: refuse negative targets of simplification, too

---
 src/tinymesh/remesh/simplify.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index 9a0708a..c8591e9 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -115,9 +115,7 @@ double computeQEM(const Matrix4 &m1, const Matrix4 &m2, const Vertex &v1, const
 void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
     static const double Eps = 1.0e-12;
     const int numTargetRemove = (int)mesh.numFaces() - numTarget;
-    if (numTarget == 0) {
-        Assertion(numTarget > 0, "Target face number is equal or less than 0!");
-    }
+    Assertion(numTarget > 0, "Target face number is equal or less than 0!");
 
     if (numTargetRemove <= 0) {
         Warn("#vertices is already less than #target: %d < %d", (int)mesh.numFaces(), numTarget);
-- 
2.43.0


From 6a215cdef34b4de629e6111c1f26c14c534a21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:23 +0000
Subject: [PATCH 43/53] fix: test remaining triangles for flips in
 simplification

Only those triangles were tested which vanish with the contracted edge.
---
 src/tinymesh/remesh/simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index c8591e9..ffedaea 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -248,7 +248,7 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
                     }
                 }
 
-                if (!has_i || !has_j) {
+                if (has_i && has_j) {
                     // This is contracted face
                     continue;
                 }
-- 
2.43.0


From 4e16ad2cfa8b4ca9d1fca4a23f76a8af005b0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:23 +0000
Subject: [PATCH 44/53] fix: move the vertex that remains after contraction to
 the optimal position

The position was lost when the other end remained, and a vertex was moved
even if its edge could not be contracted.
---
 src/tinymesh/remesh/simplify.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index ffedaea..290c174 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -313,12 +313,18 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
             removedHalfedges.insert(qn.he->rev()->next());
             removedHalfedges.insert(qn.he->rev()->next()->next());
 
-            // Collapse halfedge
-            qn.he->src()->setPos(qn.v);
-            checked[qn.he->src()->index()] = 1;
+            // Collapse halfedge (either of the vertices can remain)
+            const Vec3 p_i = v_i->pos();
+            const Vec3 p_j = v_j->pos();
+            v_i->setPos(v_bar);
+            v_j->setPos(v_bar);
+            checked[v_i->index()] = 1;
             if (mesh.collapseHE(qn.he)) {
                 numRemoved += 2;
                 if (verbose) pbar.step(2);
+            } else {
+                v_i->setPos(p_i);
+                v_j->setPos(p_j);
             }
 
             if (numRemoved >= numTargetRemove) {
-- 
2.43.0


From 1f192523c23ef8a63e4e4ad12a19127c2cf43a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:23 +0000
Subject: [PATCH 45/53] fix: contract vertices only once per pass of
 simplification

Vertices were marked by their indices, which change with every contraction.
---
 src/tinymesh/remesh/simplify.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index 290c174..c2cc5ae 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -134,7 +134,7 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
         const int numVertices = (int)mesh.numVertices();
         const int numHalfedges = (int)mesh.numHalfedges();
         const int numFaces = (int)mesh.numFaces();
-        std::vector<int> checked(numVertices, 0);
+        std::set<Vertex *> checked;
 
         // Compute quadric metric tensor for current vertices.
         std::vector<Matrix4> Qs(numVertices, Matrix4::Zero());
@@ -207,7 +207,7 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
             Vertex *v_j = mesh.vertex(jj);
 
             // Skip checked vertices
-            if (checked[v_i->index()] || checked[v_j->index()]) {
+            if (checked.count(v_i) != 0 || checked.count(v_j) != 0) {
                 continue;
             }
 
@@ -318,7 +318,8 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
             const Vec3 p_j = v_j->pos();
             v_i->setPos(v_bar);
             v_j->setPos(v_bar);
-            checked[v_i->index()] = 1;
+            checked.insert(v_i);
+            checked.insert(v_j);
             if (mesh.collapseHE(qn.he)) {
                 numRemoved += 2;
                 if (verbose) pbar.step(2);
-- 
2.43.0


From 3697740e8d1da20d8be05a40224a11818bf383ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:05 +0000
Subject: [PATCH 46/53] fix: reject *.obj files with vertex indices out of
 range

---
 src/tinymesh/core/mesh.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index c1dcded..2d10231 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -399,13 +399,14 @@ void Mesh::loadOBJ(const std::string &filename) {
     vertices_.clear();
     indices_.clear();
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
+    const int numVerts = (int)(attrib.vertices.size() / 3);
     for (const auto &shape : shapes) {
         for (const auto &index : shape.mesh.indices) {
-            Vec3 v;
-            if (index.vertex_index >= 0) {
-                v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
-                         attrib.vertices[index.vertex_index * 3 + 2]);
+            if (index.vertex_index < 0 || index.vertex_index >= numVerts) {
+                Error("Vertex index out of range: %d", index.vertex_index);
             }
+            const Vec3 v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
+                                attrib.vertices[index.vertex_index * 3 + 2]);
 
             if (uniqueVertices.count(v) == 0) {
                 uniqueVertices[v] = static_cast<uint32_t>(vertices_.size());
-- 
2.43.0


From 3f967c65ce94f0538622a8f41e980acb61c30d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:41 +0000
Subject: [PATCH 47/53] fix: report files without faces

---
 src/tinymesh/core/mesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 2d10231..21a2c31 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -416,6 +416,10 @@ void Mesh::loadOBJ(const std::string &filename) {
         }
     }
 
+    if (indices_.empty()) {
+        Error("Faces are not found: %s", filename.c_str());
+    }
+
     Assertion(indices_.size() % 3 == 0, "Non-triangle face might be contained!");
 }
 
@@ -459,7 +463,7 @@ void Mesh::loadPLY(const std::string &filename) {
         std::cerr << "tinyply exception: " << e.what() << std::endl;
     }
 
-    if (!vert_data || !face_data) {
+    if (!vert_data || !face_data || vert_data->count == 0 || face_data->count == 0) {
         Error("Vertices or faces are not found: %s", filename.c_str());
     }
 
-- 
2.43.0


From 8731dc239da0698a653fd81d09f26f2d2c58dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:18 +0000
Subject: [PATCH 48/53] fix: fill holes independently of memory addresses

---
 src/tinymesh/core/completion.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index f0510c9..26b5f0c 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -533,6 +533,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Correct internal vertices
     std::unordered_set<Vertex *> insideVerts;
+    std::vector<Vertex *> insideOrder;  // order of visit, not that of addresses
     std::queue<Vertex *> que;
     for (auto it = face->v_begin(); it != face->v_end(); ++it) {
         if (!it->isLocked()) {
@@ -548,6 +549,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             continue;
         }
         insideVerts.insert(v);
+        insideOrder.push_back(v);
 
         for (auto it = v->v_begin(); it != v->v_end(); ++it) {
             if (!it->isLocked() && insideVerts.count(it.ptr()) == 0) {
@@ -558,12 +560,12 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Smooth vertex normals
     std::unordered_map<Vertex *, Vec3> newNormals;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         newNormals[v] = v->normal();
     }
 
     for (int kIter = 0; kIter < 1000; kIter++) {
-        for (Vertex *v : insideVerts) {
+        for (Vertex *v : insideOrder) {
             Vec3 nn = Vec3(0.0);
             double sumWgt = 0.0;
             for (auto it = v->he_begin(); it != v->he_end(); ++it) {
@@ -579,7 +581,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Compute face normals
     std::unordered_set<Face *> insideFaces;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         for (auto it = v->f_begin(); it != v->f_end(); ++it) {
             Face *f = it.ptr();
             bool inside = true;
@@ -612,7 +614,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Compute rotated gradients
     std::unordered_map<Vertex *, Vec3> rotGrads;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         Vec3 sumGrad(0.0);
         int count = 0;
         for (auto it = v->he_begin(); it != v->he_end(); ++it) {
@@ -648,7 +650,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
     std::unordered_map<Vertex *, uint32_t> uniqueOuter;
     int countInner = 0;
     int countOuter = 0;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         if (uniqueInner.count(v) == 0) {
             uniqueInner[v] = countInner;
             countInner++;
-- 
2.43.0


From d8f0c89a64b8da33f83e769de00cd3536938e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:38 +0000
Subject: [PATCH 49/53] fix: ignore the gap at a boundary vertex when checking
 for turned triangles

A collapse that removes a boundary vertex counted the hole next to it as a
triangle.  On a convex corner of the boundary this could reverse the
reference normal, so collapses that turn over triangles were accepted.
---
 src/tinymesh/core/mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 21a2c31..7c9a482 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -785,9 +785,11 @@ bool Mesh::collapseHE(Halfedge *he) {
 
     // Collect neighboring vertices of the one to be removed
     std::vector<Vertex *> neighbors;
+    std::vector<bool> isGap;
     for (auto it = v2->he_begin(); it != v2->he_end(); ++it) {
         Assertion(it->dst() != nullptr, "Null vertex is found!");
         neighbors.push_back(it->dst());
+        isGap.push_back(it->rev()->face()->isHole());
     }
 
     Assertion(!neighbors.empty(), "No neighboring vertex!");
@@ -809,6 +811,9 @@ bool Mesh::collapseHE(Halfedge *he) {
     // Check unsafe collapse (face flip)
     Vec3 norm(0.0);
     for (size_t i = 0; i < neighbors.size(); i++) {
+        if (isGap[i]) {
+            continue;
+        }
         const size_t j = (i + 1) % neighbors.size();
         const Vec3 e1 = neighbors[i]->pos() - v2->pos();
         const Vec3 e2 = neighbors[j]->pos() - v2->pos();
@@ -822,6 +827,9 @@ bool Mesh::collapseHE(Halfedge *he) {
     norm = normalize(norm);
 
     for (size_t i = 0; i < neighbors.size(); i++) {
+        if (isGap[i]) {
+            continue;
+        }
         const size_t j = (i + 1) % neighbors.size();
         const Vec3 e1 = neighbors[i]->pos() - v0->pos();
         const Vec3 e2 = neighbors[j]->pos() - v0->pos();
-- 
2.43.0


From dd9ffba0edcc1338ff5c43c091ef34adb770875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:58:15 +0000
Subject: [PATCH 50/53] fix: raise the non-triangular error of normal denoising
 outside of the parallel loop

An exception that leaves a parallel loop ends the whole process, so the
Python module could not report denoising of a mesh with holes as an error.
The mesh is now checked before the loop and before it is modified.
---
 src/tinymesh/filters/denoise.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index 533f819..62fa935 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -31,6 +31,21 @@ inline double K(double x, double sigma) {
     return 0.0;
 }
 
+// An error must not be raised inside a parallel loop, where nobody can catch it
+void checkTriangular(tinymesh::Mesh &mesh) {
+    for (size_t i = 0; i < mesh.numFaces(); i++) {
+        const tinymesh::Face *f = mesh.face((int)i);
+        int count = 0;
+        for (auto vit = f->v_begin(); vit != f->v_end(); ++vit) {
+            count++;
+        }
+
+        if (count != 3) {
+            Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
+        }
+    }
+}
+
 }  // anonymous namespace
 
 namespace tinymesh {
@@ -40,6 +55,8 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
     double avgEdge = mesh.getMeanEdgeLength();
 
     for (int it = 0; it < iterations; it++) {
+        checkTriangular(mesh);
+
         // Smooth vertex positions
         smoothTaubin(mesh);
 
@@ -55,10 +72,6 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
                 vs.push_back(vit->pos());
             }
 
-            if (vs.size() != 3) {
-                Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
-            }
-
             const Vec3 outer = cross(vs[1] - vs[0], vs[2] - vs[0]);
             normals[i] = normalize(outer);
             centroids[i] = (vs[0] + vs[1] + vs[2]) / 3.0;
@@ -106,6 +119,8 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
     double avgEdge = mesh.getMeanEdgeLength();
 
     for (int it = 0; it < iterations; it++) {
+        checkTriangular(mesh);
+
         // Smooth vertex positions
         smoothTaubin(mesh);
 
@@ -121,10 +136,6 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
                 vs.push_back(vit->pos());
             }
 
-            if (vs.size() != 3) {
-                Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
-            }
-
             const Vec3 outer = cross(vs[1] - vs[0], vs[2] - vs[0]);
             normals[i] = normalize(outer);
             centroids[i] = (vs[0] + vs[1] + vs[2]) / 3.0;
-- 
2.43.0


From ceed1fbceba900b3f663a8ac6dd0cb9413fd2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:58:15 +0000
Subject: [PATCH 51/53] fix: keep a mesh alive while Python holds its vertices
 or faces

Elements were returned as plain references, so they dangled as soon as the
mesh they belong to was collected.
---
 src/pybind11.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11.cpp b/src/pybind11.cpp
index e9870e9..020e1cf 100644
--- a/src/pybind11.cpp
+++ b/src/pybind11.cpp
@@ -58,8 +58,8 @@ PYBIND11_MODULE(tinymesh, m) {
         .def("clone", &Mesh::clone, py::return_value_policy::move)
         .def("load", &Mesh::load)
         .def("save", &Mesh::save)
-        .def("vertex", &Mesh::vertex, py::return_value_policy::reference)
-        .def("face", &Mesh::face, py::return_value_policy::reference)
+        .def("vertex", &Mesh::vertex, py::return_value_policy::reference_internal)
+        .def("face", &Mesh::face, py::return_value_policy::reference_internal)
         .def("get_vertices", &Mesh::getVertices)
         .def("get_vertex_indices", &Mesh::getVertexIndices)
         .def("num_vertices", &Mesh::numVertices)
-- 
2.43.0


From 11925fe88d744549e5a270bd9fa26862e9936dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:11:38 +0000
Subject: [PATCH 52/53] fix: keep the quadrics of simplification independent of
 the mesh scale

---
 src/tinymesh/remesh/simplify.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/remesh/simplify.cpp b/src/tinymesh/remesh/simplify.cpp
index c2cc5ae..b682a73 100644
--- a/src/tinymesh/remesh/simplify.cpp
+++ b/src/tinymesh/remesh/simplify.cpp
@@ -113,7 +113,6 @@ double computeQEM(const Matrix4 &m1, const Matrix4 &m2, const Vertex &v1, const
 }
 
 void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
-    static const double Eps = 1.0e-12;
     const int numTargetRemove = (int)mesh.numFaces() - numTarget;
     Assertion(numTarget > 0, "Target face number is equal or less than 0!");
 
@@ -156,7 +155,9 @@ void simplifyQEM(Mesh &mesh, int numTarget, int maxTrials, bool verbose) {
 
             Vec3 norm = cross(vs[1]->pos() - vs[0]->pos(), vs[2]->pos() - vs[0]->pos());
             const double w = length(norm);
-            norm /= (w + Eps);
+            if (w != 0.0) {
+                norm /= w;
+            }
 
             const double nx = norm.x();
             const double ny = norm.y();
-- 
2.43.0


From ec657ff805fb1391c4cec2f8bd660ca62812776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:06:59 +0000
Subject: [PATCH 53/53] fix: keep the mixture fit of context-coherent
 completion from collapsing

A component of the mixture can end up with a single vertex. Its variance
then becomes zero, every estimate turns into NaN, and the patch radius is
computed by converting NaN to an integer. Large curvatures caused the same
by underflow of the densities.

Bound the variances from below and compute the weights from logarithms.
---
 src/tinymesh/restore/completion.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 869f815..dd19971 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -1,7 +1,10 @@
 #define TINYMESH_API_EXPORT
 #include "restore.h"
 
+#include <algorithm>
+#include <cmath>
 #include <iostream>
+#include <limits>
 #include <queue>
 #include <functional>
 #include <unordered_map>
@@ -130,15 +133,23 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
     std::vector<double> mus = { 0.0, 0.5 * maxK, maxK };
     std::vector<double> vars = { 1.0, 1.0, 1.0 };
 
-    auto gauss = [](double x, double v) -> double { return std::exp(-0.5 * x * x / v) / std::sqrt(2.0 * Pi * v); };
+    // Variances are bounded from below because a component can shrink to a single vertex
+    const double tiny = std::numeric_limits<double>::min();
+    const double minVar = std::max(1.0e-12 * maxK * maxK, tiny);
+    auto logGauss = [](double x, double v) -> double { return -0.5 * (x * x / v + std::log(2.0 * Pi * v)); };
 
     for (int kIter = 0; kIter < 20; kIter++) {
         // E step
         std::vector<std::vector<double>> gamma(mesh.numVertices(), std::vector<double>(3, 0.0));
         for (int i = 0; i < mesh.numVertices(); i++) {
+            for (int k = 0; k < 3; k++) {
+                gamma[i][k] = std::log(pis[k]) + logGauss(mus[k] - maxCurves[i], vars[k]);
+            }
+
+            const double maxLog = *std::max_element(gamma[i].begin(), gamma[i].end());
             double sumWgt = 0.0;
             for (int k = 0; k < 3; k++) {
-                gamma[i][k] = pis[k] * gauss(mus[k] - maxCurves[i], vars[k]);
+                gamma[i][k] = std::exp(gamma[i][k] - maxLog);
                 sumWgt += gamma[i][k];
             }
 
@@ -158,7 +169,7 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
         mus.assign(3, 0.0);
         for (int i = 0; i < mesh.numVertices(); i++) {
             for (int k = 0; k < 3; k++) {
-                const double Npi = mesh.numVertices() * pis[k];
+                const double Npi = std::max(mesh.numVertices() * pis[k], tiny);
                 mus[k] += gamma[i][k] * maxCurves[i] / Npi;
             }
         }
@@ -166,11 +177,14 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
         vars.assign(3, 0.0);
         for (int i = 0; i < mesh.numVertices(); i++) {
             for (int k = 0; k < 3; k++) {
-                const double Npi = mesh.numVertices() * pis[k];
+                const double Npi = std::max(mesh.numVertices() * pis[k], tiny);
                 const double diff = maxCurves[i] - mus[k];
                 vars[k] += gamma[i][k] * diff * diff / Npi;
             }
         }
+        for (int k = 0; k < 3; k++) {
+            vars[k] = std::max(vars[k], minVar);
+        }
     }
     Print("GMM[0]: pi=%.3f, mu=%.3f, sigma=%.3f\n", pis[0], mus[0], std::sqrt(vars[0]));
     Print("GMM[1]: pi=%.3f, mu=%.3f, sigma=%.3f\n", pis[1], mus[1], std::sqrt(vars[1]));
@@ -178,7 +192,7 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
 
     const double patchRadiusReal = (1.0 / (avgLen * mus[1]) + 1.0) * avgLen;
     Print("R = %f (avgLen = %f)\n", patchRadiusReal, avgLen);
-    const int patchRadius = (int)std::ceil(patchRadiusReal / avgLen);
+    const int patchRadius = (int)std::ceil(std::min(patchRadiusReal / avgLen, (double)mesh.numFaces()));
 
     // 2. Compute heat kernel signatures
     int hksDims = -1;
-- 
2.43.0

