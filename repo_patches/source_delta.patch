From 484e02e8fcd930805971f28c13616e5e1cb0c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:40 +0000
Subject: [PATCH 01/16] fix: reject knots that are not numbers

Every comparison with NaN is false, so the ordering test let a NaN knot pass
both the constructors and IsValid().
---
 src/Core/KnotVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 75cbc22..ade70cf 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -13,7 +13,7 @@ static bool ValidateKnots(const vector<Numeric>& knots)
     Numeric last_value = 0.0;
     for (Numeric val : knots)
     {
-        if (val < last_value) return false;
+        if (!(val >= last_value)) return false;
         last_value = val;
     }
     if (last_value != 1.0) return false;
@@ -90,7 +90,7 @@ bool KnotVector::IsValid() const
     if (m_Values.back() != 1.0) return false;
     for (int i = 1; i < (int)m_Values.size(); ++i)
     {
-        if (m_Values[i] < m_Values[i - 1]) return false;
+        if (!(m_Values[i] >= m_Values[i - 1])) return false;
     }
     return true;
 }
-- 
2.43.0


From 56bda0487943113f081dd3c7273bcea02d95fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:40 +0000
Subject: [PATCH 02/16] fix: GetKnotPairs reports the first position of every
 knot

All entries but the last carried the position after the knot's group.
---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index ade70cf..12dbef9 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -73,7 +73,7 @@ vector<KnotVector::KnotPair> KnotVector::GetKnotPairs() const
         Numeric val = m_Values[i];
         if (val != last_value)
         {
-            result.emplace_back(i, last_value, multiplicity);
+            result.emplace_back(i - multiplicity, last_value, multiplicity);
             last_value = val;
             multiplicity = 1;
         }
-- 
2.43.0


From 9d9a277383067dc0c107a8e5f0539211ce10e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:40 +0000
Subject: [PATCH 03/16] fix: IsClamped compares multiplicities

It compared the number of leading zeros with the index of the last knot that
is not one, so clamped vectors were reported as not clamped.
---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 12dbef9..ec0f60e 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -106,7 +106,7 @@ bool KnotVector::IsClamped() const
     {
         if (m_Values[count1] != 1.0) break;
     }
-    return count0 == count1;
+    return count0 == (int)m_Values.size() - 1 - count1;
 }
 
 bool KnotVector::IsUniform() const
-- 
2.43.0


From d7f7c06c0004617e96f55513d326d3d24ef46c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:11 +0000
Subject: [PATCH 04/16] fix: extending a bounding box by a point keeps its
 upper bound

The new upper bound was computed from the lower one, so the box shrank.
---
 include/libnurbs/Core/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/BoundingBox.hpp b/include/libnurbs/Core/BoundingBox.hpp
index a42c058..0318ad1 100644
--- a/include/libnurbs/Core/BoundingBox.hpp
+++ b/include/libnurbs/Core/BoundingBox.hpp
@@ -23,7 +23,7 @@ namespace libnurbs
         void ExpandToInclude(const Vec3& point)
         {
             Min = Min.cwiseMin(point);
-            Max = Min.cwiseMax(point);
+            Max = Max.cwiseMax(point);
         }
 
         void ExpandToInclude(const BoundingBox& box)
-- 
2.43.0


From e13d7722e8852cc03137570a8482ab721059210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:12 +0000
Subject: [PATCH 05/16] fix: Grid::InsertU accepts a value from the grid itself

Resizing and shifting the cells invalidated the reference to the value
(InsertV, built on vector::insert, already allows this).
---
 include/libnurbs/Core/Grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/Grid.hpp b/include/libnurbs/Core/Grid.hpp
index 88b62ac..148adf5 100644
--- a/include/libnurbs/Core/Grid.hpp
+++ b/include/libnurbs/Core/Grid.hpp
@@ -109,6 +109,7 @@ namespace libnurbs
         void InsertU(int u_index, const T& default_value = T())
         {
             assert(u_index >= 0 && u_index < UCount);
+            const T new_value = default_value; // may refer to a cell of this grid
             int float_idx = UCount * VCount - 1;
             UCount += 1;
             Values.resize(UCount * VCount);
@@ -127,7 +128,7 @@ namespace libnurbs
                 {
                     Values[i] = std::move(Values[float_idx--]);
                 }
-                Values[insertion_idx] = default_value;
+                Values[insertion_idx] = new_value;
             }
         }
     };
-- 
2.43.0


From 5c0dfaf3b6f62053641357eac1dc5bb677a19c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 06/16] fix: remove a knot at most as often as it is in the
 knot vector

For a knot that is not there, or for more copies than there are, the removal
read and wrote outside the control points and knots.
---
 src/Algorithm/KnotRemoval.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 97a6ac5..7f42186 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -24,14 +24,19 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        auto& knots = knot_vector.Values();
+        int s = knot_vector.GetMultiplicity(knot_remove);
+
+        // A knot can be removed at most as often as it is there
+        times = std::min(times, s);
+        if (times <= 0) return 0;
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
             point.head<3>() *= point.w();
         }
 
-        auto& knots = knot_vector.Values();
-        int s = knot_vector.GetMultiplicity(knot_remove);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
         double tol = CalcTOL(points, tolerance);
-- 
2.43.0


From 7648c74c92690c905408208f03c6532d69aad72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 07/16] fix: an unsuccessful knot removal returns the original
 control points

They were left in homogeneous form, which is a different rational curve.
---
 src/Algorithm/KnotRemoval.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 7f42186..afa7bb7 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -31,6 +31,8 @@ namespace libnurbs
         times = std::min(times, s);
         if (times <= 0) return 0;
 
+        const std::vector<Vec4> original_points = points;
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
@@ -101,7 +103,11 @@ namespace libnurbs
         }
 
         // no remove operation succeeded
-        if (t == 0) return t;
+        if (t == 0)
+        {
+            points = original_points;
+            return t;
+        }
 
         int j = (2 * r - s - degree) / 2, i = j;
         for (int k = 1; k < t; k++)
-- 
2.43.0


From 13584beee88a6a01e2b3d9deae4d920b13255242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 08/16] fix: a partial knot removal drops only the knots it
 removed

When fewer than the requested copies could be removed, the requested number of
knots and control points was dropped nevertheless.
---
 src/Algorithm/KnotRemoval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index afa7bb7..4de4e7f 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -121,14 +121,14 @@ namespace libnurbs
         {
             points[j] = points[k];
         }
-        points.resize(points.size() - times);
+        points.resize(points.size() - t);
 
         /* Update knot vector */
         for (int k = r + 1; k <= m; k++)
         {
-            knots[k - times] = knots[k];
+            knots[k - t] = knots[k];
         }
-        knots.resize(knots.size() - times);
+        knots.resize(knots.size() - t);
 
         // Convert to Cartesian Coordinate
         for (auto& point: points)
-- 
2.43.0


From b4592a9466e24fcda2c6d0a9e72da766203d9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:58 +0000
Subject: [PATCH 09/16] fix: knot removal honours its tolerance for small
 weights

The bound on the homogeneous deviation was scaled with the largest homogeneous
instead of the largest Cartesian point; with weights below one knots were removed
although the curve then moves by more than the tolerance.
---
 src/Algorithm/KnotRemoval.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 4de4e7f..b2ddf5b 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -31,6 +31,9 @@ namespace libnurbs
         times = std::min(times, s);
         if (times <= 0) return 0;
 
+        // The tolerance bounds the deviation of the curve, so it is scaled with the Cartesian points
+        double tol = CalcTOL(points, tolerance);
+
         const std::vector<Vec4> original_points = points;
 
         // Convert to Homogeneous Coordinate
@@ -41,8 +44,6 @@ namespace libnurbs
 
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
-        double tol = CalcTOL(points, tolerance);
-
         int n = (int)points.size() - 1;
         int m = n + degree + 1;
         int order = degree + 1;
-- 
2.43.0


From e91ce3077582cd9a78c7f53fbf090f1575e64794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:09 +0000
Subject: [PATCH 10/16] fix: degree elevation allocates room for every span

---
 src/Algorithm/DegreeAlgo.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 9d3d40a..53a49b5 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -53,10 +53,18 @@ namespace libnurbs
         int cind = 1;
         double ua = knots[0];
 
-        std::vector<Vec4> Qw((n + times) * 2);
+        // one Bezier segment per distinct inner knot, each of which adds `times` points
+        int span_count = 1;
+        for (int i = degree + 1; i < m - degree; i++)
+        {
+            if (!Approx(knots[i], knots[i + 1])) ++span_count;
+        }
+        const int capacity = n + 1 + times * span_count;
+
+        std::vector<Vec4> Qw(capacity);
         Qw[0] = points[0];
 
-        std::vector<Numeric> Uh((n + times) * 2 + ph + 1);
+        std::vector<Numeric> Uh(capacity + ph + 1);
         std::fill(Uh.begin(), Uh.begin() + ph + 1, ua);
 
         std::vector<Vec4> bpts(points.begin(), points.begin() + degree + 1);
-- 
2.43.0


From 72fcd95d9db46d82f54382d46ded32b0cbe96123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:29 +0000
Subject: [PATCH 11/16] fix: surface degree elevation sizes the grid for every
 knot span

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d34bb00..2a9e15d 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -803,13 +803,13 @@ Surface Surface::ElevateDegreeU(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount + times, points_ref.VCount};
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
         auto degree = result.DegreeU;
         auto knots = result.KnotsU;
         auto points = this->ControlPoints.GetV(it_v);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_v == 0) points_ref = {static_cast<int>(points.size()), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1)
         {
             result.KnotsU = knots;
@@ -824,13 +824,13 @@ Surface Surface::ElevateDegreeV(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount + times};
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
         auto degree = result.DegreeV;
         auto knots = result.KnotsV;
         auto points = this->ControlPoints.GetU(it_u);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_u == 0) points_ref = {ControlPoints.UCount, static_cast<int>(points.size())};
         if (it_u == ControlPoints.UCount - 1)
         {
             result.KnotsV = knots;
-- 
2.43.0


From 3e4760b2350c723fc14f616ca1d75eaf67a2ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:29 +0000
Subject: [PATCH 12/16] fix: surface knot removal sizes the grid by the copies
 removed

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 2a9e15d..7c783ae 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -765,7 +765,6 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount - times, points_ref.VCount};
     int t = 0;
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
@@ -773,6 +772,7 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetV(it_v);
         int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_v != 0 && t != t_tmp) return {*this, 0};
+        if (it_v == 0) points_ref = {ControlPoints.UCount - t_tmp, ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1) result.KnotsU = knots;
         points_ref.SetV(it_v, points);
         t = t_tmp;
@@ -784,7 +784,6 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount - times};
     int t = 0;
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
@@ -792,6 +791,7 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetU(it_u);
         int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};
+        if (it_u == 0) points_ref = {ControlPoints.UCount, ControlPoints.VCount - t_tmp};
         if (it_u == ControlPoints.UCount - 1) result.KnotsV = knots;
         points_ref.SetU(it_u, points);
         t = t_tmp;
-- 
2.43.0


From c1f0568ee39beb25a792748c9554f7433f227fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:28 +0000
Subject: [PATCH 13/16] fix: loading a text file replaces the object's previous
 contents

---
 src/Curve/Curve.cpp     | 1 +
 src/Surface/Surface.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd0b05c..0081b02 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -88,6 +88,7 @@ Curve& Curve::LoadFromFile(std::istream& is)
     }
 
     // TXT mode
+    *this = Curve{};
     std::string line;
     std::string current_key;
     vector<std::string> content_lines;
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 7c783ae..e310941 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -93,6 +93,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
     else
     {
         // Text mode
+        *this = Surface{};
         std::string line;
         std::string current_key;
         std::vector<std::string> content_lines;
-- 
2.43.0


From b53209f4760302fdcc39f4c6957cbc3c576dbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:28 +0000
Subject: [PATCH 14/16] fix: surface loading rejects grid dimensions whose
 product overflows

---
 src/Surface/Surface.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index e310941..3c927f0 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -83,6 +83,10 @@ Surface& Surface::LoadFromFile(std::istream& is)
         }
 
         // Read control points
+        if (ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
+        {
+            throw std::runtime_error("Control point grid dimensions are too large.");
+        }
         int cp_count = ControlPoints.UCount * ControlPoints.VCount;
         ControlPoints.Values.resize(cp_count);
         for (int i = 0; i < cp_count; ++i)
@@ -187,6 +191,10 @@ Surface& Surface::LoadFromFile(std::istream& is)
                 }
 
                 // Read control points
+                if (ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
+                {
+                    throw std::runtime_error("Control point grid dimensions are too large.");
+                }
                 int expected_cp_count = ControlPoints.UCount * ControlPoints.VCount;
                 if (static_cast<int>(lines.size() - 1) != expected_cp_count)
                 {
-- 
2.43.0


From 46f8acd804bef845d34b9f60f6b8b38f520a0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:29 +0000
Subject: [PATCH 15/16] fix: saving to a named file reports data that could not
 be written

---
 src/Curve/Curve.cpp     | 5 +++++
 src/Surface/Surface.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 0081b02..89c1f00 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -219,6 +219,11 @@ void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 3c927f0..a9214eb 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -284,6 +284,11 @@ void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 
-- 
2.43.0


From d2603a683f169e75ca5ac87b5e7d5291f4729042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:52 +0000
Subject: [PATCH 16/16] fix: the bounding box of a rational curve is computed
 in homogeneous coordinates

---
 src/Curve/Curve.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 89c1f00..f16911d 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -595,7 +595,7 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
 
     auto to3 = [&](const Vec4& v) -> Vec3
     {
-        return v.head<3>();
+        return v.head<3>() / v.w();
     };
 
     // if p <= 5, use static buffer
@@ -606,6 +606,11 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
     BoundingBox globalBox;
     for (auto& seg : segments)
     {
+        // subdivide in homogeneous coordinates, otherwise rational curves are cut wrongly
+        for (auto& point : seg.ControlPoints)
+        {
+            point = ToHomo(point);
+        }
         stack<vector<Vec4>> stack;
         stack.push(std::move(seg.ControlPoints));
         while (!stack.empty())
-- 
2.43.0

