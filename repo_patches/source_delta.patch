From 1ba118e67c313c0add365ef99b17efb19020d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 01/17] fix: convert translations between scalar types

Translation2's converting constructor read private members of another
instantiation, so converting a Translation2d (or a Pose2d) to its symbolic
counterpart did not compile.
---
 include/trajopt/geometry/Translation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Translation2.hpp b/include/trajopt/geometry/Translation2.hpp
index 8b2ad7c..47384e5 100644
--- a/include/trajopt/geometry/Translation2.hpp
+++ b/include/trajopt/geometry/Translation2.hpp
@@ -55,7 +55,7 @@ class Translation2 {
    */
   template <typename U>
   constexpr explicit Translation2(const Translation2<U>& other)
-      : m_x{other.m_x}, m_y{other.m_y} {}
+      : m_x{other.X()}, m_y{other.Y()} {}
 
   /**
    * Returns the x component of the translation.
-- 
2.43.0


From 735cfb0ca7789aa200ed703e4f5ffe58ac9da7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 02/17] fix: let symbolic rotations be rotated by numeric ones

Rotation2::RotateBy() returned the argument's scalar type instead of the
common one, so rotating a Rotation2v by a Rotation2d did not compile.
---
 include/trajopt/geometry/Rotation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Rotation2.hpp b/include/trajopt/geometry/Rotation2.hpp
index 148665b..af452b2 100644
--- a/include/trajopt/geometry/Rotation2.hpp
+++ b/include/trajopt/geometry/Rotation2.hpp
@@ -90,7 +90,7 @@ class Rotation2 {
    * @return The new rotated rotation.
    */
   template <typename U>
-  constexpr Rotation2<U> RotateBy(const Rotation2<U>& other) const {
+  constexpr auto RotateBy(const Rotation2<U>& other) const {
     using R = decltype(std::declval<T>() + std::declval<U>());
     return Rotation2<R>{Cos() * other.Cos() - Sin() * other.Sin(),
                         Cos() * other.Sin() + Sin() * other.Cos()};
-- 
2.43.0


From 51e1f49b30878ba1c5aa946f474dee7089faf0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 03/17] fix: keep the minimum distance between lines and points

LinePointDistance() returns the squared distance, but the line-point and
point-line constraints squared it again before comparing it with the squared
minimum distance, so they enforced the square root of the distance asked for:
too far below 1 m, too close above.
---
 include/trajopt/constraint/LinePointConstraint.hpp      | 5 +++--
 include/trajopt/constraint/PointLineConstraint.hpp      | 6 +++---
 include/trajopt/constraint/detail/LinePointDistance.hpp | 6 +++---
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index ded526c..c66e73e 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,8 +61,9 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
-    auto dist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDist =
+        detail::SquaredLinePointDistance(lineStart, lineEnd, m_fieldPoint);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 13f362b..aca4fd1 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,9 +58,9 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
-    auto dist =
-        detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDist = detail::SquaredLinePointDistance(
+        m_fieldLineStart, m_fieldLineEnd, point);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/detail/LinePointDistance.hpp b/include/trajopt/constraint/detail/LinePointDistance.hpp
index 87c5751..5d1c565 100644
--- a/include/trajopt/constraint/detail/LinePointDistance.hpp
+++ b/include/trajopt/constraint/detail/LinePointDistance.hpp
@@ -10,9 +10,9 @@ namespace trajopt::detail {
 
 // https://www.desmos.com/calculator/cqmc1tjtsv
 template <typename T, typename U>
-decltype(auto) LinePointDistance(const Translation2<T>& lineStart,
-                                 const Translation2<T>& lineEnd,
-                                 const Translation2<U>& point) {
+decltype(auto) SquaredLinePointDistance(const Translation2<T>& lineStart,
+                                        const Translation2<T>& lineEnd,
+                                        const Translation2<U>& point) {
   using R = decltype(std::declval<T>() + std::declval<U>());
 
   auto max = [](R a, R b) {
-- 
2.43.0


From c9d982edabe285aec7052666bfa3fa53425c3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 04/17] fix: accept any heading for point-at tolerances of pi
 and more

cos() grows again beyond pi, so a larger tolerance restricted the heading
more, down to exactly facing the point at a tolerance of 2 pi.
---
 include/trajopt/constraint/PointAtConstraint.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/constraint/PointAtConstraint.hpp b/include/trajopt/constraint/PointAtConstraint.hpp
index cab8077..9f60f9d 100644
--- a/include/trajopt/constraint/PointAtConstraint.hpp
+++ b/include/trajopt/constraint/PointAtConstraint.hpp
@@ -2,7 +2,10 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
+#include <numbers>
 #include <utility>
 
 #include <sleipnir/autodiff/Variable.hpp>
@@ -59,8 +62,11 @@ class TRAJOPT_DLLEXPORT PointAtConstraint {
     auto dx = m_fieldPoint.X() - pose.X();
     auto dy = m_fieldPoint.Y() - pose.Y();
     auto dot = pose.Rotation().Cos() * dx + pose.Rotation().Sin() * dy;
-    problem.SubjectTo(dot >=
-                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));
+
+    // A heading error is at most pi, and cos() isn't monotonic beyond that
+    double cosTolerance =
+        std::cos(std::min(m_headingTolerance, std::numbers::pi));
+    problem.SubjectTo(dot >= cosTolerance * sleipnir::hypot(dx, dy));
   }
 
  private:
-- 
2.43.0


From 35efde95c23e03c6532ab431764ce7743dc7cd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 05/17] fix: keep away from an obstacle's closing edge

The edge from the last obstacle corner to the first was looked up with the
number of bumper corners, so a wrong edge was guarded, or an exception thrown,
unless bumpers and obstacle had the same number of corners.
---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 73afbc4..3d1499b 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -104,7 +104,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
         if (obstacleCornerCount >= 3) {
           WptConstraint(index, PointLineConstraint{
                                    bumperCorner,
-                                   obstacle.points.at(bumperCornerCount - 1),
+                                   obstacle.points.at(obstacleCornerCount - 1),
                                    obstacle.points.at(0), minDistance});
         }
       } else {
@@ -168,7 +168,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
           SgmtConstraint(
               fromIndex, toIndex,
               PointLineConstraint{bumperCorner,
-                                  obstacle.points.at(bumperCornerCount - 1),
+                                  obstacle.points.at(obstacleCornerCount - 1),
                                   obstacle.points.at(0), minDistance});
         }
       } else {
-- 
2.43.0


From 6ab497d8783dcc6740bdc6e7ea2e3777ba23e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 06/17] fix: apply point obstacles to all bumpers

After a bumper and an obstacle of one point each, the remaining bumpers were
skipped.
---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 3d1499b..c3d9663 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -66,7 +66,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
       WptConstraint(index,
                     PointPointConstraint{_bumpers.points.at(0),
                                          obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -128,7 +128,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
       SgmtConstraint(fromIndex, toIndex,
                      PointPointConstraint{_bumpers.points.at(0),
                                           obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
-- 
2.43.0


From 555052801977de3fefdd0b570fcbfd6540f750bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 07/17] fix: bound time steps by the spacing of all modules

Only modules next to each other in the list were compared, so the bound
depended on the order of the modules, which must not matter.
---
 src/SwerveTrajectoryGenerator.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 173e752..302b76f 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -107,17 +107,15 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   double minWidth = INFINITY;
   for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                 path.drivetrain.modules.at(i).translation.X()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                             path.drivetrain.modules.at(i).translation.X()));
-    }
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                 path.drivetrain.modules.at(i).translation.Y()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                             path.drivetrain.modules.at(i).translation.Y()));
+    for (size_t j = 0; j < i; j++) {
+      const auto& a = path.drivetrain.modules.at(j).translation;
+      const auto& b = path.drivetrain.modules.at(i).translation;
+      if (std::abs(a.X() - b.X()) != 0) {
+        minWidth = std::min(minWidth, std::abs(a.X() - b.X()));
+      }
+      if (std::abs(a.Y() - b.Y()) != 0) {
+        minWidth = std::min(minWidth, std::abs(a.Y() - b.Y()));
+      }
     }
   }
 
-- 
2.43.0


From e519dd43bb8f966848cfb0d3eeab8dac71c1ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 08/17] fix: don't bound time steps by infinity

A drivetrain whose modules all share one position, such as one with a single
module, got constraints that are infinite at every point, which the solver
refuses.
---
 src/SwerveTrajectoryGenerator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 302b76f..b0da1bb 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cmath>
 #include <utility>
 
 #include <sleipnir/optimization/OptimizationProblem.hpp>
@@ -121,10 +122,12 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
     dt.emplace_back(problem.DecisionVariable());
-    for (auto module : path.drivetrain.modules) {
-      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
-                            module.wheelMaxAngularVelocity <=
-                        minWidth);
+    if (std::isfinite(minWidth)) {
+      for (auto module : path.drivetrain.modules) {
+        problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
+                              module.wheelMaxAngularVelocity <=
+                          minWidth);
+      }
     }
   }
 
-- 
2.43.0


From 5f8c0cedabc730a4932b4c06e1418ccdcfd17736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 09/17] fix: limit the rate of progress reports per generator

The time of the last report was shared by all generators: concurrent ones
raced on it, and one that reported kept the others from reporting.
---
 src/SwerveTrajectoryGenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index b0da1bb..2bc16ab 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -43,12 +43,13 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle] {
+  callbacks.emplace_back([this, handle = handle,
+                          lastFrameTime =
+                              std::chrono::steady_clock::now()]() mutable {
     constexpr int fps = 60;
     constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
 
     // FPS limit on sending updates
-    static auto lastFrameTime = std::chrono::steady_clock::now();
     auto now = std::chrono::steady_clock::now();
     if (now - lastFrameTime < timePerFrame) {
       return;
-- 
2.43.0


From 63987e7e252c6230be01fea2853a7fb794c53e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 10/17] fix: report progress of generators that were moved

The progress callback kept a pointer to the generator it was constructed in,
so a generator that was moved or copied before Generate() read another,
possibly destroyed one.
---
 include/trajopt/SwerveTrajectoryGenerator.hpp |  2 +-
 src/SwerveTrajectoryGenerator.cpp             | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/trajopt/SwerveTrajectoryGenerator.hpp b/include/trajopt/SwerveTrajectoryGenerator.hpp
index 4e31baf..2b85f2c 100644
--- a/include/trajopt/SwerveTrajectoryGenerator.hpp
+++ b/include/trajopt/SwerveTrajectoryGenerator.hpp
@@ -70,7 +70,7 @@ class TRAJOPT_DLLEXPORT SwerveTrajectoryGenerator {
   std::vector<size_t> N;
 
   sleipnir::OptimizationProblem problem;
-  std::vector<std::function<void()>> callbacks;
+  std::vector<std::function<void(SwerveTrajectoryGenerator&)>> callbacks;
 
   void ApplyInitialGuess(const SwerveSolution& solution);
 
diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 2bc16ab..44f6b3d 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -43,9 +43,9 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle,
-                          lastFrameTime =
-                              std::chrono::steady_clock::now()]() mutable {
+  callbacks.emplace_back([handle = handle,
+                          lastFrameTime = std::chrono::steady_clock::now()](
+                             SwerveTrajectoryGenerator& self) mutable {
     constexpr int fps = 60;
     constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
 
@@ -57,8 +57,8 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
     lastFrameTime = now;
 
-    auto soln = ConstructSwerveSolution();
-    for (auto& callback : this->path.callbacks) {
+    auto soln = self.ConstructSwerveSolution();
+    for (auto& callback : self.path.callbacks) {
       callback(soln, handle);
     }
   });
@@ -278,7 +278,7 @@ expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
   GetCancellationFlag() = 0;
   problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
     for (auto& callback : callbacks) {
-      callback();
+      callback(*this);
     }
     return trajopt::GetCancellationFlag();
   });
-- 
2.43.0


From a8c7474e8bd0cecb981b89afbabd6af07cc062fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 11/17] fix: compare errors of void results for inequality

operator!= of expected<void, E> said that equal errors differ and that
different errors don't.
---
 include/trajopt/util/expected | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 3163b07..b4c348d 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -2463,7 +2463,7 @@ constexpr bool operator!=(const expected<void, E>& lhs,
                           const expected<void, F>& rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From 3f0b05d9fa1352069f39a1737ae8954e0fe456d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 12/17] fix: don't construct results over default values when
 converting

---
 include/trajopt/util/expected | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index b4c348d..c61bee9 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1668,7 +1668,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
             detail::expected_enable_from_other<T, E, U, G, const U&,
                                                const G&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1683,7 +1684,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
       detail::expected_enable_from_other<T, E, U, G, const U&, const G&>* =
           nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1697,7 +1699,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                             std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1711,7 +1714,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                            std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From f3ebbc40dbdf2c6b0b7878f404002283093f9300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 13/17] fix: restore results by construction when an operation
 throws

---
 include/trajopt/util/expected | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index c61bee9..0d0d45b 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -799,7 +799,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(rhs.get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -834,7 +834,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(std::move(rhs).get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1783,7 +1783,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1852,7 +1852,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1892,7 +1892,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1955,7 +1955,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1978,7 +1978,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 7efbab4aa72f66d1b3e41409db860bfd7d7c270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 14/17] fix: let exceptions out of assignments of results

---
 include/trajopt/util/expected | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 0d0d45b..18eeca0 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -756,7 +756,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>* =
                 nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(rhs.get());
@@ -771,7 +771,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
             detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
                                 std::is_nothrow_move_constructible<U>::value>* =
                 nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       T tmp = rhs.get();
       geterr().~unexpected<E>();
@@ -797,7 +797,8 @@ struct expected_operations_base : expected_storage_base<T, E> {
 
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(rhs.get());
+        ::new (std::addressof(this->m_val)) T(rhs.get());
+        this->m_has_val = true;
       } catch (...) {
         ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
@@ -814,7 +815,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>* =
                 nullptr>
-  void assign(expected_operations_base&& rhs) noexcept {
+  void assign(expected_operations_base&& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(std::move(rhs).get());
@@ -832,7 +833,8 @@ struct expected_operations_base : expected_storage_base<T, E> {
       geterr().~unexpected<E>();
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(std::move(rhs).get());
+        ::new (std::addressof(this->m_val)) T(std::move(rhs).get());
+        this->m_has_val = true;
       } catch (...) {
         ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
@@ -875,8 +877,10 @@ struct expected_operations_base : expected_storage_base<T, E> {
       if (rhs.m_has_val) {
         get() = std::forward<Rhs>(rhs).get();
       } else {
+        // Copy the error first, as that may throw
+        unexpected<E> tmp = std::forward<Rhs>(rhs).geterr();
         destroy_val();
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        construct_error(std::move(tmp));
       }
     } else {
       if (!rhs.m_has_val) {
@@ -936,7 +940,7 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
   }
 
   template <class Rhs>
-  void assign(Rhs&& rhs) noexcept {
+  void assign(Rhs&& rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
@@ -946,7 +950,9 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
       }
     } else {
       if (!rhs.m_has_val) {
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        ::new (std::addressof(this->m_unexpect))
+            unexpected<E>(std::forward<Rhs>(rhs).geterr());
+        this->m_has_val = false;
       }
     }
   }
-- 
2.43.0


From ca89fa6bc6ce891b8547edadf754ab246e59017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 15/17] fix: keep the old value when emplacing another throws

---
 include/trajopt/util/expected | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 18eeca0..3870d12 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1847,8 +1847,15 @@ class expected : private detail::expected_move_assign_base<T, E>,
                                T, Args&&...>::value>* = nullptr>
   void emplace(Args&&... args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      if constexpr (std::is_nothrow_move_constructible<T>::value) {
+        // Keep the old value if constructing the new one throws
+        T tmp(std::forward<Args>(args)...);
+        val().~T();
+        ::new (valptr()) T(std::move(tmp));
+      } else {
+        val().~T();
+        ::new (valptr()) T(std::forward<Args>(args)...);
+      }
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
-- 
2.43.0


From 77b5a69e03b50960f3eb18f554193246f3264eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 16/17] fix: let exceptions out of move assignments of errors

---
 include/trajopt/util/expected | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 3870d12..5d52d49 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1114,7 +1114,9 @@ struct expected_move_assign_base<T, E, false>
   expected_move_assign_base&
   operator=(expected_move_assign_base&& rhs) noexcept(
       std::is_nothrow_move_constructible<T>::value &&
-      std::is_nothrow_move_assignable<T>::value) {
+      std::is_nothrow_move_assignable<T>::value &&
+      std::is_nothrow_move_constructible<E>::value &&
+      std::is_nothrow_move_assignable<E>::value) {
     this->assign(std::move(rhs));
     return *this;
   }
-- 
2.43.0


From 97114a9efda1fe73cbb133e1bc0f21582765b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 17/17] fix: keep the distance from lines of length zero

Outlines with a repeated corner have such lines; their distance was 0/0.
---
 include/trajopt/constraint/LinePointConstraint.hpp | 9 +++++++++
 include/trajopt/constraint/PointLineConstraint.hpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index c66e73e..4bf4549 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,6 +61,15 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
+
+    // The distance to a line of length zero is that to a point
+    if (m_robotLineStart.X() == m_robotLineEnd.X() &&
+        m_robotLineStart.Y() == m_robotLineEnd.Y()) {
+      problem.SubjectTo((lineStart - m_fieldPoint).SquaredNorm() >=
+                        m_minDistance * m_minDistance);
+      return;
+    }
+
     auto squaredDist =
         detail::SquaredLinePointDistance(lineStart, lineEnd, m_fieldPoint);
     problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index aca4fd1..c28fe9b 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,6 +58,15 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
+
+    // The distance to a line of length zero is that to a point
+    if (m_fieldLineStart.X() == m_fieldLineEnd.X() &&
+        m_fieldLineStart.Y() == m_fieldLineEnd.Y()) {
+      problem.SubjectTo((point - m_fieldLineStart).SquaredNorm() >=
+                        m_minDistance * m_minDistance);
+      return;
+    }
+
     auto squaredDist = detail::SquaredLinePointDistance(
         m_fieldLineStart, m_fieldLineEnd, point);
     problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
-- 
2.43.0

