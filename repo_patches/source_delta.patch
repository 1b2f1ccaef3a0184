From e76e31c66158eb45303b8abae1ec647bf622167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 01/23] fix: path cost is the length of the traversed
 connections

The cost of a solved path accumulated the roadmap weights at positions given
by vertex ids instead of the weights of the connections on the path. Use the
distance computed by the graph search.
---
 include/hrm/planners/HighwayRoadMap-inl.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index a14b876..c1a104e 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -148,15 +148,12 @@ void HighwayRoadMap<RobotType, ObjectType>::search() {
             } catch (AStarFoundGoal found) {
                 // Record path and cost
                 num = 0;
-                res_.solutionPath.cost = 0.0;
+                res_.solutionPath.cost = d[idxG];
                 res_.solutionPath.PathId.push_back(int(idxG));
                 while (res_.solutionPath.PathId[num] != int(idxS) &&
                        num <= num_vtx) {
                     res_.solutionPath.PathId.push_back(
                         int(p[size_t(res_.solutionPath.PathId[num])]));
-                    res_.solutionPath.cost +=
-                        res_.graphStructure
-                            .weight[size_t(res_.solutionPath.PathId[num])];
                     num++;
                 }
                 std::reverse(std::begin(res_.solutionPath.PathId),
-- 
2.43.0


From 9b341c73d37eac220f18166c44a9f66ba9a9e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 02/23] fix: interpolation with zero steps returns both ends

The two end configurations were overwritten by an interpolation that divides
by the number of steps, and a path of zero cost made the number of steps
undefined.
---
 src/planners/HRM3D.cpp      | 12 ++++++++----
 src/util/InterpolateSE3.cpp |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d5295b1..d6619c1 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -281,10 +281,14 @@ hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
 
     // Iteratively store interpolated poses along the solved path
     for (size_t i = 0; i < res_.solutionPath.solvedPath.size() - 1; ++i) {
-        const auto numStep = static_cast<int>(
-            vectorEuclidean(res_.solutionPath.solvedPath.at(i),
-                            res_.solutionPath.solvedPath.at(i + 1)) /
-            distanceStep);
+        // Only both ends are stored if the path has no length
+        const auto numStep =
+            distanceStep > 0.0
+                ? static_cast<int>(
+                      vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                      res_.solutionPath.solvedPath.at(i + 1)) /
+                      distanceStep)
+                : 0;
 
         std::vector<std::vector<Coordinate>> stepInterp =
             interpolateCompoundSE3Rn(res_.solutionPath.solvedPath.at(i),
diff --git a/src/util/InterpolateSE3.cpp b/src/util/InterpolateSE3.cpp
index 8b9410d..fb4eefb 100644
--- a/src/util/InterpolateSE3.cpp
+++ b/src/util/InterpolateSE3.cpp
@@ -34,7 +34,7 @@ std::vector<std::vector<hrm::Coordinate>> hrm::interpolateCompoundSE3Rn(
     std::vector<std::vector<Coordinate>> vInterp;
 
     if (numStep == 0) {
-        vInterp = std::vector<std::vector<Coordinate>>({vStart, vEnd});
+        return {vStart, vEnd};
     }
 
     if (vStart.size() == 7) {
-- 
2.43.0


From 673a2dc02efb5a4c4bfea7442867a8463083a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 03/23] fix: HRM3D path interpolation overrides the base
 operation

The parameter type differed from the virtual operation of the base class, so
plan() reported the solved path itself as the interpolated path.
---
 include/hrm/planners/HRM3D.h | 2 +-
 src/planners/HRM3D.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index fca0225..429f20a 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -28,7 +28,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
 
     /** \brief Get the resulting solved path and the interpolated one */
     std::vector<std::vector<Coordinate>> getInterpolatedSolutionPath(
-        const Index num);
+        const unsigned int num) override;
 
     /** \brief Get free line segment at one specific C-slice
      * \param bd Pointer to Minkowski boundaries
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d6619c1..cf40c66 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -270,7 +270,7 @@ void hrm::planners::HRM3D::connectExistSlice(const Index sliceId) {
 }
 
 std::vector<std::vector<hrm::Coordinate>>
-hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
+hrm::planners::HRM3D::getInterpolatedSolutionPath(const unsigned int num) {
     std::vector<std::vector<Coordinate>> pathInterp;
 
     // Compute distance per step
-- 
2.43.0


From 62c9fb66288bda9aaf69d3f5a9f30f533285c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 04/23] fix: closest orientation is initialised with the first
 slice

When the first slice was the closest one, an uninitialised quaternion was used
to select the slices to be searched.
---
 src/planners/HRM3D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index cf40c66..06be7e3 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -454,7 +454,7 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     std::vector<Vertex> idx;
 
     Eigen::Quaterniond queryQuat(vertex[3], vertex[4], vertex[5], vertex[6]);
-    Eigen::Quaterniond minQuat;
+    Eigen::Quaterniond minQuat = q_[0];
 
     // Find the closest C-slice
     minQuatDist = queryQuat.angularDistance(q_[0]);
-- 
2.43.0


From 9f229bf3bd204c3f6285961055dd9a27db861525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 05/23] fix: HRM2D handles one and two orientation slices

Two slices made the connection step access a third one and throw; a single
slice got an undefined heading.
---
 src/planners/HRM2D.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f1b2f23..0b60eba 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -44,7 +44,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
-    const double dr = 2 * PI / (static_cast<double>(param_.numSlice) - 1);
+    const double dr =
+        param_.numSlice > 1
+            ? 2 * PI / (static_cast<double>(param_.numSlice) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numSlice; ++i) {
         headings_.push_back(-PI + dr * static_cast<double>(i));
     }
@@ -111,8 +114,13 @@ void hrm::planners::HRM2D::connectMultiSlice() {
         startIdCur = vertexIdx_.at(i).startId;
         endIdCur = vertexIdx_.at(i).slice;
 
+        // Two C-slices only have one connection between them
+        if (i == param_.numSlice - 1 && param_.numSlice == 2) {
+            break;
+        }
+
         // Find the nearest C-slice
-        if (i == param_.numSlice - 1 && param_.numSlice != 2) {
+        if (i == param_.numSlice - 1) {
             j = 0;
         } else {
             j = i + 1;
-- 
2.43.0


From 5f184d049c180dbdad67b0157f9aeae8f349b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 06/23] fix: only use intersection points that exist

The second intersection of a line with a boundary was read after only checking
that there is a first one.
---
 src/datastructure/FreeSpace2D.cpp |  4 ++--
 src/datastructure/FreeSpace3D.cpp |  4 ++--
 src/planners/HRM2D.cpp            |  2 +-
 src/planners/HRM3D.cpp            | 19 +++++++------------
 4 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 0a5e643..aed1298 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -18,7 +18,7 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
         for (auto j = 0; j < cSpaceBoundary_.arena.size(); ++j) {
             const auto intersectPointArena = intersectHorizontalLinePolygon2D(
                 tLine.at(0).at(i), cSpaceBoundary_.arena.at(j));
-            if (intersectPointArena.empty()) {
+            if (intersectPointArena.size() < 2) {
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
@@ -36,7 +36,7 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
             const auto intersectPointObstacle =
                 intersectHorizontalLinePolygon2D(
                     tLine.at(0).at(i), cSpaceBoundary_.obstacle.at(j));
-            if (intersectPointObstacle.empty()) {
+            if (intersectPointObstacle.size() < 2) {
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 7d6e8e9..cca6d5d 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -37,7 +37,7 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
             const auto intersectPointArena = intersectVerticalLineMesh3D(
                 lineZ, cSpaceBoundaryMesh_.arena.at(j));
 
-            if (intersectPointArena.empty()) {
+            if (intersectPointArena.size() < 2) {
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
@@ -54,7 +54,7 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
             const auto intersectPointObstacle = intersectVerticalLineMesh3D(
                 lineZ, cSpaceBoundaryMesh_.obstacle.at(j));
 
-            if (intersectPointObstacle.empty()) {
+            if (intersectPointObstacle.size() < 2) {
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 0b60eba..b458abc 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -278,7 +278,7 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
     for (const auto& bound : bridgeSliceBound_.at(bdIdx).obstacle) {
         auto intersectObs = intersectHorizontalLinePolygon2D(v[1], bound);
 
-        if (!intersectObs.empty()) {
+        if (intersectObs.size() >= 2) {
             if (v[0] > std::fmin(intersectObs[0], intersectObs[1]) &&
                 v[0] < std::fmax(intersectObs[0], intersectObs[1])) {
                 return false;
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 06be7e3..3678db9 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -342,17 +342,12 @@ bool hrm::planners::HRM3D::isSameSliceTransitionFree(
             const auto intersectObs = intersectLineMesh3D(line_, obs);
 
             // Check line segments overlapping
-            if (!intersectObs.empty()) {
-                // Dot product between vectors (t1->intersect) and
-                // (t2->intersect)
-                const auto s0 =
-                    (intersectObs[0] - t1_).dot(intersectObs[0] - t2_);
-                const auto s1 =
-                    (intersectObs[1] - t1_).dot(intersectObs[1] - t2_);
-
-                // Intersect within segment (t1, t2) iff dot product
-                // less than 0
-                isIntersect = ((s0 < 0) || (s1 < 0));
+            for (const auto& point : intersectObs) {
+                // Intersect within segment (t1, t2) iff dot product between
+                // vectors (t1->intersect) and (t2->intersect) less than 0
+                if ((point - t1_).dot(point - t2_) < 0) {
+                    isIntersect = true;
+                }
             }
 
             return isIntersect;
@@ -410,7 +405,7 @@ bool hrm::planners::HRM3D::isPtInCFree(const Index bdIdx,
             const auto intersectObs =
                 intersectVerticalLineMesh3D(lineZ_, bound);
 
-            if (!intersectObs.empty()) {
+            if (intersectObs.size() >= 2) {
                 isIntersect =
                     v_[2] > std::fmin(intersectObs[0][2], intersectObs[1][2]) &&
                     v_[2] < std::fmax(intersectObs[0][2], intersectObs[1][2]);
-- 
2.43.0


From 3291f0c9f054c664c1bed7a7e9b17c0a1e36671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 07/23] fix: a crossing shared by adjacent faces or edges
 counts once

A line through a vertex or an edge of a boundary reported the same point twice,
so the interval covered by an obstacle on that line had zero length and the
obstacle was ignored.
---
 src/geometry/LineIntersection.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 0af8445..5e02804 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -4,6 +4,11 @@
 
 #include <iostream>
 
+namespace {
+/** \brief Crossings closer than this are regarded as the same point */
+const double duplicateTol = 1e-8;
+}  // namespace
+
 std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
                                                       const MeshMatrix& shape) {
     std::vector<Point3D> points;
@@ -41,7 +46,9 @@ std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
         // keep only interesting points
         bool hasIntersect = intersectLineTriangle3D(line, t0, u, v, pt);
 
-        if (hasIntersect) {
+        // crossing shared with an adjacent face only counts once
+        if (hasIntersect && (points.empty() ||
+                             (pt - points.front()).norm() > duplicateTol)) {
             points.push_back(pt);
         }
 
@@ -111,7 +118,9 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
         // keep only interesting points
         bool hasIntersect = intersectLineTriangle3D(line, t0, u, v, pt);
 
-        if (hasIntersect) {
+        // crossing shared with an adjacent face only counts once
+        if (hasIntersect && (points.empty() ||
+                             (pt - points.front()).norm() > duplicateTol)) {
             points.push_back(pt);
         }
 
@@ -239,7 +248,12 @@ std::vector<double> hrm::intersectHorizontalLinePolygon2D(
         if (ty >= std::fmin(y1, y2) && ty <= std::fmax(y1, y2)) {
             double t = (ty - y2) / (y1 - y2);
             if (t >= 0.0 && t <= 1.0) {
-                points.push_back(t * x1 + (1.0 - t) * x2);
+                // crossing shared with an adjacent edge only counts once
+                const double x = t * x1 + (1.0 - t) * x2;
+                if (points.empty() ||
+                    std::fabs(x - points.front()) > duplicateTol) {
+                    points.push_back(x);
+                }
             }
         }
     }
-- 
2.43.0


From b339a303111d209fd98982690213e8f891a6474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 08/23] fix: each slice is built for the robot at its own
 orientation

The free space computator keeps its own copy of the robot, which was never
transformed: every C-slice had the boundaries of the initial pose.
---
 include/hrm/planners/HRM2D.h   |  4 ++++
 include/hrm/planners/HRM2DKC.h |  2 ++
 include/hrm/planners/HRM3D.h   |  4 ++++
 src/planners/HRM2D.cpp         |  7 ++++++-
 src/planners/HRM2DKC.cpp       | 14 +++++++++-----
 src/planners/HRM3D.cpp         |  7 ++++++-
 6 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 331837d..1601f9d 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -40,6 +40,10 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
     virtual void generateVertices(const Coordinate tx,
                                   const FreeSegment2D& freeSeg) override;
 
+    /** \brief Update the robot in the free space computator according to its
+     * current transformation */
+    virtual void updateFreeSpaceRobot();
+
     void sweepLineProcess() override;
 
     virtual void connectMultiSlice() override;
diff --git a/include/hrm/planners/HRM2DKC.h b/include/hrm/planners/HRM2DKC.h
index 454af82..a311d6d 100644
--- a/include/hrm/planners/HRM2DKC.h
+++ b/include/hrm/planners/HRM2DKC.h
@@ -25,6 +25,8 @@ class HRM2DKC : public HRM2D {
     ~HRM2DKC();
 
   private:
+    void updateFreeSpaceRobot() override;
+
     void connectMultiSlice() override;
 
     /** \brief Add a middle vertex between two vertices for edge connection
diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index 429f20a..ad8ed36 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -60,6 +60,10 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
 
     virtual void sampleOrientations() override;
 
+    /** \brief Update the robot in the free space computator according to its
+     * current transformation */
+    void updateFreeSpaceRobot();
+
     void sweepLineProcess() override;
 
     virtual void generateVertices(const Coordinate tx,
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index b458abc..64017c9 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -23,7 +23,8 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 
     // Generate new C-slice
     if (!isRefine_) {
-        // Generate Minkowski operation boundaries
+        // Generate Minkowski operation boundaries for the transformed robot
+        updateFreeSpaceRobot();
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
@@ -53,6 +54,10 @@ void hrm::planners::HRM2D::sampleOrientations() {
     }
 }
 
+void hrm::planners::HRM2D::updateFreeSpaceRobot() {
+    freeSpacePtr_->setRobot(robot_);
+}
+
 void hrm::planners::HRM2D::sweepLineProcess() {
     // Compute vector of y-coordinates
     std::vector<Coordinate> ty(param_.numLineY);
diff --git a/src/planners/HRM2DKC.cpp b/src/planners/HRM2DKC.cpp
index e5d331f..f31658d 100644
--- a/src/planners/HRM2DKC.cpp
+++ b/src/planners/HRM2DKC.cpp
@@ -7,6 +7,15 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
                                 const std::vector<SuperEllipse>& obs,
                                 const PlanningRequest& req)
     : HRM2D(robot, arena, obs, req) {
+    // Update robot in the free space computator
+    updateFreeSpaceRobot();
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+}
+
+hrm::planners::HRM2DKC::~HRM2DKC() = default;
+
+void hrm::planners::HRM2DKC::updateFreeSpaceRobot() {
     // Enlarge the robot
     SuperEllipse baseInflated = robot_.getBase();
     baseInflated.setSemiAxis(
@@ -14,14 +23,9 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
          baseInflated.getSemiAxis().at(1) * (1 + inflationFactor_)});
     MultiBodyTree2D robot_infla(baseInflated);
 
-    // Update robot in the free space computator
     freeSpacePtr_->setRobot(robot_infla);
-    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
-                         param_.boundaryLimits[1]);
 }
 
-hrm::planners::HRM2DKC::~HRM2DKC() = default;
-
 void hrm::planners::HRM2DKC::connectMultiSlice() {
     Index n = res_.graphStructure.vertex.size();
     Index n11;
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 3678db9..1e304b3 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -32,7 +32,8 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
 
     // Add new C-slice
     if (!isRefine_) {
-        // Generate Minkowski operation boundaries
+        // Generate Minkowski operation boundaries for the transformed robot
+        updateFreeSpaceRobot();
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
@@ -60,6 +61,10 @@ void hrm::planners::HRM3D::sampleOrientations() {
     sampleSO3();
 }
 
+void hrm::planners::HRM3D::updateFreeSpaceRobot() {
+    freeSpacePtr_->setRobot(robot_);
+}
+
 void hrm::planners::HRM3D::sweepLineProcess() {
     // x- and y-coordinates of sweep lines
     std::vector<Coordinate> ty(param_.numLineY);
-- 
2.43.0


From 86a27f1697cd41dd2ff04820944c2679b4ff9891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 09/23] fix: refinement uses the data of the refined slice

Refining a roadmap doubled the number of sweep lines without enlarging the
interval storage, swept every slice against the boundaries of the slice built
last and stored vertices with the joint values of the slice sampled last.
---
 include/hrm/datastructure/FreeSpace.h   | 6 ++++++
 include/hrm/datastructure/FreeSpace3D.h | 6 ++++++
 include/hrm/planners/HRM2D.h            | 1 +
 include/hrm/planners/HRM3D.h            | 4 ++++
 src/planners/HRM2D.cpp                  | 5 +++++
 src/planners/HRM3D.cpp                  | 8 ++++++++
 src/planners/ProbHRM3D.cpp              | 7 ++++---
 7 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 66a5509..566ec54 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -69,6 +69,12 @@ class FreeSpaceComputator {
      * \return BoundaryInfo */
     const BoundaryInfo& getCSpaceBoundary() const { return cSpaceBoundary_; }
 
+    /** \brief Set C-space boundary to be intersected by sweep lines
+     * \param boundary Existing C-space boundary */
+    void setCSpaceBoundary(const BoundaryInfo& boundary) {
+        cSpaceBoundary_ = boundary;
+    }
+
     /** \brief Get intervals for line-obstacle/arena intersections
      * \return IntersectionInterval */
     const IntersectionInterval& getIntersectionInterval() const {
diff --git a/include/hrm/datastructure/FreeSpace3D.h b/include/hrm/datastructure/FreeSpace3D.h
index 2e02437..652a4b3 100644
--- a/include/hrm/datastructure/FreeSpace3D.h
+++ b/include/hrm/datastructure/FreeSpace3D.h
@@ -45,6 +45,12 @@ class FreeSpace3D : public FreeSpaceComputator<MultiBodyTree3D, SuperQuadrics> {
         return cSpaceBoundaryMesh_;
     }
 
+    /** \brief Set C-space boundary mesh to be intersected by sweep lines
+     * \param boundaryMesh Existing C-space boundary mesh */
+    void setCSpaceBoundaryMesh(const BoundaryMesh& boundaryMesh) {
+        cSpaceBoundaryMesh_ = boundaryMesh;
+    }
+
     void computeIntersectionInterval(
         const std::vector<std::vector<Coordinate>>& tLine) override;
 
diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 1601f9d..1f5d7ca 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -28,6 +28,7 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
      * \return Collision-free line segment as FreeSegment2D type */
     const FreeSegment2D& getFreeSegmentOneSlice(const BoundaryInfo& bd) {
         sliceBound_ = bd;
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
         sweepLineProcess();
         return freeSegOneSlice_;
     }
diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index ad8ed36..3cf4402 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -35,6 +35,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
      * \return Collision-free line segment as FreeSegment3D type */
     const FreeSegment3D& getFreeSegmentOneSlice(const BoundaryInfo* bd) {
         sliceBound_ = *bd;
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
         freeSpacePtr_->computeCSpaceBoundaryMesh(sliceBound_);
         sliceBoundMesh_ = freeSpacePtr_->getCSpaceBoundaryMesh();
         sweepLineProcess();
@@ -117,6 +118,9 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
     /** \param Storage of boundary surface mesh */
     std::vector<BoundaryMesh> sliceBoundMeshAll_;
 
+    /** \param Index of the C-slice under construction */
+    Index currentSliceIdx_ = 0;
+
     /** \param Collision-free line segments in one C-slice */
     FreeSegment3D freeSegOneSlice_;
 
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 64017c9..eae7392 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -30,6 +30,7 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
         sliceBoundAll_.push_back(sliceBound_);
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
     }
 
     // Sweep-line process to generate collision free line segments
@@ -59,6 +60,10 @@ void hrm::planners::HRM2D::updateFreeSpaceRobot() {
 }
 
 void hrm::planners::HRM2D::sweepLineProcess() {
+    // Storage for the current number of sweep lines
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+
     // Compute vector of y-coordinates
     std::vector<Coordinate> ty(param_.numLineY);
     const Coordinate dy =
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 1e304b3..ec36488 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -22,6 +22,8 @@ hrm::planners::HRM3D::HRM3D(const MultiBodyTree3D& robot,
 hrm::planners::HRM3D::~HRM3D() = default;
 
 void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
+    currentSliceIdx_ = sliceIdx;
+
     // Set rotation matrix to robot (rigid)
     if (isRobotRigid_) {
         setTransform({0.0, 0.0, 0.0, q_.at(sliceIdx).w(), q_.at(sliceIdx).x(),
@@ -45,6 +47,8 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
         sliceBoundMesh_ = sliceBoundMeshAll_.at(sliceIdx);
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+        freeSpacePtr_->setCSpaceBoundaryMesh(sliceBoundMesh_);
     }
 
     // Sweep-line process to generate collision free line segments
@@ -66,6 +70,10 @@ void hrm::planners::HRM3D::updateFreeSpaceRobot() {
 }
 
 void hrm::planners::HRM3D::sweepLineProcess() {
+    // Storage for the current number of sweep lines
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
+                         param_.boundaryLimits[5]);
+
     // x- and y-coordinates of sweep lines
     std::vector<Coordinate> ty(param_.numLineY);
     const double dx = (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 4067c4f..90a12ab 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -165,7 +165,8 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
 void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
                                                 const FreeSegment2D& freeSeg) {
     numVertex_.plane.clear();
-    std::vector<Coordinate> vertex(v_.back().size());
+    const std::vector<Coordinate>& config = v_.at(currentSliceIdx_);
+    std::vector<Coordinate> vertex(config.size());
 
     for (size_t i = 0; i < freeSeg.ty.size(); ++i) {
         numVertex_.plane.push_back(res_.graphStructure.vertex.size());
@@ -181,8 +182,8 @@ void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
             vertex.at(6) = robot_.getBase().getQuaternion().z();
 
             // Configuration of joints
-            for (size_t m = 7; m < v_.back().size(); ++m) {
-                vertex.at(m) = v_.back().at(m);
+            for (size_t m = 7; m < config.size(); ++m) {
+                vertex.at(m) = config.at(m);
             }
 
             // Construct a std::vector of vertex
-- 
2.43.0


From 9ed2044391b71c2d767ff66fd95b4709890a31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 10/23] fix: planning rounds of ProbHRM3D are timed separately

The build time of every further round included the search time of the round
before it.
---
 src/planners/ProbHRM3D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 90a12ab..4139d40 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -16,10 +16,11 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
 
 void hrm::planners::ProbHRM3D::plan(const double timeLim) {
-    auto start = Clock::now();
     param_.numSlice = 0;
 
     do {
+        auto start = Clock::now();
+
         // Randomly generate rotations and joint angles
         sampleOrientations();
 
-- 
2.43.0


From 056210c4bb611bafade4eb9f782eb73c8016548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 11/23] fix: OMPL2D results cover the whole search graph

Vertices and edges were exported for a number of states left from an earlier
statistic instead of the vertices of the graph, which reads past its end, and
the interpolated path replaced the path itself.
---
 src/planners/ompl_interface/OMPL2D.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/planners/ompl_interface/OMPL2D.cpp b/src/planners/ompl_interface/OMPL2D.cpp
index b4a8cf1..0a4f22d 100644
--- a/src/planners/ompl_interface/OMPL2D.cpp
+++ b/src/planners/ompl_interface/OMPL2D.cpp
@@ -21,14 +21,14 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
         ss_->simplifySolution();
         auto path = ss_->getSolutionPath();
         lengthPath_ = ss_->getSolutionPath().getStates().size();
+        for (auto *state : path.getStates()) {
+            path_.push_back(setVectorFromState(state));
+        }
 
         // Save interpolated path
         path.interpolate(INTERPOLATION_NUMBER);
         for (auto *state : path.getStates()) {
-            path_.push_back(
-                {state->as<ob::SE2StateSpace::StateType>()->getX(),
-                 state->as<ob::SE2StateSpace::StateType>()->getY(),
-                 state->as<ob::SE2StateSpace::StateType>()->getYaw()});
+            path_interp_.push_back(setVectorFromState(state));
         }
     }
 
@@ -45,7 +45,7 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
     // Save vertices and edges
     const ob::State *state;
     vertex_.clear();
-    for (auto i = 0; i < numValidStates_; ++i) {
+    for (unsigned int i = 0; i < numGraphVertex_; ++i) {
         state = pd.getVertex(i).getState()->as<ob::State>();
         vertex_.push_back(
             {state->as<ob::SE2StateSpace::StateType>()->getX(),
@@ -53,9 +53,9 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
              state->as<ob::SE2StateSpace::StateType>()->getYaw()});
     }
 
-    std::vector<std::vector<unsigned int>> edgeInfo(numValidStates_);
+    std::vector<std::vector<unsigned int>> edgeInfo(numGraphVertex_);
     edge_.clear();
-    for (auto i = 0; i < numValidStates_; i++) {
+    for (unsigned int i = 0; i < numGraphVertex_; i++) {
         pd.getEdges(i, edgeInfo[i]);
         for (auto edgeI : edgeInfo[i]) {
             edge_.emplace_back(std::make_pair(i, edgeI));
-- 
2.43.0


From 70a398df5b7d1ab96340f14137454aca02a8e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 12/23] fix: an OMPL planning call does not reuse data of
 earlier calls

Paths accumulated over calls, and planners kept the start state and the search
graph of the call before.
---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 15fba8f..d852a5b 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -62,10 +62,16 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
     const std::vector<Coordinate> &start, const std::vector<Coordinate> &goal,
     const double maxTimeInSec) {
     isSolved_ = false;
+    lengthPath_ = 0;
+    path_.clear();
+    path_interp_.clear();
     if (!ss_) {
         return isSolved_;
     }
 
+    // Remove planning data of previous calls
+    ss_->clear();
+
     // Set start and goal states for planning
     setStartAndGoalState(start, goal);
 
-- 
2.43.0


From dc5550685d196959a1dd0dccc1f1a313ed06b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 13/23] fix: enclosing ellipsoids keep the orientation of their
 principal axes

The angle of the 2D ellipse lost its sign and the 3D quaternion was built from
a reflection whenever the decomposition was not a proper rotation, so that the
result did not enclose the given ellipsoids.
---
 src/geometry/TightFitEllipsoid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index 9f1fe89..d9106f4 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -34,7 +34,7 @@ hrm::SuperEllipse hrm::getMVCE2D(const std::vector<double>& a,
     const Eigen::Matrix2d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const double angleC = acos(svd.matrixU()(0, 0));
+    const double angleC = atan2(svd.matrixU()(1, 0), svd.matrixU()(0, 0));
     const Eigen::Array2d c = svd.singularValues().array().pow(-0.5);
 
     return SuperEllipse({c(0), c(1)}, 1, {0, 0}, angleC, num);
@@ -74,7 +74,12 @@ hrm::SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a,
     const Eigen::Matrix3d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const Eigen::Quaterniond quatC(svd.matrixU());
+    // Principal axes as a proper rotation
+    Eigen::Matrix3d rotC = svd.matrixU();
+    if (rotC.determinant() < 0.0) {
+        rotC.col(2) = -rotC.col(2);
+    }
+    const Eigen::Quaterniond quatC(rotC);
     const Eigen::Array3d c = svd.singularValues().array().pow(-0.5);
 
     return SuperQuadrics({c(0), c(1), c(2)}, {1, 1}, {0, 0, 0}, quatC, num);
-- 
2.43.0


From 609d076a301c429704c35c73a384b06a2be73dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 14/23] fix: 2D Minkowski boundary uses the normal of the
 superellipse

The gradient lacked the division by the semi-axes (the 3D version has it), so
the boundary points were strictly inside the true sum for unequal semi-axes.
---
 src/geometry/SuperEllipse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index 38cd234..af6272b 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -88,9 +88,9 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
     for (auto i = 0; i < int(num_); i++) {
         the(0, i) = 2 * i * PI / (static_cast<double>(num_) - 1);
         gradPhi(0, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false);
+            2 / (a1 * eps1) * exponentialFunction(the(0, i), 2 - eps1, false);
         gradPhi(1, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true);
+            2 / (b1 * eps1) * exponentialFunction(the(0, i), 2 - eps1, true);
     }
     xMinkowski =
         getOriginShape() +
-- 
2.43.0


From 80c4e2432ba36b24034440b1dad8b4c0d7a07782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 15/23] fix: base classes with virtual operations have virtual
 destructors

---
 include/hrm/datastructure/FreeSpace.h               | 2 +-
 include/hrm/datastructure/MultiBodyTree.h           | 2 +-
 include/hrm/planners/ompl_interface/OMPLInterface.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 566ec54..07764af 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -52,7 +52,7 @@ class FreeSpaceComputator {
     FreeSpaceComputator(const RobotType& robot,
                         const std::vector<ObjectType>& arena,
                         const std::vector<ObjectType>& obstacle);
-    ~FreeSpaceComputator();
+    virtual ~FreeSpaceComputator();
 
     /** \brief Setup C-free segment structure
      * \param numLine Number of sweep lines
diff --git a/include/hrm/datastructure/MultiBodyTree.h b/include/hrm/datastructure/MultiBodyTree.h
index 3ff5462..cfbfd5a 100644
--- a/include/hrm/datastructure/MultiBodyTree.h
+++ b/include/hrm/datastructure/MultiBodyTree.h
@@ -15,7 +15,7 @@ class MultiBodyTree {
      * \param base Base as the class of a geometric type */
     MultiBodyTree(const GeomType& base) : base_(std::move(base)) {}
 
-    ~MultiBodyTree() {}
+    virtual ~MultiBodyTree() {}
 
     /** \brief Get base
      * \return Geometric model class defining the base */
diff --git a/include/hrm/planners/ompl_interface/OMPLInterface.h b/include/hrm/planners/ompl_interface/OMPLInterface.h
index d993783..d2c7455 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface.h
@@ -32,7 +32,7 @@ class OMPLInterface {
                   const std::vector<ObjectType>& arena,
                   const std::vector<ObjectType>& obstacle);
 
-    ~OMPLInterface();
+    virtual ~OMPLInterface();
 
     /** \brief Getter function for solved path */
     const std::vector<std::vector<Coordinate>>& getSolutionPath() const {
-- 
2.43.0


From d47127e6a31460964b2b26b79cb749e6624c9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 16/23] fix: robot description parsers of the planners are
 released

---
 include/hrm/planners/ProbHRM3D.h                        | 2 +-
 include/hrm/planners/ompl_interface/OMPL3DArticulated.h | 2 +-
 src/planners/ProbHRM3D.cpp                              | 2 +-
 src/planners/ompl_interface/OMPL3DArticulated.cpp       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hrm/planners/ProbHRM3D.h b/include/hrm/planners/ProbHRM3D.h
index 8c3ec93..24ac107 100644
--- a/include/hrm/planners/ProbHRM3D.h
+++ b/include/hrm/planners/ProbHRM3D.h
@@ -52,7 +52,7 @@ class ProbHRM3D : public HRM3D {
 
   private:
     /** \brief KDL parser for URDF file */
-    ParseURDF* kdl_;
+    std::shared_ptr<ParseURDF> kdl_;
 
     /** \brief Name of URDF file */
     std::string urdfFile_;
diff --git a/include/hrm/planners/ompl_interface/OMPL3DArticulated.h b/include/hrm/planners/ompl_interface/OMPL3DArticulated.h
index a8cab81..f2d8ad4 100644
--- a/include/hrm/planners/ompl_interface/OMPL3DArticulated.h
+++ b/include/hrm/planners/ompl_interface/OMPL3DArticulated.h
@@ -45,7 +45,7 @@ class OMPL3DArticulated : public OMPL3D {
 
   private:
     /** \brief KDL model */
-    ParseURDF* kdl_;
+    std::shared_ptr<ParseURDF> kdl_;
 
     /** \brief URDF file name */
     const std::string urdfFile_;
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 4139d40..45304cf 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -10,7 +10,7 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
                                     const std::vector<SuperQuadrics>& obs,
                                     const PlanningRequest& req)
     : HRM3D::HRM3D(robot, arena, obs, req), urdfFile_(std::move(urdfFile)) {
-    kdl_ = new ParseURDF(urdfFile_);
+    kdl_ = std::make_shared<ParseURDF>(urdfFile_);
 }
 
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
diff --git a/src/planners/ompl_interface/OMPL3DArticulated.cpp b/src/planners/ompl_interface/OMPL3DArticulated.cpp
index f214fdb..032d68e 100644
--- a/src/planners/ompl_interface/OMPL3DArticulated.cpp
+++ b/src/planners/ompl_interface/OMPL3DArticulated.cpp
@@ -10,7 +10,7 @@ hrm::planners::ompl_interface::OMPL3DArticulated::OMPL3DArticulated(
     : OMPL3D(lowBound, highBound, robot, arena, obs, obsMesh),
       urdfFile_(urdfFile) {
     // Parse URDF file and construct KDL tree
-    kdl_ = new ParseURDF(urdfFile_);
+    kdl_ = std::make_shared<ParseURDF>(urdfFile_);
     numJoint_ = kdl_->getKDLTree().getNrOfJoints();
 
     setStateSpace(lowBound, highBound);
-- 
2.43.0


From 2db3b01ad138a6cd4bcb8e038452660db9305166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 17/23] fix: collision mesh of a superellipse has its in-plane
 exponent

The exponents of the auxiliary superquadric were exchanged, so every mesh was a
box whatever the exponent of the superellipse.
---
 src/util/EllipsoidSQCollisionFCL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 8c9e94b..4d860c6 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -86,7 +86,7 @@ fcl::CollisionObject<double> hrm::setCollisionObjectFromSQ(
     // Mesh model
     const SuperQuadrics objAux(
         {object.getSemiAxis().at(0), object.getSemiAxis().at(1), 0.1},
-        {object.getEpsilon(), 0.1}, {0.0, 0.0, 0.0},
+        {0.1, object.getEpsilon()}, {0.0, 0.0, 0.0},
         Eigen::Quaterniond::Identity(), 10);
     const Mesh objMesh = getMeshFromSQ(objAux);
     auto modelPtr = std::make_shared<fcl::BVHModel<fcl::OBBRSS<double>>>();
-- 
2.43.0


From 49bd5b9ddf1424728f839c6639173b36bcdaf514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 18/23] fix: numeric tables keep double precision and cell
 positions

Cells were parsed as float, small values made the reader throw, and a cell that
is not a number was dropped, which shifted all cells behind it.
---
 src/util/Parse2dCsvFile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/Parse2dCsvFile.cpp b/src/util/Parse2dCsvFile.cpp
index f910e75..1c026a4 100644
--- a/src/util/Parse2dCsvFile.cpp
+++ b/src/util/Parse2dCsvFile.cpp
@@ -1,5 +1,7 @@
 #include "hrm/util/Parse2dCsvFile.h"
 
+#include <cmath>
+
 std::vector<std::vector<double>> hrm::parse2DCsvFile(
     const std::string& filename) {
     std::vector<std::vector<double>> data;
@@ -22,10 +24,11 @@ std::vector<std::vector<double>> hrm::parse2DCsvFile(
                     break;
                 }
                 try {
-                    record.emplace_back(stof(line));
+                    record.emplace_back(stod(line));
                 } catch (const std::invalid_argument& e) {
                     std::cout << "NaN found in file " << filename << " line "
                               << l << std::endl;
+                    record.emplace_back(NAN);
                     e.what();
                 }
             }
-- 
2.43.0


From 94c010267e383ca47657a6c3540ef27d5a2c2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 19/23] fix: boundary meshes use the sampling of their own
 object

---
 src/datastructure/FreeSpace3D.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index cca6d5d..09677fd 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -12,17 +12,20 @@ hrm::FreeSpace3D::FreeSpace3D(const MultiBodyTree3D& robot,
 hrm::FreeSpace3D::~FreeSpace3D() = default;
 
 void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
+    // Boundaries are stored body by body for each object
+    const Index numBody = 1 + robot_.getNumLinks();
+
     // Generate mesh for the boundaries
     cSpaceBoundaryMesh_.arena.resize(bound.arena.size());
     cSpaceBoundaryMesh_.obstacle.resize(bound.obstacle.size());
 
     for (size_t i = 0; i < bound.arena.size(); ++i) {
         cSpaceBoundaryMesh_.arena.at(i) = getMeshFromParamSurface(
-            bound.arena.at(i), arena_.at(0).getNumParam());
+            bound.arena.at(i), arena_.at(i / numBody).getNumParam());
     }
     for (size_t i = 0; i < bound.obstacle.size(); ++i) {
         cSpaceBoundaryMesh_.obstacle.at(i) = getMeshFromParamSurface(
-            bound.obstacle.at(i), obstacle_.at(0).getNumParam());
+            bound.obstacle.at(i), obstacle_.at(i / numBody).getNumParam());
     }
 }
 
-- 
2.43.0


From 571e8266835010b63876e2a3b20d57fe80732fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 20/23] fix: 2D neighbour search measures the sweep axis by its
 own limits

---
 src/planners/HRM2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index eae7392..f8ee3b8 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -350,7 +350,7 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
         }
 
         if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
-            radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
+            radius * (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
                 static_cast<double>(param_.numLineY)) {
             idx.push_back(idxSlice);
         }
-- 
2.43.0


From 3a63de3a6db24550a466ba6118d71de97a4beebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 21/23] fix: start and goal only attach to vertices of the
 examined slice

The search in a slice started from vertex 0, which may belong to another
slice; it was returned for slices without (closer) vertices, and read
from an empty roadmap.
---
 src/planners/HRM2D.cpp | 13 ++++++++-----
 src/planners/HRM3D.cpp |  7 ++++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f8ee3b8..db4bd45 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -305,13 +305,12 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     // Find the closest roadmap vertex
     double minEuclideanDist = INFINITY;
     double minAngleDist = INFINITY;
-    double minAngle = res_.graphStructure.vertex[0][2];
+    double minAngle = 0.0;
     double angleDist = 0.0;
     double euclideanDist = 0.0;
     std::vector<Vertex> idx;
 
     // Find the closest C-slice
-    minAngleDist = std::fabs(vertex[2] - minAngle);
     for (auto vtx : res_.graphStructure.vertex) {
         angleDist = std::fabs(vertex[2] - vtx[2]);
         if (angleDist < minAngleDist) {
@@ -335,9 +334,8 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     // Find the close vertex within a range (relative to the size of sweep
     // line gaps) at each C-slice
     for (double angCur : angList) {
-        Vertex idxSlice = 0;
-        minEuclideanDist =
-            vectorEuclidean(vertex, res_.graphStructure.vertex[0]);
+        Vertex idxSlice = res_.graphStructure.vertex.size();
+        minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
                 vectorEuclidean(vertex, res_.graphStructure.vertex[i]);
@@ -349,6 +347,11 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex in this C-slice
+        if (idxSlice == res_.graphStructure.vertex.size()) {
+            continue;
+        }
+
         if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
             radius * (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
                 static_cast<double>(param_.numLineY)) {
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index ec36488..3cc3315 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -489,7 +489,7 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     // Find the close vertex within a range (relative to the size of sweep line
     // gaps) at each C-slice
     for (const auto& quatCur : quatList) {
-        Vertex idxSlice = 0;
+        Vertex idxSlice = res_.graphStructure.vertex.size();
         minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
@@ -506,6 +506,11 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex in this C-slice
+        if (idxSlice == res_.graphStructure.vertex.size()) {
+            continue;
+        }
+
         if (std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
                 radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                     static_cast<double>(param_.numLineX) &&
-- 
2.43.0


From 4032ba615049ddad835ef031bbf6f945a4ed6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:35 +0000
Subject: [PATCH 22/23] fix: ablated articulated planner replaces the
 enclosing-ellipsoid step

---
 include/hrm/planners/HRM3DAblation-inl.h | 7 +++++++
 include/hrm/planners/HRM3DAblation.h     | 7 +++++++
 include/hrm/planners/ProbHRM3D.h         | 6 +++---
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/hrm/planners/HRM3DAblation-inl.h b/include/hrm/planners/HRM3DAblation-inl.h
index b35cd24..99a51f3 100644
--- a/include/hrm/planners/HRM3DAblation-inl.h
+++ b/include/hrm/planners/HRM3DAblation-inl.h
@@ -76,6 +76,13 @@ void HRM3DAblation<Planner>::computeTFE(const Eigen::Quaterniond& v1,
     tfe.clear();
 }
 
+template <class Planner>
+void HRM3DAblation<Planner>::computeTFE(const std::vector<Coordinate>& v1,
+                                        const std::vector<Coordinate>& v2,
+                                        std::vector<SuperQuadrics>& tfe) {
+    tfe.clear();
+}
+
 template <class Planner>
 void HRM3DAblation<Planner>::setCollisionObject() {
     // Setup collision object for ellipsoidal robot parts
diff --git a/include/hrm/planners/HRM3DAblation.h b/include/hrm/planners/HRM3DAblation.h
index f8adca8..75a0a97 100644
--- a/include/hrm/planners/HRM3DAblation.h
+++ b/include/hrm/planners/HRM3DAblation.h
@@ -56,6 +56,13 @@ class HRM3DAblation : public Planner {
     void computeTFE(const Eigen::Quaterniond& v1, const Eigen::Quaterniond& v2,
                     std::vector<SuperQuadrics>& tfe) override;
 
+    /** \brief Clear any computed TFE, for articulated robot
+     * \param v1, v2 Two vertices
+     * \param tfe Resulting TFE, empty */
+    virtual void computeTFE(const std::vector<Coordinate>& v1,
+                            const std::vector<Coordinate>& v2,
+                            std::vector<SuperQuadrics>& tfe);
+
     /** \brief Setup FCL collision objects for geometric models */
     void setCollisionObject();
 
diff --git a/include/hrm/planners/ProbHRM3D.h b/include/hrm/planners/ProbHRM3D.h
index 24ac107..002b6f5 100644
--- a/include/hrm/planners/ProbHRM3D.h
+++ b/include/hrm/planners/ProbHRM3D.h
@@ -46,9 +46,9 @@ class ProbHRM3D : public HRM3D {
      * angles) of the robot
      * \param tfe Resulting TFE that fully encloses the robot while under pure
      * rotational motions */
-    void computeTFE(const std::vector<Coordinate>& v1,
-                    const std::vector<Coordinate>& v2,
-                    std::vector<SuperQuadrics>& tfe);
+    virtual void computeTFE(const std::vector<Coordinate>& v1,
+                            const std::vector<Coordinate>& v2,
+                            std::vector<SuperQuadrics>& tfe);
 
   private:
     /** \brief KDL parser for URDF file */
-- 
2.43.0


From fdafaf0410b2387ccad077c1e888fb5dbbd4e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:04 +0000
Subject: [PATCH 23/23] fix: free-space limits have a value before setup

---
 include/hrm/datastructure/FreeSpace.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 07764af..f32e1a9 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -127,10 +127,10 @@ class FreeSpaceComputator {
     FreeSegment2D segment_;
 
     /** \brief Lower bound of arena */
-    double lowBound_;
+    double lowBound_ = 0.0;
 
     /** \brief Upper bound of arena */
-    double upBound_;
+    double upBound_ = 0.0;
 };
 
 }  // namespace hrm
-- 
2.43.0

