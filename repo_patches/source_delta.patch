From d921191eac62eeb3ac2c46ab54b5e690db145411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 01/42] fix: forget the heuristic goal of an earlier search

The pointer was taken from the goal test of a findPath() call and kept; a later search
without goal nodes (e.g. an occupied goal pose) then used it although the goal test,
and the pose inside of it, may be gone.
---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 35c1668..6a9be8c 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -458,6 +458,7 @@ protected:
 
         start.clear();
         goal.clear();
+        heuristic_goal = NULL;
     }
 
     void initStartPose(const PointT& pose)
-- 
2.43.0


From 7480dbc2be2f8d9da23f417c16adc94dc555bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 02/42] fix: measure the search time limit with the steady
 clock

high_resolution_clock is the system clock with libstdc++: setting the clock cut searches
off early or let them run on.
---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 6a9be8c..357480d 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -374,7 +374,7 @@ protected:
                       boost::function<void()> intermission)
     {
         if(time_limit_ > 0.0) {
-            auto now = std::chrono::high_resolution_clock::now();
+            auto now = std::chrono::steady_clock::now();
             std::chrono::milliseconds duration_milli{(int64_t) (time_limit_ * 1e3)};
             stamp_abort_ = now + duration_milli;
         }
@@ -384,7 +384,7 @@ protected:
             boost::this_thread::interruption_point();
 
             if(time_limit_ > 0.0) {
-                auto now = std::chrono::high_resolution_clock::now();
+                auto now = std::chrono::steady_clock::now();
                 if(now >= stamp_abort_) {
                     std::cerr << "abort, search took longer than " << time_limit_ << " seconds" << std::endl;
                     break;
@@ -740,7 +740,7 @@ protected:
 
     double time_limit_;
 
-    std::chrono::time_point<std::chrono::high_resolution_clock> stamp_abort_;
+    std::chrono::time_point<std::chrono::steady_clock> stamp_abort_;
 
     std::function<bool(const PathT&)> goal_candidate_function;
 };
-- 
2.43.0


From 2ba70d0f8e132d01f4f6ce2b62fbeeff30fb3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 03/42] fix: reset the headings of grid nodes with the rest of
 the node map

Start and goal nodes get the heading of their pose; the next search found it there,
reported it in its path and tested the start cell with it.
---
 include/cslibs_path_planning/generic/MapManager.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 718b50e..ae575af 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -191,6 +191,7 @@ struct GridMapManager :
         for(unsigned y = 0; y < h; ++y) {
             for(unsigned x = 0; x < w; ++x) {
                 NodeType::init(data[index(x,y)], x, y);
+                data[index(x,y)].theta = 0;
             }
         }
     }
-- 
2.43.0


From 0667dcf31b3ec6dc1b8c69d241059ed05a0a645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 04/42] fix: do not keep a released node array when allocating
 the new one fails

The array was deleted before the new one was requested; if that request failed, data
still pointed to the released memory, which the destructor deleted again.
---
 include/cslibs_path_planning/generic/MapManager.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index ae575af..1b96104 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -183,6 +183,7 @@ struct GridMapManager :
 
         if(delete_first) {
             delete[] data;
+            data = NULL;
         }
 
         if(alloc) {
@@ -263,6 +264,7 @@ public:
 
         if(delete_first) {
             delete[] data;
+            data = NULL;
         }
 
         if(alloc) {
@@ -354,6 +356,7 @@ public:
 
         if(delete_first) {
             delete[] data;
+            data = NULL;
         }
 
         if(alloc) {
-- 
2.43.0


From 27e4e3f096468ff6d7b61b22614c6b01525733f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 05/42] fix: poses less than one cell left of or below the map
 are outside of it

The coordinates were converted to unsigned first, which maps (-1, 0) to cell 0.
---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 1b96104..5690622 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -203,11 +203,11 @@ struct GridMapManager :
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
+        if((reference.x < 0) || (reference.y < 0) || (reference.x >= w) || (reference.y >= h)) {
             throw OutsideMapException();
         }
+        unsigned y = reference.y;
+        unsigned x = reference.x;
         return &data[index(x,y)];
     }
 
-- 
2.43.0


From 9d57019283d6a2b236af367a28932aa3a1957fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 06/42] fix: give nodes without a heuristic the getPoses() the
 search needs

DijkstraSearch and its relatives did not compile: only HeuristicNode had it.
---
 include/cslibs_path_planning/generic/Common.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cslibs_path_planning/generic/Common.hpp b/include/cslibs_path_planning/generic/Common.hpp
index 145078b..4c97383 100644
--- a/include/cslibs_path_planning/generic/Common.hpp
+++ b/include/cslibs_path_planning/generic/Common.hpp
@@ -102,6 +102,18 @@ struct Node : public PointT {
         memory.custom = 0;
     }
 
+    template <class AnyPoint, class Map>
+    static std::vector<NodeType*> getPoses(Map& map, const AnyPoint& p)
+    {
+        std::vector<NodeType*> res;
+
+        NodeType n;
+        NodeType::init(n, p);
+        res.push_back(map.lookup(n));
+
+        return res;
+    }
+
     double distance;
     char marked;
     char custom;
-- 
2.43.0


From 2fe53f72715576dfd4256b7efae536c528195303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 07/42] fix: find the chunk of nodes left of and below the map

The index of the chunk was off by one for coordinates that are negative
multiples of the chunk size: nodes there were looked up in the chunk
before, or outside of the chunk list, so that a search that got there
ended with an OutsideMapException or std::out_of_range.
---
 .../cslibs_path_planning/generic/MapManager.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 5690622..0c52240 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -614,10 +614,8 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / (int) chunk_size);
-        if(x < 0) cx -= 1;
-        int cy = (y / (int) chunk_size);
-        if(y < 0) cy -= 1;
+        int cx = chunkIndex(x);
+        int cy = chunkIndex(y);
 
         int cxp = cx + padding_chunks;
         int cyp = cy + padding_chunks;
@@ -638,8 +636,8 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= (int) theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / chunk_size);
-        int cy = (y / chunk_size);
+        int cx = chunkIndex(x) + padding_chunks;
+        int cy = chunkIndex(y) + padding_chunks;
 
         Chunk* chunk = chunks.at(cy * chunks_w + cx);
         return chunk != nullptr;
@@ -772,6 +770,13 @@ protected:
     mutable Bresenham2d bresenham;
     int bresenham_skips;
 
+private:
+    /// index of the chunk with a coordinate, rounded down for negative ones
+    inline int chunkIndex(int v) const {
+        int size = chunk_size;
+        return v < 0 ? (v + 1) / size - 1 : v / size;
+    }
+
 private:
     unsigned dimension;
     unsigned chunk_size;
-- 
2.43.0


From 45123b34c61ea9b8c6aaf66cfb44bfc69e96edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 08/42] fix: no stray straight-on steps for cars that only
 drive forwards

SteeringNeighborhood::advance() set the number of straight steps to come
only for cars that also drive backwards; for the others the nodes got an
uninitialised one, which forbade them to turn the wheel.
---
 include/cslibs_path_planning/generic/SteeringNeighborhood.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 2400b66..c898dbe 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -120,6 +120,7 @@ struct SteeringNeighborhood :
     template <class NodeType>
     static double advance(const NodeType* reference, SearchOptions& so, int i, int step, double& x_, double& y_, double& theta_, bool& forward_, int& steering_angle_, char& custom, double map_rotation) {
         forward_ = (i < 3) ;
+        custom = 0;
         bool initial = reference->depth < 1;
 
         if(initial &&  reference->forward != forward_) {
-- 
2.43.0


From bdd0544c38fc26a70c32979a7842335c0e142bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 09/42] fix: keep the goal pose when the search passes the
 goal's cell

The goal was a node of the node map. Car-like searches move such a node
to where they reach its cell, so that they went on to look for the pose
they had found there instead of the one they were given.
---
 .../cslibs_path_planning/generic/SearchAlgorithm.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 357480d..d8872ee 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -458,6 +458,7 @@ protected:
 
         start.clear();
         goal.clear();
+        goal_poses.clear();
         heuristic_goal = NULL;
     }
 
@@ -546,14 +547,16 @@ protected:
 
         bool outside = false;
         bool occupied = false;
-        auto goal_poses = NodeT::getPoses(map_, pose);
-        for(NodeT* g : goal_poses) {
+        auto nodes = NodeT::getPoses(map_, pose);
+        goal_poses.reserve(nodes.size());
+        for(NodeT* g : nodes) {
             try {
                 if(!map_.isOccupied(g)) {
-                    // put start node in open data structure
                     g->theta = pose.theta;
 
-                    goal.insert(g);
+                    // the search can move the node within its cell, the goal has to stay
+                    goal_poses.push_back(*g);
+                    goal.insert(&goal_poses.back());
                 }
 
             } catch(const OutsideMapException& e) {
@@ -723,6 +726,7 @@ protected:
     MapManager map_;
     std::set<const NodeT*> start;
     std::set<const NodeT*> goal;
+    std::vector<NodeT> goal_poses;
 
     const PointT* heuristic_goal;
 
-- 
2.43.0


From a79e38bb8e6bbeff378451d041ea6f7ad27fdf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 10/42] fix: expand analytically from the start node

The path was traced back from a copy of the expanded node. For the start
node there is no predecessor to go on with then, and the search ran into
a null pointer.
---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index d8872ee..c5c2ef6 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -580,10 +580,10 @@ protected:
                 PathT expansion;
                 AnalyticExpansionType::getPath(&expansion);
 
-                NodeT tmp = *current;
-                tmp.theta = expansion.begin()->theta;
-
-                PathT path = backtrack(&tmp);
+                PathT path = backtrack(current);
+                if(!path.empty()) {
+                    path.back().theta = expansion.begin()->theta;
+                }
                 path.insert(path.end(), expansion.begin(), expansion.end());
                 result = path;
                 return true;
-- 
2.43.0


From b526df5a709a5c39ef90c2c1cd1f84d02bea938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 11/42] fix: check the whole step of a car for occupied cells

The line of cells was set up with padded coordinates, which are outside
of the map for its last 32 rows and columns: nothing was checked there.
The check of the last cell looked at the first one instead. Cars drove
through obstacles.
---
 .../cslibs_path_planning/common/Bresenham2d.h  |  9 +++++++++
 .../generic/MapManager.hpp                     | 18 +++++++++---------
 src/common/Bresenham2d.cpp                     |  8 +++++++-
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/cslibs_path_planning/common/Bresenham2d.h b/include/cslibs_path_planning/common/Bresenham2d.h
index 857aefb..61ad365 100644
--- a/include/cslibs_path_planning/common/Bresenham2d.h
+++ b/include/cslibs_path_planning/common/Bresenham2d.h
@@ -43,6 +43,15 @@ public:
      */
     void setGrid(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y );
 
+    /**
+     * @brief Set the start and end without a map
+     * The line can be anywhere, also outside of a map. Only the coordinates of
+     * its cells are available then, not their values.
+     * @param start Start of the line (grid coordinates)
+     * @param end End of the line (grid coordinates)
+     */
+    void setGrid(int start_x, int start_y, int end_x, int end_y );
+
     /**
      * @brief Select next cell
      * @return False if we reached the end
diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 0c52240..04e3f5f 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -663,7 +663,7 @@ public:
     }
 
     bool isFree(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx), std::floor(sy), std::floor(ex), std::floor(ey));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -673,7 +673,7 @@ public:
         while(bresenham.next()) {
             bresenham.coordinates(x,y);
             if(skip == 0) {
-                if(!isFree(x-padding,y-padding,theta)) {
+                if(!isFree(x,y,theta)) {
                     return false;
                 }
             }
@@ -682,11 +682,11 @@ public:
             }
         }
 
-        return isFree(ex,ey,theta);
+        return isFree(std::floor(ex),std::floor(ey),theta);
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx), std::floor(sy), std::floor(ex), std::floor(ey));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -696,7 +696,7 @@ public:
         while(bresenham.next()) {
             bresenham.coordinates(x,y);
             if(skip == 0) {
-                if(!isFreeOrUnknown(x-padding,y-padding,theta)) {
+                if(!isFreeOrUnknown(x,y,theta)) {
                     //            if(isOccupied(x-padding,y-padding,theta)) {
                     return false;
                 }
@@ -706,12 +706,12 @@ public:
             }
         }
 
-        return isFreeOrUnknown(sx,sy,theta);
+        return isFreeOrUnknown(std::floor(ex),std::floor(ey),theta);
     }
 
 
     bool isOccupied(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx), std::floor(sy), std::floor(ex), std::floor(ey));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -721,7 +721,7 @@ public:
         while(bresenham.next()) {
             bresenham.coordinates(x,y);
             if(skip == 0) {
-                if(isOccupied(x-padding,y-padding,theta)){
+                if(isOccupied(x,y,theta)){
                     return true;
                 }
             }
@@ -730,7 +730,7 @@ public:
             }
         }
 
-        return isOccupied(ex,ey,theta);
+        return isOccupied(std::floor(ex),std::floor(ey),theta);
     }
 
     bool isFree(int x, int y, double theta) const {
diff --git a/src/common/Bresenham2d.cpp b/src/common/Bresenham2d.cpp
index 5020449..2fd1678 100644
--- a/src/common/Bresenham2d.cpp
+++ b/src/common/Bresenham2d.cpp
@@ -49,8 +49,14 @@ void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int en
         return;
     }
 
-    // Start/end in cell coordinates
+    setGrid(start_x, start_y, end_x, end_y);
     map_ = map;
+}
+
+void Bresenham2d::setGrid(int start_x, int start_y, int end_x, int end_y)
+{
+    // Start/end in cell coordinates
+    map_ = NULL;
     x0_ = start_x; y0_ = start_y;
     x1_ = end_x; y1_ = end_y;
 
-- 
2.43.0


From 636426f665e9e699d54021482d3b728aad4f5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 12/42] fix: keep the heading of the start when the goal is in
 the same cell

Start and goal share a node then, and its heading was set to the goal's:
the search was over at once, with the car facing the wrong way.
---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index c5c2ef6..34fb25e 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -552,11 +552,14 @@ protected:
         for(NodeT* g : nodes) {
             try {
                 if(!map_.isOccupied(g)) {
-                    g->theta = pose.theta;
-
                     // the search can move the node within its cell, the goal has to stay
                     goal_poses.push_back(*g);
+                    goal_poses.back().theta = pose.theta;
                     goal.insert(&goal_poses.back());
+
+                    if(start.find(g) == start.end()) {
+                        g->theta = pose.theta;
+                    }
                 }
 
             } catch(const OutsideMapException& e) {
-- 
2.43.0


From 2a1b720a9615cfaa6dda500a905e2f9aaef1bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 13/42] fix: release the segments of a curve that cannot be
 copied

---
 src/ReedsShepp/Curve.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 67c4a0f..15be3ba 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -40,10 +40,19 @@ Curve::Curve(const Curve& c)
       m_iterating(c.m_iterating), m_output_number(c.m_output_number),
       m_trace(c.m_trace)
 {
+    m_sequence.reserve(c.m_sequence.size());
+    try {
     for(std::vector<CurveSegment*>::const_iterator it = c.m_sequence.begin();
             it != c.m_sequence.end(); ++it) {
         m_sequence.push_back((*it)->clone());
     }
+    } catch(...) {
+        // there is no destructor call for an object that is not complete
+        for(CurveSegment* segment : m_sequence) {
+            delete segment;
+        }
+        throw;
+    }
 }
 
 Curve::~Curve()
@@ -84,6 +93,8 @@ const CurveSegment& Curve::get_segment(int index)
 
 void Curve::add(const CurveSegment& segment)
 {
+    m_sequence.reserve(m_sequence.size() + 1);
+
     CurveSegment* copy = segment.clone();
 
     assert(copy != NULL);
-- 
2.43.0


From 97fc6f87bbd7977e247ae9adfb6ca37341d45429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 14/42] fix: release the curve if its poses cannot be stored

---
 .../cslibs_path_planning/generic/ReedsSheppExpansion.hpp   | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
index 02b477c..2b7289d 100644
--- a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
+++ b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
@@ -6,6 +6,7 @@
 
 /// SYSTEM
 #include <boost/foreach.hpp>
+#include <memory>
 
 namespace lib_path {
 
@@ -94,7 +95,7 @@ struct ReedsSheppExpansion
         generator.set_cost_backwards(2.0);
         generator.set_cost_curve(1.3);
 
-        lib_path::Curve* curve = generator.find_path(*start, *goal, map_ptr, false);
+        std::unique_ptr<lib_path::Curve> curve(generator.find_path(*start, *goal, map_ptr, false));
 
         if(!curve) {
             return false;
@@ -107,9 +108,7 @@ struct ReedsSheppExpansion
             poses.push_back(n);
         }
 
-        bool result = curve->is_valid();
-        delete curve;
-        return result;
+        return curve->is_valid();
     }
 
     template <class PathT>
-- 
2.43.0


From 52d665745c4451be565d144167e4b7f6e69fecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 15/42] fix: analytic expansion without state shared by
 planners and searches

---
 .../generic/ReedsSheppExpansion.hpp                | 14 ++++----------
 .../generic/SearchAlgorithm.hpp                    |  9 +++++++--
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
index 2b7289d..56f22d8 100644
--- a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
+++ b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
@@ -122,22 +122,16 @@ struct ReedsSheppExpansion
         }
     }
 
-    static ReedsSheppExpansion& instance()
-    {
-        static ReedsSheppExpansion inst;
-        return inst;
-    }
-
     template <class T, class Map>
-    static bool canExpand(const T* start, const T* goal, const Map* map_ptr)
+    bool canExpand(const T* start, const T* goal, const Map* map_ptr)
     {
-        return instance().expand(start,goal, map_ptr);
+        return expand(start,goal, map_ptr);
     }
 
     template <class PathT>
-    static void getPath(PathT* out)
+    void getPath(PathT* out)
     {
-        instance().get(out);
+        get(out);
     }
 
 private:
diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 34fb25e..b818394 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -26,6 +26,7 @@
 #include <queue>
 #include <chrono>
 #include <functional>
+#include <memory>
 
 namespace lib_path
 {
@@ -460,6 +461,7 @@ protected:
         goal.clear();
         goal_poses.clear();
         heuristic_goal = NULL;
+        analytic_expansion.reset(new AnalyticExpansionType);
     }
 
     void initStartPose(const PointT& pose)
@@ -579,9 +581,9 @@ protected:
     bool hasPoseBeenReached(const NodeT* current)
     {
         for(const NodeT* g : goal) {
-            if(AnalyticExpansionType::canExpand(current, g, map_.getMap())) {
+            if(analytic_expansion->canExpand(current, g, map_.getMap())) {
                 PathT expansion;
-                AnalyticExpansionType::getPath(&expansion);
+                analytic_expansion->getPath(&expansion);
 
                 PathT path = backtrack(current);
                 if(!path.empty()) {
@@ -733,6 +735,9 @@ protected:
 
     const PointT* heuristic_goal;
 
+    // the state of the analytic expansion belongs to one search of one planner
+    std::unique_ptr<AnalyticExpansionType> analytic_expansion;
+
     bool use_candidates;
     std::priority_queue<GoalCandidate, std::vector<GoalCandidate>, PairDistance> goal_candidates;
     double first_candidate_weight;
-- 
2.43.0


From e69e357844ec979b9d0304b7a5badf88600b88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 16/42] fix: report when the legacy planner's node list cannot
 be allocated

---
 src/a_star/AStar.cpp    | 9 ++++++---
 src/a_star/OpenList.cpp | 5 ++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/a_star/AStar.cpp b/src/a_star/AStar.cpp
index f8f3ed4..79013a1 100644
--- a/src/a_star/AStar.cpp
+++ b/src/a_star/AStar.cpp
@@ -43,14 +43,17 @@ void AStar::setNewMap( GridMap2d* map ) {
     // Check if there is an existing map
     if ( mMap != NULL && ( mMap->getWidth() != map->getWidth() || mMap->getHeight() != map->getHeight() )) {
         cout << "AStar: Warning: Set map with new size. This takes some computation time." << endl;
+        // Keep the old list and map if there is not enough memory
+        OpenList* nodesList = new OpenList( map->getWidth(), map->getHeight());
         delete mNodesList;
-        mNodesList = NULL;
+        mNodesList = nodesList;
     }
-    mMap = map;
 
     // Create node list only if necessary
     if ( mNodesList == NULL )
-        mNodesList = new OpenList( mMap->getWidth(), mMap->getHeight());
+        mNodesList = new OpenList( map->getWidth(), map->getHeight());
+
+    mMap = map;
 }
 
 bool AStar::planPath( const waypoint_t &start, const waypoint_t &goal ) {
diff --git a/src/a_star/OpenList.cpp b/src/a_star/OpenList.cpp
index 5bfb68e..dbe72fc 100644
--- a/src/a_star/OpenList.cpp
+++ b/src/a_star/OpenList.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <stdlib.h>
 #include <iomanip>
+#include <new>
 #include <cslibs_path_planning/a_star/OpenList.h>
 
 
@@ -30,9 +31,7 @@ void OpenList::initialize() {
 	mNodesCount = mMapWidth * mMapHeight;
 	mNodesArray = (Node*)malloc(sizeof(Node) * mNodesCount);
 	if (mNodesArray == NULL) {
-		//Should raise an exception here.
-		cout << "OpenList.cpp: Fatal Error: Could not malloc " << sizeof(Node) * mNodesCount << " bytes of memory." << endl;
-		return;
+		throw std::bad_alloc();
 	}
 	Node* node = mNodesArray;
 	for (int i=0; i < mNodesCount; i++) {
-- 
2.43.0


From dee33ae9b4c04cfb15bc97261474feeeef1ec01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 17/42] fix: reset the legacy planner's nodes after a search
 ran out of memory

---
 src/a_star/OpenList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/a_star/OpenList.cpp b/src/a_star/OpenList.cpp
index dbe72fc..86bbcf2 100644
--- a/src/a_star/OpenList.cpp
+++ b/src/a_star/OpenList.cpp
@@ -70,8 +70,8 @@ void OpenList::addNode(waypoint_t position, double distance, double prediction,
 	if (!node->isInitialized()) {
 		//This node was not visited
 		//cout << "  Node is not in list. " << endl;
-		mNodesArray[positionIndex] = Node(position, distance, prediction, parent, positionIndex);
 		mUsedNodes.push_back(&mNodesArray[positionIndex]);
+		mNodesArray[positionIndex] = Node(position, distance, prediction, parent, positionIndex);
 	} else {
 		if (node->isVisited() || (distance + prediction) > node->getValue()) {
 			//cout << "  Distance of new node is higher than the old one or the node was already visited." << endl;
-- 
2.43.0


From 9b6b70e1507dbfae7f5c16e870397fdfa419714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 18/42] fix: notice that the legacy planner's map changed its
 size

---
 include/cslibs_path_planning/a_star/OpenList.h | 2 ++
 src/a_star/AStar.cpp                           | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/a_star/OpenList.h b/include/cslibs_path_planning/a_star/OpenList.h
index 30f9193..21245fd 100644
--- a/include/cslibs_path_planning/a_star/OpenList.h
+++ b/include/cslibs_path_planning/a_star/OpenList.h
@@ -27,6 +27,8 @@ public:
 	void prepareNewSearch();
 	void checkList();
 	void printList();
+	int getMapWidth() const { return mMapWidth; }
+	int getMapHeight() const { return mMapHeight; }
 
 private:
 	struct NodeValueCompare {
diff --git a/src/a_star/AStar.cpp b/src/a_star/AStar.cpp
index 79013a1..38e1383 100644
--- a/src/a_star/AStar.cpp
+++ b/src/a_star/AStar.cpp
@@ -40,8 +40,8 @@ AStar::~AStar() {
 }
 
 void AStar::setNewMap( GridMap2d* map ) {
-    // Check if there is an existing map
-    if ( mMap != NULL && ( mMap->getWidth() != map->getWidth() || mMap->getHeight() != map->getHeight() )) {
+    // Check if there is a node list for another size (the map object itself may have been resized)
+    if ( mNodesList != NULL && ( mNodesList->getMapWidth() != (int)map->getWidth() || mNodesList->getMapHeight() != (int)map->getHeight() )) {
         cout << "AStar: Warning: Set map with new size. This takes some computation time." << endl;
         // Keep the old list and map if there is not enough memory
         OpenList* nodesList = new OpenList( map->getWidth(), map->getHeight());
-- 
2.43.0


From 26047983978c646f31fd4f4389c4c6a540906347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 19/42] fix: no limit of the curve arc unless one is set

---
 src/ReedsShepp/CurveGenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index cd8d077..9920b27 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -9,6 +9,7 @@
 #include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
 
 /// SYSTEM
+#include <limits>
 #include <stdio.h>
 #include <typeinfo>
 
@@ -18,6 +19,7 @@ CurveGenerator::CurveGenerator()
     : m_use_map_cost(false), m_min_cell_cost(10),
       m_circle_radius(2.0), m_max_waypoint_distance(1.0),
       m_cost_forwards(1.0), m_cost_backwards(1.0), m_cost_curve(1.0), m_cost_straight(1.0),
+      m_max_curve_arc(std::numeric_limits<double>::infinity()),
       m_trace(-1)
 {
 }
-- 
2.43.0


From dd42a955798264d3980112e8ca1bf916896404e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 20/42] fix: weight the direct approach of a centroid goal
 region least

---
 src/sampling/CentroidRadiusGoalRegion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sampling/CentroidRadiusGoalRegion.cpp b/src/sampling/CentroidRadiusGoalRegion.cpp
index 4a370d4..645a2b9 100644
--- a/src/sampling/CentroidRadiusGoalRegion.cpp
+++ b/src/sampling/CentroidRadiusGoalRegion.cpp
@@ -52,13 +52,13 @@ bool CentroidRadiusGoalRegion::getNextGoal (Pose2d &goal, double& gain)
   goal.y = center_.y - radius_ * sin (theta_);
   goal.theta = theta_;
 
+  // Direct approach 1.0 -> approach from max angle 2.0
+  double middle = 0.5 * (samples_num_ - 1);
+  gain = middle > 0.0 ? 1.0 + fabs (counter_ - middle) / middle : 1.0;
+
   counter_++;
   theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
 
-  // Direct approach 1.0 -> approach from max angle 2.0
-  int32_t diff = (int32_t)(counter_ - (samples_num_/2));
-  gain = 1.0 + 2.0*abs (diff) / samples_num_;
-
   return true;
 }
 
-- 
2.43.0


From 82cd99c0b6b1ecdaf8b8e2fb5c96a6431168fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 21/42] fix: release the best curve found so far when the
 sampling planner is aborted

---
 src/sampling/SamplingPlanner.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/sampling/SamplingPlanner.cpp b/src/sampling/SamplingPlanner.cpp
index e666ecf..6eeb70e 100644
--- a/src/sampling/SamplingPlanner.cpp
+++ b/src/sampling/SamplingPlanner.cpp
@@ -8,6 +8,7 @@
 */ 
 #include <float.h>
 #include <stdio.h>
+#include <memory>
 #include <cslibs_path_planning/sampling/SamplingPlanner.h>
 
 using namespace lib_path;
@@ -33,7 +34,7 @@ Curve* SamplingPlanner::createPath(const Pose2d& start, GoalRegion *region, int
   region->init(samples_num);
 
   Pose2d goal;
-  Curve* best_curve=0;
+  std::unique_ptr<Curve> best_curve;
   double gain = 1.0;
   double min_cost = 999999;
   while (region->getNextGoal(goal, gain)) {
@@ -44,27 +45,18 @@ Curve* SamplingPlanner::createPath(const Pose2d& start, GoalRegion *region, int
       continue;
     }
 
-    Curve* curve=rs_generator_->find_path(start_map,goal_map, map_);
+    std::unique_ptr<Curve> curve(rs_generator_->find_path(start_map,goal_map, map_));
     if (curve && curve->is_valid()) {
 
 
       double actual_cost = gain*curve->weight();
 
       if (actual_cost<min_cost) {
-        if (best_curve!=0) {
-          delete best_curve;
-        }
-
-        best_curve=curve;
+        best_curve=std::move(curve);
         min_cost=actual_cost;
 
-      } else {
-        delete curve;
-
       }
-    } else if (curve) {
-      delete curve;
     }
   }
-  return best_curve;
+  return best_curve.release();
 }
-- 
2.43.0


From 7a3a4a983e90b4df871918a278920b0a8e1276b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 22/42] fix: points left of and below a map are outside of it

---
 include/cslibs_path_planning/common/SimpleGridMap2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index 5ccccf0..afcd216 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -176,7 +176,7 @@ public:
         { return !(x < 0 || y < 0 || x >= (int)width_ || y >= (int)height_); }
 
     bool isInMap( const double x, const double y ) const
-        { return (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
+        { return x >= origin_.x && y >= origin_.y && (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
 
     unsigned char* getData()
     {
-- 
2.43.0


From e56ac8d232c013fc2f065576964d2841e8145742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 23/42] fix: report the success of parsing a curve sequence as
 documented

---
 src/ReedsShepp/CurveGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index 9920b27..db81baa 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -176,7 +176,7 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
             out << " ";
         out << "^" << std::endl;
     }
-    return error;
+    return !error;
 }
 
 Curve* CurveGenerator::find_path(const Pose2d& start, const Pose2d& goal, const GridMap2d* map, bool ignore_obstacles)
-- 
2.43.0


From 29506fbe3d4de90ee0fe19ddee80379f2a3787ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 24/42] fix: refuse a subsequence that belongs to no curve
 segment

---
 src/ReedsShepp/CurveGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index db81baa..f015c0f 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -96,6 +96,11 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
                 error = true;
                 break;
             case 'b': {
+                if(new_curve.count() == 0) {
+                    out << "RS Generator: error parsing" << std::endl << sequence << ", no circle before the subsequence" << std::endl;
+                    error = true;
+                    break;
+                }
                 const CurveSegment& cs = new_curve.get_segment(new_curve.count() - 1);
 //                CurveSegment* cs = m_sequences[m_count].at(m_sequences[m_count].size()-1);
 
-- 
2.43.0


From ff3b3bb69628abaa0a9e590cb9743d1c483d0f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 25/42] fix: visit the first cell of a map area and none past
 its last one

---
 include/cslibs_path_planning/common/GridMap2d.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index c4caceb..a3863e9 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -303,8 +303,8 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first + center_x_;
-        y = cells_[counter_].second + center_y_;
+        x = cells_[counter_ - 1].first + center_x_;
+        y = cells_[counter_ - 1].second + center_y_;
     }
 
     virtual uint8_t getValue() const
@@ -332,7 +332,7 @@ protected:
     /// Current y coordinate of center point (cell coordinates)
     int center_y_;
 
-    /// Points to the currently selected cell
+    /// Number of cells selected so far, the last one is the current cell
     std::size_t counter_;
 };
 
@@ -372,7 +372,7 @@ public:
      * @return Previously buffered cell value.
      */
     virtual uint8_t getValue() const {
-        return values_[counter_];
+        return values_[counter_ - 1];
     }
 
     /**
@@ -380,7 +380,7 @@ public:
      * @param value Value of the currently selected cell.
      */
     virtual void setValue( const uint8_t value ) {
-        values_[counter_] = value;
+        values_[counter_ - 1] = value;
     }
 
 protected:
@@ -432,15 +432,15 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first;
-        y = cells_[counter_].second;
+        x = cells_[counter_ - 1].first;
+        y = cells_[counter_ - 1].second;
     }
 
     virtual uint8_t getValue() const
         { return value_; }
 
 protected:
-    /// Points to the current cell
+    /// Number of cells selected so far, the last one is the current cell
     std::size_t counter_;
 
     /// All cells of this area
-- 
2.43.0


From ddf40bd660f667fe6429e997e99cefad5736282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 26/42] fix: an area is unknown if its cells are unknown, not
 if they are known

---
 src/common/GridMap2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index 481acda..a57b443 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -84,7 +84,7 @@ bool GridMap2d::isAreaNoInformation(MapArea2d &area ) const
     int x, y;
     while ( area.next()) {
         area.getCell( x, y );
-        if ( isInMap( x, y ) && isNoInformation(x, y))
+        if ( isInMap( x, y ) && !isNoInformation(x, y))
             return false;
     }
     return true;
-- 
2.43.0


From 067e62625ee2daacc72737b554fe2d57b52d089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 27/42] fix: points left of and below a map are in none of its
 cells

---
 include/cslibs_path_planning/common/RotatedGridMap2d.h | 6 ++++--
 include/cslibs_path_planning/common/SimpleGridMap2d.h  | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 2b64e1a..ee6b98b 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -6,6 +6,7 @@
 
 /// SYSTEM
 #include <stdint.h>
+#include <cmath>
 #include <vector>
 
 
@@ -78,8 +79,9 @@ public:
         double rx = c * nx - s * ny;
         double ry = s * nx + c * ny;
 
-        x = (rx - origin_.x)/res_;
-        y = (ry - origin_.y)/res_;
+        // round down, also left of and below the origin
+        x = (unsigned int)(long)std::floor((rx - origin_.x)/res_);
+        y = (unsigned int)(long)std::floor((ry - origin_.y)/res_);
 
         if ( !isInMap( (int)x, (int)y ))
             return false;
diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index afcd216..a978678 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -9,6 +9,7 @@
 
 // C/C++
 #include <stdint.h>
+#include <cmath>
 #include <vector>
 
 // Project
@@ -146,8 +147,9 @@ public:
     }
 
     bool point2cell( const double px, const double py, unsigned int& x, unsigned int& y ) const {
-        x = (unsigned int)((px - origin_.x)/res_);
-        y = (unsigned int)((py - origin_.y)/res_);
+        // round down, also left of and below the origin
+        x = (unsigned int)(long)std::floor((px - origin_.x)/res_);
+        y = (unsigned int)(long)std::floor((py - origin_.y)/res_);
 
         if ( !isInMap( (int)x, (int)y ))
             return false;
@@ -157,7 +159,7 @@ public:
         x = (px - origin_.x)/res_;
         y = (py - origin_.y)/res_;
 
-        if ( !isInMap( (int)x, (int)y ))
+        if ( !isInMap( (int)std::floor(x), (int)std::floor(y) ))
             return false;
         return true;
     }
-- 
2.43.0


From b824b6adaedafcba5a246357a4c933a62cd87594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 28/42] fix: no cells without values in a buffer that ran out
 of memory

---
 src/common/GridMap2d.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index a57b443..a4cfebe 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -208,8 +208,14 @@ void CircleBuffer::init( const Point2d &center,
                          const double radius,
                          const GridMap2d *map )
 {
-    CircleArea::init( center, radius, map );
-    values_.resize( cells_.size());
+    try {
+        CircleArea::init( center, radius, map );
+        values_.resize( cells_.size());
+    } catch ( ... ) {
+        // no cells without buffered values
+        cells_.clear();
+        throw;
+    }
     values_.assign( values_.size(), value_ );
 }
 
-- 
2.43.0


From 0d8fea27a9b60267c116843b27a138309b1d5ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 29/42] fix: look up the footprint that belongs to the heading

---
 .../common/CollisionGridMap2d.h               |  6 ++++
 src/common/CollisionGridMap2d.cpp             | 29 +++++++++----------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/cslibs_path_planning/common/CollisionGridMap2d.h b/include/cslibs_path_planning/common/CollisionGridMap2d.h
index b14d89c..dcd9860 100644
--- a/include/cslibs_path_planning/common/CollisionGridMap2d.h
+++ b/include/cslibs_path_planning/common/CollisionGridMap2d.h
@@ -46,6 +46,12 @@ public:
 
 
 private:
+    /**
+     * @brief Get the index of the footprint with the heading closest to theta.
+     * @param theta The heading.
+     */
+    static int angleIndex( const double theta );
+
     RobotArea* areas_[ANGLE_DISCRETIZATION];
 };
 
diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 89c8177..f0dce2d 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -148,7 +148,7 @@ CollisionGridMap2d::CollisionGridMap2d(const unsigned int w, const unsigned int
     : RotatedGridMap2d(w,h, yaw, r)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        double theta = (2 * M_PI) * (t / (ANGLE_DISCRETIZATION + 1.0));
+        double theta = (2 * M_PI) * (t / (double) ANGLE_DISCRETIZATION);
         double res = getResolution();
 
         areas_[t] = new RobotArea(this, forward / res, backward / res, width / res, theta);
@@ -172,6 +172,15 @@ CollisionGridMap2d::~CollisionGridMap2d()
     }
 }
 
+int CollisionGridMap2d::angleIndex(const double theta)
+{
+    double t = theta;
+    while(t < 0) t += 2*M_PI;
+    while(t >= 2*M_PI) t -= 2*M_PI;
+
+    return (int) round(t / (2*M_PI) * ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION;
+}
+
 bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned int y, const double theta) const
 {
     if(!isInMap((int) x,(int) y)) {
@@ -182,12 +191,8 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
         return true;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(theta)];
     a->setPosition(x,y);
     bool occ = isAreaOccupied(*a);
     return occ;
@@ -199,12 +204,8 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
         return false;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(theta)];
     a->setPosition(x,y);
     bool free = isAreaFree(*a);
     return free;
@@ -220,12 +221,8 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
         return false;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(theta)];
     a->setPosition(x,y);
     bool no_info = isAreaNoInformation(*a);
     return no_info;
-- 
2.43.0


From 9db32193302e87ca96f9f1c175c75692aaa99faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 30/42] fix: no position shared by the queries of a collision
 map

---
 .../common/CollisionGridMap2d.h               |  4 ++-
 src/common/CollisionGridMap2d.cpp             | 29 ++++++++++---------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/cslibs_path_planning/common/CollisionGridMap2d.h b/include/cslibs_path_planning/common/CollisionGridMap2d.h
index dcd9860..3d3bc13 100644
--- a/include/cslibs_path_planning/common/CollisionGridMap2d.h
+++ b/include/cslibs_path_planning/common/CollisionGridMap2d.h
@@ -9,6 +9,7 @@
 
 // C/C++
 #include <stdint.h>
+#include <memory>
 #include <vector>
 
 // Project
@@ -93,7 +94,8 @@ private:
         {}
     };
 
-    std::vector<Cell> cells_;
+    /// The cells relative to the position, shared by all copies of an area
+    std::shared_ptr<const std::vector<Cell> > cells_;
 };
 
 } // namespace "lib_path"
diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index f0dce2d..6b9a057 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -18,7 +18,7 @@
 using namespace lib_path;
 
 RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double backward, double width, double theta)
-    : parent_(parent), x_(0), y_(0), hw_(width/2.0), init_(false)
+    : parent_(parent), x_(0), y_(0), hw_(width/2.0), init_(false), idx(-1)
 {
     Eigen::Vector2d fr_(forward, -hw_);
     Eigen::Vector2d fl_(forward, hw_);
@@ -41,6 +41,8 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     double inc_row = 1.0 / steps_row;
     double inc_col = 1.0 / steps_col;
 
+    std::shared_ptr<std::vector<Cell> > cells = std::make_shared<std::vector<Cell> >();
+
     double i_row = 0.0;
     for(int row = 0; row <= steps_row; ++row) {
         Eigen::Vector2d left = bl + i_row * (fl-bl);
@@ -48,7 +50,7 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
 
         double i_col = 0.0;
         for(int col = 0; col <= steps_col; ++col) {
-            cells_.emplace_back(left + i_col * (right-left));
+            cells->emplace_back(left + i_col * (right-left));
 
             i_col += inc_col;
         }
@@ -56,6 +58,7 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
         i_row += inc_row;
     }
 
+    cells_ = cells;
 
     //    {
     //        int steps_row = width / f;
@@ -108,7 +111,7 @@ void RobotArea::begin() {
      * @return False if there are no more cells.
      */
 bool RobotArea::next() {
-    return ++idx < (int) cells_.size();
+    return ++idx < (int) cells_->size();
 }
 
 /**
@@ -118,7 +121,7 @@ bool RobotArea::next() {
      */
 void RobotArea::getCell( int& x, int& y ) const {
     //const Eigen::Vector2d& pt = centre + pts_[idx];
-    const Cell& cell = cells_[idx];
+    const Cell& cell = (*cells_)[idx];
     x = x_ + cell.x;
     y = y_ + cell.y;
 }
@@ -192,9 +195,9 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
     }
 
     // check boundary
-    RobotArea* a = areas_[angleIndex(theta)];
-    a->setPosition(x,y);
-    bool occ = isAreaOccupied(*a);
+    RobotArea a(*areas_[angleIndex(theta)]);
+    a.setPosition(x,y);
+    bool occ = isAreaOccupied(a);
     return occ;
 }
 
@@ -205,9 +208,9 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
     }
 
     // check boundary
-    RobotArea* a = areas_[angleIndex(theta)];
-    a->setPosition(x,y);
-    bool free = isAreaFree(*a);
+    RobotArea a(*areas_[angleIndex(theta)]);
+    a.setPosition(x,y);
+    bool free = isAreaFree(a);
     return free;
 }
 
@@ -222,8 +225,8 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
     }
 
     // check boundary
-    RobotArea* a = areas_[angleIndex(theta)];
-    a->setPosition(x,y);
-    bool no_info = isAreaNoInformation(*a);
+    RobotArea a(*areas_[angleIndex(theta)]);
+    a.setPosition(x,y);
+    bool no_info = isAreaNoInformation(a);
     return no_info;
 }
-- 
2.43.0


From 5c951d060d460751f1b52083fa97ee38115f476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 31/42] fix: collision maps can be assigned and release their
 footprints

---
 .../common/CollisionGridMap2d.h               |  4 +++-
 src/common/CollisionGridMap2d.cpp             | 24 ++++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/cslibs_path_planning/common/CollisionGridMap2d.h b/include/cslibs_path_planning/common/CollisionGridMap2d.h
index 3d3bc13..468d153 100644
--- a/include/cslibs_path_planning/common/CollisionGridMap2d.h
+++ b/include/cslibs_path_planning/common/CollisionGridMap2d.h
@@ -39,6 +39,7 @@ public:
      */
     CollisionGridMap2d( const unsigned int w, const unsigned int h, const double yaw, const double res, double forward, double backward, double width);
     CollisionGridMap2d( const CollisionGridMap2d& copy);
+    CollisionGridMap2d& operator=( const CollisionGridMap2d& copy);
     ~CollisionGridMap2d();
 
     bool isOccupiedRotated( const unsigned int x, const unsigned int y, const double theta ) const;
@@ -53,7 +54,8 @@ private:
      */
     static int angleIndex( const double theta );
 
-    RobotArea* areas_[ANGLE_DISCRETIZATION];
+    /// The footprint for each heading
+    std::vector<RobotArea> areas_;
 };
 
 
diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 6b9a057..06e2f5c 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -154,25 +154,31 @@ CollisionGridMap2d::CollisionGridMap2d(const unsigned int w, const unsigned int
         double theta = (2 * M_PI) * (t / (double) ANGLE_DISCRETIZATION);
         double res = getResolution();
 
-        areas_[t] = new RobotArea(this, forward / res, backward / res, width / res, theta);
+        areas_.emplace_back(this, forward / res, backward / res, width / res, theta);
     }
 }
 
 
 CollisionGridMap2d::CollisionGridMap2d(const CollisionGridMap2d& copy)
-    : RotatedGridMap2d(copy)
+    : RotatedGridMap2d(copy), areas_(copy.areas_)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        areas_[t] = new RobotArea(*copy.areas_[t]);
-        areas_[t]->setParent(this);
+        areas_[t].setParent(this);
     }
 }
 
-CollisionGridMap2d::~CollisionGridMap2d()
+CollisionGridMap2d& CollisionGridMap2d::operator=(const CollisionGridMap2d& copy)
 {
+    RotatedGridMap2d::operator=(copy);
+    areas_ = copy.areas_;
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        delete areas_[t];
+        areas_[t].setParent(this);
     }
+    return *this;
+}
+
+CollisionGridMap2d::~CollisionGridMap2d()
+{
 }
 
 int CollisionGridMap2d::angleIndex(const double theta)
@@ -195,7 +201,7 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
     }
 
     // check boundary
-    RobotArea a(*areas_[angleIndex(theta)]);
+    RobotArea a(areas_[angleIndex(theta)]);
     a.setPosition(x,y);
     bool occ = isAreaOccupied(a);
     return occ;
@@ -208,7 +214,7 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
     }
 
     // check boundary
-    RobotArea a(*areas_[angleIndex(theta)]);
+    RobotArea a(areas_[angleIndex(theta)]);
     a.setPosition(x,y);
     bool free = isAreaFree(a);
     return free;
@@ -225,7 +231,7 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
     }
 
     // check boundary
-    RobotArea a(*areas_[angleIndex(theta)]);
+    RobotArea a(areas_[angleIndex(theta)]);
     a.setPosition(x,y);
     bool no_info = isAreaNoInformation(a);
     return no_info;
-- 
2.43.0


From 6b841458b5e9f07d6178273a7de6a15118652015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 32/42] fix: the footprint of a collision map covers the whole
 robot

---
 src/common/CollisionGridMap2d.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 06e2f5c..cfc612c 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -33,11 +33,12 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     Eigen::Vector2d bl = rot * bl_;
 
 //    double m_per_cell = parent->getResolution();
-    double m_per_step = width / 8;
+    // at least two samples per cell, so that no cell of the footprint is missed
+    double m_per_step = std::min(width / 8, 0.5);
 //    double m_per_step = m_per_cell * cell_per_step;
 
-    int steps_row = std::ceil(width / m_per_step);
-    int steps_col = std::ceil((forward - backward) / m_per_step);
+    int steps_row = std::ceil((forward - backward) / m_per_step);
+    int steps_col = std::ceil(width / m_per_step);
     double inc_row = 1.0 / steps_row;
     double inc_col = 1.0 / steps_col;
 
@@ -46,7 +47,7 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     double i_row = 0.0;
     for(int row = 0; row <= steps_row; ++row) {
         Eigen::Vector2d left = bl + i_row * (fl-bl);
-        Eigen::Vector2d right = fr + i_row * (br-fr);
+        Eigen::Vector2d right = br + i_row * (fr-br);
 
         double i_col = 0.0;
         for(int col = 0; col <= steps_col; ++col) {
-- 
2.43.0


From 44582a57d61d20a75d02527026a4ea0f93de37db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 33/42] fix: use the room width the maze generator was limited
 to

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 3706ab6..f5c3e5b 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -11,11 +11,11 @@ public:
     Maze(int width, cv::Mat orig_map)
         : width(std::max(2, width)), orig_map(orig_map), border(1)
     {
-        w = orig_map.rows / width;
-        h = orig_map.cols / width;
+        w = orig_map.rows / this->width;
+        h = orig_map.cols / this->width;
         N = w * h;
 
-        border = std::max(1, width/4);
+        border = std::max(1, this->width/4);
 
         init();
     }
-- 
2.43.0


From 202da10ece29367a853e794eb70a7d1a2025ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 34/42] fix: begin the maze in a room, also if the start lies
 beside all rooms

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index f5c3e5b..1a18d9b 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -21,9 +21,17 @@ public:
     }
 
     virtual void run(const Pt& start, const Pt& goal) {
+        if(N == 0) {
+            return; // not even one room
+        }
+
         cv::Point s(start.x / width, start.y / width);
         cv::Point g(goal.x / width, goal.y / width);
 
+        // the map can be larger than its rooms
+        s.x = std::min(std::max(s.x, 0), h - 1);
+        s.y = std::min(std::max(s.y, 0), w - 1);
+
         expanded = 0;
 
         std::stack<cv::Point> open;
-- 
2.43.0


From 74a3a146d8697db0051c4888f3ee65014494a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 35/42] fix: forget the rooms of the previous maze

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 1a18d9b..5cae52e 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -33,6 +33,7 @@ public:
         s.y = std::min(std::max(s.y, 0), w - 1);
 
         expanded = 0;
+        std::fill(visited, visited + N, false);
 
         std::stack<cv::Point> open;
         cv::Point current = s;
-- 
2.43.0


From d4300faab264bd71add04a3bfe278d2469da4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 36/42] fix: copies of a maze generator have rooms of their own

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 5cae52e..821cc9a 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -33,7 +33,7 @@ public:
         s.y = std::min(std::max(s.y, 0), w - 1);
 
         expanded = 0;
-        std::fill(visited, visited + N, false);
+        visited.assign(N, false);
 
         std::stack<cv::Point> open;
         cv::Point current = s;
@@ -68,7 +68,6 @@ public:
     }
 
     virtual ~Maze() {
-        delete[] visited;
     }
 
 protected:
@@ -78,8 +77,7 @@ protected:
         dx__[0] = -1; dx__[2] = 1;
         dy__[1] = -1; dy__[3] = 1;
 
-        visited = new int[N];
-        memset(visited, true, (N) * sizeof(int));
+        visited.assign(N, true);
 
         for(int y=0; y<w; y++) {
             for(int x=0; x<h; x++) {
@@ -197,7 +195,7 @@ protected:
     int w;
     int h;
 
-    int* visited;
+    std::vector<int> visited;
     int expanded;
 };
 
-- 
2.43.0


From 1aae1c86945676d609cf72ce43b5073133c8c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 37/42] fix: a very long or infinite time limit must not abort
 the search at once

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index b818394..f05437c 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -376,7 +376,9 @@ protected:
     {
         if(time_limit_ > 0.0) {
             auto now = std::chrono::steady_clock::now();
-            std::chrono::milliseconds duration_milli{(int64_t) (time_limit_ * 1e3)};
+            // a limit that is too long to be represented is never reached
+            auto longest = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::time_point::max() - now);
+            std::chrono::milliseconds duration_milli{time_limit_ * 1e3 < longest.count() ? (int64_t) (time_limit_ * 1e3) : longest.count()};
             stamp_abort_ = now + duration_milli;
         }
 
-- 
2.43.0


From 097b1dae360faef362701ae94c7a95ff886834bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 38/42] fix: a rotated map contains the points its cells cover

---
 include/cslibs_path_planning/common/RotatedGridMap2d.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index ee6b98b..b571ace 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -124,13 +124,10 @@ public:
         double c = std::cos(-yaw_);
         double s = std::sin(-yaw_);
        
-        double nx = x;// - origin_.x;
-        double ny = y;// - origin_.y;
-        
-        int px = c * nx - s * ny;
-        int py = s * nx + c * ny;
+        double px = c * x - s * y - origin_.x;
+        double py = s * x + c * y - origin_.y;
 
-        return px >= 0 && py >= 0 && px < (int) width_ && py < (int) height_;
+        return px >= 0 && py >= 0 && px / res_ < width_ && py / res_ < height_;
     }
 
     virtual double getRotation() const 
-- 
2.43.0


From dc50158da93a3759c9cd3fd368e88610dd86eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 39/42] fix: points convert to fractional cells of a rotated
 map with its rotation

---
 .../common/RotatedGridMap2d.h                     | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index b571ace..cd39518 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -88,6 +88,21 @@ public:
         return true;
     }
 
+    virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
+        double c = std::cos(-yaw_);
+        double s = std::sin(-yaw_);
+
+        double rx = c * px - s * py;
+        double ry = s * px + c * py;
+
+        x = (rx - origin_.x)/res_;
+        y = (ry - origin_.y)/res_;
+
+        if ( !isInMap( (int)std::floor(x), (int)std::floor(y) ))
+            return false;
+        return true;
+    }
+
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
         double nx = res_*(double)(x+0.5);
         double ny = res_*(double)(y+0.5);
-- 
2.43.0


From ee5958198e7e4a21dc022029bdcf27a1149b93b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 40/42] fix: a map that cannot be replaced for lack of memory
 stays as it is

---
 .../common/RotatedGridMap2d.h                 |  4 +---
 .../common/SimpleGridMap2d.h                  | 21 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index cd39518..f7f5abf 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -39,10 +39,8 @@ public:
      * @param h new map height (number of cells in y-direction)
      */
     void set( const std::vector<uint8_t>& data, const unsigned int w, const unsigned int h, const double yaw ) {
-        width_ = w;
-        height_ = h;
+        SimpleGridMap2d::set( data, w, h );
         yaw_ = yaw;
-        data_.assign( data.begin(), data.end());
     }
 
 
diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index a978678..f2d0fc2 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -36,6 +36,24 @@ public:
      */
     SimpleGridMap2d( const unsigned int w, const unsigned int h, const double r );
 
+    SimpleGridMap2d( const SimpleGridMap2d& copy ) = default;
+
+    /**
+     * @brief Take over everything from another map.
+     * If that fails for lack of memory, the map stays as it is.
+     */
+    SimpleGridMap2d& operator=( const SimpleGridMap2d& copy ) {
+        data_ = copy.data_;
+        width_ = copy.width_;
+        height_ = copy.height_;
+        res_ = copy.res_;
+        origin_ = copy.origin_;
+        lower_thres_ = copy.lower_thres_;
+        upper_thres_ = copy.upper_thres_;
+        no_information_ = copy.no_information_;
+        return *this;
+    }
+
     virtual ~SimpleGridMap2d() { /* Nothing to do */ }
 
     /**
@@ -75,9 +93,10 @@ public:
      * @param h new map height (number of cells in y-direction)
      */
     void set( const std::vector<uint8_t>& data, const unsigned int w, const unsigned int h ) {
+        // the only step that can fail comes first, the size always belongs to the data
+        data_.assign( data.begin(), data.end());
         width_ = w;
         height_ = h;
-        data_.assign( data.begin(), data.end());
     }
 
     /**
-- 
2.43.0


From b419d06eb05d5bfde6958bebb7644b64200b4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:49 +0000
Subject: [PATCH 41/42] fix: an arc shorter than the waypoint distance ends
 where it ends

---
 src/ReedsShepp/CircleSegment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index a68aa16..0f895cb 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -317,7 +317,13 @@ Pose2d CircleSegment::next()
 
     Point2d ray(m_radius, 0);
 
-    float angle = m_angle_start + m_angle_step_size * m_output;
+    // an arc shorter than one step ends where it ends
+    double turned = m_angle_step_size * m_output;
+    if(fabs(turned) > fabs(m_arc_length)) {
+        turned = m_arc_length;
+    }
+
+    float angle = m_angle_start + turned;
     Point2d pt = m_center + ray.rotate(angle);
 
     Pose2d ret;
-- 
2.43.0


From 24d6d53626f6b25198b543630d498642b87be6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:00 +0000
Subject: [PATCH 42/42] fix: a full circle is tested for obstacles if its ends
 differ by a rounding only

---
 src/ReedsShepp/CircleSegment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index 0f895cb..bdd05a4 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -199,11 +199,12 @@ bool CircleSegment::test4Points(int cx, int cy, int x, int y, bool ignore_obstac
 bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacles)
 {
     if(m_map->isInMap(x, y)) {
-        float angle = atan2(y-cy, x-cx);
+        double angle = atan2(y-cy, x-cx);
         bool on_segment = false;
 
-        float start = NORMALIZE(m_angle_start);
-        float end = NORMALIZE(m_angle_end);
+        // not rounded: an arc of nearly nothing and one of nearly a full circle differ by less
+        double start = NORMALIZE(m_angle_start);
+        double end = NORMALIZE(m_angle_end);
 
         bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
         bool decreasing = !increasing;
-- 
2.43.0

