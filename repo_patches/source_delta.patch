From 8a0b1f6202e29e10b919b28fcc36e51fbceb9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 1/6] fix: compute bounds from copies and from the actual
 vertical extents

Reading Wagyu.bounds aliased and overwrote points of the input edges,
so that subsequent operations failed or returned wrong results;
vertical extents were taken from the wrong ends of the bounds.
---
 wagyu/wagyu.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index f1e0622..3759795 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -38,28 +38,32 @@ class Wagyu:
             left_bound = local_minimum.left_bound
             if left_bound.edges:
                 if not first_set:
-                    minimum = left_bound.edges[0].top
-                    maximum = left_bound.edges[-1].bottom
+                    top = left_bound.edges[-1].top
+                    bottom = left_bound.edges[0].bottom
+                    minimum, maximum = (Point(top.x, top.y),
+                                        Point(top.x, bottom.y))
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, left_bound.edges[0].top.y)
+                    minimum.y = min(minimum.y, left_bound.edges[-1].top.y)
                     maximum.x = max(maximum.x, left_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, left_bound.edges[-1].bottom.y)
+                    maximum.y = max(maximum.y, left_bound.edges[0].bottom.y)
                 for edge in left_bound.edges:
                     minimum.x = min(minimum.x, edge.bottom.x)
                     maximum.x = max(maximum.x, edge.bottom.x)
             right_bound = local_minimum.right_bound
             if right_bound.edges:
                 if not first_set:
-                    minimum = right_bound.edges[0].top
-                    maximum = right_bound.edges[-1].bottom
+                    top = right_bound.edges[-1].top
+                    bottom = right_bound.edges[0].bottom
+                    minimum, maximum = (Point(top.x, top.y),
+                                        Point(top.x, bottom.y))
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, right_bound.edges[0].top.y)
+                    minimum.y = min(minimum.y, right_bound.edges[-1].top.y)
                     maximum.x = max(maximum.x, right_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, right_bound.edges[-1].bottom.y)
+                    maximum.y = max(maximum.y, right_bound.edges[0].bottom.y)
                 for edge in right_bound.edges:
                     minimum.x = min(minimum.x, edge.bottom.x)
                     maximum.x = max(maximum.x, edge.bottom.x)
-- 
2.43.0


From bacfab0072fac4a0a49e19b96df26251702db684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 2/6] fix: endless recursion in LocalMinimumList.insert

---
 wagyu/local_minimum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/local_minimum.py b/wagyu/local_minimum.py
index e1bcff5..6d0dedf 100644
--- a/wagyu/local_minimum.py
+++ b/wagyu/local_minimum.py
@@ -168,7 +168,7 @@ class LocalMinimumList(abc.MutableSequence):
         return True
 
     def insert(self, index: int, value: LocalMinimum) -> None:
-        self.insert(index, value)
+        self.values.insert(index, value)
 
 
 def to_edges_starting_on_local_maximum(edges: List[Edge]) -> List[Edge]:
-- 
2.43.0


From d53ae90e5ec4f718b5890aec562b1b060136bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 3/6] fix: collinear path ends overlapping in a self-touching
 ring

---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index 4d9ca63..ec8787e 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -309,7 +309,7 @@ def find_start_and_end_of_collinear_edges(pt_a: PointNode,
         if not first and (back is pt_b or forward is pt_a):
             break
         if (back is forward
-                or first is None and (back is end_b or forward is start_a)):
+                or not first and (back is end_b or forward is start_a)):
             back = back.prev
             forward = forward.next
             break
-- 
2.43.0


From 4bd6bc14f694185813a11d4841e0a859a6c86b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 4/6] fix: parent check of a direct connection between touching
 rings

---
 wagyu/ring_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index 7689882..5acc401 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -780,7 +780,7 @@ class RingManager:
                 nodes_pairs_indices_to_remove.add(index)
                 continue
             if (it_ring2 is ring_origin
-                    and (ring_parent and it_ring2
+                    and (ring_parent is it_ring2
                          or ring_parent is it_ring2.parent)
                     and prev_pt != op2 and orig_pt != op2):
                 iList.appendleft((ring_search, (op1, op2)))
-- 
2.43.0


From bacebba444cb7ff12a9616e168694f5629c0c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 5/6] fix: vertical extents of bounds in the native library

---
 include/mapbox/geometry/wagyu/wagyu.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/wagyu.hpp b/include/mapbox/geometry/wagyu/wagyu.hpp
index 908b3e3..ca7ef68 100644
--- a/include/mapbox/geometry/wagyu/wagyu.hpp
+++ b/include/mapbox/geometry/wagyu/wagyu.hpp
@@ -69,12 +69,12 @@ class wagyu {
     for (auto const& lm : minima_list) {
       if (!lm.left_bound.edges.empty()) {
         if (!first_set) {
-          min = lm.left_bound.edges.front().top;
-          max = lm.left_bound.edges.back().bot;
+          min = lm.left_bound.edges.back().top;
+          max = {min.x, lm.left_bound.edges.front().bot.y};
           first_set = true;
         } else {
-          min.y = std::min(min.y, lm.left_bound.edges.front().top.y);
-          max.y = std::max(max.y, lm.left_bound.edges.back().bot.y);
+          min.y = std::min(min.y, lm.left_bound.edges.back().top.y);
+          max.y = std::max(max.y, lm.left_bound.edges.front().bot.y);
           max.x = std::max(max.x, lm.left_bound.edges.back().top.x);
           min.x = std::min(min.x, lm.left_bound.edges.back().top.x);
         }
@@ -85,12 +85,12 @@ class wagyu {
       }
       if (!lm.right_bound.edges.empty()) {
         if (!first_set) {
-          min = lm.right_bound.edges.front().top;
-          max = lm.right_bound.edges.back().bot;
+          min = lm.right_bound.edges.back().top;
+          max = {min.x, lm.right_bound.edges.front().bot.y};
           first_set = true;
         } else {
-          min.y = std::min(min.y, lm.right_bound.edges.front().top.y);
-          max.y = std::max(max.y, lm.right_bound.edges.back().bot.y);
+          min.y = std::min(min.y, lm.right_bound.edges.back().top.y);
+          max.y = std::max(max.y, lm.right_bound.edges.front().bot.y);
           max.x = std::max(max.x, lm.right_bound.edges.back().top.x);
           min.x = std::min(min.x, lm.right_bound.edges.back().top.x);
         }
-- 
2.43.0


From 882342bc8beb7466cfcf3982535f73068cf32d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 6/6] fix: cached size of rings after removing duplicate points

---
 wagyu/ring_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index 5acc401..a37e9db 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -1911,6 +1911,7 @@ class RingManager:
                 second_node.prev = second_node.next = second_node.ring = None
                 if first_node.ring.node is second_node:
                     first_node.ring.node = first_node
+                first_node.ring.recalculate_stats()
                 return True
             elif second_node.next is first_node:
                 first_node.prev = second_node.prev
@@ -1918,6 +1919,7 @@ class RingManager:
                 second_node.prev = second_node.next = second_node.ring = None
                 if first_node.ring.node is second_node:
                     first_node.ring.node = first_node
+                first_node.ring.recalculate_stats()
                 return True
         while (first_node.next == first_node
                and first_node.next is not first_node):
@@ -1927,6 +1929,7 @@ class RingManager:
             outsider.prev = outsider.next = outsider.ring = None
             if first_node.ring.node is outsider:
                 first_node.ring.node = first_node
+            first_node.ring.recalculate_stats()
         while (first_node.prev == first_node
                and first_node.prev is not first_node):
             outsider = first_node.prev
@@ -1935,6 +1938,7 @@ class RingManager:
             outsider.prev = outsider.next = outsider.ring = None
             if first_node.ring.node is outsider:
                 first_node.ring.node = first_node
+            first_node.ring.recalculate_stats()
         if first_node.next is first_node:
             self.remove_ring_and_points(first_node.ring, False)
             return True
@@ -1948,6 +1952,7 @@ class RingManager:
             outsider.prev = outsider.next = outsider.ring = None
             if second_node.ring.node is outsider:
                 second_node.ring.node = second_node
+            second_node.ring.recalculate_stats()
         while (second_node.prev == second_node
                and second_node.prev is not second_node):
             outsider = second_node.prev
@@ -1956,6 +1961,7 @@ class RingManager:
             outsider.prev = outsider.next = outsider.ring = None
             if second_node.ring.node is outsider:
                 second_node.ring.node = second_node
+            second_node.ring.recalculate_stats()
         if second_node.next is second_node:
             self.remove_ring_and_points(second_node.ring, False)
             return True
-- 
2.43.0

