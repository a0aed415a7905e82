From 6f7ec0ee623aa02557e443f9c6e1e418f786f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 001/200] fix: AVL.delete keeps the data of the successor that
 takes the deleted node's place

---
 mmcore/ds/tree/avl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 8fa2b83..3d7c94a 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -332,11 +332,12 @@ class AVL(object):
                         successor = successor.left.node
 
                     if successor:
-                        self.node.key = successor.key
-
                         # Delete successor from the replaced node right subree
                         self.node.right.delete(successor.key)
 
+                        self.node.key = successor.key
+                        self.node.data = successor.data
+
             elif key < self.node.key:
                 self.node.left.delete(key)
 
-- 
2.43.0


From e2c5ba83d954e243af3a6fbfbec8a601ef0b02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 002/200] fix: AVL assignment to an existing key replaces its
 data

---
 mmcore/ds/tree/avl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 3d7c94a..9920329 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -140,6 +140,9 @@ class AVL(object):
         # Insert key to the right subtree
         elif key > self.node.key:
             self.node.right.insert(key, data)
+        # The key is already present: replace its data
+        else:
+            self.node.data = data
 
         # Rebalance tree if needed
         self.rebalance()
-- 
2.43.0


From 843765432affbce036ec145a868be5d4d40195ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 003/200] fix: k-nearest search of the k-d tree visits the far
 side while it has fewer than k points

---
 mmcore/ds/bkdtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index ab87678..f4dab4c 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -319,11 +319,11 @@ class BalancedKDTree:
         if diff <= 0:
             self._k_nearest_rec(node.left, target, k, heap, depth + 1)
             # Check other side if needed
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.right, target, k, heap, depth + 1)
         else:
             self._k_nearest_rec(node.right, target, k, heap, depth + 1)
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.left, target, k, heap, depth + 1)
 
     def k_nearest_neighbors(self, point, k=1):
-- 
2.43.0


From 3564d6ef5980ad79613b3e640380a27b931ebd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 004/200] fix: building a k-d tree no longer reorders the
 caller's list

---
 mmcore/ds/bkdtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index f4dab4c..8c65908 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -90,7 +90,8 @@ class BalancedKDTree:
             for p in points:
                 if len(p) != dim:
                     raise ValueError("All points must have the same dimension.")
-            self.root = _build_balanced(points, depth=0)
+            # Work on a copy: building sorts the list in place
+            self.root = _build_balanced(list(points), depth=0)
 
     def _is_unbalanced(self, node):
         """
-- 
2.43.0


From 6d62a41fd3af368dc1f43ed9ee3a696881560edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 005/200] fix: deleting a k-d tree node without a right subtree
 keeps the splitting order

---
 mmcore/ds/bkdtree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index 8c65908..14fac98 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -215,8 +215,9 @@ class BalancedKDTree:
                 # find min in the left subtree along 'current_axis'
                 min_node = self._find_min(node.left, current_axis, depth + 1)
                 node.point = min_node.point
-                # Then, we have to remove that min from the left subtree
-                node.left = self._delete_rec(node.left, min_node.point, depth + 1)
+                # What remains of the left subtree is not less than that min: it becomes the right subtree
+                node.right = self._delete_rec(node.left, min_node.point, depth + 1)
+                node.left = None
             else:
                 # Case 3: Leaf node
                 return None
-- 
2.43.0


From d04ef0fa5f198183fb7ab04ced53aefc8865b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 006/200] fix: k-d tree deletion finds points that share a
 coordinate with an ancestor

---
 mmcore/ds/bkdtree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index 14fac98..e128d04 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -224,7 +224,14 @@ class BalancedKDTree:
         else:
             # Not the node to delete, search left or right
             if point[current_axis] <= node.point[current_axis]:
+                left_size = node.left.size if node.left else 0
                 node.left = self._delete_rec(node.left, point, depth + 1)
+                # Points equal on this axis can be on both sides: if it was not on the left, look on the right
+                if (
+                    point[current_axis] == node.point[current_axis]
+                    and (node.left.size if node.left else 0) == left_size
+                ):
+                    node.right = self._delete_rec(node.right, point, depth + 1)
             else:
                 node.right = self._delete_rec(node.right, point, depth + 1)
 
-- 
2.43.0


From 1cf7c2dde86fbae93fa60fc40dd07fd7c27d5244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 007/200] fix: R-tree insertion enlarges the bounding boxes on
 the path to the leaf

---
 mmcore/ds/tree/rtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 8ccafdd..929bb94 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -76,6 +76,8 @@ class RStarTree:
                 if best_child is None or enlargement < best_enlargement:
                     best_child = child
                     best_enlargement = enlargement
+            # The subtree's bounding box has to cover the new rectangle, or a search would skip the subtree
+            best_child.mbr = best_child.mbr.union(rectangle)
             return self._choose_leaf(best_child, rectangle)
 
     def _split_node(self, node):
-- 
2.43.0


From 3994f316bfc56276762252e248482353bbba9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 008/200] fix: R-tree split attaches the new node to the parent
 of the split node

---
 mmcore/ds/tree/rtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 929bb94..69f1425 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -145,8 +145,11 @@ class RStarTree:
         if current_node.is_leaf:
             return None
         for child in current_node.children:
-            if child == target_node or self._find_parent(child, target_node):
+            if child == target_node:
                 return current_node
+            parent = self._find_parent(child, target_node)
+            if parent is not None:
+                return parent
         return None
 
     def search(self, rectangle):
-- 
2.43.0


From c8983743ab325714d1545a019a6106d5da355a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 009/200] fix: CDLL.insert at index 0 puts the element in front
 of the head

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index b0fd298..8682ea9 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -148,7 +148,7 @@ class CDLL:
             node.next = node
             node.previous = node
         else:
-            temp = self.head
+            temp = self.head.previous if index == 0 else self.head
             for _ in range(index - 1):
                 temp = temp.next
             temp.next.previous = node
-- 
2.43.0


From bc418308b9572f83a6ad462c770808f3d46e20ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 010/200] fix: iterating an empty CDLL yields nothing

---
 mmcore/ds/cdll/cdll.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 8682ea9..1938238 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -116,8 +116,6 @@ class CDLL:
             while (temp != self.head):
                 yield temp.data
                 temp = temp.next
-        else:
-            yield
 
     def __len__(self):
         return self.count
-- 
2.43.0


From 3230a50ef99a397dcffab1cc5ca9dee483f8ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 011/200] fix: CDLL counts the element before it calls a hook,
 so a failing hook leaves the list consistent

---
 mmcore/ds/cdll/cdll.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 1938238..9cc15cc 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -154,8 +154,8 @@ class CDLL:
             temp.next = node
             if index == 0:
                 self.head = node
-        self.insert_hook(node)
         self.count += 1
+        self.insert_hook(node)
 
     def iter_nodes(self):
         if self.head is not None:
@@ -182,8 +182,8 @@ class CDLL:
 
 
         target.previous.next, target.next.previous = target.next, target.previous
-        self.remove_hook(target)
         self.count -= 1
+        self.remove_hook(target)
 
 
 
-- 
2.43.0


From c3a6afffaf57ec1819d5fbc818ec6304cd6d714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 012/200] fix: CDLL.remove of an absent value raises and of the
 only element empties the list

---
 mmcore/ds/cdll/cdll.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 9cc15cc..7742778 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -193,13 +193,15 @@ class CDLL:
             if (temp.data == data):
 
                 if temp is self.head:
-                    self.head = self.head.next
+                    self.head = self.head.next if self.count > 1 else None
                 temp.previous.next, temp.next.previous = temp.next, temp.previous
 
                 self.count -= 1
                 break
 
             temp = temp.next
+        else:
+            raise ValueError(f"{data!r} is not in the list")
         self.remove_hook(temp)
         del temp.next
         del temp.previous
-- 
2.43.0


From 9f5a222578577332dc11a4ab0b13631a6bcc8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 013/200] fix: CDLL.get refuses a negative index beyond the
 start

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 7742778..be670b4 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -219,7 +219,7 @@ class CDLL:
         if index < 0:
             index = self.count + index
 
-        elif (index >= self.count):
+        if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         temp = self.head
         for _ in range(index):
-- 
2.43.0


From 39e08b1eea3092b694cdf918fde56b4fa70eec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 014/200] fix: CDLL.replace_node links the new node backwards
 too

---
 mmcore/ds/cdll/cdll.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index be670b4..28996ed 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -245,6 +245,7 @@ class CDLL:
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         if self.count == 1:
+            node.next = node.previous = node
             self.head =  node
 
             return
@@ -254,17 +255,12 @@ class CDLL:
 
 
         if target is self.head:
-            node.next = self.head.next
-            node.prev = self.head.previous
-            self.head.previous.next=node
-            self.head.next.previous=node
             self.head = node
         node.next = target.next
-        node.prev = target.previous
+        node.previous = target.previous
 
         target.previous.next = node
         target.next.previous = node
-        target.previous.next=node
 
 
 
-- 
2.43.0


From b02a74f80b2c74483535e3f273aae91441557ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 015/200] fix: a copied curve evaluates itself, not the curve
 it was copied from

---
 mmcore/geom/nurbs.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 41829f1..56cf930 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1792,7 +1792,6 @@ cdef class NURBSCurve(ParametricCurve):
     def copy(self):
         cdef NURBSCurve crv = self.ccopy()
 
-        crv._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         return crv
 
     @cython.boundscheck(False)
-- 
2.43.0


From 517b9d33c43581b88f7c7ef90fc9c81bd99fc1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 016/200] fix: NURBSCurve.evaluate hands out a copy of the
 cached point

---
 mmcore/geom/nurbs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 56cf930..81f0bf7 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1541,7 +1541,8 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        # The cache keeps its own array: what the caller does to the answer must not change later answers.
+        return self._evaluate_cached(t).copy()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From 09fc52bde1f4920746e8d95c45feeb645cead2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 017/200] fix: knot insertion keeps the shape of a weighted
 curve and updates the Greville abscissae

---
 mmcore/geom/nurbs.pyx | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 81f0bf7..23c70f3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1724,14 +1724,20 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int n = self._control_points.shape[0]
         cdef int new_count = n + count
         cdef double[:,:] cpts = self._control_points.copy()
+        cdef double[:,:] new_cpts
+        cdef int i, j
 
         # Find knot span
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
         cdef double[:] k_v = knot_insertion_kv(self._knots, t, span, count)
         cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
         # Compute new knot vector
-        self._control_points=np.empty((new_count,4))
+        new_cpts=np.empty((new_count,4))
 
+        # The corners are cut in homogeneous coordinates: (x,y,z,w) -> (xw,yw,zw,w)
+        for i in range(n):
+            for j in range(3):
+                cpts[i,j]*=cpts[i,3]
 
         # Compute new control points
 
@@ -1739,12 +1745,17 @@ cdef class NURBSCurve(ParametricCurve):
                                               self._knots,
                                               cpts,
                                               t,
-                                                count, s_u, span,0,self._control_points  )
+                                                count, s_u, span,0,new_cpts  )
+
+        for i in range(new_count):
+            for j in range(3):
+                new_cpts[i,j]/=new_cpts[i,3]
 
         # Update curve
 
+        self._control_points=new_cpts
         self._knots=k_v
-        self._update_interval()
+        self.knots_update_hook()
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 93abb53374ec40915ea8262973938adcfc84e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 018/200] fix: changing the degree of a curve drops its cached
 points

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 23c70f3..54c4f6e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1206,6 +1206,7 @@ cdef class NURBSCurve(ParametricCurve):
         return obj
     cpdef void set_degree(self, int val):
         self._degree=val
+        self._evaluate_cached.cache_clear()
 
 
     cpdef int get_degree(self):
-- 
2.43.0


From 9e54352faccc7d476811c4b5ee71398ada48a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 019/200] fix: NURBSCurve.set updates the interval and keeps
 its own arrays

---
 mmcore/geom/nurbs.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 54c4f6e..45e5cb1 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1498,8 +1498,9 @@ cdef class NURBSCurve(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
+        self._control_points=np.array(control_points)
+        self._knots=np.array(knots)
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From 7350fd8aba30c313d2987b83a80836f5cc9071a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 020/200] fix: a curve keeps its own knot vector instead of the
 caller's array

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 45e5cb1..8bbb64a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1164,7 +1164,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=np.array(knots)
             self.knots_update_hook()
 
         if  periodic:
@@ -1305,7 +1305,7 @@ cdef class NURBSCurve(ParametricCurve):
     @knots.setter
     def knots(self, double[:] v):
 
-        self._knots=v
+        self._knots=np.array(v)
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 8838c15e08553d4ec8bf58b4488d5741b65fcacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 021/200] fix: the arrays a curve hands out are copies, as
 those of a surface are

---
 mmcore/geom/nurbs.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 8bbb64a..eed298a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1271,12 +1271,12 @@ cdef class NURBSCurve(ParametricCurve):
 
     @property
     def control_points(self):
-        return np.asarray(self._control_points[:,:-1])
+        return np.array(self._control_points[:,:-1])
 
 
     @property
     def control_pointsw(self):
-        return np.asarray(self._control_points)
+        return np.array(self._control_points)
 
     @control_points.setter
     def control_points(self, control_points):
@@ -1301,7 +1301,7 @@ cdef class NURBSCurve(ParametricCurve):
 
     @property
     def knots(self):
-        return np.asarray(self._knots)
+        return np.array(self._knots)
     @knots.setter
     def knots(self, double[:] v):
 
@@ -1311,7 +1311,7 @@ cdef class NURBSCurve(ParametricCurve):
 
     @property
     def weights(self):
-        return np.asarray(self._control_points[:, 3])
+        return np.array(self._control_points[:, 3])
     @weights.setter
     def weights(self, double[:] v):
         self._control_points[:, 3]=v
@@ -1319,7 +1319,7 @@ cdef class NURBSCurve(ParametricCurve):
 
     @property
     def greville_abscissae(self):
-        return np.asarray(self._greville_abscissae)
+        return np.array(self._greville_abscissae)
 
 
     cdef void generate_knots(self):
-- 
2.43.0


From 91c51facb39aed12a854a7605683d661e2cd458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 022/200] fix: the normal of a curve no longer writes past its
 work array

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index eed298a..4a78886 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1636,7 +1636,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 4f2bd308baa756a0cee275c843041187541f8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 023/200] fix: NURBSCurve.flip reverses the knot vector, which
 used to come out descending

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4a78886..cdb5263 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2044,7 +2044,7 @@ cdef class NURBSCurve(ParametricCurve):
         return curve
 
     def flip(self):
-        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.max(self.knots)-self.knots+np.min(self.knots))
+        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,(np.max(self.knots)-self.knots+np.min(self.knots))[::-1].copy())
 
 
 
-- 
2.43.0


From c21f8c5b90cca3a2d7c7054d40662c5fbff752be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 024/200] fix: NURBSCurve.trim returns the piece between the
 trim points instead of a curve without control points

---
 mmcore/geom/nurbs.pyx | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index cdb5263..9ab1502 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2013,33 +2013,20 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Make copy if requested
 
-        curve = self.ccopy()
+        cdef NURBSCurve curve = self.ccopy()
 
-        # Insert knots at trim points with multiplicity = degree
-        curve.multiply_knot( t1)
-        curve.multiply_knot( t2)
-
-        # Find spans corresponding to trim points
-        cdef bint per=curve.is_periodic()
-        cdef int span1 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t1, curve._knots, per)
-        cdef int span2 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t2, curve._knots, per)
-
-        # Extract relevant control points and knots
-        cdef double[:,:] new_cpts = curve._control_points[span1 - curve._degree:span2 + 1]
-        cdef double[:]        new_knots = curve._knots[span1:span2 + curve._degree + 2]
+        # Cut off what lies beyond the trim points (nothing does at an end of the curve)
+        if fabs(t2 - self._interval[1]) > 1e-12:
+            curve = split_curve2(curve, t2)[0]
+        if fabs(t1 - self._interval[0]) > 1e-12:
+            curve = split_curve2(curve, t1)[1]
 
         # Shift knot vector to start at 0
-        cdef double shift = new_knots[0]
+        cdef double shift = curve._knots[0]
         cdef int i
-        for i in range(new_knots.shape[0]):
-            new_knots[i]-=shift
-
-
-        # Update curve data
-        curve._control_points = new_cpts
-        curve._knots = new_knots
-        curve._interval[0] = new_knots[0]
-        curve._interval[1] = new_knots[new_knots.shape[0]-1]
+        for i in range(curve._knots.shape[0]):
+            curve._knots[i]-=shift
+        curve.knots_update_hook()
 
         return curve
 
-- 
2.43.0


From 87c40d029296611f243fa45a7d8da000bc692835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 025/200] fix: the derivatives of a weighted curve take the
 weights into account

---
 mmcore/geom/nurbs.pxd |  1 +
 mmcore/geom/nurbs.pyx | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index eebc350..c1a7478 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -476,6 +476,7 @@ cdef class NURBSCurve(ParametricCurve):
 
     cdef void csecond_derivative(self, double t, double[:] result)
 
+    cdef bint crational_derivatives(self, double t, int d, double[:,:] CK )
     cdef void cderivatives1(self, double t, int d, double[:,:] CK )
     cdef void cderivatives2(self, double t, int d, double[:,:] CK )
     cdef void cplane(self, double t, double[:,:] result)
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 9ab1502..0039d87 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1569,6 +1569,43 @@ cdef class NURBSCurve(ParametricCurve):
         return result
 
 
+    @cython.cdivision(True)
+    @cython.initializedcheck(False)
+    @cython.boundscheck(False)
+    @cython.wraparound(False)
+    cdef bint crational_derivatives(self, double t, int d, double[:,:] CK ) :
+        """
+        Derivatives of a curve with weights (The NURBS Book, A4.2). Returns 0, and leaves CK alone, when all
+        the weights are 1.
+        """
+        cdef int n = self._control_points.shape[0]
+        cdef int i, j, k
+        cdef double b
+        cdef bint rational = 0
+        for i in range(n):
+            if self._control_points[i,3] != 1.:
+                rational = 1
+                break
+        if not rational:
+            return 0
+        cdef double[:,:] Pw = self._control_points.copy()
+        cdef double[:,:] Aw = np.zeros((d + 1, 4))
+        for i in range(n):
+            for j in range(3):
+                Pw[i,j] *= Pw[i,3]
+        curve_derivs_alg1(n - 1, self._degree, self._knots, Pw, t, d, Aw, self._periodic)
+        for k in range(min(d + 1, CK.shape[0])):
+            for j in range(3):
+                CK[k,j] = Aw[k,j]
+            b = 1.
+            for i in range(1, k + 1):
+                b = b * (k - i + 1) / i
+                for j in range(3):
+                    CK[k,j] -= b * Aw[i,3] * CK[k - i,j]
+            for j in range(3):
+                CK[k,j] /= Aw[0,3]
+        return 1
+
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     @cython.boundscheck(False)
@@ -1585,6 +1622,8 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+        if self.crational_derivatives(t, d, CK):
+            return
         curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
 
     @cython.cdivision(True)
@@ -1605,6 +1644,8 @@ cdef class NURBSCurve(ParametricCurve):
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
            cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
 
+           if self.crational_derivatives(t, d, CK):
+               return
            curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
 
     @cython.cdivision(True)
-- 
2.43.0


From 18e9d8dc25b009ad2fbadb9a9613ce1b9c6ec807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 026/200] fix: derivative_control_points no longer fails on the
 weight column

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0039d87..302f1fd 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1732,7 +1732,7 @@ cdef class NURBSCurve(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef cnp.ndarray[double, ndim=3] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return PK
     @cython.cdivision(True)
-- 
2.43.0


From fa3cad481ecc01a201bc388706346ef2fd42954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 027/200] fix: a curve is periodic only when all the wrapped
 control points agree, not just the last one

---
 mmcore/geom/nurbs.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 302f1fd..118a2c0 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1231,9 +1231,8 @@ cdef class NURBSCurve(ParametricCurve):
 
             for i in range(4):
 
-                res = part1[j][i] == part2[j][i]
-                if not res:
-                    break
+                if part1[j][i] != part2[j][i]:
+                    return False
 
         return res
 
-- 
2.43.0


From 5bf313c2ceada78e5e5e50d9cc7cb04cd2e469df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 028/200] fix: pickling and copy.copy of a periodic curve keep
 its control points and share nothing with the original

---
 mmcore/geom/nurbs.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 118a2c0..6496a5e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1147,7 +1147,7 @@ cdef class NURBSCurve(ParametricCurve):
         self._control_points=np.zeros((0,4))
         self._interval=np.zeros((2,))
     def __reduce__(self):
-        return (NURBSCurve, (np.asarray(self._control_points),self._degree,  np.asarray(self._knots),  self._periodic))
+        return (NURBSCurve, (np.array(self._control_points),self._degree,  np.array(self._knots)), self.__getstate__())
     def __init__(self, double[:,:] control_points, int degree=3, double[:] knots=None, bint periodic=0):
 
         self._degree = degree
@@ -1238,12 +1238,12 @@ cdef class NURBSCurve(ParametricCurve):
 
     def __getstate__(self):
         state=dict()
-        state['_control_points']=np.asarray(self._control_points)
-        state['_knots'] = np.asarray(self._knots)
+        state['_control_points']=np.array(self._control_points)
+        state['_knots'] = np.array(self._knots)
         state['_degree'] = self._degree
         state['_periodic']=self._periodic
-        state['_interval']=np.asarray(self._interval)
-        state['_weights'] = np.asarray(self.weights)
+        state['_interval']=np.array(self._interval)
+        state['_weights'] = np.array(self.weights)
         return state
 
     def __setstate__(self,state):
@@ -1255,11 +1255,11 @@ cdef class NURBSCurve(ParametricCurve):
             self._control_points[i, 2] = state['_control_points'][i][2]
             self._control_points[i, 3] = state['_weights'][i]
 
-        self._knots = state['_knots']
+        self._knots = np.array(state['_knots'])
         self._degree = state['_degree']
         self._periodic = state['_periodic']
         self.weights = state['_control_points'][:,3]
-        self._interval = state['_interval']
+        self.knots_update_hook()
 
 
     @property
-- 
2.43.0


From ccb14681ad1575a4c70a13264ca91d9beb4318b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 029/200] fix: serialized curves no longer end in four
 uninitialised bytes

---
 mmcore/geom/nurbs.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 6496a5e..499f592 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1858,16 +1858,18 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Calculate total size of the byte array
         cdef size_t total_size = (
-            sizeof(MAGIC_BYTES) +
+            MAGIC_BYTES_SIZE +
             sizeof(uint32_t) + # Magic bytes and version
             sizeof(uint32_t) +  # degree
-            sizeof(bint) +  # periodic flag
+            sizeof(uint32_t) +  # periodic flag
             sizeof(uint32_t)+  # number of control points
             sizeof(uint32_t) +  # number of knots
             n_ctrlpts * dim * sizeof(double) +  # control points
             n_knots * sizeof(double)  # knots
         )
         cdef char* buffer = <char*>malloc(total_size)
+        if buffer == NULL:
+            raise MemoryError("Failed to allocate memory for serialization")
         # Allocate memory for the byte array
 
         cdef char* current = buffer
-- 
2.43.0


From 6adca95e7561ed363090e134cb1c65f39be89d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 030/200] fix: deserializing truncated or damaged curve data
 raises ValueError instead of reading beyond the data

---
 mmcore/geom/nurbs.pyx | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 499f592..b938363 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1946,12 +1946,16 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     cdef NURBSCurve cdeserialize(const unsigned char[:] data):
+        cdef Py_ssize_t header = MAGIC_BYTES_SIZE + 5 * sizeof(uint32_t)
+        cdef Py_ssize_t body
+        if data.shape[0] < header:
+            raise ValueError("Truncated data: the header is incomplete")
         cdef const char* buffer = <const char*>&data[0]
         cdef const char* current = buffer
         cdef int vers
         # Check magic bytes and version
         if memcmp(current, MAGIC_BYTES, MAGIC_BYTES_SIZE) != 0:
-            raise ValueError(f"Invalid magic bytes: {current}")
+            raise ValueError(f"Invalid magic bytes: {bytes(data[:MAGIC_BYTES_SIZE])}")
         current += MAGIC_BYTES_SIZE
         vers=(<uint32_t*>current)[0]
         if (<uint32_t*>current)[0] != VERSION:
@@ -1959,36 +1963,43 @@ cdef class NURBSCurve(ParametricCurve):
         current += sizeof(uint32_t)
 
         # Read degree and periodic flag
-        cdef int degree = (<uint32_t*>current)[0]
+        cdef uint32_t raw_degree = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
-        cdef bint periodic = (<uint32_t*>current)[0]
+        cdef uint32_t raw_periodic = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
 
         # Read number of control points and knots
-        cdef int n_ctrlpts = (<uint32_t*>current)[0]
+        cdef uint32_t raw_ctrlpts = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
-        cdef int n_knots = (<uint32_t*>current)[0]
+        cdef uint32_t raw_knots = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
 
-        # Allocate memory for control points and knots
-        cdef double* control_points_data = <double*>malloc(n_ctrlpts * 4 * sizeof(double))
-        cdef double* knots_data = <double*>malloc(n_knots * sizeof(double))
+        # The counts must describe a curve and must be those of the data (version 1 data used to carry 4 more bytes)
+        body = (<Py_ssize_t> raw_ctrlpts * 4 + <Py_ssize_t> raw_knots) * <Py_ssize_t> sizeof(double)
+        if data.shape[0] != header + body and data.shape[0] != header + body + 4:
+            raise ValueError("Damaged data: the length does not match the header")
+        if (raw_periodic > 1 or raw_degree >= raw_ctrlpts
+                or <Py_ssize_t> raw_knots != <Py_ssize_t> raw_ctrlpts + <Py_ssize_t> raw_degree + 1):
+            raise ValueError("Damaged data: the header does not describe a curve")
+        cdef int degree = raw_degree
+        cdef bint periodic = raw_periodic
+        cdef int n_ctrlpts = raw_ctrlpts
+        cdef int n_knots = raw_knots
+        cdef int i
 
-        if control_points_data == NULL or knots_data == NULL:
-            free(control_points_data)
-            free(knots_data)
-            raise MemoryError("Failed to allocate memory for deserialization")
+        # Allocate memory for control points and knots
+        cdef double[:, :] control_points = np.empty((n_ctrlpts, 4))
+        cdef double[:] knots = np.empty(n_knots)
 
         # Copy control points data
-        memcpy(control_points_data, current, n_ctrlpts * 4 * sizeof(double))
+        memcpy(&control_points[0, 0], current, n_ctrlpts * 4 * sizeof(double))
         current += n_ctrlpts * 4 * sizeof(double)
 
         # Copy knots data
-        memcpy(knots_data, current, n_knots * sizeof(double))
-
-        # Create memory views for the allocated arrays
-        cdef double[:, :] control_points = <double[:n_ctrlpts, :4]>control_points_data
-        cdef double[:] knots = <double[:n_knots]>knots_data
+        memcpy(&knots[0], current, n_knots * sizeof(double))
+        for i in range(1, n_knots):
+            if not knots[i - 1] <= knots[i]:
+                raise ValueError("Damaged data: the knots are not in order")
 
         # Create new NURBSCurve object
         cdef NURBSCurve new_curve = NURBSCurve.__new__(NURBSCurve)
-- 
2.43.0


From a91cf15e1621f80de9837ee9319189ed397791fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 031/200] fix: the bounding box of a weighted curve encloses
 its control points

---
 mmcore/geom/nurbs.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index b938363..db62b8c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2024,7 +2024,10 @@ cdef class NURBSCurve(ParametricCurve):
     def bbox(self,double[:,:] result=None):
         if result is None:
             result=np.zeros((2,3))
-        aabb(self._control_points, result)
+        # The rows are (x, y, z, w) with x, y, z not multiplied by the weight
+        cdef double[:,:] pts=self._control_points.copy()
+        pts[:,3]=1.
+        aabb(pts, result)
         return result
 
     def astuple(self):
-- 
2.43.0


From ac43dee9685e04854e3fc077cf7e25331e173214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 032/200] fix: reverse_curve no longer reads knots in front of
 the knot vector

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index db62b8c..1d0d47e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2115,7 +2115,7 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
     cdef double b = curve._knots[curve._knots.shape[0]-1]
     cdef int i
     for i in range(len(curve._knots)):
-        new_knots[i] = a + b - curve._knots[-(i+1)]
+        new_knots[i] = a + b - curve._knots[curve._knots.shape[0]-1-i]
 
     return NURBSCurve.create(new_cpts, curve._degree, new_knots, curve._periodic)
 
-- 
2.43.0


From 9742c693da2f21dc1277e5fec7cb2a58b5a02b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 033/200] fix: the interval of a periodic curve is its period

---
 mmcore/geom/nurbs.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 1d0d47e..55722b4 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1206,6 +1206,8 @@ cdef class NURBSCurve(ParametricCurve):
         return obj
     cpdef void set_degree(self, int val):
         self._degree=val
+        if self._knots.shape[0]>2*val+1:
+            self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
 
@@ -1369,8 +1371,9 @@ cdef class NURBSCurve(ParametricCurve):
         self.knots_update_hook()
 
     cdef _update_interval(self):
-        self._interval[0] =  self._knots[0]
-        self._interval[1] = self._knots[self._knots.shape[0]-1]
+        # The domain of the basis: the ends of a clamped knot vector, one period of a periodic one
+        self._interval[0] =  self._knots[self._degree]
+        self._interval[1] = self._knots[self._knots.shape[0]-1-self._degree]
     cpdef double[:,:] generate_control_points_periodic(self, double[:,:] cpts):
         cdef int n = len(cpts)
         cdef int i
@@ -2078,7 +2081,7 @@ cdef class NURBSCurve(ParametricCurve):
             curve = split_curve2(curve, t1)[1]
 
         # Shift knot vector to start at 0
-        cdef double shift = curve._knots[0]
+        cdef double shift = curve._interval[0]
         cdef int i
         for i in range(curve._knots.shape[0]):
             curve._knots[i]-=shift
-- 
2.43.0


From 6da36825edadf9df085da7ef59680d0f26551b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 034/200] fix: evaluating a periodic curve outside its period
 wraps instead of extrapolating

---
 mmcore/geom/nurbs.pxd | 15 +++++++++++++++
 mmcore/geom/nurbs.pyx |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index c1a7478..1a273e2 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -61,6 +61,19 @@ cdef inline void basis_funs(int i, double u, int p, double[:] U, double* N) noex
     free(right)
 
 
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef inline double wrap_parameter(int n, int p, double u, double[:] U) noexcept nogil:
+    """
+    Bring a parameter of a periodic curve into its period.
+    """
+    cdef double period = U[n + 1] - U[p]
+    while u < U[p]:
+        u += period
+    while u > U[n + 1]:
+        u -= period
+    return u
+
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.boundscheck(False)
@@ -82,6 +95,8 @@ cdef inline void curve_point(int n, int p, double[:] U, double[:, :] P, double u
 
     cdef int pp = p + 1
     cdef int i, j
+    if is_periodic:
+        u = wrap_parameter(n, p, u, U)
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double* N = <double*>malloc(sizeof(double)*pp)
     cdef double sum_of_weights=0.
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 55722b4..7728d3b 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -364,6 +364,8 @@ cpdef void curve_derivs_alg1(int n, int p, double[:] U, double[:, :] P, double u
     cdef int du = min(d, p)
     #cdef double[:, :] CK = np.zeros((du + 1, P.shape[1]))
     cdef int pp=p+1
+    if is_periodic:
+        u = wrap_parameter(n, p, u, U)
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double[:, :] nders = ders_basis_funs(span, u, p, du, U)
 
@@ -445,6 +447,8 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
 
     #cdef double[:, :] CK = np.zeros((d + 1, dimension))
 
+    if is_periodic:
+        u = wrap_parameter(n, degree, u, knotvector)
     cdef int span = find_span_inline(n, degree, u, knotvector,is_periodic)
     #cdef double[:, :, :] PK = np.zeros((d + 1, degree + 1, P.shape[1]))
 
-- 
2.43.0


From 1d6724fc6d38e72b34bfad7306bd0cb0b23e44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 035/200] fix: make_open leaves a curve that is not periodic
 alone

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 7728d3b..26266bc 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1420,7 +1420,7 @@ cdef class NURBSCurve(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From 39c75689692ba1f090bada1f338a921542545856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 036/200] fix: views of a surface's control points stay valid
 after the surface changes or is deleted

---
 mmcore/geom/nurbs.pxd |  3 +--
 mmcore/geom/nurbs.pyx | 61 +++++++++----------------------------------
 2 files changed, 14 insertions(+), 50 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index 1a273e2..8804a5c 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -513,7 +513,6 @@ cpdef tuple split_curve(NURBSCurve obj, double param, double tol=*, bint normali
 
 
 cdef class NURBSSurface(ParametricSurface):
-    cdef double* _control_points_arr
     cdef double[:] _knots_u
     cdef double[:] _knots_v
 
@@ -528,7 +527,7 @@ cdef class NURBSSurface(ParametricSurface):
     cdef void _update_interval(self)
     cdef void generate_knots_u(self)
     cdef void generate_knots_v(self)
-    cdef void realloc_control_points(self, size_t new_size_u, size_t new_size_v) noexcept nogil
+    cdef alloc_control_points(self, Py_ssize_t new_size_u, Py_ssize_t new_size_v)
     cdef NURBSSurface ccopy(self)
     cpdef void insert_knot_u(self, double t, int count)
     cpdef void insert_knot_v(self, double t, int count)
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 26266bc..c4f7226 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2325,9 +2325,7 @@ cdef class NURBSSurface(ParametricSurface):
         self._degree=[degree_u,degree_v]
 
         cdef int cpt_count=  self._size[0]*  self._size[1]
-        self._control_points_arr=<double*>malloc(self._size[0]*self._size[1]*4*sizeof(double))
-        self.control_points_view=<double[:control_points.shape[0],:control_points.shape[1],:4 ]>self._control_points_arr
-        self.control_points_flat_view=<double[:cpt_count,:4 ]>self._control_points_arr
+        self.alloc_control_points(self._size[0], self._size[1])
         cdef int i, j, k
         if control_points.shape[2]<4:
             for i in range(cpt_count):
@@ -2358,9 +2356,7 @@ cdef class NURBSSurface(ParametricSurface):
         self._degree=[degree[0],degree[1]]
 
         cdef int cpt_count=  self._size[0]*  self._size[1]
-        self._control_points_arr=<double*>malloc(self._size[0]*self._size[1]*4*sizeof(double))
-        self.control_points_view=<double[:control_points.shape[0],:control_points.shape[1],:4 ]>self._control_points_arr
-        self.control_points_flat_view=<double[:cpt_count,:4 ]>self._control_points_arr
+        self.alloc_control_points(self._size[0], self._size[1])
         cdef int i, j, k
         if control_points.shape[2]<4:
             for i in range(cpt_count):
@@ -2541,30 +2537,12 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int n_knots_u = self._knots_u.shape[0]
         cdef int n_knots_v = self._knots_v.shape[0]
 
-        # Allocate memory for new arrays
-        cdef double* new_control_points_arr = <double*>malloc(n_ctrlpts_u * n_ctrlpts_v * 4 * sizeof(double))
-        cdef double* new_knots_u = <double*>malloc(n_knots_u * sizeof(double))
-        cdef double* new_knots_v = <double*>malloc(n_knots_v * sizeof(double))
-
-        if new_control_points_arr == NULL or new_knots_u == NULL or new_knots_v == NULL:
-            free(new_control_points_arr)
-            free(new_knots_u)
-            free(new_knots_v)
-
-            raise MemoryError("Failed to allocate memory for surface copy")
-
-        # Copy data using memcpy for efficiency
-        memcpy(new_control_points_arr, self._control_points_arr, n_ctrlpts_u * n_ctrlpts_v * 4 * sizeof(double))
-        memcpy(new_knots_u, &self._knots_u[0], n_knots_u * sizeof(double))
-        memcpy(new_knots_v, &self._knots_v[0], n_knots_v * sizeof(double))
-
         # Create new NURBSSurface object
         cdef NURBSSurface new_surface = NURBSSurface.__new__(NURBSSurface)
-        new_surface._control_points_arr = new_control_points_arr
-        new_surface.control_points_view = <double[:n_ctrlpts_u, :n_ctrlpts_v, :4]>new_control_points_arr
-        new_surface.control_points_flat_view = <double[:n_ctrlpts_u*n_ctrlpts_v, :4]>new_control_points_arr
-        new_surface._knots_u = <double[:n_knots_u]>new_knots_u
-        new_surface._knots_v = <double[:n_knots_v]>new_knots_v
+        new_surface.alloc_control_points(n_ctrlpts_u, n_ctrlpts_v)
+        memcpy(&new_surface.control_points_view[0, 0, 0], &self.control_points_view[0, 0, 0], n_ctrlpts_u * n_ctrlpts_v * 4 * sizeof(double))
+        new_surface._knots_u = np.array(self._knots_u)
+        new_surface._knots_v = np.array(self._knots_v)
         new_surface._degree[0] = self._degree[0]
         new_surface._degree[1] = self._degree[1]
         new_surface._size[0] = self._size[0]
@@ -2575,14 +2553,11 @@ cdef class NURBSSurface(ParametricSurface):
 
         return new_surface
 
-    cdef void realloc_control_points(self, size_t new_size_u, size_t new_size_v ) noexcept nogil:
-
-        self._control_points_arr= <double*> realloc(self._control_points_arr, new_size_u*new_size_v*4*sizeof(double))
-        with gil:
-            self._control_points_view=<double[:new_size_u,:new_size_v,:4]>self._control_points_arr
-            self._control_points_flat_view = <double[:(new_size_u*new_size_v), :4]>self._control_points_arr
-        self._size[0]=new_size_u
-        self._size[1] = new_size_v
+    cdef alloc_control_points(self, Py_ssize_t new_size_u, Py_ssize_t new_size_v):
+        # The arrays own the memory: a view handed out earlier stays valid when the surface changes or is deleted
+        cdef object points = np.empty((new_size_u, new_size_v, 4))
+        self.control_points_view = points
+        self.control_points_flat_view = points.reshape((new_size_u * new_size_v, 4))
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
@@ -2673,10 +2648,7 @@ cdef class NURBSSurface(ParametricSurface):
         cdef double[:] k_v = knot_insertion_kv(self._knots_u, t, span, count)
         cdef int s_u = find_multiplicity(t, self._knots_u,1e-12)
 
-        self._control_points_arr= <double*> realloc(self._control_points_arr, new_count_u*new_count_v*4*sizeof(double))
-
-        self.control_points_view=<double[:new_count_u,:new_count_v,:4]>self._control_points_arr
-        self.control_points_flat_view = <double[:(new_count_u*new_count_v), :4]>self._control_points_arr
+        self.alloc_control_points(new_count_u, new_count_v)
 
 
         for v in range(self._size[1]):
@@ -2734,10 +2706,7 @@ cdef class NURBSSurface(ParametricSurface):
         cdef double[:] k_v = knot_insertion_kv(self._knots_v, t, span, count)
         cdef int s_v = find_multiplicity(t, self._knots_v,1e-12)
 
-        self._control_points_arr= <double*> realloc(self._control_points_arr, new_count_u*new_count_v*4*sizeof(double))
-
-        self.control_points_view=<double[:new_count_u,:new_count_v,:4]>self._control_points_arr
-        self.control_points_flat_view = <double[:(new_count_u*new_count_v), :4]>self._control_points_arr
+        self.alloc_control_points(new_count_u, new_count_v)
 
 
         for u in range(self._size[0]):
@@ -2756,10 +2725,6 @@ cdef class NURBSSurface(ParametricSurface):
         self._size[1] =new_count_v
         self._update_interval()
 
-    def __dealloc__(self):
-        if self._control_points_arr !=NULL:
-            free(self._control_points_arr)
-
 
 
 
-- 
2.43.0


From bf503a08f932a313f8a9fcb2dc442eb5d6064d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 037/200] fix: a surface keeps its own knot vectors instead of
 the caller's arrays

---
 mmcore/geom/nurbs.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c4f7226..9654924 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2376,18 +2376,18 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=np.array(knots_u)
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=np.array(knots_v)
         self._update_interval()
     @property
     def knots_u(self):
         return np.array(self._knots_u)
     @knots_u.setter
     def knots_u(self,val):
-        self._knots_u=val
+        self._knots_u=np.array(val, dtype=float)
         self._update_interval()
 
     @property
@@ -2435,7 +2435,7 @@ cdef class NURBSSurface(ParametricSurface):
 
     @knots_v.setter
     def knots_v(self,val):
-        self._knots_v=val
+        self._knots_v=np.array(val, dtype=float)
         self._update_interval()
     @property
     def degree(self):
-- 
2.43.0


From 39f3f0d20ca2fe605a82d26e8660a796e648300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 038/200] fix: hashing and comparing surfaces works

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 9654924..b6336bd 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2603,7 +2603,7 @@ cdef class NURBSSurface(ParametricSurface):
     def geometry_hash(self, check_interval=False):
         cdef bytes ku = np.ascontiguousarray(self._knots_u).tobytes()
         cdef bytes kv = np.ascontiguousarray(self._knots_v).tobytes()
-        cdef bytes pts = np.ascontiguousarray(self._control_points).tobytes()
+        cdef bytes pts = np.ascontiguousarray(self.control_points_view).tobytes()
         cdef double u0 = self._interval[0][0]
         cdef double u1 = self._interval[0][1]
         cdef double v0 = self._interval[1][0]
@@ -2612,7 +2612,7 @@ cdef class NURBSSurface(ParametricSurface):
         if check_interval:
             itms = (self._degree[0], self._degree[1],ku,kv, pts, u0,u1,v0,v1)
         else:
-            itms = (self._degree[0], self._degree[1],self._degree, ku,kv, pts)
+            itms = (self._degree[0], self._degree[1], ku,kv, pts)
         return hash(itms)
     def __hash__(self):
         return self.geometry_hash(check_interval=True)
-- 
2.43.0


From c9313758c4edc3ce549d248a2cf6e7e76414c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 039/200] fix: the degree of a surface is a value, and setting
 it updates the interval with the knots

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index b6336bd..05d3734 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2439,14 +2439,14 @@ cdef class NURBSSurface(ParametricSurface):
         self._update_interval()
     @property
     def degree(self):
-        cdef int[:] dg=self._degree
-        return dg
+        return (self._degree[0], self._degree[1])
     @degree.setter
     def degree(self, val):
         self._degree[0]=val[0]
         self._degree[1]=val[1]
         self.generate_knots_u()
         self.generate_knots_v()
+        self._update_interval()
 
 
     @cython.boundscheck(False)
-- 
2.43.0


From 53b01269170f767e5d909daf6a466f0c2949b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 040/200] fix: isocurves of a weighted surface lie on the
 surface

---
 mmcore/numeric/intersection/ssx/boundary_intersection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/numeric/intersection/ssx/boundary_intersection.py b/mmcore/numeric/intersection/ssx/boundary_intersection.py
index 9cbedfd..2e4e445 100644
--- a/mmcore/numeric/intersection/ssx/boundary_intersection.py
+++ b/mmcore/numeric/intersection/ssx/boundary_intersection.py
@@ -263,6 +263,8 @@ def extract_isocurve(
         for i in range(m):  # iterate over v direction
             for j in range(degree_u + 1):  # combine with basis functions
                 control_points[i] += basis[j] * surface.control_points_w[span - degree_u + j, i]
+        # surfaces store homogeneous points (xw, yw, zw, w), curves store (x, y, z, w)
+        control_points[:, :3] /= control_points[:, 3:]
 
             # Return curve with v-direction degree and knots since we're varying in v
 
@@ -293,6 +295,7 @@ def extract_isocurve(
         for i in range(m):  # iterate over u direction
             for j in range(degree_v + 1):  # combine with basis functions
                 control_points[i] += basis[j] * surface.control_points_w[i, span - degree_v + j]
+        control_points[:, :3] /= control_points[:, 3:]
         cc = NURBSCurve(control_points, surface.degree[0],surface.knots_u)
         #print('i',cc.knots,cc.interval())
         #cc.knots = surface.knots_u
-- 
2.43.0


From e19d0bdc8d6880375a0d66c4167f3143425389ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 041/200] fix: a surface ruled between weighted curves passes
 through them

---
 mmcore/construction/ruled.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/construction/ruled.py b/mmcore/construction/ruled.py
index 2219680..732a439 100644
--- a/mmcore/construction/ruled.py
+++ b/mmcore/construction/ruled.py
@@ -90,6 +90,8 @@ def ruled(curve1:NURBSCurve, curve2:NURBSCurve):
     for i in range(n):
         control_points[i, 0] = np.array(c1._control_points)[i]
         control_points[i, 1] = np.array(c2._control_points)[i]
+    # curves store (x, y, z, w), surfaces store homogeneous points (xw, yw, zw, w)
+    control_points[..., :3] *= control_points[..., 3:]
 
     # Create surface knot vectors
     u_knots = c1.knots  # Same for both curves now
-- 
2.43.0


From 93104ce4a4e40fa929bd97385737959f588b76ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 042/200] fix: degree elevation keeps the shape of a weighted
 curve

---
 mmcore/geom/curves/knot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index cefa036..d1e8536 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -864,7 +864,11 @@ def degree_elevate_curve(curve:NURBSCurve, num:int=1):
     # Loop through to apply degree elevation
     for crv in crv_list:
 
-            new_cpts,new_deg = degree_elevation_bez( crv.control_pointsw,crv.degree, num=num)
+            # in homogeneous coordinates: (x, y, z, w) -> (xw, yw, zw, w) and back
+            cptsw = np.array(crv.control_pointsw)
+            cptsw[:, :3] *= cptsw[:, 3:]
+            new_cpts,new_deg = degree_elevation_bez( cptsw,crv.degree, num=num)
+            new_cpts[:, :3] /= new_cpts[:, 3:]
             new_kv=np.zeros((crv.knots.shape[0]+num*2,))
 
             new_kv[:num]=crv.knots[0]
-- 
2.43.0


From 1646a6c43ac284aef77da7626a3b8fc692cefd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 043/200] fix: joining two curves gives a valid knot vector and
 keeps the weights

---
 mmcore/geom/curves/knot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index d1e8536..1ddff5b 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1151,8 +1151,10 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     degree = curve1.degree  # Now both curves have same degree
 
     # Get control points and weights
-    cpts1 = curve1.control_points
-    cpts2 = curve2.control_points
+    cpts1 = curve1.control_pointsw
+    cpts2 = curve2.control_pointsw
+    # Scaling all the weights of a curve keeps its shape; the shared point needs the same weight on both sides
+    cpts2[:, 3] *= cpts1[-1, 3] / cpts2[0, 3]
 
     # Create new knot vector by joining and scaling
     knots1 = curve1.knots
@@ -1161,9 +1163,8 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     # Scale second knot vector to start where first one ends
 
 
-    # Combine knot vectors
-    print(knots1,knots1.max()+knots2-knots2.min())
-    new_knots = np.concatenate([knots1,knots1.max()+knots2-knots2.min()])
+    # Combine knot vectors: the joint is a knot of multiplicity degree
+    new_knots = np.concatenate([knots1[:-1],(knots1.max()+knots2-knots2.min())[degree+1:]])
 
     # Combine control points, merging the connecting points
     new_cpts = np.vstack([
-- 
2.43.0


From 31e96c106d168ed3dfe7166af779013254749d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 044/200] fix: an edit of a curve that fails leaves the curve
 as it was

---
 mmcore/geom/nurbs.pxd |  1 +
 mmcore/geom/nurbs.pyx | 75 +++++++++++++++++++++++--------------------
 2 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index 8804a5c..76778ae 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -470,6 +470,7 @@ cdef class NURBSCurve(ParametricCurve):
     cpdef void make_periodic(self)
 
     cdef _update_interval(self)
+    cdef _apply(self, double[:,:] control_points, double[:] knots, bint periodic)
 
     cpdef double[:,:] generate_control_points_periodic(self, double[:,:] cpts)
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 05d3734..dc82e96 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1209,9 +1209,25 @@ cdef class NURBSCurve(ParametricCurve):
 
         return obj
     cpdef void set_degree(self, int val):
-        self._degree=val
+        cdef double[:] greville
         if self._knots.shape[0]>2*val+1:
-            self.knots_update_hook()
+            greville = greville_abscissae(self._knots, val)
+            self._degree=val
+            self._update_interval()
+            self._greville_abscissae = greville
+        else:
+            self._degree=val
+        self._evaluate_cached.cache_clear()
+
+    cdef _apply(self, double[:,:] control_points, double[:] knots, bint periodic):
+        # What can fail comes first: an edit that fails leaves the curve as it was. None keeps the control points.
+        cdef double[:] greville = greville_abscissae(knots, self._degree)
+        if control_points is not None:
+            self._control_points = control_points
+        self._knots = knots
+        self._periodic = periodic
+        self._update_interval()
+        self._greville_abscissae = greville
         self._evaluate_cached.cache_clear()
 
 
@@ -1292,12 +1308,9 @@ cdef class NURBSCurve(ParametricCurve):
                              "If you know what you are doing, assign control points directly by setting the _control_points attribute value. "
                              "However, you will have to clear caches, update the knots and possibly the periodicity.")
 
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-                self._control_points[:]=control_points
-        else:
-
-                self._control_points[:, :control_points.shape[1]] = control_points
+        cdef cnp.ndarray[double, ndim=2] new_control_points = np.ones((control_points.shape[0],4))
+        new_control_points[:, :control_points.shape[1]] = control_points
+        self._control_points = new_control_points
 
         self._evaluate_cached.cache_clear()
 
@@ -1310,9 +1323,7 @@ cdef class NURBSCurve(ParametricCurve):
     @knots.setter
     def knots(self, double[:] v):
 
-        self._knots=np.array(v)
-        self.knots_update_hook()
-        self._evaluate_cached.cache_clear()
+        self._apply(None, np.array(v), self._periodic)
 
     @property
     def weights(self):
@@ -1406,11 +1417,8 @@ cdef class NURBSCurve(ParametricCurve):
         for i in range(self.degree):
             new_control_points[n + i, :] = self._control_points[i, :]
 
-        self._control_points = new_control_points
-        self.generate_knots_periodic()
-
-        self._periodic=True
-        self._evaluate_cached.cache_clear()
+        cdef double[:] new_knots = np.arange(-self._degree, new_n + 1, dtype=np.float64)
+        self._apply(new_control_points, new_knots, True)
 
 
 
@@ -1423,11 +1431,14 @@ cdef class NURBSCurve(ParametricCurve):
         if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
-        self._control_points = self._control_points[:n, :]  # Trim the extra control points
-        self.generate_knots()  # Generate an open knot vector
-
-        self._periodic = False
-        self._evaluate_cached.cache_clear()
+        # Trim the extra control points and generate an open knot vector
+        cdef double[:] new_knots = np.concatenate((
+            np.zeros(self._degree + 1),
+            np.arange(1, n - self._degree),
+            np.full(self._degree + 1, n - self._degree)
+        ))
+        cdef double[:,:] new_control_points = self._control_points[:n, :].copy()
+        self._apply(new_control_points, new_knots, False)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -1504,10 +1515,9 @@ cdef class NURBSCurve(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=np.array(control_points)
-        self._knots=np.array(knots)
-        self.knots_update_hook()
-        self._evaluate_cached.cache_clear()
+        cdef double[:,:] new_control_points = np.ones((control_points.shape[0], 4))
+        new_control_points[:, :control_points.shape[1]] = control_points
+        self._apply(new_control_points, np.array(knots), self._periodic)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -1802,11 +1812,7 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Update curve
 
-        self._control_points=new_cpts
-        self._knots=k_v
-        self.knots_update_hook()
-
-        self._evaluate_cached.cache_clear()
+        self._apply(new_cpts, k_v, self._periodic)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
@@ -1936,9 +1942,10 @@ cdef class NURBSCurve(ParametricCurve):
         cdef double end = np.max(self._knots)
         cdef double d=1/(end-start)
         cdef int i
-        for i in range(len(self._knots)):
-            self._knots[i]=((self._knots[i]-start)*d)
-        self.knots_update_hook()
+        cdef double[:] knots = np.array(self._knots)
+        for i in range(len(knots)):
+            knots[i]=((knots[i]-start)*d)
+        self._apply(None, knots, self._periodic)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
@@ -1946,8 +1953,6 @@ cdef class NURBSCurve(ParametricCurve):
     def normalize_knots(self):
         self.cnormalize_knots()
 
-        self._evaluate_cached.cache_clear()
-
     @staticmethod
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From 357df40840e793d665fb88a86763e0f324d9d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 045/200] fix: a failing allocation in knot insertion is
 reported instead of swallowed

---
 mmcore/geom/nurbs.pxd | 2 +-
 mmcore/geom/nurbs.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index 76778ae..aed8ced 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -304,7 +304,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
 
 cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, double u, double tol=*, int num=*,bint is_periodic=*)
 
-cpdef double[:] knot_insertion_kv(double[:] knotvector, double u, int span, int r) noexcept nogil
+cpdef double[:] knot_insertion_kv(double[:] knotvector, double u, int span, int r) nogil
 
 cpdef double[:,:] knot_insertion(int degree, double[:] knotvector, double[:, :] ctrlpts, double u, int num, int s, int span, bint is_periodic=*, double[:,:] result=?) noexcept nogil
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index dc82e96..581411b 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -555,7 +555,7 @@ cpdef double[:,:] knot_insertion(int degree, double[:] knotvector, double[:, :]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-cpdef double[:] knot_insertion_kv(double[:] knotvector, double u, int span, int r) noexcept nogil:
+cpdef double[:] knot_insertion_kv(double[:] knotvector, double u, int span, int r) nogil:
     cdef int kv_size = knotvector.shape[0]
     cdef double[:]  kv_updated
     with gil:
-- 
2.43.0


From 22f3c9729e8efef12be059c4797857115d7fc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 046/200] fix: inserting a knot too often or outside the domain
 raises ValueError instead of writing out of bounds

---
 mmcore/geom/nurbs.pyx | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 581411b..8fb2881 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1787,9 +1787,15 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i, j
 
         # Find knot span
+        cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
+        if count == 0:
+            return
+        if count < 0 or count + s_u > self._degree:
+            raise ValueError("The multiplicity of a knot cannot exceed the degree")
+        if not self._knots[self._degree] < t < self._knots[n]:
+            raise ValueError("A knot can be inserted only inside the domain")
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
         cdef double[:] k_v = knot_insertion_kv(self._knots, t, span, count)
-        cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
         # Compute new knot vector
         new_cpts=np.empty((new_count,4))
 
@@ -2645,13 +2651,19 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int new_count_v = self._size[1]
 
         cdef double[:,:,:] cpts=self.control_points_view.copy()
+        cdef int s_u = find_multiplicity(t, self._knots_u,1e-12)
+        if count == 0:
+            return
+        if count < 0 or count + s_u > self._degree[0]:
+            raise ValueError("The multiplicity of a knot cannot exceed the degree")
+        if not self._knots_u[self._degree[0]] < t < self._knots_u[self._size[0]]:
+            raise ValueError("A knot can be inserted only inside the domain")
         cdef int span = find_span_inline(self._size[0]-1,
             self._degree[0], t, self._knots_u, 0
         )
 
         # Compute new knot vector
         cdef double[:] k_v = knot_insertion_kv(self._knots_u, t, span, count)
-        cdef int s_u = find_multiplicity(t, self._knots_u,1e-12)
 
         self.alloc_control_points(new_count_u, new_count_v)
 
@@ -2703,13 +2715,19 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int new_count_v = self._size[1] + count
         cdef double[:,:,:] cpts=self.control_points_view.copy()
 
+        cdef int s_v = find_multiplicity(t, self._knots_v,1e-12)
+        if count == 0:
+            return
+        if count < 0 or count + s_v > self._degree[1]:
+            raise ValueError("The multiplicity of a knot cannot exceed the degree")
+        if not self._knots_v[self._degree[1]] < t < self._knots_v[self._size[1]]:
+            raise ValueError("A knot can be inserted only inside the domain")
         cdef int span = find_span_inline(self._size[1]-1,
             self._degree[1], t, self._knots_v, 0
         )
 
         # Compute new knot vector
         cdef double[:] k_v = knot_insertion_kv(self._knots_v, t, span, count)
-        cdef int s_v = find_multiplicity(t, self._knots_v,1e-12)
 
         self.alloc_control_points(new_count_u, new_count_v)
 
-- 
2.43.0


From 2ee8130f0adc5e78ea1ea98be9e113f9a80397c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 047/200] fix: decomposing a curve without interior knots
 returns a copy, not the curve itself

---
 mmcore/geom/nurbs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 8fb2881..e7124f3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2324,7 +2324,8 @@ cpdef list split_curve_multiple(NURBSCurve crv, double[:] params):
 def decompose_curve(NURBSCurve crv):
     cdef double[:] params=np.unique(crv._knots)
     params=params[1:][:params.shape[0]-2]
-    cdef list curves=split_curve_multiple(crv,params)
+    # A curve in one piece is copied too: the pieces share nothing with the curve
+    cdef list curves=split_curve_multiple(crv.ccopy(),params)
     return curves
 
 cdef class NURBSSurface(ParametricSurface):
-- 
2.43.0


From d1c5ac6010c5cd3e33b2e5d27805e1f526bd73c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 048/200] fix: surfaces can be pickled and deep-copied, and
 copy.copy shares nothing with the original

---
 mmcore/geom/nurbs.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e7124f3..a977ca4 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2394,6 +2394,9 @@ cdef class NURBSSurface(ParametricSurface):
         else:
             self._knots_v=np.array(knots_v)
         self._update_interval()
+
+    def __reduce__(self):
+        return (self.__class__, (np.array(self.control_points_view), self.degree, np.array(self._knots_u), np.array(self._knots_v)))
     @property
     def knots_u(self):
         return np.array(self._knots_u)
-- 
2.43.0


From f382f5a54a467f3fa7f682fa3f464d91ca653efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 049/200] fix: skip lists do not share one generator of
 heights, so threads can use theirs at the same time

---
 mmcore/numeric/algorithms/sweep_line/skiplist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/skiplist.py b/mmcore/numeric/algorithms/sweep_line/skiplist.py
index 8511082..0b2a922 100644
--- a/mmcore/numeric/algorithms/sweep_line/skiplist.py
+++ b/mmcore/numeric/algorithms/sweep_line/skiplist.py
@@ -43,9 +43,9 @@ class SkipNode():
             prev[level].succ[level] = self.succ[level].prev[level] = self
 
 class SkipList():
-    distribution = geometric(0.5)
     def __init__(self, **kwargs):
-
+        # a generator cannot be advanced by two threads at once, so every list has its own
+        self.distribution = geometric(0.5)
         self._tail = SkipNode(NIL(), None, [], [])
         self._head = SkipNode(None, 'HEAD', [self.tail], [])
         self._tail.prev.extend([self.head])
-- 
2.43.0


From 87890a80b319f6282c0797367a544e51fef51fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 050/200] fix: removing a key from a skip list keeps the
 smaller keys and the links back

---
 .../numeric/algorithms/sweep_line/skiplist.py | 21 +++++++++++--------
 .../numeric/algorithms/sweep_line/sortseq.py  | 13 +-----------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/skiplist.py b/mmcore/numeric/algorithms/sweep_line/skiplist.py
index 0b2a922..00e31e8 100644
--- a/mmcore/numeric/algorithms/sweep_line/skiplist.py
+++ b/mmcore/numeric/algorithms/sweep_line/skiplist.py
@@ -119,22 +119,25 @@ class SkipList():
     def _remove(self, key):
         # Removes node with given data. No operation if data is not in list.
 
-        node, update = self._scan(key)
+        node, _ = self._scan(key)
         if not node:
             return
+        self._unlink(node)
+
+    def _unlink(self, node):
+        # Takes the node out of every level it is in.
 
         for level in range(len(node.succ)):
-            update[level].succ[level] = node.succ[level]
+            node.prev[level].succ[level] = node.succ[level]
+            node.succ[level].prev[level] = node.prev[level]
 
-        # trim not used head pointers
-        for i in reversed(range(len(self.head.succ))):
-            if self.head.succ[i] != self.tail:
+        # trim not used head and tail pointers
+        for i in reversed(range(1, len(self.head.succ))):
+            if self.head.succ[i] is not self.tail:
                 break
-            elif i > 0:  # at least one pointer
-                head_node = self.head.succ.pop()
-                del head_node
+            self.head.succ.pop()
+            self.tail.prev.pop()
 
-        del node
         self._size -= 1
 
     def __len__(self):
diff --git a/mmcore/numeric/algorithms/sweep_line/sortseq.py b/mmcore/numeric/algorithms/sweep_line/sortseq.py
index 29ba1a7..e1654bb 100644
--- a/mmcore/numeric/algorithms/sweep_line/sortseq.py
+++ b/mmcore/numeric/algorithms/sweep_line/sortseq.py
@@ -125,18 +125,7 @@ class SortSeq(SkipList):
         Removes the <node> from SortSeq containing it.
         Precondition: <node> is a node in SortSeq.
         """
-        for level in range(len(node.succ)):
-            node.prev[level].succ[level] = node.succ[level]
-            node.succ[level].prev[level] = node.prev[level]
-        # trim not used head pointers
-        for i in reversed(range(len(self.head.succ))):
-            if self.head.succ[i] != self.tail:
-                break
-            elif i > 0:  # at least one pointer
-                head_node = self.head.succ.pop()
-                del head_node
-        del node
-        self._size -= 1
+        self._unlink(node)
 
     def reverseItems(self, a, b):
         """
-- 
2.43.0


From 9b35a26904299ba517043bf38cdc034b17f7b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 051/200] fix: SortSeq.locate finds the node of a key that is
 present, and None behind the last one

---
 mmcore/numeric/algorithms/sweep_line/sortseq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/sortseq.py b/mmcore/numeric/algorithms/sweep_line/sortseq.py
index e1654bb..e3ba412 100644
--- a/mmcore/numeric/algorithms/sweep_line/sortseq.py
+++ b/mmcore/numeric/algorithms/sweep_line/sortseq.py
@@ -58,8 +58,10 @@ class SortSeq(SkipList):
         Returns the node (key',inf) in SortSeq such that key' is minimal
         with key' >= key. None if no such node exists
         """
-        _, update = self._scan(key)
-        return update[0].succ[0]
+        node, update = self._scan(key)
+        if node is None:
+            node = update[0].succ[0]
+        return None if node is self._tail else node
  
     @staticmethod
     def key(node):
-- 
2.43.0


From 18425377dc3b94090a0a43e1d51d6e7a2c2a4491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:28 +0000
Subject: [PATCH 052/200] fix: the sweep line reports the intersection where a
 segment starts on another one

---
 mmcore/numeric/algorithms/sweep_line/sweep_intersector.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
index 7d54212..7fdf763 100644
--- a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
+++ b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
@@ -132,6 +132,8 @@ class SweepIntersector():
                         self.Y_structure.delItem(sit)
                         sit = it;
                     else:   # passing segment
+                        # the only place that reports: it also sees segments that start on <s>
+                        self.isectDict[self.original[s]].append((v.x,v.y))
                         self.Y_structure.changeInf(sit,None)
                         sit = self.Y_structure.pred(sit)
                         if (sr is not s) and (sr.p2 is self.pSweep):
@@ -287,12 +289,6 @@ class SweepIntersector():
                 if q:
                     self.Y_structure.changeInf(sit0, self.X_structure.insert(q,sit0))
 
-                    # insert intersection point into result dictionary
-                    if s0.p1 != q and s0.p2 != q:
-                        self.isectDict[self.original[s0]].append((q.x,q.y))
-                    if s1.p1 != q and s1.p2 != q:
-                        self.isectDict[self.original[s1]].append((q.x,q.y))
-
     @staticmethod
     def inorderExtend(segment, v1, v2, points):
         # Extend a segment <segment> by <points> that are on
-- 
2.43.0


From 1d6c3e80dfbf07ef11b8e026feed8d77efa0bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:28 +0000
Subject: [PATCH 053/200] fix: every sweep has its own sweep point, so two
 sweeps can run at the same time

---
 mmcore/numeric/algorithms/sweep_line/segment.py  | 13 ++++++++-----
 .../algorithms/sweep_line/sweep_intersector.py   | 16 ++++++++--------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/segment.py b/mmcore/numeric/algorithms/sweep_line/segment.py
index ad9f639..8fcbb71 100644
--- a/mmcore/numeric/algorithms/sweep_line/segment.py
+++ b/mmcore/numeric/algorithms/sweep_line/segment.py
@@ -15,7 +15,9 @@ from .point import Point
 class Segment:
     pSweep = None
     ID = 0
-    def __init__(self, p1, p2):
+    def __init__(self, p1, p2, sweep=None):
+        # the sweep this segment belongs to; its <pSweep> orders the segments
+        self.sweep = Segment if sweep is None else sweep
         self.p1 = p1
         self.p2 = p2
         self.dx = self.p2.x - self.p1.x
@@ -54,10 +56,11 @@ class Segment:
         if self is other:
             return 0
         s = 0
-        if Segment.pSweep is self.p1:
-            s = Segment.orientation(other,Segment.pSweep)
-        elif Segment.pSweep is other.p1:
-            s = -Segment.orientation(self,Segment.pSweep)
+        pSweep = self.sweep.pSweep
+        if pSweep is self.p1:
+            s = Segment.orientation(other,pSweep)
+        elif pSweep is other.p1:
+            s = -Segment.orientation(self,pSweep)
         else:
             raise Exception('Compare error in Segment')
 
diff --git a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
index 7fdf763..d88111f 100644
--- a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
+++ b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
@@ -61,7 +61,7 @@ class SweepIntersector():
         while not self.X_structure.empty():
             # move <pSweep> to next event point.
             event = self.X_structure.min()
-            Segment.pSweep = self.pSweep = self.X_structure.key(event)
+            self.pSweep = self.X_structure.key(event)
             v = self.pSweep
 
             # self.G.append(self.pSweep);
@@ -97,7 +97,7 @@ class SweepIntersector():
                 # <pSweep>. However, <pSweep> could come to lie on a segment 
                 # inserted before. To check this we look up the zero length 
                 # segment (pSweep,pSweep).
-                sit = self.Y_structure.lookup(Segment(self.pSweep,self.pSweep))
+                sit = self.Y_structure.lookup(Segment(self.pSweep,self.pSweep,self))
 
             sitSucc  = None
             sitPred  = None
@@ -177,7 +177,7 @@ class SweepIntersector():
                     q = self.nextSeg.end()
                     self.assoc[seg0] = self.nextSeg
                     if p < q:
-                        newSeg = Segment(p,q) 
+                        newSeg = Segment(p,q,self)
                         self.assoc[newSeg] = newSeg
                         self.original[newSeg] = self.original[self.nextSeg]
                         self.segQueue.insert(p,newSeg)
@@ -238,7 +238,7 @@ class SweepIntersector():
             # endpoints <p1> and <p2> with p1 == p2 are identical.
             p1 = SortSeq.key(it1)
             p2 = SortSeq.key(it2)
-            s = Segment(p1,p2) if p1 < p2 else Segment(p2,p1)
+            s = Segment(p1,p2,self) if p1 < p2 else Segment(p2,p1,self)
 
             # use maps to associate with every segment its original
             self.original[s] = (seg,segIndex)
@@ -250,18 +250,18 @@ class SweepIntersector():
 
         # insert a lower and an upper sentinel segment to avoid special
         # cases when traversing the Y-structure
-        lowerSentinel = Segment( Point((-infinity,-infinity)), Point((infinity,-infinity)))
-        upperSentinel = Segment( Point((-infinity, infinity)), Point((infinity, infinity)))
+        lowerSentinel = Segment( Point((-infinity,-infinity)), Point((infinity,-infinity)), self)
+        upperSentinel = Segment( Point((-infinity, infinity)), Point((infinity, infinity)), self)
 
         # the sweep begins at the lower left corner
-        Segment.pSweep = self.pSweep = lowerSentinel.start()
+        self.pSweep = lowerSentinel.start()
         self.Y_structure.insert(upperSentinel,None);
         self.Y_structure.insert(lowerSentinel,None);
 
         # insert a stopper into <segQueue> and initialize |next_seg| with
         # the first segment in the queue.
         pStop = Point((infinity,infinity))
-        sStop = Segment(pStop,pStop)
+        sStop = Segment(pStop,pStop,self)
         self.segQueue.insert(pStop,sStop)
         self.nextSeg = self.segQueue.inf(self.segQueue.min())
         self.N = sStop.id
-- 
2.43.0


From 1b2c607b3fcc06f4aa649e37df82f372b9d84ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 054/200] fix: STEP files keep the weights of rational curves
 and surfaces

---
 mmcore/compat/step/step_writer.py | 52 ++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 5a42245..f9fb398 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -264,11 +264,23 @@ class StepWriter:
 
     def add_b_spline_curve_with_knots(self, curve:NURBSCurve, name:str=''):
         unique_knots,mult= get_knot_multiplicities(curve.knots.tolist())
+        points=[self.add_cartesian_point(pt) for pt in curve.control_points]
+        weights=curve.weights.tolist()
+        if any(w!=1. for w in weights):
+            return self.add_complex_entity([
+                p21.entity('BOUNDED_CURVE', ()),
+                p21.entity('B_SPLINE_CURVE', (int(curve.degree), points, UNSPECIFIED, FALSE, FALSE)),
+                p21.entity('B_SPLINE_CURVE_WITH_KNOTS', (mult, unique_knots, UNSPECIFIED)),
+                p21.entity('CURVE', ()),
+                p21.entity('GEOMETRIC_REPRESENTATION_ITEM', ()),
+                p21.entity('RATIONAL_B_SPLINE_CURVE', (weights,)),
+                p21.entity('REPRESENTATION_ITEM', (name,)),
+            ])
         return self.add_entity(p21.entity('B_SPLINE_CURVE_WITH_KNOTS',
                                           (
                                               name,
                                               int(curve.degree),
-                                              [self.add_cartesian_point(pt) for pt in curve.control_points],
+                                              points,
                                               UNSPECIFIED,
                                               FALSE,
                                               FALSE,
@@ -462,10 +474,34 @@ class StepWriter:
         self.step_file.data[0].instances.update({entity_id:p21.complex_entity_instance(entity_id, entities)})
         return entity_id
 
-    def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
-
+    def add_b_spline_surface_with_knots(self, surf:NURBSSurface, name:str=''):
         unique_knots_u, mult_u = get_knot_multiplicities(surf.knots_u.tolist())
         unique_knots_v, mult_v = get_knot_multiplicities(surf.knots_v.tolist())
+        degree_u,degree_v=int(surf.degree[0]),int(surf.degree[1])
+        points=[[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points]
+        weights=[[pt[3] for pt in pts] for pts in surf.control_points_w]
+        if any(w!=1. for row in weights for w in row):
+            return self.add_complex_entity([
+                p21.entity('BOUNDED_SURFACE', ()),
+                p21.entity('B_SPLINE_SURFACE', (degree_u,degree_v, points, UNSPECIFIED,FALSE,FALSE,FALSE)),
+                p21.entity('B_SPLINE_SURFACE_WITH_KNOTS', (mult_u,mult_v,unique_knots_u,unique_knots_v,UNSPECIFIED)),
+                p21.entity('GEOMETRIC_REPRESENTATION_ITEM', ()),
+                p21.entity('RATIONAL_B_SPLINE_SURFACE', (weights,)),
+                p21.entity('REPRESENTATION_ITEM', (name,)),
+                p21.entity('SURFACE', ()),
+            ])
+        return self.add_entity(
+            p21.entity('B_SPLINE_SURFACE_WITH_KNOTS',(
+                name,
+                degree_u,degree_v,
+                points,
+                UNSPECIFIED,FALSE,FALSE,FALSE, mult_u,mult_v,unique_knots_u,unique_knots_v,UNSPECIFIED
+                )
+            )
+        )
+
+    def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
+
         boundaries=extract_surface_boundaries(surf)
         shell= self.add_shell_based_surface_model(
                 (self.add_open_shell(
@@ -481,15 +517,7 @@ class StepWriter:
                                 )
                             ) for boundary in boundaries])),
                         ),
-                        self.add_entity(
-                            p21.entity('B_SPLINE_SURFACE_WITH_KNOTS',(
-                                name,
-                                int(surf.degree[0]),int(surf.degree[1]),
-                                [[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points],
-                                UNSPECIFIED,FALSE,FALSE,FALSE, mult_u,mult_v,unique_knots_u,unique_knots_v,UNSPECIFIED
-                                )
-                            )
-                        ),
+                        self.add_b_spline_surface_with_knots(surf,name),
                         TRUE,
                         name
                     ),
-- 
2.43.0


From 90d82cddd6177de038c2635e7737664b72557df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 055/200] fix: threads that add to one STEP file never get the
 same reference

---
 mmcore/compat/step/step_writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index f9fb398..cbc0d92 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -258,9 +258,10 @@ class StepWriter:
         return self.step_file.write(fl)
 
     def next_ref(self):
-        self._last_ref=        self._counter.__next__()
-        self.last_ref=p21.Reference(f'#{self._last_ref}')
-        return self.last_ref
+        number=self._counter.__next__()
+        ref=p21.Reference(f'#{number}')
+        self._last_ref,self.last_ref=number,ref
+        return ref
 
     def add_b_spline_curve_with_knots(self, curve:NURBSCurve, name:str=''):
         unique_knots,mult= get_knot_multiplicities(curve.knots.tolist())
-- 
2.43.0


From e79fc0fa8383408ba978849d4b32881d5c72381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:14 +0000
Subject: [PATCH 056/200] fix: building a BVH leaves the caller's list in its
 order

---
 mmcore/geom/bvh/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ba4fcb0..ef92fe9 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -366,7 +366,8 @@ def split_objects(objects):
     axis = np.argmax(max_centroid - min_centroid)
 
     # Sort objects along chosen axis by centroids
-    objects.sort(
+    objects = sorted(
+        objects,
         key=lambda obj: (
             obj.bounding_box.min_point[axis] + obj.bounding_box.max_point[axis]
         )
-- 
2.43.0


From 182ef383af478c253fd9545fc0a69d78d8cdeca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:14 +0000
Subject: [PATCH 057/200] fix: bounding boxes that were split or expanded
 report their own corners, center and size

---
 mmcore/geom/bvh/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ef92fe9..2a4eb69 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -25,6 +25,9 @@ class BoundingBox:
     def __init__(self, min_point, max_point):
         self.min_point = np.array(min_point, dtype=float)  # (x_min, y_min, z_min)
         self.max_point = np.array(max_point, dtype=float)  # (x_max, y_max, z_max)
+        self._update()
+
+    def _update(self):
         self.center = (self.min_point + self.max_point) * 0.5
         self.dims = self.max_point - self.min_point
         self._arr=np.array([self.min_point, self.max_point], dtype=float)
@@ -32,7 +35,9 @@ class BoundingBox:
     def split(self, axis=0, parameter=0.5):
         left = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
         right = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right.min_point[axis] = left.max_point[axis] = (self.min_point[axis] + self.max_point[axis])*parameter
+        right.min_point[axis] = left.max_point[axis] = self.min_point[axis] + (self.max_point[axis] - self.min_point[axis])*parameter
+        left._update()
+        right._update()
         return left, right
 
     def get_corners(self):
@@ -58,7 +63,7 @@ class BoundingBox:
         return list(reduce(lambda x,y: x+y, (item.split(axis1, parameter1) for item in self.split4(axis2, axis3, parameter2, parameter3))))
 
     def evaluate(self, uvh):
-        return (self.min_point + self.max_point)*uvh
+        return self.min_point + (self.max_point - self.min_point)*uvh
 
     def centroid(self):
         return (self.min_point + self.max_point)*0.5
@@ -117,6 +122,7 @@ class BoundingBox:
         )
         self.min_point[:]=new_min
         self.max_point[:]=new_max
+        self._update()
 
     def contains_point(self, point):
         return bool(np.all(self.min_point<=point)and np.all(point<=self.max_point))
-- 
2.43.0


From cbb4a4c3f5c866a8b8ee9c805c293f3e41720ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:14 +0000
Subject: [PATCH 058/200] fix: a segment finds the axis-aligned triangles of a
 BVH, whose boxes clip it to a point

---
 mmcore/geom/bvh/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 2a4eb69..ef5ad55 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -805,9 +805,9 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
                     c[ixs] = current_bvh.object.objects[ixs].c
 
                 point, flag = intersect_triangles_segment_one(a[:current_size], b[:current_size],
-                                                         c[:current_size], current_segment[0], current_segment[1], out_point)
+                                                         c[:current_size], segment[0], segment[1], out_point)
             else:
-                flag=intersect_triangle_segment(current_bvh.object.a,current_bvh.object.b,current_bvh.object.c,current_segment[0],current_segment[1],out_point)
+                flag=intersect_triangle_segment(current_bvh.object.a,current_bvh.object.b,current_bvh.object.c,segment[0],segment[1],out_point)
             if flag!=0:
                 return True,out_point,current_bvh.object
 
-- 
2.43.0


From f270b0baa7a014af6f7e5eb2786e2d115616bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 059/200] fix: a ray finds the triangles of a flat mesh and
 orders them by distance

---
 mmcore/geom/bvh/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ef5ad55..9055d67 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -897,7 +897,9 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     if segment is None:
         return maybe
     segment=segment_out
-    direction=segment[1]-segment[0]
+    # The clipped ray is a point where the mesh, or the ray, is flat: it has to go through the triangles there.
+    direction=ray.direction/MAX_FLOAT64
+    segment[1]+=direction*(1.+scalar_norm(triangles_bvh.bounding_box.dims))
 
     for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
 
-- 
2.43.0


From 9f627b767a19307ffcd40b5230fccaec84aa1794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 060/200] fix: bvh_ray_intersection gives segment_aabb_clip its
 output array

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 9055d67..7eb9315 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -851,7 +851,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr)
+    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
     if segm is None:
         return []
     else:
-- 
2.43.0


From 5d68dcb7d75870dd8dc9cbe9fd290585bd6acbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 061/200] fix: a segment clipped to a node of a BVH does not
 lose the children by a rounding error

---
 mmcore/geom/bvh/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 7eb9315..0ef3a14 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -715,11 +715,11 @@ def bvh_segment_intersection_recursive(bvh:BVHNode,segment:Segment):
     def inner(bvh,segment, ints):
         if not bvh.bounding_box.intersect(segment.bounding_box):
             return
-        segment=segment.clip(bvh.bounding_box)
-        if segment is None :
+        clipped=segment.clip(bvh.bounding_box)
+        if clipped is None :
             return
         if bvh.object is not None:
-            ints.append((bvh,segment))
+            ints.append((bvh,clipped))
             return
         else:
             inner(bvh.left, segment, ints)
@@ -813,8 +813,8 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
 
         else:
 
-            stack.append((current_bvh.left, current_segment))
-            stack.append((current_bvh.right, current_segment))
+            stack.append((current_bvh.left, segment))
+            stack.append((current_bvh.right, segment))
 
 
     return False,None,None
-- 
2.43.0


From 414a4a70546b00fb641a584b91858709a08a5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 062/200] fix: a ray does not lose a flat mesh to a rounding
 error of the clipped start

---
 mmcore/geom/bvh/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 0ef3a14..fd249e2 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -899,6 +899,7 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     segment=segment_out
     # The clipped ray is a point where the mesh, or the ray, is flat: it has to go through the triangles there.
     direction=ray.direction/MAX_FLOAT64
+    segment[0]=ray.start
     segment[1]+=direction*(1.+scalar_norm(triangles_bvh.bounding_box.dims))
 
     for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
-- 
2.43.0


From d2cf4d76bffbece0839cadfb1fc830d775c6c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 063/200] fix: newton_method2 solves systems whose elimination
 swaps rows

---
 mmcore/numeric/newton/cnewton.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/newton/cnewton.pyx b/mmcore/numeric/newton/cnewton.pyx
index 5f53044..c5af721 100644
--- a/mmcore/numeric/newton/cnewton.pyx
+++ b/mmcore/numeric/newton/cnewton.pyx
@@ -318,7 +318,7 @@ cdef inline int lu_solve(double[:, ::1] A,
     """
     Solve A x = b after A has been LU-factorized in place.
     pivot_indices is the list of row permutations done during factorization.
-    b is modified in place to become the solution x.
+    b is modified in place; component i of the solution x is left in b[pivot_indices[i]].
     Return 0 if successful, 1 if unsuccessful (e.g., singular).
     """
     cdef:
@@ -354,12 +354,18 @@ cdef inline int solve_linear_system(double[:, ::1] A,
     Return 0 if successful, 1 if singular or error.
     """
     cdef int[::1] pivot_indices = np.zeros(n, dtype=np.intc)  # for row pivots
+    cdef double[::1] permuted = np.zeros(n, dtype=np.float64)
+    cdef int i
     cdef int info = lu_factorize(A, n, pivot_indices)
     if info != 0:
         return 1  # singular
     info = lu_solve(A, n, pivot_indices, b)
     if info != 0:
         return 1  # singular
+    for i in range(n):
+        permuted[i] = b[pivot_indices[i]]
+    for i in range(n):
+        b[i] = permuted[i]
     return 0
 
 
@@ -407,7 +413,7 @@ cdef inline int invert_matrix(double[:, ::1] A,
 
         # Write col to A_inv[:, i]
         for j in range(n):
-            A_inv[j, i] = col[j]
+            A_inv[j, i] = col[pivot_indices[j]]
 
     return 0
 
-- 
2.43.0


From 490a09773504f28ee6a8bc78bde9537b845dd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 064/200] fix: find_all_minima hands the Newton solver an array

---
 mmcore/numeric/divide_and_conquer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 4e7764f..badd846 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -462,7 +462,7 @@ def find_all_minima(f, x_range, y_range, grid_density=11, tol=1e-6):
     for x in x_vals:
         for y in y_vals:
             # Perform local minimization using scipy's minimize
-            result, *other = newtons_method(lambda coords: f(coords[0], coords[1]), [x, y], tol=tol2, max_iter=8,
+            result, *other = newtons_method(lambda coords: f(coords[0], coords[1]), np.array([x, y]), tol=tol2, max_iter=8,
                                             no_warn=True, full_return=True)
 
             if result is not None:
-- 
2.43.0


From f06ae6049b603a2deb8d9fb8ae4bb5daa5eab773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 065/200] fix: gradient works on a copy of the point, gradient
 and hessian take integer points

---
 mmcore/numeric/fdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index ed20d19..627d8a9 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -430,7 +430,7 @@ def hessian(f, point, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    point = np.asarray(point)
+    point = np.asarray(point, dtype=float)
     n = point.size
     H = np.zeros((n, n))
     fp = f(point)
@@ -472,7 +472,7 @@ def gradient(f, point, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    point = np.asarray(point)
+    point = np.array(point, dtype=float)
     grad = np.zeros_like(point)
     for i in range(point.size):
 
-- 
2.43.0


From 1043968f67d2f14f7e149c6ade5da953904b7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 066/200] fix: gradient_multi and hessian_multi take integer
 points

---
 mmcore/numeric/fdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index 627d8a9..c18ae89 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -560,7 +560,7 @@ def hessian_multi(f, points, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     n = points.shape[-1]
     H = np.zeros((points.shape[0], n, n))
     fp = f(points.T)
@@ -615,7 +615,7 @@ def gradient_multi(f, points, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     grad = np.zeros(points.shape)
 
     for i in range(points.shape[-1]):
-- 
2.43.0


From fdd24cb4b9702b8c335812abc6d792690354e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 067/200] fix: intersection_curve_point returns what it says
 with return_grads and no_err

---
 mmcore/numeric/algorithms/implicit_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index a86880d..7fb3757 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -141,7 +141,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
         i += 1
 
     if return_grads:
-        return (success, (qk_next, f1, f2, g1, g2)) if no_err else qk_next, f1, f2, g1, g2
+        return (success, (qk_next, f1, f2, g1, g2)) if no_err else (qk_next, f1, f2, g1, g2)
 
     return (success, qk_next) if no_err else qk_next
 
-- 
2.43.0


From 0eba6bef4ac71a4a98338bb6647bdf2d398eeeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 068/200] fix: surface_plane takes the normal at the point it
 found

---
 mmcore/numeric/algorithms/implicit_point.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 7fb3757..f1cdb8f 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -215,7 +215,9 @@ def surface_point(fun, p0, grad=None, tol=1e-8):
 
 
 def surface_plane(fun, p_start, grad, tol=1e-5):
-    p, nv = surface_point(fun, p_start, grad, tol)
+    grad = _resolve_grad(fun, grad)
+    p = surface_point(fun, p_start, grad, tol)
+    nv = grad(p)
     nv = _normalize3d(nv)
 
     if abs(nv[0]) > 0.5 or abs(nv[1]) > 0.5:
-- 
2.43.0


From 0c4cce85d9ceeea5e704e7a3ad799d1b3b844df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 069/200] fix: raster_algorithm_2d: the default gradient
 differentiates along x

---
 mmcore/numeric/marching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index e2b1be9..e9863a2 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -156,7 +156,7 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     """Raster algorithm to find points close to the implicit curve f(x, y) = 0."""
     if grad is None:
         def grad(xy):
-            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0], - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
+            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0] - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
                     f((xy[0], xy[1] + DEFAULT_H)) - f((xy[0], xy[1] - DEFAULT_H))) / (2 * DEFAULT_H)
 
     x_vals = np.linspace(x_min, x_max, nx)
-- 
2.43.0


From c4b4ec8b651de1816b5cf3170755a4832d8910de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 070/200] fix: Prime evaluates many parameters at once

---
 mmcore/numeric/prime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/prime.py b/mmcore/numeric/prime.py
index 73ecc1a..c03956a 100644
--- a/mmcore/numeric/prime.py
+++ b/mmcore/numeric/prime.py
@@ -46,7 +46,7 @@ class Prime:
         if translate is not None:
             self._translate[:] = translate
 
-        self.evaluate_multi = np.vectorize(self._fun, excluded=[1, 2], signature='()->(i)')
+        self.evaluate_multi = np.vectorize(self.evaluate, excluded=[1, 2, 't0', 'tol'], signature='()->(i)')
         return self
 
     @property
-- 
2.43.0


From e56428d6cba04d92a810a01e304f70b3400c326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 071/200] fix: evaluate_parameter_from_length solves for the
 signed length

---
 mmcore/numeric/numeric.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 25ac739..3d45aeb 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -127,21 +127,20 @@ def evaluate_parameter_from_length(
     """
 
     def func_to_bisect(t):
-        return evaluate_length(first_der, t0, t, **kwargs)[0] - l
+        return evaluate_length(first_der, t0, t, tol=tol, **kwargs)[0] - l
 
     def func(t):
-        return abs(evaluate_length(first_der, t0, t, **kwargs)[0] - l)
+        return abs(func_to_bisect(t))
 
     #return newton(
     #    func, t0, tol=tol, maxiter=maxiter, x1=t1_limit, fprime=fprime, fprime2=fprime2
     #)
     res = iterative_divide_and_conquer_min(func, (t0, t1_limit), np.sqrt(tol))
     if fprime is None:
-        fprime= fdm(func)
-    if fprime2 is None:
-        fprime2 = fdm(fprime)
+        # the length grows with t at the speed of the curve; the distance to l has a kink where it vanishes
+        fprime = lambda t: scalar_norm(first_der(t))
     return newton(
-        func, res[0], tol=tol, maxiter=maxiter, x1=t1_limit, fprime=fprime, fprime2=fprime2
+        func_to_bisect, res[0], tol=tol, maxiter=maxiter, x1=t1_limit, fprime=fprime, fprime2=fprime2
     )
 
 
-- 
2.43.0


From 01ed62f6e2db109da34cab02e3c8dc6728e21a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 072/200] fix: intersection_curve_point does not take a step it
 could not compute for convergence

---
 mmcore/numeric/algorithms/implicit_point.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index f1cdb8f..f990f6c 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -102,16 +102,16 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     ])
 
     g = np.array([f1, f2])
-    success = solve2x2(J, -g, alpha_beta)
+    solvable = solve2x2(J, -g, alpha_beta)
     delta = alpha_beta[0] * grad1(qk) + alpha_beta[1] * grad2(qk)
     qk_next = delta + qk
     d = scalar_norm(qk_next - qk)
     i = 0
 
     success = True
-    while d > tol:
+    while d > tol or not (solvable or max(abs(f1), abs(f2)) <= tol):
 
-        if i > max_iter:
+        if i > max_iter or not solvable:
             if not no_err:
                 raise ValueError(f'Maximum iterations exceeded, No convergence {d}')
             else:
@@ -129,7 +129,9 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         g[:] = f1, f2
 
-        _success = solve2x2(J, -g, alpha_beta)
+        # parallel gradients give no step
+        alpha_beta[:] = 0.
+        solvable = solve2x2(J, -g, alpha_beta)
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
-- 
2.43.0


From f2c8a80570985f4235743eadf4b6c5fd9371a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 073/200] fix: bounds() of the primitives hands out a copy

---
 mmcore/geom/primitives.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index ada9699..af2896c 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -161,7 +161,7 @@ cdef class Implicit3D:
         return result
 
     def bounds(self):
-        return self._bounds
+        return np.array(self._bounds)
 
 cdef class Sphere(Implicit3D):
 
@@ -206,7 +206,7 @@ cdef class Sphere(Implicit3D):
 
 
     def bounds(self):
-        return self._bounds
+        return np.array(self._bounds)
 
 
 
@@ -360,7 +360,7 @@ cdef class ImplicitCylinder(Implicit3D):
         return orig
 
     def bounds(self):
-        return self._bounds
+        return np.array(self._bounds)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From cad7705533aee9c179fefc2a3ce1247a3c958d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 074/200] fix: a cylinder can point along -x

---
 mmcore/geom/primitives.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index af2896c..243d666 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -405,7 +405,7 @@ cdef class Cylinder(ParametricSurface):
         self._interval[1][1] =  self.D_norm
 
         # Choose an arbitrary vector W that is not collinear with D_hat
-        if np.allclose(self.D_hat, [1, 0, 0]):
+        if np.allclose(np.abs(self.D_hat), [1, 0, 0]):
             self.W = np.array([0., 1., 0.])
         else:
             self.W = np.array([1., 0., 0.])
-- 
2.43.0


From b43125c4fec311ced6df7adc1fa96deaae60544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 075/200] fix: a Cylinder keeps its own points, and its
 implicit form follows its radius and ends

---
 mmcore/geom/primitives.pyx | 49 +++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index 243d666..4470276 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -379,10 +379,10 @@ cdef class ImplicitCylinder(Implicit3D):
 
 cdef class Cylinder(ParametricSurface):
     cdef ImplicitCylinder _implicit_prim
-    cdef public  double[:] start
-    cdef public  double[:] end
+    cdef double[:] _start
+    cdef double[:] _end
     cdef public  double[:] direction
-    cdef public  double radius
+    cdef double _radius
     cdef public double[:] u
     cdef public double[:] v
     cdef double[:] W
@@ -393,13 +393,40 @@ cdef class Cylinder(ParametricSurface):
     def __init__(self, start, end, radius):
         self._implicit_prim=ImplicitCylinder(start,end,radius)
         self._interval=np.zeros((2,2))
-        self.start = start
-        self.end = end
-        self.radius = radius
         self._interval[0][1]=pi*2
+        self._start = np.array(start, dtype=float)
+        self._end = np.array(end, dtype=float)
+        self._radius = radius
+        self._calculate_frame()
+
+    @property
+    def start(self):
+        return np.array(self._start)
+    @start.setter
+    def start(self, double[:] val):
+        self._start = np.array(val)
+        self._implicit_prim.start = self._start
+        self._calculate_frame()
+    @property
+    def end(self):
+        return np.array(self._end)
+    @end.setter
+    def end(self, double[:] val):
+        self._end = np.array(val)
+        self._implicit_prim.end = self._end
+        self._calculate_frame()
+    @property
+    def radius(self):
+        return self._radius
+    @radius.setter
+    def radius(self, double val):
+        self._radius = val
+        self._implicit_prim.radius = val
+
+    def _calculate_frame(self):
         self.direction =np.zeros(3)
         # Calculate direction vector D and its normalized form D_hat
-        sub3d(self.end ,self.start,self.direction)
+        sub3d(self._end ,self._start,self.direction)
         self.D_norm = norm3d(self.direction)
         self.D_hat = np.asarray(self.direction)/ self.D_norm
         self._interval[1][1] =  self.D_norm
@@ -417,7 +444,7 @@ cdef class Cylinder(ParametricSurface):
         # Calculate V
         self.v = scalar_cross(self.D_hat, self.U_hat)
     def interval(self):
-        return np.asarray(self._interval)
+        return np.array(self._interval)
 
 
     @cython.boundscheck(False)
@@ -440,9 +467,9 @@ cdef class Cylinder(ParametricSurface):
             cdef double cos_u=cos(u)
             cdef double sin_u = sin(u)
 
-            result[0] = self.start[0] + v * self.D_hat[0] + self.radius * (cos_u * self.U_hat[0] + sin_u * self.v[0])
-            result[1] = self.start[1] + v * self.D_hat[1] + self.radius * (cos_u* self.U_hat[1] + sin_u * self.v[1])
-            result[2] = self.start[2] + v * self.D_hat[2] + self.radius * (cos_u * self.U_hat[2] + sin_u  * self.v[2])
+            result[0] = self._start[0] + v * self.D_hat[0] + self._radius * (cos_u * self.U_hat[0] + sin_u * self.v[0])
+            result[1] = self._start[1] + v * self.D_hat[1] + self._radius * (cos_u* self.U_hat[1] + sin_u * self.v[1])
+            result[2] = self._start[2] + v * self.D_hat[2] + self._radius * (cos_u * self.U_hat[2] + sin_u  * self.v[2])
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From 3780799bb1e900573701e751241d5695159146c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 076/200] fix: two plane shapes can be intersected

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 7010d17..ddcbd81 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -396,7 +396,7 @@ class Intersection2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds(max(axmin, bxmin), max(aymin, bymin)), (
+        self._bounds = (max(axmin, bxmin), max(aymin, bymin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
         )
-- 
2.43.0


From 9930931bc4e9ae1b2a0d5650faa4791400073e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 077/200] fix: a - b is a without b

---
 mmcore/geom/implicit/implicit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index ddcbd81..47644fa 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -438,7 +438,8 @@ class Sub2D(Implicit2D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        # op_subtraction takes its first argument away from the second
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
@@ -451,7 +452,8 @@ class Sub3D(Implicit3D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        # op_subtraction takes its first argument away from the second
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
-- 
2.43.0


From 25dc0d48a3de8c79fcaaa10b2901f5f4d3a231df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 078/200] fix: unions and intersections have the bounds of
 their members as they are

---
 mmcore/geom/implicit/implicit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 47644fa..4ced877 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -350,6 +350,7 @@ class Union2D(Implicit2D):
         )
 
     def bounds(self):
+        self.solve_bounds()
         return self._bounds
 
 
@@ -376,6 +377,7 @@ class Union3D(Implicit3D):
         )
 
     def bounds(self):
+        self.solve_bounds()
         return self._bounds
 
 
@@ -402,6 +404,7 @@ class Intersection2D(Implicit2D):
         )
 
     def bounds(self):
+        self.solve_bounds()
         return self._bounds
 
 
@@ -428,6 +431,7 @@ class Intersection3D(Implicit3D):
         return np.array(op_intersection(self.a.implicit(v), self.b.implicit(v)))
 
     def bounds(self):
+        self.solve_bounds()
         return self._bounds
 
 
-- 
2.43.0


From a939d1b1564af7fdb62fb3ea76cd6b3306b87c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 079/200] fix: a shape is called on many points

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 4ced877..c338595 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -101,7 +101,7 @@ class Implicit:
         self.dxdy = fdm(self.implicit)
         self._tree = None
         #self.implicit = NpCache(self.implicit)
-        self._vimplicit = np.vectorize(self.implicit, signature="()->(i)")
+        self._vimplicit = np.vectorize(self.implicit, signature="(i)->()")
 
     def invalidate_cache(self):
         self.implicit.clear()
-- 
2.43.0


From f624d7b4d1fe927305c5d3b85d03f07c240ae708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 080/200] fix: build_tree builds plane trees too and keeps no
 tree it could not build

---
 mmcore/geom/implicit/implicit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index c338595..b854eb3 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -261,7 +261,9 @@ class Implicit2D(Implicit):
         return NURBSpline(control_points=z, knots=np.array(knots, float), degree=degree)
 
     def build_tree(self, depth=3):
-        self._tree = ImplicitTree2D(self.implicit, depth, bounds=self.bounds())
+        tree = ImplicitTree2D(self.implicit, depth, bounds=self.bounds())
+        tree.build(depth=depth)
+        self._tree = tree
 
 
 from mmcore.numeric.fdm import DEFAULT_H
@@ -303,8 +305,9 @@ class Implicit3D(Implicit):
         ...
 
     def build_tree(self, depth=3):
-        self._tree = ImplicitTree3D(self.implicit, depth, bounds=self.bounds())
-        self._tree.build(depth=depth)
+        tree = ImplicitTree3D(self.implicit, depth, bounds=self.bounds())
+        tree.build(depth=depth)
+        self._tree = tree
 
     def gradient(self, xyz):
         D = np.eye(3) * DEFAULT_H
-- 
2.43.0


From bd8eeabe1ef79e63d94e4b0ef5178c5b4f3c90cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 081/200] fix: a plane tree is built in its own bounds

---
 mmcore/geom/implicit/tree/tree2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index a56a7e0..2c82dd8 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -35,7 +35,7 @@ class ImplicitTree2D:
             self.depth = depth
         self.build_tree()
         self.collapse()
-        self.build_node(self._collapsed_tree, self.shape.bounds())
+        self.build_node(self._collapsed_tree, self.bounds)
 
     def build_node(self, tree, quad):
         if isinstance(tree, Empty):
-- 
2.43.0


From 72174b4fe150c522426160276454bafe3b6ead15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 082/200] fix: ImplicitTree3D takes bounds in an array

---
 mmcore/geom/implicit/tree/tree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/tree/tree3d.py b/mmcore/geom/implicit/tree/tree3d.py
index 3a6b705..175523b 100644
--- a/mmcore/geom/implicit/tree/tree3d.py
+++ b/mmcore/geom/implicit/tree/tree3d.py
@@ -18,7 +18,7 @@ class ImplicitTree3D:
 
     def build_tree(self):
         minb, maxb = self.bounds
-        self._tree = build_tree3d(minb, maxb, self.depth)
+        self._tree = build_tree3d(tuple(minb), tuple(maxb), self.depth)
 
     def collapse(self):
         self._collapsed_tree = collapse3d(getattr(self.shape, 'implicit', self.shape), self._tree)
-- 
2.43.0


From 494f01a947c52fc8ec49e74477fb5a2ff12d485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 083/200] fix: astuple() of the primitives does not crash
 (PyTuple_Pack was given doubles)

---
 mmcore/geom/primitives.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index 4470276..c58765b 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -3,7 +3,6 @@ cimport cython
 import numpy as np
 from libc.math cimport fabs, sqrt,fmin,fmax,pow,pi,sin,cos
 from libc.stdlib cimport malloc,free
-from cpython cimport PyTuple_New,PyTuple_Pack,PyTuple_GetItem,PyTuple_GET_ITEM
 cimport numpy as np
 from mmcore.geom.parametric cimport ParametricSurface
 from mmcore.numeric.vectors cimport scalar_cross
@@ -211,7 +210,7 @@ cdef class Sphere(Implicit3D):
 
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(4,self.ox,self.oy,self.oz,self._radius )
+        cdef tuple tpl=(self.ox,self.oy,self.oz,self._radius)
         return tpl
 
     @property
@@ -308,7 +307,7 @@ cdef class ImplicitCylinder(Implicit3D):
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius,self._bounds)
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(7,self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius )
+        cdef tuple tpl=(self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius)
         return tpl
 
     @property
@@ -572,7 +571,7 @@ cdef class Tube(ImplicitCylinder):
     cdef void _calculate_bounds(self) noexcept nogil:
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius+self._thickness/2, self._bounds)
     def astuple(self):
-        cdef tuple tpl = PyTuple_Pack(8, self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
+        cdef tuple tpl = (self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
         return tpl
 
 
-- 
2.43.0


From e0bf6fb2349c115cf6e3780bd42be95a546b3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 084/200] fix: primitives answer for read-only points, as
 np.vectorize hands them on

---
 mmcore/geom/primitives.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index c58765b..e7cf91a 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -143,7 +143,7 @@ cdef class Implicit3D:
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def gradient(self, double[:] point):
+    def gradient(self, const double[:] point):
         cdef double x=point[0]
         cdef double y = point[1]
         cdef double z = point[2]
@@ -152,7 +152,7 @@ cdef class Implicit3D:
         return np.array(result)
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def implicit( self, double[:] point):
+    def implicit( self, const double[:] point):
         cdef double x=point[0]
         cdef double y = point[1]
         cdef double z = point[2]
@@ -448,12 +448,12 @@ cdef class Cylinder(ParametricSurface):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def gradient(self, double[:] point):
+    def gradient(self, const double[:] point):
 
         return self._implicit_prim.gradient(point)
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def implicit( self, double[:] point):
+    def implicit( self, const double[:] point):
 
         return self._implicit_prim.implicit(point)
 
-- 
2.43.0


From bbe8024d2b97bc43ebacfbfb251146b8ebe08ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 085/200] fix: the bounds of a union are not taken from another
 caller's computation

---
 mmcore/geom/implicit/implicit.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index b854eb3..6bf54ed 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -347,14 +347,15 @@ class Union2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds = (min(axmin, bxmin), min(aymin, bymin)), (
+        bounds = (min(axmin, bxmin), min(aymin, bymin)), (
             max(axmax, bxmax),
             max(aymax, bymax),
         )
+        self._bounds = bounds
+        return bounds
 
     def bounds(self):
-        self.solve_bounds()
-        return self._bounds
+        return self.solve_bounds()
 
 
 class Union3D(Implicit3D):
@@ -371,17 +372,18 @@ class Union3D(Implicit3D):
     def solve_bounds(self):
         (axmin, aymin, azmin), (axmax, aymax, azmax) = self.a.bounds()
         (bxmin, bymin, bzmin), (bxmax, bymax, bzmax) = self.b.bounds()
-        self._bounds = (min(axmin, bxmin),
+        bounds = (min(axmin, bxmin),
                         min(aymin, bymin),
                         min(azmin, bzmin)), (
             max(axmax, bxmax),
             max(aymax, bymax),
             max(azmax, bzmax),
         )
+        self._bounds = bounds
+        return bounds
 
     def bounds(self):
-        self.solve_bounds()
-        return self._bounds
+        return self.solve_bounds()
 
 
 class Intersection2D(Implicit2D):
@@ -401,14 +403,15 @@ class Intersection2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds = (max(axmin, bxmin), max(aymin, bymin)), (
+        bounds = (max(axmin, bxmin), max(aymin, bymin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
         )
+        self._bounds = bounds
+        return bounds
 
     def bounds(self):
-        self.solve_bounds()
-        return self._bounds
+        return self.solve_bounds()
 
 
 class Intersection3D(Implicit3D):
@@ -422,20 +425,21 @@ class Intersection3D(Implicit3D):
     def solve_bounds(self):
         (axmin, aymin, azmin), (axmax, aymax, azmax) = self.a.bounds()
         (bxmin, bymin, bzmin), (bxmax, bymax, bzmax) = self.b.bounds()
-        self._bounds = (max(axmin, bxmin),
+        bounds = (max(axmin, bxmin),
                         max(aymin, bymin),
                         max(azmin, bzmin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
             min(azmax, bzmax),
         )
+        self._bounds = bounds
+        return bounds
 
     def implicit(self, v):
         return np.array(op_intersection(self.a.implicit(v), self.b.implicit(v)))
 
     def bounds(self):
-        self.solve_bounds()
-        return self._bounds
+        return self.solve_bounds()
 
 
 class Sub2D(Implicit2D):
-- 
2.43.0


From 0a3d81f200a7ee2b4fd3ec67ee84882df11e36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 086/200] fix: GJK drops the vertex opposite the face it keeps
 (overlapping sets were reported apart)

---
 mmcore/numeric/algorithms/_gjk.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/_gjk.cpp b/mmcore/numeric/algorithms/_gjk.cpp
index b563b27..263a0c8 100644
--- a/mmcore/numeric/algorithms/_gjk.cpp
+++ b/mmcore/numeric/algorithms/_gjk.cpp
@@ -114,10 +114,10 @@ bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
                 simplex.erase(simplex.begin());
                 return handleSimplex(simplex, d, tol);
             } else if (dot(acd, ao) > 0) {
-                simplex.erase(simplex.begin() + 1);
+                simplex.erase(simplex.begin() + 2);
                 return handleSimplex(simplex, d, tol);
             } else if (dot(adb, ao) > 0) {
-                simplex.erase(simplex.begin() + 2);
+                simplex.erase(simplex.begin() + 1);
                 return handleSimplex(simplex, d, tol);
             } else {
                 return true;
-- 
2.43.0


From b80fa9d08157f031eb92d6eca0041db838e9f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 087/200] fix: the Python GJK keeps its simplex (the reduced
 simplex was a copy), overlapping sets were reported apart

---
 mmcore/numeric/algorithms/gjk.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mmcore/numeric/algorithms/gjk.py b/mmcore/numeric/algorithms/gjk.py
index 7cf2f66..4b565bd 100644
--- a/mmcore/numeric/algorithms/gjk.py
+++ b/mmcore/numeric/algorithms/gjk.py
@@ -161,10 +161,12 @@ def handle_simplex(simplex, d, tol=1e-6):
                 simplex.pop(1)
                 d[:] = scalar_cross(scalar_cross(ac, ao), ac)
             else:
-                return handle_simplex([simplex[2], simplex[1]], d)
+                simplex.pop(0)
+                return handle_simplex(simplex, d, tol=tol)
         else:
             if scalar_dot(scalar_cross(ab, abc), ao) > tol:
-                return handle_simplex([simplex[2], simplex[1]], d)
+                simplex.pop(0)
+                return handle_simplex(simplex, d, tol=tol)
             else:
                 if scalar_dot(abc, ao) > tol:
                     d[:] = abc
@@ -188,13 +190,13 @@ def handle_simplex(simplex, d, tol=1e-6):
 
         if scalar_dot(abc, ao) > 0:
             simplex.pop(0)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
+            return handle_simplex(simplex, d, tol=tol)
         elif scalar_dot(acd, ao) > 0:
-            simplex.pop(1)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
-        elif scalar_dot(adb, ao) > 0:
             simplex.pop(2)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
+            return handle_simplex(simplex, d, tol=tol)
+        elif scalar_dot(adb, ao) > 0:
+            simplex.pop(1)
+            return handle_simplex(simplex, d, tol=tol)
         else:
 
             return True
-- 
2.43.0


From ac93a5e1b9db8cab23d03810c19166de73ee6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 088/200] fix: gjk refuses empty sets and does not run out of
 bounds on NaN (both ended the process)

---
 mmcore/numeric/algorithms/_gjk.cpp  | 2 +-
 mmcore/numeric/algorithms/cygjk.pyx | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/_gjk.cpp b/mmcore/numeric/algorithms/_gjk.cpp
index 263a0c8..b4da11e 100644
--- a/mmcore/numeric/algorithms/_gjk.cpp
+++ b/mmcore/numeric/algorithms/_gjk.cpp
@@ -33,7 +33,7 @@ inline Vec3<T> operator-(const Vec3<T>& a, const Vec3<T>& b) {
 template<typename T>
 inline int supportVector(const std::vector<Vec3<T>>& vertices, const Vec3<T>& d) {
     T highest = -std::numeric_limits<T>::max();
-    int supportIndex = -1;
+    int supportIndex = 0;  // with NaN coordinates no dot product is the highest
 
     for (size_t i = 0; i < vertices.size(); ++i) {
         T dotValue = dot(vertices[i], d);
diff --git a/mmcore/numeric/algorithms/cygjk.pyx b/mmcore/numeric/algorithms/cygjk.pyx
index 6852588..5e911db 100644
--- a/mmcore/numeric/algorithms/cygjk.pyx
+++ b/mmcore/numeric/algorithms/cygjk.pyx
@@ -16,6 +16,10 @@ cimport mmcore.numeric.algorithms.cygjk
 @cython.wraparound(False)
 @cython.cdivision(False)
 def gjk(double[:,:] v1, double[:,:] v2, double tol=1e-6, int max_iter=25):
+    if v1.shape[0] == 0 or v2.shape[0] == 0:
+        raise ValueError("Input vertex sets cannot be empty")
+    if v1.shape[1] < 3 or v2.shape[1] < 3:
+        raise ValueError("Input vertices must have three coordinates")
     cdef vector[Vec3[double]] vf1=vector[Vec3[double]](v1.shape[0])
     cdef vector[Vec3[double]] vf2=vector[Vec3[double]](v2.shape[0])
     cdef int i;
-- 
2.43.0


From 4c3950866595abfc8edbb6c4219010a7d1f75049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 089/200] fix: point inversion on a curve returns the parameter
 it converged to (it gave back the guess before), on a surface it converges in
 both directions

---
 mmcore/numeric/algorithms/point_inversion.py | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index dbd006c..b735cc9 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -54,21 +54,21 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         if np.isclose(fpi, 0):
             break
 
-        ui1 = ui - fi / fpi
+        step = fi / fpi
+        ui = ui - step
 
-        if abs(ui1 - ui) * scalar_norm(C_prime) <= tol1:
+        if abs(step) * scalar_norm(C_prime) <= tol1:
             break
-        C_point = curve.evaluate(ui1)
+        C_point = curve.evaluate(ui)
 
         if scalar_norm(C_point - P) <= tol1:
             break
-        C_prime = curve.derivative(ui1)
+        C_prime = curve.derivative(ui)
 
         if abs(scalar_dot(C_prime, C_point - P)) / (
-                scalar_norm(C_prime) * scalar_norm(C_prime - P)) <= tol2:
+                scalar_norm(C_prime) * scalar_norm(C_point - P)) <= tol2:
             break
-        C_double_prime = curve.second_derivative(ui1)
-        ui = ui1
+        C_double_prime = curve.second_derivative(ui)
 
     return ui
 
@@ -176,24 +176,23 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         success = solve2x2(J, k, delta)
         if success==0:
             raise ValueError(f'Failure to compute a matrix system of equations A={J} b={k}')
-        # Update u and v
         ui1vi1 = uivi - delta
 
         # Check convergence criteria
-        if np.linalg.norm(ui1vi1 - uivi) * (np.linalg.norm(du) + np.linalg.norm(
+        if np.linalg.norm(delta) * (np.linalg.norm(du) + np.linalg.norm(
                 dv)) <= tol1:
             break
         new_pt=surface.evaluate(ui1vi1)
         if scalar_norm( new_pt- P) <= tol1:
             break
         new_du=surface.derivative_u(ui1vi1)
-
+        new_dv=surface.derivative_v(ui1vi1)
         pt_diff= new_pt-P
-        if abs(scalar_dot(new_du, pt_diff)) / (
-                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2:
+        pt_norm= np.linalg.norm(pt_diff)
+        if (abs(scalar_dot(new_du, pt_diff)) <= tol2 * np.linalg.norm(new_du) * pt_norm and
+                abs(scalar_dot(new_dv, pt_diff)) <= tol2 * np.linalg.norm(new_dv) * pt_norm):
             break
-
-        uivi = ui1vi1
+        uivi=ui1vi1
 
     return uivi
 
-- 
2.43.0


From 1d27399216f31f97910ff23db85af6e170e0dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 090/200] fix: csx answers an empty array where curve and
 surface do not meet

---
 mmcore/numeric/intersection/csx/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index c31ce4d..7d8cd47 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -249,9 +249,8 @@ def csx(curve, surface, tol=1e-3,ptol=1e-6):
     if isinstance(curve,NURBSCurve ) and isinstance(surface, NURBSSurface):
         ixs=nurbs_csx(curve, surface, tol=tol, ptol=ptol)
         ixs.sort(key=lambda x: x[2][0])
-        typs, pts,params=zip(*ixs)
 
-        return np.array(params)
+        return np.array([params for _, _, params in ixs]).reshape((-1, 3))
     elif hasattr(surface,'implicit'):
         return curve_implicit_intersection(curve,surface,tol=ptol)
     else:
-- 
2.43.0


From a6554ab9e249d3175642f59142e30a0b9b01ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 091/200] fix: ccx of two implicit curves returns the points
 instead of raising them

---
 mmcore/numeric/intersection/ccx/ccx.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 6b1448c..07f23e0 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -111,8 +111,7 @@ def ccx(curve1, curve2, tol: float = 0.01):
     elif hasattr(curve2, "evaluate") and hasattr(curve1, "evaluate"):
         return curve_ppx(curve1, curve2, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "implicit"):
-        raise curve_iix(
-            curve1, curve2)
+        return curve_iix(curve1, curve2)
     else:
         raise ValueError(
             "curves must have parametric or implicit form - evaluate(t) and implicit(xyz) methods. "
-- 
2.43.0


From a63d0bc4c21d9780be025303a3a3b2c1e218dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 092/200] fix: local_closest_point_on_curve differentiates
 within the interval (it was passed as the step)

---
 mmcore/numeric/closest_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 42a97b5..7358447 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -301,7 +301,7 @@ def local_closest_point_on_curve(curve, t0, point, tol=1e-3, **kwargs):
         # C' (u) •(C(u) - P)
         return scalar_dot(curve.derivative(t), curve.evaluate(t) - point)
 
-    dfun = bounded_fdm(fun, curve.interval())
+    dfun = bounded_fdm(fun, bounds=curve.interval())
     res = newton(fun, t0, fprime=dfun, tol=tol, **kwargs)
     return res, np.linalg.norm(curve.evaluate(res) - point)
 
-- 
2.43.0


From dce60ccff46f91ac1d425bc675d6c4e60710f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 093/200] fix: foot_point calls the surface the same way
 throughout (it could not run)

---
 mmcore/numeric/closest_point.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 7358447..8cff615 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -193,8 +193,7 @@ def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=2
     Find the foot point on the parametric surface S(s, t) closest to the given point P.
     """
     if partial_derivatives is None:
-        _pde = PDE(S, dim=2)
-        partial_derivatives = lambda uv: _pde(uv).T
+        partial_derivatives = PDE(lambda uvs: np.array([S(uv) for uv in uvs]), dim=2)
     s, t = st = np.array([s0, t0])
 
     while True:
@@ -214,7 +213,7 @@ def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=2
         q_i = p_i + delta_s * e_s + delta_t * e_t
         s_new = s + delta_s
         t_new = t + delta_t
-        p_new = S(s_new, t_new)
+        p_new = S(np.array([s_new, t_new]))
         f1 = q_i - p_i
         f2 = p_new - q_i
         # Check convergence
@@ -231,7 +230,7 @@ def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=2
         t = t + alpha * delta_t
         st[0] = s
         st[1] = t
-    return S(s, t), s, t
+    return S(st), s, t
 
 
 def closest_point_on_curve_single(curve, point, tol=1e-3):
-- 
2.43.0


From a9f76a7324ce7f361a379b12619e804e5b147395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 094/200] fix: point inversion on a curve stays within the
 curve's interval

---
 mmcore/numeric/algorithms/point_inversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index b735cc9..0e17842 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -46,6 +46,7 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
     C_prime = curve.derivative(u0)
     C_double_prime = curve.second_derivative(u0)
     ui = u0
+    u_min, u_max = curve.interval()
     for _ in range(max_iter):
 
         fi = f(C_point, C_prime)
@@ -54,7 +55,8 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         if np.isclose(fpi, 0):
             break
 
-        step = fi / fpi
+        # stay within the curve
+        step = ui - min(max(ui - fi / fpi, u_min), u_max)
         ui = ui - step
 
         if abs(step) * scalar_norm(C_prime) <= tol1:
-- 
2.43.0


From e91fba91a72a42fc2128b78f579ccd8f4dbf8b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 095/200] fix: aabb of points in other than three dimensions (a
 box of three columns was written past its end)

---
 mmcore/numeric/_aabb.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 8b386e4..da61b92 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -83,7 +83,11 @@ cdef inline void caabb(double[:,:] points, double[:] min_point, double[:] max_po
 @cython.cdivision(True)
 def aabb(double[:,:] pts, double[:,:] bb=None):
     if bb is None:
-        bb   =np.zeros((2,3))
+        bb   =np.zeros((2,pts.shape[1]))
+    if pts.shape[0] == 0:
+        raise ValueError('no points')
+    if bb.shape[0] < 2 or bb.shape[1] < pts.shape[1]:
+        raise ValueError('the box has fewer dimensions than the points')
 
     caabb(pts,bb[0],bb[1])
     return bb
-- 
2.43.0


From 1519b0b73494018a11438945a2003cc6c5c1fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 096/200] fix: the bounds of a curve cover all of it (the
 search for an extremum settled in any valley)

---
 mmcore/numeric/numeric.py | 49 +++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 3d45aeb..0d25564 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -516,36 +516,35 @@ def curve_bound_points(curve, bounds=None, tol=1e-2):
     but does not guarantee that the curve is extreme in all parameters.
     """
 
-    def t_x(t):
-        return curve.evaluate(t)[0]
-
-    def t_y(t):
-        return curve.evaluate(t)[1]
+    curve_start, curve_end = curve.interval() if bounds is None else bounds
 
-    def t_z(t):
-        return curve.evaluate(t)[2]
+    # A coordinate may rise and fall many times over the interval, and the search below descends into one valley only:
+    # samples within each span bracket the lowest and the highest one first.
+    breaks = {curve_start, curve_end}
+    breaks.update(float(k) for k in getattr(curve, "knots", ()) if curve_start < k < curve_end)
+    breaks = sorted(breaks)
+    samples = np.concatenate(
+        [
+            np.linspace(start, end, max(8, 32 // (len(breaks) - 1)), endpoint=False)
+            for start, end in zip(breaks[:-1], breaks[1:])
+        ]
+        + [[curve_end]]
+    )
+    points = np.array([curve.evaluate(t) for t in samples])
 
     t_values = []
 
-    def solve_interval(f, bnds):
-        f_min, _ = iterative_divide_and_conquer_min(f, bnds, tol=tol)
-        f_max, _ = iterative_divide_and_conquer_min(lambda t: -f(t), bnds, tol=tol)
-        return f_min, f_max
+    def bracket(i):
+        return samples[max(i - 1, 0)], samples[min(i + 1, len(samples) - 1)]
 
-    curve_start, curve_end = curve.interval() if bounds is None else bounds
-    #if (curve_end - curve_start) > 1.0:
-    #    for start, end in divide_interval(curve_start, curve_end, step=1.0):
-    #        #solve_interval(t_x, (start, end))
-    #        t_values.extend(solve_interval(t_x, (start, end)))
-    #        t_values.extend(solve_interval(t_y, (start, end)))
-    #        t_values.extend(solve_interval(t_z, (start, end)))
-    #else:
-    #    t_values.extend(solve_interval(t_x, (curve_start, curve_end)))
-    #    t_values.extend(solve_interval(t_y, (curve_start, curve_end)))
-    #    t_values.extend(solve_interval(t_z, (curve_start, curve_end)))
-    t_values.extend(solve_interval(t_x, (curve_start, curve_end)))
-    t_values.extend(solve_interval(t_y, (curve_start, curve_end)))
-    t_values.extend(solve_interval(t_z, (curve_start, curve_end)))
+    for axis in range(points.shape[-1]):
+        t_min, _ = iterative_divide_and_conquer_min(
+            lambda t: curve.evaluate(t)[axis], bracket(np.argmin(points[:, axis])), tol=tol
+        )
+        t_max, _ = iterative_divide_and_conquer_min(
+            lambda t: -curve.evaluate(t)[axis], bracket(np.argmax(points[:, axis])), tol=tol
+        )
+        t_values.extend((t_min, t_max))
 
     return np.unique(np.array([curve_start, *t_values, curve_end]))
 
-- 
2.43.0


From 1525005433d98c1f989c15951fc55ea202f1bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 097/200] fix: a parameter within rounding of a knot is that
 knot (splitting or inserting there gave a broken piece)

---
 mmcore/geom/nurbs.pxd | 10 ++++++++++
 mmcore/geom/nurbs.pyx |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index aed8ced..d785bfa 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -287,6 +287,16 @@ cdef inline int find_multiplicity(double knot, double[:] knot_vector, double tol
             mult += 1
     return mult
 
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef inline double snap_to_knot(double t, double[:] knot_vector) noexcept nogil:
+    """The knot that find_multiplicity takes t for, if there is one: the span must be that of the same knot."""
+    cdef int i
+    for i in range(knot_vector.shape[0]):
+        if fabs(t - knot_vector[i]) <= calc_epsilon(knot_vector[i]):
+            return knot_vector[i]
+    return t
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef inline double knot_insertion_alpha(double u, double[:] knotvector, int span, int idx, int leg)  noexcept nogil:
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index a977ca4..19918f1 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -586,6 +586,7 @@ cdef inline double point_distance(double* a, double* b ,int dim) noexcept nogil:
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, double u, double tol=1e-4, int num=1,bint is_periodic=0):
+    u = snap_to_knot(u, knotvector)
     cdef int s = find_multiplicity(u, knotvector,1e-12)
     cdef int n = ctrlpts.shape[0]
     #n, degree,  u, knotvector, is_periodic
@@ -1787,6 +1788,7 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i, j
 
         # Find knot span
+        t = snap_to_knot(t, self._knots)
         cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
         if count == 0:
             return
@@ -2178,6 +2180,7 @@ cpdef tuple split_curve(NURBSCurve obj, double param, double tol=1e-7,bint norma
 
         raise ValueError("Cannot split from the domain edge ")
 
+    param = snap_to_knot(param, knotvector)
     ks = find_span_inline(n_ctrlpts , degree, param, knotvector, 0) - degree + 1
 
     s = find_multiplicity(param, knotvector,1e-12)
@@ -2263,6 +2266,7 @@ cpdef tuple split_curve2(NURBSCurve obj, double param, double tol=1e-12):
         fabs(param - obj._interval[0]) <= tol or fabs(param - obj._interval[1]) <= tol):
         raise ValueError("Cannot split from the domain edge")
 
+    param = snap_to_knot(param, knotvector)
     ks = find_span_inline(n_ctrlpts, degree, param, knotvector, 0) - degree + 1
     s = find_multiplicity(param, knotvector, 1e-12)
     r = degree - s
@@ -2655,6 +2659,7 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int new_count_v = self._size[1]
 
         cdef double[:,:,:] cpts=self.control_points_view.copy()
+        t = snap_to_knot(t, self._knots_u)
         cdef int s_u = find_multiplicity(t, self._knots_u,1e-12)
         if count == 0:
             return
@@ -2719,6 +2724,7 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int new_count_v = self._size[1] + count
         cdef double[:,:,:] cpts=self.control_points_view.copy()
 
+        t = snap_to_knot(t, self._knots_v)
         cdef int s_v = find_multiplicity(t, self._knots_v,1e-12)
         if count == 0:
             return
@@ -2772,6 +2778,7 @@ cpdef tuple split_surface_u(NURBSSurface obj, double param, double tol=1e-7) :
 
 
         raise ValueError("Cannot split from the domain edge")
+    param = snap_to_knot(param, knots_u)
     ks = find_span_inline(size_u, degree_u, param, knots_u, 0) - degree_u + 1
     s = find_multiplicity(param, knots_u, 1e-12)
     r = degree_u - s
@@ -2841,6 +2848,7 @@ cpdef tuple split_surface_v(NURBSSurface obj, double param,double tol=1e-7) :
     if param <= obj._interval[1][0] or param >= obj._interval[1][1] or fabs(param - obj._interval[1][0]) <= tol or fabs(
             param - obj._interval[1][1]) <= tol:
         raise ValueError("Cannot split from the domain edge")
+    param = snap_to_knot(param, knots_v)
     ks = find_span_inline(size_v, degree_v, param, knots_v, 0) - degree_v + 1
     s = find_multiplicity(param, knots_v,1e-12)
     r = degree_v - s
-- 
2.43.0


From 0b5823dcded3811e229057c11db36ee24cca1d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 098/200] fix: csx goes on after the first crossing (spherical
 separability held for nearly any sets, and edges ended the search)

---
 mmcore/numeric/intersection/csx/_ncsx.py      | 19 +++++++--
 .../intersection/separability/spherical.py    | 41 +++++++++++++------
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index 5e6af8d..a036fae 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -93,14 +93,20 @@ class NURBSCurveSurfaceIntersector:
 
             else:
                 self.intersections.append(("transversal", point, (t, u, v)))
-            if abs(u-u0)<self.ptol or abs(u-u1)<self.ptol or  abs(v-v0)<self.ptol or  abs(v-v1)<self.ptol:
-
-                return
             if spherical_separability(
                 np.array(surface.control_points_flat), curve.control_points, point
             ):
                 return
 
+            # Nothing to cut off at an edge the point lies on: halve the pieces there instead
+            t0, t1 = curve.interval()
+            if abs(t - t0) < self.ptol or abs(t - t1) < self.ptol:
+                t = (t0 + t1) * 0.5
+            if abs(u - u0) < self.ptol or abs(u - u1) < self.ptol:
+                u = (u0 + u1) * 0.5
+            if abs(v - v0) < self.ptol or abs(v - v1) < self.ptol:
+                v = (v0 + v1) * 0.5
+
             curve1, curve2 = split_curve(curve, t, tol=self.ptol,normalize_knots=False)
             # normalize_curve_knots(curve1)
             # normalize_curve_knots(curve2)
@@ -156,6 +162,7 @@ class NURBSCurveSurfaceIntersector:
             and self._is_valid_parameter(result, (t0, t1), (u0, u1), (v0, v1))
             and not any(np.isnan(result))
         ):
+            result = np.clip(result, (t0, u0, v0), (t1, u1, v1))
             point = curve.evaluate(result[0])
             point2 = surface.evaluate_v2(*result[1:])
             r = scalar_norm(point - point2)
@@ -176,7 +183,11 @@ class NURBSCurveSurfaceIntersector:
         t0, t1 = t_range
         (u0, u1), (v0, v1) = u_range, v_range
 
-        return t0 <= t <= t1 and u0 <= u <= u1 and v0 <= v <= v1
+        # A crossing on the common edge of two pieces belongs to both, not (by a rounding error each) to neither
+        e = self.ptol
+        return (
+            t0 - e <= t <= t1 + e and u0 - e <= u <= u1 + e and v0 - e <= v <= v1 + e
+        )
 
     def _is_degenerate(self, point, curve, surface):
         t, u, v = point
diff --git a/mmcore/numeric/intersection/separability/spherical.py b/mmcore/numeric/intersection/separability/spherical.py
index 321cd20..e6447d1 100644
--- a/mmcore/numeric/intersection/separability/spherical.py
+++ b/mmcore/numeric/intersection/separability/spherical.py
@@ -17,7 +17,7 @@ def project_to_sphere(points, center):
 
 
 def find_smallest_wedge(points_2d):
-    """Find the smallest wedge containing 2D points."""
+    """Find the smallest wedge containing 2D points: the angle it starts at and its width."""
     angles = np.arctan2(points_2d[:, 1], points_2d[:, 0])
     sorted_angles = np.sort(angles)
     angle_diffs = np.diff(sorted_angles)
@@ -26,9 +26,8 @@ def find_smallest_wedge(points_2d):
         angle_diffs, 2 * np.pi - sorted_angles[-1] + sorted_angles[0]
     )
     max_gap = np.argmax(angle_diffs)
-    start_angle = sorted_angles[max_gap]
-    end_angle = sorted_angles[(max_gap + 1) % len(sorted_angles)]
-    return start_angle, end_angle
+    start_angle = sorted_angles[(max_gap + 1) % len(sorted_angles)]
+    return start_angle, 2 * np.pi - angle_diffs[max_gap]
 
 
 def spherical_bounding_box_test(points1, points2, center):
@@ -44,12 +43,23 @@ def spherical_bounding_box_test(points1, points2, center):
             (sphere_points2[:, (axis + 1) % 3], sphere_points2[:, (axis + 2) % 3])
         )
 
-        wedge1_start, wedge1_end = find_smallest_wedge(plane_coords1)
-        wedge2_start, wedge2_end = find_smallest_wedge(plane_coords2)
+        if (
+            np.linalg.norm(plane_coords1, axis=1).min() < 1e-9
+            or np.linalg.norm(plane_coords2, axis=1).min() < 1e-9
+        ):
+            continue  # a point on the axis itself has no angle around it
+
+        wedge1_start, wedge1_width = find_smallest_wedge(plane_coords1)
+        wedge2_start, wedge2_width = find_smallest_wedge(plane_coords2)
+
+        # What the points enclose stays within the wedge only while the wedge is narrower than a half plane
+        if wedge1_width >= np.pi - 1e-9 or wedge2_width >= np.pi - 1e-9:
+            continue
 
         # Check if wedges are separated
-        if (wedge1_end < wedge2_start and wedge2_end > wedge1_start) or (
-            wedge2_end < wedge1_start and wedge1_end > wedge2_start
+        if (
+            (wedge2_start - wedge1_start) % (2 * np.pi) > wedge1_width + 1e-9
+            and (wedge1_start - wedge2_start) % (2 * np.pi) > wedge2_width + 1e-9
         ):
             return True  # Separating circle found
 
@@ -74,9 +84,10 @@ def separating_circles_test(points1, points2, center):
     b_ub = np.zeros(m + n)
 
     # Solve the linear programming problem
-    res = linprog(c, A_ub=A_ub, b_ub=b_ub, method="highs")
+    res = linprog(c, A_ub=A_ub, b_ub=b_ub, bounds=[(-1, 1), (-1, 1), (-1, 1), (None, None)], method="highs")
 
-    return not res.success  # True if no separating plane was found
+    # Every point lies at least as far on its own side of the plane as the negative margin found
+    return bool(res.success and res.fun < -1e-9)
 
 
 def spherical_separability(surface_points, curve_points, intersection_point):
@@ -148,10 +159,16 @@ def spherical_separability(surface_points, curve_points, intersection_point):
     """
 
     # Remove the intersection point from both sets
+    surface_points = np.asarray(surface_points, dtype=float)
+    curve_points = np.asarray(curve_points, dtype=float)
     surface_points = surface_points[
-        ~np.all(surface_points == intersection_point, axis=1)
+        ~np.all(np.isclose(surface_points, intersection_point, atol=1e-9), axis=1)
     ]
-    curve_points = curve_points[~np.all(curve_points == intersection_point, axis=1)]
+    curve_points = curve_points[
+        ~np.all(np.isclose(curve_points, intersection_point, atol=1e-9), axis=1)
+    ]
+    if len(surface_points) == 0 or len(curve_points) == 0:
+        return True
 
     # First, try the cheaper bounding box test
     if spherical_bounding_box_test(surface_points, curve_points, intersection_point):
-- 
2.43.0


From 7d6f4e6026d692226854f3903057a8b1ca582a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 099/200] fix: the parts of a divided interval end where it
 ends (roots past the end of a curve were reported)

---
 mmcore/numeric/routines/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 64a6009..2b553c2 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -169,7 +169,7 @@ def cubic_spline(control_points: np.ndarray[(4, 2), np.dtype[float]]
 
 def divide_interval(start, end, step=1.):
     a = np.arange(start, end, step)
-    return np.c_[a, a + step]
+    return np.c_[a, np.minimum(a + step, end)]
 T=TypeVar("T")
 
 def column_concat(a:NDArray[T],b:NDArray[T]|T)->NDArray[T]:
-- 
2.43.0


From 5c2dad44f119603425af1242cef9254643aa2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 100/200] fix: a root right at the end of an interval is found
 (crossings next to a step of curve_pix were missed)

---
 mmcore/numeric/divide_and_conquer.py   |  9 +++++++++
 mmcore/numeric/intersection/ccx/ccx.py | 12 +++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index badd846..e371733 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -514,6 +514,15 @@ def test_all_roots(fun, bounds, tol):
     t_max, y_max = iterative_divide_and_conquer_min(lambda t: -fun(t), (t0, t1), tol)
 
     t_min, y_min = iterative_divide_and_conquer_min(fun, (t0, t1), tol)
+
+    # The searches stop short of the ends of the interval, and a root may lie just there
+    for t in (t0, t1):
+        y = fun(t)
+        if -y < y_max:
+            t_max, y_max = t, -y
+        if y < y_min:
+            t_min, y_min = t, y
+
     (t11, y11, typ11), (t21, y21, typ21) = sorted([(t_min, y_min, 0), (t_max, -y_max, 1)], key=lambda x: x[0])
 
     if sign(y11) != sign(y21):
diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 07f23e0..6537880 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -184,11 +184,13 @@ def curve_pix(curve, implicit: Callable[[ArrayLike], float], step: float = 0.5,
     #tol = tol
     roots = []
     for start, end in divide_interval(*curve.interval(), step=step):
-        roots.extend(
-            test_all_roots(
-                lambda t:   implicit_form(evaluate_parametric_form(t)), (start, end), tol=tol
-            )
-        )
+        for root in test_all_roots(
+            lambda t: implicit_form(evaluate_parametric_form(t)), (start, end), tol=tol
+        ):
+            # A root where two parts meet is found in both
+            if roots and root - start <= tol and abs(root - roots[-1]) <= tol:
+                continue
+            roots.append(root)
     return roots
 
 
-- 
2.43.0


From 6cb92bb5325409f103e979a27294f6ea1a9af6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 101/200] fix: point_in_curve answers for curves (polylines
 raised, everything else was outside), Surface.build_boundary works

---
 mmcore/geom/surfaces/__init__.py            |  6 +++---
 mmcore/numeric/algorithms/point_in_curve.py | 18 +++++++++++-------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 63602d3..ffd1e21 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -16,7 +16,7 @@ from mmcore.geom.parametric import ParametricCurve
 from mmcore.geom.parametric import BiLinear as CBiLinear
 
 from mmcore.geom.polygon import polygon_build_bvh
-from mmcore.numeric.algorithms.point_in_curve import point_in_parametric_curve
+from mmcore.numeric.algorithms.point_in_curve import point_in_parametric_curve, polyline_vertices
 from mmcore.numeric.fdm import Grad, DEFAULT_H
 from mmcore.numeric.newton.cnewton import newtons_method
 from mmcore.numeric.numeric import evaluate_normal2
@@ -112,7 +112,7 @@ class CurveOnSurface(Curve):
     def build_uv_bvh(self):
         if hasattr(self.curve, 'degree'):
             if self.curve.degree == 1:
-                self._polygon = self.curve.evaluate_multi(np.arange(*self.curve.interval()))[:, :2]
+                self._polygon = polyline_vertices(self.curve)[:, :2]
 
             elif hasattr(self.curve, 'points'):
                 self._polygon = self.curve.points()[:, :2]
@@ -123,7 +123,7 @@ class CurveOnSurface(Curve):
             self._polygon = self.curve(np.linspace(*self.curve.interval(), 50))[:, :2]
         self._edges = [(self._polygon[i], self._polygon[(i + 1) % len(self._polygon)]) for i in
                        range(len(self._polygon))]
-        self._bvh_uv_root = polygon_build_bvh(tuple(tuple(i) for i in self._edges))
+        self._bvh_uv_root = polygon_build_bvh(tuple(tuple(i) for i in self._polygon))
 
     def plane_at(self, t):
         O = self.evaluate(t)
diff --git a/mmcore/numeric/algorithms/point_in_curve.py b/mmcore/numeric/algorithms/point_in_curve.py
index 8313c73..b9a160c 100644
--- a/mmcore/numeric/algorithms/point_in_curve.py
+++ b/mmcore/numeric/algorithms/point_in_curve.py
@@ -12,21 +12,25 @@ def _is_closed_curve(crv: Curve):
     return np.allclose(pt1 - pt2, 0.)
 
 
+def polyline_vertices(crv: Curve):
+    """The vertices of a curve of degree 1: the points at its knots."""
+    start, end = crv.interval()
+    inner = [k for k in np.unique(crv.knots) if start < k < end]
+    return crv.evaluate_multi(np.array([start, *inner, end], dtype=float))
+
+
 def point_in_parametric_curve(crv: Curve, xyz):
 
     if not _is_closed_curve(crv):
         return False
     if hasattr(crv,'degree'):
         if crv.degree==1:
-            polygon=crv.evaluate_multi(np.arange(*crv.interval()))
-            edges = [(polygon[i], polygon[(i + 1) % len(polygon)]) for i in range(len(polygon))]
-            bvh_root=polygon_build_bvh(edges)
-            is_point_in_polygon_bvh(bvh_root,xyz)
+            return is_point_in_polygon_bvh(polyline_vertices(crv)[:, :2], xyz[:2])
     crr=crv.interval()
     rngg=crr[1]-crr[0]
-    print(rngg)
-
-    return (len(curve_x_ray(crv, xyz, axis=0,step= rngg)) % 2) > 0
+    # Only the crossings on one side of the point count.
+    above = [t for t in curve_x_ray(crv, xyz, axis=0, step=min(0.5, rngg / 16)) if crv.evaluate(t)[1] > xyz[1]]
+    return (len(above) % 2) > 0
 
 
 def point_in_implicit_curve(crv: Implicit2D, xyz):
-- 
2.43.0


From e7e6c44b0d1517cf70b0827a3556c6645078f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 102/200] fix: clipping a polygon leaves both operands alone,
 and answers when their boundaries do not cross

---
 mmcore/geom/polygon.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 72622fd..43bc058 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -431,6 +431,9 @@ class Polygon:
 
         f = True, b = False when stored in the entry record
         """
+        subject, clipper = self, clip
+        self, clip = self.__copy__(), clip.__copy__()  # the vertices of the crossings go into copies
+
         # phase one - find intersections
         for s in self.__iter__():  # for each vertex Si of subject polygon do
             if not s.intersect:
@@ -450,13 +453,15 @@ class Polygon:
                             pass  # this simply means intersect() returned None
 
         # phase two - identify entry/exit points
-        s_entry ^= self.head.isInside(clip)
+        union, intersection = not s_entry and not c_entry, s_entry and c_entry
+        s_inside, c_inside = self.head.isInside(clip), clip.head.isInside(self)
+        s_entry ^= s_inside
         for s in self.__iter__():
             if s.intersect:
                 s.entry = s_entry
                 s_entry = not s_entry
 
-        c_entry ^= clip.head.isInside(self)
+        c_entry ^= c_inside
         for c in clip.__iter__():
             if c.intersect:
                 c.entry = c_entry
@@ -489,10 +494,15 @@ class Polygon:
 
             list.append(clipped)
 
-        if not list:
-            list.append(self)
+        if not list:  # the boundaries do not cross: apart, or one inside the other
+            if union:
+                list.extend([clipper] if s_inside else [subject] if c_inside else [subject, clipper])
+            elif intersection:
+                list.extend([subject] if s_inside else [clipper] if c_inside else [])
+            elif not s_inside:
+                list.append(subject)
 
-        return list
+        return [part.__copy__() if part is subject or part is clipper else part for part in list]
 
     def handle_intersection(self, s_node, clip_node, clip):
         i, alphaS, alphaC = intersect(s_node, self.next(s_node.next), clip_node, clip.next(clip_node.next))
-- 
2.43.0


From 8c56433f9fd9ca0075f506e75d273a7c37a62d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 103/200] fix: Vertex.isInside counts a vertex level with the
 point once, however far the polygon is

---
 mmcore/geom/polygon.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 43bc058..a40fb67 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -203,13 +203,7 @@ class Vertex:
         An even winding number means the point lies OUTSIDE the polygon;
         an odd number means it lies INSIDE it.
         """
-        winding_number = 0
-        infinity = Vertex((1000000, self.y))
-        for q in poly.__iter__():
-            if not q.intersect and intersect(self, infinity, q, poly.next(q.next)):
-                winding_number += 1
-
-        return (winding_number % 2) != 0
+        return is_point_in_polygon((self.x, self.y), [(q.x, q.y) for q in poly.__iter__() if not q.intersect])
 
     def setChecked(self):
         self.checked = True
-- 
2.43.0


From b318d24d7748cf991b86df37d7fcf0df20dcf1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 104/200] fix: clipping against a convex polygon that lies
 apart gives nothing instead of an IndexError

---
 mmcore/geom/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index a40fb67..e542cac 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -128,6 +128,8 @@ def clip(subjectPolygon, clipPolygon):
         cp2 = clipVertex
         inputList = outputList
         outputList = []
+        if not inputList:  # nothing is left
+            break
         s = inputList[-1]
         for subjectVertex in inputList:
             e = subjectVertex
-- 
2.43.0


From 124137775ac8f38d97310917f5d1fe3867cb8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 105/200] fix: tessellating a surface or a trimmed region
 works: both raised; the trim bounds the triangles

---
 mmcore/topo/mesh/tess.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mmcore/topo/mesh/tess.py b/mmcore/topo/mesh/tess.py
index 67387a0..9002bca 100644
--- a/mmcore/topo/mesh/tess.py
+++ b/mmcore/topo/mesh/tess.py
@@ -2,7 +2,7 @@ from typing import Collection
 
 import numpy as np
 
-from mmcore.geom.polygon import is_point_in_polygon_bvh, polygon_build_bvh
+from mmcore.geom.polygon import is_point_in_polygon_bvh
 from mmcore.numeric.routines import uvs
 from mmcore.topo.mesh.triangle import triangulate
 from mmcore.topo.mesh.triangle.tri import segments_by_loop
@@ -11,20 +11,18 @@ from mmcore.topo.mesh.triangle.tri import segments_by_loop
 def tessellate_curve_on_surface(crv: 'CurveOnSurface', u_count=25, v_count=25, boundary_count=100):
     plgn = polygon = crv.curve(np.linspace(*tuple(crv.interval()), boundary_count))[..., :2]
 
-    edges = [(polygon[i], polygon[(i + 1) % len(polygon)]) for i in range(len(polygon))]
-    bvh_root = polygon_build_bvh(edges)
-
     mask = []
     pts = []
-    uu = np.linspace(0.0, 1.0, u_count)
-    vv = np.linspace(0.0, 1.0, v_count)
+    (u_min, u_max), (v_min, v_max) = crv.surf.interval()
+    uu = np.linspace(u_min, u_max, u_count)
+    vv = np.linspace(v_min, v_max, v_count)
 
     for i in range(u_count):
         for j in range(v_count):
             u = uu[i]
             v = vv[j]
             point = (u, v)
-            r = is_point_in_polygon_bvh(bvh_root, point)
+            r = is_point_in_polygon_bvh(polygon, point)
 
             mask.append(r)
             pts.append((u, v))
@@ -38,7 +36,7 @@ def tessellate_curve_on_surface(crv: 'CurveOnSurface', u_count=25, v_count=25, b
                 dtype=float,
             ),
             segments=np.array(edges, dtype=np.int32),
-        )
+        ), opts='p'
     )
     trires["position"] = crv.surf(trires["vertices"])
 
@@ -123,7 +121,7 @@ def tessellate_surface(surface: 'Surface',
         elif v_count is None:
             v_count = u_count
 
-    uv_interval = ((u_min, v_min), (u_max, v_max)) = surface
+    (u_min, u_max), (v_min, v_max) = surface.interval()
 
     boundary = np.array([*np.linspace((u_min, v_min), (u_max, v_min), u_count),
                          *np.linspace((u_max, v_min), (u_max, v_max), v_count),
-- 
2.43.0


From 83e404e41c94c0f6887f22a45528abd22644271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 106/200] fix: prepare_args numbers the vertices of closed
 loops right

---
 mmcore/topo/mesh/triangle/tri.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/topo/mesh/triangle/tri.py b/mmcore/topo/mesh/triangle/tri.py
index 14bc46f..0ff9a6f 100644
--- a/mmcore/topo/mesh/triangle/tri.py
+++ b/mmcore/topo/mesh/triangle/tri.py
@@ -188,8 +188,10 @@ def segments_by_loop(loop, start_index=0):
 
 def prepare_args(boundaries, holes):
     _max = 0
+    # the vertices are numbered without the points that close the loops
+    loops = [loop[:-1] if np.allclose(loop[0], loop[-1]) else loop for loop in [*boundaries, *holes]]
 
-    data = dict(vertices=np.concatenate(list(boundaries)+ list(holes)), holes=np.zeros((len(holes), 2)))
+    data = dict(vertices=np.concatenate(loops), holes=np.zeros((len(holes), 2)))
     edges = []
     for boundary in boundaries:
         if np.allclose(boundary[0], boundary[-1]):
-- 
2.43.0


From cafbe2483ff23c8c65515c0994c94c6648ee0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 107/200] fix: triangulating points that coincide or are not
 finite is refused (it took the process down, or never ended)

---
 mmcore/topo/mesh/triangle/core.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmcore/topo/mesh/triangle/core.pyx b/mmcore/topo/mesh/triangle/core.pyx
index a5c1ac3..08368ee 100644
--- a/mmcore/topo/mesh/triangle/core.pyx
+++ b/mmcore/topo/mesh/triangle/core.pyx
@@ -236,6 +236,11 @@ def triang(_in, opts):
 
     _in = {name:contig2d(_in[name], field_dtype[name]) for name in _in}
 
+    if not np.all(np.isfinite(_in['pointlist'])):
+        raise ValueError('Input vertices must be finite.')
+    if len(np.unique(_in['pointlist'], axis=0)) < 3:
+        raise ValueError('Input must have at least three different vertices.')
+
     opts = opts.encode('utf-8')
 
     cdef triangulateio in_
-- 
2.43.0


From ba51ab34d2875964a632218c93fbfc7608887353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 108/200] fix: triangulating with a duplicated vertex (a closed
 loop) no longer follows an unset vertex map (segfault)

---
 mmcore/topo/mesh/triangle-c/triangle.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mmcore/topo/mesh/triangle-c/triangle.c b/mmcore/topo/mesh/triangle-c/triangle.c
index c229319..b26b214 100644
--- a/mmcore/topo/mesh/triangle-c/triangle.c
+++ b/mmcore/topo/mesh/triangle-c/triangle.c
@@ -7405,10 +7405,19 @@ struct behavior *b;
 {
   struct otri triangleloop;
   vertex triorg;
+  vertex vertexloop;
 
   if (b->verbose) {
     printf("    Constructing mapping from vertices to triangles.\n");
   }
+  /* A vertex that is in no triangle (a duplicate) maps to nothing: its slot */
+  /*   would otherwise hold whatever the memory held.                        */
+  traversalinit(&m->vertices);
+  vertexloop = vertextraverse(m);
+  while (vertexloop != (vertex) NULL) {
+    setvertex2tri(vertexloop, (triangle) NULL);
+    vertexloop = vertextraverse(m);
+  }
   traversalinit(&m->triangles);
   triangleloop.tri = triangletraverse(m);
   while (triangleloop.tri != (triangle *) NULL) {
-- 
2.43.0


From 0f8e9eb9bf7b660b9c73e1ad597bda4fedecc2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 109/200] fix: NURBSpline.evaluate gives out a copy of the
 cached point (a caller writing to it changed every later answer)

---
 mmcore/geom/curves/_nurbs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f6b863a..d6bc26f 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -770,7 +770,8 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        # the caller owns what it gets: the cached point stays as it was computed
+        return self._evaluate_cached(t).copy()
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     @cython.boundscheck(False)
-- 
2.43.0


From b6f425134fe9b99bad9d19ef215981d0d562a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 110/200] fix: Curve.invalidate_cache drops the tree and the
 length table, which are kept per tolerance

---
 mmcore/geom/curves/curve.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 427e819..8205273 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -58,6 +58,8 @@ class Curve:
 
         self._evaluate_cached.cache_clear()
         self._evaluate_length_cached.cache_clear()
+        self._tree = None
+        self.__dict__.pop('_length_evaluator', None)
 
     @property
     def tree(self):
@@ -298,11 +300,10 @@ class Curve:
         :param kwargs: Additional keyword arguments to be passed.
         :return: The parameter value at the specified length.
         """
-        if hasattr(self,'_length_evaluator'):
-            return self._length_evaluator(length)
-        else:
-            self._length_evaluator=length_evaluator(self,tol)
-
+        cached = getattr(self, '_length_evaluator', None)
+        if cached is None or cached[0] != tol:
+            cached = self._length_evaluator = (tol, length_evaluator(self, tol))
+        return cached[1](length)
 
         #start, end = self.interval()
         #t0 = t0 if t0 is not None else start
@@ -316,7 +317,6 @@ class Curve:
         #return newton(
         #    func, res[0], tol=tol, x1=t1_limit, **kwargs
         #)
-        return self._length_evaluator(length)
 
     def apply_operator(self, other, op: Callable):
         if isinstance(other, Curve):
-- 
2.43.0


From 540b50da537e462f4989492c94194e36654b7505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 111/200] fix: an edited NURBSpline forgets its lengths and
 tree as well, and does not share the knots it was given

---
 mmcore/geom/curves/_nurbs.pyx | 31 +++++++++++++++++++++----------
 mmcore/geom/curves/bspline.py |  5 ++++-
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index d6bc26f..cbe758d 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -433,7 +433,7 @@ cdef class NURBSpline(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
         self._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         if  periodic:
@@ -450,8 +450,15 @@ cdef class NURBSpline(ParametricCurve):
 
 
         return obj
+    def invalidate_cache(self):
+        """
+        Forget what was computed from the shape the curve had.
+        """
+        self._evaluate_cached.cache_clear()
+
     cpdef void set_degree(self, int val):
         self._degree=val
+        self.invalidate_cache()
 
 
     cpdef int get_degree(self):
@@ -528,7 +535,7 @@ cdef class NURBSpline(ParametricCurve):
         else:
 
             self._control_points[:, :control_points.shape[1]] = control_points
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
 
 
@@ -537,9 +544,9 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._knots)
     @knots.setter
     def knots(self, double[:] v):
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
     @property
     def weights(self):
@@ -547,7 +554,7 @@ cdef class NURBSpline(ParametricCurve):
     @weights.setter
     def weights(self, double[:] v):
         self._control_points[:, 3]=v
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
     @property
     def greville_abscissae(self):
@@ -635,7 +642,7 @@ cdef class NURBSpline(ParametricCurve):
         self.generate_knots_periodic()
 
         self._periodic=True
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
 
 
@@ -652,7 +659,7 @@ cdef class NURBSpline(ParametricCurve):
         self.generate_knots()  # Generate an open knot vector
 
         self._periodic = False
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -727,9 +734,13 @@ cdef class NURBSpline(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
-        self._evaluate_cached.cache_clear()
+        cdef double[:,:] new_control_points=np.ones((control_points.shape[0],4))
+        new_control_points[:,:control_points.shape[1]]=control_points
+        cdef double[:] new_knots=knots.copy()
+        self._control_points=new_control_points
+        self._knots=new_knots
+        self.knots_update_hook()
+        self.invalidate_cache()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index f2c47f3..c15fd7f 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -92,6 +92,7 @@ class NURBSpline(CNURBSpline, Curve):
     def __init__(self, control_points, degree=3, knots=None, periodic=False):
         if knots is not None:
             knots = knots if isinstance(knots, np.ndarray) else np.array(knots, dtype=float)
+        self._evaluate_length_cached = lru_cache(maxsize=None)(self._evaluate_length)
         cpts = control_points if isinstance(control_points, np.ndarray) else np.array(control_points, dtype=float)
         if not cpts.shape[1] == 4:
 
@@ -104,7 +105,9 @@ class NURBSpline(CNURBSpline, Curve):
         else:
             CNURBSpline.__init__(self, cpts, degree, knots, periodic)
 
-        self._evaluate_length_cached = lru_cache(maxsize=None)(self._evaluate_length)
+    def invalidate_cache(self):
+        CNURBSpline.invalidate_cache(self)
+        Curve.invalidate_cache(self)
 
     #def __init__(self, control_points, weights=None, degree=3, knots=None):
     #    self._cached_eval_func = lru_cache(maxsize=None)(self._evaluate)
-- 
2.43.0


From fdee9b056cba8166c8f139e17134dbab429d69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 112/200] fix: NURBSpline.is_periodic compares all of the
 points (only the last one counted)

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index cbe758d..e1ea4c8 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -491,7 +491,7 @@ cdef class NURBSpline(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
-- 
2.43.0


From 7cfd6cbcfd9b6e380256ca18ac15357abbe1d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 113/200] fix: NURBSpline.make_open opens a periodic curve and
 leaves an open one alone (it was the other way round)

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index e1ea4c8..086fa23 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -652,7 +652,7 @@ cdef class NURBSpline(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From f11277d5e73c8e2a6dcc16965098f281bd4e299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 114/200] fix: a deep copy of a periodic NURBSpline is periodic

---
 mmcore/geom/curves/_nurbs.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 086fa23..cd6d201 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -447,9 +447,12 @@ cdef class NURBSpline(ParametricCurve):
         obj=self.__class__(control_points=self.control_points.copy(), degree=self._degree, knots=np.asarray(self._knots).copy())
 
         obj.weights=self.weights
-
+        obj._set_periodic(self._periodic)
 
         return obj
+    def _set_periodic(self, bint val):
+        self._periodic=val
+        self.invalidate_cache()
     def invalidate_cache(self):
         """
         Forget what was computed from the shape the curve had.
-- 
2.43.0


From a7ca9a7def276d3ab2762501b4b9f3d289ce2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 115/200] fix: the derivatives of a weighted NURBSpline
 (tangents, curvature, planes, lengths) take the weights into account

---
 mmcore/geom/curves/_nurbs.pyx | 44 +++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index cd6d201..0b0aa19 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -406,6 +406,26 @@ cdef void projective_to_cartesian_ptr_mem(double* point, double[:] result)  noex
 
 
 
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef void rational_derivs(double[:,:] CKw, double[:,:] CK) noexcept nogil:
+    """
+    The derivatives of a rational curve from those of its homogeneous form (the NURBS Book, A4.2).
+    """
+    cdef int k,i,l
+    cdef double v,binom
+    for k in range(min(CKw.shape[0],CK.shape[0])):
+        for l in range(3):
+            v=CKw[k,l]
+            binom=1.
+            for i in range(1,k+1):
+                binom=binom*(k-i+1)/i
+                v-=binom*CKw[i,3]*CK[k-i,l]
+            CK[k,l]=v/CKw[0,3]
+
+
 cdef class NURBSpline(ParametricCurve):
     cdef public double[:,:] _control_points
     cdef public int _degree
@@ -807,6 +827,18 @@ cdef class NURBSpline(ParametricCurve):
         cdef double[:] result =np.zeros((3,))
         self.cderivative(t,result)
         return np.asarray(result)
+    cdef double[:,:] _homogeneous(self):
+        """
+        The control points with their coordinates multiplied by the weights.
+        """
+        cdef double[:,:] res=self._control_points.copy()
+        cdef int i
+        for i in range(res.shape[0]):
+            res[i,0]*=res[i,3]
+            res[i,1]*=res[i,3]
+            res[i,2]*=res[i,3]
+        return res
+
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     @cython.boundscheck(False)
@@ -822,8 +854,9 @@ cdef class NURBSpline(ParametricCurve):
         cdef int n = len(self._control_points) - 1
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
-        #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-        curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
+        cdef double[:, :] CKw = np.zeros((d + 1, 4))
+        curve_derivs_alg1(n, self._degree, self._knots, self._homogeneous(), t, d, CKw, self._periodic)
+        rational_derivs(CKw, CK)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -840,10 +873,11 @@ cdef class NURBSpline(ParametricCurve):
            cdef int n = len(self._control_points) - 1
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
-           #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
+           cdef double[:, :] CKw = np.zeros((d + 1, 4))
+           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, 4))
 
-           curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
+           curve_derivs_alg2(n, self._degree, self._knots, self._homogeneous(), t, d, CKw, PK,self._periodic)
+           rational_derivs(CKw, CK)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From 2d6632b2884581c7a9ce9b6e153e7acada8ca033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 116/200] fix: NURBSpline.derivative_control_points no longer
 writes four coordinates into rows of three

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 0b0aa19..4abc3eb 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -963,7 +963,7 @@ cdef class NURBSpline(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return np.asarray(PK)
     @cython.cdivision(True)
-- 
2.43.0


From dc28f1f11df676de56ad3e4f8f585bd343a86f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 117/200] fix: splitting and refining a weighted NURBSpline
 keeps its shape (the weights were dropped)

---
 mmcore/geom/curves/knot.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 1ddff5b..c39ba50 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -704,8 +704,8 @@ def nurbs_split(self, t: float) -> tuple:
     for _ in range(0, temp_obj.degree + 1):
         curve2_kv.insert(0, t)
 
-    # Control points (use Pw if rational)
-    cpts = temp_obj.control_points.tolist()
+    # Control points and weights
+    cpts = np.array(temp_obj._control_points).tolist()
     curve1_ctrlpts = cpts[0: ks + r]
     curve2_ctrlpts = cpts[ks + r - 1:]
 
@@ -725,10 +725,14 @@ def nurbs_split(self, t: float) -> tuple:
 
 
 def insert_knot(self, t, num=1):
+    homogeneous = np.array(self._control_points)
+    homogeneous[:, :3] *= homogeneous[:, 3:]
     cpts, knots = knot_insertion(
-        self.degree, self.knots.tolist(), self._control_points, t, num=num
+        self.degree, self.knots.tolist(), homogeneous, t, num=num
     )
-    self.set(control_points=np.array(cpts), knots=np.array(knots))
+    cpts = np.array(cpts)
+    cpts[:, :3] /= cpts[:, 3:]
+    self.set(control_points=cpts, knots=np.array(knots))
     return True
 
 
-- 
2.43.0


From 5ec6bfc4b976b434168176eb3b80b242a8aa5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 118/200] fix: TrimmedCurve.start returns (it called itself),
 the second derivative is the second one

---
 mmcore/geom/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 8205273..620d709 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -377,11 +377,11 @@ class TrimmedCurve(Curve):
         self.curve = curve
         self.trim = start, end
         self.derivative = self.curve.derivative
-        self.second_derivative = self.curve.derivative
+        self.second_derivative = self.curve.second_derivative
 
     @property
     def start(self):
-        return self.start[0]
+        return self.trim[0]
 
     @start.setter
     def start(self, v):
-- 
2.43.0


From 7f0f9bf8b0cb2dd965d1261c9e5ffcd2c3b8c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 119/200] fix: ReparametrizedCurve.circle_of_curvature asks the
 curve (it called itself)

---
 mmcore/geom/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 620d709..a50b4d2 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -571,7 +571,7 @@ class ReparametrizedCurve(Curve):
     def planes_at(self, t):
         return self.curve.planes_at(self.parametrization(t))
     def circle_of_curvature(self, t):
-        return self.circle_of_curvature(self.parametrization(t))
+        return self.curve.circle_of_curvature(float(self.parametrization(t)))
 
 class ArcLengthParameterization(ReparametrizedCurve):
     def __init__(self, curve:Curve):
-- 
2.43.0


From 4fd6baf1c999b2d11409600dd78c11077d051c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 120/200] fix: OffsetCurve.offset returns the offset (it called
 itself), its interval is that of the curve

---
 mmcore/geom/curves/offset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 31ac20c..f705187 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -36,11 +36,14 @@ class OffsetCurve(Curve):
 
     def evaluate(self, t):
         n = np.array(self.curve.plane_at(t))
-        return n[0] + n[2] * self.offset
+        return n[0] + n[2] * self._offset
+
+    def interval(self):
+        return self.curve.interval()
 
     @property
     def offset(self):
-        return self.offset
+        return self._offset
 
     @offset.setter
     def offset(self, v):
-- 
2.43.0


From 2c3311ea5994e2ef222711aee207d348ebb9143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 121/200] fix: NURBSpline.normal no longer writes past its
 buffer (heap corruption)

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 4abc3eb..6ab4707 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -908,7 +908,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From ee6e66a99a78dfc991479f9b023dfb7adc0d5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 122/200] fix: Curve.normal and Curve.plane_at work (they
 passed single vectors to functions of arrays of vectors)

---
 mmcore/numeric/numeric.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 0d25564..8f0f5ee 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -32,15 +32,18 @@ def plane_on_curve(O, T, D2):
         plane_on_curve(O, T, D2)
     """
     # Gram-Schmidt process on T and D2 to obtain orthogonal normal
-    N = unit(gram_schmidt(T, D2))
+    T, D2 = np.asarray(T, dtype=float), np.asarray(D2, dtype=float)
+    N = scalar_unit(D2 - T * scalar_dot(T, D2))
     # Cross product of T and N to obtain the binormal
-    B = cross(T, N)
+    B = scalar_cross(T, N)
     # Return array containing origin, tangent, normal and binormal
     return np.array([O, T, N, B])
 
 
 def normal_at(D1, D2):
-    N = unit(gram_schmidt(unit(D1), D2))
+    D1, D2 = np.asarray(D1, dtype=float), np.asarray(D2, dtype=float)
+    T = scalar_unit(D1)
+    N = scalar_unit(D2 - T * scalar_dot(T, D2))
     return N
 
 
-- 
2.43.0


From 78ad08a51d255b2c870dadc993aa349d78c5159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 123/200] fix: splitting an NURBSpline works (the knots were
 passed as a tuple)

---
 mmcore/geom/curves/knot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index c39ba50..b3f98b3 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -449,7 +449,7 @@ def knot_insertion(degree, knotvector, ctrlpts, u, num=1, **kwargs)->tuple:
     for j in range(1, num + 1):
         L = k - degree + j
         for i in range(0, degree - j - s + 1):
-            alpha = knot_insertion_alpha_py(u, tuple(knotvector), k, i, L)
+            alpha = knot_insertion_alpha_py(u, np.asarray(knotvector, dtype=float), k, i, L)
             if isinstance(temp[i][0], float):
                 temp[i][:] = [alpha * elem2 + (1.0 - alpha) * elem1 for elem1, elem2 in zip(temp[i], temp[i + 1])]
             else:
-- 
2.43.0


From e512c07ec6ae584930e8d122caa8d4b92b5da60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 124/200] fix: the tree of a flat (two-dimensional) curve is
 built

---
 mmcore/geom/curves/curve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index a50b4d2..f83f127 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -470,12 +470,13 @@ def curve_bvh(curve: Curve, bounds=None, count=None):
 
     t = np.linspace(start, end, count + 1)
     ts = np.empty((count, 2))
-    pts = np.empty((count, 2, 3))
+    pts = np.zeros((count, 2, 3))
     res = curve(t)
+    dim = res.shape[-1]
     segments = []
     for i in range(count):
-        pts[i, 0, :] = res[i]
-        pts[i, 1, :] = res[i + 1]
+        pts[i, 0, :dim] = res[i]
+        pts[i, 1, :dim] = res[i + 1]
         ts[i, 0] = t[i]
         ts[i, 1] = t[i + 1]
         segments.append(PSegment(pts[i], ts[i]))
-- 
2.43.0


From 8d84470879eb15af15c38bd705c61b3fde48b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 125/200] fix: Circle2D.point_on_curve gives the parameter of
 the point in the lower half as well

---
 mmcore/geom/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 51df3cd..e6669e9 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -78,7 +78,7 @@ class Circle2D(Curve, Implicit2D):
         N = self._implicit_normal(v)
         nn = np.linalg.norm(N)
         nu = N / nn
-        return v - (nu * (nn - self.r)), np.arccos(nu[0])
+        return v - (nu * (nn - self.r)), np.arctan2(nu[1], nu[0]) % PI2
 
 
 
-- 
2.43.0


From e055fe768c3bb9ac817558e8d7dc1248560c9ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 126/200] fix: an edit of an NURBSpline that fails leaves the
 curve as it was

---
 mmcore/geom/curves/_nurbs.pyx | 53 +++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 6ab4707..882bb9b 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -552,13 +552,10 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._control_points[:,:-1])
     @control_points.setter
     def control_points(self, control_points):
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-            self._control_points[:]=control_points
-        else:
-
-            self._control_points[:, :control_points.shape[1]] = control_points
+        new_control_points = np.ones((control_points.shape[0],4))
+        new_control_points[:, :control_points.shape[1]] = control_points
         self.invalidate_cache()
+        self._control_points = new_control_points
 
 
 
@@ -567,17 +564,15 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._knots)
     @knots.setter
     def knots(self, double[:] v):
-        self._knots=v.copy()
-        self.knots_update_hook()
-        self.invalidate_cache()
+        self._apply(self._control_points, v.copy(), self._periodic)
 
     @property
     def weights(self):
         return np.asarray(self._control_points[:, 3])
     @weights.setter
     def weights(self, double[:] v):
-        self._control_points[:, 3]=v
         self.invalidate_cache()
+        self._control_points[:, 3]=v
 
     @property
     def greville_abscissae(self):
@@ -661,11 +656,8 @@ cdef class NURBSpline(ParametricCurve):
         for i in range(self.degree):
             new_control_points[n + i, :] = self._control_points[i, :]
 
-        self._control_points = new_control_points
-        self.generate_knots_periodic()
-
-        self._periodic=True
-        self.invalidate_cache()
+        cdef double[:] new_knots = np.arange(-self._degree, new_n + 1, dtype=np.float64)
+        self._apply(new_control_points, new_knots, True)
 
 
 
@@ -678,11 +670,14 @@ cdef class NURBSpline(ParametricCurve):
         if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
-        self._control_points = self._control_points[:n, :]  # Trim the extra control points
-        self.generate_knots()  # Generate an open knot vector
-
-        self._periodic = False
-        self.invalidate_cache()
+        # Trim the extra control points and generate an open knot vector
+        cdef double[:] new_knots = np.concatenate((
+            np.zeros(self._degree + 1),
+            np.arange(1, n - self._degree),
+            np.full(self._degree + 1, n - self._degree)
+        ))
+        cdef double[:,:] new_control_points = self._control_points[:n, :].copy()
+        self._apply(new_control_points, new_knots, False)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -760,10 +755,20 @@ cdef class NURBSpline(ParametricCurve):
         cdef double[:,:] new_control_points=np.ones((control_points.shape[0],4))
         new_control_points[:,:control_points.shape[1]]=control_points
         cdef double[:] new_knots=knots.copy()
-        self._control_points=new_control_points
-        self._knots=new_knots
-        self.knots_update_hook()
-        self.invalidate_cache()
+        self._apply(new_control_points, new_knots, self._periodic)
+
+    cdef _apply(self, double[:,:] control_points, double[:] knots, bint periodic):
+        """
+        Take a new shape over: everything that can fail comes first.
+        """
+        cdef double[:] greville=greville_abscissae(knots,self._degree)
+        cdef double[:,:] kept=control_points # a reference of its own: these may be the points of the curve itself
+        self.invalidate_cache() # first: an interruption between the two must not leave what is out of date
+        self._control_points=kept
+        self._knots=knots
+        self._greville_abscissae=greville
+        self._periodic=periodic
+        self._update_interval()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From f8f28c533aceca5e8b5beffe7c72573717d4d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 127/200] fix: a deep copy of a curve answers for itself (its
 lengths were those of the original)

---
 mmcore/geom/curves/curve.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index f83f127..e4df4c8 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import abc
+import copy
 import inspect
 import math
 import operator
@@ -49,6 +50,20 @@ class Curve:
         self._evaluate_cached = lru_cache(maxsize=None)(self.evaluate)
         self._evaluate_length_cached = lru_cache(maxsize=None)(self._evaluate_length)
 
+    def __deepcopy__(self, memo):
+        cls = self.__class__
+        new = memo[id(self)] = cls.__new__(cls)
+        for key, value in self.__dict__.items():
+            if key not in ('_evaluate_cached', '_evaluate_length_cached'):
+                new.__dict__[key] = copy.deepcopy(value, memo)
+        if '_derivatives' in new.__dict__:
+            new._derivatives = [new, new.derivative]
+            new.add_derivative()
+        # what was computed belongs to the curve it was computed for
+        new._evaluate_cached = lru_cache(maxsize=None)(new.evaluate)
+        new._evaluate_length_cached = lru_cache(maxsize=None)(new._evaluate_length)
+        return new
+
     def invalidate_cache(self):
         """
            Invalidates the cache.
@@ -376,8 +391,12 @@ class TrimmedCurve(Curve):
             end = curve.interval()[1]
         self.curve = curve
         self.trim = start, end
-        self.derivative = self.curve.derivative
-        self.second_derivative = self.curve.second_derivative
+
+    def derivative(self, t):
+        return self.curve.derivative(t)
+
+    def second_derivative(self, t):
+        return self.curve.second_derivative(t)
 
     @property
     def start(self):
-- 
2.43.0


From 6c120622224beec6203daa134a57ef39a7d3a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 128/200] fix: a compiled curve is evaluated at an array of one
 parameter (it raised) or of none (it wrote past the result)

---
 mmcore/geom/parametric.pyx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 28805f1..728bcee 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -290,13 +290,12 @@ cdef class ParametricCurve:
 
         if res is None:  
             res=np.zeros((l,3))
-        if l>1:
+        if isinstance(t,(float,int)):
+            self.cevaluate(t,res[0])
+        else:
             for i in range(l):
                 self.cevaluate(t[i],res[i])
-            return res
-        else:
-            self.cevaluate(t,res[0])
-            return res
+        return res
         
 
 cdef class ReparametrizedCurve(ParametricCurve):
-- 
2.43.0


From 6e29b1d8e1b4166f633473f26f212ab17b49c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 129/200] fix: a reparametrised spline can be called with one
 parameter

---
 mmcore/geom/curves/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index e4df4c8..e6e0cac 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -582,7 +582,8 @@ class ReparametrizedCurve(Curve):
     def second_derivative(self, t):
         return self.curve.second_derivative(self.parametrization(t))
     def evaluate_multi(self, t):
-
+        if np.ndim(t) == 0:
+            return self.evaluate(t)
         return self.curve.evaluate_multi(self.parametrization(t))
     def curvature(self, t):
         return self.curve.curvature(self.parametrization(t))
-- 
2.43.0


From fc1d34e3c3adbc4e8240a76624f6ee384b410feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 130/200] fix: the products of arrays of vectors and matrices
 start from zero (they added to what memory held)

---
 mmcore/numeric/vectors.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index c057da1..487d5a5 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -45,7 +45,7 @@ cpdef dot_array_x_array(double[:,:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[1]):
             item += vec_a[i, j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -62,6 +62,7 @@ cpdef matmul_array(double[:,:,:] vec_a, double[:,:,:] vec_b):
     for w in range(l):
         for i in range(rows_A):
             for j in range(cols_B):
+                result[w,i,j] = 0.0
                 for k in range(cols_A):
                     result[w,i,j] += vec_a[w,i,k] * vec_b[w,k,j]
 
@@ -78,7 +79,7 @@ cpdef dot_vec_x_array(double[:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[0]):
             item += vec_a[j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -91,7 +92,7 @@ cpdef dot_array_x_vec(double[:,:]vec_a, double[:]vec_b):
         item = 0.0
         for j in range(vec_b.shape[0]):
             item += vec_a[i, j] * vec_b[j]
-        res[i] += item
+        res[i] = item
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From 69cf315691ea7d2ccc7b8b38fcbacfc939d13cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 131/200] fix: gram_schmidt of arrays of vectors computes each
 component (it read past the row)

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 487d5a5..7e27729 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -256,7 +256,7 @@ cpdef gram_schmidt(double[:,:]vec_a,
         for j in range(vec_a.shape[1]):
             item_dot += vec_b[i, j] * vec_a[i, j]
         for k in range(vec_a.shape[1]):
-            res[i, k] = vec_b[i, j] - (vec_a[i, j] * item_dot)
+            res[i, k] = vec_b[i, k] - (vec_a[i, k] * item_dot)
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From 0b239a017e674fad37b8d4c595187d954ee408d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 132/200] fix: courtesan_to_cylindrical is the inverse of
 cylindrical_to_xyz (it gave the radius and angle of the sphere)

---
 mmcore/numeric/vectors.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 7e27729..8af9364 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -308,8 +308,8 @@ cpdef courtesan_to_cylindrical(double[:,:]xyz):
     cdef int i
     for i in range(xyz.shape[0]):
         XsqPlusYsq = xyz[i, 0] ** 2 + xyz[i, 1] ** 2
-        pts[i, 0] = sqrt(XsqPlusYsq + xyz[i, 2] ** 2)
-        pts[i, 1] = atan2(sqrt(XsqPlusYsq), xyz[i, 2])
+        pts[i, 0] = sqrt(XsqPlusYsq)
+        pts[i, 1] = atan2(xyz[i, 1], xyz[i, 0])
         pts[i, 2] = xyz[i, 2]
     return pts
 @cython.boundscheck(False)
-- 
2.43.0


From cd7398cd896a5321f546e51597e073fe39c3fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 133/200] fix: vectors.closest_point_on_ray and
 closest_point_on_line give the point (the start was left out)

---
 mmcore/numeric/vectors.pyx | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 8af9364..ce30784 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -448,23 +448,19 @@ cpdef closest_point_on_ray( double[:] start, double[:] direction,  double[:] poi
     a[1] = point[1] - start[1]
     a[2] = point[2] - start[2]
 
-    res[0]=a[0]*direction[0]*direction[0]/directionn + a[1]*direction[0]*direction[1]/directionn + a[2]*direction[0]*direction[2]/directionn
-    res[1]=a[0]*direction[0]*direction[1]/directionn + a[1]*direction[1]*direction[1]/directionn + a[2]*direction[1]*direction[2]/directionn
-    res[2]=a[0]*direction[0]*direction[2]/directionn + a[1]*direction[1]*direction[2]/directionn + a[2]*direction[2]*direction[2]/directionn
+    res[0]=start[0] + a[0]*direction[0]*direction[0]/directionn + a[1]*direction[0]*direction[1]/directionn + a[2]*direction[0]*direction[2]/directionn
+    res[1]=start[1] + a[0]*direction[0]*direction[1]/directionn + a[1]*direction[1]*direction[1]/directionn + a[2]*direction[1]*direction[2]/directionn
+    res[2]=start[2] + a[0]*direction[0]*direction[2]/directionn + a[1]*direction[1]*direction[2]/directionn + a[2]*direction[2]*direction[2]/directionn
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
 cpdef closest_point_on_line(double[:] start,double[:] end, double[:] point):
     cdef double [:] direction=np.empty((3,))
-    cdef double [:] p=np.empty((3,))
     direction[0] = end[0] - start[0]
     direction[1] = end[1] - start[1]
     direction[2] = end[2] - start[2]
-    p[0] = point[0] - start[0]
-    p[1] = point[1] - start[1]
-    p[2] = point[2] - start[2]
-    return vector_projection(p, direction)
+    return closest_point_on_ray(start, direction, point)
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-- 
2.43.0


From 84b3d4cad8bbabc34816f177f1c81d94f1577129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 134/200] fix: inverting an array of jacobians works (it
 raised)

---
 mmcore/numeric/vectors.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index ce30784..6134ec1 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -413,6 +413,7 @@ cpdef void cinvert_jacobian_vec(double[:,:,:] J, double[:,:,:] J_inv, int[:] sta
 cpdef invert_jacobian(J):
     cdef double[:,:] J_inv_m
     cdef double[:,:, :] J_inv
+    cdef double[:,:, :] J_mem
     cdef int[:] status
     cdef int status_m
     if J.ndim==2:
@@ -422,9 +423,10 @@ cpdef invert_jacobian(J):
 
     else:
         J_inv = np.empty((J.shape[0], 2, 2))
-        status=np.empty((J.shape[0], 2, 2), dtype=np.intc)
+        status=np.empty((J.shape[0],), dtype=np.intc)
+        J_mem=J
         with nogil:
-            cinvert_jacobian_vec(J, J_inv,  status)
+            cinvert_jacobian_vec(J_mem, J_inv,  status)
         return J_inv, status
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From e0fcd7c5dde88204db7b86a4c2962f19fcd1cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 135/200] fix: intersecting planes picks the largest pivot (a
 bisection could pick a zero: parallel to the axes gave nan)

---
 mmcore/numeric/plane/cplane.pyx | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index c19641f..eb1a9de 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -12,15 +12,11 @@ cnp.import_array()
 @cython.initializedcheck(False)
 cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int r
+
+    for r in range(i + 1, n):
+        if fabs(m[r][i]) > fabs(m[l][i]):
+            l = r
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -28,15 +24,11 @@ cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
 @cython.initializedcheck(False)
 cdef inline int find_max_row_3x3(double[3][3] m, int i, int n) noexcept nogil:
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int r
+
+    for r in range(i + 1, n):
+        if fabs(m[r][i]) > fabs(m[l][i]):
+            l = r
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From c90e4460a7caf87f62ff20a2d1562d68f6d54137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 136/200] fix: planes_planes_intersect returns its result

---
 mmcore/numeric/plane/cplane.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index eb1a9de..7d7abf2 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -324,6 +324,7 @@ cpdef double[:,:,:] planes_planes_intersect(double[:,:,:] planes1, double[:,:,:]
         raise ValueError("planes1 and planes2 length should be equal!")
 
     cplanes_planes_intersect(planes1,planes2,result)
+    return result
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 435209baa1794ac4eb456606bc9d490b6d105574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 137/200] fix: plane_ray_intersection takes a plane given by
 its origin and normal, as documented

---
 mmcore/numeric/plane/__init__.py | 1 +
 mmcore/numeric/plane/cplane.pyx  | 4 +---
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 07ac6ee..0efd084 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -200,6 +200,7 @@ def plane_ray_intersection(plane, ray):
     :param ray: A ray represented by a origin and a direction
     :return: intersection point
     """
+    pln=plane
     if plane.shape[0]==4:
 
         pln=np.zeros((2,3))
diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index 7d7abf2..29ad095 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -418,8 +418,6 @@ def plane_plane_intersection(a, b, result=None):
     cdef bint b_reshaped = False
     cdef tuple a_new_shape = a_initial_shape
     cdef tuple b_new_shape = b_initial_shape
-    cdef cnp.ndarray[double, ndim=1] a_flt
-    cdef cnp.ndarray[double, ndim=1] b_flt
 
     if len(a.shape) > 3:
         a_flt = a.flatten()
@@ -431,7 +429,7 @@ def plane_plane_intersection(a, b, result=None):
     if len(b.shape) > 3:
         b_flt = b.flatten()
         b_new_shape=int(len(b_flt)//12),4,3
-        b=a_flt.reshape( b_new_shape)
+        b=b_flt.reshape( b_new_shape)
         b_reshaped = True
         if (result is not None) and (not a_reshaped):
             result.reshape((b_new_shape[0],2,3))
-- 
2.43.0


From f9fd84f1696afda5ca5bb65818ad6b75f8bbd124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 138/200] fix: plane_from_eq gives a point of the plane

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 0efd084..91ad63a 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -105,7 +105,7 @@ def plane_from_eq(plane_eq):
     # Normal vector to the plane
     n = np.array([a, b, c])
     N = scalar_unit(n)
-    origin = N*d
+    origin = n*(-d/norm_sq(n))
     # Generate a vector on the plane
     return origin,N
 
-- 
2.43.0


From 58c96ffca8f3dd7cf7ac748df5df32b4cd057540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 139/200] fix: vec.dot and what is built on it work (NameError)

---
 mmcore/geom/vec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index d911247..7149c72 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -160,7 +160,7 @@ def dot(a, b):
     :return: The dot product of `a` and `b`.
     :rtype: numpy.ndarray[Any, numpy.dtype[float]]
     """
-    return scalar_dot(a, b)
+    return vectors.scalar_dot(a, b)
 
 def perp2d(v):
     """
-- 
2.43.0


From f02e84f6661a364947d7bdb30defc3682c97fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 140/200] fix: the angle between unit vectors along one line
 does not fail by rounding

---
 mmcore/geom/vec/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 7149c72..09dfb3c 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -58,10 +58,10 @@ def angle(a, b):
             raise ValueError("Both input vectors must be normalized.")
 
     cos_angle = np.dot(a, b)
-    if cos_angle < -1 or cos_angle > 1:
+    if cos_angle < -1 - 1e-9 or cos_angle > 1 + 1e-9:
         raise ValueError("Dot product must be in the range [-1, 1]. Please check your input vectors.")
 
-    return np.arccos(np.dot(a, b))
+    return np.arccos(np.clip(cos_angle, -1, 1))
 
 
 
-- 
2.43.0


From dd774b5e8f43f13779c5f3577531084a89502ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 141/200] fix: orthonormalize leaves the caller's vectors alone

---
 mmcore/geom/vec/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 09dfb3c..ece5272 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -301,21 +301,21 @@ Out:
  array([-0.00107956, -0.21301218, -0.97704895]))
     """
     u = u / np.linalg.norm(u)  # Ensure u is a unit vector
-    v -= u * np.dot(u, v)  # Make v orthogonal to u
+    v = v - u * np.dot(u, v)  # Make v orthogonal to u
 
     # Re-normalize v in case it's very close to zero
     if (np.linalg.norm(v) > 1e-10):
-        v /= np.linalg.norm(v)
+        v = v / np.linalg.norm(v)
     else:
         raise ValueError('Vectors u and v are parallel')
 
     # w vector
-    w -= u * np.dot(u, w)
-    w -= v * np.dot(v, w)
+    w = w - u * np.dot(u, w)
+    w = w - v * np.dot(v, w)
 
     # Re-normalize w
     if (np.linalg.norm(w) > 1e-10):
-        w /= np.linalg.norm(w)
+        w = w / np.linalg.norm(w)
     else:
         raise ValueError('Vector w is in the plane of vectors u and v')
 
-- 
2.43.0


From f6c98c83a0f5f9383275d31d8515c5e1e8d51984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 142/200] fix: plane_plane_intersection pairs the planes it is
 given (shapes of more dimensions lost the second planes, different lengths
 were read out of bounds)

---
 mmcore/numeric/plane/cplane.pyx | 64 ++++++++++++---------------------
 1 file changed, 22 insertions(+), 42 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index 29ad095..663833c 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -412,53 +412,33 @@ cpdef double[:] plane_plane_plane_intersect_points_and_normals(double[:] pt1, do
 @cython.boundscheck(False)
 @cython.wraparound(False)
 def plane_plane_intersection(a, b, result=None):
-    cdef tuple a_initial_shape = a.shape
-    cdef tuple  b_initial_shape = b.shape
-    cdef bint a_reshaped=False
-    cdef bint b_reshaped = False
-    cdef tuple a_new_shape = a_initial_shape
-    cdef tuple b_new_shape = b_initial_shape
-
+    cdef tuple shape = (a.shape if len(a.shape) > len(b.shape) else b.shape)[:-2]
+    out = None
     if len(a.shape) > 3:
-        a_flt = a.flatten()
-        a_new_shape=int(len(a_flt)//12),4,3
-        a=a_flt.reshape( a_new_shape)
-        a_reshaped = True
-        if result is not None:
-            result.reshape((b_new_shape[0], 2, 3))
+        a = a.reshape((-1, 4, 3))
     if len(b.shape) > 3:
-        b_flt = b.flatten()
-        b_new_shape=int(len(b_flt)//12),4,3
-        b=b_flt.reshape( b_new_shape)
-        b_reshaped = True
-        if (result is not None) and (not a_reshaped):
-            result.reshape((b_new_shape[0],2,3))
-
-    if len(a.shape)==3 and len(b.shape)==3:
-        if result is None:
-            result = np.empty((len(a),2,3))
-
-        cplanes_planes_intersect(a, b, result)
-    elif len(a.shape) == 3 and len(b.shape)==2:
-        if result is None:
-            result = np.empty((len(a), 2, 3))
-
-        cplanes_plane_intersect(a, b,result)
-    elif len(b.shape) == 3 and len(a.shape) == 2:
-        if result is None:
-            result = np.empty((len(b), 2, 3))
-        cplanes_plane_intersect( b,a,result)
-    elif len(a.shape)==2 and len(b.shape)==2:
-        if result is None:
-            result = np.empty(( 2, 3))
-        cplane_plane_intersect(a,b,result)
-    else:
+        b = b.reshape((-1, 4, 3))
+    if len(a.shape) < 2 or len(b.shape) < 2 or a.shape[len(a.shape)-2:] != (4, 3) or b.shape[len(b.shape)-2:] != (4, 3):
         raise ValueError("The arguments are totally incorrect!")
-    if a_reshaped or b_reshaped:
+    if len(a.shape)==3 and len(b.shape)==3 and len(a) != len(b):
+        raise ValueError("a and b length should be equal!")
+    if result is None:
+        result = np.empty((*shape, 2, 3))
+    elif result.shape != (*shape, 2, 3):
+        raise ValueError("The result should be of shape {}!".format((*shape, 2, 3)))
+    out = result.reshape((-1, 2, 3)) if len(result.shape) > 3 else result
 
-        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(a_initial_shape)-2)]),2,3))
+    if len(a.shape)==3 and len(b.shape)==3:
+        cplanes_planes_intersect(a, b, out)
+    elif len(a.shape) == 3:
+        cplanes_plane_intersect(a, b, out)
+    elif len(b.shape) == 3:
+        cplanes_plane_intersect(b, a, out)
     else:
-        return result
+        cplane_plane_intersect(a, b, out)
+    if len(result.shape) > 3:
+        result[:] = out.reshape(result.shape)
+    return result
 
 
 
-- 
2.43.0


From 2130f44cd28e8217a75328046ae5eab8780ffcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 143/200] fix: vectors.scalar_dot takes read-only vectors
 (evaluate_curvature_vec, which is handed them, raised for every array)

---
 mmcore/numeric/vectors.pxd | 2 +-
 mmcore/numeric/vectors.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pxd b/mmcore/numeric/vectors.pxd
index f0a4703..6b560d2 100644
--- a/mmcore/numeric/vectors.pxd
+++ b/mmcore/numeric/vectors.pxd
@@ -15,7 +15,7 @@ cpdef dot(double[:,:] vec_a, double[:,:] vec_b)
 
 
 
-cpdef double scalar_dot(double[:] vec_a,double[:] vec_b) noexcept nogil
+cpdef double scalar_dot(const double[:] vec_a, const double[:] vec_b) noexcept nogil
 
 
 cpdef scalar_norm(double[:] vec)
diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 6134ec1..799b7c5 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -113,7 +113,7 @@ cpdef dot(double[:,:]vec_a, double[:,:]vec_b):
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-cpdef double scalar_dot(double[:] vec_a, double[:]  vec_b) noexcept nogil:
+cpdef double scalar_dot(const double[:] vec_a, const double[:] vec_b) noexcept nogil:
     cdef double res = 0.0
     cdef int  j
     for j in range(vec_a.shape[0]):
-- 
2.43.0


From d4f72b9d3cb357f016137e79796677988020a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 144/200] fix: calgorithms.evaluate_curvature zeroes the
 curvature where there is none (the output array was left as it was)

---
 mmcore/numeric/calgorithms.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/calgorithms.pyx b/mmcore/numeric/calgorithms.pyx
index 2463119..19d2f26 100644
--- a/mmcore/numeric/calgorithms.pyx
+++ b/mmcore/numeric/calgorithms.pyx
@@ -113,6 +113,8 @@ cpdef bint evaluate_curvature(
                 unit_tangent_vector[i] = 0.0
 
         # Set curvature vector to zero, we will not recalculate
+        for i in range(n):
+            curvature_vector[i] = 0.0
         recalculate_condition = False
     else:
         for i in range(n):
-- 
2.43.0


From c215ab29670d2676da8a83814f2a1113b32b49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 145/200] fix: decomposing over parallel vectors answers NaN
 (it handed out whatever memory held)

---
 mmcore/numeric/vectors.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 799b7c5..7c8adf8 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -5,7 +5,7 @@ cimport mmcore.numeric.vectors
 import numpy as np
 cimport numpy as np
 
-from libc.math cimport fabs, sqrt,fmin,fmax,pow
+from libc.math cimport fabs, sqrt,fmin,fmax,pow,NAN
 
 cdef extern from "math.h":
     long double sin(long double u)nogil
@@ -711,7 +711,9 @@ cpdef decompose_vector(double [:] v,double [:] a, double [:] b):
     A[1, 1] =   scalar_dot(b, b)
     y[0] = scalar_dot(a, v)
     y[1] = scalar_dot(b,v)
-    solve2x2(A,y,xy)
+    if not solve2x2(A,y,xy):
+        xy[0] = NAN
+        xy[1] = NAN
     return xy
 
 @cython.boundscheck(False)
@@ -733,7 +735,9 @@ cpdef decompose_vectors(double[:,:] v, double[:] a, double[:] b, double[:,:] res
             A[1, 1] =  _dot_inl(b, b)
             y[0] = _dot_inl(a, v[i])
             y[1] = _dot_inl(b, v[i])
-            solve2x2(A, y, result[i])
+            if not solve2x2(A, y, result[i]):
+                result[i, 0] = NAN
+                result[i, 1] = NAN
     return result
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 63e6efaec95f571231bca03499999a96bdd9dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 146/200] fix: romberg1d is not settled by a single agreement
 (a length could be off by any amount where five places of the curve happened
 to agree with three)

---
 mmcore/numeric/integrate/romberg.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/integrate/romberg.pyx b/mmcore/numeric/integrate/romberg.pyx
index adf55d4..5b1809f 100644
--- a/mmcore/numeric/integrate/romberg.pyx
+++ b/mmcore/numeric/integrate/romberg.pyx
@@ -28,6 +28,7 @@ cpdef double romberg1d(fun, double a, double b, int max_steps=16, double acc=1e-
   cdef double[:] Rc
   cdef double h, c,n_k;
   cdef int i,j,ep;
+  cdef bint agreed = 0
   cdef double[:] R1
   cdef double[:] R2
 
@@ -58,9 +59,13 @@ cpdef double romberg1d(fun, double a, double b, int max_steps=16, double acc=1e-
       # Print ith row of R, R[i,i] is the best estimate so far
 
 
+      # a single agreement may be a coincidence of the few places seen so far
       if i > 1 and abs(Rp[i - 1] - Rc[i]) < acc:
-
-        return Rc[i]
+        if agreed:
+          return Rc[i]
+        agreed = 1
+      else:
+        agreed = 0
 
       # Swap Rn and Rc for next iteration
 
-- 
2.43.0


From bd12835b8054e411123655cb7179867566cdfeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 147/200] fix: a ruled surface follows its curves (domains that
 do not start at 0, chain rule in its derivatives, knots that were edited,
 compiled curves)

---
 mmcore/geom/surfaces/__init__.py | 40 +++++++++++++++++---------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index ffd1e21..084bc53 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -450,38 +450,40 @@ class Ruled(Surface):
     def __init__(self, c1: Curve, c2: Curve):
         super().__init__()
         self.c1, self.c2 = c1, c2
-        self._intervals = np.array([np.array(c1.interval()), np.array(c2.interval())])
-        self._remap_u = scalar_dot(np.array((0., 1.)), self._intervals[0])
-        self._remap_v = scalar_dot(np.array((0., 1.)), self._intervals[1])
-        self._remap_uv = np.array([self._remap_u, self._remap_v])
+
+    def _spans(self):
+        """The domains of both curves: where they start and how wide they are."""
+        (a0, a1), (b0, b1) = self.c1.interval(), self.c2.interval()
+        return a0, a1 - a0, b0, b1 - b0
+
+    def _remap_param(self, t):
+        a, wa, b, wb = self._spans()
+        return np.array([a + wa * t, b + wb * t])
 
     def derivative_v(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-        return self.c2.evaluate(uc1uc2[1]) - np.array(self.c1.evaluate(uc1uc2[0]))
+        t1, t2 = self._remap_param(uv[0])
+        return np.asarray(self.c2.evaluate(t2)) - np.asarray(self.c1.evaluate(t1))
 
     def derivative_u(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-        return uv[1] * self.c2.derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.derivative(uc1uc2[0])
+        a, wa, b, wb = self._spans()
+        u, v = uv[0], uv[1]
+        return (v * wb) * np.asarray(self.c2.derivative(b + wb * u)) + ((1. - v) * wa) * np.asarray(self.c1.derivative(a + wa * u))
 
     def second_derivative_uu(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-
-        return uv[1] * self.c2.second_derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.second_derivative(uc1uc2[0])
+        a, wa, b, wb = self._spans()
+        u, v = uv[0], uv[1]
+        return (v * wb ** 2) * np.asarray(self.c2.second_derivative(b + wb * u)) + ((1. - v) * wa ** 2) * np.asarray(
+            self.c1.second_derivative(a + wa * u))
 
     def second_derivative_vv(self, uv):
         return np.zeros(3)
 
-    def _remap_param(self, t):
-        return self._remap_uv * t
-
     def evaluate(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        return self.evaluate_v2(uv[0], uv[1])
 
-        return (1. - uv[1]) * self.c1.evaluate(uc1uc2[0]) + uv[1] * self.c2.evaluate(uc1uc2[1])
     def evaluate_v2(self, u, v):
-        uc1uc2 = self._remap_uv * u
-
-        return (1. - v) * self.c1.evaluate(uc1uc2[0]) + v * self.c2.evaluate(uc1uc2[1])
+        t1, t2 = self._remap_param(u)
+        return (1. - v) * np.asarray(self.c1.evaluate(t1)) + v * np.asarray(self.c2.evaluate(t2))
 
 
 CRuled = parametric.Ruled
-- 
2.43.0


From cdbd71ecd0e7d2329e9ac0d8972e3972d1b4e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 148/200] fix: derivatives of compiled ruled surfaces follow
 the chain rule, and central differences divide by their step

---
 mmcore/geom/parametric.pyx | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 728bcee..308e88c 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -68,9 +68,9 @@ cdef class ParametricCurve:
         t2 = t - DEFAULT_H
         self.cevaluate(t1,v1)
         self.cevaluate(t2,v2)
-        result[0]=(v1[0]- v2[0])*(0.5*DEFAULT_H)
-        result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-        result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+        result[0] = (v1[0] - v2[0]) / (2 * DEFAULT_H)
+        result[1] = (v1[1] - v2[1]) / (2 * DEFAULT_H)
+        result[2] = (v1[2] - v2[2]) / (2 * DEFAULT_H)
 
 
     cpdef double[:] end(self):
@@ -110,9 +110,9 @@ cdef class ParametricCurve:
             t2 = t - DEFAULT_H
             self.cderivative(t1,v1)
             self.cderivative(t2,v2)
-            result[0] = (v1[0] - v2[0]) * (0.5 * DEFAULT_H)
-            result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-            result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+            result[0] = (v1[0] - v2[0]) / (2 * DEFAULT_H)
+            result[1] = (v1[1] - v2[1]) / (2 * DEFAULT_H)
+            result[2] = (v1[2] - v2[2]) / (2 * DEFAULT_H)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
@@ -701,12 +701,13 @@ cdef class Ruled(ParametricSurface):
         cdef double u1 = (u * (self.c0._interval[1] - self.c0._interval[0])) + self.c0._interval[0]
         cdef double u2 = (u * (self.c1._interval[1] - self.c1._interval[0])) + self.c1._interval[0]
         cdef double[:] temp=np.empty(3)
-        cdef double dv=1.-v
+        cdef double dv=(1.-v) * (self.c0._interval[1] - self.c0._interval[0])
+        cdef double vv = v * (self.c1._interval[1] - self.c1._interval[0])
 
         self.c1.cderivative(u2,temp)
-        temp[0]*=v
-        temp[1] *= v
-        temp[2] *= v
+        temp[0] *= vv
+        temp[1] *= vv
+        temp[2] *= vv
         self.c0.cderivative(u1,result)
         result[0]*=dv
         result[1] *= dv
@@ -722,12 +723,13 @@ cdef class Ruled(ParametricSurface):
             cdef double u1 = (u * (self.c0._interval[1] - self.c0._interval[0])) + self.c0._interval[0]
             cdef double u2 = (u * (self.c1._interval[1] - self.c1._interval[0])) + self.c1._interval[0]
             cdef double[:] temp=np.empty(3)
-            cdef double dv=1.-v
+            cdef double dv=(1.-v) * (self.c0._interval[1] - self.c0._interval[0]) ** 2
+            cdef double vv = v * (self.c1._interval[1] - self.c1._interval[0]) ** 2
 
             self.c1.csecond_derivative(u2,temp)
-            temp[0]*=v
-            temp[1] *= v
-            temp[2] *= v
+            temp[0] *= vv
+            temp[1] *= vv
+            temp[2] *= vv
             self.c0.csecond_derivative(u1,result)
             result[0]*=dv
             result[1] *= dv
-- 
2.43.0


From 2956150da70f28a4229042e4d19626041904cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 149/200] fix: a point of a compiled ruled surface needs no
 memory (where none was left, it was whatever memory held)

---
 mmcore/geom/parametric.pyx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 308e88c..0c58dc0 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -669,16 +669,17 @@ cdef class Ruled(ParametricSurface):
     cdef void cevaluate(self, double u,double v, double[:] result) noexcept nogil:
         cdef double u1=(u*(self.c0._interval[1]-self.c0._interval[0]))+self.c0._interval[0]
         cdef double u2=(u*(self.c1._interval[1]-self.c1._interval[0]))+self.c1._interval[0]
-        
-        cdef double[:] temp
-        with gil:
-            temp=np.zeros((3,))
-        self.c0.cevaluate(u1,  temp)
+
+        cdef double x, y, z
+        self.c0.cevaluate(u1, result)
+        x = result[0]
+        y = result[1]
+        z = result[2]
         self.c1.cevaluate(u2, result)
 
-        result[0] = (1. - v) * temp[0] + v * result[0]
-        result[1] = (1. - v) * temp[1] + v * result[1]
-        result[2] = (1. - v) * temp[2] + v * result[2]
+        result[0] = (1. - v) * x + v * result[0]
+        result[1] = (1. - v) * y + v * result[1]
+        result[2] = (1. - v) * z + v * result[2]
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From ed94607361c7e4ed0c37890a661a1fe970f771c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 150/200] fix: compiled surfaces answer plane_at (it raised
 TypeError)

---
 mmcore/geom/parametric.pyx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 0c58dc0..e6c24b8 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -458,12 +458,20 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cplane_at(self, double u, double v, double[:,:] result):
 
-        orig = self.cevaluate(u, v,result[0] )
+        cdef double n
+        self.cevaluate(u, v,result[0] )
         self.cderivative_u(u,v,result[1])
-        result[1,:] = vectors.scalar_unit(result[1])
-        self.cderivative_v(u,v,result[3])
-        result[3,:] = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
-        result[2,:] = vectors.scalar_cross(result[3], result[1])
+        n = vectors.scalar_norm(result[1])
+        result[1, 0] /= n
+        result[1, 1] /= n
+        result[1, 2] /= n
+        self.cderivative_v(u,v,result[2])
+        cross_inl(result[1], result[2], result[3])
+        n = vectors.scalar_norm(result[3])
+        result[3, 0] /= n
+        result[3, 1] /= n
+        result[3, 2] /= n
+        cross_inl(result[3], result[1], result[2])
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From 313b92e755889efc0f8ec549d55b4f0a009f7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 151/200] fix: differences of compiled surfaces know the
 surface's domain (they took every domain for 0 to 1)

---
 mmcore/geom/parametric.pyx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index e6c24b8..7c556c4 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -321,13 +321,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cderivative_u(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= u >= DEFAULT_H:
+        if (self._interval[0][1] - DEFAULT_H) >= u >= (self._interval[0][0] + DEFAULT_H):
             self.cevaluate(u + DEFAULT_H, v, dd)
             self.cevaluate(u- DEFAULT_H , v, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif u < DEFAULT_H:
+        elif u < (self._interval[0][0] + DEFAULT_H):
 
 
             self.cevaluate(u + DEFAULT_H, v, dd)
@@ -347,13 +347,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cderivative_v(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
+        if (self._interval[1][1] - DEFAULT_H) >= v >= (self._interval[1][0] + DEFAULT_H):
             self.cevaluate(u , v+ DEFAULT_H, dd)
             self.cevaluate(u , v- DEFAULT_H, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif v< DEFAULT_H:
+        elif v < (self._interval[1][0] + DEFAULT_H):
 
 
             self.cevaluate(u , v+ DEFAULT_H, dd)
@@ -374,13 +374,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void csecond_derivative_uu(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= u >= DEFAULT_H:
+        if (self._interval[0][1] - DEFAULT_H) >= u >= (self._interval[0][0] + DEFAULT_H):
             self.cderivative_u(u + DEFAULT_H, v, dd)
             self.cderivative_u(u- DEFAULT_H , v, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif u < DEFAULT_H:
+        elif u < (self._interval[0][0] + DEFAULT_H):
 
 
             self.cderivative_u(u + DEFAULT_H, v, dd)
@@ -400,13 +400,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void csecond_derivative_vv(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
+        if (self._interval[1][1] - DEFAULT_H) >= v >= (self._interval[1][0] + DEFAULT_H):
             self.cderivative_v(u , v+ DEFAULT_H, dd)
             self.cderivative_v(u , v- DEFAULT_H, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif v< DEFAULT_H:
+        elif v < (self._interval[1][0] + DEFAULT_H):
 
 
             self.cderivative_v(u , v+ DEFAULT_H, dd)
@@ -427,13 +427,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void csecond_derivative_uv(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
+        if (self._interval[1][1] - DEFAULT_H) >= v >= (self._interval[1][0] + DEFAULT_H):
             self.cderivative_u(u , v+ DEFAULT_H, dd)
             self.cderivative_u(u , v- DEFAULT_H, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif v< DEFAULT_H:
+        elif v < (self._interval[1][0] + DEFAULT_H):
 
 
             self.cderivative_u(u , v+ DEFAULT_H, dd)
-- 
2.43.0


From c3d75da5e942809257126c90a871a29531f1d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 152/200] fix: a Coons patch follows its curves (points and
 corners were remembered, handed out to be written to, and shared with deep
 copies)

---
 mmcore/geom/surfaces/__init__.py | 33 ++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 084bc53..3a7d6b7 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 import itertools
 import math
-from functools import lru_cache
 from typing import Callable, Optional
 
 import numpy as np
@@ -563,11 +562,6 @@ class Coons(Surface):
         super().__init__()
         self.c1, self.c2 = c1, c2
         self.d1, self.d2 = d1, d2
-        self.pt0 = np.array(c1.evaluate(c1.interval()[0]))
-        self.pt1 = np.array(c1.evaluate(c1.interval()[1]))
-        self.pt2 = np.array(c2.evaluate(c2.interval()[1]))
-        self.pt3 = np.array(d2.evaluate(d2.interval()[1]))
-
         #self.xu0, self.xu1, self.x0v, self.x1v = _bl(c1, c2, d1, d2)
         if isinstance(self.c1, ParametricCurve) and isinstance(self.c2, ParametricCurve):
             self._rc = CRuled(self.c1, self.c2)
@@ -584,18 +578,29 @@ class Coons(Surface):
             self._rd = PyRuled(self.d2, self.d1)
         #self._rc, self._rd = Ruled(self.c1, self.c2), Ruled(self.d2, self.d1)
 
-        self._rcd = CBiLinear(self.pt0, self.pt1, self.pt2, self.pt3)
-        self._cached_eval = lru_cache(maxsize=None)(self.evaluate_v2)
+    @property
+    def pt0(self):
+        return np.array(self.c1.evaluate(self.c1.interval()[0]))
 
-        #self._uv = np.array([0., 0.])
+    @property
+    def pt1(self):
+        return np.array(self.c1.evaluate(self.c1.interval()[1]))
 
-    def evaluate(self, uv):
-        #self.counter.__next__()
+    @property
+    def pt2(self):
+        return np.array(self.c2.evaluate(self.c2.interval()[1]))
 
-        #print(f'{self}.evaluate({uv})')
-        #return self._rc.evaluate(uv) + self._rd.evaluate(uv[::-1]) - self._rcd.evaluate(uv)
+    @property
+    def pt3(self):
+        return np.array(self.d2.evaluate(self.d2.interval()[1]))
+
+    @property
+    def _rcd(self):
+        """The bilinear surface over the corners the curves have now."""
+        return CBiLinear(self.pt0, self.pt1, self.pt2, self.pt3)
 
-        return self._cached_eval(*uv)
+    def evaluate(self, uv):
+        return self.evaluate_v2(uv[0], uv[1])
     def evaluate_v2(self, u, v):
 
         return self._rc.evaluate_v2(u,v) + self._rd.evaluate_v2(v,u) - self._rcd.evaluate_v2(u,v)
-- 
2.43.0


From c84ab6b1bbe2283ddd6aafa382fddcd4235c08f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 153/200] fix: the second axis of a surface's plane is a unit
 vector

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 3a7d6b7..a976126 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -263,7 +263,7 @@ class Surface:
         arr[1] /= scalar_norm(arr[1])
         arr[2] /= scalar_norm(arr[2])
         arr[2]-= arr[1]*scalar_dot(arr[2],arr[1])
-
+        arr[2] /= scalar_norm(arr[2])
 
         #n = scalar_cross(arr[0],    arr[1])
 
-- 
2.43.0


From 09fd44d0f4f5c0dc7087a56387930c8704197a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 154/200] fix: isocurves and isolines span the surface's domain
 (defaults mixed up the ends of u and v)

---
 mmcore/geom/surfaces/__init__.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index a976126..e2613f0 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -278,33 +278,33 @@ class Surface:
         #return np.array([self.evaluate(uv),*arr,n])
         return arr
     def isocurve_u(self, u0: float, u1: float):
-        return self.isocurve(u0, 0.0, u1, 1.0)
+        (_, _), (vmin, vmax) = self.interval()
+        return self.isocurve(u0, vmin, u1, vmax)
 
     def isocurve_v(self, v0: float, v1: float):
-        return self.isocurve(0.0, v0, 1.0, v1)
+        (umin, umax), (_, _) = self.interval()
+        return self.isocurve(umin, v0, umax, v1)
 
     def isoline_u(self, u: float):
         orig = np.array([u, 0.])
         direction = np.array([0., 1.])
         crv = lambda t: orig + direction * t
-        return CurveOnSurface(self, crv)
+        return CurveOnSurface(self, crv, interval=tuple(self.interval()[1]))
 
     def isoline_v(self, v: float):
         orig = np.array([0., v])
         direction = np.array([1., 0.])
         crv = lambda t: orig + direction * t
-        return CurveOnSurface(self, crv)
+        return CurveOnSurface(self, crv, interval=tuple(self.interval()[0]))
 
     def interval(self):
         return (0.0, 1.0), (0.0, 1.0)
 
-    def isocurve(self, u0=-1.0, v0=-1.0, u1=-1.0, v1=-1.0):
-        start, end = self.interval()
-        kfc = list((*start, *end))
+    def isocurve(self, u0=None, v0=None, u1=None, v1=None):
+        (umin, umax), (vmin, vmax) = self.interval()
+        kfc = [umin, vmin, umax, vmax]
         for i, val in enumerate((u0, v0, u1, v1)):
-            if val < min(start):
-                continue
-            else:
+            if val is not None and val >= (umin, vmin)[i % 2]:
                 kfc[i] = val
 
         origin = np.array(kfc[:2])
-- 
2.43.0


From 77bb75fc9eba935ba8ecb3ec5c2222d38309860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 155/200] fix: the boundary of a surface follows its domain

---
 mmcore/geom/surfaces/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index e2613f0..c30ea3f 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -174,8 +174,7 @@ class Surface:
         return self._evaluate_multi(uv)
     def build_boundary(self):
 
-        u0, u1 = self._interval[0]
-        v0, v1 = self._interval[1]
+        (u0, u1), (v0, v1) = self.interval()
         boundary_curve = NURBSpline(np.array([[u0, v0, 0.], [u1, v0, 0.], [u1, v1, 0.], [u0, v1, 0.], [u0, v0, 0.]]),
                                     degree=1)
 
-- 
2.43.0


From 42366220bc20fbadd7ba7e6096bd57aed52f629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 156/200] fix: a cylinder can be copied and pickled

---
 mmcore/geom/primitives.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index e7cf91a..2fb94d5 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -422,6 +422,9 @@ cdef class Cylinder(ParametricSurface):
         self._radius = val
         self._implicit_prim.radius = val
 
+    def __reduce__(self):
+        return self.__class__, (np.array(self._start), np.array(self._end), self._radius)
+
     def _calculate_frame(self):
         self.direction =np.zeros(3)
         # Calculate direction vector D and its normalized form D_hat
-- 
2.43.0


From c571320926f9a28a736c864c609a4321e17548c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 157/200] fix: the normal of a curve on a surface (it raised
 TypeError)

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index c30ea3f..dd3cca6 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -134,7 +134,7 @@ class CurveOnSurface(Curve):
 
     def normal(self, t):
         uv = self.evaluate_curve(t)
-        return np.array(scalar_cross(*scalar_unit([self.surf.normal(uv), self.tangent(t)])))
+        return np.array(scalar_cross(scalar_unit(self.surf.normal(uv)), scalar_unit(self.tangent(t))))
 
     def evaluate(self, t: float):
         return self.surf.evaluate(self.evaluate_curve(t))
-- 
2.43.0


From 6bba4f709727eadc43524cd710adc6659cfeaa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 158/200] fix: in-place arithmetic keeps the vector (v += w
 left None in v)

---
 mmcore/api/_base_vectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index d77e1b5..3d199d3 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -32,6 +32,7 @@ class BaseVector(Base):
             self._array += other._array
         else:
             self._array += other
+        return self
 
     def __mul__(self, other: SupportVector):
         if isinstance(other, self.__class__):
@@ -44,6 +45,7 @@ class BaseVector(Base):
             self._array *= other._array
         else:
             self._array *= other
+        return self
 
     def __sub__(self, other: SupportVector):
         if isinstance(other, self.__class__):
@@ -56,6 +58,7 @@ class BaseVector(Base):
             self._array -= other._array
         else:
             self._array -= other
+        return self
 
     def __eq__(self, other: V):
         return np.allclose(self._array, other._array)
-- 
2.43.0


From 68b39e8094d462be5819aae51ba5c68b257f8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 159/200] fix: a vector can be compared with anything (it
 raised for what is not a vector of its dimension)

---
 mmcore/api/_base_vectors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index 3d199d3..1b063d9 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -61,7 +61,11 @@ class BaseVector(Base):
         return self
 
     def __eq__(self, other: V):
-        return np.allclose(self._array, other._array)
+        if not isinstance(other, BaseVector):
+            return NotImplemented
+        if other._array.shape != self._array.shape:
+            return False
+        return bool(np.allclose(self._array, other._array))
 
     def __array__(self, dtype=float):
         return np.array(self._array, dtype=dtype)
-- 
2.43.0


From d85d14a6c1b79ca1056fb8910cf7b4077f6e8eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 160/200] fix: angles, parallels and lengths of API vectors
 that are not of unit length (they raised or were wrong)

---
 mmcore/api/_base_vectors.py | 6 +++---
 mmcore/api/vectors.py       | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index 1b063d9..835121e 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -92,7 +92,7 @@ class BaseVector(Base):
         vector : The vector to measure the angle to.
         The angle in radians between this vector and the specified vector.
         """
-        return angle(self._array, vector._array)
+        return angle(unit(self._array), unit(vector._array))
 
     def is_equal(self, vector: Type[Self]) -> bool:
         """
@@ -142,7 +142,7 @@ class BaseVector(Base):
         vector : The vector to test parallelism to.
         Returns true if the vectors are parallel.
         """
-        return np.isclose(abs(self.dot(vector)), 1.0)
+        return bool(np.isclose(abs(self.dot(vector)), self.length * vector.length))
 
     def is_perpendicular(self, vector: Type[Self]) -> bool:
         """
@@ -150,7 +150,7 @@ class BaseVector(Base):
         vector : The vector to test perpendicularity to.
         Returns true if the vectors are perpendicular.
         """
-        return np.isclose(self.dot(vector), 0.0)
+        return bool(abs(self.dot(vector)) <= 1e-8 * self.length * vector.length)
 
     def set_with_array(self, coordinates: list[float]) -> bool:
         """
diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index a405c84..e512cdb 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -6,7 +6,7 @@ from scipy.spatial.transform import Rotation as R
 
 from mmcore.api._base import Base
 from mmcore.api._base_vectors import BaseVector, BaseMatrix
-from mmcore.geom.vec import angle, cross, unit, dist
+from mmcore.geom.vec import angle, cross, unit, norm
 from ..numeric import scalar_dot
 
 
@@ -61,7 +61,7 @@ class Vector2D(BaseVector):
         vector : The vector to compare with for parallelism.
         Returns true if the vectors are parallel.
         """
-        return np.isclose(scalar_dot(self._array, vector._array), 1)
+        return super().is_parallel(vector)
 
     def is_perpendicular(self, vector: Vector2D) -> bool:
         """
@@ -69,7 +69,7 @@ class Vector2D(BaseVector):
         vector : The vector to compare with for perpendicularity.
         Returns true if the vectors are perpendicular.
         """
-        return np.isclose(scalar_dot(self._array, vector._array), 0)
+        return super().is_perpendicular(vector)
 
     def normalize(self) -> bool:
         """
@@ -241,7 +241,7 @@ class Vector3D(BaseVector):
         """
         Get the length of this vector.
         """
-        return dist(self._array)
+        return norm(self._array)
 
     @property
     def x(self) -> float:
-- 
2.43.0


From e13a83de0c602ac4342b3eb58e6a4a93d8c9ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 161/200] fix: API matrices are made of what they are given,
 and neither vectors nor matrices hand out the array they are kept in

---
 mmcore/api/_base_vectors.py |  6 +++---
 mmcore/api/vectors.py       | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index 835121e..5c85adf 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -123,10 +123,10 @@ class BaseVector(Base):
         return arg if isinstance(arg, cls) else cls(arg)
 
     def as_array(self) -> np.ndarray:
-        return np.asarray(self._array)
+        return np.array(self._array)
 
     def to_data(self):
-        return self._array
+        return np.array(self._array)
 
     def dot(self, vector: Type[Self]) -> float:
         """
@@ -224,7 +224,7 @@ class BaseMatrix(Base):
         Returns the contents of the matrix as a 16 element array.
         Returns the array of cell values.
         """
-        return np.asarray(self._array)
+        return np.array(self._array)
 
     def set_with_array(self, cells: list[float]) -> bool:
         """
diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index e512cdb..85811de 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -342,12 +342,12 @@ class Matrix2D(BaseMatrix):
 
     def __init__(self, arr=None):
         super().__init__()
-        self._array = (
-            np.zeros([3, 3])
-            if not arr
-            else (arr if isinstance(arr, np.ndarray) else np.array(arr))
-        )
-        self.set_to_identity()
+        if arr is None:
+            self._array = np.eye(3, dtype=float)
+        else:
+            if isinstance(arr, BaseMatrix):
+                arr = arr._array
+            self._array = np.array(arr, dtype=float).reshape((3, 3))
 
     @staticmethod
     def cast(arg) -> Matrix2D:
@@ -476,12 +476,12 @@ class Matrix3D(BaseMatrix):
 
     def __init__(self, arr=None):
         super().__init__()
-        self._array = (
-            np.zeros([4, 4])
-            if not arr
-            else (arr if isinstance(arr, np.ndarray) else np.array(arr))
-        )
-        self.set_to_identity()
+        if arr is None:
+            self._array = np.eye(4, dtype=float)
+        else:
+            if isinstance(arr, BaseMatrix):
+                arr = arr._array
+            self._array = np.array(arr, dtype=float).reshape((4, 4))
 
     @classmethod
     def create(cls) -> Matrix3D:
-- 
2.43.0


From 315f1e3326ba21aa83bf2ac38d6647dd8cbe7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 162/200] fix: API vectors and points can be transformed (they
 raised)

---
 mmcore/api/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 85811de..4e162b3 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -106,7 +106,7 @@ class Vector2D(BaseVector):
         matrix : The Matrix2D object that defines the transformation.
         Returns true if successful.
         """
-        self._array[:] = matrix._array.dot(self._array)
+        self._array[:] = (matrix @ self)._array
 
         return True
 
@@ -225,7 +225,7 @@ class Vector3D(BaseVector):
         matrix : The transformation matrix.
         Returns true if successful.
         """
-        self._array[:] = matrix.m.dot(self._array)
+        self._array[:] = (matrix @ self)._array
         return True
 
     def __array__(self, dtype=float):
-- 
2.43.0


From 7e2374bce8a44998afb8e97e6de64f16450ac475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 163/200] fix: an API matrix made of a coordinate system gives
 that coordinate system back, and one that aligns two takes one to the other
 (it was transposed, or raised)

---
 mmcore/api/vectors.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 4e162b3..4697d96 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -309,7 +309,7 @@ def _construct_affine2d(origin, xaxis, yaxis):
     t = np.array(origin)  # translation along x, y and z axis
 
     # Construct the 4x4 affine matrix
-    affine_matrix = np.array([np.append(x, 0), np.append(y, 0), np.append(t, 1)])
+    affine_matrix = np.array([np.append(x, 0), np.append(y, 0), np.append(t, 1)]).T
 
     return affine_matrix
 
@@ -328,7 +328,7 @@ def _construct_affine3d(origin, xaxis, yaxis, zaxis):
     # Construct the 4x4 affine matrix
     affine_matrix = np.array(
         [np.append(x, 0), np.append(y, 0), np.append(z, 0), np.append(t, 1)]
-    )
+    ).T
 
     return affine_matrix
 
@@ -399,10 +399,14 @@ class Matrix2D(BaseMatrix):
         """
         Sets this matrix to be the matrix that maps from the 'from' coordinate system to the 'to' coordinate system.
         """
-        from_ = self.set_with_coordinate_system(fromOrigin, fromXAxis, fromYAxis)
-        to_ = self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis)
+        from_ = _construct_affine2d(
+            fromOrigin.as_array(), fromXAxis.as_array(), fromYAxis.as_array()
+        )
+        to_ = _construct_affine2d(
+            toOrigin.as_array(), toXAxis.as_array(), toYAxis.as_array()
+        )
 
-        self._array = np.linalg.inv(from_).dot(to_)
+        self._array = to_.dot(np.linalg.inv(from_))
         return True
 
     def set_to_rotate_to(self, _from: Vector2D, to: Vector2D) -> bool:
@@ -549,12 +553,20 @@ class Matrix3D(BaseMatrix):
         """
         Sets this matrix to be the matrix that maps from the 'from' coordinate system to the 'to' coordinate system.
         """
-        from_ = self.set_with_coordinate_system(
-            fromOrigin, fromXAxis, fromYAxis, fromZAxis
+        from_ = _construct_affine3d(
+            fromOrigin.as_array(),
+            fromXAxis.as_array(),
+            fromYAxis.as_array(),
+            fromZAxis.as_array(),
+        )
+        to_ = _construct_affine3d(
+            toOrigin.as_array(),
+            toXAxis.as_array(),
+            toYAxis.as_array(),
+            toZAxis.as_array(),
         )
-        to_ = self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis, toZAxis)
 
-        self._array = np.linalg.inv(from_).dot(to_)
+        self._array = to_.dot(np.linalg.inv(from_))
         return True
 
     def set_to_rotate_to(
-- 
2.43.0


From ebb32e9cf2419c4e9815c267480b52212dde510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 164/200] fix: API rotations turn about the given origin and
 axis (the origin was taken for a translation, the axis had to be of unit
 length, and nothing could be turned to a direction)

---
 mmcore/api/vectors.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 4697d96..37507fe 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -423,13 +423,16 @@ class Matrix2D(BaseMatrix):
         """
         Sets this matrix to the matrix of rotation by the specified angle, through the specified origin.
         """
-        self._array[:2, :2] = np.array(
+        m = np.eye(3)
+        m[:2, :2] = np.array(
             [[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]]
         )
 
         if origin is not None:
             # If the rotation center is not at the origin, translate
-            self._array[:2, 2] = origin - origin @ self._array[:2, :2]
+            center = np.array(origin, dtype=float)
+            m[:2, 2] = center - m[:2, :2] @ center
+        self._array[:] = m
         return True
 
     def get_as_coordinate_system(self) -> tuple[Point2D, Vector2D, Vector2D]:
@@ -575,18 +578,23 @@ class Matrix3D(BaseMatrix):
         """
         Sets to the matrix of rotation that would align the 'from' vector with the 'to' vector.
         """
-        rotvec = _from.cross(to)
+        a, b = unit(_from.as_array()), unit(to.as_array())
+        rotvec = np.cross(a, b)
+        sine, cosine = np.linalg.norm(rotvec), np.dot(a, b)
         if np.allclose(rotvec, 0):
             # Vectors are either parallel or opposite
-            if _from.dot(to) < 0 and axis is not None:
-                # Vectors are opposite, use given axis for rotation
-                rotvec = axis
-        else:
-            return False
-
-        ang = np.arccos(np.clip(_from.dot(to), -1.0, 1.0))
-        r = R.from_rotvec(ang * rotvec.as_array())
-        self._array[:3, :3] = r.as_matrix()
+            if cosine < 0:
+                # Vectors are opposite, use given axis for rotation, or any that is perpendicular to them
+                if axis is not None:
+                    rotvec = axis.as_array()
+                else:
+                    rotvec = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
+        length = np.linalg.norm(rotvec)
+        if length > 0:
+            rotvec = rotvec / length
+        m = np.eye(4)
+        m[:3, :3] = R.from_rotvec(np.arctan2(sine, cosine) * rotvec).as_matrix()
+        self._array[:] = m
         return True
 
     def set_to_rotation(self, angle: float, axis: Vector3D, origin: Point3D) -> bool:
@@ -598,9 +606,11 @@ class Matrix3D(BaseMatrix):
                 "Axis and origin must be Vector3D and Point3D instances respectively"
             )
 
-        r = R.from_rotvec(np.radians(angle) * axis)
-        self._array[:3, :3] = r.as_matrix()
-        self._array[:3, 3] = origin
+        center = origin.as_array()
+        m = np.eye(4)
+        m[:3, :3] = R.from_rotvec(np.radians(angle) * unit(axis.as_array())).as_matrix()
+        m[:3, 3] = center - m[:3, :3] @ center
+        self._array[:] = m
         return True
 
     @property
-- 
2.43.0


From 448cb409e9be4a85f9e177d9bd51728d59a9a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 165/200] fix: API bounding boxes keep their corners (copies
 had them swapped, boxes shared them with the caller), contain in three
 dimensions, and intersect where they cross

---
 mmcore/api/bbox.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 0231453..25d3f42 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -75,8 +75,8 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         Returns the new bounding box.
         """
         self = cls()
-        self.max = cls.__point_class__.cast(min_point)
-        self.min = cls.__point_class__.cast(max_point)
+        self.min = cls.__point_class__.cast(min_point)
+        self.max = cls.__point_class__.cast(max_point)
         return self
 
     @classmethod
@@ -164,7 +164,7 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         """
         Gets and sets the minimum point of the box.
         """
-        self.min = value
+        self.min = self.__point_class__.cast(value)
 
     @property
     def max_point(self) -> __point_class__:
@@ -178,7 +178,7 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         """
         Gets and sets the maximum point of the box.
         """
-        self.max = value
+        self.max = self.__point_class__.cast(value)
 
     @property
     def centroid(self):
@@ -273,14 +273,15 @@ class BoundingBox2D(BaseBoundingBox, point_class=Point2D):
         return True
 
     def intersection(self, other: BoundingBox2D):
-        pts = []
-        for pt in self.to_vertices():
-            if other.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        for pt in other.to_vertices():
-            if self.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        return BoundingBox2D.create_from_array(np.array(pts))
+        # If the bounding boxes do not intersect, return None.
+        if not self.intersects(other):
+            return None
+        b = BoundingBox2D()
+        b.min.x = max(self.min.x, other.min.x)
+        b.min.y = max(self.min.y, other.min.y)
+        b.max.x = min(self.max.x, other.max.x)
+        b.max.y = min(self.max.y, other.max.y)
+        return b
 
 
 class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
@@ -321,7 +322,9 @@ class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
         """
 
         return (
-            self.max.x >= point.x >= self.min.x and self.max.y >= point.y >= self.min.y
+            self.max.x >= point.x >= self.min.x
+            and self.max.y >= point.y >= self.min.y
+            and self.max.z >= point.z >= self.min.z
         )
 
     def expand(self, point: Point3D) -> bool:
-- 
2.43.0


From ac5cb65089699d9863b1ec646225de5a55e3d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 166/200] fix: a flat patch does not hide the patch that
 crosses it (gauss_map)

---
 mmcore/numeric/gauss_map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 508385a..ce58dc3 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -437,8 +437,9 @@ def _detect_intersections_deep(g1, g2, chs:dict,tol=0.01, dbg: DebugTree = None)
     ii=np.zeros((2,3))
     aabb_intersection(bb1,bb2,ii)
 
-    if np.min(ii[1]-ii[0]) < tol:
-        # Бокс не маленький, но очень плоский. объекты не пересекаются
+    flat1,flat2=bb1[1]-bb1[0] < tol,bb2[1]-bb2[0] < tol
+    if np.any((ii[1]-ii[0] < tol) & (flat1==flat2)):
+        # Бокс не маленький, но очень плоский (и не потому, что плоский один из патчей). объекты не пересекаются
         #dddd[2] = True
 
         return []
-- 
2.43.0


From 9a31ed333066971f9ac89105bb45bcf42f72f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 167/200] =?UTF-8?q?fix:=20curve=20=C3=97=20surface=20subdi?=
 =?UTF-8?q?vision=20leaves=20pieces=20too=20short=20to=20be=20split=20whol?=
 =?UTF-8?q?e?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 mmcore/numeric/intersection/csx/_ncsx.py | 33 ++++++++++++------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index a036fae..a5a4fdb 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -72,16 +72,14 @@ class NURBSCurveSurfaceIntersector:
             t0, t1 = curve.interval()
 
 
-            curve1, curve2 = split_curve(curve, (t0 + t1) * 0.5, normalize_knots=False)
-            # normalize_curve_knots(curve1)
-            # normalize_curve_knots(curve2)
             u,v=(u0 + u1) * 0.5, (v0 + v1) * 0.5
 
 
             if abs(u - u0) < self.ptol or abs(u - u1) < self.ptol or abs(v - v0) < self.ptol or abs(v - v1) < self.ptol:
 
                 return
-            surface1, surface2, surface3, surface4 = subdivide_surface(
+            curves = self._split_curve(curve, (t0 + t1) * 0.5)
+            surfaces = subdivide_surface(
                 surface, (u0 + u1) * 0.5, (v0 + v1) * 0.5, self.ptol, normalize_knots=False
             )
 
@@ -106,21 +104,24 @@ class NURBSCurveSurfaceIntersector:
                 u = (u0 + u1) * 0.5
             if abs(v - v0) < self.ptol or abs(v - v1) < self.ptol:
                 v = (v0 + v1) * 0.5
+            if min(u - u0, u1 - u, v - v0, v1 - v) <= self.ptol:
+                return
+
+            curves = self._split_curve(curve, t)
 
-            curve1, curve2 = split_curve(curve, t, tol=self.ptol,normalize_knots=False)
-            # normalize_curve_knots(curve1)
-            # normalize_curve_knots(curve2)
+            surfaces = subdivide_surface(surface, u, v, tol=self.ptol, normalize_knots=False)
 
-            surface1, surface2, surface3, surface4  = subdivide_surface(surface, u, v, tol=self.ptol, normalize_knots=False)
+        for piece in curves:
+            for part in surfaces:
+                self._curve_surface_intersect(piece, part)
 
-        self._curve_surface_intersect(curve1, surface1)
-        self._curve_surface_intersect(curve1, surface2)
-        self._curve_surface_intersect(curve1, surface3)
-        self._curve_surface_intersect(curve1, surface4)
-        self._curve_surface_intersect(curve2, surface1)
-        self._curve_surface_intersect(curve2, surface2)
-        self._curve_surface_intersect(curve2, surface3)
-        self._curve_surface_intersect(curve2, surface4)
+    def _split_curve(self, curve, t):
+        t0, t1 = curve.interval()
+        if min(t - t0, t1 - t) <= self.ptol:
+            return [curve]  # too short to be split
+        # normalize_curve_knots(curve1)
+        # normalize_curve_knots(curve2)
+        return split_curve(curve, t, tol=self.ptol, normalize_knots=False)
 
     def _no_new_intersections(self, curve, surface):
         # Implement separability test from section 4.2
-- 
2.43.0


From 1ff7951b9003dcf10b24375ebde94dd7f5919bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 168/200] fix: marching along a straight intersection takes a
 finite step

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 2b8375c..24bf206 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -361,7 +361,13 @@ class MarchingMethod(SSXMethod):
         self.fdm_h = fdm_h
         self.boundary_terminators = boundary_terminators
         self.freeform=freeform
+        self.max_step = min(self._size(s1), self._size(s2)) / 10
 
+    @staticmethod
+    def _size(surf):
+        (u0, u1), (v0, v1) = surf.interval()
+        corners = np.array([surf.evaluate(np.array((u, v))) for u in (u0, u1) for v in (v0, v1)])
+        return scalar_norm(np.ptp(corners, axis=0))
 
     def step(self, uv1, uv2):
         #print(f'{self.__class__}.solve({uv1, uv2})')
@@ -378,7 +384,6 @@ class MarchingMethod(SSXMethod):
 
         uv1_better, uv2_better = self.improve_uvs(intersection_step_data, pt_better)
 
-
         is_edge, (pt_better, uv1_better, uv2_better) = self.handle_edge(
             pt_better, uv1_better, uv2_better
         )
@@ -408,7 +413,9 @@ class MarchingMethod(SSXMethod):
 
     def calculate_step(self, curvature_vector):
         K = scalar_norm(curvature_vector)
-
+        # The longest step is taken where the curve is (almost) straight and any chord would do
+        if not K * self.max_step ** 2 > 8 * self.tol:
+            return self.max_step
         r = 1 / K
 
         step = np.sqrt(r ** 2 - (r - self.tol) ** 2) * 2
-- 
2.43.0


From 55a25f024df7425e437741e092d4b5b7e00951fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 169/200] fix: an intersection with few points, or a single
 one, is interpolated by as many as there are

---
 mmcore/geom/curves/knot.py                         | 2 ++
 mmcore/numeric/intersection/ssx/surface_surface.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index b3f98b3..ff815fe 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -217,6 +217,8 @@ def interpolate_curve(points, degree,  use_centripetal=False, tol=1e-5):
 
     # Number of control points
     num_points = len(points)
+    # Only as many points as are left can set the degree
+    degree = max(min(degree, num_points - 1), 1)
 
     # Get uk
     uk = compute_params_curve(points, use_centripetal)
diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 24bf206..47f0912 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -26,6 +26,7 @@ from mmcore.numeric.intersection.csx import nurbs_csx
 from mmcore.numeric.plane import plane_plane_intersect
 
 from mmcore.geom.curves.bspline import NURBSpline, interpolate_nurbs_curve
+from mmcore.geom.curves.knot import _remove_adjacent_duplicates
 
 import numpy as np
 from mmcore.numeric.vectors import norm, det
@@ -729,6 +730,8 @@ def ssx(
     curves, curves_uvs, stepss, terminators = res
     results = []
     for i, curve_pts in enumerate(curves):
+        if len(_remove_adjacent_duplicates(np.array(curve_pts))) < 2:
+            continue  # the surfaces only touch here: a point, not a curve
         curve = interpolate_nurbs_curve(curve_pts, 3)
 
         if all([terminator is TerminatorType.LOOP for terminator in terminators[i]]):
-- 
2.43.0


From 52f25087e64b0d9fffc0a7d5cc26a9e8e6d57286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 170/200] fix: the difference of two intervals holds every
 difference of their numbers

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b5d0311..dc73745 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -42,7 +42,7 @@ class Interval:
 
     def __sub__(self, other):
         if isinstance(other, Interval):
-            return Interval(self.low - other.low, self.upp - other.upp)
+            return Interval(self.low - other.upp, self.upp - other.low)
         return Interval(self.low - other, self.upp - other)
 
     def __mul__(self, other):
-- 
2.43.0


From 53ea687b45065b341ec35c9d9a4422cb6f998481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 171/200] fix: an interval times or over something negative or
 spanning zero holds all results

---
 mmcore/numeric/interval/_interval.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index dc73745..01c965f 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -49,14 +49,18 @@ class Interval:
         if isinstance(other, Interval):
             products = [self.low * other.low, self.low * other.upp, self.upp * other.low, self.upp * other.upp]
             return Interval(min(products), max(products))
-        return Interval(self.low * other, self.upp * other)
+        products = [self.low * other, self.upp * other]
+        return Interval(min(products), max(products))
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
-
+            if other.low < 0 < other.upp:
+                # The quotients extend to infinity on both sides
+                return Interval(float('-inf'), float('inf'))
             reciprocals = [1 / other.low, 1 / other.upp]
             return self * Interval(min(reciprocals), max(reciprocals))
-        return Interval(self.low / other, self.upp / other)
+        quotients = [self.low / other, self.upp / other]
+        return Interval(min(quotients), max(quotients))
 
     def __contains__(self, item):
         if isinstance(item, Interval):
-- 
2.43.0


From b06220143ff425316ce9a2b049cb8d8848170951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 172/200] fix: powers of an interval: even ones across zero,
 negative ones

---
 mmcore/numeric/interval/_interval.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 01c965f..511f9d4 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -157,10 +157,7 @@ class Interval:
 
     @staticmethod
     def pow(base, exp):
-        if exp % 2 == 0:
-            return Interval(min(base.low ** exp, base.upp ** exp), max(base.low ** exp, base.upp ** exp))
-        else:
-            return Interval(base.low ** exp, base.upp ** exp)
+        return base ** exp
 
 
     def __iadd__(self, other):
@@ -202,7 +199,10 @@ class Interval:
         return np.array(self.to_tuple(), dtype=dtype)
 
     def __pow__(self, exp):
-        if exp % 2 == 0:
-            return Interval(min(self.low ** exp, self.upp ** exp), max(self.low ** exp, self.upp ** exp))
-        else:
-            return Interval(self.low ** exp, self.upp ** exp)
\ No newline at end of file
+        if exp < 0:
+            return ~(self ** -exp)
+        low, upp = self.low ** exp, self.upp ** exp
+        if exp > 0 and exp % 2 == 0:
+            # An even power falls until zero and rises after it
+            return Interval(0.0 if self.low < 0 < self.upp else min(low, upp), max(low, upp))
+        return Interval(low, upp)
-- 
2.43.0


From c77bba09e342986150d1b82dd07fecdfcfc874ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 173/200] fix: Interval.from_tuple makes an interval

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 511f9d4..b37144c 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -186,7 +186,7 @@ class Interval:
     @classmethod
     def from_tuple(cls, t):
 
-        return cls(cls.from_tuple(t[0]), cls.from_tuple(t[1]))
+        return cls(t[0], t[1])
 
     def to_tuple(self):
 
-- 
2.43.0


From ce509ca4fdd129b9adb72afc9b0f23824aad7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 174/200] fix: comparing an interval with a number inside it is
 undecided

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b37144c..ac55c04 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -75,7 +75,7 @@ class Interval:
                 return Comparison.FALSE  # Definitely greater than
             else:
                 return Comparison.MAYBE  # Overlapping intervals, uncertain comparison
-        return Comparison.TRUE if self.upp < other else Comparison.FALSE
+        return self.compare(Interval(other))
 
     def __lt__(self, other):
         comp = self.compare(other)
-- 
2.43.0


From 8f93a297fd7cd376859b2ab37ce7197c10a05650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 175/200] fix: the product of two polynomial vectors prints
 nothing

---
 mmcore/numeric/monomial.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 6c89eec..40ab1d0 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -193,7 +193,6 @@ def cross_product_monomial(a_coeffs, b_coeffs):
     n, m = n1 + n2 - 1, m1 + m2 - 1
 
     result = np.zeros((n, m, 3))
-    print(list(product(range(n1), range(m1), range(n2), range(m2))))
 
     for i1, j1, i2, j2 in product(range(n1), range(m1), range(n2), range(m2)):
         i, j = i1 + i2, j1 + j2
-- 
2.43.0


From a074579e38970fbe1d7c0cb5c85922c9b6abefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 176/200] fix: a monomial patch and its Bezier form are the
 same surface

---
 mmcore/numeric/monomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 40ab1d0..d8f0896 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -294,12 +294,12 @@ class Monomial2D(Surface):
         m,n=self.coeffs.shape[:2]
         m-=1
         n-=1
-        return NURBSSurface(self.coeffs, (m,n))
+        return NURBSSurface(self.to_bernstein_basis(), (m,n))
     def evaluate_v2(self, u,v):
         return evaluate_monomial2d(self.coeffs, u, v)
     @classmethod
     def from_bezier(cls, surf:NURBSSurface):
-        return cls(np.array(surf.control_points).copy())
+        return cls.from_bernstein_basis(np.array(surf.control_points))
 
     @classmethod
     def from_nurbs(cls, surf: NURBSSurface):
-- 
2.43.0


From f6e17100228dadb884772a645c7c371dab7a59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 177/200] fix: editing a conversion matrix does not change the
 cached one

---
 mmcore/numeric/monomial.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index d8f0896..8a38134 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -8,11 +8,7 @@ from mmcore.geom.surfaces import Surface
 from mmcore.numeric.binom import binomial_coefficient_py
 from functools import lru_cache
 @lru_cache(maxsize=None)
-def bpmat(n, method="mmcore"):
-
-    """Create Bernstein to monomial conversion matrix.
-
-    """
+def _bpmat(n, method):
     method=comb if method=="scipy" else binomial_coefficient_py
     return np.array(
         [
@@ -25,6 +21,14 @@ def bpmat(n, method="mmcore"):
     )
 
 
+def bpmat(n, method="mmcore"):
+
+    """Create Bernstein to monomial conversion matrix.
+
+    """
+    return _bpmat(n, method).copy()
+
+
 
 def bezier_to_monomial(control_points, bmethod="mmcore"):
     """
-- 
2.43.0


From 670375c1a9443eac52d7acac62e909fa40398403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 178/200] fix: basis functions of degree two and more

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 mmcore/geom/curves/curve_utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index bc1764b..00f87fa 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -52,7 +52,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index ea45390..0c91581 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -47,7 +47,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
-- 
2.43.0


From fc04db64cdc4cf1a2d3b3d2229976708d183f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 179/200] fix: surface points of weighted control points are
 computed in floating point

---
 mmcore/geom/curves/bspline_utils.py | 14 +++++++-------
 mmcore/geom/curves/curve_utils.py   | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index 00f87fa..b646249 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -100,14 +100,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.zeros(4) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
-            point = P[uspan - p + k][vspan - q + l].copy()
+            point = np.array(P[uspan - p + k][vspan - q + l], dtype=float)
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
@@ -172,7 +172,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
     nders = calc_basis_function_derivatives(span, u, p, du, U)
     Pw = []
     for i in range(len(P)):
-        point = np.array(P[i])
+        point = np.array(P[i], dtype=float)
         w = point[3]
         for j in range(3):
             point[j] *= w
@@ -201,16 +201,16 @@ def calc_surface_point(p, q, U, V, P, u, v):
     Nv = calc_basis_functions(vspan, v, q, V)
     temp = []
     for l in range(q + 1):
-        point = [0., 0., 0., 0.]
+        point = np.zeros(4)
         for k in range(p + 1):
-            point_w = np.array(P[uspan - p + k][vspan - q + l])
+            point_w = np.array(P[uspan - p + k][vspan - q + l], dtype=float)
             w = point_w[3]
             for j in range(3):
                 point_w[j] *= w
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 0c91581..dde6e0c 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -95,14 +95,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.zeros(4) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
-            point = P[uspan - p + k][vspan - q + l].copy()
+            point = np.array(P[uspan - p + k][vspan - q + l], dtype=float)
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
@@ -167,7 +167,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
     nders = calc_basis_function_derivatives(span, u, p, du, U)
     Pw = []
     for i in range(len(P)):
-        point = np.array(P[i])
+        point = np.array(P[i], dtype=float)
         w = point[3]
         for j in range(3):
             point[j] *= w
@@ -196,16 +196,16 @@ def calc_surface_point(p, q, U, V, P, u, v):
     Nv = calc_basis_functions(vspan, v, q, V)
     temp = []
     for l in range(q + 1):
-        point = [0., 0., 0., 0.]
+        point = np.zeros(4)
         for k in range(p + 1):
-            point_w = np.array(P[uspan - p + k][vspan - q + l])
+            point_w = np.array(P[uspan - p + k][vspan - q + l], dtype=float)
             w = point_w[3]
             for j in range(3):
                 point_w[j] *= w
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
-- 
2.43.0


From ddfcb64504b9431228c263772f104753415ca20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 180/200] fix: is_bezier answers, and looks at both directions

---
 mmcore/numeric/gauss_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index ce58dc3..0426d23 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -110,11 +110,11 @@ def cross_product(a, b):
 
 
 def is_bezier(surface: NURBSSurface):
-    kv, ku = unique(surface.knots_u).shape[0], unique(surface.knots_u).shape[0]
-    if kv.shape[0] < 2 or ku.shape[0] < 2:
+    ku, kv = unique(surface.knots_u).shape[0], unique(surface.knots_v).shape[0]
+    if kv < 2 or ku < 2:
         raise ValueError("Degenerated patch")
 
-    return kv.shape[0] == 2 and ku.shape[0] == 2
+    return kv == 2 and ku == 2
 
 
 def normalize_polynomial(v, epsilon=1e-10):
-- 
2.43.0


From 163e8af36bf1a772db15cf226ae02ef1d9354983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 181/200] fix: unique keeps its hands off memory it does not
 own and off its argument

---
 mmcore/numeric/algorithms/_unique.c | 31 ++++++++++-------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/mmcore/numeric/algorithms/_unique.c b/mmcore/numeric/algorithms/_unique.c
index 5d6c927..6008867 100644
--- a/mmcore/numeric/algorithms/_unique.c
+++ b/mmcore/numeric/algorithms/_unique.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <math.h>
 
 int compare(const void *a, const void *b) {
@@ -92,38 +93,28 @@ double* uniqueSorted(double *arr, int n, int *new_len) {
     return unique_arr;
 }
 
+// result: room for n numbers, owned by the caller; the array itself is left as it is
 int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
-    // If the array is empty or has one element, return it as is
     if (n == 0) {
         *new_len = 0;
-        return 0;
-    }
-    if (n == 1) {
-        *new_len = 1;
-        result = (double*)realloc(result, sizeof(double));
-        result[0] = arr[0];
         return 1;
     }
+    if (result != arr) {
+        memmove(result, arr, n * sizeof(double));
+    }
 
-    // Sort the array
-    qsort(arr, n, sizeof(double), compare2);
-
-    // Allocate memory for the unique sorted array
-    result = (double*)realloc(result,n * sizeof(double));
-    int j = 0;
+    // Sort the copy
+    qsort(result, n, sizeof(double), compare2);
 
-    // Add the first element
-    result[j++] = arr[0];
+    int j = 1;
 
-    // Iterate over the sorted array and add only unique elements
+    // Iterate over the sorted copy and keep only unique elements
     for (int i = 1; i < n; i++) {
-        if (arr[i] != arr[i-1]) {
-            result[j++] = arr[i];
+        if (result[i] != result[i-1]) {
+            result[j++] = result[i];
         }
     }
 
-    // Resize the memory to match the number of unique elements
-    result = (double*)realloc(result, j * sizeof(double));
     *new_len = j;
 
     return 1;
-- 
2.43.0


From 7741cb271c27ebbf2ba807ec2c17394939b9b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:23 +0000
Subject: [PATCH 182/200] fix: circles do not share one default centre

---
 mmcore/geom/curves/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/__init__.py b/mmcore/geom/curves/__init__.py
index 2ccaaac..0fae584 100644
--- a/mmcore/geom/curves/__init__.py
+++ b/mmcore/geom/curves/__init__.py
@@ -29,7 +29,7 @@ class Circle(Curve):
     def __init__(self, radius, origin=np.array([0.0, 0.0, 0.0])):
         super().__init__()
         self.r = radius
-        self.origin = origin
+        self.origin = np.array(origin, dtype=float)
 
     @property
     def a(self):
-- 
2.43.0


From 443600b4a45123fd9b05e18748b7663dc640abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 183/200] fix: derivatives of weighted splines are computed in
 floating point

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 mmcore/geom/curves/curve_utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index b646249..28bd768 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -185,7 +185,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
         CK.append(tmp)
 
     for k in range(du + 1, nd + 2):
-        CK.append(np.array([0, 0, 0, 0]))
+        CK.append(np.zeros(4))
 
     return CK
 
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index dde6e0c..cbc7cbf 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -180,7 +180,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
         CK.append(tmp)
 
     for k in range(du + 1, nd + 2):
-        CK.append(np.array([0, 0, 0, 0]))
+        CK.append(np.zeros(4))
 
     return CK
 
-- 
2.43.0


From 12f3f3389aa0af609cc0c349164c0d527da94e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 184/200] fix: boolean operations of closed curves that do not
 meet

---
 mmcore/geom/curves/curve_bool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/curve_bool.py b/mmcore/geom/curves/curve_bool.py
index 505fdf8..84e4d12 100644
--- a/mmcore/geom/curves/curve_bool.py
+++ b/mmcore/geom/curves/curve_bool.py
@@ -68,11 +68,12 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
     # Verify curves are closed?
 
     # Find all curve intersections
-    first, second = zip(*ccx(curve1, curve2))
+    pairs = ccx(curve1, curve2)
+    first, second = zip(*pairs) if len(pairs) > 0 else ((), ())
 
     # Split both curves at intersection points
-    segments1 = split_curve_multiple(curve1, np.unique(first))
-    segments2 = split_curve_multiple(curve2, np.unique(second))
+    segments1 = split_curve_multiple(curve1.copy(), np.unique(first))
+    segments2 = split_curve_multiple(curve2.copy(), np.unique(second))
 
 
     segments = []
-- 
2.43.0


From 3b9e50ca9022cf4c92b1108c4cd65c938a22c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 185/200] fix: the ray that tells inside from outside leaves
 the other curve behind

---
 mmcore/geom/curves/curve_bool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve_bool.py b/mmcore/geom/curves/curve_bool.py
index 84e4d12..95e17fb 100644
--- a/mmcore/geom/curves/curve_bool.py
+++ b/mmcore/geom/curves/curve_bool.py
@@ -85,7 +85,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * scalar_norm(max_2 - min_2) * 2]), degree=1)
+        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * (max(max_2[0] - mid[0], 0.) + scalar_norm(max_2 - min_2))]), degree=1)
         rtct = list(zip(*ccx(ray, curve2, tol=1e-7)))
         if len(rtct) == 0:
             rt = ()
@@ -120,7 +120,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * scalar_norm(max_1 - min_1) * 2]), degree=1)
+        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * (max(max_1[0] - mid[0], 0.) + scalar_norm(max_1 - min_1))]), degree=1)
         rtct = list(zip(*ccx(ray, curve1, tol=1e-7)))
         if len(rtct) == 0:
             rt = ()
-- 
2.43.0


From 5251299a44d2582ad273731964a220e3f84d5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 186/200] fix: the parameters of an edge's ends can be asked
 for

---
 mmcore/topo/brep/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index b31e668..f234bd8 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from collections import namedtuple
-from functools import lru_cache
 from types import GenericAlias
 from typing import TypeVar, Generic
 
@@ -62,7 +61,6 @@ class _EdgeCurveParametersResult:
             raise ValueError(
                 f"The starting vertex does not belong to the edge. Error value: {self.end.dist}")
 
-@lru_cache(maxsize=None)
 def _get_edge_curve_parameters_at_points(curve:NURBSCurve,
                        start:NDArray[float],
                        end:NDArray[float],
@@ -75,7 +73,7 @@ def _get_edge_curve_parameters_at_points(curve:NURBSCurve,
 
 
 
-    return _EdgeCurveParametersResult(_EndParameterResult(success_start, start_param, start_param), _EndParameterResult(success_end, end_param, end_dist))
+    return _EdgeCurveParametersResult(_EndParameterResult(success_start, float(start_param[0]), start_dist), _EndParameterResult(success_end, float(end_param[0]), end_dist))
 
 
 def get_edge_ends_parameters(edge:Edge,check:bool=False)->tuple[float,float]:
-- 
2.43.0


From 0306f9745b7aeaf18a073b954072cd8ed09997b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 187/200] fix: a boundary model keeps points of its own, one
 for equal coordinates

---
 mmcore/topo/brep/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index f234bd8..e7958f2 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -27,7 +27,8 @@ class GeometryRepresentation(Generic[T]):
         if isinstance(self.value,(np.ndarray,memoryview)):
             if hasattr(self.value,'tobytes'):
 
-                return hash(np.round(self.value,8).tobytes())
+                # Adding zero makes -0.0 the same as 0.0
+                return hash((np.round(self.value,8)+0.).tobytes())
 
 
         return self.value.__hash__()
@@ -143,6 +144,8 @@ class BRepGeometry:
             container=self.surfaces
         else:
             container=self.points
+            # A copy of its own
+            geom = np.array(geom, dtype=float)
 
         index = len(container)
 
-- 
2.43.0


From 6db84abee4d94f727422de1a5d0f55ad4331a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 188/200] fix: a closed edge is not the open edge it shares a
 vertex with

---
 mmcore/topo/brep/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index e7958f2..b1ea8b7 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -224,7 +224,8 @@ class BRep:
         if check:
             for v in self.edges:
                 pts=(v.bounded_by[0].represented_by,v.bounded_by[1].represented_by)
-                if v.represented_by == representation and start.represented_by in pts and end.represented_by in pts:
+                ends=(start.represented_by,end.represented_by)
+                if v.represented_by == representation and (ends == pts or ends[::-1] == pts):
                     return v
 
 
-- 
2.43.0


From 926717f3622953a7ae28ac2d161fe9f9133cde71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 189/200] fix: faces with holes: a face is the same only with
 the same holes

---
 mmcore/topo/brep/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index b1ea8b7..d899fd6 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -263,9 +263,9 @@ class BRep:
 
                 for v in self.faces:
                     if hash(v.represented_by) == hash(representation):
-                            if bounded_by[0] is v.bounded_by[0]:
+                            if [id(b) for b in bounded_by[:1]] == [id(b) for b in v.bounded_by[:1]]:
 
-                                if sorted((hash(b) for b in bounded_by[1:]))==sorted((hash(b) for b in bounded_by[1:])):
+                                if sorted((id(b) for b in bounded_by[1:]))==sorted((id(b) for b in v.bounded_by[1:])):
                                     return v
 
 
-- 
2.43.0


From f98128b51b3678bb942acec05d7fdbe072e2b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 190/200] =?UTF-8?q?fix:=20curve=20=C3=97=20curve=20subdivi?=
 =?UTF-8?q?sion=20does=20not=20drop=20pieces=20that=20meet=20between=20sam?=
 =?UTF-8?q?ples?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 mmcore/numeric/aabb.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/aabb.py b/mmcore/numeric/aabb.py
index 097337a..bd18b99 100644
--- a/mmcore/numeric/aabb.py
+++ b/mmcore/numeric/aabb.py
@@ -108,4 +108,11 @@ def curve_aabb_eager(curve, bounds=None, cnt=8):
     bounds = bounds if bounds is not None else curve.interval()
 
     vals = np.linspace(*bounds, cnt, dtype=float)
-    return aabb(curve(vals))
+    pts = np.asarray(curve(vals))
+    box = aabb(pts)
+    if cnt > 2:
+        # Between the samples the curve goes past them by no more than it turns there
+        bend = np.abs(np.diff(pts, 2, axis=0)).max(axis=0)
+        box[0] -= bend
+        box[1] += bend
+    return box
-- 
2.43.0


From 9ce2bde17f450540726d421e06bedd757f78afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 191/200] fix: the parameters of a closed intersection end
 where its points end

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 47f0912..b55cf76 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -524,7 +524,7 @@ class MarchingMethod(SSXMethod):
             if scalar_norm(xyz1 - xyz1_init) < step:
                 pts.append(pts[0])
 
-                uvs.append((initial_uv1, initial_uv2))
+                uvs.append(uvs[0])
                 terminator = TerminatorType.LOOP
                 break
 
-- 
2.43.0


From 0b9daf90e113a8888f5fafca6eb6bf001dc088f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 192/200] fix: the ray that tells inside from outside does not
 run along an edge

---
 mmcore/geom/curves/curve_bool.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve_bool.py b/mmcore/geom/curves/curve_bool.py
index 95e17fb..98d284a 100644
--- a/mmcore/geom/curves/curve_bool.py
+++ b/mmcore/geom/curves/curve_bool.py
@@ -20,6 +20,10 @@ class BooleanOperationType(int, Enum):
     DIFFERENCE = 2
 
 
+# Slanted: it seldom runs along an edge or through a corner
+RAY = np.array([1., 0.0713, 0.])
+
+
 def unique_with_tolerance(arr, tolerance):
     # Sort the array
     sorted_arr = np.sort(arr)
@@ -85,7 +89,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * (max(max_2[0] - mid[0], 0.) + scalar_norm(max_2 - min_2))]), degree=1)
+        ray = NURBSCurve(np.array([mid, mid + RAY * (max(max_2[0] - mid[0], 0.) + scalar_norm(max_2 - min_2))]), degree=1)
         rtct = list(zip(*ccx(ray, curve2, tol=1e-7)))
         if len(rtct) == 0:
             rt = ()
@@ -120,7 +124,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * (max(max_1[0] - mid[0], 0.) + scalar_norm(max_1 - min_1))]), degree=1)
+        ray = NURBSCurve(np.array([mid, mid + RAY * (max(max_1[0] - mid[0], 0.) + scalar_norm(max_1 - min_1))]), degree=1)
         rtct = list(zip(*ccx(ray, curve1, tol=1e-7)))
         if len(rtct) == 0:
             rt = ()
-- 
2.43.0


From ccf000c811fb7ee521076e3efb4e1323c4198434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 193/200] fix: NURBSpline.create_circle puts the centre at the
 origin asked for (it was mirrored)

---
 mmcore/geom/curves/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index c15fd7f..2754e65 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -344,7 +344,7 @@ class NURBSpline(CNURBSpline, Curve):
                            [0., -radius, 0., 1.],
                            [radius, -radius, 0., w],
                            [radius, 0., 0., 1.]], dtype=float)
-        points[:, :-1] = np.array(evaluate_plane_arr(plane, points[:, :-1] - origin))
+        points[:, :-1] = np.array(evaluate_plane_arr(plane, points[:, :-1] + origin))
 
         knots = np.array([0, math.pi / 2, math.pi, 3 * math.pi / 2, 2 * math.pi], dtype=float)
         mults = np.array([3, 2, 2, 2, 3], dtype=int)
-- 
2.43.0


From 85f9acc678cdaa844cd6b2eff1eee3c51aeb1866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 194/200] fix: derivatives of the plain NURBSCurve can be asked
 for (always a TypeError)

---
 mmcore/geom/curves/bspline_first.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_first.py b/mmcore/geom/curves/bspline_first.py
index 93ebc82..402bb02 100644
--- a/mmcore/geom/curves/bspline_first.py
+++ b/mmcore/geom/curves/bspline_first.py
@@ -351,9 +351,10 @@ under index 2 is the second derivative, and so on.
         """
         du=min(d, self.degree)
         CK = np.zeros((du + 1, self.control_points.shape[1]), dtype=np.float64)
-        curve_derivs_alg2(self.n, self.degree, self.knots, self._control_points, t, d,  CK)
+        # all the weights are one: the derivatives of the homogeneous curve are those of the curve
+        CK[:] = np.array(curve_derivs_alg2(self.n, self.degree, self.knots, self._control_points, t, du))[:, :-1]
 
-        return np.array(CK)
+        return CK
 
 
 if __name__ == '__main__':
-- 
2.43.0


From beaee3da78f378821e5960493f04d0b809003bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 195/200] fix: knot_refinement1 takes a single knot, keeps the
 caller's list and prints nothing

---
 mmcore/geom/curves/knot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index ff815fe..2cc3d26 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -577,7 +577,7 @@ def knot_refinement1(degree, knotvector, ctrlpts, **kwargs):
     # Get keyword arguments
     tol = kwargs.get('tol', 10e-8)  # tolerance value for zero equality checking
     check_num = kwargs.get('check_num', True)  # enables/disables input validity checking
-    knot_list = kwargs.get('knot_list', knotvector[degree:-degree])
+    knot_list = list(kwargs.get('knot_list', knotvector[degree:-degree]))
     add_knot_list = kwargs.get('add_knot_list', list())
     density = kwargs.get('density', 1)
 
@@ -595,7 +595,7 @@ def knot_refinement1(degree, knotvector, ctrlpts, **kwargs):
             knot_tmp = knot_list[i] + ((knot_list[i + 1] - knot_list[i]) / 2.0)
             rknots.append(knot_list[i])
             rknots.append(knot_tmp)
-        rknots.append(knot_list[i + 1])
+        rknots.append(knot_list[-1])
         knot_list = rknots
 
     # Find how many knot insertions are necessary
@@ -652,7 +652,6 @@ def knot_refinement1(degree, knotvector, ctrlpts, **kwargs):
             if abs(alpha) < tol:
                 new_ctrlpts[idx - 1] = deepcopy(new_ctrlpts[idx])
             else:
-                print()
                 alpha = alpha / (new_kv[k + l] - knotvector[i - degree + l])
                 if isinstance(ctrlpts[0][0], float):
                     new_ctrlpts[idx - 1] = [alpha * p1 + (1.0 - alpha) * p2 for p1, p2 in
-- 
2.43.0


From 34fa89f3130f1502885fea4d372d25e4a790ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 196/200] fix: evaluate_nurbs_multi starts every point afresh
 (each one carried the point before)

---
 mmcore/geom/curves/deboor.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index 24459f6..f4d1b8f 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -55,6 +55,9 @@ cdef void cevaluate_nurbs_multi( double[:] t,double[:,:] cpts, double[:] knots,
     cdef xyz pt=xyz(0.,0.,0.);
 
     for i in range(t.shape[0]):
+        pt.x = 0.
+        pt.y = 0.
+        pt.z = 0.
         cevaluate_nurbs(t[i],cpts,knots,weights,degree,&pt)
         result[i][0] = pt.x
         result[i][1] = pt.y
-- 
2.43.0


From 14f94ec352900a06efd4c95646b826596d3542ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 197/200] fix: a knot lies in one span only (deboor counted it
 in every span it touches)

---
 mmcore/geom/curves/deboor.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index f4d1b8f..df81de5 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -14,7 +14,10 @@ cdef double cdeboor(double[:] knots, double t, int i, int k) noexcept nogil:
     cdef double c1,c2;
 
     if k == 0:
-        return 1.0 if knots[i] <= t <= knots[i + 1] else 0.0
+        if t == knots[knots.shape[0] - 1]:
+            # the last span is closed on the right
+            return 1.0 if knots[i] < t and t == knots[i + 1] else 0.0
+        return 1.0 if knots[i] <= t < knots[i + 1] else 0.0
     if knots[i + k] == knots[i]:
         c1 = 0.0
     else:
-- 
2.43.0


From 5aab9ac7c01697a6ba375dcdf8c53b2ad3ad6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 198/200] fix: knot_refinement2 keeps the curve (algorithm A5.4
 of The NURBS Book)

---
 mmcore/geom/curves/knot.py | 70 ++++++++++++++------------------------
 1 file changed, 25 insertions(+), 45 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 2cc3d26..0a5b219 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1025,66 +1025,46 @@ def knot_refinement2(n, p, U, Pw, X):
     # Get number of new knots
     r = len(X) - 1
     m = n + p + 1
+    if r < 0:
+        return Pw, U
+
+    # Spans of the first and the last new knot
+    a = find_knot_span(n, p, X[0], U)
+    b = find_knot_span(n, p, X[r], U) + 1
 
     # Initialize new arrays
-    nq = n + r + 1
-    Qw = np.zeros((nq + 1, Pw.shape[1]))
-    Ubar = np.zeros(len(U) + len(X))
+    Qw = np.zeros((n + r + 2, Pw.shape[1]))
+    Ubar = np.zeros(m + r + 2)
 
     # Save unaltered control points and knots
-    for i in range(0, p + 1):
-        Qw[i] = Pw[i]
-    for i in range(n - p, n + 1):
-        Qw[i + r + 1] = Pw[i]
-    for i in range(0, p + 1):
-        Ubar[i] = U[0]
-    for i in range(len(U) - p - 1, len(U)):
-        Ubar[i + r + 1] = U[-1]
-
-    # Initialize variables for refinement
-    i = p
-    j = r
-    k = p + 1
+    Qw[:a - p + 1] = Pw[:a - p + 1]
+    Qw[b + r:] = Pw[b - 1:]
+    Ubar[:a + 1] = U[:a + 1]
+    Ubar[b + p + r + 1:] = U[b + p:]
 
-    # Initialize local arrays
-    Rw = np.zeros((p + 1, Pw.shape[1]))
+    i = b + p - 1
+    k = b + p + r
 
     # Main refinement loop
-    while j >= 0:  # Insert knots
-        while X[j] <= U[i] and i > 0:
-            Qw[k] = Pw[i - 1]
+    for j in range(r, -1, -1):  # Insert knots
+        while X[j] <= U[i] and i > a:
+            Qw[k - p - 1] = Pw[i - p - 1]
             Ubar[k] = U[i]
             k -= 1
             i -= 1
 
-        # Save current control point
-        for l in range(p, -1, -1):
-            Rw[l] = Pw[i - p + l]
-
-        # Insert knot
+        Qw[k - p - 1] = Qw[k - p]
         for l in range(1, p + 1):
-            if i - p + l <= 0:
-                continue
-
-            # Compute alpha
-            alpha = (X[j] - U[i - p + l]) / (U[i + l] - U[i - p + l])
-
-            # Update control points
-            Rw[l] = alpha * Rw[l] + (1.0 - alpha) * Rw[l - 1]
+            ind = k - p + l
+            alpha = Ubar[k + l] - X[j]
+            if alpha == 0.0:
+                Qw[ind - 1] = Qw[ind]
+            else:
+                alpha /= Ubar[k + l] - U[i - p + l]
+                Qw[ind - 1] = alpha * Qw[ind - 1] + (1.0 - alpha) * Qw[ind]
 
-        # Load refined control points into final array
-        Qw[k] = Rw[p]
         Ubar[k] = X[j]
-
-        k -= 1
-        j -= 1
-
-    # Set remaining control points and knots
-    while i > 0:
-        Qw[k] = Pw[i - 1]
-        Ubar[k] = U[i]
         k -= 1
-        i -= 1
 
     return Qw, Ubar
 
-- 
2.43.0


From b412585cf52ac36120718a386e8cdd969f45c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:37 +0000
Subject: [PATCH 199/200] fix: knot_refinement1 inserts knots into the last
 span too

---
 mmcore/geom/curves/knot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 0a5b219..4065248 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -609,8 +609,8 @@ def knot_refinement1(degree, knotvector, ctrlpts, **kwargs):
     r = len(X) - 1
     n = len(ctrlpts) - 1
     m = n + degree + 1
-    a = find_span_linear(degree, knotvector, n, X[0])
-    b = find_span_linear(degree, knotvector, n, X[r]) + 1
+    a = find_span_linear(degree, knotvector, n + 1, X[0])
+    b = find_span_linear(degree, knotvector, n + 1, X[r]) + 1
 
     # Initialize new control points array
     if isinstance(ctrlpts[0][0], float):
-- 
2.43.0


From 250254745418611ce1d3f9b8482ee20fdb51dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 200/200] fix: binomial coefficients beyond the table are
 worked out (they were read from the memory behind it)

---
 mmcore/numeric/binom.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/numeric/binom.pyx b/mmcore/numeric/binom.pyx
index 67df244..9a7b17f 100644
--- a/mmcore/numeric/binom.pyx
+++ b/mmcore/numeric/binom.pyx
@@ -1,4 +1,6 @@
 
+import math
+
 cimport cython
 
 cimport numpy as cnp
@@ -975,5 +977,7 @@ cdef public double binomial_coefficient(int i, int j) noexcept nogil:
 @cython.wraparound(False)
 @cython.cdivision(True)
 def binomial_coefficient_py(int i, int j):
+    if not (0 <= i < 31 and 0 <= j < 31):
+        return float(math.comb(i, j))
     return binomial_coefficients[i][j]
 
-- 
2.43.0

