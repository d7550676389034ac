From f8bc0ba58b988a9cb3db1e52d8cfbfea6e5a5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:08 +0000
Subject: [PATCH 01/45] fix: IntervalGraph.remove_node removes the node's edges
 from the interval tree too

---
 dynetworkx/classes/intervalgraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 391f434..3b49003 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -610,13 +610,16 @@ class IntervalGraph(object):
             return
 
         if begin is None and end is None:
+            for iedge in [iv for v in self._adj.get(n, {}) for iv in self._adj[n][v]]:
+                self.tree.remove(iedge)
             self._adj.pop(n, None)
             for v in self._adj:
                 if n in self._adj[v]:
                     self._adj[v].pop(n, None)
 
         else:
-            iedges = self.tree[begin:end]
+            # collect the edges first, the tree cannot be modified while it is being searched
+            iedges = list(self.tree[begin:end])
             for iedge in iedges:
                 if iedge[0] == n or iedge[1] == n:
                     self.__remove_iedge(iedge)
-- 
2.43.0


From a829f569743f9e7f54a618d5e8cc3773ae94a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:21 +0000
Subject: [PATCH 02/45] fix: IntervalTree.remove keeps the rest of the tree,
 its index and its bounds intact

---
 dynetworkx/classes/intervaltree.py | 74 +++++++++++++++---------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ff9e366..31d4b51 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -10,7 +10,7 @@ class Node:
 
         self.left = None
         self.right = None
-        self.height = 0
+        self.height = 1
 
     def inInterval(self, begin, end):
         return (self.low < end and self.high > begin) or self.low == begin
@@ -56,48 +56,47 @@ class IntervalTree:
         else:
             root.right = self.insert(root.right, node)
 
-        root.height = 1 + max(self.getHeight(root.left), self.getHeight(root.right))
-
-        balance = self.getBalance(root)
-
-        if balance > 1:
-            if root.left.right == node:
-                root.left = self.leftRotate(root.left)
-            return self.rightRotate(root)
-
-        elif balance < -1:
-            if root.right.left == node:
-                root.right = self.rightRotate(root.right)
-            return self.leftRotate(root)
-
-        self.updateMax(root)
-
-        return root
+        return self.rebalance(root)
 
     def discard(self, root, node):
+        # returns the root of the subtree without node
+        if root is None:
+            return None
+
         if root is node:
-            if root.left:
-                return root.left
-            if root.right:
+            if root.left is None:
                 return root.right
-            return None
+            if root.right is None:
+                return root.left
+
+            # node has two children, its in-order successor takes its place
+            successor = root.right
+            while successor.left is not None:
+                successor = successor.left
+            right = self.discard(root.right, successor)
+            successor.left = root.left
+            successor.right = right
+            return self.rebalance(successor)
 
         if node.low < root.low or (node.low == root.low and node.high < root.high):
             root.left = self.discard(root.left, node)
         else:
             root.right = self.discard(root.right, node)
 
+        return self.rebalance(root)
+
+    def rebalance(self, root):
         root.height = 1 + max(self.getHeight(root.left), self.getHeight(root.right))
 
         balance = self.getBalance(root)
 
         if balance > 1:
-            if root.left.right == node:
+            if self.getBalance(root.left) < 0:
                 root.left = self.leftRotate(root.left)
             return self.rightRotate(root)
 
         elif balance < -1:
-            if root.right.left == node:
+            if self.getBalance(root.right) > 0:
                 root.right = self.rightRotate(root.right)
             return self.leftRotate(root)
 
@@ -189,24 +188,25 @@ class IntervalTree:
         start = edge[2]
         end = edge[3]
 
-        node = self.nodes[(start, end)]
-        if edge not in node.edges:
+        node = self.nodes.get((start, end))
+        if node is None or edge not in node.edges:
             return
 
         node.edges.remove(edge)
         self.number_of_edges -= 1
         if len(node.edges) == 0:
-            self.discard(self.root, node)
-        if self.begin == start:
-            traversal_node = self.root
-            while traversal_node.left != None:
-                self.begin = traversal_node.left.low
-                traversal_node = traversal_node.left
-        if self.end == end:
-            traversal_node = self.root
-            while traversal_node.right != None:
-                self.end = traversal_node.right.high
-                traversal_node = traversal_node.right
+            del self.nodes[(start, end)]
+            self.root = self.discard(self.root, node)
+
+            if self.root is None:
+                self.begin = float("inf")
+                self.end = float("-inf")
+            else:
+                leftmost = self.root
+                while leftmost.left is not None:
+                    leftmost = leftmost.left
+                self.begin = leftmost.low
+                self.end = self.root.max
 
         return
 
-- 
2.43.0


From e6be21aed772654d1d629f5d5fc2721e7692cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 03/45] fix: a rejected add_edge leaves interval graphs and
 their tree unchanged

---
 dynetworkx/classes/intervaldigraph.py | 15 +++++++++------
 dynetworkx/classes/intervalgraph.py   | 13 ++++++++-----
 dynetworkx/classes/intervaltree.py    | 16 ++++++++++++----
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2749aa1..7793e4d 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -139,12 +139,8 @@ class IntervalDiGraph(IntervalGraph):
 
         iedge = (u, v, begin, end)
 
-        # add nodes
-
-        self._pred.setdefault(u, {}).setdefault(v, {})
-        self._succ.setdefault(v, {}).setdefault(u, {})
-        self._node.setdefault(u, {})
-        self._node.setdefault(v, {})
+        # a node or an interval which cannot be hashed must not leave a partial edge behind
+        hash(iedge)
 
         # add edge
         try:
@@ -152,6 +148,13 @@ class IntervalDiGraph(IntervalGraph):
         except ValueError:
             raise NetworkXError("IntervalDiGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
 
+        # add nodes
+
+        self._pred.setdefault(u, {}).setdefault(v, {})
+        self._succ.setdefault(v, {}).setdefault(u, {})
+        self._node.setdefault(u, {})
+        self._node.setdefault(v, {})
+
         self._pred[u][v][iedge] = self._succ[v][u][iedge] = attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 3b49003..64e9b80 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -689,11 +689,8 @@ class IntervalGraph(object):
 
         iedge = (u, v, begin, end)
 
-        # add nodes
-        self._adj.setdefault(u, {}).setdefault(v, {})
-        self._adj.setdefault(v, {}).setdefault(u, {})
-        self._node.setdefault(u, {})
-        self._node.setdefault(v, {})
+        # a node or an interval which cannot be hashed must not leave a partial edge behind
+        hash(iedge)
 
         # add edge
         try:
@@ -701,6 +698,12 @@ class IntervalGraph(object):
         except ValueError:
             raise NetworkXError("IntervalGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
 
+        # add nodes
+        self._adj.setdefault(u, {}).setdefault(v, {})
+        self._adj.setdefault(v, {}).setdefault(u, {})
+        self._node.setdefault(u, {})
+        self._node.setdefault(v, {})
+
         self._adj[u][v][iedge] = self._adj[v][u][iedge] = attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 31d4b51..44a49ae 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -168,14 +168,22 @@ class IntervalTree:
             self.number_of_edges += 1
             return
 
+        # compare first, so that an edge whose interval cannot be ordered leaves the tree unchanged
+        if end < start:
+            raise ValueError("Interval end must not be smaller than its begin: begin: {}, end: {}.".format(start, end))
+        if self.root is None:
+            tree_begin, tree_end = start, end
+        else:
+            tree_begin, tree_end = min(self.begin, start), max(self.end, end)
+
         node = Node(start, end)
         node.edges.append(edge)
-        self.nodes[(start, end)] = node
-
         self.root = self.insert(self.root, node)
+
+        self.nodes[(start, end)] = node
         self.number_of_edges += 1
-        self.begin = min(self.begin, start)
-        self.end = max(self.end, end)
+        self.begin = tree_begin
+        self.end = tree_end
         return
 
     def add_from(self, edges):
-- 
2.43.0


From a43b4f4f5eec946dac7bce718e86cbc514c0916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:13 +0000
Subject: [PATCH 04/45] fix: time 0 and an open query end are honoured by
 interval queries

A begin or end of 0 was taken for 'not given', and an omitted bound was
replaced by the graph's own begin or (non-inclusive) end, which hid
instantaneous edges at the end and returned edges starting at an
exclusive end.
---
 dynetworkx/classes/impulsedigraph.py  |  2 +-
 dynetworkx/classes/impulsegraph.py    |  2 +-
 dynetworkx/classes/intervaldigraph.py |  8 ++++----
 dynetworkx/classes/intervalgraph.py   |  8 ++++----
 dynetworkx/classes/intervaltree.py    | 13 +++++++------
 5 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 81690c0..8f12304 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -309,7 +309,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91427f9..ceae459 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -645,7 +645,7 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 7793e4d..1260843 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -262,7 +262,7 @@ class IntervalDiGraph(IntervalGraph):
 
             return self.edges(u, v, begin, end) is not None
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -592,7 +592,7 @@ class IntervalDiGraph(IntervalGraph):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -920,7 +920,7 @@ class IntervalDiGraph(IntervalGraph):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
         iedges = self.tree[begin:end]
@@ -989,5 +989,5 @@ class IntervalDiGraph(IntervalGraph):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 64e9b80..d1cf9dc 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -491,7 +491,7 @@ class IntervalGraph(object):
         if begin is not None and end is not None and end < begin:
             return False
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -806,7 +806,7 @@ class IntervalGraph(object):
 
             return self.edges(u, v, begin, end) is not None
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -1081,7 +1081,7 @@ class IntervalGraph(object):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
@@ -1282,7 +1282,7 @@ class IntervalGraph(object):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False,
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 44a49ae..fb709b9 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -13,6 +13,11 @@ class Node:
         self.height = 1
 
     def inInterval(self, begin, end):
+        # begin or end is None if the interval is not bounded on that side
+        if begin is None:
+            return end is None or self.low < end
+        if end is None:
+            return self.high > begin or self.low == begin
         return (self.low < end and self.high > begin) or self.low == begin
 
 class IntervalTree:
@@ -148,13 +153,13 @@ class IntervalTree:
         return self.getHeight(node.left) - self.getHeight(node.right)
 
     def query(self, node, begin, end):
-        if node.left and node.left.max >= begin:
+        if node.left and (begin is None or node.left.max >= begin):
             yield from self.query(node.left, begin, end)
 
         if node.inInterval(begin, end):
             yield node
 
-        if node.right and node.low <= end and node.right.max >= begin:
+        if node.right and (end is None or node.low <= end) and (begin is None or node.right.max >= begin):
             yield from self.query(node.right, begin, end)
 
     def add(self, edge):
@@ -223,10 +228,6 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if not interval_start:
-            interval_start = self.begin
-        if not interval_end:
-            interval_end = self.end
 
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
-- 
2.43.0


From 4f73f83f4b34ebad4673400d705f32ab751db618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 05/45] fix: unique_*timestamps return every event within the
 interval

Events touching the interval only with their begin or end were dropped,
a begin or end of 0 was ignored and an empty graph raised AttributeError.
---
 dynetworkx/classes/intervaltree.py | 73 ++++++++----------------------
 1 file changed, 18 insertions(+), 55 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index fb709b9..37b994a 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -232,73 +232,36 @@ class IntervalTree:
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
 
-    def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
+    def _timestamps(self, begin, end, inclusive, low=False, high=False):
         timestamps = set()
 
-        if not begin:
-            begin = self.begin
-        if not end:
-            end = self.end
-
         if inclusive[0]:
-            begin_operator = operator.__le__
+            begin_operator = operator.le
         else:
-            begin_operator = operator.__lt__
+            begin_operator = operator.lt
         if inclusive[1]:
-            end_operator = operator.__le__
+            end_operator = operator.le
         else:
-            end_operator = operator.__lt__
-
-        for n in self.query(self.root, begin, end):
-            if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
-                timestamps.add(n.low)
-            if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
-                timestamps.add(n.high)
-
-        return sorted(timestamps)
-
-    def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
-        timestamps = set()
+            end_operator = operator.lt
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
-        if inclusive[0]:
-            begin_operator = operator.__le__
-        else:
-            begin_operator = operator.__lt__
-        if inclusive[1]:
-            end_operator = operator.__le__
-        else:
-            end_operator = operator.__lt__
-
-        for n in self.query(self.root, begin, end):
-            if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
-                timestamps.add(n.low)
+        # every node has to be checked, an interval may also touch the given one with just its begin or end
+        for n in self.inOrder(self.root):
+            for time in (n.low,) * low + (n.high,) * high:
+                if begin_operator(begin, time) and end_operator(time, end):
+                    timestamps.add(time)
 
         return sorted(timestamps)
 
-    def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
-        timestamps = set()
-
-        if not begin:
-            begin = self.begin
-        if not end:
-            end = self.end
-
-        if inclusive[0]:
-            begin_operator = operator.__le__
-        else:
-            begin_operator = operator.__lt__
-        if inclusive[1]:
-            end_operator = operator.__le__
-        else:
-            end_operator = operator.__lt__
+    def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
+        return self._timestamps(begin, end, inclusive, low=True, high=True)
 
-        for n in self.query(self.root, begin, end):
-            if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
-                timestamps.add(n.high)
+    def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
+        return self._timestamps(begin, end, inclusive, low=True)
 
-        return sorted(timestamps)
+    def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
+        return self._timestamps(begin, end, inclusive, high=True)
-- 
2.43.0


From d139296ac1dc45739194d5d855a5897ee46ea83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 06/45] fix: IntervalGraph.add_edge recognises an existing edge
 given with its nodes swapped

---
 dynetworkx/classes/intervalgraph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index d1cf9dc..82ff95d 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -682,10 +682,12 @@ class IntervalGraph(object):
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
 
-        if u in self._adj and v in self._adj[u] and (u, v, begin, end) in self._adj[u][v]:
-            self._adj[u][v][(u, v, begin, end)].update(attr)
-            self._adj[v][u][(u, v, begin, end)].update(attr)
-            return
+        # the graph is undirected, (v, u) is the same edge as (u, v)
+        if u in self._adj and v in self._adj[u]:
+            for iedge in ((u, v, begin, end), (v, u, begin, end)):
+                if iedge in self._adj[u][v]:
+                    self._adj[u][v][iedge].update(attr)
+                    return
 
         iedge = (u, v, begin, end)
 
-- 
2.43.0


From ca7d5295b851c79e9409d1baa38f3e236148f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 07/45] fix: has_edge and remove_edge match exact intervals and
 see removed edges as gone

With overlapping=False has_edge was always True and remove_edge always
raised; has_edge without an interval stayed True after the last edge was
removed by remove_node, and removing a self-loop raised KeyError.
---
 dynetworkx/classes/intervaldigraph.py | 28 +++++++++------------
 dynetworkx/classes/intervalgraph.py   | 36 +++++++++++++--------------
 2 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 1260843..9c81e6e 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -251,16 +251,14 @@ class IntervalDiGraph(IntervalGraph):
         if v not in self._pred[u]:
             return False
 
-        if begin is None and end is None:
-            if v in self._pred[u]:
-                return True
-            return False
-
         if not overlapping:
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._pred[u][v]
+
+        if begin is None and end is None:
+            return len(self._pred[u][v]) > 0
 
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
@@ -573,20 +571,18 @@ class IntervalDiGraph(IntervalGraph):
         if u not in self._pred or v not in self._pred[u]:
             return
 
-        # remove edge between u and v with the exact given interval
-        if not overlapping:
-            if begin is None or end is None:
-                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
-
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
-            return
+        if not overlapping and (begin is None or end is None):
+            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
         iedges_to_remove = []
 
+        # remove edge between u and v with the exact given interval
+        if not overlapping:
+            if (u, v, begin, end) in self._pred[u][v]:
+                iedges_to_remove.append((u, v, begin, end))
+
         # remove every edge between u and v
-        if begin is None and end is None:
+        elif begin is None and end is None:
             for iv in self._pred[u][v]:
                 iedges_to_remove.append(iv)
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 82ff95d..2312a8b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -799,14 +799,14 @@ class IntervalGraph(object):
         if u not in self._adj or v not in self._adj[u]:
             return False
 
-        if begin is None and end is None:
-            return True
-
         if not overlapping:
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._adj[u][v] or (v, u, begin, end) in self._adj[u][v]
+
+        if begin is None and end is None:
+            return len(self._adj[u][v]) > 0
 
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -1064,20 +1064,20 @@ class IntervalGraph(object):
         if u not in self._adj or v not in self._adj[u]:
             return
 
-        # remove edge between u and v with the exact given interval
-        if not overlapping:
-            if begin is None or end is None:
-                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
-
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
-            return
+        if not overlapping and (begin is None or end is None):
+            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
         iedges_to_remove = []
 
+        # remove edge between u and v with the exact given interval
+        if not overlapping:
+            for iv in ((u, v, begin, end), (v, u, begin, end)):
+                if iv in self._adj[u][v]:
+                    iedges_to_remove.append(iv)
+                    break
+
         # remove every edge between u and v
-        if begin is None and end is None:
+        elif begin is None and end is None:
             for iv in self._adj[u][v]:
                 iedges_to_remove.append(iv)
 
@@ -1098,12 +1098,10 @@ class IntervalGraph(object):
         # clean up empty dictionaries
         if len(self._adj[u][v]) == 0:
             self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
             self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
+        for n in (u, v):
+            if n in self._adj and len(self._adj[n]) == 0:
+                self._adj.pop(n, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
-- 
2.43.0


From d5d0d93192d9ba84dc092acc56affcc0a9ee18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:50 +0000
Subject: [PATCH 08/45] fix: IntervalDiGraph.remove_node removes the node and
 its edges instead of raising AttributeError

---
 dynetworkx/classes/intervaldigraph.py | 56 +++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 9c81e6e..d955a97 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -78,6 +78,62 @@ class IntervalDiGraph(IntervalGraph):
         self._pred.setdefault(node_for_adding, {})
         self._succ.setdefault(node_for_adding, {})
 
+    def remove_node(self, n, begin=None, end=None):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all its in and out edges within the given interval.
+
+        If interval is specified, all the edges of n will be removed within that interval.
+
+        Quiet if n is not in the interval graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire interval graph)
+            Inclusive beginning time of the node appearing in the interval graph.
+        end: int or float, optional  (default= end of the entire interval graph + 1)
+            Non-inclusive ending time of the node appearing in the interval graph.
+            Must be bigger than or equal to begin.
+            Note that the default value is shifted up by 1 to make it an inclusive end.
+
+        Examples
+        --------
+        >>> G = dnx.IntervalDiGraph()
+        >>> G.add_edges_from([(1, 2, 3, 10), (2, 4, 1, 11), (6, 4, 12, 19), (2, 4, 8, 15)])
+        >>> G.remove_node(2)
+        >>> G.edges()
+        [(6, 4, 12, 19)]
+        """
+
+        if n not in self._node:
+            return
+
+        if begin is None and end is None:
+            iedges = set(iv for v in self._pred.get(n, {}) for iv in self._pred[n][v])
+            iedges.update(iv for u in self._succ.get(n, {}) for iv in self._succ[n][u])
+            for iedge in iedges:
+                self.tree.remove(iedge)
+            for v in self._pred.pop(n, {}):
+                if v != n:
+                    self._succ[v].pop(n, None)
+            for u in self._succ.pop(n, {}):
+                if u != n:
+                    self._pred[u].pop(n, None)
+
+        else:
+            # collect the edges first, the tree cannot be modified while it is being searched
+            for iedge in list(self.tree[begin:end]):
+                if iedge[0] == n or iedge[1] == n:
+                    self.__remove_iedge(iedge)
+
+        # delete the node and its attributes if no edge left
+        if len(self._pred.get(n, {})) == 0 and len(self._succ.get(n, {})) == 0:
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def add_edge(self, u, v, begin, end, **attr):
         """Add an edge between u and v, during interval [begin, end).
 
-- 
2.43.0


From 95ef38559ecce45789eacd7ef02837d302bdf87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:23 +0000
Subject: [PATCH 09/45] fix: IntervalDiGraph.to_subgraph reads edges as tuples
 instead of raising AttributeError

---
 dynetworkx/classes/intervaldigraph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index d955a97..200a997 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -983,17 +983,17 @@ class IntervalDiGraph(IntervalGraph):
             G = DiGraph()
 
         if edge_data and edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1],
-                              dict(self._pred[iedge.data[0]][iedge], begin=iedge.begin, end=iedge.end))
+            G.add_edges_from((iedge[0], iedge[1],
+                              dict(self._pred[iedge[0]][iedge[1]][iedge], begin=iedge[2], end=iedge[3]))
                              for iedge in iedges)
         elif edge_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], self._pred[iedge.data[0]][iedge].copy())
+            G.add_edges_from((iedge[0], iedge[1], self._pred[iedge[0]][iedge[1]][iedge].copy())
                              for iedge in iedges)
         elif edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], {'begin': iedge.begin, 'end': iedge.end})
+            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})
                              for iedge in iedges)
         else:
-            G.add_edges_from((iedge.data[0], iedge.data[1]) for iedge in iedges)
+            G.add_edges_from((iedge[0], iedge[1]) for iedge in iedges)
 
         # include node attributes
         if node_data:
-- 
2.43.0


From 42f15040b04b7b52fbbc8304485280a6bca782d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:53 +0000
Subject: [PATCH 10/45] fix: edges() takes strings and iterable nodes as one
 node and every node of a list

edges(u='ab') returned the edges of 'a' and 'b', and for lists without
an interval only the first pair of nodes was looked up.
---
 dynetworkx/classes/impulsedigraph.py  | 26 ++++++----------
 dynetworkx/classes/impulsegraph.py    | 45 +++++++++++++++++----------
 dynetworkx/classes/intervaldigraph.py | 26 ++++++----------
 dynetworkx/classes/intervalgraph.py   | 44 ++++++++++++++++----------
 4 files changed, 77 insertions(+), 64 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 8f12304..3a2c724 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -358,14 +358,14 @@ class ImpulseDiGraph(ImpulseGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -458,15 +458,9 @@ class ImpulseDiGraph(ImpulseGraph):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        # Pack u and v if necessary
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index ceae459..e70cd6c 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -715,6 +715,25 @@ class ImpulseGraph(object):
 
         self._model = model
 
+    def _pack_nodes(self, n):
+        """Return a list of nodes, given a node, a container of nodes or None.
+
+        Strings and other iterables which are nodes of the graph are single nodes.
+        """
+        if n is None or isinstance(n, str):
+            return [n]
+
+        try:
+            if n in self._node:
+                return [n]
+        except TypeError:  # an unhashable container of nodes
+            pass
+
+        try:
+            return list(n)
+        except TypeError:
+            return [n]
+
     def __edges_node_first(self, u_list, v_list, begin, end):
         # Node filtering
         iedges = set()
@@ -736,14 +755,14 @@ class ImpulseGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -836,15 +855,9 @@ class ImpulseGraph(object):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        # Pack u and v if necessary
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 200a997..1c25595 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -346,14 +346,14 @@ class IntervalDiGraph(IntervalGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalDiGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -450,15 +450,9 @@ class IntervalDiGraph(IntervalGraph):
         # If non of the nodes are defined the interval tree is queried for the list of edges,
         # otherwise the edges are returned based on the nodes in the self._adj.o
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        # Pack u and v if necessary
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2312a8b..b31136c 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -817,6 +817,25 @@ class IntervalGraph(object):
                 return True
         return False
 
+    def _pack_nodes(self, n):
+        """Return a list of nodes, given a node, a container of nodes or None.
+
+        Strings and other iterables which are nodes of the graph are single nodes.
+        """
+        if n is None or isinstance(n, str):
+            return [n]
+
+        try:
+            if n in self._node:
+                return [n]
+        except TypeError:  # an unhashable container of nodes
+            pass
+
+        try:
+            return list(n)
+        except TypeError:
+            return [n]
+
     def __edges_node_first(self, u_list, v_list, begin, end):
         # Node filtering
         iedges = set()
@@ -838,14 +857,14 @@ class IntervalGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalGraph.__overlaps_or_contains(iv, begin, end)]
 
@@ -949,15 +968,8 @@ class IntervalGraph(object):
         # otherwise the edges are returned based on the nodes in the self._adj.
 
         # Pack u and v if necessary
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-- 
2.43.0


From af399c078a8cafa73181d67bf27c0df6798bd9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:28 +0000
Subject: [PATCH 11/45] fix: edges() gives the same answer with and without a
 predictive model

After generate_predictive_model, a query with nodes and an interval
raised (wrong shape passed to predict, division by zero, unpacking
errors) or, searching by interval first, returned edges touching any of
the nodes, ignored the direction and lost the edges at the graph's end.
---
 dynetworkx/classes/impulsedigraph.py  | 28 ++-----------
 dynetworkx/classes/impulsegraph.py    | 59 ++++++++++++++++-----------
 dynetworkx/classes/intervaldigraph.py | 28 ++-----------
 dynetworkx/classes/intervalgraph.py   | 59 ++++++++++++++++-----------
 4 files changed, 78 insertions(+), 96 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 3a2c724..a459ca8 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -471,30 +471,10 @@ class ImpulseDiGraph(ImpulseGraph):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
-
-            interval_percent = (end - begin) / (graph_end - graph_begin)
-
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
-
-            if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
-            else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+        elif (begin is not None or end is not None) and self._model is not None \
+                and self._predict_interval_first(u, v, begin, end):
+            iedges = [e for e in self.__edges_interval_first(begin, end)
+                      if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index e70cd6c..17d2b97 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -734,6 +734,36 @@ class ImpulseGraph(object):
         except TypeError:
             return [n]
 
+    def _predict_interval_first(self, u, v, begin, end):
+        """Return True if the trained model predicts that searching by interval before filtering
+        by nodes is at least as fast as searching by nodes.
+
+        Parameters
+        ----------
+        u, v: lists of nodes
+        begin, end: int or float, or None if the interval is not bounded on that side
+        """
+        if len(self.tree) == 0:
+            return False
+
+        graph_begin, graph_end = self.interval()
+        if begin is None:
+            begin = graph_begin
+        if end is None:
+            end = graph_end
+
+        nodes = set(n for n in u + v if n is not None)
+        node_percent = len(nodes) / self.number_of_nodes()
+
+        if graph_end == graph_begin:
+            interval_percent = 1
+        else:
+            interval_percent = (end - begin) / (graph_end - graph_begin)
+
+        node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+
+        return bool(node_time >= interval_time)
+
     def __edges_node_first(self, u_list, v_list, begin, end):
         # Node filtering
         iedges = set()
@@ -868,30 +898,11 @@ class ImpulseGraph(object):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
-
-            interval_percent = (end - begin) / (graph_end - graph_begin)
-
-            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
-
-            if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
-            else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+        elif (begin is not None or end is not None) and self._model is not None \
+                and self._predict_interval_first(u, v, begin, end):
+            iedges = [e for e in self.__edges_interval_first(begin, end)
+                      if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)
+                      or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 1c25595..8a9e1b6 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -463,30 +463,10 @@ class IntervalDiGraph(IntervalGraph):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
-
-            interval_percent = (end - begin) / (graph_end - graph_begin)
-
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
-
-            if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
-            else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+        elif (begin is not None or end is not None) and self._model is not None \
+                and self._predict_interval_first(u, v, begin, end):
+            iedges = [e for e in self.__edges_interval_first(begin, end)
+                      if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index b31136c..5553dfb 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -836,6 +836,36 @@ class IntervalGraph(object):
         except TypeError:
             return [n]
 
+    def _predict_interval_first(self, u, v, begin, end):
+        """Return True if the trained model predicts that searching by interval before filtering
+        by nodes is at least as fast as searching by nodes.
+
+        Parameters
+        ----------
+        u, v: lists of nodes
+        begin, end: int or float, or None if the interval is not bounded on that side
+        """
+        if self.tree.root is None:
+            return False
+
+        graph_begin, graph_end = self.interval()
+        if begin is None:
+            begin = graph_begin
+        if end is None:
+            end = graph_end
+
+        nodes = set(n for n in u + v if n is not None)
+        node_percent = len(nodes) / self.number_of_nodes()
+
+        if graph_end == graph_begin:
+            interval_percent = 1
+        else:
+            interval_percent = (end - begin) / (graph_end - graph_begin)
+
+        node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
+
+        return bool(node_time >= interval_time)
+
     def __edges_node_first(self, u_list, v_list, begin, end):
         # Node filtering
         iedges = set()
@@ -980,30 +1010,11 @@ class IntervalGraph(object):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
-            if u == [None]:
-                nodes = v
-            elif v == [None]:
-                nodes = u
-            else:
-                nodes = set(*u).union(set(*v))
-
-            node_percent = len(nodes) / self.number_of_nodes()
-
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
-
-            interval_percent = (end - begin) / (graph_end - graph_begin)
-
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
-
-            if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
-            else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+        elif (begin is not None or end is not None) and self._model is not None \
+                and self._predict_interval_first(u, v, begin, end):
+            iedges = [e for e in self.__edges_interval_first(begin, end)
+                      if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)
+                      or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]
 
         # Node First
         else:
-- 
2.43.0


From d66ecb0877a379206931898e90a89e5a24e55912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:19 +0000
Subject: [PATCH 12/45] fix: generate_predictive_model terminates and accepts
 float timestamps

random.randint rejects the float timestamps load_from_txt creates,
samples never matched on small or sparse graphs so that training did not
end, nodes without edges raised KeyError and ImpulseDiGraph iterated
timestamps as if they were edges.
---
 dynetworkx/classes/impulsedigraph.py  | 31 +++++++++++++++++++++------
 dynetworkx/classes/impulsegraph.py    | 26 ++++++++++++++++------
 dynetworkx/classes/intervaldigraph.py | 26 ++++++++++++++++------
 dynetworkx/classes/intervalgraph.py   | 28 +++++++++++++++++-------
 4 files changed, 82 insertions(+), 29 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index a459ca8..2155bf9 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -328,6 +328,11 @@ class ImpulseDiGraph(ImpulseGraph):
         """
         X, y = self.__generate_training_data(training_size)
 
+        # no edges to learn from, edges will be searched without a model
+        if len(X) == 0:
+            self._model = None
+            return
+
         model = LinearRegression()
         model.fit(X, y)
 
@@ -499,17 +504,24 @@ class ImpulseDiGraph(ImpulseGraph):
             Number of samples to generate.
         """
 
-        node_list = list(self._node.keys())
-        graph_begin, graph_end = self.interval()
         X = []
         y = []
+        if len(self.tree) == 0:
+            return X, y
+
+        node_list = list(self._node.keys())
+        graph_begin, graph_end = self.interval()
+
+        # samples without any edge are not used, in a sparse graph there might be few others
+        for _ in range(100 * training_size):
+            if len(X) == training_size:
+                break
 
-        while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -527,7 +539,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_edges = []
             start_timer = timer()
-            for edge in self.tree.irange(begin, end, inclusive=(True, False)):
+            for edge in [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]:
                 if edge[0] in nodes or edge[1] in nodes:
                     interval_edges.append(edge)
             interval_time = timer() - start_timer
@@ -547,6 +559,11 @@ class ImpulseDiGraph(ImpulseGraph):
         """
         X, y = self.__generate_training_data(training_size)
 
+        # no edges to learn from, edges will be searched without a model
+        if len(X) == 0:
+            self._model = None
+            return
+
         model = LinearRegression()
         model.fit(X, y)
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 17d2b97..ad1d13f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -663,23 +663,30 @@ class ImpulseGraph(object):
             Number of samples to generate.
         """
 
-        node_list = list(self._node.keys())
-        graph_begin, graph_end = self.interval()
         X = []
         y = []
+        if len(self.tree) == 0:
+            return X, y
+
+        node_list = list(self._node.keys())
+        graph_begin, graph_end = self.interval()
+
+        # samples without any edge are not used, in a sparse graph there might be few others
+        for _ in range(100 * training_size):
+            if len(X) == training_size:
+                break
 
-        while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
             start_timer = timer()
             for u in nodes:
-                for v in self._adj[u]:
+                for v in self._adj.get(u, {}):
                     for edge in self._adj[u][v]:
                         if edge not in node_edges and (edge[2] == begin or (begin < edge[2] < end)):
                             node_edges.add(edge)
@@ -710,6 +717,11 @@ class ImpulseGraph(object):
         """
         X, y = self.__generate_training_data(training_size)
 
+        # no edges to learn from, edges will be searched without a model
+        if len(X) == 0:
+            self._model = None
+            return
+
         model = LinearRegression()
         model.fit(X, y)
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 8a9e1b6..73ba297 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -491,17 +491,24 @@ class IntervalDiGraph(IntervalGraph):
             Number of samples to generate.
         """
 
-        node_list = list(self._node.keys())
-        graph_begin, graph_end = self.interval()
         X = []
         y = []
+        if len(self.tree.nodes) == 0:
+            return X, y
+
+        node_list = list(self._node.keys())
+        graph_begin, graph_end = self.interval()
+
+        # samples without any edge are not used, in a sparse graph there might be few others
+        for _ in range(100 * training_size):
+            if len(X) == training_size:
+                break
 
-        while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -510,7 +517,7 @@ class IntervalDiGraph(IntervalGraph):
                 if u in self._pred:
                     for v in self._pred[u]:
                         for edge in self._pred[u][v]:
-                            if edge not in node_edges and (edge[2] == begin or (edge[2] > begin and edge[3] < end)):
+                            if edge not in node_edges and IntervalDiGraph.__overlaps_or_contains(edge, begin, end):
                                 node_edges.add(edge)
             node_time = timer() - start_timer
 
@@ -539,6 +546,11 @@ class IntervalDiGraph(IntervalGraph):
         """
         X, y = self.__generate_training_data(training_size)
 
+        # no edges to learn from, edges will be searched without a model
+        if len(X) == 0:
+            self._model = None
+            return
+
         model = LinearRegression()
         model.fit(X, y)
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5553dfb..e0d86f9 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1235,25 +1235,32 @@ class IntervalGraph(object):
             Number of samples to generate.
         """
 
-        node_list = list(self._node.keys())
-        graph_begin, graph_end = self.interval()
         X = []
         y = []
+        if len(self.tree.nodes) == 0:
+            return X, y
+
+        node_list = list(self._node.keys())
+        graph_begin, graph_end = self.interval()
+
+        # samples without any edge are not used, in a sparse graph there might be few others
+        for _ in range(100 * training_size):
+            if len(X) == training_size:
+                break
 
-        while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=max(1, math.floor(node_percent / 100 * len(node_list)))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
             start_timer = timer()
             for u in nodes:
-                for v in self._adj[u]:
+                for v in self._adj.get(u, {}):
                     for edge in self._adj[u][v]:
-                        if edge not in node_edges and (edge[2] == begin or (edge[2] > begin and edge[3] < end)):
+                        if edge not in node_edges and IntervalGraph.__overlaps_or_contains(edge, begin, end):
                             node_edges.add(edge)
             node_time = timer() - start_timer
 
@@ -1282,6 +1289,11 @@ class IntervalGraph(object):
         """
         X, y = self.__generate_training_data(training_size)
 
+        # no edges to learn from, edges will be searched without a model
+        if len(X) == 0:
+            self._model = None
+            return
+
         model = LinearRegression()
         model.fit(X, y)
 
-- 
2.43.0


From 7854d14e1e3ac2b38ac5403b8c5e6efa4a9c8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:32 +0000
Subject: [PATCH 13/45] fix: to_snapshots accepts a snapshot length for float
 timestamps and keeps the last edge

The number of snapshots was computed as a float and then rejected, a
length of 0 raised ZeroDivisionError, and rounding could leave the last
timestamp of an ImpulseGraph out of every snapshot.
---
 dynetworkx/classes/impulsegraph.py  | 11 +++++++----
 dynetworkx/classes/intervalgraph.py |  6 +++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index ad1d13f..61316da 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1309,10 +1309,10 @@ class ImpulseGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
-                                    "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+                                    "{0} was passed.".format(length_of_snapshots))
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
@@ -1326,11 +1326,14 @@ class ImpulseGraph(object):
         snapshots = []
         inclusive = (True, False)
         for i in range(number_of_snapshots):
+            snapshot_end = begin + length_of_snapshots * (i + 1)
             if i == number_of_snapshots - 1:
                 inclusive = (True, True)
+                # rounding must not exclude the end of the graph from the last snapshot
+                snapshot_end = max(snapshot_end, end)
             snapshots.append(
                 self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1), inclusive=inclusive,
+                                 snapshot_end, inclusive=inclusive,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
         if return_length:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e0d86f9..6b20375 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1488,10 +1488,10 @@ class IntervalGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
-                                    "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+                                    "{0} was passed.".format(length_of_snapshots))
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
-- 
2.43.0


From 73ad6fb8a2ad5abffd6203a2886a6df2bbd6d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 14/45] fix: IntervalGraph.to_snapshot_graph makes one snapshot
 between consecutive changes

Timestamps were kept in a list with duplicates, which made additional
empty-length snapshots and missed changes whenever two edges ended at
the same time.
---
 dynetworkx/classes/intervalgraph.py | 54 ++++-------------------------
 1 file changed, 6 insertions(+), 48 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 6b20375..b9b55e5 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -4,7 +4,7 @@ from networkx.exception import NetworkXError
 from dynetworkx.classes.intervaltree import IntervalTree
 from networkx.classes.multigraph import MultiGraph
 from networkx.classes.reportviews import NodeDataView
-from sortedcontainers import SortedList, SortedDict
+from sortedcontainers import SortedDict
 import random
 import math
 from timeit import default_timer as timer
@@ -1581,63 +1581,21 @@ class IntervalGraph(object):
         # into a snapshot graph. Snapshots' lengths are variable and each snapshot represents a change in a series edges
         # E.g: 2 edges with time intervals [(2,5), (3,7)] will be split into 3 snapshots [(2,3), (3,5), (5, 7)]
 
-        time = SortedList()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
-        # for each slice in following iterations
-        # We use a moving window specified by "begin" and "end" to slice each snapshots.
-        begin = None
+        times = set()  # timestamps at which an edge begins or ends
         for node in self.tree.inOrder(self.tree.root):
             if node.low == node.high:  # this handles the case when someone uses interval graph as impulse graph
                 G.insert(graph=self.to_subgraph(begin=node.low, end=node.low, multigraph=multigraph, edge_data=edge_data
                                                 , edge_interval_data=edge_interval_data, node_data=node_data),
                          time=node.low)
             else:
-                if begin is None:
-                    begin = node.low
-                    time.add(node.high)
-                    continue
+                times.add(node.low)
+                times.add(node.high)
 
-                if node.low == begin:
-                    time.add(node.high)
-                elif len(time) == 0 or node.low < time[0]:
-                    end = node.low
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-                elif node.low > time[0]:
-                    while node.low > time[0]:
-                        end = time.pop(0)
-                        G.insert(
-                            graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                   edge_interval_data=edge_interval_data, node_data=node_data),
-                            start=begin, end=end)
-                        begin = end
-
-                        if len(time) == 0:
-                            break
-
-                    end = node.low
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-                else:  # if node.low == time[0]
-                    end = time.pop(0)  # can use either "node.low" or "time[0]"
-                    time.add(node.high)
-                    G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
-                                                    edge_interval_data=edge_interval_data, node_data=node_data),
-                             start=begin, end=end)
-                    begin = end
-
-        # after finish iterating through all edges in the interval graph, which means all "start" timestamp has been
-        # iterated through, iterate through the remaining timestamps stored in "time"
-        for end in time:
+        times = sorted(times)
+        for begin, end in zip(times, times[1:]):
             G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
                                             edge_interval_data=edge_interval_data, node_data=node_data),
                      start=begin, end=end)
-            begin = end
 
         return G
 
-- 
2.43.0


From 3a7687c2c34e74378a5b13a4604a4172a0dcd667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:37 +0000
Subject: [PATCH 15/45] fix: load_from_txt and from_* called on a subclass
 return that subclass

IntervalDiGraph.load_from_txt, from_snapshot_graph and
from_networkx_graph silently returned undirected graphs.
---
 dynetworkx/classes/impulsedigraph.py |  6 +++---
 dynetworkx/classes/impulsegraph.py   | 12 ++++++------
 dynetworkx/classes/intervalgraph.py  | 18 +++++++++---------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 2155bf9..e3d25f9 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1022,8 +1022,8 @@ class ImpulseDiGraph(ImpulseGraph):
             return iv[2] >= begin
         return (begin < iv[2] < end and iv[2]) or iv[2] == begin
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
            Timestamps must be integers or floats.
            Nodes can be any hashable objects.
@@ -1074,7 +1074,7 @@ class ImpulseDiGraph(ImpulseGraph):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = ImpulseDiGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 61316da..1a81843 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1423,8 +1423,8 @@ class ImpulseGraph(object):
             return iv[2] >= begin
         return (begin < iv[2] < end and iv[2]) or iv[2] == begin
 
-    @staticmethod
-    def from_networkx_graph(graph, timestamp='timestamp'):
+    @classmethod
+    def from_networkx_graph(cls, graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
 
         Parameters
@@ -1449,7 +1449,7 @@ class ImpulseGraph(object):
         ig = ImpulseGraph.from_networkx_graph(graph)
       """
 
-        G = ImpulseGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1462,8 +1462,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
            Timestamps must be integers or floats.
            Nodes can be any hashable objects.
@@ -1514,7 +1514,7 @@ class ImpulseGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = ImpulseGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index b9b55e5..2746988 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1599,8 +1599,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_snapshot_graph(snapshot_graph, begin=0, period=1):
+    @classmethod
+    def from_snapshot_graph(cls, snapshot_graph, begin=0, period=1):
         """Convert a SnapshotGraph to a IntervalGraph.
 
         Parameters
@@ -1628,7 +1628,7 @@ class IntervalGraph(object):
         >>> sg.add_edges_from([(8,9)],weight=1)
         >>> ig = IntervalGraph.from_snapshot_graph(sg,0,1)
         """
-        G = IntervalGraph()
+        G = cls()
         edge_dict = {}
 
         for snapshot in snapshot_graph.get():
@@ -1652,8 +1652,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, begin='begin', end='end'):
+    @classmethod
+    def from_networkx_graph(cls, graph, begin='begin', end='end'):
         """Convert a NetworkX Graph to a IntervalGraph.
 
         Parameters
@@ -1681,7 +1681,7 @@ class IntervalGraph(object):
         ig = IntervalGraph.from_networkx_graph(graph)
       """
 
-        G = IntervalGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1694,8 +1694,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
                       merge=(False, 0), predict=False, comments="#"):
         """Read interval graph in from path.
            Both interval times must be integers or floats.
@@ -1754,7 +1754,7 @@ class IntervalGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = IntervalGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From e208f7784bc993f0bd209652076101c1eb6f6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 16/45] fix: load_from_txt skips blank lines and takes the
 delimiter literally

Blank lines raised IndexError, and ImpulseDiGraph used the delimiter as
a regular expression, so files saved with '|' could not be read back.
---
 dynetworkx/classes/impulsedigraph.py | 4 ++--
 dynetworkx/classes/impulsegraph.py   | 2 +-
 dynetworkx/classes/intervalgraph.py  | 2 +-
 dynetworkx/classes/snapshotgraph.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index e3d25f9..be311ff 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1087,10 +1087,10 @@ class ImpulseDiGraph(ImpulseGraph):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
-                line = re.split(delimiter+'+', line.strip())
+                line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
 
                 u = line[order.index('u')]
                 v = line[order.index('v')]
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1a81843..5d69601 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1527,7 +1527,7 @@ class ImpulseGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2746988..7019543 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1768,7 +1768,7 @@ class IntervalGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7901bc5..1e8aacb 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -843,7 +843,7 @@ class SnapshotGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 p = min(line.find(start), line.find(end))
-- 
2.43.0


From 2df5e1027d3a9d41742eb6ce89bd54645a29dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 17/45] fix: removing nodes and edges of impulse graphs removes
 them from the time index too

remove_node left the node's edges (and remove_edge empty timestamps)
behind in the tree, ImpulseDiGraph.remove_node raised AttributeError,
removing a self-loop raised KeyError, and every removal printed the
adjacency to stdout.
---
 dynetworkx/classes/impulsedigraph.py | 66 +++++++++++++++++++++++++---
 dynetworkx/classes/impulsegraph.py   | 26 +++++------
 2 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index be311ff..5764b1a 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -181,6 +181,57 @@ class ImpulseDiGraph(ImpulseGraph):
         self._pred.setdefault(node_for_adding, {})
         self._succ.setdefault(node_for_adding, {})
 
+    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all its in and out edges within the given interval.
+
+        Quiet if n is not in the impulse graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire impulse graph)
+        end: int or float, optional  (default= end of the entire impulse graph + 1)
+            Must be bigger than or equal to begin.
+        inclusive: 2-tuple boolean that determines inclusivity of begin and end
+
+        Examples
+        --------
+        >>> G = dnx.ImpulseDiGraph()
+        >>> G.add_edges_from([(1, 2, 10), (2, 4, 11), (6, 4, 19)])
+        >>> G.remove_node(2)
+        >>> G.edges()
+        [(6, 4, 19)]
+        """
+        if n not in self._node:
+            return
+
+        if begin is None and end is None:
+            edges = set(iv for v in self._pred.get(n, {}) for iv in self._pred[n][v])
+            edges.update(iv for u in self._succ.get(n, {}) for iv in self._succ[n][u])
+            for edge in edges:
+                self.__remove_iedge(edge)
+            for v in self._pred.pop(n, {}):
+                if v != n:
+                    self._succ[v].pop(n, None)
+            for u in self._succ.pop(n, {}):
+                if u != n:
+                    self._pred[u].pop(n, None)
+
+        else:
+            # collect the edges first, the tree cannot be modified while it is being searched
+            for edge in list(self.__search_tree(begin, end, inclusive)):
+                if edge[0] == n or edge[1] == n:
+                    self.__remove_iedge(edge)
+
+        # delete the node and its attributes if no edge left
+        if len(self._pred.get(n, {})) == 0 and len(self._succ.get(n, {})) == 0:
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def add_edge(self, u, v, t, **attr):
         """Add an edge between u and v, at t.
 
@@ -307,7 +358,7 @@ class ImpulseDiGraph(ImpulseGraph):
             return False
 
         if begin is None and end is None:
-            return True
+            return len(self._pred[u][v]) > 0
 
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -927,12 +978,13 @@ class ImpulseDiGraph(ImpulseGraph):
             Edge to be removed.
         """
 
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._pred[iedge[0]][iedge[1]][iedge]
-            del self._succ[iedge[1]][iedge[0]][iedge]
-        except:
-            return
+        if iedge[2] in self.tree:
+            self.tree[iedge[2]].discard((iedge[0], iedge[1]))
+            # a timestamp without edges is not part of the graph anymore
+            if len(self.tree[iedge[2]]) == 0:
+                del self.tree[iedge[2]]
+        self._pred[iedge[0]][iedge[1]].pop(iedge, None)
+        self._succ[iedge[1]][iedge[0]].pop(iedge, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 5d69601..26d4239 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -500,6 +500,8 @@ class ImpulseGraph(object):
             return
 
         if begin is None and end is None:
+            for edge in [iv for v in self._adj.get(n, {}) for iv in self._adj[n][v]]:
+                self.__remove_iedge(edge)
             self._adj.pop(n, None)
             for v in self._adj:
                 if n in self._adj[v]:
@@ -643,7 +645,7 @@ class ImpulseGraph(object):
             return False
 
         if begin is None and end is None:
-            return True
+            return len(self._adj[u][v]) > 0
 
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -985,12 +987,10 @@ class ImpulseGraph(object):
         # clean up empty dictionaries
         if len(self._adj[u][v]) == 0:
             self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
             self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
+        for n in (u, v):
+            if n in self._adj and len(self._adj[n]) == 0:
+                self._adj.pop(n, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the degree of a specified node between time begin and end.
@@ -1066,13 +1066,13 @@ class ImpulseGraph(object):
         iedge : Edge Tuple (u,v,eid,t)
             Edge to be removed.
         """
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._adj[iedge[0]][iedge[1]][iedge]
-            del self._adj[iedge[1]][iedge[0]][iedge]
-        except:
-            return
-        print(self._adj)
+        if iedge[2] in self.tree:
+            self.tree[iedge[2]].discard((iedge[0], iedge[1]))
+            # a timestamp without edges is not part of the graph anymore
+            if len(self.tree[iedge[2]]) == 0:
+                del self.tree[iedge[2]]
+        self._adj[iedge[0]][iedge[1]].pop(iedge, None)
+        self._adj[iedge[1]][iedge[0]].pop(iedge, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
-- 
2.43.0


From 1dabc1b641bd1c4b1ef853f706d3d2b627ad63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:37 +0000
Subject: [PATCH 18/45] fix: ImpulseGraph.add_edge updates an existing edge and
 leaves the graph unchanged if it fails

Adding an edge again replaced its attributes instead of updating them, an
edge given with its nodes swapped was added a second time, and a node
or timestamp that cannot be hashed or ordered left an empty or
unsorted timestamp behind.
---
 dynetworkx/classes/impulsedigraph.py | 11 ++++++++++-
 dynetworkx/classes/impulsegraph.py   | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 5764b1a..f892d0b 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -283,7 +283,16 @@ class ImpulseDiGraph(ImpulseGraph):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
-        self.tree.setdefault(t, set()).add((u, v))
+        # if edge exists, just update attr
+        if u in self._pred and v in self._pred[u] and (u, v, t) in self._pred[u][v]:
+            self._pred[u][v][(u, v, t)].update(attr)
+            return
+
+        # a node or a timestamp which cannot be hashed or ordered must not leave a partial edge behind
+        hash((u, v, t))
+        if t not in self.tree:
+            self.tree[t] = set()
+        self.tree[t].add((u, v))
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 26d4239..d3149b7 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -571,7 +571,18 @@ class ImpulseGraph(object):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
-        self.tree.setdefault(t, set()).add((u, v))
+        # the graph is undirected, (v, u) is the same edge as (u, v)
+        if u in self._adj and v in self._adj[u]:
+            for iedge in ((u, v, t), (v, u, t)):
+                if iedge in self._adj[u][v]:
+                    self._adj[u][v][iedge].update(attr)
+                    return
+
+        # a node or a timestamp which cannot be hashed or ordered must not leave a partial edge behind
+        hash((u, v, t))
+        if t not in self.tree:
+            self.tree[t] = set()
+        self.tree[t].add((u, v))
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-- 
2.43.0


From 4dc1f1755379246972b682f4c86ceb46f831d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:37 +0000
Subject: [PATCH 19/45] fix: time windows of impulse graphs honour inclusive
 and give the same edges everywhere

---
 dynetworkx/classes/impulsedigraph.py | 68 +++++++++-------------------
 dynetworkx/classes/impulsegraph.py   | 47 ++++++-------------
 2 files changed, 36 insertions(+), 79 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index f892d0b..805bddc 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -398,7 +398,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         if not isinstance(u_list, list):
             u_list = [u_list]
         if not isinstance(v_list, list):
@@ -432,15 +432,12 @@ class ImpulseDiGraph(ImpulseGraph):
             raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive)]
 
-    def __edges_interval_first(self, begin, end):
-        if begin is not None and end is not None and begin > end:
-            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False))for u, v in self.tree[t]]
+    def __edges_interval_first(self, begin, end, inclusive):
+        return list(self.__search_tree(begin, end, inclusive))
 
-    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
+    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
 
         All edges which are present within the given interval.
@@ -529,21 +526,21 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (begin is not None or end is not None) and self._model is not None \
                 and self._predict_interval_first(u, v, begin, end):
-            iedges = [e for e in self.__edges_interval_first(begin, end)
+            iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
                       if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -675,7 +672,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         else:
             for iv in self._pred[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -692,7 +689,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
-    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
         Parameters
@@ -746,9 +743,9 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -757,7 +754,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return sorted(output)
 
-    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the in-degree of a specified node between time begin and end.
 
         Parameters
@@ -806,16 +803,11 @@ class ImpulseDiGraph(ImpulseGraph):
             return len(self.edges(v=node, begin=begin, end=end, inclusive=inclusive))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = list(self.tree.keys())[0]
-        if end == None:
-            end = list(self.tree.keys())[-1]
-
         d = {}
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -824,7 +816,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return output
 
-    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
 
         Parameters
@@ -877,7 +869,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -1027,6 +1019,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is not None and begin == end and begin in self.tree:
             for edge in self.tree[begin]:
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for edge in self.tree[t]:
@@ -1048,6 +1041,10 @@ class ImpulseDiGraph(ImpulseGraph):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        # a single point in time
+        if begin is not None and begin == end:
+            return t == begin
+
         if begin is None:
             begin = float('-inf')
         if end is None:
@@ -1062,27 +1059,6 @@ class ImpulseDiGraph(ImpulseGraph):
         if inclusive == (False, False):
             return begin < t < end
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @classmethod
     def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d3149b7..ddb8cb4 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -789,7 +789,7 @@ class ImpulseGraph(object):
 
         return bool(node_time >= interval_time)
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -819,13 +819,10 @@ class ImpulseGraph(object):
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive)]
 
-    def __edges_interval_first(self, begin, end):
-        if begin is not None and end is not None and begin > end:
-            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
+    def __edges_interval_first(self, begin, end, inclusive):
+        return list(self.__search_tree(begin, end, inclusive))
 
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of Interval objects of the ImpulseGraph edges.
@@ -916,22 +913,22 @@ class ImpulseGraph(object):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (begin is not None or end is not None) and self._model is not None \
                 and self._predict_interval_first(u, v, begin, end):
-            iedges = [e for e in self.__edges_interval_first(begin, end)
+            iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
                       if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)
                       or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -988,7 +985,7 @@ class ImpulseGraph(object):
 
         else:
             for iv in self._adj[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -1117,6 +1114,7 @@ class ImpulseGraph(object):
         if begin is not None and begin == end and begin in self.tree:
             for edge in self.tree[begin]:
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for u, v in self.tree[t]:
@@ -1138,6 +1136,10 @@ class ImpulseGraph(object):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        # a single point in time
+        if begin is not None and begin == end:
+            return t == begin
+
         if begin is None:
             begin = float('-inf')
         if end is None:
@@ -1413,27 +1415,6 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @classmethod
     def from_networkx_graph(cls, graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
-- 
2.43.0


From 172fb0b4cd3d04d51d0f12f15c5b98eca6b2ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:37 +0000
Subject: [PATCH 20/45] fix: mean ImpulseDiGraph.out_degree averages out
 degrees

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 805bddc..41b6c93 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -857,7 +857,7 @@ class ImpulseDiGraph(ImpulseGraph):
             l = 0
             for node in self.nodes(begin=begin, end=end, inclusive=inclusive):
                 n += 1
-                l += self.in_degree(node, begin=begin, end=end, inclusive=inclusive)
+                l += self.out_degree(node, begin=begin, end=end, inclusive=inclusive)
             return l / n
 
         # specified node, no degree_change, return degree
-- 
2.43.0


From a3b378c9bcc7da74b552c32cd0a5c4e655864a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:37 +0000
Subject: [PATCH 21/45] fix: ImpulseGraph.to_subgraph with edge and timestamp
 data does not raise KeyError

---
 dynetworkx/classes/impulsegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index ddb8cb4..522a323 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1227,7 +1227,7 @@ class ImpulseGraph(object):
             G = Graph()
 
         if edge_data and edge_timestamp_data:
-            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge], timestamp=iedge[2]))
+            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge[1]][iedge], timestamp=iedge[2]))
                              for iedge in iedges)
         elif edge_data:
             G.add_edges_from((iedge[0], iedge[1], self._adj[iedge[0]][iedge[1]][iedge])
-- 
2.43.0


From 4d56304ab049f297e1ba9cb881696395dfe22216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 22/45] fix: IntervalDiGraph.out_degree does not print debug
 output

---
 dynetworkx/classes/intervaldigraph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 73ba297..6b83e67 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -890,7 +890,6 @@ class IntervalDiGraph(IntervalGraph):
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
                 if time[0] != begin:
                     current_degree += time[1]
-                    print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
 
         return sorted(output)
-- 
2.43.0


From 4a5e8a62a9a8f094cc8a84a3a0b6163fc9cab336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:25 +0000
Subject: [PATCH 23/45] fix: IntervalDiGraph degree changes at the same time
 are listed in the order they apply

---
 dynetworkx/classes/intervaldigraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 6b83e67..eac2835 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -736,7 +736,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def in_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the in-degree of a specified node between time begin and end.
@@ -814,7 +814,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def out_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the out-degree of a specified node between time begin and end.
@@ -892,7 +892,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
         """Return a networkx DiGraph or MultiDiGraph which includes all the nodes and
-- 
2.43.0


From 14952ca2838e94dd1575f23ee9711cda3ce1b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:39 +0000
Subject: [PATCH 24/45] fix: SnapshotGraph takes 0 as a timestamp, [] as no
 snapshots and 0 as a node

---
 dynetworkx/classes/snapshotdigraph.py |  2 +-
 dynetworkx/classes/snapshotgraph.py   | 64 +++++++++++++--------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 2e5ee02..e9636cf 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -39,7 +39,7 @@ class SnapshotDiGraph(SnapshotGraph):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 1e8aacb..f4f181b 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -148,7 +148,7 @@ class SnapshotGraph(object):
         >>> G.insert(nxG1, start=0, end=3)
 
         """
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.snapshots.update({(time, time): graph})
@@ -187,7 +187,7 @@ class SnapshotGraph(object):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
@@ -230,9 +230,9 @@ class SnapshotGraph(object):
         subgraph = SnapshotGraph()
         subgraph.graph = self.graph
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for key, snapshot in self._get(sbunch=sbunch):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
@@ -277,15 +277,15 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
-            if nbunch:
+        elif sbunch is not None:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]
@@ -319,9 +319,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the number of nodes in each graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.number_of_nodes() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.number_of_nodes() for graph in self._get(start=start, end=end)]
@@ -355,9 +355,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the order of the graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.order() for graph in self._get(sbunch=sbunch)]
         else:
             return [g.order() for g in self._get(start=start, end=end)]
@@ -392,9 +392,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.has_node(n) for graph in self._get(start=start, end=end)]
@@ -428,9 +428,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_multigraph() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_multigraph() for graph in self._get(start=start, end=end)]
@@ -464,9 +464,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_directed() for graph in self._get(start=start, end=end)]
@@ -498,9 +498,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_directed() for graph in self._get(start=start, end=end)]
@@ -532,9 +532,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_undirected() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_undirected() for graph in self._get(start=start, end=end)]
@@ -571,9 +571,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.size(weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]
@@ -620,9 +620,9 @@ class SnapshotGraph(object):
         else:
             graphs = self.snapshots.values()
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:  # if retrieve by indexes
+        elif sbunch is not None:  # if retrieve by indexes
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
@@ -734,9 +734,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
@@ -792,9 +792,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
@@ -930,9 +930,9 @@ class SnapshotGraph(object):
         >>> G.compute_network_statistic(nx.algorithms.centrality.degree_centrality)
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(sbunch=sbunch)]
         else:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 9f55e96af9b6e0ad22f97b16f1875198b133e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:55 +0000
Subject: [PATCH 25/45] fix: add_snapshot accepts a graph without nodes

---
 dynetworkx/classes/snapshotdigraph.py | 2 +-
 dynetworkx/classes/snapshotgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e9636cf..e5985b0 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -30,7 +30,7 @@ class SnapshotDiGraph(SnapshotGraph):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)])
         """
-        if not graph:
+        if graph is None:
             if multi is True:
                 g = MultiDiGraph()
             else:
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index f4f181b..97d3394 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -181,7 +181,7 @@ class SnapshotGraph(object):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)], start=0, end=3)
         """
-        if not graph:
+        if graph is None:
             g = Graph()
             g.add_edges_from(ebunch)
         else:
-- 
2.43.0


From 809aa1b38ee4d2a0c72a18028c840f0009bb43d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:08 +0000
Subject: [PATCH 26/45] fix: SnapshotGraph.subgraph by snapshot indexes keeps
 their intervals

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 97d3394..02d1f92 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -233,7 +233,7 @@ class SnapshotGraph(object):
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-            for key, snapshot in self._get(sbunch=sbunch):
+            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
-- 
2.43.0


From 1df9194e8cf957d971c17df961f0d60d9be6fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:21 +0000
Subject: [PATCH 27/45] fix: SnapshotGraph finds and splits exactly the
 snapshots within an interval

---
 dynetworkx/classes/snapshotgraph.py | 62 +++++++++++++++--------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 02d1f92..b4db7ad 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -626,36 +626,40 @@ class SnapshotGraph(object):
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
-            if start is None:
-                min_idx = 0
-            else:
-                min_idx = self.snapshots.bisect_left((start,))
-
-                # Decrease 1 index if start is in the middle of an interval
-                # Eg: if Keys = [(2,5)(5,6)], start=3 won't retrieve (2,5) as we want,
-                # therefore, decrease 1 index to include (2,5). If start=5, then we won't need to change
-                if min_idx > 0 and start < self.snapshots.keys()[min_idx][0]:
-                    if split_overlaps:
-                        # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
-                        key, g = self.snapshots.popitem(min_idx - 1)
-                        self.insert(g, key[0], start)
-                        self.insert(copy.deepcopy(g), start, key[1])
-                    else:
-                        min_idx -= 1
+            if split_overlaps:
+                # Eg: if Keys = [(2,5)(5,9)], start=3 and end=7, split (2,5) into (2,3) and (3,5),
+                # and (5,9) into (5,7) and (7,9)
+                for point in (start, end):
+                    if point is not None:
+                        self._split(point)
+
+            for key, graph in list(self.snapshots.items()):
+                # a snapshot is in the interval if any part of it is
+                if end is not None and key[0] >= end:
+                    continue
+                if start is not None and key[0] < start and key[1] <= start:
+                    continue
 
-            if end is None:
-                max_idx = len(self.snapshots)
-            else:
-                max_idx = self.snapshots.bisect_left((end,))
-                # Split the snapshot if 'end' is in the middle of an interval
-                # Eg: if Keys = [(2,5)(5,9)] and end=7, split (5,9) into (5,7) and (7,9)
-                if split_overlaps and max_idx < len(self.snapshots) and end < self.snapshots.keys()[max_idx][1]:
-                    key, g = self.snapshots.popitem(max_idx)
-                    self.insert(g, key[0], end)
-                    self.insert(copy.deepcopy(g), end, key[1])
-
-            for graph in graphs[min_idx: max_idx]:
-                yield graph
+                yield (key, graph) if include_interval else graph
+
+    def _split(self, time):
+        """Split every snapshot with time in the middle of its interval into one until time and a copy of it from time.
+        Hidden utility tool for updating graphs by interval.
+
+        Parameters
+        ----------
+        time: timestamp to split snapshots at
+
+        Returns
+        -------
+        None
+        """
+        for key, graph in list(self.snapshots.items()):
+            if key[0] < time < key[1]:
+                graph_copy = copy.deepcopy(graph)
+                del self.snapshots[key]
+                self.insert(graph, key[0], time)
+                self.insert(graph_copy, time, key[1])
 
     def get(self, sbunch=None, start=None, end=None):
         """Returns a list of graphs specified in sbunch. Interface function for users.
-- 
2.43.0


From 94e988751b3622a587876ec5f744a356f3c353b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 28/45] fix: SnapshotGraph.add_nodes_from and add_edges_from
 update every snapshot from an iterator

---
 dynetworkx/classes/snapshotgraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index b4db7ad..4a7d507 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -738,6 +738,9 @@ class SnapshotGraph(object):
 
         """
 
+        # every snapshot is updated with the same nodes, which may be given as an iterator
+        nbunch = list(nbunch)
+
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
@@ -796,6 +799,9 @@ class SnapshotGraph(object):
 
         """
 
+        # every snapshot is updated with the same edges, which may be given as an iterator
+        ebunch = list(ebunch)
+
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-- 
2.43.0


From e441e5635a74a4a1780aec2ba004c3f9b2ad44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:47 +0000
Subject: [PATCH 29/45] fix: SnapshotGraph.load_from_txt reads the matrix as
 numbers and a SnapshotDiGraph as directed

---
 dynetworkx/classes/snapshotdigraph.py |  1 +
 dynetworkx/classes/snapshotgraph.py   | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e5985b0..226ab65 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -4,6 +4,7 @@ from dynetworkx.classes.snapshotgraph import SnapshotGraph
 
 
 class SnapshotDiGraph(SnapshotGraph):
+    _graph_class = DiGraph
 
     def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None, multi=False):
         """Add a snapshot with a bunch of edge values.
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 4a7d507..ed9913c 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -6,6 +6,8 @@ import copy
 
 
 class SnapshotGraph(object):
+    _graph_class = Graph
+
     def __init__(self, **attr):
         self.graph = {}
         self.graph.update(attr)
@@ -811,8 +813,8 @@ class SnapshotGraph(object):
             for graph in self._get(start=start, end=end, split_overlaps=True):
                 graph.add_edges_from(ebunch, **attrs)
 
-    @staticmethod
-    def load_from_txt(path, delimiter=";", comments="#", start='start', end='end'):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=";", comments="#", start='start', end='end'):
         """Read snapshot graph in from path.
            Every line in the file must be an adjacency matrix, with rows separated by delimiter.
 
@@ -846,7 +848,7 @@ class SnapshotGraph(object):
         if delimiter == ' ' or delimiter == '\n':
             raise ValueError("Delimiter cannot be " + delimiter + ".")
 
-        sg = SnapshotGraph()
+        sg = cls()
 
         with open(path, 'r') as file:
             for line in file:
@@ -880,7 +882,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix))
+                g = from_numpy_array(np.array(matrix, dtype=float), create_using=cls._graph_class)
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From f0fe6aeca4a5803b3d52ef2fdbbfe9a76f86e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:32 +0000
Subject: [PATCH 30/45] fix: add_nodes_from accepts tuples of any length as
 nodes

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 522a323..8711585 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -291,7 +291,7 @@ class ImpulseGraph(object):
         """
 
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 7019543..5b402b6 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -365,7 +365,7 @@ class IntervalGraph(object):
         >>> G.add_nodes_from([(1, dict(size=11)), (2, {'color':'blue'})])
         """
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
-- 
2.43.0


From d61ae362307215bef56efb082f2d172a133f9987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:45 +0000
Subject: [PATCH 31/45] fix: count_temporal_motif counts motifs with a falsy
 node such as 0

---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 94afbae..98de2ce 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -153,7 +153,7 @@ def count_temporal_motif(G, sequence, delta):
                 isomorphic = True
                 # check matching sequences (node sequence vs key)
                 for n in range(len(node_sequence)):
-                    if node_map.get(node_sequence[n]):
+                    if node_sequence[n] in node_map:
                         if node_map[node_sequence[n]] == keys[n]:
                             continue
                         else:
-- 
2.43.0


From 004af87232ce4119074ad549c3bab799a89f8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:28 +0000
Subject: [PATCH 32/45] fix: remove_node rejects a reversed interval instead of
 removing edges which contain it

---
 dynetworkx/classes/intervaldigraph.py | 4 ++++
 dynetworkx/classes/intervalgraph.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index eac2835..d9750b1 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -123,6 +123,10 @@ class IntervalDiGraph(IntervalGraph):
                     self._pred[u].pop(n, None)
 
         else:
+            if begin is not None and end is not None and begin > end:
+                raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                    "begin: {}, end: {}.".format(begin, end))
+
             # collect the edges first, the tree cannot be modified while it is being searched
             for iedge in list(self.tree[begin:end]):
                 if iedge[0] == n or iedge[1] == n:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5b402b6..e9f1841 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -618,6 +618,10 @@ class IntervalGraph(object):
                     self._adj[v].pop(n, None)
 
         else:
+            if begin is not None and end is not None and begin > end:
+                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                    "begin: {}, end: {}.".format(begin, end))
+
             # collect the edges first, the tree cannot be modified while it is being searched
             iedges = list(self.tree[begin:end])
             for iedge in iedges:
-- 
2.43.0


From e9701698245adf8c035444717cc16729886808a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:45 +0000
Subject: [PATCH 33/45] fix: count_temporal_motif counts motifs of a single
 edge beyond the first delta

---
 dynetworkx/algorithms/count_temporal_motif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 98de2ce..99fa56c 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -222,6 +222,10 @@ def __decrement_counts(edges, motif_length, counts):
     -------
     None
     """
+    # a motif of a single edge is complete, its occurrences do not leave with the edge
+    if motif_length < 2:
+        return
+
     suffixes = sorted(counts.keys(), key=len)
     for e in edges:
         counts[e] -= 1
-- 
2.43.0


From 32785e2d627a310f25ed8271151e5ff0477084cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:02 +0000
Subject: [PATCH 34/45] fix: training which finds no samples keeps the model
 concurrent readers may be using

---
 dynetworkx/classes/impulsedigraph.py  | 6 ++----
 dynetworkx/classes/impulsegraph.py    | 3 +--
 dynetworkx/classes/intervaldigraph.py | 3 +--
 dynetworkx/classes/intervalgraph.py   | 3 +--
 4 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 41b6c93..a32c46f 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -388,9 +388,8 @@ class ImpulseDiGraph(ImpulseGraph):
         """
         X, y = self.__generate_training_data(training_size)
 
-        # no edges to learn from, edges will be searched without a model
+        # no edges to learn from, edges will be searched as before
         if len(X) == 0:
-            self._model = None
             return
 
         model = LinearRegression()
@@ -616,9 +615,8 @@ class ImpulseDiGraph(ImpulseGraph):
         """
         X, y = self.__generate_training_data(training_size)
 
-        # no edges to learn from, edges will be searched without a model
+        # no edges to learn from, edges will be searched as before
         if len(X) == 0:
-            self._model = None
             return
 
         model = LinearRegression()
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 8711585..2622c1b 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -730,9 +730,8 @@ class ImpulseGraph(object):
         """
         X, y = self.__generate_training_data(training_size)
 
-        # no edges to learn from, edges will be searched without a model
+        # no edges to learn from, edges will be searched as before
         if len(X) == 0:
-            self._model = None
             return
 
         model = LinearRegression()
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index d9750b1..57dadde 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -550,9 +550,8 @@ class IntervalDiGraph(IntervalGraph):
         """
         X, y = self.__generate_training_data(training_size)
 
-        # no edges to learn from, edges will be searched without a model
+        # no edges to learn from, edges will be searched as before
         if len(X) == 0:
-            self._model = None
             return
 
         model = LinearRegression()
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e9f1841..0271399 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1293,9 +1293,8 @@ class IntervalGraph(object):
         """
         X, y = self.__generate_training_data(training_size)
 
-        # no edges to learn from, edges will be searched without a model
+        # no edges to learn from, edges will be searched as before
         if len(X) == 0:
-            self._model = None
             return
 
         model = LinearRegression()
-- 
2.43.0


From 2e7f80f63858f6cd43c5df0e4ea7b0d05ee8c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 35/45] fix: load_from_txt converts each node on its own, so
 that 5 stays 5 next to a word

---
 dynetworkx/classes/impulsedigraph.py | 5 ++++-
 dynetworkx/classes/impulsegraph.py   | 5 ++++-
 dynetworkx/classes/intervalgraph.py  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index a32c46f..d64889f 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1150,8 +1150,11 @@ class ImpulseDiGraph(ImpulseGraph):
                 else:
                     try:
                         u = int(u)
+                    except ValueError:
+                        pass
+                    try:
                         v = int(v)
-                    except:
+                    except ValueError:
                         pass
 
                 try:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 2622c1b..fe4c5b0 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1546,8 +1546,11 @@ class ImpulseGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except ValueError:
+                        pass
+                    try:
                         v = int(v)
-                    except:
+                    except ValueError:
                         pass
 
                 try:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 0271399..bafc623 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1808,8 +1808,11 @@ class IntervalGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except ValueError:
+                        pass
+                    try:
                         v = int(v)
-                    except:
+                    except ValueError:
                         pass
 
                 try:
-- 
2.43.0


From 32787d785cd16c33ca3200d78cbfd6305042a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 36/45] fix: load_from_txt with a duration in order keeps the
 first attribute of each edge

---
 dynetworkx/classes/intervalgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index bafc623..f73c17a 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1789,7 +1789,7 @@ class IntervalGraph(object):
 
                 edgedata = {}
                 try:
-                    for data in line[4:]:
+                    for data in line[4 if 'begin' in order and 'end' in order else 3:]:
                         key, value = data.split('=')
                         try:
                             value = float(value)
-- 
2.43.0


From b259da6a5e0fa21b452d0cb5f13aede18b6711c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 37/45] fix: load_from_txt with merge merges the times of
 edges, not their nodes

---
 dynetworkx/classes/intervalgraph.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f73c17a..db5b5c4 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1821,15 +1821,12 @@ class IntervalGraph(object):
                 except:
                     raise TypeError("Failed to convert interval time to {}".format(intervaltype))
 
-                if merge[0]:
+                if merge[0] and begin <= end:
                     for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):
-                        if edge_data != edgedata:
-                            G.add_edge(u, v, begin, end ** edgedata)
-                        else:
-                            begin = min(begin, edge[0])
-                            end = max(end, edge[1])
-                            G.remove_edge(u, v, edge[0], edge[1])
-                            G.add_edge(u, v, begin, end, **edgedata)
+                        if edge_data == edgedata:
+                            begin = min(begin, edge[2])
+                            end = max(end, edge[3])
+                            G.remove_edge(*edge, overlapping=False)
 
                 G.add_edge(u, v, begin, end, **edgedata)
 
-- 
2.43.0


From 4179f743a5c155d2a563340762a07e5b9fe2a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:26 +0000
Subject: [PATCH 38/45] fix: splitting a snapshot keeps its nodes, also those
 which are only equal to themselves

---
 dynetworkx/classes/snapshotgraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index ed9913c..d696d6f 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -658,7 +658,8 @@ class SnapshotGraph(object):
         """
         for key, graph in list(self.snapshots.items()):
             if key[0] < time < key[1]:
-                graph_copy = copy.deepcopy(graph)
+                # the nodes stay the same objects, of which some are equal to themselves only
+                graph_copy = copy.deepcopy(graph, {id(n): n for n in graph})
                 del self.snapshots[key]
                 self.insert(graph, key[0], time)
                 self.insert(graph_copy, time, key[1])
-- 
2.43.0


From d95c8c527e2f314cd0a83bb580c7473d106e45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 39/45] fix: to_snapshots keeps the first and last edges when
 times are too large to add to exactly

---
 dynetworkx/classes/impulsegraph.py  | 14 +++++---------
 dynetworkx/classes/intervalgraph.py | 14 ++++++--------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index fe4c5b0..a3e9d89 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1335,17 +1335,13 @@ class ImpulseGraph(object):
         if length_of_snapshots is False:
             length_of_snapshots = (end - begin) / number_of_snapshots
 
+        # rounding must not exclude the begin of the graph from the first snapshot or its end from the last one
+        borders = [begin] + [max(begin, begin + length_of_snapshots * i) for i in range(1, number_of_snapshots)]
+
         snapshots = []
-        inclusive = (True, False)
-        for i in range(number_of_snapshots):
-            snapshot_end = begin + length_of_snapshots * (i + 1)
-            if i == number_of_snapshots - 1:
-                inclusive = (True, True)
-                # rounding must not exclude the end of the graph from the last snapshot
-                snapshot_end = max(snapshot_end, end)
+        for snapshot_begin, snapshot_end in zip(borders, borders[1:] + [None]):
             snapshots.append(
-                self.to_subgraph(begin + length_of_snapshots * i,
-                                 snapshot_end, inclusive=inclusive,
+                self.to_subgraph(snapshot_begin, snapshot_end,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
         if return_length:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index db5b5c4..1d1b324 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1505,16 +1505,14 @@ class IntervalGraph(object):
         if length_of_snapshots is False:
             length_of_snapshots = (end - begin) / number_of_snapshots
 
-        snapshots = []
-        end_inclusive_addition = 0
-        for i in range(number_of_snapshots):
-            # since to_subgraph is end non-inclusive, shift the end up by 1 to include end in the last snapshot.
-            if i == number_of_snapshots - 1:
-                end_inclusive_addition = 1
+        # rounding must not exclude the begin of the graph from the first snapshot or its end from the last one, which has
+        # no end since to_subgraph is end non-inclusive
+        borders = [begin] + [max(begin, begin + length_of_snapshots * i) for i in range(1, number_of_snapshots)]
 
+        snapshots = []
+        for snapshot_begin, snapshot_end in zip(borders, borders[1:] + [None]):
             snapshots.append(
-                self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1) + end_inclusive_addition,
+                self.to_subgraph(snapshot_begin, snapshot_end,
                                  multigraph=multigraph, edge_data=edge_data, edge_interval_data=edge_interval_data,
                                  node_data=node_data))
         if return_length:
-- 
2.43.0


From 1a915ef65962601a7a580e8836c55f02b4c3169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 40/45] fix: a predictive model answers windows without an end
 as well

---
 dynetworkx/classes/impulsegraph.py  | 4 ++++
 dynetworkx/classes/intervalgraph.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index a3e9d89..6c53a76 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -784,6 +784,10 @@ class ImpulseGraph(object):
         else:
             interval_percent = (end - begin) / (graph_end - graph_begin)
 
+        # a window or a graph without end is no fraction of the other
+        if not math.isfinite(interval_percent):
+            return False
+
         node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
         return bool(node_time >= interval_time)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 1d1b324..6b6628a 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -866,6 +866,10 @@ class IntervalGraph(object):
         else:
             interval_percent = (end - begin) / (graph_end - graph_begin)
 
+        # a window or a graph without end is no fraction of the other
+        if not math.isfinite(interval_percent):
+            return False
+
         node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
         return bool(node_time >= interval_time)
-- 
2.43.0


From ce0fdbd6a12818007128a35307b576aba822f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 41/45] fix: searching the interval tree skips the intervals
 which only touch the window

---
 dynetworkx/classes/intervaltree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 37b994a..35f5432 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -153,13 +153,16 @@ class IntervalTree:
         return self.getHeight(node.left) - self.getHeight(node.right)
 
     def query(self, node, begin, end):
-        if node.left and (begin is None or node.left.max >= begin):
+        # intervals which only touch the given one are not searched, there may be many of them
+        if node.left and (begin is None or node.left.max > begin
+                          or (node.left.max == begin and node.low >= begin)):
             yield from self.query(node.left, begin, end)
 
         if node.inInterval(begin, end):
             yield node
 
-        if node.right and (end is None or node.low <= end) and (begin is None or node.right.max >= begin):
+        if node.right and (end is None or node.low < end or node.low == begin) \
+                and (begin is None or node.right.max >= begin):
             yield from self.query(node.right, begin, end)
 
     def add(self, edge):
-- 
2.43.0


From 0baf6bd9b8566113682fd843e0fa9b50e624f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:34 +0000
Subject: [PATCH 42/45] fix: nodes, number_of_nodes and to_subgraph of an
 interval graph refuse a window which ends before it begins

---
 dynetworkx/classes/intervalgraph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 6b6628a..461b5cd 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -432,6 +432,10 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return len(self._node)
 
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedges = self.tree[begin:end]
 
         inodes = set()
@@ -559,6 +563,10 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return NodeDataView(self._node, data=data, default=default)
 
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedges = self.tree[begin:end]
 
         inodes = set()
@@ -1393,6 +1401,10 @@ class IntervalGraph(object):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedges = self.tree[begin:end]
 
         if multigraph:
-- 
2.43.0


From 81f8b2e56a2d442133ab62a0123a8048d3180fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 43/45] fix: count motifs among nanosecond timestamps with a
 fractional delta

The sum of a large integer and a float is rounded, so that an edge could be
taken for one which lies more than delta before itself (IndexError, KeyError).
---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 99fa56c..0e43ac4 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -119,7 +119,7 @@ def count_temporal_motif(G, sequence, delta):
         start = 0
         end = 0
         while end < len(edges):
-            while edges[start][2] + delta < edges[end][2]:
+            while edges[end][2] - edges[start][2] > delta:
 
                 # combine all edges having the same timestamps to decrement counts
                 tmp_time = edges[start][2]
-- 
2.43.0


From 71f21ba0d02a61e1f15a1e149781e9737e3c172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:44 +0000
Subject: [PATCH 44/45] fix: keep earlier periods of an edge which is parallel
 to another in a multigraph snapshot

---
 dynetworkx/classes/intervalgraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 461b5cd..54ef9ed 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1652,6 +1652,8 @@ class IntervalGraph(object):
             for edge in snapshot.edges(data=True):
                 u_v = (edge[0], edge[1])
                 if u_v in edge_dict:
+                    if begin + period in edge_dict[u_v]:
+                        continue  # parallel edge of a multigraph
                     if begin in edge_dict[u_v]:
                         edge_dict[u_v][begin + period] = edge_dict[u_v][begin]
                         del edge_dict[u_v][begin]
-- 
2.43.0


From fc4b78dd4707a3e99baf3c38270d429614579aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:38 +0000
Subject: [PATCH 45/45] fix: search impulses up to or from a time which does
 not compare with a float

---
 dynetworkx/classes/impulsedigraph.py | 5 +++--
 dynetworkx/classes/impulsegraph.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index d64889f..5ce704e 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1043,10 +1043,11 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is not None and begin == end:
             return t == begin
 
+        # timestamps may be of any orderable type, which need not compare with infinity
         if begin is None:
-            begin = float('-inf')
+            begin, inclusive = t, (True, inclusive[1])
         if end is None:
-            end = float('inf')
+            end, inclusive = t, (inclusive[0], True)
 
         if inclusive == (True, True):
             return begin <= t <= end
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 6c53a76..e4de9df 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1143,10 +1143,11 @@ class ImpulseGraph(object):
         if begin is not None and begin == end:
             return t == begin
 
+        # timestamps may be of any orderable type, which need not compare with infinity
         if begin is None:
-            begin = float('-inf')
+            begin, inclusive = t, (True, inclusive[1])
         if end is None:
-            end = float('inf')
+            end, inclusive = t, (inclusive[0], True)
 
         if inclusive == (True, True):
             return t >= begin and t <= end
-- 
2.43.0

