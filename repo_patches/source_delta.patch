From 232d429014cdd18fbdc08fee837ca72c44550b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 01/22] fix: do not close the batch cursor when reading a
 degree or timestamp

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 612f387..71f333a 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -298,7 +298,7 @@ class SQL(Backend):
         cur.execute('SELECT degree FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             deg = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return deg
         self.close_cursor(cur, local=True, commit=False)
         return 0
@@ -310,7 +310,7 @@ class SQL(Backend):
         cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             ts = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return ts
         self.close_cursor(cur, local=True, commit=False)
         return -1
-- 
2.43.0


From 4cf589c3473f464d31b6000d1d5fc498372df1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 02/22] fix: do not commit in the middle of a batch when
 removing an edge

---
 gb/hypergraph/sql.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 71f333a..2f0c55e 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -162,10 +162,9 @@ class SQL(Backend):
 
     def remove_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
-        cur = self.conn.cursor()
+        cur = self.open_cursor()
         cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))
-        self.conn.commit()
-        cur.close()
+        self.close_cursor(cur, local=True, commit=True)
 
     def remove_edge_permutations(self, edge):
         """Removes all permutations of the given edge."""
-- 
2.43.0


From cd02889a0c5f7b0cee89636229efa1e7963d3c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 03/22] fix: iterate over all vertices with a separate cursor

---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 2f0c55e..ef20ec2 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -325,9 +325,10 @@ class SQL(Backend):
         """Returns a lazy sequence resulting from applying f to every
            vertex map (including non-atomic) in the hypergraph.
            A vertex map contains the keys vertex and degree."""
-        cur = self.open_cursor()
+        # other operations may run between two steps, so the batch cursor cannot be used
+        cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
         for row in cur:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        self.close_cursor(cur, local=True, commit=False)
+        cur.close()
-- 
2.43.0


From 427f72c130d9ce48007ab5152615c1be47f0e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 04/22] fix: allow nested batches and roll back a batch that
 fails

---
 gb/hypergraph/sql.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index ef20ec2..0c9020d 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -316,10 +316,22 @@ class SQL(Backend):
 
     def batch_exec(self, funs):
         """Auxiliary function to implement ops.batch_exec in SQL environments."""
+        if self.cur is not None:
+            # already inside a batch, which commits when it ends
+            for f in funs:
+                f(self)
+            return
+
         cur = self.open_cursor(local=False)
-        for f in funs:
-            f(self)
-        self.close_cursor(cur, local=False, commit=True)
+        try:
+            for f in funs:
+                f(self)
+            self.close_cursor(cur, local=False, commit=True)
+        except BaseException:
+            self.cur = None
+            self.conn.rollback()
+            cur.close()
+            raise
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From c5af4ffe08d1649a576df163864cc5ef55056cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 05/22] fix: commit all the rows of an added or removed edge
 together

---
 gb/hypergraph/sql.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 0c9020d..54e75a5 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -234,13 +234,13 @@ class SQL(Backend):
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
         Adding multiple edges at the same time might be faster."""
-        if isinstance(edges[0], (list, tuple)):
-            cur = self.open_cursor(local=False)
-            for edge in edges:
-                self.add_raw(edge, timestamp)
-            self.close_cursor(cur, local=False, commit=True)
-        else:
-            self.add_raw(edges, timestamp)
+        new_edges = edges if isinstance(edges[0], (list, tuple)) else (edges,)
+
+        def add_all(sql):
+            for edge in new_edges:
+                sql.add_raw(edge, timestamp)
+
+        self.batch_exec((add_all,))
         return edges
 
     def remove_raw(self, edge):
@@ -254,12 +254,13 @@ class SQL(Backend):
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
         Removing multiple edges at the same time might be faster."""
-        if isinstance(edges[0], (list, tuple)):
-            # TODO: use transaction?
-            for edge in edges:
-                self.remove_raw(edge)
-        else:
-            self.remove_raw(edges)
+        old_edges = edges if isinstance(edges[0], (list, tuple)) else (edges,)
+
+        def remove_all(sql):
+            for edge in old_edges:
+                sql.remove_raw(edge)
+
+        self.batch_exec((remove_all,))
 
     def star(self, center):
         """Return all the edges that contain a given entity.
-- 
2.43.0


From ad690ba2abc2cd633066e8b4fcc168666c7f9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 06/22] fix: run MySQL batches in a transaction

---
 gb/hypergraph/mysql.py | 4 ++++
 gb/hypergraph/sql.py   | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index a670737..c86a143 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -42,6 +42,10 @@ class MySQL(SQL):
         conn.autocommit(True)
         SQL.__init__(self, conn, '%s')
 
+    def begin(self, cur):
+        # the connection is in autocommit mode
+        cur.execute('START TRANSACTION')
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 54e75a5..2873ba1 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -115,9 +115,15 @@ class SQL(Backend):
                 return self.cur
         else:
             if self.cur is None:
-                self.cur = self.conn.cursor()
+                cur = self.conn.cursor()
+                self.begin(cur)
+                self.cur = cur
             return self.cur
 
+    def begin(self, cur):
+        """Starts a transaction, where the driver does not do so by itself."""
+        pass
+
     def close_cursor(self, cur, local=True, commit=False):
         if local:
             if self.cur is None:
-- 
2.43.0


From ed56f7a6f571c79f5998b0dfb15fbef7f0cf4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 07/22] fix: keep the degree of an edge that is also a vertex
 of other edges

---
 gb/hypergraph/sql.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 2873ba1..65ceaaf 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -158,6 +158,14 @@ class SQL(Backend):
                               {'id': vert_str, 'degree': degree, 'timestamp': timestamp},
                               vert_str)
 
+    def has_str(self, vert_str):
+        """Checks if the given vertex, represented as a string, is stored."""
+        cur = self.open_cursor()
+        cur.execute('SELECT id FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
+        res = cur.fetchone() is not None
+        self.close_cursor(cur, local=True, commit=False)
+        return res
+
     def write_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
         self.update_or_insert('perms', {'id': eid}, eid)
@@ -233,7 +241,9 @@ class SQL(Backend):
                 vert_str = ed.edge2str(vert)
                 if not self.inc_degree(vert_str):
                     self.add_str(vert_str, 1, timestamp)
-            self.add_str(ed.edge2str(edge), 0, timestamp)
+            edge_str = ed.edge2str(edge)
+            if not self.has_str(edge_str):
+                self.add_str(edge_str, 0, timestamp)
             self.write_edge_permutations(edge)
         return edge
 
@@ -255,7 +265,9 @@ class SQL(Backend):
             for vert in edge:
                 self.dec_degree(ed.edge2str(vert))
             self.remove_edge_permutations(edge)
-            self.remove_str(ed.edge2str(edge))
+            # other edges may contain this one
+            if self.degree(edge) == 0:
+                self.remove_str(ed.edge2str(edge))
 
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
-- 
2.43.0


From b3a95f5b65f11d895581731f03d10ca26e7f68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 08/22] fix: compare pattern and edge elements by their
 identifiers

---
 gb/hypergraph/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 65ceaaf..ec48b8a 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -89,7 +89,7 @@ def edge_matches_pattern(edge, pattern):
     if n != len(pattern):
         return False
     for i in range(n):
-        if (pattern[i] is not None) and (pattern[i] != edge[i]):
+        if (pattern[i] is not None) and (ed.edge2str(pattern[i]) != ed.edge2str(edge[i])):
             return False
     return True
 
-- 
2.43.0


From b00a8a3635780f35ed10211282d7396c058e42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 09/22] fix: accept patterns made of wildcards only and any
 final character

---
 gb/hypergraph/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index ec48b8a..558a8f7 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -206,10 +206,13 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = ed.nodes2str(nodes)
-        end_str = str_plus_1(start_str)
         cur = self.open_cursor()
-        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        if len(nodes) > 0:
+            start_str = '%s ' % ed.nodes2str(nodes)
+            end_str = str_plus_1(start_str)
+            cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        else:
+            cur.execute('SELECT id FROM perms')
         edges = cur2edges(cur)
         self.close_cursor(cur, local=True, commit=False)
         return set([edge for edge in edges if edge_matches_pattern(edge, pattern)])
-- 
2.43.0


From 8cd7a26a734d3e7e506b567f2fdbf13df5195faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 10/22] fix: do not read tokens without digits as numbers

---
 gb/hypergraph/edge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 5edb25d..22e68d6 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -52,6 +52,7 @@ def token_type(token):
 
     s = token
     pos = 0
+    digits = 0
     point = False
 
     while len(s) > 0:
@@ -66,10 +67,14 @@ def token_type(token):
                 point = True
         elif c < '0' or c > '9':
             return TokenType.STRING
+        else:
+            digits += 1
         s = s[1:]
         pos += 1
 
-    if point:
+    if digits == 0:
+        return TokenType.STRING
+    elif point:
         return TokenType.DOUBLE
     else:
         return TokenType.INTEGER
-- 
2.43.0


From 785d5744d854f519512c00f20678d65de1f5d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 11/22] fix: write floats without exponent, so that they are
 read back as floats

---
 gb/hypergraph/edge.py | 13 +++++++++++--
 gb/hypergraph/sql.py  |  5 +----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 22e68d6..37df5da 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import numpy as np
 import gb.hypergraph.symbol as sym
 
 
@@ -133,6 +134,14 @@ def str2edge(edge_str):
         return elements[0]
 
 
+def atom2str(atom):
+    """Convert a non-edge to its string representation, with no exponent if it is a float."""
+    if sym.sym_type(atom) == sym.SymbolType.FLOAT:
+        return np.format_float_positional(atom, trim='0')
+    else:
+        return str(atom)
+
+
 def nodes2str(edge):
     """Convert a collection of nodes to a string representation (no outer parenthesis)."""
     node_strings = []
@@ -140,7 +149,7 @@ def nodes2str(edge):
         if sym.sym_type(node) == sym.SymbolType.EDGE:
             node_strings.append(edge2str(node))
         else:
-            node_strings.append(str(node))
+            node_strings.append(atom2str(node))
     return ' '.join(node_strings)
 
 
@@ -149,7 +158,7 @@ def edge2str(edge):
     if sym.sym_type(edge) == sym.SymbolType.EDGE:
         return '(%s)' % nodes2str(edge)
     else:
-        return str(edge)
+        return atom2str(edge)
 
 
 def is_negative(edge):
diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 558a8f7..743c387 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -286,10 +286,7 @@ class SQL(Backend):
     def star(self, center):
         """Return all the edges that contain a given entity.
         Entity can be atomic or an edge."""
-        center_id = center
-        if isinstance(center, (list, tuple)):
-            center_id = ed.edge2str(center)
-        return self.str2perms(center_id)
+        return self.str2perms(ed.edge2str(center))
 
     def symbols_with_root(self, root):
         """Find all symbols with the given root."""
-- 
2.43.0


From 07c760a2034e88719d134c3a8d8a2653ac212fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 12/22] fix: do not mistake an edge with a compound relation
 for several edges

---
 gb/hypergraph/batch_hypergraph.py | 3 ++-
 gb/hypergraph/edge.py             | 6 ++++++
 gb/hypergraph/hypergraph.py       | 3 ++-
 gb/hypergraph/sql.py              | 4 ++--
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index dd8b305..518e03a 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -20,6 +20,7 @@
 
 
 import gb.hypergraph.hypergraph as hypergraph
+import gb.hypergraph.edge as ed
 
 
 class BatchHyperGraph(hypergraph.HyperGraph):
@@ -39,7 +40,7 @@ class BatchHyperGraph(hypergraph.HyperGraph):
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
-        if isinstance(edges[0], (list, tuple)):
+        if ed.is_edge_collection(edges):
             self.buffer += edges
         else:
             self.buffer.append(edges)
diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 37df5da..4bd78e8 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -161,6 +161,12 @@ def edge2str(edge):
         return atom2str(edge)
 
 
+def is_edge_collection(edges):
+    """Check if the given collection contains several edges, instead of being an edge itself.
+    The first element of a single edge can also be an edge, but not all of them."""
+    return all(isinstance(edges[i], (list, tuple)) for i in range(len(edges)))
+
+
 def is_negative(edge):
     """Check if edge is negative."""
     return sym.is_negative(edge[0])
diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 92588c6..e4909e6 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -23,6 +23,7 @@ from gb.hypergraph.null import Null
 from gb.hypergraph.sqlite import SQLite
 from gb.hypergraph.mysql import MySQL
 import gb.hypergraph.constants as const
+import gb.hypergraph.edge as ed
 
 
 class HyperGraph(object):
@@ -117,7 +118,7 @@ class HyperGraph(object):
 
            Multiple edges can be provided, in which case all the beliefs will be
            inserted at once. This may be faster."""
-        if isinstance(edges[0], (list, tuple)):
+        if ed.is_edge_collection(edges):
             new_edges = []
             for edge in edges:
                 new_edges.append(edge)
diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 743c387..43d27f4 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -253,7 +253,7 @@ class SQL(Backend):
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
         Adding multiple edges at the same time might be faster."""
-        new_edges = edges if isinstance(edges[0], (list, tuple)) else (edges,)
+        new_edges = edges if ed.is_edge_collection(edges) else (edges,)
 
         def add_all(sql):
             for edge in new_edges:
@@ -275,7 +275,7 @@ class SQL(Backend):
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
         Removing multiple edges at the same time might be faster."""
-        old_edges = edges if isinstance(edges[0], (list, tuple)) else (edges,)
+        old_edges = edges if ed.is_edge_collection(edges) else (edges,)
 
         def remove_all(sql):
             for edge in old_edges:
-- 
2.43.0


From f52921c22d225ac69bfe780088d1ba37917fc7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 13/22] fix: add buffered edges with their own timestamps,
 accept an empty buffer

---
 gb/hypergraph/batch_hypergraph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index 518e03a..e5ac9f0 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -34,18 +34,24 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.buffer_max = buffer_max
 
     def flush(self, timestamp=-1):
-        self.backend.add(self.buffer, timestamp)
+        """Adds all the edges in the buffer. The given timestamp applies to
+           the ones that were added without a timestamp."""
+        def add_all(backend):
+            for edge, edge_timestamp in self.buffer:
+                backend.add((edge,), timestamp if edge_timestamp == -1 else edge_timestamp)
+
+        self.backend.batch_exec((add_all,))
         self.buffer = []
 
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
         if ed.is_edge_collection(edges):
-            self.buffer += edges
+            self.buffer += [(edge, timestamp) for edge in edges]
         else:
-            self.buffer.append(edges)
+            self.buffer.append((edges, timestamp))
 
         if len(self.buffer) > self.buffer_max:
-            self.flush(timestamp)
+            self.flush()
 
         return edges
-- 
2.43.0


From 935888f88c451e78d5f53a05a370cac452df20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 14/22] fix: remove edges that are still in the buffer

---
 gb/hypergraph/batch_hypergraph.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index e5ac9f0..9c7c84c 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -55,3 +55,20 @@ class BatchHyperGraph(hypergraph.HyperGraph):
             self.flush()
 
         return edges
+
+    def remove(self, edges):
+        """Removes one or multiple edges from the hypergraph.
+           Edges that are still in the buffer are included."""
+        self.flush()
+        hypergraph.HyperGraph.remove(self, edges)
+
+    def remove_by_pattern(self, pattern):
+        """Removes from the hypergraph all edges that match the pattern.
+           Edges that are still in the buffer are included."""
+        self.flush()
+        hypergraph.HyperGraph.remove_by_pattern(self, pattern)
+
+    def destroy(self):
+        """Erase the hypergraph, including edges that are still in the buffer."""
+        self.buffer = []
+        hypergraph.HyperGraph.destroy(self)
-- 
2.43.0


From 6dc074160d6d02dd53df3e28cee50b3c51d5c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 15/22] fix: make ego return the edges around a vertex instead
 of failing

---
 gb/hypergraph/hypergraph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index e4909e6..47fc717 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -103,13 +103,14 @@ class HyperGraph(object):
 
     # TODO: this can be optimized
     def ego(self, center, depth):
+        """Set of edges in the neighborhood of center, up to the given depth."""
+        edges = set()
         if depth > 0:
-            edges = self.star(center)
-            edges = edges[1:]
-            ids = [item for sublist in edges for item in sublist]
-            ids = set(ids)
-            next_edges = [self.ego(vid, depth - 1) for vid in ids]
-            return ids.union(next_edges)
+            edges = set(self.star(center))
+            ids = set([item for edge in edges for item in edge[1:]])
+            for vid in ids:
+                edges = edges.union(self.ego(vid, depth - 1))
+        return edges
 
     def add_belief(self, source, edges, timestamp=-1):
         """A belif is a fact with a source. The fact is created as a normal edge
-- 
2.43.0


From ae954fac1d096525a50f09848c36575255f568d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 16/22] fix: make intersect work

---
 gb/hypergraph/queries.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index de75daf..c616fed 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -38,7 +38,7 @@ def vemap_assoc_id_edge(vemap, vid, edge):
     if vid not in vemap:
         vemap[vid] = {'edges': [], 'neighbours': set()}
     vemap[vid]['edges'].append(edge)
-    vemap[vid]['neighbours'] = add_neighbours(vemap[id]['neighbours'], edge)
+    vemap[vid]['neighbours'] = add_neighbours(vemap[vid]['neighbours'], edge)
     return vemap
 
 
@@ -74,9 +74,9 @@ def walks(vemap, nodes, walk, all_walks):
             valid = False
 
     if valid:
-        all_walks.add(walk)
+        all_walks.add(tuple(walk))
     else:
-        neighbours = vemap[walk[-1]]['neighbours']
+        neighbours = vemap[walk[-1]]['neighbours'] if walk[-1] in vemap else set()
         next_steps = [node for node in neighbours if node not in walk]
         if len(next_steps) > 0:
             for step in next_steps:
-- 
2.43.0


From fd0947cf169010cbb76a015f3cabaaf54efbdcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 17/22] fix: pass the connection settings that the MySQL
 backend expects

---
 gb/gbrain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gb/gbrain.py b/gb/gbrain.py
index 9a9771f..9727c5a 100644
--- a/gb/gbrain.py
+++ b/gb/gbrain.py
@@ -29,15 +29,17 @@ from gb.tools.shell import Shell
 @click.group()
 @click.option('--backend', help='Hypergraph Backend (sqlite, mysql, null).', default='sqlite')
 @click.option('--db', help='Database name.', default='gb.db')
+@click.option('--dbhost', help='Database host.', default='localhost')
 @click.option('--dbuser', help='Database user.', default='gb')
 @click.option('--dbpass', help='Database password.', default='gb')
 @click.pass_context
-def cli(ctx, backend, db, dbuser, dbpass):
+def cli(ctx, backend, db, dbhost, dbuser, dbpass):
     ctx.obj = {
         'backend': backend,
         'db': db,
-        'dbuser': dbuser,
-        'dbpass': dbpass
+        'host': dbhost,
+        'user': dbuser,
+        'password': dbpass
     }
 
 
-- 
2.43.0


From e7fab990e1c94a85d992a4aaef4384ea26ab8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 18/22] fix: set the parent of a token to a token instead of
 the parser

---
 gb/nlp/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/nlp/parser.py b/gb/nlp/parser.py
index b506333..cce30e9 100644
--- a/gb/nlp/parser.py
+++ b/gb/nlp/parser.py
@@ -45,9 +45,9 @@ class Parser:
             token.left_children = [self.__spacy2token(t) for t in stoken.lefts]
             token.right_children = [self.__spacy2token(t) for t in stoken.rights]
             for t in token.left_children:
-                t.parent = self
+                t.parent = token
             for t in token.right_children:
-                t.parent = self
+                t.parent = token
             token.entity_type = stoken.ent_type_
             self.token_table[stoken] = token
 
-- 
2.43.0


From edd39b7142ee0b6cf68e933066818b3de89979ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 19/22] fix: replace every kind of white space in symbols

---
 gb/hypergraph/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/symbol.py b/gb/hypergraph/symbol.py
index 24df140..06968b3 100644
--- a/gb/hypergraph/symbol.py
+++ b/gb/hypergraph/symbol.py
@@ -109,8 +109,8 @@ def build(pts):
 def str2symbol(s):
     """Converts a string into a valid symbol"""
     sym = s.lower()
+    sym = ''.join(['_' if c.isspace() else c for c in sym])
     sym = sym.replace("/", "_")
-    sym = sym.replace(" ", "_")
     sym = sym.replace("(", "_")
     sym = sym.replace(")", "_")
     return sym
-- 
2.43.0


From b3340730d108b2b7abde643673d8c94a50f6b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 20/22] fix: keep reserved characters of words out of the
 symbols made from them

---
 gb/knowledge/stages/epsilon.py | 4 ++--
 gb/readers/wordnet.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gb/knowledge/stages/epsilon.py b/gb/knowledge/stages/epsilon.py
index 75a3933..9cad09d 100644
--- a/gb/knowledge/stages/epsilon.py
+++ b/gb/knowledge/stages/epsilon.py
@@ -28,7 +28,7 @@ class EpsilonStage(object):
         self.tree = tree
 
     def leaf_to_hyperedges(self, leaf):
-        main_edge = sym.build((leaf.token.word, leaf.namespace))
+        main_edge = sym.build((sym.str2symbol(leaf.token.word), leaf.namespace))
         return {'main_edge': main_edge}
 
     def node_to_hyperedges(self, node):
@@ -47,7 +47,7 @@ class EpsilonStage(object):
     def compound_node_to_hyperedges(self, node):
         leafs = self.compound_entity_to_leafs(node)
         words = [leaf.token.word for leaf in leafs]
-        symbol = sym.build(('_'.join(words), '?'))
+        symbol = sym.build((sym.str2symbol('_'.join(words)), '?'))
         return {'main_edge': symbol}
 
     def build_hyperedges(self, entity):
diff --git a/gb/readers/wordnet.py b/gb/readers/wordnet.py
index 4ade3cc..64b92a9 100644
--- a/gb/readers/wordnet.py
+++ b/gb/readers/wordnet.py
@@ -25,8 +25,8 @@ import gb.hypergraph.batch_hypergraph as batchhg
 
 
 def lemma2symbol(lemma):
-    lemma_id = 'wn.%s' % lemma.synset().name()
-    return sym.build([lemma.name(), lemma_id])
+    lemma_id = 'wn.%s' % lemma.synset().name().replace('/', '_')
+    return sym.build([lemma.name().replace('/', '_'), lemma_id])
 
 
 def pos2symbol(pos):
-- 
2.43.0


From 1fb8d634a41aca0ba41b1c7a0a5b41725f8a3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 21/22] fix: read back index entries that start with a nested
 edge

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 43d27f4..09f6e97 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -67,11 +67,11 @@ def cur2edges(cur):
     edges = []
     for row in cur:
         res = row[0]
-        tokens = ed.split_edge_str(res)
+        tokens = ed.split_edge_str('(%s)' % res)
         nper = int(tokens[-1])
         tokens = tokens[:-1]
         tokens = unpermutate(tokens, nper)
-        edge = ed.str2edge(' '.join(tokens))
+        edge = ed.str2edge('(%s)' % ' '.join(tokens))
         edges.append(edge)
     return set(edges)
 
-- 
2.43.0


From a0af273441fbc535ee922fbdc7214e452cd9be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 22/22] fix: printed sentence trees keep siblings that read the
 same, and sentences without a root print nothing

---
 gb/nlp/sentence.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/gb/nlp/sentence.py b/gb/nlp/sentence.py
index 0c4a1ee..1658b60 100644
--- a/gb/nlp/sentence.py
+++ b/gb/nlp/sentence.py
@@ -20,7 +20,17 @@
 
 
 from asciitree import LeftAligned
-from collections import OrderedDict
+from asciitree.traversal import Traversal
+
+
+class LabelTraversal(Traversal):
+    """Traversal of (label, children) pairs. Siblings with the same label are all kept."""
+
+    def get_children(self, node):
+        return node[1]
+
+    def get_text(self, node):
+        return node[0]
 
 
 def node_label(token, prefix):
@@ -31,7 +41,7 @@ def token2label_tree(token, prefix='*'):
     children = [token2label_tree(leaf, 'L') for leaf in token.left_children] +\
                [token2label_tree(leaf, 'R') for leaf in token.right_children]
 
-    return node_label(token, prefix), OrderedDict(children)
+    return node_label(token, prefix), children
 
 
 class Sentence:
@@ -47,13 +57,14 @@ class Sentence:
     def label_tree(self):
         r = self.root()
         if r is None:
-            return {}
-        label, children = token2label_tree(r)
-        return {label: children}
+            return None
+        return token2label_tree(r)
 
     def print_tree(self):
-        tr = LeftAligned()
-        print(tr(self.label_tree()))
+        tree = self.label_tree()
+        if tree is not None:
+            tr = LeftAligned(traverse=LabelTraversal())
+            print(tr(tree))
 
     def __str__(self):
         return ' '.join([token.word.strip() for token in self.tokens])
-- 
2.43.0

