From 5e8e1474686be782524375f27267f4abb6853b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:48 +0000
Subject: [PATCH 1/9] fix: Edge.getMid must not swallow interrupts

---
 meshless/espim/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/espim/classes.py b/meshless/espim/classes.py
index cc7821e..1730bab 100644
--- a/meshless/espim/classes.py
+++ b/meshless/espim/classes.py
@@ -38,7 +38,7 @@ class Edge(object):
     def getMid(self):
         try:
             return 0.5*(self.n1 + self.n2)
-        except:
+        except TypeError:
             return 0.5*(self.n1.xyz + self.n2.xyz)
 
 
-- 
2.43.0


From 6fec402b91281e79f9150cbb55aa8df6b7888802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:48 +0000
Subject: [PATCH 2/9] fix: read_delaunay must not alias the caller's points
 array

---
 meshless/espim/read_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 7a25e04..fd5ada8 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -94,6 +94,9 @@ def read_delaunay(points, tri, silent=True):
     for pt in points:
         if len(pt) == 2:
             pt = np.array([pt[0], pt[1], 0.])
+        else:
+            # the node must own its coordinates, not share the caller's array
+            pt = np.array(pt, dtype=float)
         nid += 1
         node = GRID(nid, cp=0, cd=0, xyz=pt)
         node.trias = set()
-- 
2.43.0


From 907fa72171df8e18e2b5a82afe3ba1ad9babda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:05 +0000
Subject: [PATCH 3/9] fix: mprint_as_array must not change the caller's matrix

---
 meshless/dev/sympytools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index a94f224..03d7a3c 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -264,6 +264,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
     ls = []
     if use_cse:
         subs, m_list = sympy.cse(m)
+        m = m.copy() # the caller's matrix must not be changed
         for i, v in enumerate(m_list):
             m[i] = v
     if sufix is None:
-- 
2.43.0


From a8e648964ad877ad823c9506fe7fd282da9b5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 4/9] fix: calc_k0 must refuse over-shared edges before
 changing the mesh

---
 meshless/espim/plate2d_calc_k0.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshless/espim/plate2d_calc_k0.py b/meshless/espim/plate2d_calc_k0.py
index 1c8f28b..49a101c 100644
--- a/meshless/espim/plate2d_calc_k0.py
+++ b/meshless/espim/plate2d_calc_k0.py
@@ -31,6 +31,9 @@ def calc_k0(mesh, prop_from_node, silent=True):
     msg('Calculating K0...', silent=silent)
     edges = mesh.edges.values()
     for edge in edges:
+        # refusing before anything is changed in the mesh
+        if len(edge.trias) not in (1, 2):
+            raise NotImplementedError('ntrias != 1 or 2 for an edge')
         if prop_from_node:
             for node in edge.nodes:
                 if node.prop is None:
-- 
2.43.0


From f79c1e53bec3e606fc2d71d3ad6d0ffffb356081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 5/9] fix: pow2mul no longer breaks powers of functions, nested
 and decimal powers

sin(x)**2 became sin(x*x), x**1.5 became (x).5 and (x**2 + y)**2 raised
ValueError.
---
 meshless/dev/sympytools.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 03d7a3c..996b704 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -21,18 +21,14 @@ def pow2mul(instr):
         The output string
 
     """
-    old_new = []
-    outstr = instr
-    search = r'\w+\*\*\s*\d+|\([^\(\)]+\)\*\*\d+'
-    for p in re.findall(search, instr):
-        var, exp = p.replace(' ', '').split('**')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    # putting longer patterns first to avoid wrong
-    # substitutions
-    old_new = sorted(old_new, key=lambda x: len(x[0]))[::-1]
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
+    def expand(match):
+        var, exp = match.group().replace(' ', '').rsplit('**', 1)
+        return '(' + '*'.join([var]*int(exp)) + ')'
+
+    # the base is a name or something in parentheses, with the name of the
+    # function if it is a function call; decimal exponents are not expanded
+    search = r'\w*\([^\(\)]+\)\*\*\s*\d+(?![\w.])|(?<![\w.])\w+\*\*\s*\d+(?![\w.])'
+    outstr = re.sub(search, expand, instr)
 
     old_new = []
     for p in re.findall(r'pow\(\s*[^,]+\s*,\s*[^,\)]+\s*\)', instr):
-- 
2.43.0


From 644452b0657f7c7df9f7ef21fe41e20e65a82ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 6/9] fix: mprint_as_array expands powers with pow2mul

Its own replacement changed a**2 inside alpha**2 and x**1 inside x**1.5.
---
 meshless/dev/sympytools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 996b704..efe7749 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -297,10 +297,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mul(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0


From da4cd6b8ebdd0e9a1fd83678b2c9e0b46899c8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 7/9] fix: mprint_as_sparse judges the upper triangle by the
 indices of the matrix

With dofpernode given the indices within the nodes were compared, so entries
of the upper triangle were left out and entries of the lower one printed.
---
 meshless/dev/sympytools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index efe7749..75b5413 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -87,15 +87,14 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
 
     num = 0
     for (i, j), v in np.ndenumerate(m):
+        if is_symmetric and i > j:
+            continue
         if dofpernode:
             nindi = (i // dofpernode) + 1
             nindj = (j // dofpernode) + 1
             i = i % dofpernode
             j = j % dofpernode
         if v:
-            if is_symmetric and i > j:
-                continue
-
             if subs:
                 v = v.subs(subs)
             num += 1
-- 
2.43.0


From 6d02206f9f579381c50f2ae1117f26a6aa2de7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:36 +0000
Subject: [PATCH 8/9] fix: use grid point positions in the basic coordinate
 system

Grid points given in a local coordinate system kept their local coordinates,
while the midpoints of triangles were computed in the basic system.
---
 meshless/espim/read_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index fd5ada8..0125f76 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -25,6 +25,9 @@ def read_mesh(filepath, silent=True):
     msg('Reading mesh...', silent=silent)
     mesh = read_bdf(filepath, debug=False)
     for node in mesh.nodes.values():
+        if node.Cp() != 0:
+            # the analyses use the coordinates in the basic coordinate system
+            node.set_position(mesh, node.get_position())
         node.trias = set()
         node.edges = set()
         node.index = set()
-- 
2.43.0


From 6f954526f9ec970e05a7055c316769f69b7f5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 9/9] fix: transverse shear in xz is governed by A55 (G13), in
 yz by A44 (G23)

prop.E holds [[A44, A45], [A45, A55]]; the first row of the shear gap operator is gamma_xz, so its
stiffness is k13*E[1, 1].
---
 meshless/espim/plate2d_add_k0s_cell_based.py              | 4 ++--
 meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py | 4 ++--
 meshless/espim/plate2d_add_k0s_edge_based.py              | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshless/espim/plate2d_add_k0s_cell_based.py b/meshless/espim/plate2d_add_k0s_cell_based.py
index a325762..ac3cef4 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based.py
@@ -73,9 +73,9 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             k23 = tria.prop.scf_k23
             E = tria.prop.E
             h = tria.prop.h
-        E44 = k23 * E[0, 0]
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
index 8b13e2e..0b18347 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
@@ -41,9 +41,9 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             E = tria.prop.E
             h = tria.prop.h
 
-        E44 = k23 * E[0, 0]
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_edge_based.py b/meshless/espim/plate2d_add_k0s_edge_based.py
index 778daa8..54a1f3e 100644
--- a/meshless/espim/plate2d_add_k0s_edge_based.py
+++ b/meshless/espim/plate2d_add_k0s_edge_based.py
@@ -42,9 +42,9 @@ def boundary_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = tria1.prop.E
         h = tria1.prop.h
 
-    E44 = k23 * E[0, 0]
+    E44 = k13 * E[1, 1]
     E45 = 0 # min(k13, k23) * E[0, 1]
-    E55 = k13 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
@@ -193,9 +193,9 @@ def interior_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = (Ac1*prop1.E + Ac2*prop2.E)/Ac
         h = (Ac1*prop1.h + Ac2*prop2.h)/Ac
 
-    E44 = k13 * E[0, 0]
+    E44 = k13 * E[1, 1]
     E45 = min(k13, k23) * E[0, 1]
-    E55 = k23 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
-- 
2.43.0

