From 02e6de131dac13dc3bff1fa47197e7c9e0b5188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 1/7] fix: Curve.__eq__ compares patterns and pnum

Without parentheses the expression was a (always true) 3-tuple, so any two
curves compared equal.
---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 15af449..4a41feb 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -529,7 +529,7 @@ class Curve(FuzzyCurve):
     """
 
     def __eq__(self, other):
-        return self.patterns, self.pnum == other.patterns, other.pnum
+        return (self.patterns, self.pnum) == (other.patterns, other.pnum)
 
     def __hash__(self):
         return hash((self.patterns, self.pnum))
-- 
2.43.0


From 365d7e08bee82fc6c8a9b95ba15340928bbef597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 2/7] fix: zero power of a base map is the identity

bm**0 recursed for ever.
---
 peano/base_maps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 2351e96..0e5326a 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -154,6 +154,8 @@ class BaseMap:
     def __pow__(self, power: int) -> BaseMap:
         if power < 0:
             return self.get_inverse()**(-power)
+        elif power == 0:
+            return BaseMap.id_map(self.dim)
         elif power == 1:
             return self
         elif power % 2 == 0:
-- 
2.43.0


From 2e858e0cb530aa0dba8c69118a9b789558273fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 3/7] fix: derive junctions in width, so that junction depths
 are correct

The queue was popped from its end (as a stack), so a junction could be reached
first through a longer chain of derivatives; e.g. get_depth() of the 4d
facet-gated curve from the zoo was 3 instead of 2.
---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 4a41feb..554d407 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -420,7 +420,7 @@ class FuzzyCurve:
 
         while to_derive:
             # to_derive is a queue (fifo), this guarantees that depths are correct
-            junc = to_derive.pop()
+            junc = to_derive.pop(0)
             dj = self._get_derived_junction(junc)
             if dj not in seen:
                 yield dj
-- 
2.43.0


From 5831de8f1954e0988ba3d3053d1a3a33fb44709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 4/7] fix: accept any iterable as base_maps_group

The argument is declared Iterable but was iterated several times, so a
generator was exhausted (StopIteration).
---
 peano/curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 554d407..6e682d4 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -712,7 +712,8 @@ class PathFuzzyCurve(FuzzyCurve):
         div = paths[0].div
 
         if base_maps_group is None:
-            base_maps_group = list(BaseMap.gen_base_maps(dim))
+            base_maps_group = BaseMap.gen_base_maps(dim)
+        base_maps_group = list(base_maps_group)  # used several times
         if disable_time_rev:
             base_maps_group = [bm for bm in base_maps_group if not bm.time_rev]
 
-- 
2.43.0


From 420e23f06e58b3b9fef341328f8c3b6dcdcba1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 5/7] fix: search reports NOT FOUND when no curve satisfies the
 upper bound

estimate_dilation_sequence returns None in that case and run_search failed
with AttributeError.
---
 search.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/search.py b/search.py
index b002e46..250ee66 100755
--- a/search.py
+++ b/search.py
@@ -76,15 +76,14 @@ def run_search(
             upper_bound=upper_bound,
             **estimate_kwargs
         )
-        result.update(estimator.get_info())
-        result['gates_count'] = len(gate_list)
-        curves = result.pop('curves')
-
         print('======')
         print('GENERATOR:', gen_id)
         if not result:
             print('NOT FOUND!')
         else:
+            result.update(estimator.get_info())
+            result['gates_count'] = len(gate_list)
+            curves = result.pop('curves')
             pprint.pprint(result)
             print('lower bound (float):', float(result['lo']))
             print('upper bound (float):', float(result['up']))
-- 
2.43.0


From 5fec7ad4cdd2af5971ff2611eb7c9239988949ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:39 +0000
Subject: [PATCH 6/7] fix: continuity check for paths with facet links

---
 peano/paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peano/paths.py b/peano/paths.py
index 30969a1..40adf3c 100644
--- a/peano/paths.py
+++ b/peano/paths.py
@@ -152,8 +152,8 @@ class Path[ST: Subset]:
         prev_link = self.links[0]
         for cube, link in zip(self.proto[1:], self.links[1:]):
             # check prev_link.exit ~~ link.entrance
-            shift = [cj - pj for cj, pj in zip(cube, prev_cube)]
-            if not prev_link.exit.intersects(link.entrance.transform(shift=shift)):
+            shift = tuple(cj - pj for cj, pj in zip(cube, prev_cube))
+            if not any(delta == shift and subset.intersects(link.entrance) for delta, subset in prev_link.exit.gen_neighbours()):
                 return False
             prev_cube, prev_link = cube, link
         return True
-- 
2.43.0


From baa9bb10286bb35421b018f3867cb438ff2f4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:34 +0000
Subject: [PATCH 7/7] fix: YE-proof.py imports the YE curve from the zoo

---
 YE-proof.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/YE-proof.py b/YE-proof.py
index 8170524..1dedf37 100644
--- a/YE-proof.py
+++ b/YE-proof.py
@@ -7,7 +7,7 @@ from peano.base_maps import BaseMap
 from peano.paths import PathsGenerator
 from peano.curves import PathFuzzyCurve
 from peano.dilation import Estimator
-from tests.examples import get_ye_curve
+from peano.zoo import get_ye_curve
 
 from search import run_search
 
@@ -18,7 +18,7 @@ MEDIAN_LINK = Link.parse_gates('(0,0)->(1,1/2)')
 
 
 def check_genus5_non_ye():
-    YE_proto = get_ye_curve().proto
+    YE_proto = get_ye_curve().curve.proto
     YE_protos = set(bm * YE_proto for bm in BaseMap.gen_base_maps(dim=2))
     paths_gen = PathsGenerator(dim=2, div=5, links=(SIDE_LINK,), max_cdist=1)
     paths_list = list(paths_gen.generate_paths(std=True))
@@ -39,7 +39,7 @@ def check_genus5_non_ye():
 
 
 def check_genus5_ye_proto():
-    YE_curve = get_ye_curve()
+    YE_curve = get_ye_curve().curve
     YE_proto = YE_curve.proto
     YE_protos = set(bm * YE_proto for bm in BaseMap.gen_base_maps(dim=2))
     paths_gen = PathsGenerator(dim=2, div=5, links=(SIDE_LINK,), max_cdist=1)
@@ -50,7 +50,7 @@ def check_genus5_ye_proto():
     assert len(paths_list) == 1
 
     test_pcurves = []
-    ye_pcurve = get_ye_curve().forget()
+    ye_pcurve = get_ye_curve().curve.forget()
     for cnum, ye_spec in enumerate(YE_curve.specs):
         allowed = ye_pcurve.gen_allowed_specs(pnum=0, cnum=cnum)
         test_pcurves += [ye_pcurve.specify(pnum=0, cnum=cnum, spec=sp) for sp in allowed if sp != ye_spec]
@@ -70,7 +70,7 @@ def check_genus5_ye_proto():
 def check_ye():
     estimator = Estimator(ratio_l2)
     result = estimator.estimate_dilation_regular(
-        get_ye_curve(),
+        get_ye_curve().curve,
         use_face_moments=True, face_dim=0,
         max_depth=5,
         rel_tol_inv=100000,
-- 
2.43.0

