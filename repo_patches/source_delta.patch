From 80aa66bb1218208e0fec86703a70132dd7cb5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 01/81] fix: chunk size given in bytes no longer divides by
 zero on a graph without nodes

---
 graphblas_algorithms/nxapi/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 0bb9617..aeec1db 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -80,7 +80,7 @@ def normalize_chunksize(chunksize, itemsize=1, N=None):
             )
         number *= scale
         if chunkstring[-1] == "b":
-            number = max(1, number / itemsize)
+            number = max(1, number / max(1, itemsize))
         rv = int(round(number))
     if rv <= 0 or N is not None and rv >= N:
         return None
-- 
2.43.0


From 1225309c027813984cf2e3471ac8195c605d4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 02/81] fix: bellman_ford_path_length returned an unevaluated
 expression on iso-valued graphs

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index a83a060..b7fb29a 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -34,6 +34,8 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
                 if d is None:
                     raise NoPath(f"node {target} not reachable from {source}")
             if iso_value != 1:
+                if dst_id is not None:
+                    return d * iso_value.get()
                 d *= iso_value
             return d
         # It's difficult to detect negative cycles with BFS
-- 
2.43.0


From 9d7a3f492d49084d68ff6609573f80191b7fdac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 03/81] fix: bellman_ford_path claimed a negative cycle for
 every graph of equal negative weights

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index b7fb29a..3d6a2f1 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -221,7 +221,6 @@ def bellman_ford_path(G, source, target):
         if not is_negative:
             p = _bfs_parent(G, source, target)
             return _reconstruct_path_from_parents(G, p, src_id, dst_id)
-        raise Unbounded("Negative cycle detected.")
     A, is_negative, has_negative_diagonal = G.get_properties(
         "offdiag has_negative_edges- has_negative_diagonal"
     )
-- 
2.43.0


From c3098bcecfdbd9c1b680385880d5575e96c5e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 04/81] fix: bellman_ford_path returned an empty path instead
 of raising NetworkXNoPath

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 3 ++-
 graphblas_algorithms/nxapi/shortest_paths/weighted.py      | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 3d6a2f1..9f2e866 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -203,7 +203,8 @@ def _reconstruct_path_from_parents(G, parents, src, dst):
     indices, values = parents.to_coo(sort=False)
     d = dict(zip(indices.tolist(), values.tolist(), strict=True))
     if dst not in d:
-        return []
+        [source, target] = G.list_to_keys([src, dst])
+        raise NoPath(f"node {target} not reachable from {source}")
     cur = dst
     path = [cur]
     while cur != src:
diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index b08dd85..2d55aad 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -64,6 +64,8 @@ def bellman_ford_path(G, source, target, weight="weight"):
         return algorithms.bellman_ford_path(G, source, target)
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
+    except exceptions.NoPath as e:
+        raise NetworkXNoPath(*e.args) from e
 
 
 def bellman_ford_path_length(G, source, target, weight="weight"):
-- 
2.43.0


From 646fe97b3b08fa2118a9f1620b103f28f27a5a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 05/81] fix: bellman_ford_path and bellman_ford_path_length
 raise NetworkXUnbounded on negative cycles

---
 graphblas_algorithms/nxapi/shortest_paths/weighted.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index 2d55aad..f1f4754 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -66,6 +66,8 @@ def bellman_ford_path(G, source, target, weight="weight"):
         raise NodeNotFound(*e.args) from e
     except exceptions.NoPath as e:
         raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def bellman_ford_path_length(G, source, target, weight="weight"):
@@ -76,6 +78,8 @@ def bellman_ford_path_length(G, source, target, weight="weight"):
         raise NodeNotFound(*e.args) from e
     except exceptions.NoPath as e:
         raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def negative_edge_cycle(G, weight="weight", heuristic=True):
-- 
2.43.0


From 26f0d276c3f450a930c0262c198de38ef8b80e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 06/81] fix: negative cycles that reach the target were missed
 by single-target Bellman-Ford

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 9f2e866..56e5e3c 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -92,7 +92,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if dst_id is None and mask.reduce(monoid.lor) or dst_id is not None and mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     if has_negative_diagonal:
         # We removed diagonal entries above, so check if we visited one with a negative weight
@@ -290,7 +290,7 @@ def bellman_ford_path(G, source, target):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
     if has_negative_diagonal and path:
-- 
2.43.0


From 1a4909dd1ab52a618aed21a9bdc012d632572ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 07/81] fix: single-target Bellman-Ford mishandled graphs with
 a negative self-loop

---
 .../algorithms/shortest_paths/weighted.py     | 27 +++++++------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 56e5e3c..6f92e28 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -2,7 +2,7 @@ import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
 
-from .._bfs import _bfs_level, _bfs_levels, _bfs_parent, _bfs_plain
+from .._bfs import _bfs_level, _bfs_levels, _bfs_parent
 from ..exceptions import NoPath, Unbounded
 
 __all__ = [
@@ -83,7 +83,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if dst_id is not None and not is_negative:
+        if dst_id is not None and not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
     else:
@@ -263,7 +263,7 @@ def bellman_ford_path(G, source, target):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if not is_negative:
+        if not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
 
@@ -292,22 +292,13 @@ def bellman_ford_path(G, source, target):
         mask << binary.lt(cur & d)
         if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
-    path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
-    if has_negative_diagonal and path:
-        mask.clear()
-        mask[G.list_to_ids(path)] = True
-        diag = G.get_property("diag", mask=mask.S)
-        if diag.nvals > 0:
+    if has_negative_diagonal:
+        # We removed diagonal entries above, so check if we visited one with a negative weight
+        diag = G.get_property("diag")
+        cur << select.valuelt(diag, 0)
+        if any_pair(d @ cur):
             raise Unbounded("Negative cycle detected.")
-        mask << binary.first(mask & cur)  # mask(cur.S, replace) << mask
-        if mask.nvals > 0:
-            # Is there a path from any visited node with negative self-loop to target?
-            # We could actually stop as soon as any from `path` is visited
-            indices, _ = mask.to_coo(values=False)[0]
-            q = _bfs_plain(G, target=target, index=indices, cutoff=_i)
-            if dst_id in q:
-                raise Unbounded("Negative cycle detected.")
-    return path
+    return _reconstruct_path_from_parents(G, p, src_id, dst_id)
 
 
 def negative_edge_cycle(G):
-- 
2.43.0


From bd77b59d6e0a4aa4fc35827a3737d2534e67e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 08/81] fix: Floyd-Warshall predecessors were mirrored on
 undirected graphs

---
 graphblas_algorithms/algorithms/shortest_paths/dense.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index 394d1b4..eca3cef 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -21,6 +21,10 @@ def floyd_warshall_predecessor_and_distance(
     if is_directed := G.is_directed():
         A, row_degrees, column_degrees = G.get_properties("offdiag row_degrees- column_degrees-")
         nonempty_nodes = binary.pair(row_degrees & column_degrees).new(name="nonempty_nodes")
+    elif compute_predecessors:
+        # Distances are symmetric, but predecessors are not, so use both triangles
+        is_directed = True
+        A, nonempty_nodes = G.get_properties("offdiag degrees-")
     else:
         A, nonempty_nodes = G.get_properties("U- degrees-")
     if permutation is not None:
-- 
2.43.0


From a67b76dfd19268f0f99abafa8a4626de95429639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 09/81] fix: pagerank of a graph without edges was 0 for every
 node instead of a distribution

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 7391dbe..05cf993 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -22,7 +22,7 @@ def pagerank(
 ) -> Vector:
     A = G._A
     N = A.nrows
-    if A.nvals == 0:
+    if N == 0:
         return Vector(float, N, name=name)
 
     # Initial vector
-- 
2.43.0


From b380d95ae3ce7a04c583e79ad8c8003d73c11cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 10/81] fix: pagerank failed when the starting vector covers no
 dangling node

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 05cf993..4f95c67 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -88,10 +88,10 @@ def pagerank(
         if is_dangling:
             if dangling is None and personalization is None:
                 # Fast case: add a scalar; x is still iso-valued (b/c p is also scalar)
-                x += xprev @ dangling_mask
+                x += (xprev @ dangling_mask).get(0.0)
             else:
                 # Add a vector
-                x += plus_first(xprev @ dangling_mask) * dangling_weights
+                x += plus_first(xprev @ dangling_mask).get(0.0) * dangling_weights
         w << xprev * S
         x += semiring(w @ A)  # plus_first if A.ss.is_iso else plus_times
 
-- 
2.43.0


From 24a9e3b2232bd238560387b65eded557a3359498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 11/81] fix: google_matrix mixed up dangling rows when nodelist
 reorders the nodes

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 4f95c67..da12071 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -130,7 +130,7 @@ def google_matrix(
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(mask=personalization.V, name="p")
 
-    if ids is None or len(ids) == len(G):
+    if ids is None:
         nonempty_rows = G.get_property("any_rowwise+")  # XXX: What about self-edges?
     else:
         nonempty_rows = A.reduce_rowwise(monoid.any).new(name="nonempty_rows")
-- 
2.43.0


From 37f013f17689ff8b02c62b989a53d37783843192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 12/81] fix: katz_centrality dropped nodes without incoming
 edges

---
 graphblas_algorithms/algorithms/centrality/katz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/centrality/katz.py b/graphblas_algorithms/algorithms/centrality/katz.py
index 8087e85..728216b 100644
--- a/graphblas_algorithms/algorithms/centrality/katz.py
+++ b/graphblas_algorithms/algorithms/centrality/katz.py
@@ -1,4 +1,4 @@
-from graphblas import Scalar, Vector
+from graphblas import Scalar, Vector, binary
 from graphblas.core.utils import output_type
 from graphblas.semiring import plus_first, plus_times
 
@@ -46,7 +46,7 @@ def katz_centrality(
         # x << alpha * semiring(xprev @ A) + beta
         x << semiring(xprev @ A)
         x *= alpha
-        x += b
+        x(binary.plus)[:] = b
         if is_converged(xprev, x, tol):  # sum(abs(xprev - x)) < N * tol
             x.name = name
             if normalized:
-- 
2.43.0


From 92676b401f903fa9ae35c498460d9f8b51916d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 13/81] fix: weighted clustering failed on graphs without edges
 between distinct nodes

---
 graphblas_algorithms/algorithms/cluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 0b9ab21..c9163d7 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -29,7 +29,7 @@ def single_triangle(G, node, *, weighted=False):
     if G.get_property("has_self_edges"):
         del r[index]  # Ignore self-edges
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         L = unary.cbrt(L / maxval)
         r = unary.cbrt(r / maxval)
         semiring = plus_times
@@ -46,7 +46,7 @@ def triangles(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     L, U = G.get_properties("L- U-")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         L = unary.cbrt(L / maxval)
         U = unary.cbrt(U / maxval)
         semiring = plus_times
@@ -102,7 +102,7 @@ def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     A, AT = G.get_properties("offdiag AT")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         A = unary.cbrt(A / maxval)
         AT = unary.cbrt(AT / maxval)
         semiring = plus_times
@@ -151,7 +151,7 @@ def single_clustering_directed(G, node, *, weighted=False):
     A = G.get_property("offdiag")
     index = G._key_to_id[node]
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         A = unary.cbrt(A / maxval)
         semiring = plus_times
     else:
-- 
2.43.0


From ab3d0397ec3782eedfa9e18999ec99b635e11f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 14/81] fix: reducing off-diagonal elements from cached
 triangles raised AttributeError

---
 graphblas_algorithms/classes/_caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 3074bed..6828d8a 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -123,8 +123,9 @@ def get_reduce_to_scalar(key, opname):
                     and opclass in {"BinaryOp", "Monoid"}
                     and G.get_property("has_self_edges")
                 ):
-                    return op_(
-                        cache["L-"].reduce(op_)._as_vector() | cache["U-"].reduce(op_)._as_vector()
+                    cache[key] = op_(
+                        cache["L-"].reduce_scalar(op_).new()._as_vector()
+                        | cache["U-"].reduce_scalar(op_).new()._as_vector()
                     )[0].new(name=key)
                 elif not G.get_property("has_self_edges"):
                     cache[key] = G.get_property(f"{keybase}+")
-- 
2.43.0


From d9315aa1c418e6bcd4dc1aa3eb994690524720bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 15/81] fix: directed clustering counted self-loops as triangle
 edges

---
 graphblas_algorithms/algorithms/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index c9163d7..2617ecf 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -101,6 +101,8 @@ def clustering(G, *, weighted=False, mask=None):
 def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     A, AT = G.get_properties("offdiag AT")
+    if G.get_property("has_self_edges"):
+        AT = A.T.new(name="AT_offdiag")  # Ignore self-edges
     if weighted:
         maxval = G.get_property("max_element-").get(1)
         A = unary.cbrt(A / maxval)
-- 
2.43.0


From 860b961530e34fca391bcf431cc3aacd7cc3ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 16/81] fix: average_clustering returned the cached value of
 the other weighting

---
 graphblas_algorithms/nxapi/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 8e61f9b..61ae7a0 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -69,7 +69,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
         func = algorithms.average_clustering
     if mask is None:
         return G._cacheit(
-            f"average_clustering(count_zeros={count_zeros})",
+            f"average_clustering(count_zeros={count_zeros}, weighted={weighted})",
             func,
             G,
             weighted=weighted,
-- 
2.43.0


From 91fdc2aa715e4f5301321044dc06b5497167d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 17/81] fix: partitioning into chunks of one yielded bare
 elements instead of chunks

---
 graphblas_algorithms/nxapi/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index aeec1db..e25bf1f 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -97,7 +97,8 @@ def partition(chunksize, L, *, evenly=True):
         yield L
         return
     if chunksize == 1:
-        yield from L
+        for start in range(N):
+            yield L[start : start + 1]
         return
     if evenly:
         k = ceil(len(L) / chunksize)
-- 
2.43.0


From bd042a555f06d713ffb4b61ee208596fb9d28264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 18/81] fix: square_clustering left out requested nodes that
 are in no square

---
 graphblas_algorithms/nxapi/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 61ae7a0..031257e 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -113,12 +113,13 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
     if nodes in G:
         idx = G._key_to_id[nodes]
         return algorithms.single_square_clustering(G, idx)
+    nodes = list(nodes)
     ids = G.list_to_ids(nodes)
     if chunksize is None:
         result = algorithms.square_clustering(G, ids)
     else:
         result = _square_clustering_split(G, ids, chunksize=chunksize)
-    return G.vector_to_nodemap(result)
+    return G.vector_to_nodemap(result, mask=G.list_to_mask(nodes), fill_value=0)
 
 
 @not_implemented_for("directed")
-- 
2.43.0


From 4c0f0762cb9c99f8ec31993f50b0c4662cf28e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 19/81] fix: default edge_boundary of a directed graph missed
 nodes without outgoing edges

---
 graphblas_algorithms/algorithms/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index 96bd275..b3f964d 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -11,8 +11,8 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B = binary.pair(nbunch1 & G._A).new(name="boundary")
     if nbunch2 is None:
         # Default nbunch2 is the complement of nbunch1.
-        # We get the row_degrees to better handle hypersparse data.
-        nbunch2 = G.get_property("row_degrees+", mask=~nbunch1.S)
+        # We get the column_degrees to better handle hypersparse data.
+        nbunch2 = G.get_property("column_degrees+", mask=~nbunch1.S)
     if is_weighted:
         B << binary.first(B & nbunch2)
     else:
-- 
2.43.0


From 809d1bb914bd6798266bea64afce0b94a29da07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 20/81] fix: cut_size of a directed graph failed when the
 second set is left out

---
 graphblas_algorithms/algorithms/cuts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 918dc56..2ae6757 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -16,6 +16,8 @@ __all__ = [
 
 
 def cut_size(G, S, T=None, *, is_weighted=False):
+    if T is None:
+        T = (~S.S).new(name="T")
     edges = edge_boundary(G, S, T, is_weighted=is_weighted)
     if is_weighted:
         rv = edges.reduce_scalar(monoid.plus).get(0)
-- 
2.43.0


From f8c63f98da0a00b6eb1d564f1cdfd43237620955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 21/81] fix: weighted volume of a directed graph summed
 incoming instead of outgoing weights

---
 graphblas_algorithms/algorithms/cuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 2ae6757..8c52d61 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,5 +1,5 @@
 from graphblas import monoid
-from graphblas.semiring import any_pair, plus_first
+from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
 
@@ -34,7 +34,7 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 
 def volume(G, S, *, weighted=False):
     if weighted:
-        degrees = plus_first(G._A @ S)
+        degrees = plus_second(S @ G._A)
     else:
         degrees = G.get_property("row_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
-- 
2.43.0


From 2e16c199482f86b4516bacf88221fe08512199e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 22/81] fix: degree_centrality of an undirected graph counted
 self-loops once instead of twice

---
 .../algorithms/centrality/degree_alg.py        |  5 +----
 graphblas_algorithms/classes/graph.py          | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/graphblas_algorithms/algorithms/centrality/degree_alg.py b/graphblas_algorithms/algorithms/centrality/degree_alg.py
index 0237265..33e1d80 100644
--- a/graphblas_algorithms/algorithms/centrality/degree_alg.py
+++ b/graphblas_algorithms/algorithms/centrality/degree_alg.py
@@ -15,10 +15,7 @@ def _degree_centrality(G, degrees, name):
 
 
 def degree_centrality(G, *, name="degree_centrality"):
-    if G.is_directed():
-        degrees = G.get_property("total_degrees+")
-    else:
-        degrees = G.get_property("degrees+")
+    degrees = G.get_property("total_degrees+")
     return _degree_centrality(G, degrees, name)
 
 
diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index f3e2239..7db2925 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
 
 import graphblas as gb
-from graphblas import Matrix, Vector, select
+from graphblas import Matrix, Vector, binary, select, unary
 
 import graphblas_algorithms as ga
 
@@ -111,6 +111,20 @@ def get_Lm(G, mask=None):
     return cache["L-"]
 
 
+def get_total_degreesp(G, mask=None):
+    """A.reduce_rowwise(agg.count) + A.diag().apply(unary.one); i.e., self-edges count twice"""
+    cache = G._cache
+    if not G.get_property("has_self_edges"):
+        return G.get_property("degrees+", mask=mask)
+    if "total_degrees+" not in cache:
+        cache["total_degrees+"] = binary.plus(
+            G.get_property("degrees+") | unary.one(G.get_property("diag")).new(int)
+        ).new(name="total_degrees+")
+    if mask is not None:
+        return cache["total_degrees+"].dup(mask=mask)
+    return cache["total_degrees+"]
+
+
 def get_diag(G, mask=None):
     """A.diag()"""
     A = G._A
@@ -322,6 +336,7 @@ class Graph:
                     "diag",
                     "count_rowwise+",
                     "count_rowwise-",
+                    "total_degrees+",
                     "min_diagonal",
                     "min_element+",
                     "min_element-",
@@ -349,6 +364,7 @@ class Graph:
             "has_negative_edges-": has_negative_edgesm,
             "has_negative_edges+": has_negative_edgesp,
             "has_self_edges": has_self_edges,
+            "total_degrees+": get_total_degreesp,
         }
     )
     _cache_aliases = {
-- 
2.43.0


From 7c9de3e30d92058185aa1515b9610892bac1c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 23/81] fix: volume of an undirected graph counted self-loops
 once instead of twice

---
 graphblas_algorithms/algorithms/cuts.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 8c52d61..999fa7a 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,4 +1,4 @@
-from graphblas import monoid
+from graphblas import binary, monoid
 from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
@@ -35,8 +35,13 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 def volume(G, S, *, weighted=False):
     if weighted:
         degrees = plus_second(S @ G._A)
-    else:
+        if not G.is_directed() and G.get_property("has_self_edges"):
+            # Self-edges of undirected graphs count twice
+            degrees = binary.plus(degrees.new() | G.get_property("diag", mask=S.S))
+    elif G.is_directed():
         degrees = G.get_property("row_degrees+", mask=S.S)
+    else:
+        degrees = G.get_property("total_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
 
 
-- 
2.43.0


From e7d5b7f8304a9f69d5784b12af58d0b9af40f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 24/81] fix: conductance, normalized_cut_size, edge_expansion
 and mixing_expansion ignored weight

---
 graphblas_algorithms/algorithms/cuts.py | 24 ++++++++++++------------
 graphblas_algorithms/nxapi/cuts.py      | 12 ++++++++----
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 999fa7a..d878a13 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -45,22 +45,22 @@ def volume(G, S, *, weighted=False):
     return degrees.reduce(monoid.plus).get(0)
 
 
-def normalized_cut_size(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def normalized_cut_size(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges * ((1 / volume_S) + (1 / volume_T))
 
 
-def conductance(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def conductance(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges / min(volume_S, volume_T)
 
 
-def edge_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def edge_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     if T is None:
         Tnvals = S.size - S.nvals
     else:
@@ -68,8 +68,8 @@ def edge_expansion(G, S, T=None):
     return num_cut_edges / min(S.nvals, Tnvals)
 
 
-def mixing_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def mixing_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
 
 
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 8343109..0656650 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -29,37 +29,41 @@ def volume(G, S, weight=None):
 
 
 def normalized_cut_size(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.normalized_cut_size(G, S, T)
+    return algorithms.normalized_cut_size(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def conductance(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.conductance(G, S, T)
+    return algorithms.conductance(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def edge_expansion(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.edge_expansion(G, S, T)
+    return algorithms.edge_expansion(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def mixing_expansion(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.mixing_expansion(G, S, T)
+    return algorithms.mixing_expansion(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From e50542e397843bc608e771a79f3eaf539382da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 25/81] fix: mixing_expansion divided by the wrong number of
 edges for directed graphs and self-loops

---
 graphblas_algorithms/algorithms/cuts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index d878a13..ffcd9f1 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -70,7 +70,10 @@ def edge_expansion(G, S, T=None, *, is_weighted=False):
 
 def mixing_expansion(G, S, T=None, *, is_weighted=False):
     num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
-    return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
+    num_edges = G._A.nvals
+    if not G.is_directed():
+        num_edges = (num_edges + G.get_property("diag").nvals) // 2
+    return num_cut_edges / (2 * num_edges)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From b05a75cf13dd1999af89f354093fc9e6c5bf4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 26/81] fix: s_metric was half its value for directed graphs
 and wrong with self-loops

---
 graphblas_algorithms/algorithms/smetric.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/graphblas_algorithms/algorithms/smetric.py b/graphblas_algorithms/algorithms/smetric.py
index e2e85bb..c65db6f 100644
--- a/graphblas_algorithms/algorithms/smetric.py
+++ b/graphblas_algorithms/algorithms/smetric.py
@@ -4,11 +4,9 @@ __all__ = ["s_metric"]
 
 
 def s_metric(G):
-    if G.is_directed():
-        degrees = G.get_property("total_degrees+")
-    else:
-        degrees = G.get_property("degrees+")
-    return (binary.first(degrees & G._A) @ degrees).reduce().get(0) / 2
+    degrees = G.get_property("total_degrees+")
+    A = G._A if G.is_directed() else G.get_property("U+")
+    return (binary.first(degrees & A) @ degrees).reduce().get(0)
     # Alternatives
-    # return (degrees @ binary.second(G._A & degrees)).reduce().get(0) / 2
-    # return degrees.outer(degrees).new(mask=G._A.S).reduce_scalar().get(0) / 2
+    # return (degrees @ binary.second(A & degrees)).reduce().get(0)
+    # return degrees.outer(degrees).new(mask=A.S).reduce_scalar().get(0)
-- 
2.43.0


From e48ea89a6d001bada11df4ca051bb1a76e000aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 27/81] fix: is_regular and is_k_regular rejected 0-regular
 graphs and miscounted self-loops

---
 graphblas_algorithms/algorithms/regular.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/graphblas_algorithms/algorithms/regular.py b/graphblas_algorithms/algorithms/regular.py
index cf3a057..9b2a44e 100644
--- a/graphblas_algorithms/algorithms/regular.py
+++ b/graphblas_algorithms/algorithms/regular.py
@@ -5,14 +5,14 @@ __all__ = ["is_regular", "is_k_regular"]
 
 def is_regular(G):
     if not G.is_directed():
-        degrees = G.get_property("degrees+")
+        degrees = G.get_property("total_degrees+")
         if degrees.nvals != degrees.size:
-            return False
+            return degrees.nvals == 0
         d = degrees.get(0)
         return (degrees == d).reduce(monoid.land).get(True)
     row_degrees = G.get_property("row_degrees+")
     if row_degrees.nvals != row_degrees.size:
-        return False
+        return row_degrees.nvals == 0
     column_degrees = G.get_property("column_degrees+")
     if column_degrees.nvals != column_degrees.size:
         return False
@@ -24,7 +24,7 @@ def is_regular(G):
 
 
 def is_k_regular(G, k):
-    degrees = G.get_property("degrees+")
+    degrees = G.get_property("total_degrees+")
     if degrees.nvals != degrees.size:
-        return False
+        return degrees.nvals == 0 and k == 0
     return (degrees == k).reduce(monoid.land).get(True)
-- 
2.43.0


From 0f25b149c0ec5173dd56d2d73e0687006f55dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 28/81] fix: isomorphism screens counted self-loops of
 undirected graphs once instead of twice

---
 graphblas_algorithms/algorithms/isomorphism/isomorph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/isomorphism/isomorph.py b/graphblas_algorithms/algorithms/isomorphism/isomorph.py
index 12e5af4..f3f9edb 100644
--- a/graphblas_algorithms/algorithms/isomorphism/isomorph.py
+++ b/graphblas_algorithms/algorithms/isomorphism/isomorph.py
@@ -12,8 +12,8 @@ __all__ = [
 def fast_could_be_isomorphic(G1, G2):
     if len(G1) != len(G2):
         return False
-    d1 = G1.get_property("total_degrees+" if G1.is_directed() else "degrees+")
-    d2 = G2.get_property("total_degrees+" if G2.is_directed() else "degrees+")
+    d1 = G1.get_property("total_degrees+")
+    d2 = G2.get_property("total_degrees+")
     if d1.nvals != d2.nvals:
         return False
     t1 = triangles(G1)
@@ -43,8 +43,8 @@ def fast_could_be_isomorphic(G1, G2):
 def faster_could_be_isomorphic(G1, G2):
     if len(G1) != len(G2):
         return False
-    d1 = G1.get_property("total_degrees+" if G1.is_directed() else "degrees+")
-    d2 = G2.get_property("total_degrees+" if G2.is_directed() else "degrees+")
+    d1 = G1.get_property("total_degrees+")
+    d2 = G2.get_property("total_degrees+")
     if d1.nvals != d2.nvals:
         return False
     d1 = d1.to_coo(indices=False)[1]
-- 
2.43.0


From ce90e22a268b10c5ee8e2d0d2828dc4de880a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 29/81] fix: default regularizer of bethe_hessian_matrix
 counted self-loops once instead of twice

---
 graphblas_algorithms/linalg/bethehessianmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/linalg/bethehessianmatrix.py b/graphblas_algorithms/linalg/bethehessianmatrix.py
index edd000f..f8f6795 100644
--- a/graphblas_algorithms/linalg/bethehessianmatrix.py
+++ b/graphblas_algorithms/linalg/bethehessianmatrix.py
@@ -12,7 +12,7 @@ def bethe_hessian_matrix(G, r=None, nodelist=None, *, name="bethe_hessian_matrix
     else:
         d = G.get_property("plus_rowwise+")
     if r is None:
-        degrees = G.get_property("degrees+")
+        degrees = G.get_property("total_degrees+")
         k = degrees.reduce().get(0)
         k2 = (degrees @ degrees).get(0)
         r = k2 / k - 1
-- 
2.43.0


From 7d174fc0dc4cf0fa4ec5e9fdc34015b384991fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 30/81] fix: intra_ and inter_community_edges counted
 undirected edges twice

---
 graphblas_algorithms/algorithms/community/quality.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/community/quality.py b/graphblas_algorithms/algorithms/community/quality.py
index d2b1d95..b4a6592 100644
--- a/graphblas_algorithms/algorithms/community/quality.py
+++ b/graphblas_algorithms/algorithms/community/quality.py
@@ -4,7 +4,8 @@ __all__ = ["intra_community_edges", "inter_community_edges"]
 
 
 def intra_community_edges(G, partition):
-    A = G._A
+    # Count each edge of undirected graphs once
+    A = G._A if G.is_directed() else G.get_property("U+")
     count = 0
     for block in partition:
         # is A or A.T faster?
@@ -13,7 +14,8 @@ def intra_community_edges(G, partition):
 
 
 def inter_community_edges(G, partition):
-    A = G._A
+    # Count each edge of undirected graphs once
+    A = G._A if G.is_directed() else G.get_property("U+")
     count = 0
     for block in partition:
         # is A or A.T faster?
-- 
2.43.0


From 12dc297cb58512d1789f4b8f7083950098e31a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 31/81] fix: unweighted distances and ego_graph failed on a
 fractional cutoff

---
 graphblas_algorithms/algorithms/_bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/_bfs.py b/graphblas_algorithms/algorithms/_bfs.py
index 8189aae..16f081f 100644
--- a/graphblas_algorithms/algorithms/_bfs.py
+++ b/graphblas_algorithms/algorithms/_bfs.py
@@ -8,7 +8,7 @@ from graphblas.semiring import any_pair
 def _get_cutoff(n, cutoff):
     if cutoff is None or cutoff >= n:
         return n  # Everything
-    return cutoff + 1  # Inclusive
+    return int(cutoff) + 1  # Inclusive
 
 
 # Push-pull optimization is possible, but annoying to implement
-- 
2.43.0


From 097b51e56662f9d4cea88d1b9c646c30376c25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 32/81] fix: k_truss replaced edge weights by triangle counts

---
 graphblas_algorithms/algorithms/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/core.py b/graphblas_algorithms/algorithms/core.py
index a6ff26d..6af8ff4 100644
--- a/graphblas_algorithms/algorithms/core.py
+++ b/graphblas_algorithms/algorithms/core.py
@@ -1,4 +1,4 @@
-from graphblas import Matrix, monoid, replace, select, semiring
+from graphblas import Matrix, binary, monoid, replace, select, semiring
 
 from graphblas_algorithms import Graph
 
@@ -30,6 +30,8 @@ def k_truss(G: Graph, k) -> Graph:
 
     # Remove isolate nodes
     indices, _ = C.reduce_rowwise(monoid.any).to_coo(values=False)
+    # Keep the original edge values
+    C = binary.second(C & G._A).new()
     Ktruss = C[indices, indices].new()
 
     # Convert back to networkx graph with correct node ids
-- 
2.43.0


From 384937d9ec827b590293d8ce0fe9e8b750537405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 33/81] fix: compose lost or misplaced edges when the graphs
 have different nodes

---
 .../algorithms/operators/binary.py            | 28 ++++++++-----------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 4c14a11..84112f2 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -1,3 +1,4 @@
+import numpy as np
 from graphblas import Matrix, binary, dtypes, unary
 
 from ..exceptions import GraphBlasAlgorithmException
@@ -125,25 +126,18 @@ def compose(G, H, *, name="compose"):
         C = binary.second(A | B).new(name=name)
         key_to_id = G._key_to_id
     else:
-        keys = sorted(G._key_to_id.keys() & H._key_to_id.keys(), key=G._key_to_id.__getitem__)
-        B = H._A
-        C = Matrix(
-            dtypes.unify(A.dtype, B.dtype),
-            A.nrows + B.nrows - len(keys),
-            A.ncols + B.ncols - len(keys),
-            name=name,
-        )
-        C[: A.nrows, : A.ncols] = A
-        ids1 = G.list_to_ids(keys)
-        ids2 = H.list_to_ids(keys)
-        C[ids1, ids1] = B[ids2, ids2]
         newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
-        ids = H.list_to_ids(newkeys)
-        C[A.nrows :, A.ncols :] = B[ids, ids]
+        n = A.nrows + len(newkeys)
         # Now make new `key_to_id`
-        ids += A.nrows
-        key_to_id = dict(zip(newkeys, ids.tolist(), strict=True))
-        key_to_id.update(G._key_to_id)
+        key_to_id = dict(G._key_to_id)
+        key_to_id.update(zip(newkeys, range(A.nrows, n), strict=True))
+        # Edges of H take precedence over edges of G
+        ids = np.fromiter((key_to_id[key] for key in H.list_to_keys(range(B.nrows))), np.uint64)
+        B2 = Matrix(B.dtype, n, n)
+        B2[ids, ids] = B
+        C = Matrix(dtypes.unify(A.dtype, B.dtype), n, n, name=name)
+        C[: A.nrows, : A.ncols] = A
+        C << binary.second(C | B2)
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From 45434a8f6c053c7cfd72afcf55906dd46e60da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 34/81] fix: generalized_degree of a single node used node
 labels for triangle counts

---
 graphblas_algorithms/nxapi/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 031257e..b50f936 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -3,6 +3,7 @@ from graphblas import monoid
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
+from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
 from ._utils import normalize_chunksize, partition
@@ -129,7 +130,7 @@ def generalized_degree(G, nodes=None):
         return {}
     if nodes in G:
         result = algorithms.single_generalized_degree(G, nodes)
-        return G.vector_to_nodemap(result)
+        return VectorMap(result)
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
     return G.matrix_to_vectornodemap(result)
-- 
2.43.0


From 071c530c975bd5b88f576b8362f4577c84214be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 35/81] fix: membership tests, get and discard on node maps and
 sets raised KeyError for foreign keys

---
 graphblas_algorithms/classes/nodemap.py | 18 ++++++++++++------
 graphblas_algorithms/classes/nodeset.py |  7 ++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2a32502..060c056 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -70,7 +70,8 @@ class NodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return self._fill_value is not None or idx in self.vector
 
     def __eq__(self, other):
@@ -88,7 +89,8 @@ class NodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         rv = self.vector.get(idx)
         if rv is None:
             if self._fill_value is not None:
@@ -270,7 +272,8 @@ class VectorNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return idx in self._get_rows()
 
     def __eq__(self, other):
@@ -283,7 +286,8 @@ class VectorNodeMap(MutableMapping):
         self._rows = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         if self._get_rows().get(idx) is None:
             return default
         return VectorMap(self.matrix[idx, :].new())
@@ -395,7 +399,8 @@ class NodeNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return self._fill_value is not None or idx in self._get_rows()
 
     def __eq__(self, other):
@@ -414,7 +419,8 @@ class NodeNodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         if self._fill_value is None and self._get_rows().get(idx) is None:
             return default
         self.vector_to_nodemap(
diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index b79895e..cd13a57 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -34,7 +34,8 @@ class NodeSet(MutableSet):
 
     # Requirements for MutableSet
     def __contains__(self, x):
-        idx = self._key_to_id[x]
+        if (idx := self._key_to_id.get(x)) is None:
+            return False
         return idx in self.vector
 
     def __iter__(self):
@@ -51,8 +52,8 @@ class NodeSet(MutableSet):
         self.vector[idx] = True
 
     def discard(self, value):
-        idx = self._key_to_id[value]
-        del self.vector[idx]
+        if (idx := self._key_to_id.get(value)) is not None:
+            del self.vector[idx]
 
     # Override other MutableSet methods
     def __eq__(self, other):
-- 
2.43.0


From fbfeef4228f07d695dea938aa6e4eef9c84226c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 36/81] fix: fast path of NodeSet.isdisjoint was never used
 because its name was misspelled

---
 graphblas_algorithms/classes/nodeset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index cd13a57..52be8a8 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -76,9 +76,10 @@ class NodeSet(MutableSet):
     def clear(self):
         self.vector.clear()
 
-    def isdisjoin(self, other):
+    def isdisjoint(self, other):
         if isinstance(other, NodeSet):
-            return not any_pair[bool](self.vector @ other.vector)
+            if self._key_to_id == other._key_to_id:
+                return not any_pair[bool](self.vector @ other.vector)
         return super().isdisjoint(other)
 
     def pop(self):
-- 
2.43.0


From ad85b44b903f0a6c75e61ea8bf69dea2675a816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 37/81] fix: NodeNodeMap.get returned None for keys that are
 present

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 060c056..b00000a 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -423,7 +423,7 @@ class NodeNodeMap(MutableMapping):
             return default
         if self._fill_value is None and self._get_rows().get(idx) is None:
             return default
-        self.vector_to_nodemap(
+        return self.vector_to_nodemap(
             self.matrix[idx, :].new(),
             fill_value=self._fill_value,
             values_are_keys=self._values_are_keys,
-- 
2.43.0


From da391c9ce615dff956c82fd78e75536bf1038fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 38/81] fix: NodeNodeMap and VectorNodeMap could not be made
 without key_to_id

---
 graphblas_algorithms/classes/nodemap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index b00000a..fe9aa30 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -200,7 +200,7 @@ class VectorNodeMap(MutableMapping):
     def __init__(self, A, *, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -316,7 +316,7 @@ class NodeNodeMap(MutableMapping):
     def __init__(self, A, *, fill_value=None, values_are_keys=False, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
-- 
2.43.0


From b2eda2324efcd6af25b9f97efba942ea85117721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 39/81] fix: node maps did not raise KeyError for absent keys
 like other mappings

---
 graphblas_algorithms/classes/nodemap.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index fe9aa30..9d46deb 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -37,6 +37,8 @@ class NodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if self._fill_value is None and idx not in self.vector:
+            raise KeyError(key)
         del self.vector[idx]
 
     def __getitem__(self, key):
@@ -137,10 +139,14 @@ class VectorMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         del self.vector[key]
 
     def __getitem__(self, key):
-        return self.vector.get(key)
+        if (rv := self.get(key)) is None:
+            raise KeyError(key)
+        return rv
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
@@ -154,7 +160,10 @@ class VectorMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        return key in self.vector
+        try:
+            return key in self.vector
+        except (IndexError, TypeError):
+            return False
 
     def __eq__(self, other):
         if isinstance(other, VectorMap):
@@ -171,7 +180,9 @@ class VectorMap(MutableMapping):
         self.vector.clear()
 
     def get(self, key, default=None):
-        return self.vector.get(key, default)
+        if key not in self:
+            return default
+        return self.vector.get(key)
 
     # items
     # keys
@@ -233,6 +244,8 @@ class VectorNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if idx not in self._get_rows():
+            raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
             del self._rows[idx]
@@ -351,6 +364,8 @@ class NodeNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if self._fill_value is None and idx not in self._get_rows():
+            raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
             del self._rows[idx]
-- 
2.43.0


From fb3c68546ca3eee3577fcdf801991f5edf77386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 40/81] fix: setdefault of node maps stored node labels as ids
 and failed without a default

---
 graphblas_algorithms/classes/nodemap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 9d46deb..6243d85 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -126,7 +126,7 @@ class NodeMap(MutableMapping):
         if self._fill_value is not None:
             return self._fill_value
         if default is not None:
-            self.vector[idx] = default
+            self[key] = default
         return default
 
     # update
@@ -200,7 +200,8 @@ class VectorMap(MutableMapping):
     def setdefault(self, key, default=None):
         if (value := self.vector.get(key)) is not None:
             return value
-        self.vector[key] = default
+        if default is not None:
+            self.vector[key] = default
         return default
 
     # update
-- 
2.43.0


From ea2358bb44434705c2dad3f44445ebc9e6e53fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 41/81] fix: assigning a dict to a row of a NodeNodeMap used
 node labels as ids

---
 graphblas_algorithms/classes/nodemap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 6243d85..646366c 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -401,7 +401,14 @@ class NodeNodeMap(MutableMapping):
             # TODO: check val._key_to_id?
             val = val.vector
         elif isinstance(val, dict):
-            val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
+            key_to_id = self._key_to_id
+            if self._values_are_keys:
+                val = {k: key_to_id[v] for k, v in val.items()}
+            val = Vector.from_dict(
+                {key_to_id[k]: v for k, v in val.items()},
+                self.matrix.dtype,
+                size=self.matrix.ncols,
+            )
         else:
             raise TypeError
         if val.nvals == 0:
-- 
2.43.0


From 1d605ddeb62c75cb600e81a10fef735297e1e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 42/81] fix: has_self_edges of a directed graph was always
 False once total degrees were known

---
 graphblas_algorithms/classes/digraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 1e9fe5f..b9e15a8 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -364,8 +364,6 @@ def has_self_edges(G, mask=None):
             cache["has_self_edges"] = cache["column_degrees-"].reduce().get(0) < A.nvals
         elif "total_degrees-" in cache:
             cache["has_self_edges"] = cache["total_degrees-"].reduce().get(0) < 2 * A.nvals
-        elif "total_degrees+" in cache:
-            cache["has_self_edges"] = cache["total_degrees+"].reduce().get(0) > 2 * A.nvals
         else:
             G.get_property("diag")
     return cache["has_self_edges"]
-- 
2.43.0


From 93bdce5427dd0688ea957a156ff399b5bb109707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 43/81] fix: iso_value raised KeyError once the graph was known
 not to be iso-valued

---
 graphblas_algorithms/classes/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 7db2925..a48f07c 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -250,7 +250,7 @@ def get_iso_value(G, mask=None):
                 # SuiteSparse:GraphBLAS
                 cache["iso_value"] = A.ss.iso_value
             else:
-                cache["iso_value"]
+                cache["iso_value"] = None
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-- 
2.43.0


From 0333fbbcd6ef7d30b0a78cf723031b8ad2ebaba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 44/81] fix: has_negative_diagonal was True for negative edges
 between distinct nodes

---
 graphblas_algorithms/classes/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index a48f07c..7a57736 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -155,9 +155,10 @@ def has_negative_diagonal(G, mask=None):
             cache.get("has_negative_edges+") is True
             and cache.get("has_negative_edges-") is False
             or cache.get("has_negative_edges+") is True
-            and cache.get("min_element-", 0) >= 0
+            and cache.get("min_element-", -1) >= 0
             or cache.get("min_element+", 0) < 0
-            and cache.get("min_element+", 0) < cache.get("min_element-", 0)
+            and "min_element-" in cache
+            and cache["min_element+"] < cache["min_element-"].get(0)
         ):
             cache["has_negative_diagonal"] = True
         else:
-- 
2.43.0


From 64e2ba237e70e38553a1f3035ca9a2007134016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 45/81] fix: counting elements from cached row or column counts
 gave the number of nonempty rows

---
 graphblas_algorithms/classes/_caching.py | 36 ++++++++++++++++++------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 6828d8a..0ef950b 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -100,6 +100,8 @@ def get_reduce_to_scalar(key, opname):
     op_ = op.from_string(opname)
     op_, opclass = operator.find_opclass(op_)
     keybase = key[:-1]
+    # E.g., the count of row counts is not the count of elements
+    can_reduce_vector = opclass in {"BinaryOp", "Monoid"}
     if key[-1] == "-":
 
         def get_reduction(G, mask=None):
@@ -107,20 +109,28 @@ def get_reduce_to_scalar(key, opname):
             if key not in cache:
                 if cache.get("has_self_edges") is False and f"{keybase}+" in cache:
                     cache[key] = cache[f"{keybase}+"]
-                elif f"{opname}_rowwise-" in cache:
+                elif can_reduce_vector and f"{opname}_rowwise-" in cache:
                     cache[key] = cache[f"{opname}_rowwise-"].reduce(op_).new(name=key)
-                elif f"{opname}_columnwise-" in cache:
+                elif can_reduce_vector and f"{opname}_columnwise-" in cache:
                     cache[key] = cache[f"{opname}_columnwise-"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_rowwise+" in cache:
+                elif (
+                    can_reduce_vector
+                    and cache.get("has_self_edges") is False
+                    and f"{opname}_rowwise+" in cache
+                ):
                     cache[key] = cache[f"{opname}_rowwise+"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_columnwise+" in cache:
+                elif (
+                    can_reduce_vector
+                    and cache.get("has_self_edges") is False
+                    and f"{opname}_columnwise+" in cache
+                ):
                     cache[key] = cache[f"{opname}_columnwise+"].reduce(op_).new(name=key)
                 elif "offdiag" in cache:
                     cache[key] = cache["offdiag"].reduce_scalar(op_).new(name=key)
                 elif (
                     "L-" in cache
                     and "U-" in cache
-                    and opclass in {"BinaryOp", "Monoid"}
+                    and can_reduce_vector
                     and G.get_property("has_self_edges")
                 ):
                     cache[key] = op_(
@@ -149,13 +159,21 @@ def get_reduce_to_scalar(key, opname):
             if key not in cache:
                 if cache.get("has_self_edges") is False and f"{keybase}-" in cache:
                     cache[key] = cache[f"{keybase}-"]
-                elif f"{opname}_rowwise+" in cache:
+                elif can_reduce_vector and f"{opname}_rowwise+" in cache:
                     cache[key] = cache[f"{opname}_rowwise+"].reduce(op_).new(name=key)
-                elif f"{opname}_columnwise+" in cache:
+                elif can_reduce_vector and f"{opname}_columnwise+" in cache:
                     cache[key] = cache[f"{opname}_columnwise+"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_rowwise-" in cache:
+                elif (
+                    can_reduce_vector
+                    and cache.get("has_self_edges") is False
+                    and f"{opname}_rowwise-" in cache
+                ):
                     cache[key] = cache[f"{opname}_rowwise-"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_columnwise-" in cache:
+                elif (
+                    can_reduce_vector
+                    and cache.get("has_self_edges") is False
+                    and f"{opname}_columnwise-" in cache
+                ):
                     cache[key] = cache[f"{opname}_columnwise-"].reduce(op_).new(name=key)
                 else:
                     cache[key] = A.reduce_scalar(op_).new(name=key)
-- 
2.43.0


From 17a91241385e419e156e19e67bd01b3f283f3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 46/81] fix: square_clustering in chunks failed when there are
 no nodes to compute

---
 graphblas_algorithms/nxapi/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index b50f936..b1a8d52 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -90,6 +90,8 @@ def _square_clustering_split(G, node_ids=None, *, chunksize):
             result = res
         else:
             result << monoid.any(result | res)
+    if result is None:  # No nodes
+        result = algorithms.square_clustering(G, node_ids)
     return result
 
 
-- 
2.43.0


From 7ed2321c71c0017f0824b5862c4d12c830eb18ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 47/81] fix: cutoff of Bellman-Ford divided by zero when all
 edges weigh 0

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 6f92e28..cebe861 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -27,7 +27,10 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         is_negative, iso_value = G.get_properties("has_negative_edges+ iso_value")
         if not is_negative:
             if cutoff is not None:
-                cutoff = int(cutoff // iso_value.get())
+                if iso_value == 0:
+                    cutoff = None if cutoff >= 0 else -1
+                else:
+                    cutoff = int(cutoff // iso_value.get())
             d = _bfs_level(G, source, target, cutoff=cutoff, dtype=iso_value.dtype)
             if dst_id is not None:
                 d = d.get(dst_id)
-- 
2.43.0


From bd60792193dc269064f6fc25867e3f8f4cea6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 48/81] fix: square_clustering with self-loops differed between
 one node and all nodes

---
 graphblas_algorithms/algorithms/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 2617ecf..d20e6b3 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -196,7 +196,7 @@ def average_clustering_directed(G, *, count_zeros=True, weighted=False, mask=Non
 
 
 def single_square_clustering(G, idx):
-    A, degrees = G.get_properties("A degrees+")  # TODO" how to handle self-edges?
+    A, degrees = G.get_properties("offdiag degrees-")  # Ignore self-edges
     deg = degrees.get(idx, 0)
     if deg <= 1:
         return 0
@@ -238,7 +238,7 @@ def square_clustering(G, node_ids=None):
     #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
     #   square_clustering = squares / (uw_degrees - uw_count - tri - squares)
     #
-    A, degrees = G.get_properties("A degrees+")  # TODO" how to handle self-edges?
+    A, degrees = G.get_properties("offdiag degrees-")  # Ignore self-edges
     # P2 from https://arxiv.org/pdf/2007.11111.pdf; we'll also use it as scratch
     if node_ids is not None:
         v = Vector.from_coo(node_ids, True, size=degrees.size)
-- 
2.43.0


From 0729784e47d585fd690c082c9e2c2b017e0127b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 49/81] fix: square_clustering of a graph with edge weights
 mixed the weights into the degrees

---
 graphblas_algorithms/algorithms/cluster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index d20e6b3..cf8502b 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,6 +1,6 @@
 import numpy as np
 from graphblas import Matrix, Vector, binary, replace, unary
-from graphblas.semiring import plus_first, plus_pair, plus_times
+from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
     "single_triangle",
@@ -219,7 +219,7 @@ def single_square_clustering(G, idx):
     denom -= deg * (deg - 1)
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     # This is the only positive term.
-    denom += plus_times(v @ degrees).value * (deg - 1)
+    denom += plus_second(v @ degrees).value * (deg - 1)
     # (4) Subtract the number of squares
     denom -= squares
     # And we're done!
@@ -235,7 +235,7 @@ def square_clustering(G, node_ids=None):
     #   tri = first(P2 & A).reduce_rowwise()
     #   squares = (P2 * (P2 - 1)).reduce_rowwise() / 2
     #   uw_count = degrees * (degrees - 1)
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
     #   square_clustering = squares / (uw_degrees - uw_count - tri - squares)
     #
     A, degrees = G.get_properties("offdiag degrees-")  # Ignore self-edges
@@ -273,9 +273,9 @@ def square_clustering(G, node_ids=None):
     neg_denom(binary.plus) << degrees * denom
 
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
-    # denom(binary.times) << plus_times(A @ degrees)
-    denom(binary.times, denom.S) << plus_times(Asubset @ degrees)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
+    # denom(binary.times) << plus_second(A @ degrees)
+    denom(binary.times, denom.S) << plus_second(Asubset @ degrees)
 
     # (4) Subtract the number of squares
     denom(binary.minus) << binary.plus(neg_denom & squares)
-- 
2.43.0


From fdcaf74edb45cf29cb5137290724288dae134e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 50/81] fix: floyd_warshall left out unreachable nodes instead
 of giving inf

---
 graphblas_algorithms/nxapi/shortest_paths/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/shortest_paths/dense.py b/graphblas_algorithms/nxapi/shortest_paths/dense.py
index 82c2eed..81dc304 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/dense.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/dense.py
@@ -9,7 +9,7 @@ __all__ = ["floyd_warshall", "floyd_warshall_numpy", "floyd_warshall_predecessor
 def floyd_warshall(G, weight="weight"):
     G = to_graph(G, weight=weight)
     D = algorithms.floyd_warshall(G, is_weighted=weight is not None)
-    return G.matrix_to_nodenodemap(D)
+    return G.matrix_to_nodenodemap(D, fill_value=float("inf"))
 
 
 def floyd_warshall_predecessor_and_distance(G, weight="weight"):
-- 
2.43.0


From f827ec60ca0eeb077e808547b8da1c7849f10f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 51/81] fix: matrix_to_dicts of a transposed matrix swapped
 use_row_index and use_column_index

---
 graphblas_algorithms/classes/_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index ecf66d9..61f18e7 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -188,7 +188,6 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         d = A.T.ss.export("hypercsc")
         rows = d["cols"].tolist()
         col_indices = d["row_indices"].tolist()
-        use_row_index, use_column_index = use_column_index, use_row_index
     else:
         d = A.ss.export("hypercsr")
         rows = d["rows"].tolist()
-- 
2.43.0


From 2a5d689fcc8ff672f1d55ddfbbd6252cdde57748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 52/81] fix: matrix_to_dicts failed for iso-valued matrices

---
 graphblas_algorithms/classes/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 61f18e7..6156888 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -194,6 +194,8 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         col_indices = d["col_indices"].tolist()
     indptr = d["indptr"]
     values = d["values"].tolist()
+    if d.get("is_iso"):
+        values = values * len(col_indices)
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-- 
2.43.0


From c6c3e23e532e2616bd6888995bca312f0273630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 53/81] fix: dict_to_vector failed for an empty dict

---
 graphblas_algorithms/classes/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 6156888..cd35b72 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -60,6 +60,8 @@ def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
         return None
     if size is None:
         size = len(self)
+    if not d:
+        return Vector(dtype if dtype is not None else float, size, name=name)
     key_to_id = self._key_to_id
     indices, values = zip(*((key_to_id[key], val) for key, val in d.items()), strict=True)
     return Vector.from_coo(indices, values, size=size, dtype=dtype, name=name)
-- 
2.43.0


From ebc8338cfe745aa8db091be258b7fa5509aec759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 54/81] fix: floyd_warshall_numpy with nodelist returned wrong
 distances for undirected graphs

---
 graphblas_algorithms/algorithms/shortest_paths/dense.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index eca3cef..0f5c73b 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -25,6 +25,9 @@ def floyd_warshall_predecessor_and_distance(
         # Distances are symmetric, but predecessors are not, so use both triangles
         is_directed = True
         A, nonempty_nodes = G.get_properties("offdiag degrees-")
+    elif permutation is not None:
+        # The upper triangle must be taken after permuting
+        A, nonempty_nodes = G.get_properties("offdiag degrees-")
     else:
         A, nonempty_nodes = G.get_properties("U- degrees-")
     if permutation is not None:
@@ -33,6 +36,8 @@ def floyd_warshall_predecessor_and_distance(
                 "permutation must contain every node in G with no repeats."
             )
         A = A[permutation, permutation].new()
+        if not is_directed:
+            A = select.triu(A, 1).new()
         nonempty_nodes = nonempty_nodes[permutation].new(name="nonempty_nodes")
 
     if A.dtype == bool or not is_weighted:
-- 
2.43.0


From 8c2ed125e7e659da8fb8ae65eb0d2bd293219788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 55/81] fix: ego_graph with a fractional radius and integer
 distances ignored the radius

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index cebe861..82a06f9 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -1,3 +1,5 @@
+import math
+
 import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
@@ -21,6 +23,8 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         dst_id = G._key_to_id[target]
     else:
         dst_id = None
+    if cutoff is not None and math.isinf(cutoff) and cutoff > 0:
+        cutoff = None
 
     if G.get_property("is_iso"):
         # If the edges are iso-valued (and positive), then we can simply do level BFS
@@ -62,6 +66,9 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         dtype = int
     else:
         dtype = A.dtype
+    if cutoff is not None and not np.issubdtype(dtype if dtype is int else dtype.np_type, np.floating):
+        # `select.valuele` needs an integer to compare with integers
+        cutoff = math.floor(cutoff)
     n = A.nrows
     d = Vector(dtype, n, name="single_source_bellman_ford_path_length")
     d[src_id] = 0
-- 
2.43.0


From 70cc42cae13764d93d1f1ff0eb37024e5a7d3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 56/81] fix: DiGraph.to_undirected kept different weights for
 the two directions of an edge

---
 graphblas_algorithms/classes/digraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index b9e15a8..3293304 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -607,6 +607,10 @@ class DiGraph(Graph):
             B = binary.any(A & A.T).new(name=name)
         else:
             B = binary.any(A | A.T).new(name=name)
+        if not B.isequal(B.T):
+            # Arcs in both directions may have different weights; use the same one for both
+            L = select.tril(B, -1).new()
+            B(L.T.new().S) << L.T
         return Graph(B, key_to_id=self._key_to_id)
 
     def reverse(self, copy=True):
-- 
2.43.0


From 8fa282168016afef316c09382e2f0c372319548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 57/81] fix: DiGraph.reverse(copy=False) raised TypeError

---
 graphblas_algorithms/classes/digraph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 3293304..db0fe86 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -615,9 +615,8 @@ class DiGraph(Graph):
 
     def reverse(self, copy=True):
         # We could even reuse many of the cached values
-        A = self._A.T  # This probably mostly works, but does not yet support assignment
-        if copy:
-            A = A.new()
+        # TODO: `copy=False` could be a view, but a graph can't be made from `A.T` yet
+        A = self._A.T.new()
         rv = type(self)(A, key_to_id=self._key_to_id)
         rv.graph.update(deepcopy(self.graph))
         return rv
-- 
2.43.0


From eaa443e1cbc2f7281f33a9a4cb65ea80de33027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 58/81] fix: result maps and sets with the same contents could
 compare unequal

---
 graphblas_algorithms/classes/nodemap.py | 19 ++++++++++---------
 graphblas_algorithms/classes/nodeset.py | 12 ++++++------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 646366c..7a17965 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -78,12 +78,14 @@ class NodeMap(MutableMapping):
 
     def __eq__(self, other):
         if isinstance(other, NodeMap):
-            return (
+            if (
                 self._values_are_keys == other._values_are_keys
                 and self._fill_value == other._fill_value
                 and self.vector.isequal(other.vector)
                 and self._key_to_id == other._key_to_id
-            )
+            ):
+                return True
+            # May still be equal, such as with different fill values or different order of nodes
         return super().__eq__(other)
 
     def clear(self):
@@ -170,10 +172,6 @@ class VectorMap(MutableMapping):
             return self.vector.isequal(other.vector)
         if isinstance(other, Vector):
             return self.vector.isequal(other)
-        if isinstance(other, NodeMap):
-            return self.vector.isequal(other.vector) and other._key_to_id == {
-                i: i for i in range(self.vector.size)
-            }
         return super().__eq__(other)
 
     def clear(self):
@@ -292,7 +290,8 @@ class VectorNodeMap(MutableMapping):
 
     def __eq__(self, other):
         if isinstance(other, VectorNodeMap):
-            return self.matrix.isequal(other.matrix) and self._key_to_id == other._key_to_id
+            if self.matrix.isequal(other.matrix) and self._key_to_id == other._key_to_id:
+                return True
         return super().__eq__(other)
 
     def clear(self):
@@ -428,12 +427,14 @@ class NodeNodeMap(MutableMapping):
 
     def __eq__(self, other):
         if isinstance(other, NodeNodeMap):
-            return (
+            if (
                 self._fill_value == other._fill_value
                 and self._values_are_keys == other._values_are_keys
                 and self.matrix.isequal(other.matrix)
                 and self._key_to_id == other._key_to_id
-            )
+            ):
+                return True
+            # May still be equal, such as with different fill values or different order of nodes
         return super().__eq__(other)
 
     def clear(self):
diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index 52be8a8..748ac0d 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -60,12 +60,12 @@ class NodeSet(MutableSet):
         if isinstance(other, NodeSet):
             a = self.vector
             b = other.vector
-            return (
-                a.size == b.size
-                and (nvals := a.nvals) == b.nvals
-                and plus_pair(a @ b).get(0) == nvals
-                and self._key_to_id == other._key_to_id
-            )
+            if self._key_to_id == other._key_to_id:
+                return (
+                    a.size == b.size
+                    and (nvals := a.nvals) == b.nvals
+                    and plus_pair(a @ b).get(0) == nvals
+                )
         return super().__eq__(other)
 
     # __and__
-- 
2.43.0


From bff9081929243be3dde5f4e2f264f87543d835bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 59/81] fix: matrix_to_dicts failed for a matrix without
 entries

---
 graphblas_algorithms/classes/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index cd35b72..251f6df 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -201,7 +201,8 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-    it = zip(rows, np.lib.stride_tricks.sliding_window_view(indptr, 2).tolist(), strict=True)
+    indptr = indptr.tolist()
+    it = zip(rows, zip(indptr[:-1], indptr[1:], strict=True), strict=True)
     if use_row_index and use_column_index:
         return {
             row: dict(zip(col_indices[start:stop], values[start:stop], strict=True))
-- 
2.43.0


From 7022d344f916ea81da0d99eec457b1eeb89ef18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 60/81] fix: square_clustering gave a wrong answer or an
 internal error for a directed graph

---
 graphblas_algorithms/nxapi/cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index b1a8d52..85d62f4 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -95,6 +95,7 @@ def _square_clustering_split(G, node_ids=None, *, chunksize):
     return result
 
 
+@not_implemented_for("directed")
 def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
     # `chunksize` is used to split the computation into chunks.
     # square_clustering computes `A @ A`, which can get very large, even dense.
-- 
2.43.0


From 90c620e599b865b3f726d7bd1b47631ce3ade763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 61/81] fix: fast_could_be_isomorphic rejected isomorphic
 directed graphs

---
 graphblas_algorithms/nxapi/isomorphism/isomorph.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/nxapi/isomorphism/isomorph.py b/graphblas_algorithms/nxapi/isomorphism/isomorph.py
index 1dedb64..a5db32d 100644
--- a/graphblas_algorithms/nxapi/isomorphism/isomorph.py
+++ b/graphblas_algorithms/nxapi/isomorphism/isomorph.py
@@ -1,5 +1,7 @@
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
+from graphblas_algorithms.classes.graph import to_undirected_graph
+from graphblas_algorithms.utils import not_implemented_for
 
 __all__ = [
     "fast_could_be_isomorphic",
@@ -7,9 +9,15 @@ __all__ = [
 ]
 
 
+@not_implemented_for("directed")
+def _undirected(G):
+    return to_undirected_graph(G)
+
+
 def fast_could_be_isomorphic(G1, G2):
-    G1 = to_graph(G1)
-    G2 = to_graph(G2)
+    # Triangle counts are only defined for undirected graphs
+    G1 = _undirected(G1)
+    G2 = _undirected(G2)
     return algorithms.fast_could_be_isomorphic(G1, G2)
 
 
-- 
2.43.0


From c0a70aec6f20ba63c19c82c8e4ae0e6b86db88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 62/81] fix: combining a directed with an undirected graph gave
 an invalid graph

---
 graphblas_algorithms/algorithms/operators/binary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 84112f2..a97385b 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -19,6 +19,8 @@ def union(G, H, rename=(), *, name="union"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if rename:
         prefix = rename[0]
         if prefix is not None:
@@ -49,6 +51,8 @@ def disjoint_union(G, H, *, name="disjoint_union"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     A = G._A
     B = H._A
     C = Matrix(dtypes.unify(A.dtype, B.dtype), A.nrows + B.nrows, A.ncols + B.ncols, name=name)
@@ -62,6 +66,8 @@ def intersection(G, H, *, name="intersection"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     keys = sorted(G._key_to_id.keys() & H._key_to_id.keys(), key=G._key_to_id.__getitem__)
     ids = G.list_to_ids(keys)
     A = G._A[ids, ids].new()
@@ -115,6 +121,8 @@ def compose(G, H, *, name="compose"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     A = G._A
     B = H._A
     if G._key_to_id.keys() == H._key_to_id.keys():
-- 
2.43.0


From 32d3028a6599dcd5d94a67affae3a2f7f873aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 63/81] fix: descendants_at_distance returned the source for a
 negative distance

---
 .../algorithms/traversal/breadth_first_search.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/traversal/breadth_first_search.py b/graphblas_algorithms/algorithms/traversal/breadth_first_search.py
index a761134..11ca8d0 100644
--- a/graphblas_algorithms/algorithms/traversal/breadth_first_search.py
+++ b/graphblas_algorithms/algorithms/traversal/breadth_first_search.py
@@ -32,6 +32,8 @@ def descendants_at_distance(G, source, distance):
     A = G.get_property("offdiag")
     n = A.nrows
     q = Vector(bool, size=n, name=f"descendants_at_distance_{distance}")
+    if distance < 0:
+        return q
     q[index] = True
     if distance == 0:
         return q
-- 
2.43.0


From ca5d1152b91c6d16ee6955ac8aa5903cabaf0f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 64/81] fix: bellman_ford_path_length returned all lengths when
 target is None

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 82a06f9..38785c0 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -124,6 +124,8 @@ def single_source_bellman_ford_path_length(
 
 
 def bellman_ford_path_length(G, source, target):
+    if target is None:
+        raise KeyError(target)
     return _bellman_ford_path_length(G, source, target, name="bellman_ford_path_length")
 
 
-- 
2.43.0


From cc742d6a6d2e3efd26c9ba6a4a8610918320d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 65/81] fix: nxapi functions lost the multigraph class of a
 networkx graph

---
 graphblas_algorithms/classes/digraph.py | 6 ++++++
 graphblas_algorithms/classes/graph.py   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index db0fe86..704cd6c 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -381,6 +381,8 @@ def to_directed_graph(G, weight=None, dtype=None):
     try:
         import networkx as nx
 
+        if isinstance(G, nx.MultiDiGraph):
+            return MultiDiGraph.from_networkx(G, weight=weight, dtype=dtype)
         if isinstance(G, nx.DiGraph):
             return DiGraph.from_networkx(G, weight=weight, dtype=dtype)
     except ImportError:
@@ -400,8 +402,12 @@ def to_graph(G, weight=None, dtype=None):
     try:
         import networkx as nx
 
+        if isinstance(G, nx.MultiDiGraph):
+            return MultiDiGraph.from_networkx(G, weight=weight, dtype=dtype)
         if isinstance(G, nx.DiGraph):
             return DiGraph.from_networkx(G, weight=weight, dtype=dtype)
+        if isinstance(G, nx.MultiGraph):
+            return ga.MultiGraph.from_networkx(G, weight=weight, dtype=dtype)
         if isinstance(G, nx.Graph):
             return ga.Graph.from_networkx(G, weight=weight, dtype=dtype)
     except ImportError:
diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 7a57736..456bcac 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -276,6 +276,8 @@ def to_undirected_graph(G, weight=None, dtype=None):
     try:
         import networkx as nx
 
+        if isinstance(G, nx.MultiGraph):
+            return MultiGraph.from_networkx(G, weight=weight, dtype=dtype)
         if isinstance(G, nx.Graph):
             return Graph.from_networkx(G, weight=weight, dtype=dtype)
     except ImportError:
-- 
2.43.0


From 5d3f2d57e4e92f446f3ebbeaa262f74d4685578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 66/81] fix: unweighted laplacian_matrix failed with an
 internal KeyError for a directed graph

---
 graphblas_algorithms/linalg/laplacianmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 18ed65a..c6c528a 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -19,7 +19,7 @@ def _laplacian_helper(G, nodelist=None, is_weighted=False):
     elif is_weighted:
         d = G.get_property("plus_rowwise+")
     else:
-        d = G.get_property("degrees+")
+        d = G.get_property("row_degrees+" if G.is_directed() else "degrees+")
         A = unary.one(A).new()
     return d, A
 
-- 
2.43.0


From 644d277d7482b4499562cb3d5088404dc5b91232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 67/81] fix: hits called through networkx ignored the edge
 weights

---
 graphblas_algorithms/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/interface.py b/graphblas_algorithms/interface.py
index c718371..7856f8b 100644
--- a/graphblas_algorithms/interface.py
+++ b/graphblas_algorithms/interface.py
@@ -206,6 +206,9 @@ class Dispatcher:
                 edge_attrs = {attr: None}
             elif attrs:
                 raise NotImplementedError("`preserve_edge_attrs=True` is not fully implemented")
+        if name == "hits" and not edge_attrs:
+            # `nx.hits` uses edge weights, but networkx <= 3.2 does not ask for them
+            edge_attrs = {"weight": 1}
         if node_attrs:
             raise NotImplementedError("non-None `node_attrs` is not yet implemented")
         if preserve_node_attrs:
-- 
2.43.0


From 25216134e650b01fb63971543f75ed21cbbb3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 68/81] fix: edge_boundary gives the value of the attribute
 named by data

---
 graphblas_algorithms/nxapi/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index 662cfe4..a49d120 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -28,7 +28,7 @@ def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None
             (id_to_key[row] for row in rows),
             (id_to_key[col] for col in cols),
             # Unsure about this; data argument may mean *all* edge attributes
-            ({weight: val} for val in vals),
+            ({weight: val} for val in vals) if data is True else vals,
             strict=True,
         )
     else:
-- 
2.43.0


From 4cc8476816504e74f7df9fd50838bfaa734ecd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 69/81] fix: edge_boundary refuses data and keys for
 multigraphs instead of repeating edges by weight

---
 graphblas_algorithms/nxapi/boundary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index a49d120..5a545c9 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -7,9 +7,12 @@ __all__ = ["edge_boundary", "node_boundary"]
 
 
 def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None):
-    # TODO: figure out data, keys, and default arguments and handle multigraph
+    # TODO: figure out data, keys, and default arguments
     # data=True will be tested in test_mst.py
     is_multigraph = G.is_multigraph()
+    if is_multigraph and (data or keys):
+        # Parallel edges are merged, so their individual data and keys are unknown
+        raise NotImplementedError("data and keys are not implemented for multigraphs")
     # This may be wrong for multi-attributed graphs
     if data is True:
         weight = "weight"
-- 
2.43.0


From 353def81a8beab003b3b82c74007d85d7eac59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 70/81] fix: Laplacian matrices of directed graphs are refused,
 as in networkx

---
 graphblas_algorithms/nxapi/linalg/laplacianmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
index 752ca1e..478bd95 100644
--- a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
@@ -1,14 +1,17 @@
 from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.digraph import to_graph
+from graphblas_algorithms.utils import not_implemented_for
 
 __all__ = ["laplacian_matrix", "normalized_laplacian_matrix"]
 
 
+@not_implemented_for("directed")
 def laplacian_matrix(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
     return linalg.laplacian_matrix(G, nodelist, is_weighted=weight is not None)
 
 
+@not_implemented_for("directed")
 def normalized_laplacian_matrix(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
     return linalg.normalized_laplacian_matrix(G, nodelist, is_weighted=weight is not None)
-- 
2.43.0


From ce727c0ce79caaafb18a02a4f6a0d60dcf791f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 71/81] fix: array-level conductance and normalized_cut_size
 work without T

---
 graphblas_algorithms/algorithms/cuts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index ffcd9f1..a13156a 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -46,6 +46,8 @@ def volume(G, S, *, weighted=False):
 
 
 def normalized_cut_size(G, S, T=None, *, is_weighted=False):
+    if T is None:
+        T = (~S.S).new(name="T")
     num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     volume_S = volume(G, S, weighted=is_weighted)
     volume_T = volume(G, T, weighted=is_weighted)
@@ -53,6 +55,8 @@ def normalized_cut_size(G, S, T=None, *, is_weighted=False):
 
 
 def conductance(G, S, T=None, *, is_weighted=False):
+    if T is None:
+        T = (~S.S).new(name="T")
     num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     volume_S = volume(G, S, weighted=is_weighted)
     volume_T = volume(G, T, weighted=is_weighted)
-- 
2.43.0


From d1f48827a904492e0b3ce7653311d843d63c3ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 72/81] fix: count edges instead of taking lor in plus
 reductions of boolean graphs

---
 graphblas_algorithms/classes/_caching.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 0ef950b..33d9e09 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -4,13 +4,20 @@ from graphblas.core import operator
 NONNEGATIVE_DTYPES = {dtypes.BOOL, dtypes.UINT8, dtypes.UINT16, dtypes.UINT32, dtypes.UINT64}
 
 
+def _get_op(op_, opname, G):
+    # There is no "plus" for booleans (it would be "lor"), so count them like Python does
+    if opname == "plus" and G._A.dtype == dtypes.BOOL:
+        return op_[int]
+    return op_
+
+
 def get_reduce_to_vector(key, opname, methodname):
-    op_ = op.from_string(opname)
-    op_, opclass = operator.find_opclass(op_)
+    base_op, opclass = operator.find_opclass(op.from_string(opname))
     keybase = key[:-1]
     if key[-1] == "-":
 
         def get_reduction(G, mask=None):
+            op_ = _get_op(base_op, opname, G)
             cache = G._cache
             if mask is not None:
                 if key in cache:
@@ -65,6 +72,7 @@ def get_reduce_to_vector(key, opname, methodname):
     else:
 
         def get_reduction(G, mask=None):
+            op_ = _get_op(base_op, opname, G)
             A = G._A
             cache = G._cache
             if mask is not None:
@@ -97,14 +105,14 @@ def get_reduce_to_vector(key, opname, methodname):
 
 
 def get_reduce_to_scalar(key, opname):
-    op_ = op.from_string(opname)
-    op_, opclass = operator.find_opclass(op_)
+    base_op, opclass = operator.find_opclass(op.from_string(opname))
     keybase = key[:-1]
     # E.g., the count of row counts is not the count of elements
     can_reduce_vector = opclass in {"BinaryOp", "Monoid"}
     if key[-1] == "-":
 
         def get_reduction(G, mask=None):
+            op_ = _get_op(base_op, opname, G)
             cache = G._cache
             if key not in cache:
                 if cache.get("has_self_edges") is False and f"{keybase}+" in cache:
@@ -154,6 +162,7 @@ def get_reduce_to_scalar(key, opname):
     elif key[-1] == "+":
 
         def get_reduction(G, mask=None):
+            op_ = _get_op(base_op, opname, G)
             A = G._A
             cache = G._cache
             if key not in cache:
@@ -194,9 +203,9 @@ def get_reduce_to_scalar(key, opname):
             cache = G._cache
             if key not in cache:
                 if not G.get_property("has_self_edges"):
-                    cache[key] = Scalar(op_[A.dtype].return_type, name=key)
+                    cache[key] = Scalar(base_op[A.dtype].return_type, name=key)
                 else:
-                    cache[key] = G.get_property("diag").reduce(op_).new(name=key)
+                    cache[key] = G.get_property("diag").reduce(base_op).new(name=key)
             return cache[key]
 
     else:  # pragma: no cover (sanity)
-- 
2.43.0


From 0a266c8076c9de21e056b93ffd7936826d648c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 73/81] fix: tournament_matrix of boolean graphs used xor
 instead of minus

---
 graphblas_algorithms/algorithms/tournament.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/algorithms/tournament.py b/graphblas_algorithms/algorithms/tournament.py
index 32624ff..a51445a 100644
--- a/graphblas_algorithms/algorithms/tournament.py
+++ b/graphblas_algorithms/algorithms/tournament.py
@@ -24,4 +24,7 @@ def score_sequence(G):
 
 def tournament_matrix(G):
     A = G._A
+    if A.dtype == bool:
+        # For booleans, "minus" would be "lxor"
+        A = A.dup(int)
     return (A - A.T).new(name="tournament_matrix")
-- 
2.43.0


From ce50c55597a20c574f820bab1ce7247479031a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 74/81] fix: weighted cut_size and volume failed for boolean
 weights

---
 graphblas_algorithms/algorithms/cuts.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index a13156a..373c4c2 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -18,15 +18,16 @@ __all__ = [
 def cut_size(G, S, T=None, *, is_weighted=False):
     if T is None:
         T = (~S.S).new(name="T")
+    plus = monoid.plus[int] if G._A.dtype == bool else monoid.plus
     edges = edge_boundary(G, S, T, is_weighted=is_weighted)
     if is_weighted:
-        rv = edges.reduce_scalar(monoid.plus).get(0)
+        rv = edges.reduce_scalar(plus).get(0)
     else:
         rv = edges.nvals
     if G.is_directed():
         edges = edge_boundary(G, T, S, is_weighted=is_weighted)
         if is_weighted:
-            rv += edges.reduce_scalar(monoid.plus).get(0)
+            rv += edges.reduce_scalar(plus).get(0)
         else:
             rv += edges.nvals
     return rv
@@ -34,7 +35,8 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 
 def volume(G, S, *, weighted=False):
     if weighted:
-        degrees = plus_second(S @ G._A)
+        op = plus_second[int] if G._A.dtype == bool else plus_second
+        degrees = op(S @ G._A)
         if not G.is_directed() and G.get_property("has_self_edges"):
             # Self-edges of undirected graphs count twice
             degrees = binary.plus(degrees.new() | G.get_property("diag", mask=S.S))
-- 
2.43.0


From 264298d297179a84dc2424b6c40d714a09cfcd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:14 +0000
Subject: [PATCH 75/81] fix: laplacian, modularity and bethe_hessian
 submatrices of boolean graphs were computed with booleans

---
 graphblas_algorithms/linalg/bethehessianmatrix.py | 2 +-
 graphblas_algorithms/linalg/laplacianmatrix.py    | 4 +++-
 graphblas_algorithms/linalg/modularitymatrix.py   | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/linalg/bethehessianmatrix.py b/graphblas_algorithms/linalg/bethehessianmatrix.py
index f8f6795..aaba463 100644
--- a/graphblas_algorithms/linalg/bethehessianmatrix.py
+++ b/graphblas_algorithms/linalg/bethehessianmatrix.py
@@ -7,7 +7,7 @@ def bethe_hessian_matrix(G, r=None, nodelist=None, *, name="bethe_hessian_matrix
     A = G._A
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
-        A = A[ids, ids].new()
+        A = A[ids, ids].new(int if A.dtype == bool else A.dtype)
         d = A.reduce_rowwise().new(name="d")
     else:
         d = G.get_property("plus_rowwise+")
diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index c6c528a..5f475ea 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -10,9 +10,11 @@ def _laplacian_helper(G, nodelist=None, is_weighted=False):
     if G.is_multigraph():
         is_weighted = True  # XXX
     A = G._A
+    # Arithmetic needs numbers
+    dtype = int if A.dtype == bool else A.dtype
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
-        A = A[ids, ids].new()
+        A = A[ids, ids].new(dtype)
         if not is_weighted:
             A << unary.one(A)
         d = A.reduce_rowwise(monoid.plus).new()
diff --git a/graphblas_algorithms/linalg/modularitymatrix.py b/graphblas_algorithms/linalg/modularitymatrix.py
index 1efff65..f3b1c2c 100644
--- a/graphblas_algorithms/linalg/modularitymatrix.py
+++ b/graphblas_algorithms/linalg/modularitymatrix.py
@@ -20,7 +20,7 @@ def directed_modularity_matrix(
     A = G._A
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
-        A = A[ids, ids].new()
+        A = A[ids, ids].new(int if A.dtype == bool else A.dtype)
         if not is_weighted:
             A << unary.one(A)
         k_out = A.reduce_rowwise(monoid.plus).new()
-- 
2.43.0


From 141c56569a9273f539077d363c757fb94bb0096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:14 +0000
Subject: [PATCH 76/81] fix: normalized_laplacian_matrix gave infinities and
 NaN for rows whose weights sum to 0

---
 graphblas_algorithms/linalg/laplacianmatrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 5f475ea..1093bfd 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -1,4 +1,4 @@
-from graphblas import monoid, unary
+from graphblas import monoid, select, unary
 
 __all__ = [
     "laplacian_matrix",
@@ -39,8 +39,8 @@ def normalized_laplacian_matrix(
     d_invsqrt = unary.sqrt(d).new(name="d_invsqrt")
     d_invsqrt << unary.minv(d_invsqrt)
 
-    # XXX: what if `d` is 0 and `d_invsqrt` is infinity? (not tested)
-    # d_invsqrt(unary.isinf(d_invsqrt)) << 0
+    # Rows whose weights sum to 0 are not scaled, but left empty
+    d_invsqrt << select.valuene(d_invsqrt, float("inf"))
 
     # Calculate: A_weighted = D_invsqrt @ A @ D_invsqrt
     A_weighted = d_invsqrt.outer(d_invsqrt).new(mask=A.S, name=name)
-- 
2.43.0


From 79ed6a108ca21c35af9eef4518b38fe1fd219ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:48 +0000
Subject: [PATCH 77/81] fix: cutoffs that do not fit the integer type of the
 weights wrapped around

---
 .../algorithms/shortest_paths/weighted.py          | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 38785c0..1c9b402 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -66,9 +66,17 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         dtype = int
     else:
         dtype = A.dtype
-    if cutoff is not None and not np.issubdtype(dtype if dtype is int else dtype.np_type, np.floating):
-        # `select.valuele` needs an integer to compare with integers
-        cutoff = math.floor(cutoff)
+    np_type = dtype if dtype is int else dtype.np_type
+    if cutoff is not None and not np.issubdtype(np_type, np.floating):
+        # `select.valuele` needs an integer of the same type to compare with integers
+        info = np.iinfo(np_type)
+        if cutoff < info.min:  # No path is this short
+            A = A.dup(clear=True)
+            cutoff = None
+        elif cutoff >= info.max:
+            cutoff = None
+        else:
+            cutoff = math.floor(cutoff)
     n = A.nrows
     d = Vector(dtype, n, name="single_source_bellman_ford_path_length")
     d[src_id] = 0
-- 
2.43.0


From 93432b658fc2ad7f2c982095e3cd485980c2ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 78/81] fix: weighted clustering normalizes by the maximum
 weight of the graph, self-loops included

---
 graphblas_algorithms/algorithms/cluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index cf8502b..482bf99 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -29,7 +29,7 @@ def single_triangle(G, node, *, weighted=False):
     if G.get_property("has_self_edges"):
         del r[index]  # Ignore self-edges
     if weighted:
-        maxval = G.get_property("max_element-").get(1)
+        maxval = G.get_property("max_element+").get(1)
         L = unary.cbrt(L / maxval)
         r = unary.cbrt(r / maxval)
         semiring = plus_times
@@ -46,7 +46,7 @@ def triangles(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     L, U = G.get_properties("L- U-")
     if weighted:
-        maxval = G.get_property("max_element-").get(1)
+        maxval = G.get_property("max_element+").get(1)
         L = unary.cbrt(L / maxval)
         U = unary.cbrt(U / maxval)
         semiring = plus_times
@@ -104,7 +104,7 @@ def clustering_directed(G, *, weighted=False, mask=None):
     if G.get_property("has_self_edges"):
         AT = A.T.new(name="AT_offdiag")  # Ignore self-edges
     if weighted:
-        maxval = G.get_property("max_element-").get(1)
+        maxval = G.get_property("max_element+").get(1)
         A = unary.cbrt(A / maxval)
         AT = unary.cbrt(AT / maxval)
         semiring = plus_times
@@ -153,7 +153,7 @@ def single_clustering_directed(G, node, *, weighted=False):
     A = G.get_property("offdiag")
     index = G._key_to_id[node]
     if weighted:
-        maxval = G.get_property("max_element-").get(1)
+        maxval = G.get_property("max_element+").get(1)
         A = unary.cbrt(A / maxval)
         semiring = plus_times
     else:
-- 
2.43.0


From 5ccba5a8bec5bfca005ef2eb94d626b828745e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:34 +0000
Subject: [PATCH 79/81] fix: average_clustering with count_zeros=False counted
 triangles whose weight is 0

---
 graphblas_algorithms/algorithms/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 482bf99..604e9e6 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,5 +1,5 @@
 import numpy as np
-from graphblas import Matrix, Vector, binary, replace, unary
+from graphblas import Matrix, Vector, binary, replace, select, unary
 from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
@@ -179,7 +179,7 @@ def average_clustering(G, *, count_zeros=True, weighted=False, mask=None):
     c = clustering(G, weighted=weighted, mask=mask)
     val = c.reduce().get(0)
     if not count_zeros:
-        return val / c.nvals
+        return val / select.valuene(c, 0).new().nvals
     if mask is not None:
         return val / mask.parent.nvals
     return val / c.size
@@ -189,7 +189,7 @@ def average_clustering_directed(G, *, count_zeros=True, weighted=False, mask=Non
     c = clustering_directed(G, weighted=weighted, mask=mask)
     val = c.reduce().get(0)
     if not count_zeros:
-        return val / c.nvals
+        return val / select.valuene(c, 0).new().nvals
     if mask is not None:
         return val / mask.parent.nvals
     return val / c.size
-- 
2.43.0


From 71a151c6cf785e3746feb34cccadb4a5cc53ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:30 +0000
Subject: [PATCH 80/81] fix: union and full_join returned a broken graph when
 rename made two nodes equal

---
 graphblas_algorithms/algorithms/operators/binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index a97385b..a55d9cf 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -33,6 +33,8 @@ def union(G, H, rename=(), *, name="union"):
                 H = type(H)(
                     H._A, key_to_id={f"{prefix}{key}": val for key, val in H._key_to_id.items()}
                 )
+        if len(G._key_to_id) != len(G) or len(H._key_to_id) != len(H):
+            raise GraphBlasAlgorithmException("The renamed nodes of a graph are not distinct.")
     A = G._A
     B = H._A
     if not G._key_to_id.keys().isdisjoint(H._key_to_id.keys()):
-- 
2.43.0


From 3a077802afb1610b3a9c7c10e55d24f48cf93640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:40 +0000
Subject: [PATCH 81/81] fix: expand_output did not place rows by node when all
 nodes were given

---
 graphblas_algorithms/algorithms/shortest_paths/unweighted.py | 2 +-
 graphblas_algorithms/algorithms/shortest_paths/weighted.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
index ec87b65..e0e7de7 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
@@ -21,7 +21,7 @@ def single_target_shortest_path_length(G, target, cutoff=None):
 
 def all_pairs_shortest_path_length(G, cutoff=None, *, nodes=None, expand_output=False):
     D = _bfs_levels(G, nodes, cutoff=cutoff)
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         ids = G.list_to_ids(nodes)
         rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
         rv[ids, :] = D
diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 1c9b402..aa7413e 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -154,7 +154,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
             D = _bfs_levels(G, nodes, dtype=iso_value.dtype)
             if iso_value != 1:
                 D *= iso_value
-            if nodes is not None and expand_output and D.ncols != D.nrows:
+            if nodes is not None and expand_output:
                 ids = G.list_to_ids(nodes)
                 rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
                 rv[ids, :] = D
@@ -212,7 +212,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
         cur = select.valuelt(diag, 0)
         if any_pair(D @ cur).nvals > 0:
             raise Unbounded("Negative cycle detected.")
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         rv = Matrix(D.dtype, n, n, name=D.name)
         rv[ids, :] = D
         return rv
-- 
2.43.0

