From 8f6d93652ac0ebf8dc6511e142b4c25fe649f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 001/108] fix: TreeBasedTensor.full no longer rewrites the dims
 of its own tree

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 04074de..870c6f4 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -531,6 +531,7 @@ class TreeBasedTensor:
             return a
 
         tensors = np.array(self.tensors)
+        nodes_dims = list(tree.dims)
 
         for level in np.arange(np.max(tree.level), -1, -1):
             nod_level = tensap.fast_setdiff(tree.nodes_with_level(level), tree.dim2ind)
@@ -545,10 +546,10 @@ class TreeBasedTensor:
                             [dims.size],
                         )
                         tensors[child - 1] = None
-                        dims = np.concatenate((tree.dims[child - 1], dims))
+                        dims = np.concatenate((nodes_dims[child - 1], dims))
                     else:
-                        dims = np.concatenate((dims, tree.dims[child - 1]))
-                tree.dims[nod - 1] = dims
+                        dims = np.concatenate((dims, nodes_dims[child - 1]))
+                nodes_dims[nod - 1] = dims
 
         tensor = tensors[tree.root - 1]
         if tensor.order > self.order:
-- 
2.43.0


From dc8bef6aa23347c3aee2fe3bbe971a4bcfa416c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 002/108] fix: TreeBasedTensor.eval_diag with dims no longer
 overwrites a core of its receiver

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 870c6f4..3c1f658 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1267,8 +1267,8 @@ class TreeBasedTensor:
             alpha = alpha[0]
             subtree, nodes = tree.sub_dimension_tree(alpha)
             xs = tensap.TreeBasedTensor(self.tensors[nodes - 1], subtree)
-            xs = xs.eval_diag()
-            self.tensors[alpha - 1] = xs
+            tensors = np.array(self.tensors)
+            tensors[alpha - 1] = xs.eval_diag()
             # indices of the nodes that are kept
             keep_ind = tensap.fast_setdiff(
                 np.arange(tree.nb_nodes), tree.descendants(alpha) - 1
@@ -1286,7 +1286,7 @@ class TreeBasedTensor:
             mu = np.where(alpha == keep_ind + 1)[0][0] + 1
             dim2ind.insert(0, mu)
             newtree = tensap.DimensionTree(dim2ind, adj)
-            return TreeBasedTensor(self.tensors[keep_ind], newtree)
+            return TreeBasedTensor(tensors[keep_ind], newtree)
 
     def cat(self, tensor2):
         """
-- 
2.43.0


From 87f1c5d0190106c30ebaeda4d692769ebec474e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 003/108] fix: TreeBasedTensor.permute_leaves works on a copy
 of the permutation

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 3c1f658..da86fd8 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1054,7 +1054,7 @@ class TreeBasedTensor:
 
         """
         tensor = self
-        perm = np.atleast_1d(perm)
+        perm = np.array(np.atleast_1d(perm))
         if not np.array_equal(perm, np.sort(perm)):
             # Decomposition of the permutation into a sequence of elementary
             # permutations of two dimensions
-- 
2.43.0


From 5653d8703924c87f27e4203c24af663d0ee8b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 004/108] fix: TreeBasedTensor.__rmul__ by a matrix reports the
 new root rank

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index da86fd8..555868d 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -347,7 +347,7 @@ class TreeBasedTensor:
             tensor.tensors[root] = tensor.tensors[root].tensor_matrix_product(
                 arg, tensor.tensors[root].order - 1
             )
-            tensor.ranks[root] = arg.shape[1]
+            tensor.ranks[root] = arg.shape[0]
         else:
             raise ValueError("Wrong shapes.")
         return tensor
-- 
2.43.0


From 7629d30e7abfbc490f364b7aeec591ae3d349adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 005/108] fix: TreeBasedTensor.is_admissible_rank pairs
 inactive leaves with their own dimension

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 555868d..c83d191 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -447,9 +447,9 @@ class TreeBasedTensor:
             print("Inactive nodes must have an alpha-rank equal to 0.")
         else:
             is_admiss = True
-            ranks[tensap.fast_intersect(tree.dim2ind, self.non_active_nodes) - 1] = (
-                self.shape[self.non_active_dims]
-            )
+            ranks[tree.dim2ind[self.non_active_dims] - 1] = self.shape[
+                self.non_active_dims
+            ]
             for nod in tensap.fast_intersect(tree.internal_nodes, self.active_nodes):
                 children = tree.children(nod)
                 active_ch = tensap.fast_intersect(children, self.active_nodes)
-- 
2.43.0


From 7c98eabedcee2357848c5c1a15b720a6fe1a1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 006/108] fix: TreeBasedTensor.nodes_permutation_cost no longer
 writes the ranks of the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index c83d191..9a24f5a 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -707,9 +707,9 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        ranks = self.ranks
-        ranks[self.non_active_nodes - 1] = self.shape[
-            np.logical_not(self.is_active_node[tree.dim2ind - 1])
+        ranks = np.array(self.ranks)
+        ranks[tree.dim2ind[self.non_active_dims] - 1] = self.shape[
+            self.non_active_dims
         ]
 
         cost = np.zeros(tree.nb_nodes)
-- 
2.43.0


From 3d6ae42aa05068c426a1eb7e5c7a5755792dea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 007/108] fix: TreeBasedTensor.parameter_gradient_eval_diag at
 a root with inactive children

---
 .../tensors/tree_based_tensor.py              | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 9a24f5a..879dc99 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2253,15 +2253,27 @@ class TreeBasedTensor:
         tree = self.tree
         tensors = np.array(self.tensors)
 
-        diag_below = self.eval_diag_below(alpha)
-        diag_above = self.eval_diag_above(diag_below, alpha)
-
         children = tree.children(alpha)
         active_ch = children[self.is_active_node[children - 1]]
         inactive_ch = tensap.fast_setdiff(children, active_ch)
 
+        if alpha == tree.root and inactive_ch.size != 0:
+            # The root itself is not evaluated, nothing lies above it
+            diag_below = self.eval_diag_below(except_nodes=alpha)
+            if active_ch.size != 0:
+                nb_eval = diag_below[active_ch[0] - 1].shape[0]
+            elif matrices is not None:
+                ind = np.nonzero(tree.dim2ind == inactive_ch[0])[0][0]
+                nb_eval = np.shape(matrices[ind])[0]
+            else:
+                nb_eval = self.tensors[alpha - 1].shape[0]
+        else:
+            diag_below = self.eval_diag_below(alpha)
+            diag_above = self.eval_diag_above(diag_below, alpha)
+            nb_eval = diag_above.shape[0]
+
         if tree.is_leaf[alpha - 1]:
-            out = tensap.FullTensor.ones(diag_above.shape[0])
+            out = tensap.FullTensor.ones(nb_eval)
             if matrices is not None:
                 ind = np.nonzero(tree.dim2ind == alpha)[0][0]
                 out = out.outer_product_eval_diag(
@@ -2285,7 +2297,7 @@ class TreeBasedTensor:
                         diag_below[active_ch[child] - 1], 0, 0
                     )
             if inactive_ch.size != 0:
-                tmp = tensap.FullTensor.ones(diag_above.shape[0])
+                tmp = tensap.FullTensor.ones(nb_eval)
                 for child in inactive_ch:
                     if matrices is not None:
                         ind = np.nonzero(tree.dim2ind == child)[0][0]
-- 
2.43.0


From 7d46a56e6021db82553f865afffe3d5db479a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 008/108] fix: TreeBasedTensor.remove_unique_children no longer
 edits its receiver

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 879dc99..9f47c15 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1619,10 +1619,10 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        tensors = self.tensors
+        tensors = np.array(self.tensors)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
-        adj = tree.adjacency_matrix
+        adj = np.array(tree.adjacency_matrix)
         dim2ind = np.array(tree.dim2ind)
 
         for level in np.arange(np.max(tree.level), -1, -1):
-- 
2.43.0


From 4154f168409c0e175d336c7a0cafad40dc5ae09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 009/108] fix: FunctionalTensor.parameter_gradient_eval keeps
 the numbering of the nodes

---
 tensap/functions/functional_tensor.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8f48b53..e79a704 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -565,7 +565,6 @@ class FunctionalTensor(tensap.Function):
 
                 tree = tensap.DimensionTree(dim2ind, adj_mat)
                 fH = tensap.TreeBasedTensor(tensors[keep_ind], tree)
-                fH = fH.remove_unique_children()
                 bases_eval = [bases_eval[x] for x in remaining_dims]
         else:
             if alpha <= self.tensor.order:
-- 
2.43.0


From f94af036e426e5acfc1a8debb766c021b688dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 010/108] fix: copies of a TreeBasedTensor keep plain
 attributes

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 9f47c15..a500ccb 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -95,11 +95,11 @@ class TreeBasedTensor:
             self.tensors = np.array(cores.tensors)
             self.ranks = np.array(cores.ranks)
             self.shape = np.array(cores.shape)
-            self.order = np.array(cores.order)
+            self.order = cores.order
             self.tree = copy.deepcopy(cores.tree)
-            self.is_orth = np.array(cores.is_orth)
+            self.is_orth = cores.is_orth
             self.is_active_node = np.array(cores.is_active_node)
-            self.orth_node = np.array(cores.orth_node)
+            self.orth_node = cores.orth_node
         elif isinstance(cores, (list, np.ndarray)) and isinstance(
             tree, tensap.DimensionTree
         ):
-- 
2.43.0


From 9ebe366df1ed58ccff405b749373272a807437fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 011/108] fix: Truncator keeps its rank limit through hosvd and
 hsvd

---
 tensap/tensor_algebra/tools/truncator.py | 36 +++++++++++++++++-------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 207a7d7..43580ee 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -133,7 +133,7 @@ class Truncator:
             raise ValueError("Wrong tensor order.")
         return out
 
-    def trunc_svd(self, matrix, tolerance=None, power=2):
+    def trunc_svd(self, matrix, tolerance=None, power=2, max_rank=None):
         """
         Compute the truncated svd of the matrix x with relative precision
         self.tolerance (or tolerance if provided) in Schatten p-norm (with p
@@ -175,7 +175,9 @@ class Truncator:
         else:
             ind = np.min(ind) + 1
 
-        ind = int(np.min([ind, self.max_rank]))
+        if max_rank is None:
+            max_rank = self.max_rank
+        ind = int(np.min([ind, max_rank]))
         if self.thresholding_parameter is not None and self.thresholding_parameter != 0:
             if self.thresholding_type == "soft":
                 sin_val -= self.thresholding_parameter
@@ -269,8 +271,11 @@ class Truncator:
             if isinstance(tensor, tensap.FullTensor):
                 vec = np.empty(order, dtype=object)
                 for dim in range(order):
-                    self.max_rank = max_rank[dim]
-                    vec[dim] = self.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
+                    vec[dim] = self.trunc_svd(
+                        tensor.matricize(dim).numpy(),
+                        local_tol,
+                        max_rank=max_rank[dim],
+                    )
                     vec[dim] = vec[dim].space[0]
                 core = tensor.tensor_matrix_product(np.transpose(vec[0]), 0)
                 for dim in np.arange(1, order):
@@ -354,8 +359,11 @@ class Truncator:
                         if root_rank_greater_than_one:
                             rep_c = np.concatenate((rep_c, [tensor.order - 1]))
 
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(tensor.matricize(rep).numpy(), local_tol)
+                        tmp = self.trunc_svd(
+                            tensor.matricize(rep).numpy(),
+                            local_tol,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tensors[nod - 1] = tmp.space[0]
                         ranks[nod - 1] = tensors[nod - 1].shape[1]
                         shape_loc = np.hstack((shape[rep], ranks[nod - 1]))
@@ -398,8 +406,12 @@ class Truncator:
                     # Truncation of the Gramian in trace norm for a control
                     # of Frobenius norm of the tensor
                     if gram[nod] is not None:
-                        self.max_rank = max_rank[nod]
-                        tmp = self.trunc_svd(gram[nod], tolerance=local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod],
+                            tolerance=local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod],
+                        )
                         shape[nod] = tmp.core.shape[0]
                         mat[nod] = np.transpose(tmp.space[0])
 
@@ -444,8 +456,12 @@ class Truncator:
                     ):
                         # Truncation of the Gramian in trace norm for a control
                         # of Frobenius norm of the tensor
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(gram[nod - 1], local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod - 1],
+                            local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tmp = np.transpose(tmp.space[0])
                         order = out.tensors[nod - 1].order
                         out.tensors[nod - 1] = out.tensors[
-- 
2.43.0


From b09a1d5b0c6cafbde2d3ab2a2e661adbb486f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 012/108] fix: hsvd no longer reports truncated tree-based
 tensors as orthogonalized

---
 tensap/tensor_algebra/tools/truncator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 43580ee..837845f 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -149,6 +149,8 @@ class Truncator:
         power : int or 'inf' or float('inf') or numpy.inf, optional
             The integer p of the Schatten-p norm (1 <= p <= inf, p = 2 for
             Frobenius). The default is 2.
+        max_rank : int or float, optional
+            The maximal rank. The default is self.max_rank.
 
         Returns
         -------
@@ -473,8 +475,7 @@ class Truncator:
                             parent - 1
                         ].tensor_matrix_product(tmp, ch_nb - 1)
                 out = out.update_attributes()
-                out.is_orth = True
-                out.orth_node = tree.root
+                out.is_orth = False
             else:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
-- 
2.43.0


From 63dc0265167a7dcef2a35e987caf8c04e73f4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 013/108] fix: FullTensor.matricize with all the dimensions on
 one side

---
 tensap/tensor_algebra/tensors/full_tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index d4a117f..013c357 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -1110,7 +1110,9 @@ class FullTensor:
 
         tensor = FullTensor(self)
         tensor = tensor.transpose(np.concatenate((dims1, dims2)))
-        tensor = tensor.reshape([np.prod(shape1), np.prod(shape2)])
+        tensor = tensor.reshape(
+            [np.prod(shape1, dtype=int), np.prod(shape2, dtype=int)]
+        )
         return FullTensor(tensor)
 
     def outer_product_eval_diag(self, tensor2, dims1, dims2, diag=False):
-- 
2.43.0


From 65a3cab860265d4e66de23945c57519df4aa86e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 014/108] fix: FullTensor.eval_at_indices numbers partial
 indices as matricize does

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 013c357..ea8a989 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -331,7 +331,7 @@ class FullTensor:
         else:
             no_dims = tensap.fast_setdiff(np.arange(self.order), dims)
             indices = np.ravel_multi_index(
-                np.transpose(indices), [self.shape[i] for i in dims]
+                np.transpose(indices), [self.shape[i] for i in dims], order="F"
             )
             evaluations = self.matricize(dims).sub_tensor(indices, ":")
             evaluations = evaluations.reshape(
-- 
2.43.0


From 457ef319735d8dcb838adaf5043dab1a469d4f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 015/108] fix: DiagonalTensor.dot_with_rank_one_metric no
 longer transposes the matrices

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 5b2cb11..554f9a2 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -501,7 +501,7 @@ class DiagonalTensor:
 
         """
         if isinstance(matrix, list):
-            matrix = np.hstack([np.reshape(x, [-1, 1]) for x in matrix])
+            matrix = np.hstack([np.reshape(x, [-1, 1], order="F") for x in matrix])
         matrix = np.reshape(
             np.expand_dims(matrix, 1),
             (self.shape[0], y.shape[0], self.order),
-- 
2.43.0


From 9dbb84385ef9ad03d874217cd45d5ee079821d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 016/108] fix: CanonicalTensor.eval_diag no longer overwrites a
 factor of its receiver

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 8d9f6cd..f480de9 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -343,7 +343,7 @@ class CanonicalTensor:
             dims = np.sort(dims)
             new_dims = np.setdiff1d(range(self.order), dims[1:])
 
-        out = self.space[dims[0]]
+        out = np.array(self.space[dims[0]])
         for k in dims[1:]:
             out *= self.space[k]
 
@@ -354,7 +354,7 @@ class CanonicalTensor:
             core = deepcopy(self.core)
 
             space[dims[0]] = out
-            space = space[new_dims]
+            space = [space[k] for k in new_dims]
             core.shape = core.shape[new_dims]
             core.order = new_dims.size
             out = CanonicalTensor(space, core)
-- 
2.43.0


From 436272a4402f60091981b9cc49744c6a79ef670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 017/108] fix: SparseTensor keeps one-dimensional data and
 shape with a single entry

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 28c880b..5e535fc 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -108,8 +108,8 @@ class SparseTensor:
             ), "data and indices must have the same number of elements."
         else:
             raise ValueError("Wrong input arguments.")
-        self.data = np.squeeze(self.data)
-        self.shape = np.squeeze(self.shape)
+        self.data = np.ravel(self.data)
+        self.shape = np.ravel(self.shape)
 
     @property
     def size(self):
-- 
2.43.0


From 9c329fa5acce130641e425a8e548c2a249b151c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 018/108] fix: SparseTensor.tensor_diagonal_matrix_product uses
 plain matrices

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 5e535fc..2f31f6c 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -532,7 +532,7 @@ class SparseTensor:
                 len(matrices) == dims.size
             ), "len(matrices) must be equal to dims.size."
 
-        matrices = [tensap.FullTensor(np.diag(np.reshape(x, [-1]))) for x in matrices]
+        matrices = [np.diag(np.reshape(x, [-1])) for x in matrices]
         return self.tensor_matrix_product(matrices, dims)
 
     def dot(self, y):
-- 
2.43.0


From fa260d0d8700afb7e92f1e6c86ed63cd5c6d8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 019/108] fix: SparseTensor.tensor_vector_product with zeros
 and over all the dimensions

---
 .../tensor_algebra/tensors/sparse_tensor.py   | 43 ++++++-------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 2f31f6c..18c1438 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -308,44 +308,27 @@ class SparseTensor:
             assert len(vectors) == self.order, "len(vectors) must be self.order."
             dims = np.arange(self.order)
         else:
-            dims = np.array(dims)
+            dims = np.atleast_1d(dims)
             if not isinstance(vectors, list):
                 vectors = [vectors]
             assert len(vectors) == dims.size, "len(vectors) must be equal to dims.size."
 
         vectors = [np.ravel(x) for x in vectors]
 
-        out = deepcopy(self)
-        not_dims = np.setdiff1d(range(out.order), dims)
-        if not_dims.size == 0:
-            out.shape = []
-        else:
-            out.shape = out.shape[not_dims]
-
+        data = self.data
         for i in range(dims.size):
-            a = out.data * vectors[i][out.indices.array[:, dims[i]]]
+            data = data * vectors[i][self.indices.array[:, dims[i]]]
 
-            out.indices.array = out.indices.array[
-                :, np.setdiff1d(range(out.indices.array.shape[1]), dims[i])
-            ]
-            out.indices.array = out.indices.array[a != 0, :]
-
-            if out.indices.array.size != 0:
-                out.indices.array, ind = np.unique(
-                    out.indices.array, axis=0, return_inverse=True
-                )
-
-                a = a[a != 0]
-                out.data = np.bincount(ind, weights=a)
-
-            dims -= dims > dims[i]
-
-        out.order -= len(vectors)
-
-        if np.size(out.shape) == 0:
-            out = out.data
-
-        return out
+        not_dims = np.setdiff1d(range(self.order), dims)
+        if not_dims.size == 0:
+            return np.sum(data)
+
+        array = self.indices.array[:, not_dims]
+        array, ind = np.unique(array[data != 0, :], axis=0, return_inverse=True)
+        data = np.bincount(
+            np.ravel(ind), weights=data[data != 0], minlength=array.shape[0]
+        )
+        return SparseTensor(data, tensap.MultiIndices(array), self.shape[not_dims])
 
     def tensor_matrix_product(self, matrices, dims=None):
         """
-- 
2.43.0


From 08d9d9a289079410cc9fe3027ed2a791b1a556ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 020/108] fix: SparseTensor.tensor_matrix_product of vectors
 and of zero tensors

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 18c1438..c6f325e 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -370,25 +370,24 @@ class SparseTensor:
         for mu in dims:
             perm_dims = np.concatenate(([mu], np.setdiff1d(np.arange(out.order), mu)))
             out = out.transpose(perm_dims)
-            if out.order == 1:
-                out.shape[1] = 1
+            nb_col = np.prod(out.shape[1:], dtype=int)
             ind = tensap.MultiIndices(out.indices.array[out.data != 0, :]).sub2ind(
                 out.shape
             )
             x1, x2 = np.unravel_index(
-                ind, [out.shape[0], np.prod(out.shape[1:])], order="F"
+                ind, [out.shape[0], nb_col], order="F"
             )
             x2u, x2uind = np.unique(x2, return_inverse=True)
             s = coo_matrix(
                 (out.data[out.data != 0], (x1, x2uind)),
-                shape=(out.shape[0], np.max(x2uind) + 1),
+                shape=(out.shape[0], x2u.size),
             )
             a = np.transpose(s.transpose().dot(np.transpose(matrices[k])))
             y1, y2 = np.nonzero(a)
             out.shape[0] = matrices[k].shape[0]
             ind = np.ravel_multi_index(
                 (y1, np.reshape(x2u[y2], y1.shape)),
-                (out.shape[0], np.prod(out.shape[1:])),
+                (out.shape[0], nb_col),
                 order="F",
             )
             out.indices = tensap.MultiIndices.ind2sub(out.shape, ind)
-- 
2.43.0


From b0a6e14543dd6a9dd49f346d8242d4ce51f59b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 021/108] fix: MultiIndices set operations keep the dimension
 of empty sets

---
 tensap/tools/multi_indices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5138081..5ee3424 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -319,7 +319,7 @@ class MultiIndices:
         """
         array = np.vstack((self.array, J.array))
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def remove_indices(self, J):
@@ -362,7 +362,7 @@ class MultiIndices:
         """
         array = self.array[:, np.setdiff1d(range(self.ndim()), dims)]
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def intersect_indices(self, J):
@@ -422,7 +422,7 @@ class MultiIndices:
         """
         array = self.array[:, dims]
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def get_indices(self, k):
@@ -551,7 +551,7 @@ class MultiIndices:
         ind_marg = neighbours[np.setdiff1d(range(neighbours.shape[0]), ind_marg), :]
 
         ind = np.unique(ind_marg, axis=0, return_index=True)[1]
-        ind_marg = np.array([ind_marg[index, :] for index in sorted(ind)])
+        ind_marg = ind_marg[np.sort(ind), :]
 
         return MultiIndices(ind_marg.astype(int))
 
-- 
2.43.0


From 5fa561ee2b17f33c14c283442eb5d45c3afbe5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 022/108] fix: DimensionTree equality with different numbers of
 nodes at a level

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 15fc3ad..0228824 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -154,7 +154,7 @@ class DimensionTree:
                 nodes1 = self.nodes_with_level(level)
                 nodes2 = T.nodes_with_level(level)
                 if len(nodes1) != len(nodes2):
-                    return is_equal
+                    return False
                 dims1 = [self.dims[i] for i in nodes1 - 1]
                 dims2 = [T.dims[i] for i in nodes2 - 1]
                 for i, dim1 in enumerate(dims1):
-- 
2.43.0


From 49f49d7700058a206b3d14753629ae14ef6ca82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 023/108] fix: DimensionTree.linear numbers the only node of a
 tree over one dimension

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 0228824..79d8925 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -746,6 +746,8 @@ class DimensionTree:
             order -= 1
 
         d2i = np.concatenate(([2 * dim - 2], 2 * np.arange(dim - 1, 0, -1) + 1))
+        if dim == 1:
+            d2i = np.array([1])
         adj_mat = np.zeros([2 * dim - 1] * 2, dtype=int)
         adj_mat[0, 1:3] = 1
         for level in range(dim - 2):
-- 
2.43.0


From 567be9ef49800e5b7645183ccf733ca08b1b7695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 024/108] fix: MultiIndices comparisons no longer rewrite their
 second operand

---
 tensap/tools/multi_indices.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5ee3424..1587ce0 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -77,15 +77,11 @@ class MultiIndices:
         if not isinstance(J, MultiIndices):
             ok = False
         else:
-            if J.cardinal() == 1:
-                J.array = np.tile(J.array, (self.cardinal(), 1))
             ok = np.all(self.array == J.array, axis=1)
         return ok
 
     def __le__(self, J):
         assert isinstance(J, MultiIndices), "Must provide a MultiIndices."
-        if J.cardinal() == 1:
-            J.array = np.tile(J.array, (self.cardinal(), 1))
         return np.all(self.array <= J.array, axis=1)
 
     def __add__(self, m):
-- 
2.43.0


From 4c0172d602a82da2e882e72b14ed48ec4d469d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 025/108] fix: MultiIndices shifted from the left return a new
 set

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 1587ce0..9fc640a 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -88,13 +88,13 @@ class MultiIndices:
         return MultiIndices(self.array + m)
 
     def __radd__(self, m):
-        self.array += m
+        return MultiIndices(m + self.array)
 
     def __sub__(self, m):
         return MultiIndices(self.array - m)
 
     def __rsub__(self, m):
-        self.array -= m
+        return MultiIndices(m - self.array)
 
     def cardinal(self):
         """
-- 
2.43.0


From 7ade9d679f71ad500cd20a55efaa2ea2a3ec3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 026/108] fix: MultiIndices generators no longer stop when only
 the first candidate is kept

---
 tensap/tools/multi_indices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 9fc640a..f2c183e 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -637,7 +637,7 @@ class MultiIndices:
                 M = ind.get_margin()
                 n = M.norm(p)
                 k = np.nonzero(n <= m)[0]
-                if np.all(np.logical_not(k)):
+                if len(k) == 0:
                     add = False
                 else:
                     j = np.argsort(n[k])
@@ -847,7 +847,7 @@ class MultiIndices:
             M = M.remove_indices(rem)
             n = np.delete(n, rem)
             k = np.nonzero(n <= m)[0]
-            if np.all(np.logical_not(k)):
+            if len(k) == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
@@ -882,7 +882,7 @@ class MultiIndices:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
             k = np.nonzero(n <= p + 1)[0]
-            if np.all(np.logical_not(k)):
+            if len(k) == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
-- 
2.43.0


From a1313cf67668930eaf054cb62f7ca35eb94670bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 027/108] fix: MultiIndices.sort in descending order breaks
 ties by the next columns

---
 tensap/tools/multi_indices.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index f2c183e..9f1f657 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -289,12 +289,10 @@ class MultiIndices:
 
         array = np.array(self.array)
         for k in np.flip(columns):
-            if k == columns[-1]:
-                ind = np.argsort(array[:, k])
+            if mode == "descend":
+                ind = np.argsort(-array[:, k], kind="mergesort")
             else:
                 ind = np.argsort(array[:, k], kind="mergesort")
-            if mode == "descend":
-                ind = np.flip(ind)
             array = array[ind, :]
         return MultiIndices(array.astype(int))
 
-- 
2.43.0


From 3da9763d5d8aaab501a9156c4fb7ae4687437c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 028/108] fix: MultiIndices.keep_dims with one dimension and
 remove_indices from an empty set

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 9f1f657..4a2b3c8 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -336,7 +336,7 @@ class MultiIndices:
             ind = np.nonzero(np.all(self.array == J.array[:, np.newaxis], axis=2))[1]
         else:
             ind = J
-        array = self.array[np.setdiff1d(range(self.cardinal()), ind), :]
+        array = self.array[np.setdiff1d(np.arange(self.cardinal()), ind), :]
         return MultiIndices(array.astype(int))
 
     def remove_dims(self, dims):
@@ -414,7 +414,7 @@ class MultiIndices:
             The MultiIndices with retained dimensions.
 
         """
-        array = self.array[:, dims]
+        array = self.array[:, np.atleast_1d(dims)]
         ind = np.unique(array, axis=0, return_index=True)[1]
         array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
-- 
2.43.0


From 0ab8752c5278c0d109ea9e89ab59d5de25572f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 029/108] fix: MultiIndices.envelope of a list

---
 tensap/tools/multi_indices.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 4a2b3c8..b349982 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -491,6 +491,7 @@ class MultiIndices:
             + "of multi-indices."
         )
 
+        u = np.array(u)
         env = np.array(u)
         for i in range(n):
             ind_sup = np.all(array >= np.tile(array[i, :], (n, 1)), axis=1)
-- 
2.43.0


From 78276759f70d6575c14136fa40b21dffbf6c405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 030/108] fix: MultiIndices.product_set over one set of
 indices, without writing to the list of the caller

---
 tensap/tools/multi_indices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index b349982..3a1b221 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -734,8 +734,11 @@ class MultiIndices:
 
         if d is None:
             d = len(L)
+        elif np.all([np.ndim(x) == 0 and not isinstance(x, MultiIndices) for x in L]):
+            L = [np.array(L)]
+        L = list(L)
         if len(L) == 1 and d > 1:
-            L = list(L) * d
+            L = L * d
 
         for i in range(len(L)):
             if isinstance(L[i], MultiIndices):
-- 
2.43.0


From 227ba7110918f94b680bdc06faac57d710051a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 031/108] fix: FullTensorGrid no longer writes to the list of
 the caller

---
 tensap/tools/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 37950ad..9a4940a 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -182,6 +182,7 @@ class FullTensorGrid(TensorGrid):
                 np.ndim(grids) == 1
             ), "The first argument must be a unidimensional grid."
             grids = [np.reshape(grids, (-1, 1))] * dim
+        grids = list(grids)
         for i in range(len(grids)):
             if len(grids[i].shape) == 1:
                 grids[i] = np.reshape(grids[i], (-1, 1))
-- 
2.43.0


From 1fda0cc67fda8875339474b3962bf21070a58e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 032/108] fix: random_multi_indices no longer writes to the
 list of the caller

---
 tensap/functions/measures/random_multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_multi_indices.py b/tensap/functions/measures/random_multi_indices.py
index f8eff61..a059149 100644
--- a/tensap/functions/measures/random_multi_indices.py
+++ b/tensap/functions/measures/random_multi_indices.py
@@ -44,7 +44,7 @@ def random_multi_indices(shape):
     order = len(shape)
 
     if np.all([isinstance(x, (list, np.ndarray)) for x in shape]):
-        ind = shape
+        ind = list(shape)
     else:
         ind = []
         for dim in range(order):
-- 
2.43.0


From 5a6d939da2f12c31b2e1d1f5df044a1338ab7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 033/108] fix: stored evaluations of a Function are returned in
 the right shape and order, never shared or half updated

---
 tensap/functions/function.py | 60 +++++++++++++++---------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index cd7bcda..f70191c 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -66,9 +66,9 @@ class Function:
             x = np.expand_dims(x, 1)
 
         if self.store:
-            y = self.store_eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
+            y, f = self.store_eval(x)
+            if return_f:
+                return y, f
             return y
         else:
             y = self.eval(x)
@@ -99,53 +99,41 @@ class Function:
         """
         if np.ndim(x) < 2:
             x = np.reshape(x, [np.size(x), 1])
+        # The stored points and evaluations are never shared with the caller
+        x = np.array(x)
 
         if self.store and np.size(self._y_stored) != 0:
+            y_stored = self._y_stored
             ind_2, ind_1 = np.nonzero(
                 np.all(x == self._x_stored[:, np.newaxis], axis=2)
             )
+            ind_new = np.setdiff1d(range(x.shape[0]), ind_1)
 
-            if np.prod(self.output_shape) != 1:
-                self._y_stored = np.reshape(
-                    self._y_stored, (self._y_stored.shape[0], -1), order="F"
-                )
+            y = np.zeros((x.shape[0],) + y_stored.shape[1:], y_stored.dtype)
+            y[ind_1] = y_stored[ind_2]
 
-            y = np.zeros((x.shape[0], self._y_stored.shape[1]))
-            y[ind_1, :] = self._y_stored[ind_2, :]
-
-            x_new = x[np.setdiff1d(range(x.shape[0]), ind_1), :]
-            if x_new.size != 0:
-                y_new = self.eval(x_new)
-                y[np.setdiff1d(range(x.shape[0]), ind_1), :] = np.reshape(
-                    y_new, (y_new.shape[0], -1)
-                )
-                self._x_stored = np.vstack((self._x_stored, x_new))
-                self._y_stored = np.vstack(
-                    (self._y_stored, np.reshape(y_new, (y_new.shape[0], -1)))
+            if ind_new.size != 0:
+                x_new = x[ind_new, :]
+                y_new = np.reshape(
+                    self.eval(x_new), (ind_new.size,) + y_stored.shape[1:]
                 )
-            y = np.reshape(
-                y,
-                np.concatenate(([y.shape[0]], np.atleast_1d(self.output_shape))),
-                order="F",
-            )
-            if np.prod(self.output_shape) != 1:
-                self._y_stored = np.reshape(
-                    self._y_stored,
-                    np.concatenate(
-                        ([self._y_stored.shape[0]], np.atleast_1d(self.output_shape))
-                    ),
-                    order="F",
+                y = y.astype(np.result_type(y, y_new))
+                y[ind_new] = y_new
+                # Both are updated at once, or not at all
+                self._x_stored, self._y_stored = (
+                    np.vstack((self._x_stored, x_new)),
+                    np.concatenate((y_stored, y_new)),
                 )
         else:
-            y = self.eval(x)
+            y = np.array(self.eval(x))
             if np.ndim(y) < 2:
                 y = np.reshape(y, [np.size(y), 1])
 
-            self.store = True
-            self._x_stored = x
-            self._y_stored = y
+            self.store, self._x_stored, self._y_stored = True, x, np.array(y)
 
-        return np.squeeze(y), self
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        return y, self
 
     def fplot(self, support=None, n_points=100, *args, **kwargs):
         """
-- 
2.43.0


From 864d79e7d610fe83e87e4c3663d56252f3b70fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 034/108] fix: Function.partial_evaluation keeps the output
 shape

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index f70191c..71e106a 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -257,7 +257,7 @@ class Function:
             grid = tensap.FullTensorGrid([x_alpha, x_not_alpha])
             return self.eval(grid.array()[:, ind])
 
-        f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
+        f_alpha = tensap.UserDefinedFunction(fun, alpha.size, self.output_shape)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
         f_alpha.measure = self.measure.marginal(alpha)
-- 
2.43.0


From 450794ac04e1609c185d8af18eb98b2b4ab1a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 035/108] fix: FunctionalBasisArray keeps the coefficients of
 several outputs in order

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bbc4228..020a930 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -74,7 +74,7 @@ class FunctionalBasisArray(tensap.Function):
         self.shape = np.atleast_1d(shape)
         self.output_shape = self.shape
         self.data = np.reshape(
-            self.data, np.concatenate(([basis.cardinal()], self.shape))
+            self.data, np.concatenate(([basis.cardinal()], self.shape)), order="F"
         )
 
     def __add__(self, g):
-- 
2.43.0


From 97dd3fbb26c8d5b215009879b4c82ec65547a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 036/108] fix: DiscreteRandomVariable.icdf handles unsorted
 values and rounded cumulated probabilities

---
 tensap/functions/measures/discrete_random_variable.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bc7a4a5..25c4384 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -225,12 +225,14 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         p = np.array(p)
         shape = p.shape
-        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))))
-        F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))))
+        order = np.argsort(np.ravel(self.values), kind="stable")
+        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))[order]))
+        F = np.cumsum(np.concatenate(([0], np.ravel(self.probabilities)[order])))
+        F[F == F[-1]] = 1
 
         M = p.size
         p = np.tile(np.reshape(p, (1, M)), (F.size, 1))
-        F = np.tile(np.reshape(np.cumsum(F), (-1, 1)), (1, M))
+        F = np.tile(np.reshape(F, (-1, 1)), (1, M))
         return np.reshape(
             v[np.nonzero(np.cumsum(np.transpose(F >= p), 1) == 1)[1]], shape
         )
-- 
2.43.0


From e0b398cf2e91d245d69a7ccf10d2b8ad0328e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 037/108] fix: discrete measures and variables with several
 columns can be sampled

---
 tensap/functions/measures/discrete_measure.py         | 3 ++-
 tensap/functions/measures/discrete_random_variable.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/discrete_measure.py b/tensap/functions/measures/discrete_measure.py
index 852ffd3..e1cd6cb 100644
--- a/tensap/functions/measures/discrete_measure.py
+++ b/tensap/functions/measures/discrete_measure.py
@@ -166,4 +166,5 @@ class DiscreteMeasure(tensap.Measure):
             self.weights / np.sum(self.weights),
         )
         ind = Y.icdf(np.random.rand(n)).astype(int)
-        return np.squeeze(self.values[ind, :], 1)
+        y = self.values[ind, :]
+        return np.squeeze(y, 1) if y.shape[1] == 1 else y
diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 25c4384..726755b 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -287,4 +287,5 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
 
         ind = np.random.choice(len(self.probabilities), int(n), p=self.probabilities)
-        return np.squeeze(self.values[ind.astype(int), :], 1)
+        y = self.values[ind.astype(int), :]
+        return np.squeeze(y, 1) if y.shape[1] == 1 else y
-- 
2.43.0


From ca48ab1b6102e3376376771d8172462bcd9372c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 038/108] fix: DiscreteMeasure.random accepts the draw zero

---
 tensap/functions/measures/discrete_measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/discrete_measure.py b/tensap/functions/measures/discrete_measure.py
index e1cd6cb..d78752c 100644
--- a/tensap/functions/measures/discrete_measure.py
+++ b/tensap/functions/measures/discrete_measure.py
@@ -165,6 +165,7 @@ class DiscreteMeasure(tensap.Measure):
             np.reshape(np.arange(self.weights.size), [-1, 1]),
             self.weights / np.sum(self.weights),
         )
-        ind = Y.icdf(np.random.rand(n)).astype(int)
+        u = np.maximum(np.random.rand(n), np.finfo(float).tiny)
+        ind = Y.icdf(u).astype(int)
         y = self.values[ind, :]
         return np.squeeze(y, 1) if y.shape[1] == 1 else y
-- 
2.43.0


From ce0239b1d64382f535980c8cab4cf8fdf2271523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 039/108] fix: Latin hypercube samples come from numpy's seeded
 generator and are finite

---
 tensap/functions/measures/random_variable.py | 30 ++++++++++++++++----
 tensap/functions/measures/random_vector.py   |  7 +----
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index fccc011..38196a8 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -293,8 +293,6 @@ class RandomVariable(tensap.ProbabilityMeasure):
         Latin Hypercube Sampling of the random variable self of n points in
         dimension p.
 
-        Requires the package scipy.stats.qmc.
-
         Parameters
         ----------
         n : int
@@ -306,13 +304,33 @@ class RandomVariable(tensap.ProbabilityMeasure):
             The coordinates of the Latin Hypercube Sampling in each dimension.
 
         """
-        from scipy.stats import qmc
-
-        sampler = qmc.LatinHypercube(d=1)
-        A = sampler.random(n=n)
+        A = tensap.RandomVariable._lhs_uniform(n, 1)
         U = tensap.UniformRandomVariable(0, 1)
         return U.transfer(self, A[:, 0])
 
+    @staticmethod
+    def _lhs_uniform(n, d):
+        """
+        Latin Hypercube Sampling of n points in the open hypercube (0, 1)^d.
+
+        Parameters
+        ----------
+        n : int
+            Number of points.
+        d : int
+            The dimension.
+
+        Returns
+        -------
+        A : numpy.ndarray
+            The n-by-d array of points.
+
+        """
+        A = np.empty((n, d))
+        for i in range(d):
+            A[:, i] = (np.random.permutation(n) + np.random.rand(n)) / n
+        return np.clip(A, np.finfo(float).tiny, 1 - np.finfo(float).epsneg)
+
     def likelihood(self, x):
         """
          Compute the log-likelihood of the random variable on sample x.
diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 08d2edf..7a5b9df 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -177,8 +177,6 @@ class RandomVector(tensap.ProbabilityMeasure):
         """
         Latin Hypercube Sampling of the RandomVector of n points.
 
-        Requires the package scipy.stats.qmc.
-
         Parameters
         ----------
         n : int
@@ -191,10 +189,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             each dimension.
 
         """
-        from scipy.stats import qmc
-
-        sampler = qmc.LatinHypercube(d=self.size)
-        A = sampler.random(n=n)
+        A = tensap.RandomVariable._lhs_uniform(n, self.size)
         A = RandomVector(tensap.UniformRandomVariable(0, 1), self.size).transfer(
             self, A
         )
-- 
2.43.0


From d0e132df6b30cc957554d144c3268eae1f1106bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 040/108] fix: EmpiricalRandomVariable has a truncated support
 and quantiles

---
 tensap/functions/measures/empirical_random_variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 941f106..cec3907 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -122,6 +122,11 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
     def support(self):
         return np.array([-np.inf, np.inf])
 
+    def truncated_support(self):
+        # Nine bandwidths of the kernel density estimate used by the cdf
+        h = self.bandwidth * np.std(self.sample, ddof=1)
+        return np.array([np.min(self.sample) - 9 * h, np.max(self.sample) + 9 * h])
+
     def is_discrete(self):
         return True
 
@@ -182,6 +187,7 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         """
         # TODO Optimize the method
         sup = self.truncated_support()
+        x = np.clip(x, *self.cdf(sup))
         return np.vectorize(
             lambda p: scipy.optimize.brentq(
                 lambda y: self.cdf(y) - p, sup[0], sup[1], *args, **kwargs
-- 
2.43.0


From 87c9fcc363e980ce1ef00d9e1e216b058629887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 041/108] fix: optimize_dimension_tree stops when no nodes can
 be permuted

---
 .../tensor_algebra/tensors/tree_based_tensor.py  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index a500ccb..2557f9f 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -783,11 +783,17 @@ class TreeBasedTensor:
             sigma = np.zeros([m_current, 2])
             tensor_current = copy.deepcopy(tensor_sigma)
             i = 0
-            while i < m_current:
+            candidates_alpha = nodes
+            while i < m_current and candidates_alpha.size != 0:
                 proba_alpha = (
-                    tensor_current.ranks[tensor_current.tree.parent(nodes) - 1] ** 2
+                    tensor_current.ranks[
+                        tensor_current.tree.parent(candidates_alpha) - 1
+                    ]
+                    ** 2
+                )
+                alpha = np.random.choice(
+                    candidates_alpha, p=proba_alpha / np.sum(proba_alpha)
                 )
-                alpha = np.random.choice(nodes, p=proba_alpha / np.sum(proba_alpha))
 
                 cost = tensor_current.nodes_permutation_cost(alpha)
                 if np.any(cost != 0):
@@ -801,6 +807,10 @@ class TreeBasedTensor:
                         sigma[i, :], tolerance / (m_current + m_star)
                     )
                     i += 1
+                    candidates_alpha = nodes
+                else:
+                    candidates_alpha = candidates_alpha[candidates_alpha != alpha]
+            sigma = sigma[:i, :]
 
             c_current = tensor_current.storage()
             if c_current < c_star and tensor_current.is_admissible_rank():
-- 
2.43.0


From 2607a3713028c3d35868b5b802c55b3c35f22751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 042/108] fix: optimize_leaves_permutations accepts order one
 and replays only the permutations it made

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 2557f9f..fe90178 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -991,6 +991,8 @@ class TreeBasedTensor:
         tensor_star = self
 
         nodes = self.tree.dim2ind
+        if nodes.size < 2:
+            return tensor_star
 
         proba_m = 1 / np.arange(1, self.order) ** 2
 
@@ -1034,6 +1036,8 @@ class TreeBasedTensor:
                         sigma[i, :], tolerance / (m_current + m_star)
                     )
 
+            sigma = sigma[sigma[:, 0] != 0, :]
+
             c_current = tensor_current.storage()
             if c_current < c_star and tensor_current.is_admissible_rank():
                 ind = True
-- 
2.43.0


From d50b7e89c31650fd209e2c53d2ef8b07652716d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 043/108] fix: recorded samples of the principal components are
 the points evaluated

---
 .../tensor_principal_component_analysis.py           | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 8393e4f..e5c14d2 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -147,22 +147,26 @@ class TensorPrincipalComponentAnalysis:
             A = tensap.FullTensor(
                 np.zeros((I_alpha.shape[0], 0)), 2, [I_alpha.shape[0], 0]
             )
+            samples = []
             for k in range(N):
                 product_grid = tensap.FullTensorGrid(
                     [I_alpha, np.reshape(I_not_alpha[k, :], (1, -1))]
                 ).array()
 
-                A_k = np.linalg.solve(B_alpha, fun(product_grid[:, ind]))
+                samples.append(product_grid[:, ind])
+                A_k = np.linalg.solve(B_alpha, fun(samples[-1]))
                 A.data = np.column_stack((A.data, A_k))
                 pc, sin_val = A.principal_components(tol)
                 if sin_val[-1, -1] < 1e-15 or pc.shape[1] < np.ceil(
                     (k + 1) / self.pca_sampling_factor
                 ):
                     break
+            samples = np.concatenate(samples)
             output["number_of_evaluations"] = I_alpha.shape[0] * (k + 1)
         else:
             product_grid = tensap.FullTensorGrid([I_alpha, I_not_alpha]).array()
-            A = fun(product_grid[:, ind])
+            samples = product_grid[:, ind]
+            A = fun(samples)
             A = np.reshape(A, [B_alpha.shape[0], N], "F")
             A = np.linalg.solve(B_alpha, A)
             A = tensap.FullTensor(A, 2, [B_alpha.shape[0], N])
@@ -170,7 +174,7 @@ class TensorPrincipalComponentAnalysis:
             output["number_of_evaluations"] = I_alpha.shape[0] * N
 
         output["singular_values"] = sin_val
-        output["samples"] = product_grid
+        output["samples"] = samples
         return pc, output
 
     def hopca(self, fun, shape):
@@ -527,7 +531,7 @@ class TensorPrincipalComponentAnalysis:
         )
         alpha_grids[alpha - 1] = I_alpha
         number_of_evaluations += I_alpha.shape[0]
-        samples[alpha - 1] = I_alpha
+        samples[alpha - 1] = I_alpha[:, ind]
         if solver.display:
             print("Interpolation - nb_eval = %i" % I_alpha.shape[0])
 
-- 
2.43.0


From 68b5df3c5808c855c6a8110aacbfb8d1283c9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 044/108] fix: tree based PCA accepts a list of one tolerance

---
 .../tensor_principal_component_analysis.py                | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index e5c14d2..62f754b 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -405,8 +405,12 @@ class TensorPrincipalComponentAnalysis:
         if is_active_node is None:
             is_active_node = np.full(tree.nb_nodes, True)
 
-        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and self.tol < 1:
-            solver.tol /= np.sqrt(np.count_nonzero(is_active_node) - 1)
+        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and np.all(
+            np.less(self.tol, 1)
+        ):
+            solver.tol = np.asarray(solver.tol) / np.sqrt(
+                np.count_nonzero(is_active_node) - 1
+            )
 
         if np.ndim(self.tol) == 0 or len(self.tol) == 1:
             solver.tol = np.full(tree.nb_nodes, solver.tol)
-- 
2.43.0


From 527969b5824752d68774f6d0ed0c1768b2d40b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 045/108] fix: interpolation and projection let exceptions of
 the user function through

---
 tensap/approximation/bases/functional_basis.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 727db80..f2dcfa0 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -136,10 +136,8 @@ class FunctionalBasis:
         """
         if x is None:
             x = self.interpolation_points()
-        try:
+        if callable(y):
             y = y(x)
-        except Exception:
-            pass
 
         if np.ndim(y) == 1:
             y = np.reshape(y, [-1, 1])
@@ -288,10 +286,7 @@ class FunctionalBasis:
 
         """
 
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else np.asarray(fun)
 
         A = self.eval(G.points)
         W = diags(np.sqrt(G.weights))
@@ -326,10 +321,7 @@ class FunctionalBasis:
 
         A = self.eval(G.points)
         W = diags(G.weights)
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else np.asarray(fun)
 
         u = np.matmul(np.transpose(A), W.dot(y))
 
-- 
2.43.0


From 3a3976ddb7001c897877b2176798dec623efc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 046/108] fix: DeltaFunctionalBasis has one function per value
 and prints nothing

---
 tensap/approximation/bases/delta_functional_basis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/delta_functional_basis.py b/tensap/approximation/bases/delta_functional_basis.py
index 99dce90..2d31b22 100755
--- a/tensap/approximation/bases/delta_functional_basis.py
+++ b/tensap/approximation/bases/delta_functional_basis.py
@@ -84,7 +84,6 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
 
     def eval(self, x):
         x = np.atleast_1d(x)
-        print(x)
         dim = self.values.shape[0]
         out = np.zeros((np.shape(x)[0], dim))
         for mu in range(dim):
@@ -99,4 +98,4 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         return self.input_dimension
 
     def cardinal(self):
-        return self.values.shape[1]
+        return self.values.shape[0]
-- 
2.43.0


From ab12c5a5e83186cdd794ab23256972ca6e71ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 047/108] fix: losses let exceptions of the function through

---
 .../approximation/learning/loss_functions.py  | 38 +++++++++----------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index d1f1105..a81488e 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -23,6 +23,20 @@ from abc import ABC, abstractmethod
 import numpy as np
 
 
+def _predictions(fun, x):
+    """
+    Return the values at x of a function, or the values themselves if fun is
+    not a function.
+
+    """
+    if not hasattr(fun, "__array__"):
+        if hasattr(fun, "eval"):
+            return fun.eval(x)
+        if callable(fun):
+            return fun(x)
+    return fun
+
+
 class LossFunction(ABC):
     """
     Class LossFunction.
@@ -155,13 +169,7 @@ class SquareLossFunction(LossFunction):
         self.error_type = "relative"
 
     def eval(self, fun, sample, *args, nargout=1):
-        try:
-            y_pred = fun.eval(sample[0])
-        except Exception:
-            try:
-                y_pred = fun(sample[0])
-            except Exception:
-                y_pred = fun
+        y_pred = _predictions(fun, sample[0])
 
         y_pred = np.atleast_2d(y_pred)
         y_true = np.atleast_2d(sample[1])
@@ -211,13 +219,7 @@ class DensityL2LossFunction(LossFunction):
         self.error_type = "risk"
 
     def eval(self, fun, sample, *args, nargout=1):
-        try:
-            y_pred = fun.eval(sample[0])
-        except Exception:
-            try:
-                y_pred = fun(sample[0])
-            except Exception:
-                y_pred = fun
+        y_pred = _predictions(fun, sample[0])
 
         try:
             l_ref = fun.norm() ** 2
@@ -286,13 +288,7 @@ class CustomLossFunction(LossFunction):
         return risk, risk_ref
 
     def eval(self, fun, sample, *args, nargout=1):
-        try:
-            y_pred = fun.eval(sample[0])
-        except Exception:
-            try:
-                y_pred = fun(sample[0])
-            except Exception:
-                y_pred = fun
+        y_pred = _predictions(fun, sample[0])
 
         try:
             y_true = sample[1]
-- 
2.43.0


From d15ed640ede8ccb0b2f97fb566f95e810f576e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 048/108] fix: SquareLossFunction takes one-dimensional values
 as one value per sample

---
 tensap/approximation/learning/loss_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index a81488e..03f2d0d 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -171,8 +171,13 @@ class SquareLossFunction(LossFunction):
     def eval(self, fun, sample, *args, nargout=1):
         y_pred = _predictions(fun, sample[0])
 
+        y_true = sample[1]
+        if np.ndim(y_pred) == 1:
+            y_pred = np.reshape(y_pred, [-1, 1])
+        if np.ndim(y_true) == 1:
+            y_true = np.reshape(y_true, [-1, 1])
         y_pred = np.atleast_2d(y_pred)
-        y_true = np.atleast_2d(sample[1])
+        y_true = np.atleast_2d(y_true)
         loss = np.sum((y_pred - y_true) ** 2, 1)
 
         if nargout == 1:
-- 
2.43.0


From 0e67e59aef68de36b34cac27777e0ab0a2211e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 049/108] fix: random variables with array parameters can be
 compared

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index 38196a8..b9a0dce 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -75,7 +75,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             param_1 = self.get_parameters()
             param_2 = rv_2.get_parameters()
             for ind in zip(param_1, param_2):
-                is_equal = is_equal and (ind[0] == ind[1])
+                is_equal = is_equal and np.array_equal(ind[0], ind[1])
         return is_equal
 
     def __neq__(self, rv_2):
-- 
2.43.0


From 215f9841c54a9ee24b5bb3f7762e4258ad07d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 050/108] fix: FunctionalBasisArray.projection on a full tensor
 product basis and for several outputs

---
 tensap/approximation/bases/functional_basis_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 020a930..bac09a0 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -619,10 +619,12 @@ class FunctionalBasisArray(tensap.Function):
             _, ia, ib = self.basis.indices.intersect_indices(indices)
             d[ib, :] = self.data[ia, :]
             if np.ndim(self.data) != np.ndim(d):
-                d = np.reshape(d, [basis.cardinal(), self.shape], order="F")
+                d = np.reshape(
+                    d, np.concatenate(([basis.cardinal()], self.shape)), order="F"
+                )
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
-                H = tensap.FullTensorProductIntegrationRule(basis.bases)
+                H = tensap.FullTensorProductFunctionalBasis(basis.bases)
             elif isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 H = tensap.SparseTensorProductFunctionalBasis(basis.bases, indices)
             g = FunctionalBasisArray(d, H, self.shape)
-- 
2.43.0


From 738563ce45714765169285f6679547d07b8b7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 051/108] fix: FunctionalBasisArray.conditional_expectation
 keeps the output shape

---
 tensap/approximation/bases/functional_basis_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bac09a0..859e7f7 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -364,7 +364,9 @@ class FunctionalBasisArray(tensap.Function):
                 self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
             ),
         )
-        f.data = np.reshape(f.data, (f.data.shape[0], f.shape), order="F")
+        f.data = np.reshape(
+            f.data, np.concatenate(([f.data.shape[0]], f.shape)), order="F"
+        )
         f.basis = h.basis
         return f
 
-- 
2.43.0


From c3fd8946ef8cb2a004d08e8bc2f81d8b42672cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 052/108] fix: tensor product interpolation of given values
 uses the values at the selected points

---
 .../bases/full_tensor_product_functional_basis.py   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 41e62db..0b85014 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -288,10 +288,11 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
             A dictionnary of outputs of the method.
 
         """
+        ind = None
         if grid is None:
             grid = self.bases.interpolation_points()
         else:
-            grid = self.bases.interpolation_points(grid)
+            grid, ind = self.bases.magic_points(grid)
         grid = tensap.FullTensorGrid(grid)
 
         output = {}
@@ -303,10 +304,14 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         # TODO Create an empty class Tensor for when using isinstance?
         elif isinstance(
             fun,
-            (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor),
-            tensap.DiagonalTensor,
+            (
+                tensap.FullTensor,
+                tensap.CanonicalTensor,
+                tensap.TreeBasedTensor,
+                tensap.DiagonalTensor,
+            ),
         ):
-            y = fun
+            y = fun if ind is None else fun.sub_tensor(*ind)
         else:
             raise ValueError(
                 "The argument fun should be a Function, " + "function, or a Tensor."
-- 
2.43.0


From d80c241039c12889804d784526310e51abae48c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 053/108] fix: tensor product projection with different numbers
 of points per dimension

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 0b85014..c5a0fb2 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -235,7 +235,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         u = fun.eval_on_tensor_grid(I0.points)
         output = {"number_of_evaluations": u.storage()}
-        Hx = self.bases.eval(np.hstack(I0.points.grids))
+        Hx = self.bases.eval(I0.points.grids)
 
         Mx = [
             np.matmul(np.transpose(x), np.matmul(np.diag(y), x))
-- 
2.43.0


From 2fe3053fb221fbd7b10b29de3745f206dc33047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 054/108] fix: interpolation on a full tensor product basis
 finds its own points

---
 .../bases/full_tensor_product_functional_basis.py            | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index c5a0fb2..9da6607 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -258,6 +258,11 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         points = tensap.FullTensorGrid(grid).array()
         return points, grid
 
+    def interpolate(self, y, x=None):
+        if x is None:
+            x = self.interpolation_points()[0]
+        return super().interpolate(y, x)
+
     def tensor_product_interpolation(self, fun, grid=None):
         """
         Return the interpolation of function fun on a product grid.
-- 
2.43.0


From 870d9e24db3f400aab14538a9a8143d5a76b929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 055/108] fix: tensor product interpolation of values given in
 canonical format

---
 .../bases/full_tensor_product_functional_basis.py          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 9da6607..06bd22d 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -316,7 +316,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
                 tensap.DiagonalTensor,
             ),
         ):
-            y = fun if ind is None else fun.sub_tensor(*ind)
+            y = fun
         else:
             raise ValueError(
                 "The argument fun should be a Function, " + "function, or a Tensor."
@@ -325,5 +325,10 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         B = self.bases.eval(grid.grids)
         B = [np.linalg.inv(x) for x in B]
+        if y is fun and ind is not None:
+            # Only the values at the selected points are used
+            B = [
+                np.matmul(x, np.eye(n)[i, :]) for x, n, i in zip(B, fun.shape, ind)
+            ]
         y = y.tensor_matrix_product(B)
         return tensap.FunctionalTensor(y, self.bases), output
-- 
2.43.0


From 04d16ccdcf7fd55a62e88a19c49726ebc8d5afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 056/108] fix: shifted polynomials are orthonormal for the
 shifted measure

---
 .../polynomials/orthonormal_polynomials.py    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0e19241..b77c906 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -179,7 +179,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out[:, 0] = 0
             if max_ind > 0:
                 if k == 1:
-                    out[:, 1] = 1 / np.sqrt(b[1])
+                    out[:, 1] = 1 / np.sqrt(b[1] * self.measure.mass())
                 else:
                     out[:, 1] = 0
             for deg in np.arange(2, max_ind + 1):
@@ -361,17 +361,30 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
                 )
         return self.polynomials.moment(ind, *measure)
 
+    def _normalization(self):
+        # The shift changes the mass of a measure that is not a probability
+        # measure.
+        return np.sqrt(self.polynomials.measure.mass() / self.measure.mass())
+
     def polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.polyval(ind, x)
+        return self.polynomials.polyval(ind, x) * self._normalization()
 
     def d_polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.d_polyval(ind, x) / self.scaling
+        return (
+            self.polynomials.d_polyval(ind, x)
+            / self.scaling
+            * self._normalization()
+        )
 
     def dn_polyval(self, n, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
+        return (
+            self.polynomials.dn_polyval(n, ind, x)
+            / (self.scaling**n)
+            * self._normalization()
+        )
 
     def random(self, ind, n=1, measure=None):
         """
-- 
2.43.0


From 665670c861de53bc30be680b29c160b7e300c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 057/108] fix: linear models let exceptions of the basis
 through

---
 .../learning/linear_model_learning.py         | 53 +++++++++----------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning.py b/tensap/approximation/learning/linear_model_learning.py
index 9d0923c..c3316b7 100644
--- a/tensap/approximation/learning/linear_model_learning.py
+++ b/tensap/approximation/learning/linear_model_learning.py
@@ -42,33 +42,30 @@ class LinearModelLearning(tensap.Learning):
             self.test_error = False
 
         # Bases evaluation
-        try:
-            if self.training_data is not None and self.basis_eval is None:
-                if (
-                    isinstance(self.training_data, list)
-                    and self.training_data[0] is not None
-                ):
-                    self.basis_eval = self.basis.eval(self.training_data[0])
-                elif (
-                    not isinstance(self.training_data, list)
-                    and self.training_data is not None
-                ):
-                    self.basis_eval = self.basis.eval(self.training_data)
-                else:
-                    raise ValueError("Must provide input training data.")
-
+        if self.training_data is not None and self.basis_eval is None:
             if (
-                self.test_error
-                and self.test_data is not None
-                and self.basis_eval_test is None
+                isinstance(self.training_data, list)
+                and self.training_data[0] is not None
+            ):
+                self.basis_eval = self.basis.eval(self.training_data[0])
+            elif (
+                not isinstance(self.training_data, list)
+                and self.training_data is not None
+            ):
+                self.basis_eval = self.basis.eval(self.training_data)
+            else:
+                raise ValueError("Must provide input training data.")
+
+        if (
+            self.test_error
+            and self.test_data is not None
+            and self.basis_eval_test is None
+        ):
+            if isinstance(self.test_data, list) and self.test_data[0] is not None:
+                self.basis_eval_test = self.basis.eval(self.test_data[0])
+            elif (
+                not isinstance(self.test_data, list) and self.test_data is not None
             ):
-                if isinstance(self.test_data, list) and self.test_data[0] is not None:
-                    self.basis_eval_test = self.basis.eval(self.test_data[0])
-                elif (
-                    not isinstance(self.test_data, list) and self.test_data is not None
-                ):
-                    self.basis_eval_test = self.basis.eval(self.test_data)
-                else:
-                    raise ValueError("Must provide input test data.")
-        except Exception:
-            pass
+                self.basis_eval_test = self.basis.eval(self.test_data)
+            else:
+                raise ValueError("Must provide input test data.")
-- 
2.43.0


From 549bfcf49bc6d55017f289450d36884d0c75a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 058/108] fix: least-squares learning leaves its data,
 evaluations and settings alone

---
 .../linear_model_learning_square_loss.py      | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d5c355a..aa50b53 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -19,6 +19,7 @@ Module linear_model_learning_square_loss.
 
 """
 
+import copy
 import numpy as np
 from scipy.sparse import diags
 import tensap
@@ -76,6 +77,25 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         Solution (Ordinary or Regularized) of the Least-Squares problem and
         cross-validation procedure.
 
+        Returns
+        -------
+        sol : numpy.ndarray or tensap.FunctionalBasisArray
+            The solution of the minimization problem.
+        output : dict
+            Outputs of the algorithm.
+
+        """
+        # The data, its evaluations and the settings are those of the user:
+        # the work is done by a copy.
+        solver = copy.copy(self)
+        solver.training_data = list(self.training_data)
+        solver.error_estimation_options = dict(self.error_estimation_options)
+        return solver._solve()
+
+    def _solve(self):
+        """
+        Solution of the Least-Squares problem, possibly changing self.
+
         Returns
         -------
         sol : numpy.ndarray or tensap.FunctionalBasisArray
@@ -408,14 +428,11 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             A_red = A[:, ind]
             if "gram_matrix" in self.error_estimation_options:
-                self.error_estimation_options["gram_matrix"] = gram_matrix[ind, ind]
+                self.error_estimation_options["gram_matrix"] = gram_matrix[
+                    np.ix_(ind, ind)
+                ]
 
-            if A_red.shape[1] > A_red.shape[0]:
-                self.linear_solver = "solve"
-            else:
-                self.linear_solver = linear_solver
-
-            if self.linear_solver == "qr":
+            if linear_solver == "qr":
                 q_A, r_A = np.linalg.qr(A_red)
                 try:
                     sol_red = np.linalg.solve(r_A, np.matmul(np.transpose(q_A), y))
@@ -427,7 +444,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 err[i], delta[:, i] = self._compute_cv_error(
                     y, second_moment, A_red, sol_red, "qr", q_A, r_A
                 )
-            elif self.linear_solver == "solve":
+            elif linear_solver == "solve":
                 try:
                     C_red = np.linalg.inv(np.matmul(np.transpose(A_red), A_red))
                 except Exception:
@@ -527,11 +544,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         err = np.zeros(n)
         delta = np.zeros(y.shape)
 
-        if self.error_estimation_type == "k_fold":
+        error_estimation_type = self.error_estimation_type
+        if error_estimation_type == "k_fold":
             if "number_of_folds" not in self.error_estimation_options:
                 self.error_estimation_options["number_of_folds"] = np.min([10, N])
             if self.error_estimation_options["number_of_folds"] == N:
-                self.error_estimation_type = "leave_out"
+                error_estimation_type = "leave_out"
 
         if not args and linear_solver is None:
             if P > N:
@@ -553,7 +571,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         # estimate of the mean-squared error), also called mean predicted
         # residual sum of squares (PRESS) or empirical mean-squared predicted
         # residual
-        if self.error_estimation_type == "leave_out":
+        if error_estimation_type == "leave_out":
             if N - 1 < P:
                 err = np.full(err.shape, np.inf)
                 delta = np.squeeze(np.full(delta.shape, np.inf))
@@ -574,7 +592,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
-        elif self.error_estimation_type == "k_fold":
+        elif error_estimation_type == "k_fold":
             from sklearn.model_selection import KFold
 
             n_folds = np.min((N, self.error_estimation_options["number_of_folds"]))
@@ -622,7 +640,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-                "Cross-validation {} not implemented".format(self.error_estimation_type)
+                "Cross-validation {} not implemented".format(error_estimation_type)
             )
 
         # Compute the relative cross-validation error
-- 
2.43.0


From 129b8faf25ef0112f8d1279db08fa2adaa721436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 059/108] fix: weighted least-squares, and least-squares with
 several outputs

---
 .../linear_model_learning_square_loss.py      | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index aa50b53..ac3b58c 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -128,9 +128,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         output = {}
 
         if self.weights is not None:
-            weights = diags(np.sqrt(self.weights))
-            A = np.matmul(weights, A)
-            y = np.matmul(weights, y)
+            weights = np.sqrt(np.ravel(self.weights))
+            weights = np.tile(weights, A.shape[0] // weights.size)
+            A = weights[:, np.newaxis] * A
+            y = weights.reshape((-1,) + (1,) * (np.ndim(y) - 1)) * y
+            self.basis_eval = A
+            self.training_data[1] = y
 
         if not self.basis_adaptation:
             if not self.regularization:
@@ -145,7 +148,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     for ind in range(n):
                         self.training_data[1] = y[:, ind]
                         sol[:, ind], output_tmp = self._solve_regularized_ls()
-                        output["error"][ind] = output_tmp["error"]
+                        output["error"][ind] = output_tmp.get("error", np.nan)
                         output["outputs"][ind] = output_tmp
         else:
             if n == 1:
@@ -157,22 +160,26 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 for ind in range(n):
                     self.training_data[1] = y[:, ind]
                     sol[:, ind], output_tmp = self._solve_basis_adaptation()
-                    output["error"][ind] = output_tmp["error"]
+                    output["error"][ind] = output_tmp.get("error", np.nan)
                     output["outputs"][ind] = output_tmp
 
         if self.test_error:
+            A_test, y_test = self.basis_eval_test, self.test_data[1]
             if n == 1:
-                f_eval = np.matmul(self.basis_eval_test, sol)
+                if np.ndim(A_test) == 3:
+                    A_test = np.transpose(A_test, [0, 2, 1])
+                    y_test = np.reshape(y_test, A_test.shape[:2])
+                f_eval = np.reshape(np.matmul(A_test, sol), np.shape(y_test))
                 output["test_error"] = self.loss_function.test_error(
-                    f_eval, self.test_data
+                    f_eval, [self.test_data[0], y_test]
                 )
             else:
-                output["test_error"] = np.zeros([1, n])
-                f_eval = np.matmul(self.basis_eval_test, sol)
+                output["test_error"] = np.zeros(n)
+                f_eval = np.matmul(A_test, sol)
                 for ind in range(n):
-                    test_data = [self.test_data[0], self.test_data[1][:, ind]]
+                    test_data = [self.test_data[0], y_test[:, ind]]
                     output["test_error"][ind] = self.loss_function.test_error(
-                        f_eval, test_data
+                        f_eval[:, ind], test_data
                     )
 
         if self.basis is not None:
@@ -588,7 +595,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 T = np.sum(q_A**2, 1)
 
             with np.errstate(divide="ignore", invalid="ignore"):
-                delta = (y - np.matmul(A, sol)) / (1 - np.reshape(T, y.shape))
+                delta = (y - np.matmul(A, sol)) / (
+                    1 - np.reshape(T, (-1,) + (1,) * (np.ndim(y) - 1))
+                )
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
@@ -629,14 +638,14 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 )
                 # Compute the absolute cross-validation error for the current
                 # fold
-                errors.append(np.mean(delta_loc**2))
+                errors.append(np.mean(delta_loc**2, 0))
                 if n == 1:
                     delta[test] = delta_loc
                 else:
                     delta[test, :] = delta_loc
 
             # Average over the folds
-            err = np.mean(errors)
+            err = np.mean(errors, 0)
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-- 
2.43.0


From 7ed5ca9ebe77962c566267d2f21257a65067bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 060/108] fix: regularised least-squares: l0 path, block
 selection and error of sparse solutions

---
 .../learning/linear_model_learning_square_loss.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index ac3b58c..8fac266 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -21,7 +21,6 @@ Module linear_model_learning_square_loss.
 
 import copy
 import numpy as np
-from scipy.sparse import diags
 import tensap
 
 
@@ -265,9 +264,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         options = self.regularization_options
         if self.regularization_type == "l0":
-            options_loc = {i: output[i] for i in output if i != "alpha"}
+            options_loc = {i: options[i] for i in options if i != "alpha"}
             D = np.linalg.norm(A, axis=0)
-            A_omp = np.matmul(A, diags(1 / D))
+            D[D == 0] = 1
+            A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
                 y,
@@ -276,8 +276,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 return_path=True,
                 **options_loc
             )
-            solpath = np.atleast_2d(solpath)
-            sol = np.matmul(diags(1 / D), solpath[:, -1])
+            solpath = np.reshape(solpath, (P, -1))
+            solpath = solpath / D[:, np.newaxis]
+            sol = solpath[:, -1]
         elif self.regularization_type == "l1":
             reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
@@ -293,7 +294,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         if (self.model_selection and np.linalg.norm(
                 solpath) != 0) and solpath.shape[1] > 1:
             if "non_zero_blocks" in self.options:
-                rep = np.true(solpath.shape[1])
+                rep = np.full(solpath.shape[1], True)
                 rep = np.logical_and(rep, np.any(solpath, 0))
                 for block in self.options["non_zero_blocks"]:
                     rep = np.logical_and(rep, np.any(solpath[block, :], 0))
@@ -311,7 +312,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 error = np.mean(delta ** 2, 0) / second_moment
             else:
                 # if len(sol) > 1:
-                if np.all(sol != 0):
+                if np.any(sol != 0):
                     ind = np.nonzero(sol)[0]
                     A_red = A[:, ind]
                     sol_ind = sol[ind]
-- 
2.43.0


From 7a2b0892e55ec37e056e15bcd9b9d417d32bd791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 061/108] fix: least-squares with a singular system of
 equations

---
 .../linear_model_learning_square_loss.py      | 71 +++++++++++--------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 8fac266..ecec76f 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -186,6 +186,34 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         return sol, output
 
+    @staticmethod
+    def _is_singular(matrix):
+        # Singular to working precision, or not square
+        eps = np.max(matrix.shape) * np.finfo(float).eps
+        return (
+            matrix.shape[0] != matrix.shape[1] or not np.linalg.cond(matrix) * eps < 1
+        )
+
+    @staticmethod
+    def _solve_square(matrix, rhs):
+        # Least-squares solution when the matrix is singular
+        try:
+            if not LinearModelLearningSquareLoss._is_singular(matrix):
+                return np.linalg.solve(matrix, rhs)
+        except Exception:
+            pass
+        return np.linalg.lstsq(matrix, rhs, None)[0]
+
+    @staticmethod
+    def _inverse(matrix):
+        # Pseudo-inverse when the matrix is singular
+        try:
+            if not LinearModelLearningSquareLoss._is_singular(matrix):
+                return np.linalg.inv(matrix)
+        except Exception:
+            pass
+        return np.linalg.pinv(matrix)
+
     def _solve_ols(self):
         """
         Solution of the Ordinary Least-Squares (OLS) problem and
@@ -205,16 +233,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if self.linear_solver == "solve":
             B = np.matmul(np.transpose(A), A)
-            try:
-                sol = np.linalg.solve(B, np.matmul(np.transpose(A), y))
-            except Exception:
-                sol = np.linalg.lstsq(B, np.matmul(np.transpose(A), y), None)[0]
+            sol = self._solve_square(B, np.matmul(np.transpose(A), y))
         elif self.linear_solver == "qr":
             q_A, r_A = np.linalg.qr(A)
-            try:
-                sol = np.linalg.solve(r_A, np.matmul(np.transpose(q_A), y))
-            except Exception:
-                sol = np.linalg.lstsq(r_A, np.matmul(np.transpose(q_A), y), None)[0]
+            sol = self._solve_square(r_A, np.matmul(np.transpose(q_A), y))
 
         if self.error_estimation:
             second_moment = np.var(y, 0) + np.mean(y, 0) ** 2
@@ -223,10 +245,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 error = np.mean(delta**2, 0) / second_moment
             else:
                 if self.linear_solver == "solve":
-                    try:
-                        B_inv = np.linalg.inv(B)
-                    except Exception:
-                        B_inv = np.linalg.pinv(B)
+                    B_inv = self._inverse(B)
                     error, delta = self._compute_cv_error(
                         y, second_moment, A, sol, self.linear_solver, B_inv
                     )
@@ -322,10 +341,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     sol_ind = sol
                 if self.linear_solver == "solve":
                     B = np.matmul(np.transpose(A_red), A_red)
-                    try:
-                        B_inv = np.linalg.inv(B)
-                    except Exception:
-                        B_inv = np.linalg.pinv(B)
+                    B_inv = self._inverse(B)
                     error, delta = self._compute_cv_error(
                         y, second_moment, A_red, sol_ind, self.linear_solver, B_inv
                     )
@@ -442,21 +458,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             if linear_solver == "qr":
                 q_A, r_A = np.linalg.qr(A_red)
-                try:
-                    sol_red = np.linalg.solve(r_A, np.matmul(np.transpose(q_A), y))
-                except Exception:
-                    sol_red = np.linalg.lstsq(
-                        r_A, np.matmul(np.transpose(q_A), y), None
-                    )[0]
-
+                sol_red = self._solve_square(r_A, np.matmul(np.transpose(q_A), y))
                 err[i], delta[:, i] = self._compute_cv_error(
                     y, second_moment, A_red, sol_red, "qr", q_A, r_A
                 )
             elif linear_solver == "solve":
-                try:
-                    C_red = np.linalg.inv(np.matmul(np.transpose(A_red), A_red))
-                except Exception:
-                    C_red = np.linalg.pinv(np.matmul(np.transpose(A_red), A_red))
+                C_red = self._inverse(np.matmul(np.transpose(A_red), A_red))
 
                 sol_red = np.matmul(C_red, np.matmul(np.transpose(A_red), y))
                 err[i], delta[:, i] = self._compute_cv_error(
@@ -561,10 +568,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if not args and linear_solver is None:
             if P > N:
-                try:
-                    C = np.linalg.inv(np.matmul(np.transpose(A), A))
-                except Exception:
-                    C = np.linalg.pinv(np.matmul(np.transpose(A), A))
+                C = self._inverse(np.matmul(np.transpose(A), A))
                 linear_solver = "solve"
             else:
                 q_A, r_A = np.linalg.qr(A)
@@ -579,6 +583,11 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         # estimate of the mean-squared error), also called mean predicted
         # residual sum of squares (PRESS) or empirical mean-squared predicted
         # residual
+        if linear_solver == "qr" and N >= P and self._is_singular(r_A):
+            # Only the range of A counts for the residuals
+            left, sin_val, _ = np.linalg.svd(A, full_matrices=False)
+            q_A = left[:, sin_val > N * np.finfo(float).eps * sin_val[0]]
+
         if error_estimation_type == "leave_out":
             if N - 1 < P:
                 err = np.full(err.shape, np.inf)
-- 
2.43.0


From 360e753e8b9751624fa8c029d608a874040b3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 062/108] fix: density learning leaves its evaluations alone

---
 .../approximation/learning/linear_model_learning_density_l2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 68a2af4..119f335 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -19,6 +19,7 @@ Module linear_model_learning_density_l2.
 
 """
 
+import copy
 import numpy as np
 import tensap
 
@@ -62,6 +63,8 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             Outputs of the algorithm.
 
         """
+        # The evaluations of the bases are not kept from one data set to another
+        self = copy.copy(self)
         self.initialize()
 
         if self.basis_adaptation:
-- 
2.43.0


From 0b07e74097811adcfdb6a8822bef7cebc25a8226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 063/108] fix: Gram matrices and empty paths in the error
 estimation of least-squares

---
 .../linear_model_learning_square_loss.py      | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index ecec76f..084d5e2 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -296,6 +296,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 **options_loc
             )
             solpath = np.reshape(solpath, (P, -1))
+            if solpath.shape[1] == 0:
+                # Nothing to approximate
+                solpath = np.zeros((P, 1))
             solpath = solpath / D[:, np.newaxis]
             sol = solpath[:, -1]
         elif self.regularization_type == "l1":
@@ -339,6 +342,15 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     # ind = 0
                     A_red = A
                     sol_ind = sol
+                    ind = np.arange(P)
+                error_estimation_options = self.error_estimation_options
+                if "gram_matrix" in error_estimation_options:
+                    self.error_estimation_options = dict(
+                        error_estimation_options,
+                        gram_matrix=error_estimation_options["gram_matrix"][
+                            np.ix_(ind, ind)
+                        ],
+                    )
                 if self.linear_solver == "solve":
                     B = np.matmul(np.transpose(A_red), A_red)
                     B_inv = self._inverse(B)
@@ -350,6 +362,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     error, delta = self._compute_cv_error(
                         y, second_moment, A_red, sol_ind, self.linear_solver, q_A, r_A
                     )
+                self.error_estimation_options = error_estimation_options
             output["error"] = error
             output["delta"] = delta
 
@@ -433,8 +446,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         sol = np.zeros(pattern.shape)
 
-        if "gram_matrix" in self.error_estimation_options:
-            gram_matrix = self.error_estimation_options["gram_matrix"]
+        error_estimation_options = self.error_estimation_options
+        if "gram_matrix" in error_estimation_options:
+            gram_matrix = error_estimation_options["gram_matrix"]
 
         second_moment = np.var(y, 0) + np.mean(y, 0) ** 2
 
@@ -452,9 +466,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             A_red = A[:, ind]
             if "gram_matrix" in self.error_estimation_options:
-                self.error_estimation_options["gram_matrix"] = gram_matrix[
-                    np.ix_(ind, ind)
-                ]
+                self.error_estimation_options = dict(
+                    error_estimation_options, gram_matrix=gram_matrix[np.ix_(ind, ind)]
+                )
 
             if linear_solver == "qr":
                 q_A, r_A = np.linalg.qr(A_red)
@@ -481,6 +495,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
 
+        self.error_estimation_options = error_estimation_options
         ind = np.argmin(err)
 
         output["error"] = err[ind]
@@ -669,7 +684,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         # sensitivity of the error estimate to overfitting (the non-corrected
         # cross-validation error estimate underpredicts the error in L^2-norm
         # (generalization error))
-        if linear_solver == "qr" and 1 / np.linalg.cond(r_A) < np.finfo(float).eps:
+        if linear_solver == "qr" and self._is_singular(r_A):
             pass
         elif self.error_estimation_options["correction"]:
             if N != P:
-- 
2.43.0


From 0c83adfb42bf3c31c159812786b868b22d43dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 064/108] fix: learning with tensors works on a copy of the
 settings and of the initial guess

---
 .../tensor_learning/tensor_learning.py        | 44 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index bd6fbb0..83bb68d 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -20,7 +20,7 @@ Module tensor_learning.
 """
 
 from abc import abstractmethod
-from copy import deepcopy
+from copy import copy, deepcopy
 import pprint
 import numpy as np
 import tensap
@@ -147,6 +147,48 @@ class TensorLearning(tensap.Learning):
         """
         Solver for the learning problem with tensor formats.
 
+        Parameters
+        ----------
+        *args : misc
+            Additional arguments, if needed.
+
+        Raises
+        ------
+        NotImplementedError
+            If the required solver is not implemented.
+        ValueError
+            If the required data is not provided.
+
+        Returns
+        -------
+        f : tensap.FunctionalTensor
+            The learned approximation.
+        output : dict
+            The outputs of the solver.
+
+        """
+        # The data, the settings and the initial guess are those of the user:
+        # the work is done by a copy.
+        solver = copy(self)
+        for name in (
+            "tree_adaptation_options",
+            "rank_adaptation_options",
+            "alternating_minimization_parameters",
+            "rank",
+            "tree",
+            "initial_guess",
+            "linear_model_learning",
+            "bases_adaptation_path",
+        ):
+            if hasattr(self, name):
+                setattr(solver, name, deepcopy(getattr(self, name)))
+        return solver._solve(*args)
+
+    def _solve(self, *args):
+        """
+        Solver for the learning problem with tensor formats, possibly changing
+        self.
+
         Parameters
         ----------
         *args : misc
-- 
2.43.0


From 5f3dfc657c8d875a8f6e00e31b8f36da22857b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 065/108] fix: stored iterates are not changed by the next
 iterations

---
 .../tensor_learning/tensor_learning.py             | 14 ++++++++++----
 .../tensor_learning/tree_based_tensor_learning.py  |  6 ++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 83bb68d..fed1855 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -510,12 +510,14 @@ class TensorLearning(tensap.Learning):
             output["stagnation_criterion"].append(stagnation)
 
             if self.store_iterates:
+                # The iterates are not changed by the next iterations
+                tensor = deepcopy(f.tensor)
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(tensor, self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(tensap.FunctionalTensor(tensor, f.bases))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
@@ -644,10 +646,12 @@ class TensorLearning(tensap.Learning):
                 )
 
             if self.store_iterates:
+                # The iterates are not changed by the next iterations
+                tensor = deepcopy(f.tensor)
                 if isinstance(self.bases, tensap.FunctionalBases):
-                    iterates[iteration] = tensap.FunctionalTensor(f.tensor, self.bases)
+                    iterates[iteration] = tensap.FunctionalTensor(tensor, self.bases)
                 else:
-                    iterates[iteration] = f
+                    iterates[iteration] = tensap.FunctionalTensor(tensor, f.bases)
 
             if self.display:
                 if self.alternating_minimization_parameters["display"]:
@@ -726,6 +730,8 @@ class TensorLearning(tensap.Learning):
                             "\t\tStorage complexity after permutation "
                             + "= %i" % f.tensor.storage()
                         )
+                    if self.store_iterates:
+                        iterates[iteration].tensor = deepcopy(f.tensor)
                     if self.test_error:
                         f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
                         test_errors[iteration] = self.loss_function.test_error(
diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 36a9778..0f26786 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -991,12 +991,14 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             output["stagnation_criterion"].append(stagnation)
 
             if self.store_iterates:
+                # The iterates are not changed by the next iterations
+                tensor = deepcopy(f.tensor)
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(tensor, self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(tensap.FunctionalTensor(tensor, f.bases))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
-- 
2.43.0


From 85e0da59925f8060d7248215e87f0981d2912c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 066/108] fix: rank adaptation with vector outputs and with an
 infinite error at the first iteration

---
 .../tensor_approximation/tensor_learning/tensor_learning.py  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index fed1855..70637fb 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -232,7 +232,8 @@ class TensorLearning(tensap.Learning):
         if (
             self.output_dimension > 1
             and "type" in self.rank_adaptation_options
-            and self.rank_adaptation_options["type"] == "inner"
+            and self.rank_adaptation_options["type"]
+            in ("inner", "dmrg", "dmrg_low_rank")
         ):
             print(
                 "Inner rank adaptation not implemented for "
@@ -632,7 +633,7 @@ class TensorLearning(tensap.Learning):
 
             if "error" in output_local:
                 errors[iteration] = output_local["error"]
-                if np.isinf(errors[iteration]):
+                if np.isinf(errors[iteration]) and iteration > 0:
                     print("Infinite error, returning to the previous iterate.")
                     f = f_old
                     iteration -= 1
-- 
2.43.0


From c179bf2916ce7451788e8bb5b108b2f8cfc514d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 067/108] fix: initial guess of canonical learning is not
 scored, its rank is the rank used

---
 .../canonical_tensor_learning.py              | 51 +++++++++++--------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index da8472a..6d369a5 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -64,24 +64,6 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             print("tree_adaptation not defined for CanonicalTensorLearning.")
             self.tree_adaptation = False
 
-        if (
-            "one_by_one_factor" in self.alternating_minimization_parameters
-            and self.alternating_minimization_parameters["one_by_one_factor"]
-            and self.rank != 1
-        ):
-            self._exploration_strategy = np.arange(
-                1,
-                self.alternating_minimization_parameters["inner_loops"]
-                * self.rank
-                * self.order
-                + 2,
-            )
-            self._number_of_parameters = self._exploration_strategy.size
-        else:
-            self.alternating_minimization_parameters["one_by_one_factor"] = False
-            self._exploration_strategy = np.arange(1, self.order + 2)
-            self._number_of_parameters = self.order + 1
-
         shape = [x.shape[1] for x in self.bases_eval]
         if self.initialization_type == "random":
             f = tensap.CanonicalTensor.randn(self.rank, shape)
@@ -118,7 +100,10 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.algorithm = "greedy"
             s_ini.initialization_type = "mean"
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            s_ini.model_selection = False
+            s_ini.error_estimation = False
+            for linear_solver in np.ravel(s_ini.linear_model_learning):
+                linear_solver.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             f, output_ini = s_ini.solve()
@@ -143,7 +128,10 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.initialization_type = "greedy"
             s_ini.rank = self.rank - len(f.core.data)
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            s_ini.model_selection = False
+            s_ini.error_estimation = False
+            for linear_solver in np.ravel(s_ini.linear_model_learning):
+                linear_solver.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
@@ -162,7 +150,28 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 tr = tensap.Truncator()
                 f = tr.truncate(f)
                 f = tensap.CanonicalTensor(f.space, f.core.data)
-                self.rank = len(f.core.data)
+
+        # The rank is the one of the initialization
+        self.rank = len(f.core.data)
+
+        if (
+            "one_by_one_factor" in self.alternating_minimization_parameters
+            and self.alternating_minimization_parameters["one_by_one_factor"]
+            and self.rank != 1
+        ):
+            self._exploration_strategy = np.arange(
+                1,
+                self.alternating_minimization_parameters["inner_loops"]
+                * self.rank
+                * self.order
+                + 2,
+            )
+            self._number_of_parameters = self._exploration_strategy.size
+        else:
+            self.alternating_minimization_parameters["one_by_one_factor"] = False
+            self._exploration_strategy = np.arange(1, self.order + 2)
+            self._number_of_parameters = self.order + 1
+
         return self, f
 
     def pre_processing(self, f):
-- 
2.43.0


From 74c680fe30e4e8e013090a4a95d6de962604ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 068/108] fix: one factor at a time in canonical learning uses
 the solver of the factor

---
 .../canonical_tensor_learning.py                | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 6d369a5..a068010 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -210,6 +210,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         ), "Method not implemented for this loss function."
         y = self.training_data[1]
         N = self.bases_eval[0].shape[0]
+        number = mu
 
         if mu != self._number_of_parameters:
             if self.alternating_minimization_parameters["one_by_one_factor"]:
@@ -239,8 +240,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 A = self.bases_eval[mu - 1] * np.transpose(
                     np.tile(fH_mu[:, ind - 1], (f.tensor.shape[mu - 1], 1))
                 )
-                if self.linear_model_learning[mu - 1].basis_adaptation:
-                    self.linear_model_learning[mu - 1].basis_adaptation_path = (
+                if self.linear_model_learning[number - 1].basis_adaptation:
+                    self.linear_model_learning[number - 1].basis_adaptation_path = (
                         self.bases_adaptation_path[mu - 1]
                     )
             else:
@@ -248,17 +249,17 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 grad = f.parameter_gradient_eval(mu).transpose([0, 2, 1])
                 A = np.reshape(grad.data, [grad.shape[0], -1], order="F")
 
-                if self.linear_model_learning[mu - 1].basis_adaptation:
-                    self.linear_model_learning[mu - 1].basis_adaptation_path = np.tile(
+                if self.linear_model_learning[number - 1].basis_adaptation:
+                    self.linear_model_learning[number - 1].basis_adaptation_path = np.tile(
                         self.bases_adaptation_path[mu - 1], (self.rank, 1)
                     )
                 elif self.rank > 1:
-                    self.linear_model_learning[mu - 1].options["non_zero_blocks"] = (
+                    self.linear_model_learning[number - 1].options["non_zero_blocks"] = (
                         np.empty(self.rank, dtype=object)
                     )
                     for kk in range(self.rank):
                         shape_mu = f.tensor.shape[mu - 1]
-                        self.linear_model_learning[mu - 1].options["non_zero_blocks"][
+                        self.linear_model_learning[number - 1].options["non_zero_blocks"][
                             kk
                         ] = kk * shape_mu + np.arange(shape_mu)
                 b = y
@@ -269,9 +270,9 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             grad = f.parameter_gradient_eval(mu)
             A = np.reshape(grad.data, [grad.shape[0], -1], order="F")
             b = y
-            self.linear_model_learning[mu - 1].basis_adaptation = False
+            self.linear_model_learning[number - 1].basis_adaptation = False
 
-        self.linear_model_learning[mu - 1].initial_guess = np.reshape(coef, -1)
+        self.linear_model_learning[number - 1].initial_guess = np.reshape(coef, -1)
 
         return self, A, b, f
 
-- 
2.43.0


From 7990e735d9365ae48a95a34bd74a5a553f6c8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 069/108] fix: orthogonal factor of an order two canonical
 tensor keeps the tensor

---
 .../tensor_learning/canonical_tensor_learning.py    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index a068010..5d4e42e 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -288,8 +288,17 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 f.tensor.space[mu - 1] = coef
                 f.tensor.core.data = np.ravel(norm_coef)
 
-                if len(f.tensor.space) == 2 and mu == 1:
-                    f.tensor.space[0] = np.linalg.qr(f.tensor.space[0])[0]
+                if (
+                    len(f.tensor.space) == 2
+                    and mu == 1
+                    and self.rank <= f.tensor.shape[0]
+                ):
+                    # Orthogonal factor, for the same tensor
+                    f.tensor.space[0], r_factor = np.linalg.qr(f.tensor.space[0])
+                    f.tensor.space[1] = np.matmul(
+                        f.tensor.space[1] * f.tensor.core.data, r_factor.T
+                    )
+                    f.tensor.core.data = np.ones(self.rank)
             else:
                 ind = mu
                 mu = int(
-- 
2.43.0


From 3d0a748e5c7114d9144b34c4c3c82f928fe354e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 070/108] fix: greedy canonical learning

---
 .../canonical_tensor_learning.py              | 64 ++++++++++++-------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 5d4e42e..7950efa 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -374,6 +374,9 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         output = {}
         output["sequence"] = np.empty(self.rank, dtype=object)
 
+        # One parameter per dimension, and the core
+        self._number_of_parameters = self.order + 1
+
         # Replication of the LinearModelLearning objects
         if self.linear_model_learning_parameters[
             "identical_for_all_parameters"
@@ -400,6 +403,9 @@ class CanonicalTensorLearning(tensap.TensorLearning):
 
         y = self.training_data[1]
 
+        output["iterates"] = []
+        output["test_error_iterations"] = []
+
         s_local = deepcopy(self)
         s_local.algorithm = "standard"
         s_local.rank = 1
@@ -409,14 +415,17 @@ class CanonicalTensorLearning(tensap.TensorLearning):
 
         f = tensap.CanonicalTensor.zeros(0, [x.shape[1] for x in bases_eval])
         f_0 = deepcopy(f)
-        stagnation = np.zeros((1, self.rank))
+        stagnation = np.zeros(self.rank)
 
         ls_local = deepcopy(
             s_local.linear_model_learning[self._number_of_parameters - 1]
         )
 
+        if self.error_estimation:
+            ls_local.error_estimation = True
+
         is_error = False
-        error = np.ones((1, self.rank))
+        error = np.ones(self.rank)
         pure_greedy = False
         if not pure_greedy:
             for linear_solver in self.linear_model_learning:
@@ -448,24 +457,39 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             current_rank = len(f.core.data)
             output["sequence"][k - 1] = f
 
+            if self.store_iterates:
+                output["iterates"].append(
+                    tensap.FunctionalTensor(
+                        deepcopy(f),
+                        (
+                            self.bases
+                            if isinstance(self.bases, tensap.FunctionalBases)
+                            else bases_eval
+                        ),
+                    )
+                )
+
+            if self.test_error:
+                f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
+                output["test_error"] = self.loss_function.test_error(
+                    f_eval_test, self.test_data
+                )
+                output["test_error_iterations"].append(output["test_error"])
+
             if "error" in output_greedy:
                 error[k - 1] = output_greedy["error"]
                 is_error = True
                 if self.alternating_minimization_parameters["display"]:
                     print(
                         "Alternating minimization (greedy): rank = %i, "
-                        + "error = %2.5e, stagnation = %2.5e",
-                        current_rank,
-                        error[k - 1],
-                        stagnation[k - 1],
+                        "error = %2.5e, stagnation = %2.5e"
+                        % (current_rank, error[k - 1], stagnation[k - 1])
                     )
             else:
                 if self.alternating_minimization_parameters["display"]:
                     print(
                         "Alternating minimization (greedy): rank = %i, "
-                        + "stagnation = %2.5e",
-                        current_rank,
-                        stagnation[k - 1],
+                        "stagnation = %2.5e" % (current_rank, stagnation[k - 1])
                     )
 
             if (
@@ -480,28 +504,20 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 break
 
             f_0 = deepcopy(f)
-            if self.test_error:
-                f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
-                output["test_error"] = self.loss_function.test_error(
-                    f_eval_test, self.test_data
-                )
-                output["test_error_iterations"].append(output["test_error"])
-                if self.display:
-                    print(
-                        "Greedy: iteration %i, test error = %2.5e",
-                        k,
-                        output["test_error"],
-                    )
-
-        output["stagnation"] = stagnation[: k - 1]
+        output["sequence"] = output["sequence"][:k]
+        output["stagnation"] = stagnation[:k]
         if is_error:
-            output["errors"] = error[: k - 1]
+            output["errors"] = output["error_iterations"] = error[:k]
             K = np.argmin(output["errors"])
             f = output["sequence"][K]
             output["selected_iterate"] = K
             output["error"] = output["errors"][K]
+            if self.test_error:
+                output["test_error"] = output["test_error_iterations"][K]
 
         if isinstance(self.bases, tensap.FunctionalBases):
             f = tensap.FunctionalTensor(f, self.bases)
+        else:
+            f = tensap.FunctionalTensor(f, bases_eval)
 
         return f, output
-- 
2.43.0


From c0f273789399bf67e11be7e8a11f245ccb6b932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 071/108] fix: mean initialization of tree based learning

---
 .../tensor_learning/tree_based_tensor_learning.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 0f26786..d139cb8 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -103,7 +103,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
         ):
-            if not np.all(self.rank == 1):
+            if not np.all(self.rank[self.is_active_node] == 1):
                 raise NotImplementedError(
                     "Initialization only implemented " + "if np.all(self.rank == 1)."
                 )
@@ -118,13 +118,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if isinstance(self.bases, tensap.FunctionalBases):
                 means = self.bases.mean()
             else:
-                means = [np.mean(x) for x in self.bases_eval]
+                means = [np.mean(x, 0) for x in self.bases_eval]
             if self.initialization_type == "mean_randomized":
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
-            means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
 
-            f = tensap.TreeBasedTensor.ones(self.tree, self.rank, shape)
-            f.tensors[self.tree.dim2ind - 1] = means
+            f = tensap.TreeBasedTensor.ones(self.tree, np.ones_like(self.rank), shape)
+            for nod, x in zip(self.tree.dim2ind, means):
+                f.tensors[nod - 1] = tensap.FullTensor(x, 2, [np.size(x), 1])
             nb_child = len(self.tree.children(self.tree.root))
             if np.ndim(self.training_data[1]) == 2:
                 shape = np.concatenate(
-- 
2.43.0


From 164c7b2a364d33677da80b82d6876d301fa8b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 072/108] fix: random exploration strategy of tree based
 learning

---
 .../tensor_learning/tree_based_tensor_learning.py     | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index d139cb8..b61d3ea 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -186,14 +186,11 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters)
+        strategy = np.array(self._exploration_strategy)
         for level in np.arange(np.max(self.tree.level), -1, -1):
-            active_nodes = np.intersect1d(
-                self.tree.nodes_with_level(level), np.nonzero(self.is_active_node)[0]
-            )
-            _, ind = np.intersect1d(
-                self._exploration_strategy, active_nodes, return_indices=True
-            )
+            ind = np.nonzero(
+                np.isin(self._exploration_strategy, self.tree.nodes_with_level(level))
+            )[0]
             strategy[ind] = self._exploration_strategy[np.random.permutation(ind)]
         return strategy
 
-- 
2.43.0


From 0c73f6b3915a97edcda64657066dd60ba46cfd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 073/108] fix: rank selection without rank one correction

---
 .../tensor_learning/tree_based_tensor_learning.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index b61d3ea..af53031 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -488,8 +488,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             s_local.display = False
             s_local.alternating_minimization_parameters["display"] = False
             tensor_for_selection = s_local.solve()[0].tensor
+            rank_for_selection = s_local.rank
         else:
             tensor_for_selection = f.tensor
+            rank_for_selection = f.tensor.ranks
 
         sin_val = tensor_for_selection.singular_values()
 
@@ -502,7 +504,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         dim2ind = np.intersect1d(f.tensor.tree.dim2ind, f.tensor.active_nodes)
         ind = [len(set(x.size)) == 1 for x in f.tensor.tensors[dim2ind - 1]]
         sin_val[dim2ind[ind] - 1] = np.nan
-        sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
+        sin_val[rank_for_selection != tensor_for_selection.ranks] = np.nan
 
         sin_val_min = np.array([np.min(x) for x in sin_val])
         sin_val_min[
-- 
2.43.0


From c4b61fc198f62bd6ee1271ee015194d9b1d230f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 074/108] fix: inner rank adaptation with a tree reduced to its
 root and after a change of core

---
 .../tensor_learning/tree_based_tensor_learning.py           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index af53031..098437f 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -661,6 +661,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         ):
             self.rank_adaptation_options["model_selection_type"] = "cv_error"
 
+        if np.count_nonzero(self.is_active_node) == 1:
+            # The root has no rank to adapt
+            return self._solve_standard()
+
         if self.display:
             self.alternating_minimization_parameters["display"] = True
 
@@ -951,6 +955,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 f.tensor.tensors[gamma - 1] = tensap.FullTensor(
                     a_gamma, np.size(sz_2), sz_2
                 )
+                f.tensor = f.tensor.update_attributes()
+                f.tensor.is_orth = False
 
             if self.rank_adaptation_options["post_alternating_minimization"]:
                 print("\t\tPost alternating minimization.")
-- 
2.43.0


From cc68ffc20446f2a80cfe35ddb95d7ca8fa4abe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 075/108] fix: random enrichment of the ranks takes the right
 nodes and leaves the tensor alone

---
 .../tensor_learning/tree_based_tensor_learning.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 098437f..446e96d 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1245,9 +1245,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             The enriched tree-based tensor.
 
         """
+        f = deepcopy(f)
         f.is_orth = False
         tree = f.tree
-        enriched_dims = np.nonzero(new_rank > f.ranks)[0]
+        enriched_dims = np.nonzero(new_rank > f.ranks)[0] + 1
 
         for level in np.arange(1, np.max(tree.level) + 1):
             nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_dims)
-- 
2.43.0


From db3a033ad312f1380b7f1c4bf42f0d1b0f067da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 076/108] fix: parameter gradient with vector outputs and
 inactive nodes

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index e79a704..85e4f67 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -593,7 +593,7 @@ class FunctionalTensor(tensap.Function):
             else:
                 perm_2 = [fH.tensors[alpha - 1].order]
 
-            if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+            if alpha != tree.root and fH.ranks[tree.root - 1] > 1:
                 perm_3 = [grad.order - 1]
             else:
                 perm_3 = []
-- 
2.43.0


From 0157fd8567a57c11a9529d05c6663ea464101c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 077/108] fix: orthonormalizing an already orthonormal basis
 leaves it untouched

---
 tensap/approximation/bases/functional_basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index f2dcfa0..adda526 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -21,6 +21,7 @@ Module functional_basis.
 """
 
 from abc import abstractmethod
+from copy import deepcopy
 from scipy.sparse import diags
 import numpy as np
 import tensap
@@ -436,10 +437,11 @@ class FunctionalBasis:
 
         """
         G = self.gram_matrix()
-        out = self
         if np.linalg.norm(G - np.eye(G.shape[0]), 2):
             A = np.linalg.inv(np.linalg.cholesky(G))
             out = tensap.SubFunctionalBasis(self, np.transpose(A))
+        else:
+            out = deepcopy(self)
         out.is_orthonormal = True
         return out
 
-- 
2.43.0


From a10e397630bf50284eaca18026aa061a267ffbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:57 +0000
Subject: [PATCH 078/108] fix: parameter gradient for nodes without siblings

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index fe90178..cd1166e 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2183,6 +2183,13 @@ class TreeBasedTensor:
                     diag_below[tree.root - 1].shape
                 )
 
+        # Number of evaluations, along the dimensions not attached to alpha
+        own = [] if alpha is None else np.append(tree.children(alpha), alpha)
+        nb_eval = [
+            self.shape[dim] for dim, nod in enumerate(tree.dim2ind) if nod not in own
+        ]
+        nb_eval = nb_eval[0] if nb_eval else 1
+
         for level in np.arange(1, np.max(tree.level) + 1):
             nod_level = reduce(
                 tensap.fast_intersect,
@@ -2213,6 +2220,11 @@ class TreeBasedTensor:
                             np.arange(1, tmp.order),
                             tree.child_number(active_ch) - 1,
                         )
+                elif inactive_ch.size == 0:
+                    # The node has no sibling to be evaluated
+                    diag_above[nod - 1] = tensap.FullTensor(
+                        np.repeat([tensors[parent - 1].data], nb_eval, axis=0)
+                    )
                 elif tree.child_number(inactive_ch).size != 1:
                     diag_above[nod - 1] = tensors[parent - 1].eval_diag(
                         tree.child_number(inactive_ch) - 1
-- 
2.43.0


From 1531e129ab75be44f384f74945b023b500a957a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 079/108] fix: is_active_dim of a single dimension

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index cd1166e..a0a75eb 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -226,7 +226,7 @@ class TreeBasedTensor:
         """
         result = np.isin(self.tree.dim2ind[dim], self.active_nodes)
         if result.size == 1:
-            result = result[0]
+            result = result.item()
         return result
 
     def __repr__(self):
-- 
2.43.0


From 98e868f984def858a40392c096170c73631311fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 080/108] fix: projection of matrix-valued functional basis
 arrays

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 859e7f7..93aff81 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -619,7 +619,7 @@ class FunctionalBasisArray(tensap.Function):
         ):
             d = np.zeros((basis.cardinal(), np.prod(self.shape)))
             _, ia, ib = self.basis.indices.intersect_indices(indices)
-            d[ib, :] = self.data[ia, :]
+            d[ib, :] = np.reshape(self.data[ia], [-1, d.shape[1]], order="F")
             if np.ndim(self.data) != np.ndim(d):
                 d = np.reshape(
                     d, np.concatenate(([basis.cardinal()], self.shape)), order="F"
-- 
2.43.0


From 80dad94621dca5bc3074f04828af2df92b12a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:09 +0000
Subject: [PATCH 081/108] fix: gradient of merged cores when the node has no
 siblings

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index a0a75eb..b57f407 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2383,6 +2383,8 @@ class TreeBasedTensor:
         active_ch = children[self.is_active_node[children - 1]]
         inactive_ch = tensap.fast_setdiff(children, active_ch)
 
+        if children.size == 0:
+            g_gamma = tensap.FullTensor.ones(w_gamma.shape[0])
         if active_ch.size != 0:
             g_gamma = u_gamma[active_ch[0] - 1]
             for child in np.arange(1, active_ch.size):
-- 
2.43.0


From 0f3d3ab7765d3895ca80b09ac596c4d47d1ee2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 082/108] fix: density loss turns a lack of memory into nan

---
 tensap/approximation/learning/loss_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index 03f2d0d..e558269 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -228,10 +228,12 @@ class DensityL2LossFunction(LossFunction):
 
         try:
             l_ref = fun.norm() ** 2
+        except MemoryError:
+            raise
         except Exception:
-            try:
+            if args:
                 l_ref = args[0] ** 2
-            except Exception:
+            else:
                 print(
                     "Input fun must have a method norm, or its norm "
                     + "must be provided in last argument."
-- 
2.43.0


From e240ba7ac1bf77778226c0c2d2fb2cbac1153f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 083/108] fix: density learning has the test error of a
 density, not of a regression

---
 .../learning/linear_model_learning_density_l2.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 119f335..a51a1c8 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -46,7 +46,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         None.
 
         """
-        super().__init__(tensap.SquareLossFunction())
+        super().__init__(tensap.DensityL2LossFunction())
 
         self.is_basis_orthonormal = True
 
@@ -77,7 +77,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         if self.test_error:
             f_eval = np.matmul(self.basis_eval_test, sol)
             output["test_error"] = self.loss_function.test_error(
-                f_eval, self.test_data, sol.norm() ** 2
+                f_eval, self.test_data, np.linalg.norm(sol)
             )
 
         if self.basis is not None:
-- 
2.43.0


From 88487f6ccb5a2a126953f017471543d6541c15b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 084/108] fix: density learning keeps included coefficients
 with an offset

---
 .../approximation/learning/linear_model_learning_density_l2.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index a51a1c8..616b03e 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -191,7 +191,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
                     / (N * (N - 1) ** 2)
                     * np.sum(np.ravel(A_square_sum)[incl_coef])
                     - 2 / (N - 1) * np.sum(np.matmul(A, sol_incl_coef))
-                    + 2 * np.sum(sol_incl_coef * b_incl_coef)
+                    + 2 * np.sum(sol_standard[incl_coef] * b_incl_coef)
                 )
 
         if list_sort.size == 0:
-- 
2.43.0


From 0cf9d480f93b07fd5bc6f70e6ec60fbb1acb93e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 085/108] fix: gradient of merged cores when only dimensions of
 the node lie below

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index b57f407..83f9661 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2144,7 +2144,7 @@ class TreeBasedTensor:
 
         return diag_below
 
-    def eval_diag_above(self, diag_below=None, alpha=None):
+    def eval_diag_above(self, diag_below=None, alpha=None, except_nodes=[]):
         """
         Evaluate the diagonal of the tensor of the function w^\alpha of the
         representation
@@ -2160,6 +2160,9 @@ class TreeBasedTensor:
             A node of the tree, including it and its ascendants in the
             computation of the functions w^beta. The default is None,
             indicating that all the nodes are included.
+        except_nodes : list or numpy.ndarray, optional
+            The nodes excluded from the computation of diag_below. The default
+            is [].
 
         Returns
         -------
@@ -2184,7 +2187,11 @@ class TreeBasedTensor:
                 )
 
         # Number of evaluations, along the dimensions not attached to alpha
-        own = [] if alpha is None else np.append(tree.children(alpha), alpha)
+        # nor to the excluded nodes
+        own = np.atleast_1d(except_nodes).astype(int)
+        if alpha is not None:
+            own = np.append(own, alpha)
+        own = np.concatenate([own] + [tree.children(nod) for nod in own])
         nb_eval = [
             self.shape[dim] for dim, nod in enumerate(tree.dim2ind) if nod not in own
         ]
@@ -2377,7 +2384,7 @@ class TreeBasedTensor:
 
         gamma = tree.parent(alpha)
         u_gamma = self.eval_diag_below(gamma, alpha)
-        w_gamma = self.eval_diag_above(u_gamma, gamma)
+        w_gamma = self.eval_diag_above(u_gamma, gamma, alpha)
 
         children = tensap.fast_setdiff(tree.children(gamma), alpha)
         active_ch = children[self.is_active_node[children - 1]]
-- 
2.43.0


From 47afd57d2ea8394b3f44b9ee9a868bcc8cfe7cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:18 +0000
Subject: [PATCH 086/108] fix: change_root keeps claiming orthogonality for the
 previous root

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 83f9661..f55bb3b 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -642,6 +642,8 @@ class TreeBasedTensor:
                 r = np.concatenate([np.where(chp == l0)[0] for l0 in chnew])
                 x.tensors[nod - 1] = x.tensors[nod - 1].transpose(r)
             x.tree = tnew
+            # The representation is orthogonal for the previous root
+            x.is_orth = x.is_orth and x.orth_node == nod
             x = x.update_attributes()
         return x
 
-- 
2.43.0


From 3c3ee6c59d073fa8ed11064d2c94adf7ea94f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 087/108] fix: orthonormal polynomials without stored
 recurrence cannot be compared

---
 .../polynomials/orthonormal_polynomials.py          | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index b77c906..c0e1b93 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -64,17 +64,8 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         if not isinstance(poly_2, OrthonormalPolynomials):
             out = False
         else:
-            out = (
-                self.measure == poly_2.measure
-                and np.array_equal(
-                    self._recurrence_coefficients, poly_2._recurrence_coefficients
-                )
-                and np.array_equal(
-                    self._orthogonal_polynomials_norms,
-                    poly_2._orthogonal_polynomials_norms,
-                )
-                and self.is_orthonormal == poly_2.is_orthonormal
-            )
+            # The measure determines the family
+            out = type(self) is type(poly_2) and self.measure == poly_2.measure
         return out
 
     def domain(self):
-- 
2.43.0


From 58ec90eac158fe577120683ce90c5f1dd17b3610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 088/108] fix: evaluation on a grid in some dimensions calls a
 function numpy does not have

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 85e4f67..da91620 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -805,7 +805,7 @@ class FunctionalTensor(tensap.Function):
             out = deepcopy(self)
             out.tensor = self.tensor.tensor_matrix_product(H, dims)
             out.bases = out.bases.remove_bases(dims)
-            out.fdims = out.fdims[np.setdiff1d(np.range(np.size(out.fdims)), dims)]
+            out.fdims = out.fdims[np.setdiff1d(range(np.size(out.fdims)), dims)]
             if np.size(out.fdims) == 0:
                 out = out.tensor
         return out
-- 
2.43.0


From a3a6fe56002ca038feeefe5290733e945049dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 089/108] fix: sum of functional tensors is defined under a
 name Python never calls

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index da91620..3a9246e 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -97,7 +97,7 @@ class FunctionalTensor(tensap.Function):
             self.measure = self.bases.measure
             self.dim = np.sum(self.bases.ndim())
 
-    def __plus__(self, y):
+    def __add__(self, y):
         if isinstance(y, FunctionalTensor) and self.bases == y.bases:
             tensor = self.tensor + y.tensor
         else:
-- 
2.43.0


From c20f5b7031bf2327db6e7054380016a2badc1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 090/108] fix: norm and dot product of functional tensors call
 a missing method of the bases

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 3a9246e..a1104be 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -242,7 +242,7 @@ class FunctionalTensor(tensap.Function):
                     + "order, must specify fdims."
                 )
         if self.bases == f_2.bases:
-            gram_matrix = self.bases.gram_matrix(fdims, *measure)
+            gram_matrix = self.bases.gram_matrices(fdims, *measure)
         else:
             raise NotImplementedError("Method not implemented.")
         tensor = self.tensor.tensor_matrix_product(gram_matrix, fdims)
@@ -269,7 +269,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         if not self.evaluated_bases:
-            gram_matrix = self.bases.gram_matrix(range(self.tensor.order), *measure)
+            gram_matrix = self.bases.gram_matrices(range(self.tensor.order), *measure)
         else:
             gram_matrix = [np.eye(x.shape[1]) for x in self.bases]
         tensor = self.tensor.tensor_matrix_product(
-- 
2.43.0


From 8453de555d9cdfe76317dc44965902aad2aece95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 091/108] fix: gradient of a functional tensor calls a missing
 method

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index a1104be..7619084 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -749,12 +749,12 @@ class FunctionalTensor(tensap.Function):
         """
         g = []
         for ind in range(self.bases.length()):
-            n = self.length() * [0]
+            n = self.bases.length() * [0]
             n[ind] = 1
             dHx = self.bases.eval_derivative(n, x)
             y = self.eval_with_bases_evals(dHx)
             g.append(y)
-        out = np.concatenate(g, axis=1)
+        out = np.stack(g, axis=1)
         return out
 
     def derivative(self, n):
-- 
2.43.0


From fe08b3d3dc9ff3e01ab51518042d563321d6b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:32 +0000
Subject: [PATCH 092/108] fix: a selection of bases keeps the measure of all
 the variables

---
 tensap/approximation/bases/functional_bases.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1739018..f516fb8 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -193,8 +193,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = np.delete(self.bases, ind)
-        return out
+        out.bases = np.delete(out.bases, ind)
+        return out._with_measure(np.delete(range(self.length()), ind))
 
     def keep_bases(self, ind):
         """
@@ -213,7 +213,7 @@ class FunctionalBases:
         """
         out = deepcopy(self)
         out.bases = out.bases[ind]
-        return out
+        return out._with_measure(np.arange(self.length())[ind])
 
     def transpose(self, perm):
         """
@@ -232,7 +232,12 @@ class FunctionalBases:
         """
         out = deepcopy(self)
         out.bases = out.bases[perm]
-        return out
+        return out._with_measure(np.arange(self.length())[perm])
+
+    def _with_measure(self, ind):
+        # The measure of a selection of bases is that of their variables
+        self.measure = self.measure.marginal(np.atleast_1d(ind))
+        return self
 
     def __eq__(self, bases_2):
         if not isinstance(bases_2, FunctionalBases):
-- 
2.43.0


From a1ecceaee2eda21c9556a142a8adc4af494277a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:32 +0000
Subject: [PATCH 093/108] fix: tensor product bases keep the measure of
 variables that were removed or permuted

---
 .../bases/full_tensor_product_functional_basis.py              | 3 +++
 .../bases/sparse_tensor_product_functional_basis.py            | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 06bd22d..ff82474 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -116,6 +116,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = out.bases.measure
         return out
 
     def keep_bases(self, ind):
@@ -135,6 +136,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = out.bases.measure
         return out
 
     def remove_mapping(self, ind):
@@ -162,6 +164,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
         return out
 
     def mean(self, *args):
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66bfa28..4e4f11b 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -117,6 +117,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = out.bases.measure
         return out
 
     def keep_bases(self, ind):
@@ -136,6 +137,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = out.bases.measure
         return out
 
     def remove_mapping(self, ind):
@@ -163,6 +165,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
         return out
 
     def mean(self, *args):
-- 
2.43.0


From bda1a97c3daf39d5d276ff55bb03869af6ac615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:03 +0000
Subject: [PATCH 094/108] fix: mean of shifted polynomials under another
 measure ignores the shift

---
 .../polynomials/orthonormal_polynomials.py      | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index c0e1b93..4b32268 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -340,17 +340,16 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         return self.shift + self.scaling * self.polynomials.truncated_domain()
 
     def mean(self, ind, *measure):
-        return self.polynomials.mean(ind, *measure)
+        return self.polynomials.mean(ind, *self._standardized(*measure))
 
     def moment(self, ind, *measure):
-        if measure:
-            if measure[0] == self.measure:
-                measure = ()
-            else:
-                measure = tuple(
-                    [measure[0].shift(-self.shift / self.scaling, 1 / self.scaling)]
-                )
-        return self.polynomials.moment(ind, *measure)
+        return self.polynomials.moment(ind, *self._standardized(*measure))
+
+    def _standardized(self, measure=None):
+        # The measure of the variable of self.polynomials
+        if measure is None or measure == self.measure:
+            return ()
+        return (measure.shift(-self.shift / self.scaling, 1 / self.scaling),)
 
     def _normalization(self):
         # The shift changes the mass of a measure that is not a probability
-- 
2.43.0


From 1f71a5c4e69872ad6a741568bbce1851140cca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:03 +0000
Subject: [PATCH 095/108] fix: dimensions given by booleans are taken as
 indices

---
 tensap/approximation/bases/functional_basis_array.py          | 2 +-
 .../bases/sparse_tensor_product_functional_basis.py           | 2 +-
 tensap/functions/functional_tensor.py                         | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 93aff81..d09d90b 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -392,7 +392,7 @@ class FunctionalBasisArray(tensap.Function):
         v = np.zeros((np.shape(alpha)[0], np.prod(self.shape)))
         for i in range(np.shape(alpha)[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if u.dtype == bool:
                 u = np.nonzero(u)[0]
 
             if np.size(u) == 0:
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 4e4f11b..9607cc2 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -177,7 +177,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def conditional_expectation(self, dims, *args):
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if dims.dtype == bool:
             dims = np.nonzero(dims)[0]
 
         dims_C = np.setdiff1d(range(self.ndim()), dims)
diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 7619084..93d6be6 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -306,7 +306,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if dims.dtype == bool:
             dims = np.nonzero(dims)[0]
 
         d = self.tensor.order
@@ -358,7 +358,7 @@ class FunctionalTensor(tensap.Function):
         v = np.zeros(alpha.shape[0])
         for i in range(alpha.shape[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if u.dtype == bool:
                 u = np.nonzero(u)[0]
             if u.size == 0:
                 v[i] = 0
-- 
2.43.0


From 2ff4b5972649faed8ddd0a726c247d74827408af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:03 +0000
Subject: [PATCH 096/108] fix: conditional expectation with respect to all the
 variables raises

---
 .../bases/sparse_tensor_product_functional_basis.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 9607cc2..4d253bc 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -208,7 +208,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         else:
             h = tensap.FunctionalBasisArray(
-                np.eye(self.cardinal()), self, [self.cardinal(), 1]
+                np.eye(self.cardinal()), self, self.cardinal()
             )
         return h
 
-- 
2.43.0


From d11934f6c907418e6ecaa74e3dc9b6e5759395e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:45 +0000
Subject: [PATCH 097/108] fix: shift of a normal random variable does not scale
 its mean

---
 tensap/functions/measures/normal_random_variable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/normal_random_variable.py b/tensap/functions/measures/normal_random_variable.py
index 5f4b2fa..5a98470 100644
--- a/tensap/functions/measures/normal_random_variable.py
+++ b/tensap/functions/measures/normal_random_variable.py
@@ -126,8 +126,8 @@ class NormalRandomVariable(tensap.RandomVariable):
         Shift the normal random variable using the provided bias and scaling
         factor.
 
-        The mean mu of the random variable becomes mu + bias, and its standard
-        deviation sigma becomes sigma * scaling.
+        The mean mu of the random variable becomes scaling * mu + bias, and its
+        standard deviation sigma becomes scaling * sigma.
 
         Parameters
         ----------
@@ -143,7 +143,7 @@ class NormalRandomVariable(tensap.RandomVariable):
 
         """
         shifted_rv = tensap.NormalRandomVariable(self.mu, self.sigma)
-        shifted_rv.mu += bias
+        shifted_rv.mu = scaling * shifted_rv.mu + bias
         shifted_rv.sigma *= scaling
         return shifted_rv
 
-- 
2.43.0


From b08e918902bff8076b2c1f6d8e59f58ed04c53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:45 +0000
Subject: [PATCH 098/108] fix: inner product of tree-based tensors of order one
 raises

---
 .../tensor_algebra/tensors/tree_based_tensor.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index f55bb3b..7287ab8 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1898,9 +1898,10 @@ class TreeBasedTensor:
             if self.is_active_node[nod - 1]:
                 tmp = tensors2[nod - 1].tensor_matrix_product(out[nod - 1], 0)
                 out[nod - 1] = tensors1[nod - 1].tensordot(tmp, 0, 0)
-                out[nod - 1] = out[nod - 1].reshape(
-                    [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
-                )
+                if nod != tree.root:
+                    out[nod - 1] = out[nod - 1].reshape(
+                        [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
+                    )
                 out[nod - 1] = out[nod - 1].numpy()
 
         for level in np.arange(np.max(tree.level) - 1, -1, -1):
@@ -1922,10 +1923,7 @@ class TreeBasedTensor:
                         [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
                     )
                 out[nod - 1] = out[nod - 1].numpy()
-        out = out[nod_level - 1]
-        if out.size == 1:
-            out = out[0]
-        return out
+        return out[tree.root - 1]
 
     def tensordot_matrix_product_except_dim(self, tensor2, matrices, dim):
         """
@@ -2510,7 +2508,10 @@ class TreeBasedTensor:
                 self.shape[dim] = self.tensors[parent_nod - 1].shape[ind - 1]
             else:
                 self.shape[dim] = self.tensors[nod - 1].shape[0]
-                self.ranks[nod - 1] = self.tensors[nod - 1].shape[-1]
+                if self.tensors[nod - 1].order == 1:
+                    self.ranks[nod - 1] = 1
+                else:
+                    self.ranks[nod - 1] = self.tensors[nod - 1].shape[-1]
         return self
 
     @staticmethod
-- 
2.43.0


From ab1a7be72ec647e520c12f8ccfa423e6cbe8d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:45 +0000
Subject: [PATCH 099/108] fix: derivative of polynomials of degree lower than
 its order raises

---
 tensap/approximation/bases/polynomial_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 97f81fc..b464e34 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -168,7 +168,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
 
-        nb_pts = int(np.ceil(np.max(self.indices) - (k - 1) / 2))
+        nb_pts = max(int(np.ceil(np.max(self.indices) - (k - 1) / 2)), 1)
         int_rule = measure.gauss_integration_rule(nb_pts)
 
         def fun(x):
-- 
2.43.0


From f9b84c629878ceb5273ce464b2c781386b0d75de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:45 +0000
Subject: [PATCH 100/108] fix: product of functional tensors

---
 tensap/approximation/bases/functional_bases.py           | 4 +++-
 .../approximation/bases/polynomial_functional_basis.py   | 9 ++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index f516fb8..e701e94 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -174,7 +174,9 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = [x.kron(y) for x, y in zip(self.bases, g.bases)]
+        out.bases = np.empty(len(self.bases), dtype=object)
+        for i, (x, y) in enumerate(zip(self.bases, g.bases)):
+            out.bases[i] = x.kron(y)
         return out
 
     def remove_bases(self, ind):
diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index b464e34..67b01bc 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -121,7 +121,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
     def kron(self, q):
         m = np.max(self.indices) + np.max(q.indices)
-        b = PolynomialFunctionalBasis(self.basis, range(m))
+        b = PolynomialFunctionalBasis(self.basis, range(m + 1))
         b.measure = self.measure
 
         def fun(x):
@@ -131,13 +131,12 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
                     np.transpose(np.expand_dims(q.eval(x), 2), [0, 2, 1]),
                     (1, self.cardinal(), 1),
                 ),
-                (np.shape(x)[0], self.cardinal() * q.cardinal()),
-                order="F",
+                (np.size(x), self.cardinal() * q.cardinal()),
             )
 
         measure = b.measure
-        int_rule = measure.gauss_integration_rule(2 * m)
-        return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
+        int_rule = measure.gauss_integration_rule(m + 1)
+        return tensap.SubFunctionalBasis(b, b.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
         """
-- 
2.43.0


From 0a5040b1dd34c6e855c5c7d3b77cfd63ba4a53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:53 +0000
Subject: [PATCH 101/108] fix: means of a full product basis are not in the
 order of its functions

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index ff82474..bc9a02d 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -170,7 +170,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def mean(self, *args):
         H = self.bases.mean(None, *args)
         H = tensap.CanonicalTensor([np.reshape(x, [-1, 1]) for x in H], [1])
-        return np.ravel(H.full().numpy())
+        return np.ravel(H.full().numpy(), order="F")
 
     def conditional_expectation(self, dims, *args):
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
-- 
2.43.0


From 1a887d24301b04499432907c119a166bf4b1e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:15 +0000
Subject: [PATCH 102/108] fix: derivatives of the functions of a
 SubFunctionalBasis

---
 tensap/approximation/bases/sub_functional_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 4fceb56..8f3b040 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -140,7 +140,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             self.basis of degrees in self.indices at points x.
 
         """
-        return np.matmul(self.underlying_basis.eval_derivative(x, n), self.basis)
+        return np.matmul(self.underlying_basis.eval_derivative(n, x), self.basis)
 
     def derivative(self, n):
         """
@@ -180,7 +180,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
 
         """
         jac = self.underlying_basis.eval_jacobian(x)
-        out = np.einsum("ij,ajk", self.basis, jac)
+        out = np.einsum("ij,kil->kjl", self.basis, jac)
         return out
 
     def mean(self):
-- 
2.43.0


From edd38d8a74326b069c951bff54d0f49beb0ca140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:15 +0000
Subject: [PATCH 103/108] fix: mean of a SubFunctionalBasis under another
 measure raises

---
 tensap/approximation/bases/sub_functional_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 8f3b040..ae739b9 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -183,8 +183,8 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
         out = np.einsum("ij,kil->kjl", self.basis, jac)
         return out
 
-    def mean(self):
-        return np.matmul(self.underlying_basis.mean(), self.basis)
+    def mean(self, *args):
+        return np.matmul(self.underlying_basis.mean(*args), self.basis)
 
     def gram_matrix(self):
         return self.basis.T @ self.underlying_basis.gram_matrix() @ self.basis
-- 
2.43.0


From 2ed9ba45c6810897c5801403f097695fdef23104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:43 +0000
Subject: [PATCH 104/108] fix: functional dimensions after evaluation in
 several of the variables

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 93d6be6..d9f90ed 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -886,7 +886,7 @@ class FunctionalTensor(tensap.Function):
                 bases_eval, fdims_eval
             )
             fdims_eval.sort()
-            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[2:])
+            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[1:])
             if out.tensor.shape[fdims_eval[0]] == 1:
                 out.tensor = out.tensor.squeeze(fdims_eval[0])
                 old_dims = np.delete(old_dims, fdims_eval[0])
-- 
2.43.0


From 22d09a602cf529e3240fbd867ecef0d6de412d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:43 +0000
Subject: [PATCH 105/108] fix: mean of tensor-valued functional tensors raises

---
 tensap/functions/functional_tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index d9f90ed..7741808 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -134,7 +134,8 @@ class FunctionalTensor(tensap.Function):
 
         """
         bases_eval = self.bases.mean(None, *measure)
-        return self.tensor.tensor_vector_product(bases_eval, self.fdims).tolist()
+        out = self.tensor.tensor_vector_product(bases_eval, self.fdims)
+        return out.tolist() if hasattr(out, "tolist") else out
 
     def expectation(self, *measure):
         """
-- 
2.43.0


From 97a7394b82a321d8a2dc2ad8a4ac4567b09f8616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:43 +0000
Subject: [PATCH 106/108] fix: evaluation on a grid ignores the functional
 dimensions

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 7741808..b11da4c 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -801,10 +801,10 @@ class FunctionalTensor(tensap.Function):
         H = self.bases.eval(x, dims)
 
         if np.size(dims) == self.tensor.order:
-            out = self.tensor.tensor_matrix_product(H, dims)
+            out = self.tensor.tensor_matrix_product(H, self.fdims[dims])
         else:
             out = deepcopy(self)
-            out.tensor = self.tensor.tensor_matrix_product(H, dims)
+            out.tensor = self.tensor.tensor_matrix_product(H, self.fdims[dims])
             out.bases = out.bases.remove_bases(dims)
             out.fdims = out.fdims[np.setdiff1d(range(np.size(out.fdims)), dims)]
             if np.size(out.fdims) == 0:
-- 
2.43.0


From ac9c3316c2da8778a9eb6c6394373e988522b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:43 +0000
Subject: [PATCH 107/108] fix: gradient of tensor-valued functional tensors
 raises

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index b11da4c..6f5843e 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -754,7 +754,7 @@ class FunctionalTensor(tensap.Function):
             n[ind] = 1
             dHx = self.bases.eval_derivative(n, x)
             y = self.eval_with_bases_evals(dHx)
-            g.append(y)
+            g.append(y if isinstance(y, np.ndarray) else y.numpy())
         out = np.stack(g, axis=1)
         return out
 
-- 
2.43.0


From 9de88fbacc522d6f092c5ca971013179f85f0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:46 +0000
Subject: [PATCH 108/108] fix: order of the variances of conditional
 expectations of array-valued functions

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index d09d90b..d7e170e 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -400,7 +400,7 @@ class FunctionalBasisArray(tensap.Function):
             else:
                 mi = self.conditional_expectation(u)
                 vi = mi.dot_product_expectation(mi) - m**2
-                v[i, :] = np.ravel(vi)
+                v[i, :] = np.ravel(vi, order="F")
 
         return np.reshape(
             v, np.concatenate(([np.shape(alpha)[0]], self.shape)), order="F"
-- 
2.43.0

