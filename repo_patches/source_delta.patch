From beecd1fceb2437940e4cba31ca243b6af535ad03 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 01/44] fix: is_not_constant ignored the first value of a
 column

A column such as [1, 2] or [1, 2, 2] was reported as constant, so leaves that
can be split were not offered for splitting.
---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index baf8e7b..9daa97e 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -24,7 +24,7 @@ def is_not_constant(series: np.ndarray) -> bool:
     if len(series) <= 1:
         return False
     first_value = None
-    for i in range(1, len(series)):
+    for i in range(len(series)):
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-- 
2.43.0


From 6ad35e4a53f1112ebb8a977f844f612b02808cb4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 02/44] fix: fresh trees had their target set to None

The result of update_y (None) was fed back into update_y.
---
 bartpy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index b1f1742..cac2d2b 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -44,7 +44,7 @@ class Model:
     def initialize_trees(self) -> List[Tree]:
         trees = [Tree([LeafNode(Split(deepcopy(self.data)))]) for _ in range(self.n_trees)]
         for tree in trees:
-            tree.update_y(tree.update_y(self.data.y.values / self.n_trees))
+            tree.update_y(self.data.y.values / self.n_trees)
         return trees
 
     def residuals(self) -> np.ndarray:
-- 
2.43.0


From 14f3903e372c92ac5c07a2a02f4fbd0ac283ea29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 03/44] fix: size the in-sample prediction by all rows, not by
 the first listed node

After a move the first node in the list need not be the root, so predicting a
grown tree for the first time failed.
---
 bartpy/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index fb6b58f..98e43ba 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -85,7 +85,7 @@ class Tree:
             return self._prediction
         for leaf in self.leaf_nodes:
             if self._prediction is None:
-                self._prediction = np.zeros(self.nodes[0].data.X.n_obsv)
+                self._prediction = np.zeros(len(leaf.split.condition()))
             self._prediction[leaf.split.condition()] = leaf.predict()
         self.cache_up_to_date = True
         return self._prediction
-- 
2.43.0


From 8f63c294ab577bfa17817dce48b09582299d8a03 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 04/44] fix: predictions were stale after a leaf value changed

The cached tree prediction only noticed moves and target updates, and the
running total of a sweep was carried over from the previous one, so a leaf
value set after a prediction, or between sweeps, was ignored.
---
 bartpy/model.py | 3 +--
 bartpy/tree.py  | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index cac2d2b..d516e74 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -69,8 +69,7 @@ class Model:
         return self._trees
 
     def refreshed_trees(self) -> Generator[Tree, None, None]:
-        if self._prediction is None:
-            self._prediction = self.predict()
+        self._prediction = self.predict()
         for tree in self._trees:
             self._prediction -= tree.predict()
             tree.update_y(self.data.y.values - self._prediction)
diff --git a/bartpy/tree.py b/bartpy/tree.py
index 98e43ba..a00d710 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -25,6 +25,7 @@ class Tree:
         self._nodes = nodes
         self.cache_up_to_date = False
         self._prediction = None
+        self._predicted_values = None
 
     @property
     def nodes(self) -> List[TreeNode]:
@@ -81,12 +82,14 @@ class Tree:
         if X is not None:
             return self._out_of_sample_predict(X)
 
-        if self.cache_up_to_date:
+        leaf_values = [leaf.predict() for leaf in self.leaf_nodes]
+        if self.cache_up_to_date and leaf_values == self._predicted_values:
             return self._prediction
         for leaf in self.leaf_nodes:
             if self._prediction is None:
                 self._prediction = np.zeros(len(leaf.split.condition()))
             self._prediction[leaf.split.condition()] = leaf.predict()
+        self._predicted_values = leaf_values
         self.cache_up_to_date = True
         return self._prediction
 
-- 
2.43.0


From 65ef6eeff01a7d78f393347557d8f542dd5a9513 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 05/44] fix: stored trees kept links to the live nodes

Decision nodes of a stored sample pointed at children of the live tree, whose
values change with later sampling.
---
 bartpy/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index a00d710..e169d25 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -174,4 +174,9 @@ def deep_copy_tree(tree: Tree):
     Tree
         Version of the tree optimized to be low memory
     """
-    return Tree([deep_copy_node(x) for x in tree.nodes])
+    copies = {id(x): deep_copy_node(x) for x in tree.nodes}
+    for node in copies.values():
+        if node.left_child is not None:
+            node._left_child = copies[id(node.left_child)]
+            node._right_child = copies[id(node.right_child)]
+    return Tree(list(copies.values()))
-- 
2.43.0


From 5a886bdd563e2a28ccab77e160ece75856f0fa54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 06/44] fix: stored models lost their prior parameters

---
 bartpy/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index d516e74..8f14f9a 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -86,5 +86,10 @@ class Model:
 
 
 def deep_copy_model(model: Model) -> Model:
-    copied_model = Model(None, deepcopy(model.sigma), [deep_copy_tree(tree) for tree in model.trees])
+    copied_model = Model(None,
+                         deepcopy(model.sigma),
+                         [deep_copy_tree(tree) for tree in model.trees],
+                         alpha=model.alpha,
+                         beta=model.beta,
+                         k=model.k)
     return copied_model
-- 
2.43.0


From d3eb038af833c777edb612780be7389b48d1f6af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 07/44] fix: compare the log of the uniform draw with the log
 acceptance ratio

The draw itself was compared with the logged ratio, so a move with ratio r was
accepted with probability log(r) instead of min(1, r).
---
 bartpy/samplers/oblivioustrees/treemutation.py    | 2 +-
 bartpy/samplers/unconstrainedtree/treemutation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index 292bfc0..cb8fc21 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -40,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
         else:
             return None
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index ce82dbe..b60b7c2 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -1,5 +1,7 @@
 from typing import Optional
 
+import numpy as np
+
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
         else:
             return None
-- 
2.43.0


From 1dbc6bd9d0af06d7231eca8a21e0aa94b2bab044 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 08/44] fix: use the leaf prior variance throughout the
 likelihood ratio

Four of the six terms used the standard deviation sigma_mu in place of the
variance sigma_mu^2 (Chipman et al; Kapelner and Bleich, appendix A).
---
 bartpy/samplers/oblivioustrees/likihoodratio.py    | 8 ++++----
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index b6c2b17..ac0f202 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -17,12 +17,12 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
-    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index e0bf3df..c9b1904 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -17,16 +17,16 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
     combined_y_sum = combined_node.data.y.summed_y()
     left_y_sum = left_node.data.y.summed_y()
     right_y_sum = right_node.data.y.summed_y()
 
-    left_resp_contribution = np.square(left_y_sum) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_y_sum) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_y_sum) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_y_sum) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_y_sum) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_y_sum) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
-- 
2.43.0


From df7353bf92d3cbac2d50e6c729e5280d9c88984c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 09/44] fix: the prior ratio of a grow counted the choice of
 the leaf

Which leaf the proposer picks is part of the transition ratio, not of the tree
prior; the prune ratio already left it out, so the two moves did not balance.
---
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index c9b1904..03be3d5 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -108,7 +108,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_left_not_split = log_probability_node_not_split(model, proposal.updated_node.left_child)
         prob_right_not_split = log_probability_node_not_split(model, proposal.updated_node.right_child)
         prob_updated_node_split = log_probability_node_split(model, proposal.updated_node)
-        prob_chosen_split = log_probability_split_within_tree(tree, proposal)
+        prob_chosen_split = log_probability_split_within_node(proposal)
         numerator = prob_left_not_split + prob_right_not_split + prob_updated_node_split + prob_chosen_split
 
         return numerator - denominator
-- 
2.43.0


From d89aa1a1bb87223a583fe0d56c5a1a91f2c083a1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 10/44] fix: count the reverse moves on the mutated tree in the
 transition ratio

The ratio assumed that a grow always adds a prunable node, that both children
of a pruned node are splittable and that both kinds of move are always
possible, so moves next to the root, next to siblings and at unsplittable
leaves were not reversible (or had probability nan).
---
 .../unconstrainedtree/likihoodratio.py        | 55 ++++++++++++++++---
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index 03be3d5..c7497a6 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -1,4 +1,4 @@
-from typing import List
+from typing import List, Tuple
 
 import numpy as np
 
@@ -78,29 +78,47 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return - log_grow_ratio(proposal.updated_node, proposal.existing_node.left_child, proposal.existing_node.right_child, model.sigma, model.sigma_m)
 
     def log_grow_transition_ratio(self, tree: Tree, mutation: GrowMutation):
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree) + 1)
+        n_splittable, n_prunable = counts_after_grow(tree, mutation)
+        prob_prune_selected = - np.log(n_prunable)
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
         prob_selection_ratio = prob_prune_selected - prob_grow_selected
-        prune_grow_ratio = np.log(self.prob_method[1] / self.prob_method[0])
+        prune_grow_ratio = np.log(self.prob_prune(n_splittable, n_prunable)
+                                  / self.prob_grow(n_splittable_leaf_nodes(tree), n_prunable_decision_nodes(tree)))
 
         return prune_grow_ratio + prob_selection_ratio
 
     def log_prune_transition_ratio(self, tree: Tree, mutation: PruneMutation):
-        if n_splittable_leaf_nodes(tree) == 1:
-            prob_grow_node_selected = - np.inf  # Infinitely unlikely to be able to grow a null tree
-        else:
-            prob_grow_node_selected = - np.log(n_splittable_leaf_nodes(tree) - 1)
+        n_splittable, n_prunable = counts_after_prune(tree, mutation)
+        prob_grow_node_selected = - np.log(n_splittable)
         prob_split = log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
         prob_grow_selected = prob_grow_node_selected + prob_split
 
         prob_prune_selected = - np.log(n_prunable_decision_nodes(tree))
 
         prob_selection_ratio = prob_grow_selected - prob_prune_selected
-        grow_prune_ratio = np.log(self.prob_method[0] / self.prob_method[1])
+        grow_prune_ratio = np.log(self.prob_grow(n_splittable, n_prunable)
+                                  / self.prob_prune(n_splittable_leaf_nodes(tree), n_prunable_decision_nodes(tree)))
 
         return grow_prune_ratio + prob_selection_ratio
 
+    def prob_grow(self, n_splittable: int, n_prunable: int) -> float:
+        """
+        Probability of proposing a grow mutation in a tree with the given numbers of splittable leaves and prunable nodes
+        The proposer falls back on the other kind of mutation if the chosen kind is impossible
+        """
+        if n_splittable == 0:
+            return 0.
+        return self.prob_method[0] if n_prunable > 0 else 1.
+
+    def prob_prune(self, n_splittable: int, n_prunable: int) -> float:
+        """
+        Probability of proposing a prune mutation in a tree with the given numbers of splittable leaves and prunable nodes
+        """
+        if n_prunable == 0:
+            return 0.
+        return self.prob_method[1] if n_splittable > 0 else 1.
+
     @staticmethod
     def log_tree_ratio_grow(model: Model, tree: Tree, proposal: GrowMutation):
         denominator = log_probability_node_not_split(model, proposal.existing_node)
@@ -142,6 +160,27 @@ def n_splittable_leaf_nodes(tree: Tree) -> int:
     return len(tree.splittable_leaf_nodes)
 
 
+def counts_after_grow(tree: Tree, mutation: GrowMutation) -> Tuple[int, int]:
+    """
+    The number of splittable leaf nodes and prunable decision nodes the tree will have after the mutation
+    """
+    leaf, children = mutation.existing_node, (mutation.updated_node.left_child, mutation.updated_node.right_child)
+    n_splittable = n_splittable_leaf_nodes(tree) - leaf.is_splittable() + sum(x.is_splittable() for x in children)
+    parent_was_prunable = any(leaf is x.left_child or leaf is x.right_child for x in tree.prunable_decision_nodes)
+    return n_splittable, n_prunable_decision_nodes(tree) + 1 - parent_was_prunable
+
+
+def counts_after_prune(tree: Tree, mutation: PruneMutation) -> Tuple[int, int]:
+    """
+    The number of splittable leaf nodes and prunable decision nodes the tree will have after the mutation
+    """
+    node, children = mutation.existing_node, (mutation.existing_node.left_child, mutation.existing_node.right_child)
+    n_splittable = n_splittable_leaf_nodes(tree) + mutation.updated_node.is_splittable() - sum(x.is_splittable() for x in children)
+    parent_becomes_prunable = any((node is x.left_child and type(x.right_child) == LeafNode)
+                                  or (node is x.right_child and type(x.left_child) == LeafNode) for x in tree.decision_nodes)
+    return n_splittable, n_prunable_decision_nodes(tree) - 1 + parent_becomes_prunable
+
+
 def log_probability_split_within_tree(tree: Tree, mutation: GrowMutation) -> float:
     """
     The log probability of the particular grow mutation being selected conditional on growing a given tree
-- 
2.43.0


From a803c17787be023fd36d980e55b7292392d835f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 11/44] fix: a tree that can neither grow nor be pruned made
 proposing recurse forever

Fitting to covariates without two distinct values in any column failed with a
RecursionError; such a tree now stays as it is.
---
 bartpy/samplers/unconstrainedtree/proposer.py     | 4 +++-
 bartpy/samplers/unconstrainedtree/treemutation.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/unconstrainedtree/proposer.py b/bartpy/samplers/unconstrainedtree/proposer.py
index c84e826..dec88fa 100644
--- a/bartpy/samplers/unconstrainedtree/proposer.py
+++ b/bartpy/samplers/unconstrainedtree/proposer.py
@@ -40,7 +40,9 @@ class UniformMutationProposer(TreeMutationProposer):
                                               list(self.prob_method_lookup.values()),
                                               cache_size=1000)
 
-    def propose(self, tree: Tree) -> TreeMutation:
+    def propose(self, tree: Tree) -> Optional[TreeMutation]:
+        if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
+            return None
         method = self.method_sampler.sample()
         try:
             return method(tree)
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index b60b7c2..1dfc6de 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -39,6 +39,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
 
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
+        if proposal is None:
+            return None
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
-- 
2.43.0


From 6e89f74a4f7970d5f0fb0ca07a35024e5bd3869b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 12/44] fix: leaf draws had a variance divided by the number of
 trees

The prior variance sigma_m^2 already contains the number of trees; dividing
the posterior variance again made the draws, and so the intervals, too narrow.
---
 bartpy/samplers/leafnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/leafnode.py b/bartpy/samplers/leafnode.py
index d70b702..3625fbb 100644
--- a/bartpy/samplers/leafnode.py
+++ b/bartpy/samplers/leafnode.py
@@ -30,7 +30,7 @@ class LeafNodeSampler(Sampler):
         likihood_mean = node.data.y.summed_y() / n
         posterior_variance = 1. / (1. / prior_var + 1. / likihood_var)
         posterior_mean = likihood_mean * (prior_var / (likihood_var + prior_var))
-        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance / model.n_trees, 0.5))
+        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance, 0.5))
 
 
 # class VectorizedLeafNodeSampler(Sampler):
-- 
2.43.0


From fb66e567402627fe90b1f73584f65c9c92096812 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 13/44] fix: thinning stored almost nothing unless 1/thin is a
 whole number

thin=0.3 or 0.7 kept only the first sample of a chain.
---
 bartpy/samplers/modelsampler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bartpy/samplers/modelsampler.py b/bartpy/samplers/modelsampler.py
index 4d8b997..50ab0ac 100644
--- a/bartpy/samplers/modelsampler.py
+++ b/bartpy/samplers/modelsampler.py
@@ -46,11 +46,10 @@ class ModelSampler(Sampler):
         acceptance_trace = []
         print("Starting sampling")
 
-        thin_inverse = 1. / thin
-
         for ss in tqdm(range(n_samples)):
             step_trace_dict = self.step(model, trace_logger)
-            if ss % thin_inverse == 0:
+            # store each sample that reaches the next multiple of 1 / thin (the tolerance absorbs rounding of ss * thin)
+            if np.floor(ss * thin + 1e-9) > np.floor((ss - 1) * thin + 1e-9):
                 if store_in_sample_predictions:
                     in_sample_log = trace_logger["In Sample Prediction"](model.predict())
                     if in_sample_log is not None:
-- 
2.43.0


From f58b3a43c32c90b2e3334ae40d190c6e840bb8cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 14/44] fix: prediction_samples recursed into itself

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 7e92b1a..e037734 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -338,7 +338,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             prediction samples with dimensionality n_samples * n_points
         """
-        return self.prediction_samples
+        return self._prediction_samples
 
     def from_extract(self, extract: List[Chain], X: np.ndarray, y: np.ndarray) -> 'SklearnModel':
         """
-- 
2.43.0


From df45ab941941ed30bd518096584487971fc4f82a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 15/44] fix: from_extract stored the samples on the template
 instead of the new model

Models returned by run_models had no samples of their own, and kept the model
(used by residuals) of the template.
---
 bartpy/sklearnmodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index e037734..9a67207 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -360,7 +360,8 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         """
         new_model = deepcopy(self)
         combined_chain = self._combine_chains(extract)
-        self._model_samples, self._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
-        self._acceptance_trace = combined_chain["acceptance"]
-        new_model.data = self._convert_covariates_to_data(X, y)
+        new_model.extract, new_model.combined_chains = extract, combined_chain
+        new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
+        new_model._acceptance_trace = combined_chain["acceptance"]
+        new_model._construct_model(X, y)
         return new_model
-- 
2.43.0


From 884729047a7bd1e6a9ebd8001ef3a9c04b6b8377 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 16/44] fix: normalizing a constant target divided by zero

All predictions were nan.
---
 bartpy/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/data.py b/bartpy/data.py
index 9daa97e..70db41a 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -250,6 +250,8 @@ class Target(object):
         array([-0.5,  0. ,  0.5])
         """
         y_min, y_max = np.min(y), np.max(y)
+        if y_min == y_max:
+            return (y - y_min).astype(float)
         return -0.5 + ((y - y_min) / (y_max - y_min))
 
     def unnormalize_y(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d3cf55014e31f328f94f6069dc0333131b8742fc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 17/44] fix: SklearnTreeInitializer used attributes and a loss
 name that do not exist

---
 bartpy/initializers/sklearntreeinitializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 3455065..80ef22a 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -20,7 +20,7 @@ class SklearnTreeInitializer(Initializer):
     def __init__(self,
                  max_depth: int=4,
                  min_samples_split: int=2,
-                 loss: str='ls'):
+                 loss: str='squared_error'):
         self.max_depth = max_depth
         self.min_samples_split = min_samples_split
         self.loss = loss
@@ -36,7 +36,7 @@ class SklearnTreeInitializer(Initializer):
         }
 
         clf = GradientBoostingRegressor(**params)
-        fit = clf.fit(tree.nodes[0].data.X.data, tree.nodes[0].data.y.data)
+        fit = clf.fit(tree.nodes[0].data.X.values, tree.nodes[0].data.y.values)
         sklearn_tree = fit.estimators_[0][0].tree_
         map_sklearn_tree_into_bartpy(tree, sklearn_tree)
 
-- 
2.43.0


From 7cbf46fc9e28547c379c879862d5c1d46d3a4a90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 18/44] fix: oblivious proposals without anything to grow or
 prune

An empty list of prunes counted as an accepted move, and growing a tree whose
only leaf cannot be split failed on the missing split condition.
---
 bartpy/samplers/oblivioustrees/proposer.py     | 8 +++++++-
 bartpy/samplers/oblivioustrees/treemutation.py | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/proposer.py b/bartpy/samplers/oblivioustrees/proposer.py
index 4ceeb05..3dcb5c1 100644
--- a/bartpy/samplers/oblivioustrees/proposer.py
+++ b/bartpy/samplers/oblivioustrees/proposer.py
@@ -13,10 +13,14 @@ from bartpy.tree import Tree
 
 
 def grow_mutations(tree: Tree) -> List[TreeMutation]:
+    if len(tree.splittable_leaf_nodes) == 0:
+        raise NoSplittableVariableException()
     return [GrowMutation(x, sample_split_node(x)) for x in tree.leaf_nodes]
 
 
 def prune_mutations(tree: Tree) -> List[TreeMutation]:
+    if len(tree.prunable_decision_nodes) == 0:
+        raise NoPrunableNodeException()
     return [PruneMutation(x, LeafNode(x.split, depth=x.depth)) for x in tree.prunable_decision_nodes]
 
 
@@ -29,7 +33,9 @@ class UniformMutationProposer(TreeMutationProposer):
                                               [p_grow, p_prune],
                                               cache_size=1000)
 
-    def propose(self, tree: Tree) -> TreeMutation:
+    def propose(self, tree: Tree) -> Optional[List[TreeMutation]]:
+        if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
+            return None
         method = self.method_sampler.sample()
         try:
             return method(tree)
diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index cb8fc21..e991ea7 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -38,7 +38,9 @@ class UnconstrainedTreeMutationSampler(Sampler):
         self._scalar_sampler = scalar_sampler
 
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
-        proposals: List[TreeMutation] = self.proposer.propose(tree)
+        proposals: Optional[List[TreeMutation]] = self.proposer.propose(tree)
+        if proposals is None:
+            return None
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
-- 
2.43.0


From 028e349aca036e5cce752dc6964c38e1ad4ab95c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 19/44] fix: import LinearRegression from its public module

sklearn.linear_model.base no longer exists, so ResidualBART could not be
imported.
---
 bartpy/extensions/baseestimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index da6a4df..796f629 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -1,6 +1,6 @@
 import numpy as np
 from sklearn.base import RegressorMixin, clone
-from sklearn.linear_model.base import LinearRegression
+from sklearn.linear_model import LinearRegression
 
 from bartpy.sklearnmodel import SklearnModel
 
-- 
2.43.0


From b72f1eddd374eadb92d2cbdf4cbeb6278f21769e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 20/44] fix: ResidualBART fitted the estimator object passed in
 by the user

The clone made in the constructor was thrown away on the next line.
---
 bartpy/extensions/baseestimator.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 796f629..f8bc61b 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -11,15 +11,13 @@ class ResidualBART(SklearnModel):
                  base_estimator: RegressorMixin = None,
                  **kwargs):
 
-        if base_estimator is not None:
-            self.base_estimator = clone(base_estimator)
-        else:
+        if base_estimator is None:
             base_estimator = LinearRegression()
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
-        self.base_estimator.fit(X, y)
+        self.base_estimator = clone(self.base_estimator).fit(X, y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
         return self
 
-- 
2.43.0


From cef80ef08c4d1588f932f3420c0e30a96c3135ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 21/44] fix: residual extensions could not predict the training
 data

predict() passed the CovariateMatrix wrapper instead of its values.
---
 bartpy/extensions/baseestimator.py | 2 +-
 bartpy/extensions/ols.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index f8bc61b..dfd7f70 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -23,7 +23,7 @@ class ResidualBART(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 88d0ee9..8428688 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -21,7 +21,7 @@ class OLS(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
-- 
2.43.0


From a3b161535fcc0440b8308f2000ae2657af80e143 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 22/44] fix: cloning a residual extension dropped all BART
 parameters

get_params only listed the extension's own argument, so cross validation and
grid search ran with default settings.
---
 bartpy/extensions/baseestimator.py | 4 ++++
 bartpy/extensions/ols.py           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index dfd7f70..3a2c164 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -16,6 +16,10 @@ class ResidualBART(SklearnModel):
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(super()._get_param_names() + SklearnModel._get_param_names())
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
         self.base_estimator = clone(self.base_estimator).fit(X, y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 8428688..bdd1801 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -14,6 +14,10 @@ class OLS(SklearnModel):
         self.stat_model_fit = None
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(super()._get_param_names() + SklearnModel._get_param_names())
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
         self.stat_model_fit = self.stat_model(y, X).fit()
         SklearnModel.fit(self, X, self.stat_model_fit.resid)
-- 
2.43.0


From 4114592a747e16ca15d417e67228a0ebe9cb3b51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 23/44] fix: set_params(tree_sampler=...) had no effect on
 fitting

---
 bartpy/sklearnmodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 9a67207..a17de6c 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -121,6 +121,12 @@ class SklearnModel(BaseEstimator, RegressorMixin):
 
         self.sigma, self.data, self.model, self._prediction_samples, self._model_samples, self.extract = [None] * 6
 
+    def set_params(self, **params) -> 'SklearnModel':
+        super().set_params(**params)
+        if "tree_sampler" in params:
+            self.schedule.tree_sampler = self.tree_sampler
+        return self
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From cd54f8f026d0dacf3a29a6dffb666a08a85681c0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 24/44] fix: split proportions were diluted by root nodes

Roots have no splitting variable but were counted in the denominator, so a
model splitting on one variable only reported less than 100% for it.
---
 bartpy/diagnostics/features.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index b151506..343b771 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -20,10 +20,11 @@ def feature_split_proportions(model: SklearnModel, columns: Optional[List[int]]=
         for tree in sample.trees:
             for node in tree.nodes:
                 splitting_var = node.split.splitting_variable
-                split_variables.append(splitting_var)
+                if splitting_var is not None:
+                    split_variables.append(splitting_var)
     counter = Counter(split_variables)
     if columns is None:
-        columns = sorted(list([x for x in counter.keys() if x is not None]))
+        columns = sorted(list(counter.keys()))
 
     proportions = {}
     for column in columns:
-- 
2.43.0


From d7601e7d6b0dae2d6af6e5a9344d31e13a04898f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 25/44] fix: selection thresholds treated the percentile as a
 percentage

The documented range is 0 to 1, np.percentile wants 0 to 100, so 0.95 gave
about the minimum of the null distribution.
---
 bartpy/diagnostics/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 343b771..2e99a70 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -127,7 +127,7 @@ def local_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     Mapping[int, float]
         A lookup from column to % inclusion threshold
     """
-    return {feature: np.percentile(null_distributions[feature], percentile) for feature in null_distributions}
+    return {feature: np.percentile(null_distributions[feature], 100 * percentile) for feature in null_distributions}
 
 
 def global_thresholds(null_distributions: ImportanceDistributionMap, percentile: float) -> Mapping[int, float]:
@@ -158,7 +158,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     df = pd.DataFrame(null_distributions)
     for row in df.iter_rows():
         q_s.append(np.max(row))
-    threshold = np.percentile(q_s, percentile)
+    threshold = np.percentile(q_s, 100 * percentile)
     return {feature: threshold for feature in null_distributions}
 
 
-- 
2.43.0


From 388aa654410afdf8692eb5dd99a800ed3d01628e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 26/44] fix: global thresholds called a DataFrame method that
 does not exist

---
 bartpy/diagnostics/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 2e99a70..0d5ea56 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -156,7 +156,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     """
     q_s = []
     df = pd.DataFrame(null_distributions)
-    for row in df.iter_rows():
+    for _, row in df.iterrows():
         q_s.append(np.max(row))
     threshold = np.percentile(q_s, 100 * percentile)
     return {feature: threshold for feature in null_distributions}
-- 
2.43.0


From 97cafbcaf33a1cdf262d8a641580e668f68fdfd6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 27/44] fix: import SelectorMixin from its public module

sklearn.feature_selection.base no longer exists, so the selectors could not be
imported.
---
 bartpy/features/featureselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 90d2f39..a01803c 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 import numpy as np
 from matplotlib import pyplot as plt
 from sklearn.base import BaseEstimator
-from sklearn.feature_selection.base import SelectorMixin
+from sklearn.feature_selection import SelectorMixin
 
 from bartpy.diagnostics.features import null_feature_split_proportions_distribution, \
     local_thresholds, global_thresholds, is_kept, feature_split_proportions, plot_feature_proportions_against_thresholds, plot_null_feature_importance_distributions, \
-- 
2.43.0


From 9aea7e6800b3eaa9262cbfadf7359d9030144220 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 28/44] fix: selectors left variables without any split out of
 their mask

The mask must have one entry per column.
---
 bartpy/features/featureselection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index a01803c..5720bb1 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -22,7 +22,7 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def fit(self, X, y):
         self.model.fit(X, y)
         self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
@@ -58,7 +58,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
         self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
-- 
2.43.0


From 64486f5b50c892379a2ded79588e866520040f2f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 29/44] fix: the permutation null was scored on training
 covariates

They were compared with the targets of the held-out rows.
---
 bartpy/features/featureimportance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 88c8c51..f3bcee8 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -88,7 +88,7 @@ def null_rmse_distribution(model: SklearnModel,
             permuted_X = deepcopy(X)
             permuted_X[:, variable] = np.random.permutation(permuted_X[:, variable])
             permuted_train_X_s.append(permuted_X[train_index])
-            permuted_test_X_s.append(permuted_X[train_index])
+            permuted_test_X_s.append(permuted_X[test_index])
             train_y_s.append(y[train_index])
             test_y_s.append(y[test_index])
 
-- 
2.43.0


From 1a135b9e62bb951731547d40d29fbdc830efce25 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 30/44] fix: plotting helpers looked for the target on the
 wrong object

---
 bartpy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index e8dc2ee..21231d6 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,11 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y - model.predict())
+    plt.plot(model.data.y.unnormalized_y - model.predict())
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y)
+    plt.plot(model.data.y.unnormalized_y)
     plt.plot(model.predict())
     plt.show()
-- 
2.43.0


From ec9671f62a8159ac0cb3776d6101f9640ab94e45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 31/44] fix: pass regplot data by keyword, as seaborn 0.12
 requires

---
 bartpy/diagnostics/residuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/residuals.py b/bartpy/diagnostics/residuals.py
index ede98f1..4bd7102 100644
--- a/bartpy/diagnostics/residuals.py
+++ b/bartpy/diagnostics/residuals.py
@@ -17,7 +17,7 @@ def plot_qq(model: SklearnModel, ax=None) -> None:
 def plot_homoskedasity_diagnostics(model: SklearnModel, ax=None):
     if ax is None:
         _, ax = plt.subplots(1, 1, figsize=(5, 5))
-    sns.regplot(model.predict(model.data.X.values), model.residuals(model.data.X.values), ax=ax)
+    sns.regplot(x=model.predict(model.data.X.values), y=model.residuals(model.data.X.values), ax=ax)
     ax.set_title("Fitted Values V Residuals")
     ax.set_xlabel("Fitted Value")
     ax.set_ylabel("Residual")
-- 
2.43.0


From a46c8dc15751abed695726955f11de6de53e2f23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 32/44] fix: chains run on threads could sample each other's
 model

Each chain passed its model, data and sigma through attributes of the shared
estimator; a switch between writing and reading them mixed up the chains.
---
 bartpy/sklearnmodel.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index a17de6c..d866da4 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -24,8 +24,8 @@ def run_chain(model: 'SklearnModel', X: np.ndarray, y: np.ndarray):
     Run a single chain for a model
     Primarily used as a building block for constructing a parallel run of multiple chains
     """
-    model.model = model._construct_model(X, y)
-    return model.sampler.samples(model.model,
+    chain_model = model._construct_model(X, y)
+    return model.sampler.samples(chain_model,
                                  model.n_samples,
                                  model.n_burn,
                                  model.thin,
@@ -169,15 +169,16 @@ class SklearnModel(BaseEstimator, RegressorMixin):
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
             raise ValueError("Empty covariate matrix passed")
-        self.data = self._convert_covariates_to_data(X, y)
-        self.sigma = Sigma(self.sigma_a, self.sigma_b, self.data.y.normalizing_scale)
-        self.model = Model(self.data,
-                           self.sigma,
-                           n_trees=self.n_trees,
-                           alpha=self.alpha,
-                           beta=self.beta,
-                           initializer=self.initializer)
-        return self.model
+        data = self._convert_covariates_to_data(X, y)
+        sigma = Sigma(self.sigma_a, self.sigma_b, data.y.normalizing_scale)
+        model = Model(data,
+                      sigma,
+                      n_trees=self.n_trees,
+                      alpha=self.alpha,
+                      beta=self.beta,
+                      initializer=self.initializer)
+        self.data, self.sigma, self.model = data, sigma, model
+        return model
 
     def f_delayed_chains(self, X: np.ndarray, y: np.ndarray):
         """
-- 
2.43.0


From fece6b3e36e1812ef7df043598e3495c38b0285b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 33/44] fix: two threads could take the last cached draw

A switch between checking the cache and popping from it made one of them fail
with an IndexError.
---
 bartpy/samplers/scalar.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 4694e31..1f3bffb 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -11,9 +11,11 @@ class NormalScalarSampler():
         self._cache = []
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.normal(size=self._cache_size))
@@ -27,9 +29,11 @@ class UniformScalarSampler():
         self._cache = []
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.uniform(size=self._cache_size))
@@ -49,9 +53,11 @@ class DiscreteSampler():
         self._cache = []
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.choice(self._values, p=self._probas, size=self._cache_size))
-- 
2.43.0


From b18aab7f32f81ca34cd6f28ff4f3d8ce104cb1fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 34/44] fix: copies of a sampler (deepcopy, worker processes)
 repeated its prefetched draws

---
 bartpy/samplers/scalar.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 1f3bffb..c23dfa7 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -3,7 +3,19 @@ from typing import Any, List
 import numpy as np
 
 
-class NormalScalarSampler():
+class CachingSampler():
+    """
+    Base for samplers that prefetch draws
+    Prefetched draws are not copied: a copy (e.g. one sent to a worker process) makes its own, so no two samplers share draws
+    """
+
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        state["_cache"] = []
+        return state
+
+
+class NormalScalarSampler(CachingSampler):
 
     def __init__(self,
                  cache_size: int=1000):
@@ -21,7 +33,7 @@ class NormalScalarSampler():
         self._cache = list(np.random.normal(size=self._cache_size))
 
 
-class UniformScalarSampler():
+class UniformScalarSampler(CachingSampler):
 
     def __init__(self,
                  cache_size: int=1000):
@@ -39,7 +51,7 @@ class UniformScalarSampler():
         self._cache = list(np.random.uniform(size=self._cache_size))
 
 
-class DiscreteSampler():
+class DiscreteSampler(CachingSampler):
 
     def __init__(self,
                  values: List[Any],
-- 
2.43.0


From 54f0c347853194fac35327afa2c622abc7d2ba40 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:01 +0000
Subject: [PATCH 35/44] fix: mapping a single-leaf scikit-learn tree dropped
 its value

---
 bartpy/initializers/sklearntreeinitializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 80ef22a..421f3aa 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -63,6 +63,7 @@ def map_sklearn_split_into_bartpy_split_conditions(sklearn_tree, index: int) ->
 def map_sklearn_tree_into_bartpy(bartpy_tree: Tree, sklearn_tree):
     nodes = [None for x in sklearn_tree.children_left]
     nodes[0] = bartpy_tree.nodes[0]
+    nodes[0].set_value(sklearn_tree.value[0][0][0])
 
     def search(index: int=0):
 
-- 
2.43.0


From 113779c841cf2dcb32ac9d66cd8a699178cce08a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 36/44] fix: residuals of the extensions compared the full
 prediction with the base model's residuals

---
 bartpy/extensions/baseestimator.py | 5 +++++
 bartpy/extensions/ols.py           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 3a2c164..332f5f7 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -31,3 +31,8 @@ class ResidualBART(SklearnModel):
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            y = self.data.y.unnormalized_y + self.base_estimator.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index bdd1801..2b223d1 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -29,3 +29,8 @@ class OLS(SklearnModel):
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            y = self.data.y.unnormalized_y + self.stat_model_fit.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
-- 
2.43.0


From 7d2bb7deaa479226f5c091185c7d52ab8438ff73 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:15 +0000
Subject: [PATCH 37/44] fix: permutation importance failed for DataFrame
 covariates

---
 bartpy/features/featureimportance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index f3bcee8..de0d518 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -30,6 +30,8 @@ def original_model_rmse(model: SklearnModel,
     List[float]
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
+    if type(X) == pd.DataFrame:
+        X = X.values
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -76,6 +78,8 @@ def null_rmse_distribution(model: SklearnModel,
         A list of predict set RMSEs - one entry for each fold of each permutation
     """
 
+    if type(X) == pd.DataFrame:
+        X = X.values
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
-- 
2.43.0


From b73448cfd9a1c351cee636554a991458e0ff7136 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 38/44] fix: selectors could not be cloned, inspected or used
 in cross validation

---
 bartpy/features/featureselection.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 5720bb1..f984235 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -16,10 +16,11 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def __init__(self,
                  model: SklearnModel,
                  percentile: float=0.2):
-        self.model = deepcopy(model)
+        self.model = model
         self.percentile = percentile
 
     def fit(self, X, y):
+        self.model = deepcopy(self.model)
         self.model.fit(X, y)
         self.X, self.y = X, y
         self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
@@ -41,23 +42,23 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
                  method="local",
                  n_permutations=10,
                  n_trees=None):
-        if method == "local":
-            self.method = local_thresholds
-        elif method == "global":
-            self.method = global_thresholds
-        else:
-            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(self.method))
-        self.model = deepcopy(model)
-        if n_trees is not None:
-            self.model.n_trees = n_trees
+        if method not in ("local", "global"):
+            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
+        self.method = method
+        self.model = model
+        self.n_trees = n_trees
         self.percentile = percentile
         self.n_permutations = n_permutations
 
     def fit(self, X, y):
+        self.model = deepcopy(self.model)
+        if self.n_trees is not None:
+            self.model.n_trees = self.n_trees
         self.model.fit(X, y)
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
-        self.thresholds = self.method(self.null_distribution, self.percentile)
+        f_thresholds = local_thresholds if self.method == "local" else global_thresholds
+        self.thresholds = f_thresholds(self.null_distribution, self.percentile)
         self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
-- 
2.43.0


From 27df020a329e6fa60f4d30c77c196cbdcfcc66f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 39/44] fix: split proportions were drawn on the current axes
 instead of the given ones

---
 bartpy/diagnostics/features.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 0d5ea56..3e15763 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -44,11 +44,12 @@ def plot_feature_split_proportions(model: SklearnModel, ax=None):
     y_pos = np.arange(len(proportions))
     name, count = list(proportions.keys()), list(proportions.values())
     props = pd.DataFrame({"name": name, "counts": count}).sort_values("name", ascending=True)
-    plt.barh(y_pos, props.counts, align='center', alpha=0.5)
-    plt.yticks(y_pos, props.name)
-    plt.xlabel('Proportion of all splits')
-    plt.ylabel('Feature')
-    plt.title('Proportion of Splits Made on Each Variable')
+    ax.barh(y_pos, props.counts, align='center', alpha=0.5)
+    ax.set_yticks(y_pos)
+    ax.set_yticklabels(props.name)
+    ax.set_xlabel('Proportion of all splits')
+    ax.set_ylabel('Feature')
+    ax.set_title('Proportion of Splits Made on Each Variable')
     return ax
 
 
-- 
2.43.0


From 56ff9d808f0e721ec56d1e74a33974351eeb90c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:44 +0000
Subject: [PATCH 40/44] fix: residual and fit plots of the extensions compared
 the full prediction with the base model's residuals

---
 bartpy/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index 21231d6..7cace5c 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,12 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.y.unnormalized_y - model.predict())
+    plt.plot(model.residuals())
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.y.unnormalized_y)
-    plt.plot(model.predict())
+    prediction = model.predict()
+    plt.plot(prediction + model.residuals())
+    plt.plot(prediction)
     plt.show()
-- 
2.43.0


From db38a6d9029b6a6d48cf2bfe66df21e3ea8b97c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:32 +0000
Subject: [PATCH 41/44] fix: covariates in object or foreign byte order arrays
 (e.g. a frame with boolean and float columns) failed when looking for
 constant columns

---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index 70db41a..2da3f99 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -28,7 +28,7 @@ def is_not_constant(series: np.ndarray) -> bool:
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-                first_value = series.data[i]
+                first_value = series[i]
             else:
                 return True
     return False
-- 
2.43.0


From 6f1b1896ff71d5e1c23a8af3920539e7ac52aa51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:35 +0000
Subject: [PATCH 42/44] fix: small integer targets overflowed and boolean
 targets failed when normalized

---
 bartpy/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bartpy/data.py b/bartpy/data.py
index 2da3f99..0d67d39 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -214,6 +214,7 @@ class Target(object):
     def __init__(self, y, mask, n_obsv, normalize, y_sum=None):
 
         if normalize:
+            y = np.asarray(y, dtype=float)
             self.original_y_min, self.original_y_max = y.min(), y.max()
             self._y = self.normalize_y(y)
         else:
-- 
2.43.0


From f013c3c6a280082db351798fe4117bf96c6c6547 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 43/44] fix: oblivious levels were not accepted with the
 balancing probability (method ratio once per leaf, forced moves, padded
 leaves)

---
 .../samplers/oblivioustrees/likihoodratio.py  | 38 +++++++++++++++----
 .../samplers/oblivioustrees/treemutation.py   |  1 +
 bartpy/samplers/treemutation.py               | 21 +++++++++-
 3 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index ac0f202..16c7eaf 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -37,6 +37,26 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
             prob_method = [0.5, 0.5]
         self.prob_method = prob_method
 
+    def log_probability_ratio(self, model: Model, tree: Tree, mutation: TreeMutation) -> float:
+        if is_padding(mutation):
+            return 0.
+        return super().log_probability_ratio(model, tree, mutation)
+
+    def log_method_ratio(self, tree: Tree, mutations: List[TreeMutation]) -> float:
+        """
+        The logged ratio of the probability of choosing the reverse kind of update to the probability of choosing this kind
+        Counted once per update, the proposer falls back on the other kind if the chosen kind is impossible
+        """
+        if mutations[0].kind == "grow":
+            children = [c for m in mutations for c in (m.updated_node.left_child, m.updated_node.right_child)]
+            prob_grow = self.prob_method[0] if len(tree.prunable_decision_nodes) > 0 else 1.
+            prob_prune = self.prob_method[1] if any(c.is_splittable() for c in children) else 1.
+            return np.log(prob_prune / prob_grow)
+        else:
+            prob_grow = self.prob_method[0] if len(tree.decision_nodes) > len(mutations) else 1.
+            prob_prune = self.prob_method[1] if len(tree.splittable_leaf_nodes) > 0 else 1.
+            return np.log(prob_grow / prob_prune)
+
     def log_transition_ratio(self, tree: Tree, mutation: TreeMutation):
         if mutation.kind == "prune":
             mutation: PruneMutation = mutation
@@ -80,16 +100,10 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_prune_selected = - np.log(1)
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
-        prob_selection_ratio = prob_prune_selected - prob_grow_selected
-        prune_grow_ratio = np.log(self.prob_method[1] / self.prob_method[0])
-
-        return prune_grow_ratio + prob_selection_ratio
+        return prob_prune_selected - prob_grow_selected
 
     def log_prune_transition_ratio(self, tree: Tree, mutation: PruneMutation):
-        prob_selection_ratio = log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
-        grow_prune_ratio = np.log(self.prob_method[0] / self.prob_method[1])
-
-        return grow_prune_ratio + prob_selection_ratio
+        return log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
 
     @staticmethod
     def log_tree_ratio_grow(model: Model, tree: Tree, proposal: GrowMutation):
@@ -116,6 +130,14 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return numerator - denominator
 
 
+def is_padding(mutation: TreeMutation) -> bool:
+    """
+    Whether a mutation only adds or removes a level below a leaf that can't be split, which leaves the fit as it is
+    """
+    leaf = mutation.existing_node if mutation.kind == "grow" else mutation.updated_node
+    return not leaf.is_splittable()
+
+
 def log_probability_split_within_tree(tree: Tree, mutation: GrowMutation) -> float:
     """
     The log probability of the particular grow mutation being selected conditional on growing a given tree
diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index e991ea7..52b2839 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -42,6 +42,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
         if proposals is None:
             return None
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
+        ratio = ratio + self.likihood_ratio.log_method_ratio(tree, proposals)
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
         else:
diff --git a/bartpy/samplers/treemutation.py b/bartpy/samplers/treemutation.py
index 32a472c..da7b7e7 100644
--- a/bartpy/samplers/treemutation.py
+++ b/bartpy/samplers/treemutation.py
@@ -1,5 +1,5 @@
 from abc import abstractmethod, ABC
-from typing import Optional
+from typing import List, Optional
 
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
@@ -76,6 +76,25 @@ class TreeMutationLikihoodRatio(ABC):
         """
         return self.log_transition_ratio(tree, mutation) + self.log_likihood_ratio(model, tree, mutation) + self.log_tree_ratio(model, tree, mutation)
 
+    def log_method_ratio(self, tree: Tree, mutations: List[TreeMutation]) -> float:
+        """
+        The logged ratio of the probability of choosing the reverse kind of update to the probability of choosing this kind,
+        for samplers that propose several mutations together and don't include it in the ratio of each mutation
+
+        Parameters
+        ----------
+        tree: Tree
+            The tree being changed
+        mutations: List[TreeMutation]
+            The mutations proposed together
+
+        Returns
+        -------
+        float
+            logged ratio
+        """
+        return 0.
+
     @abstractmethod
     def log_transition_ratio(self, tree: Tree, mutation: TreeMutation) -> float:
         """
-- 
2.43.0


From fb716e41c3037587a700053e050763a3b5c37c75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:13 +0000
Subject: [PATCH 44/44] fix: split proportions counted the levels an oblivious
 tree adds below unsplittable leaves as splits

---
 bartpy/diagnostics/features.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 3e15763..4809368 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -18,10 +18,10 @@ def feature_split_proportions(model: SklearnModel, columns: Optional[List[int]]=
     split_variables = []
     for sample in model.model_samples:
         for tree in sample.trees:
-            for node in tree.nodes:
-                splitting_var = node.split.splitting_variable
-                if splitting_var is not None:
-                    split_variables.append(splitting_var)
+            for node in tree.decision_nodes:
+                # oblivious levels below a leaf that can't be split add no condition, so they aren't splits
+                if len(node.left_child.split.conditions) > len(node.split.conditions):
+                    split_variables.append(node.left_child.split.splitting_variable)
     counter = Counter(split_variables)
     if columns is None:
         columns = sorted(list(counter.keys()))
-- 
2.43.0

