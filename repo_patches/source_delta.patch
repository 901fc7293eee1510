From 18b9d373f305f3d5649f343a116d52a728a41333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:17 +0000
Subject: [PATCH 01/41] fix: SejongOhMethod draws its feature importance
 permutations from its own random state

The nested PermutationImportance was created without the method's random
state, so feature_importance was not reproducible for a given random_state.
---
 .../model_agnostic/performance_based/_sejong_oh.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 7468f36..9d9c0b3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -103,7 +103,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
-        self._feature_importance_obj = PermutationImportance(self.metric)
+        self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
         self.feature_importance = self._feature_importance_obj.importance(model, X=self.X_sampled,
                                                                             y_true=self.y_sampled,
                                                                             n_repeat=n_repeat,
-- 
2.43.0


From 630a23724e1b1523e97cb740a8be8f116b988b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:17 +0000
Subject: [PATCH 02/41] fix: PermutationImportance accepts features=None as
 documented

The documented default (all columns of X) raised a TypeError.
---
 .../model_agnostic/_permutational_importance.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 4901bbd..87deb10 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -6,6 +6,7 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod, ProgressInfoLog, ProblemType
+from artemis._utilities.ops import all_if_none
 from artemis._utilities.performance_metrics import Metric, RMSE
 
 
@@ -74,6 +75,7 @@ class PermutationImportance(FeatureImportanceMethod):
         pd.DataFrame
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
+        features = all_if_none(X.columns, features)
         self.feature_importance = _permutation_importance(
             model, X, y_true, self.metric, n_repeat, features, show_progress, self._random_generator
         )
-- 
2.43.0


From 9f531693499bcd25da7890b28cbfab00e9c4c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:17 +0000
Subject: [PATCH 03/41] fix: sample targets by row position, not by row label

y[X_sampled.index] paired rows of X with targets of other rows (or raised)
whenever X did not carry the default 0..n-1 index, e.g. after a
train/test split or a filter.
---
 artemis/_utilities/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index f399978..73e11e9 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -26,8 +26,9 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
     if n is None:
         return X, y
     else:
-        X_sampled = X.sample(n, random_state=random_generator)
-        return X_sampled, y[X_sampled.index]
+        positions = pd.Series(range(len(X))).sample(n, random_state=random_generator).values
+        y_sampled = y.iloc[positions] if isinstance(y, pd.Series) else y[positions]
+        return X.iloc[positions], y_sampled
 
 
 def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
-- 
2.43.0


From cf37db865381beb61c4be200215307809453ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 04/41] fix: H-statistic of a flat joint effect is 0, not a
 ratio of rounding errors

For features the model does not use, the centred partial dependence is
floating point noise; dividing noise by noise gave values such as 1.0 and
ranked irrelevant pairs as the strongest interactions.
---
 .../partial_dependence_based/_friedman_h_statistic.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ceeaa46..5afa497 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -223,4 +223,7 @@ def _calculate_hstat_value(pd_i: np.ndarray, pd_versus: np.ndarray, pd_i_versus:
     nominator = (center(pd_i_versus) - center(pd_i) - center(pd_versus))**2
     if normalized:
         denominator = center(pd_i_versus)**2
+        # a joint effect that is flat up to floating point noise carries no interaction
+        if np.sqrt(np.max(denominator)) <= 1e-12 * np.max(np.abs(pd_i_versus)):
+            return 0.0
     return np.sum(nominator) / np.sum(denominator) if normalized else np.sqrt(np.mean(nominator))
-- 
2.43.0


From 65a5b22bfafb9a30c30abf9592921d8c122fcbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 05/41] fix: refitting with calculate_ova=False drops the
 previous one vs all results

ova kept describing the previously explained model.
---
 .../partial_dependence_based/_friedman_h_statistic.py          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index 5afa497..b7c61d0 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -105,8 +105,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             If True, one vs all interactions will be calculated. Default is True.
         """
         super().fit(model, X, n, predict_function, features, show_progress, batchsize, pd_calculator)
-        if calculate_ova:
-            self.ova = self._calculate_ova_interactions_from_pd(show_progress)
+        self.ova = self._calculate_ova_interactions_from_pd(show_progress) if calculate_ova else None
 
     def plot(self,
              vis_type: str = VisualizationType.HEATMAP,
-- 
2.43.0


From f23a03a4233a53ae62d9a231902a94997d377227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 06/41] fix: H-statistic fitted with calculate_ova=False can be
 plotted

plot() reported a fitted method as not fitted for every visualization type,
although only bar_chart_ova needs one vs all values.
---
 .../partial_dependence_based/_friedman_h_statistic.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index b7c61d0..41354c4 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -175,7 +175,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             Used for 'graph' visualization. Minimum (or maximum, depends on method) value of interaction to display
             corresponding edge on visualization. Default depends on the interaction method.
         """
-        if self.ova is None:
+        if self.ovo is None or (self.ova is None and vis_type == VisualizationType.BAR_CHART_OVA):
             raise MethodNotFittedException(self.method)
 
         self.visualizer.plot(self.ovo,
-- 
2.43.0


From cdc06e0c429a22fc2a60b19de0e267e97dcb3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 07/41] fix: Greenwell method handles features with a single
 distinct value

statistics.stdev raised StatisticsError for a constant column (common in
small samples of binary features); such a feature has no variation, hence 0.
---
 .../partial_dependence_based/_greenwell.py             | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
index 9468a40..f6d1d2c 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
@@ -80,9 +80,9 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         for pair in self.pairs:
             pair = self.pd_calculator._get_pair_key((pair[0], pair[1]))
             pd_values = self.pd_calculator.get_pd_pairs(pair[0], pair[1])
-            res_j = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
+            res_j = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
                                                                       is_numerical=pair[1] in num_features))
-            res_i = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
+            res_i = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
                                                                       is_numerical=pair[0] in num_features))
             value_pairs.append([pair[0], pair[1], (res_j + res_i) / 2])
         return pd.DataFrame(value_pairs, columns=["Feature 1", "Feature 2", self.method]).sort_values(
@@ -91,4 +91,8 @@ class GreenwellMethod(PartialDependenceBasedMethod):
 
 
 def _calc_conditional_imp(pd_values: np.ndarray, is_numerical: bool):
-    return stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+    return _stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+
+
+def _stdev(values: np.ndarray):
+    return stdev(values) if len(values) > 1 else 0.0
-- 
2.43.0


From d16e848c8ad0f4ffc795343fbdf98ee478a14823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 08/41] fix: SplitScoreMethod explains boosted models made of
 stumps

Without any parent-child split the parent_* and interaction columns were
never created and fit() raised KeyError; such a model has no interactions.
---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 0b4d0a7..ab3ad58 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -206,7 +206,7 @@ def _calculate_full_result(
         .progress_apply(_prepare_stats, package=model_package)
         .reset_index(drop=True)
     )
-    return full_result[_COLUMNS_TO_CHOSE]
+    return full_result.reindex(columns=_COLUMNS_TO_CHOSE)
 
 
 def _prepare_stats(tree: pd.DataFrame, package: str):
-- 
2.43.0


From 53eb5a0a985633ae73a53e267ddd8312dc3df5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:16 +0000
Subject: [PATCH 09/41] fix: root frequency of a feature that never splits a
 root is 0, not NaN

---
 artemis/importance_methods/model_specific/_split_score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f88e901..0d48092 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -100,7 +100,7 @@ def _calculate_all_feature_importance(
     root_metrics = _calculate_root_metrics(trees_df)
     mean_weighted_depth = _calculate_mean_weighted_depth_metric(trees_df)
 
-    importance_full_result = basic_metrics.join(root_metrics)
+    importance_full_result = basic_metrics.join(root_metrics).fillna({"root_frequency": 0, "weighted_root_frequency": 0})
     importance_full_result = pd.concat(
         [importance_full_result, mean_weighted_depth], axis=1
     ).reset_index()
-- 
2.43.0


From 04c5fd749bebee264c68b9409ae88310bb8f2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:16 +0000
Subject: [PATCH 10/41] fix: depth based split score importance lists the most
 important feature first

For mean_depth and mean_weighted_depth a smaller value means a more important
feature (importance_ascending_order is True), but the table was sorted in
descending order, i.e. least important first.
---
 .../importance_methods/model_specific/_split_score.py  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 0d48092..0e9b940 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -8,6 +8,11 @@ from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod
 from artemis._utilities.split_score_metrics import SplitScoreImportanceMetric
 
+_ASCENDING_ORDER_IMPORTANCE_METRICS = [
+    SplitScoreImportanceMetric.MEAN_DEPTH,
+    SplitScoreImportanceMetric.MEAN_WEIGHTED_DEPTH,
+]
+
 
 class SplitScoreImportance(FeatureImportanceMethod):
     """
@@ -82,8 +87,7 @@ class SplitScoreImportance(FeatureImportanceMethod):
 
     @property
     def importance_ascending_order(self):
-        return self.selected_metric in [SplitScoreImportanceMetric.MEAN_DEPTH,
-                                        SplitScoreImportanceMetric.MEAN_WEIGHTED_DEPTH]
+        return self.selected_metric in _ASCENDING_ORDER_IMPORTANCE_METRICS
 
 
 def _calculate_all_feature_importance(
@@ -146,7 +150,7 @@ def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
         ["split_feature", selected_metric]
     ].rename(columns={"split_feature": "Feature", selected_metric: "Importance"})
     return feature_importance.sort_values(
-        by="Importance", ascending=False, ignore_index=True
+        by="Importance", ascending=selected_metric in _ASCENDING_ORDER_IMPORTANCE_METRICS, ignore_index=True
     )
 
 
-- 
2.43.0


From 957f0f46a3e8d210e1dbef4aef083c382c41221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:47 +0000
Subject: [PATCH 11/41] fix: conditional minimal depth of forests grown
 best-first (max_leaf_nodes)

Subtrees are recognised as ranges of node ids, which is only valid when nodes
are numbered depth-first. scikit-learn numbers them in growth order when
max_leaf_nodes is set, so nodes outside of a subtree were counted as inside
and vice versa.
---
 .../_conditional_minimal_depth.py             | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 7525c24..9e64649 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -233,15 +233,28 @@ def _bfs(tree: pd.DataFrame):
 
 
 def _tree_representation(decision_tree_object):
-    """Efficient, sklearn-like table tree representation. Row = node in the tree."""
+    """Efficient, sklearn-like table tree representation. Row = node in the tree, rows are in depth-first order."""
+    order = _depth_first_order(decision_tree_object.children_left, decision_tree_object.children_right)
+    new_ids = np.append(np.argsort(order), -1)  # last element maps missing child (-1) to itself
     return pd.DataFrame({
         "id": range(decision_tree_object.node_count),
-        "left_child": decision_tree_object.children_left,
-        "right_child": decision_tree_object.children_right,
-        "split_variable": decision_tree_object.feature,
+        "left_child": new_ids[decision_tree_object.children_left[order]],
+        "right_child": new_ids[decision_tree_object.children_right[order]],
+        "split_variable": decision_tree_object.feature[order],
     })
 
 
+def _depth_first_order(left_child: np.array, right_child: np.array):
+    """Node ids in depth-first order. Trees grown best-first (`max_leaf_nodes`) are not numbered this way."""
+    order, to_visit = [], [0]
+    while to_visit:
+        node = to_visit.pop()
+        order.append(node)
+        if left_child[node] >= 0:
+            to_visit += [right_child[node], left_child[node]]
+    return np.array(order)
+
+
 def _conditional_minimal_depth(split_var_to_nodes: dict, depths: np.array, tree_id: int, column_size: int):
     """
     Main algorithm for efficient conditional minimal depth calculation.
-- 
2.43.0


From 4d5d54aba316b6cb8c647dddc61020a06049bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:47 +0000
Subject: [PATCH 12/41] fix: conditional minimal depth comparison keeps
 distinct feature pairs apart

Pairs were keyed by the concatenated names, so e.g. (a, bc) and (ab, c) were
merged into one and averaged.
---
 .../model_specific/random_forest/_conditional_minimal_depth.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 9e64649..1b3a07b 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -56,7 +56,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         compare_ovo = self.ovo.copy().rename(columns={"root_variable": "Feature 1", "variable": "Feature 2"})
-        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: "".join(sorted(x)), axis=1)
+        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: tuple(sorted(x)), axis=1)
         return (compare_ovo.groupby("id")
                            .agg({"Feature 1": "first", "Feature 2": "first", self.method: "mean"})
                            .sort_values(InteractionMethod.CONDITIONAL_MINIMAL_DEPTH,
-- 
2.43.0


From 80db7227717efeb399cebe620225ad7bd77633aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:47 +0000
Subject: [PATCH 13/41] fix: minimal depth importance of a forest without any
 split is an empty table

It raised KeyError('Importance').
---
 artemis/importance_methods/model_specific/_minimal_depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_minimal_depth.py b/artemis/importance_methods/model_specific/_minimal_depth.py
index f6911ea..6d08714 100644
--- a/artemis/importance_methods/model_specific/_minimal_depth.py
+++ b/artemis/importance_methods/model_specific/_minimal_depth.py
@@ -70,7 +70,7 @@ class MinimalDepthImportance(FeatureImportanceMethod):
             )
 
         self.feature_importance = pd.DataFrame.from_records(
-            records_result
+            records_result, columns=["Feature", "Importance"]
         ).sort_values(by="Importance", ignore_index=True)
 
         return self.feature_importance
-- 
2.43.0


From 028905901c63e6d402a949b1ffe71aa8e86a7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:46 +0000
Subject: [PATCH 14/41] fix: interaction graph draws features that take part in
 no interaction

A feature with importance but without any interaction (usual for split score)
has no node in the graph, so drawing raised NetworkXError: has no position.
---
 artemis/visualizer/_visualizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e46d4ee..0737663 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -282,6 +282,8 @@ class Visualizer:
             edge_attr=self.method,
             create_using=nx.DiGraph if _directed else nx.Graph,
         )
+        if feature_importance is not None:
+            G.add_nodes_from(feature_importance["Feature"])  # features without any interaction
         pos = nx.circular_layout(G)
 
         nx.draw(
-- 
2.43.0


From f3c46590bff648f8a188e3ddb16e4b77990e671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:46 +0000
Subject: [PATCH 15/41] fix: summary plot respects the direction of interaction
 and importance measures

The graph in the summary treated small values as weak for measures where a
small value means a strong interaction (conditional minimal depth, mean
depth), hiding the strongest edges; the heatmap ignored the direction of the
importance.
---
 artemis/visualizer/_visualizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 0737663..e84d1d1 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -51,6 +51,7 @@ class Visualizer:
                 title=title,
                 figsize=figsize,
                 interactions_ascending_order=interactions_ascending_order,
+                importance_ascending_order=importance_ascending_order,
                 _f1_name=_feature_column_name_1,
                 _f2_name=_feature_column_name_2,
                 _directed=_directed,
@@ -407,6 +408,7 @@ class Visualizer:
             title: str = "default",
             figsize: Tuple[float, float] = (8, 6),
             interactions_ascending_order: bool = False,
+            importance_ascending_order: bool = False,
             _f1_name: str = "Feature 1",
             _f2_name: str = "Feature 2",
             _directed: bool = False,
@@ -427,6 +429,7 @@ class Visualizer:
             ovo,
             feature_importance,
             interactions_ascending_order=interactions_ascending_order,
+            importance_ascending_order=importance_ascending_order,
             ax=ax1,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
@@ -436,6 +439,7 @@ class Visualizer:
         self.plot_interaction_graph(
             ovo,
             feature_importance,
+            interactions_ascending_order=interactions_ascending_order,
             ax=ax2,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
-- 
2.43.0


From 3199b4566b95422c63ccf761b99fea30646d149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:27 +0000
Subject: [PATCH 16/41] fix: interaction graph shows the strongest and equally
 strong interactions

For measures where smaller means stronger, a value of exactly 0 (the strongest
possible) was confused with a filtered out interaction and got width 0; when
all values were equal (e.g. a single pair) every width was 0/0 = NaN.
---
 artemis/visualizer/_visualizer.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e84d1d1..ed860d3 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -325,14 +325,16 @@ class Visualizer:
     def _interactions_to_edge_widths(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame,
                                      max_width: float):
 
-        # standardize edge widths by scaling interactions to [0,1] interval
-        self._scale_to_unit_interval(ovo_copy)
-
-        # a => (1 - a) for ascending order
-        self._reverse_scale_for_ascending(interactions_ascending_order, ovo_copy)
+        vals = ovo_copy[self.method]
+        m, M = np.min(vals), np.max(vals)
+        if M > m:
+            # standardize edge widths by scaling interactions to [0,1] interval, a => (1 - a) for ascending order
+            widths = (M - vals if interactions_ascending_order else vals - m) / (M - m)
+        else:
+            # all relevant interactions are equally strong
+            widths = (vals.notnull() if interactions_ascending_order else vals > 0).astype(float)
 
-        # map to width
-        self._map_to_width(max_width, ovo_copy)
+        ovo_copy[self.method] = (widths * max_width).fillna(0)
 
     def plot_barchart_ovo(
             self,
@@ -606,25 +608,12 @@ class Visualizer:
                                            threshold_relevant_interaction: float,
                                            ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = 0
+            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = np.nan
         else:
             ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = 0
 
         return ovo_copy.copy()
 
-    def _scale_to_unit_interval(self, ovo_copy: pd.DataFrame):
-        vals = ovo_copy[self.method]
-        m, M = np.min(vals), np.max(vals)
-        ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
-
-    def _reverse_scale_for_ascending(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
-        if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > 0, self.method] = 1 - ovo_copy.loc[
-                ovo_copy[self.method] > 0, self.method]
-
-    def _map_to_width(self, max_width: float, ovo_copy: pd.DataFrame):
-        ovo_copy[self.method] = ovo_copy[self.method] * max_width
-
     @staticmethod
     def order_heatmap(matrix: pd.DataFrame, asc_order: bool) -> pd.DataFrame:
         feature_importance = pd.Series(np.diag(matrix), index=matrix.index)
-- 
2.43.0


From 43818487cc2538d7267366c8a89bdf9e26fc32a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:27 +0000
Subject: [PATCH 17/41] fix: heatmap diagonal always shows feature importance

With only_def_interactions=False a feature can be paired with itself and that
value replaced the feature's importance on the diagonal.
---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index ed860d3..5d86c06 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -189,7 +189,7 @@ class Visualizer:
             var_imp_diag = self._feature_importance_diag(
                 ovo, feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
             )
-            ovo_all_pairs = pd.concat([ovo_all_pairs, var_imp_diag])
+            ovo_all_pairs = pd.concat([var_imp_diag, ovo_all_pairs])
 
         fig = None
         if ax is not None:
-- 
2.43.0


From 23c20fdcdc960dc729c1fe109ccfbe53fdad2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:27 +0000
Subject: [PATCH 18/41] fix: heatmap of a forest that does not use every
 feature

Conditional minimal depth lists pairs of features the forest never splits on,
for which there is no importance; plotting raised IndexError.
---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 5d86c06..ef41a9b 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -598,7 +598,7 @@ class Visualizer:
                         feature_importance["Feature"] == f
                         ]["Importance"].values[0],
                 }
-                for f in all_features
+                for f in all_features.intersection(feature_importance["Feature"])
             ]
         )
         return var_imp_diag
-- 
2.43.0


From ee77e4372770f4ed1596ff2584a0f876d902f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:27 +0000
Subject: [PATCH 19/41] fix: one vs all bar chart uses the given title

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index ef41a9b..f7e8c0d 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -70,7 +70,7 @@ class Visualizer:
                 **kwargs,
             )
         elif vis_type == VisualizationType.BAR_CHART_OVA:
-            self.plot_barchart_ova(ova, figsize=figsize, **kwargs)
+            self.plot_barchart_ova(ova, title=title, figsize=figsize, **kwargs)
         elif vis_type == VisualizationType.HEATMAP:
             self.plot_heatmap(
                 ovo,
-- 
2.43.0


From 36ae288f8aa47dcca56625c4775f300426a2e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:27 +0000
Subject: [PATCH 20/41] fix: lollipop plot shows the requested fraction of
 trees

The limit was a fraction of the highest tree index, so the last tree was never
shown (max_trees=1 hid a tree, a single tree was never plotted), and roots and
other nodes used different limits.
---
 artemis/visualizer/_visualizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index f7e8c0d..1847c3c 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -503,8 +503,9 @@ class Visualizer:
         full_result_copy["pair_name"] = (
                 full_result_copy["parent_name"] + ":" + full_result_copy["split_feature"]
         )
+        max_trees = max_trees * full_result_copy["tree"].nunique()
         roots = full_result_copy.loc[full_result_copy["depth"] == 0].copy()
-        roots = roots[roots["tree"] < max_trees * roots["tree"].max()]
+        roots = roots[roots["tree"] < max_trees]
         nodes = full_result_copy.loc[
             (full_result_copy["leaf"] == False)
             & (full_result_copy["depth"] > 0)
@@ -513,7 +514,7 @@ class Visualizer:
         nodes.loc[full_result_copy["interaction"] == True, "split_feature"] = nodes.loc[
             full_result_copy["interaction"] == True, "pair_name"
         ]
-        nodes = nodes[nodes["tree"] < max_trees * nodes["tree"].max()]
+        nodes = nodes[nodes["tree"] < max_trees]
 
         ax.set_axisbelow(True)
         plt.xscale(scale)
-- 
2.43.0


From 0bb593057ba2f1385ea7d73660716b79a9f73fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:08 +0000
Subject: [PATCH 21/41] fix: interaction graph of a forest that does not use
 every feature

Drawing raised ValueError because features without importance are not in the
list of drawn nodes.
---
 artemis/visualizer/_visualizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 1847c3c..003827f 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -285,6 +285,7 @@ class Visualizer:
         )
         if feature_importance is not None:
             G.add_nodes_from(feature_importance["Feature"])  # features without any interaction
+            G.remove_nodes_from(set(G) - set(feature_importance["Feature"]))  # features unused by the model
         pos = nx.circular_layout(G)
 
         nx.draw(
-- 
2.43.0


From ced8252e5f0dc7f0d0b88e6d6db408e2690bf06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:08 +0000
Subject: [PATCH 22/41] fix: comparator correlates the ranks that two methods
 give to the same pairs

It correlated alphabetical codes of the pairs found at the same position of
both rankings, so the result depended on feature names (completely opposite
rankings could get a positive correlation) and, with differing sets of pairs,
compared codes of different dictionaries. Pair names were also joined with
'-', which confuses pairs like (a-b, c) and (a, b-c).
---
 artemis/comparison/_method_comparator.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0cc98ce..d0ed7f8 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -176,12 +176,17 @@ class FeatureInteractionMethodComparator:
 
 
 def _rank_interaction_values_encoded(method1, method2):
-    rank_features_m1 = method1._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_m2 = method2._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_encoded = pd.concat(
-        [rank_features_m1.astype('category').cat.codes, rank_features_m2.astype('category').cat.codes], axis=1)
+    # ranks of the same pair of features according to both methods, pairs known to only one of them are left out
+    return pd.concat([_rank_pairs(method1), _rank_pairs(method2)], axis=1, join="inner")
 
-    return rank_features_encoded
+
+def _rank_pairs(method: FeatureInteractionMethod):
+    ovo = method._compare_ovo
+    pairs = [_alphabetical_order_pair(row) for _, row in ovo.iterrows()]
+    strongest = pd.Series(ovo[method.method].values, index=pd.Index(pairs, tupleize_cols=False))
+    strongest = strongest[~strongest.index.duplicated()]  # as in interaction_value, for directed pairs
+
+    return strongest.rank(ascending=method._interactions_ascending_order)
 
 
 def _title_x_y(ax, m1_name, m2_name):
@@ -232,6 +237,4 @@ def _suitable_for_ovo(method: FeatureInteractionMethod):
 
 
 def _alphabetical_order_pair(row):
-    features_alphabetical = sorted([row["Feature 1"], row["Feature 2"]])
-
-    return "-".join(features_alphabetical)
+    return tuple(sorted([row["Feature 1"], row["Feature 2"]]))
-- 
2.43.0


From 4b97d2810662e639dac97f556852ef6579a78ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:08 +0000
Subject: [PATCH 23/41] fix: PartialDependenceVisualizer.plot passes axes under
 the right name

Every call raised TypeError: unexpected keyword argument '_ax'.
---
 artemis/visualizer/_pdp_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_pdp_visualizer.py b/artemis/visualizer/_pdp_visualizer.py
index 50d9ce1..4c59a4c 100644
--- a/artemis/visualizer/_pdp_visualizer.py
+++ b/artemis/visualizer/_pdp_visualizer.py
@@ -58,6 +58,6 @@ class PartialDependenceVisualizer:
                                                 self.X,
                                                 features,
                                                 grid_resolution=grid_resolution,
-                                                _ax=ax,
+                                                ax=ax,
                                                 **kwargs)
         ax.set_title(title)
-- 
2.43.0


From 3567e8c15ff82a07f745fde6ebe0e3f0e2603814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:08 +0000
Subject: [PATCH 24/41] fix: zenplot of a method with no more pairs than the
 requested path length

plot_zenplot() with default arguments raised IndexError for up to 4 features.
---
 .../model_agnostic/partial_dependence_based/_pdp.py        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 6a29057..3f05abe 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -274,6 +274,13 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 ax.set_title(pair[0], size=10)
                 id_col += 1
 
+            if to_vis.empty:
+                if id_col > id_row:
+                    ax.set_ylabel(pair[1])
+                else:
+                    ax.set_title(pair[1], size=10)
+                break
+
             idx, continued = find_next_pair_index(to_vis, pair[1])
             if continued:
                 pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
-- 
2.43.0


From 11a22dd6f7e27598dbc743d2dad12b34e144d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:08 +0000
Subject: [PATCH 25/41] fix: zenplot color scale is the range of the displayed
 partial dependence values

The scale was forced to include [0, 1] and became NaN, depending on the order
of pairs, when partial dependence is known only for observed value pairs
(H-statistic).
---
 artemis/_utilities/zenplot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/artemis/_utilities/zenplot.py b/artemis/_utilities/zenplot.py
index 1be7bde..df5308a 100644
--- a/artemis/_utilities/zenplot.py
+++ b/artemis/_utilities/zenplot.py
@@ -27,12 +27,12 @@ def get_pd_pairs_values(method, pair):
 
 
 def get_pd_dict(pd_calculator, to_vis):
-    max_pd = 0
-    min_pd = 1
+    max_pd = -np.inf
+    min_pd = np.inf
     for i in range(len(to_vis)):
         pair = (to_vis.iloc[i, 0], to_vis.iloc[i, 1])
         pair_key = pd_calculator._get_pair_key(pair)
         pair_values = pd_calculator.pd_pairs[pair_key].copy()
-        max_pd = max(np.max(pair_values["pd_values"]), max_pd)
-        min_pd = min(np.min(pair_values["pd_values"]), min_pd)
+        max_pd = max(np.nanmax(pair_values["pd_values"]), max_pd)
+        min_pd = min(np.nanmin(pair_values["pd_values"]), min_pd)
     return min_pd, max_pd
-- 
2.43.0


From d7593b135a8a5b63fe3b1e50659ce7bf81fd532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:32 +0000
Subject: [PATCH 26/41] fix: a rejected split score metric leaves the fitted
 explanation unchanged

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index ab3ad58..b34e369 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -87,8 +87,8 @@ class SplitScoreMethod(FeatureInteractionMethod):
         """
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
-        self.metric = interaction_selected_metric
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
+        self.metric = interaction_selected_metric
         self.full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
         )
-- 
2.43.0


From cf61e00806323665ddf5e20a7be89f6a911cb6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:32 +0000
Subject: [PATCH 27/41] fix: summary passes options given for bar_chart as
 documented

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 003827f..ae49681 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -425,7 +425,7 @@ class Visualizer:
 
         heatmap_kwargs = kwargs.pop("heatmap", None)
         graph_kwargs = kwargs.pop("graph", None)
-        bar_char_ovo_kwargs = kwargs.pop("bar_chart_ovo", None)
+        bar_char_ovo_kwargs = kwargs.pop("bar_chart", kwargs.pop("bar_chart_ovo", None))
         bar_char_ova_kwargs = kwargs.pop("bar_chart_ova", None)
 
         self.plot_heatmap(
-- 
2.43.0


From 587b8b169b2821967fa843cc5fc7d7f77f8d4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:41 +0000
Subject: [PATCH 28/41] fix: comparison plot of methods that do not know the
 same pairs

---
 artemis/comparison/_method_comparator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index d0ed7f8..5788cc4 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -119,7 +119,9 @@ class FeatureInteractionMethodComparator:
         circle_r = 0.2 * min(max(method1._compare_ovo[m1_name]), max(method2._compare_ovo[m2_name]))
 
         x, y = [], []
-        for index, row in method1._compare_ovo.iterrows():
+        pairs2 = {_alphabetical_order_pair(row) for _, row in method2._compare_ovo.iterrows()}
+        known_to_both = [_alphabetical_order_pair(row) in pairs2 for _, row in method1._compare_ovo.iterrows()]
+        for index, row in method1._compare_ovo[known_to_both].reset_index(drop=True).iterrows():
 
             f1, f2 = row["Feature 1"], row["Feature 2"]
             x_curr, y_curr = row[method1.method], method2.interaction_value(f1, f2)
-- 
2.43.0


From 38e69839105e17c682290cd8424694b4bc5ac2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:41 +0000
Subject: [PATCH 29/41] fix: correlation box shows the correlations of the
 plotted methods, not of an earlier summary

---
 artemis/comparison/_method_comparator.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 5788cc4..5ed4e00 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -140,11 +140,7 @@ class FeatureInteractionMethodComparator:
 
         if add_correlation_box:
 
-            corr = self.correlations_df
-            if self.correlations_df is None:
-                corr = self.correlations(method1, method2)
-
-            _add_correlation_box(ax, corr)
+            _add_correlation_box(ax, self.correlations(method1, method2))
 
         _title_x_y(ax, m1_name, m2_name)
 
-- 
2.43.0


From 9d1ee85d90e4aaec93279307ab479a7621abb6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:04 +0000
Subject: [PATCH 30/41] fix: split score importance of a boosted model without
 any split is an empty table

---
 artemis/importance_methods/model_specific/_split_score.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 0e9b940..71bc691 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -137,6 +137,8 @@ def _calculate_root_metrics(trees_df: pd.DataFrame):
 
 
 def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
+    if trees_df["split_feature"].isnull().all():  # no splits at all
+        return pd.Series(name="mean_weighted_depth", dtype=float, index=pd.Index([], name="split_feature"))
     return pd.Series(
         trees_df.groupby("split_feature").apply(
             lambda x: np.average(x.depth, weights=x.gain)
-- 
2.43.0


From e7bd3b6b697de9266a63dc2cc7420d07d384e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:01 +0000
Subject: [PATCH 31/41] fix: interaction graph edge of a pair reported in both
 orders is as wide as the stronger one

---
 artemis/visualizer/_visualizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index ae49681..a423584 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -275,6 +275,11 @@ class Visualizer:
 
         self._interactions_to_edge_widths(interactions_ascending_order, ovo_copy, max_edge_width)
 
+        if not _directed:
+            # a pair reported in both orders has one edge, as wide as the stronger of the two
+            pairs = ovo_copy[[_f1_name, _f2_name]].apply(frozenset, axis=1)
+            ovo_copy[self.method] = ovo_copy[self.method].groupby(pairs).transform("max")
+
         # return ovo_processed, ovo_no_sig_inter
         G = nx.from_pandas_edgelist(
             ovo_copy,
-- 
2.43.0


From 4d2aebf9db04c57c9ba18fd0bff744c74ad5118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:47 +0000
Subject: [PATCH 32/41] fix: pair bar chart in the summary lists the strongest
 pair first when one vs all results are shown too

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index a423584..c24703d 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -375,7 +375,7 @@ class Visualizer:
             grid=True,
             ax=ax,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_barchart_ova(
             self,
@@ -406,7 +406,7 @@ class Visualizer:
             ax=ax,
             grid=True,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_summary(
             self,
-- 
2.43.0


From d74a0e3d771579646d2302f0223ea5927efdd6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:54 +0000
Subject: [PATCH 33/41] fix: last zenplot panel is labelled with its own second
 feature

---
 .../model_agnostic/partial_dependence_based/_pdp.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 3f05abe..123530e 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -283,12 +283,12 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
 
             idx, continued = find_next_pair_index(to_vis, pair[1])
             if continued:
-                pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
                 if zenpath_length - 1 == i:
                     if id_col > id_row:
                         ax.set_ylabel(pair[1])
                     else:
                         ax.set_title(pair[1], size=10)
+                pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
             else:
                 if id_col > id_row:
                     ax.set_ylabel(pair[1])
-- 
2.43.0


From 5be858889cc722c547dbebf577f7497cab04eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:37 +0000
Subject: [PATCH 34/41] fix: the model is asked about columns of the data's own
 types

---
 artemis/_utilities/pd_calculator.py               | 15 ++++++++++-----
 .../model_agnostic/_permutational_importance.py   |  1 +
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5192233..d4bde4b 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -71,7 +71,7 @@ class PartialDependenceCalculator:
             if np.isnan(self.pd_single[feature]["pd_values"]).any(): 
                 for value in self.pd_single[feature]["f_values"]:
                     change_dict = {feature: value}
-                    X_changed = self.X.copy().assign(**change_dict)
+                    X_changed = self._with_values(change_dict)
                     range_dict[(feature, value)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
                     X_full = pd.concat((X_full, X_changed))
@@ -100,7 +100,7 @@ class PartialDependenceCalculator:
                 f2_ind = get_index(self.pd_pairs[(feature1, feature2)]["f2_values"], value2)
                 if np.isnan(self.pd_pairs[(feature1, feature2)]["pd_values"][f1_ind, f2_ind]): 
                     change_dict = {feature1: value1, feature2: value2}
-                    X_changed = self.X.copy().assign(**change_dict)
+                    X_changed = self._with_values(change_dict)
                     range_dict[(feature1, feature2, value1, value2)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
                     X_full = pd.concat((X_full, X_changed))
@@ -120,9 +120,9 @@ class PartialDependenceCalculator:
         X_full = pd.DataFrame()
         for feature in tqdm(features, desc=desc, disable=not show_progress):
             if np.isnan(self.pd_minus_single[feature]["pd_values"]).any(): 
-                for i, row in self.X.copy().reset_index(drop=True).iterrows():
-                    change_dict = {other_feature: row[other_feature] for other_feature in self.X.columns if other_feature != feature}
-                    X_changed = self.X.copy().assign(**change_dict)
+                for i in range(self.X_len):
+                    change_dict = {other_feature: self.X[other_feature].iloc[i] for other_feature in self.X.columns if other_feature != feature}
+                    X_changed = self._with_values(change_dict)
                     range_dict[(feature, i)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
                     X_full = pd.concat((X_full, X_changed))
@@ -155,6 +155,11 @@ class PartialDependenceCalculator:
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
 
+    def _with_values(self, change_dict: Dict[str, Any]) -> pd.DataFrame:
+        # the model is asked about data of the same types as the original ones
+        dtypes = {feature: self.X[feature].dtype for feature in change_dict}
+        return self.X.copy().assign(**change_dict).astype(dtypes, copy=False)
+
     def _get_pair_key(self, pair: Tuple[str, str]) -> Tuple[str, str]:
         if pair in self.pd_pairs.keys():
             return pair
diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 87deb10..fe017a1 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -130,6 +130,7 @@ def _corrupted_scores(
     ):
         for feature in features:
             X_copy_permuted[feature] = random_generator.permutation(X_copy_permuted[feature])
+            X_copy_permuted[feature] = X_copy_permuted[feature].astype(X[feature].dtype)
             corrupted_scores[feature].append(
                 metric.calculate(y, model.predict(X_copy_permuted))
             )
-- 
2.43.0


From b4b655a7c889d9b19ac8356ecbf2a7c7e3905541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:43 +0000
Subject: [PATCH 35/41] fix: the form in which predictions and targets come
 does not change the results

---
 artemis/_utilities/ops.py                                 | 5 +++++
 artemis/_utilities/pd_calculator.py                       | 8 ++++----
 artemis/_utilities/performance_metrics.py                 | 5 +++--
 artemis/additivity/_additivity_meter.py                   | 4 ++--
 .../partial_dependence_based/_friedman_h_statistic.py     | 4 ++--
 5 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index 73e11e9..1692304 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -38,6 +38,11 @@ def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
         return columns
 
 
+def as_vector(predictions) -> ndarray:
+    # models return arrays, one-column arrays, series or lists
+    return np.asarray(predictions, dtype=float).ravel()
+
+
 def center(x: np.array):
     return x - np.mean(x)
 
diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index d4bde4b..d591158 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -5,7 +5,7 @@ import pandas as pd
 from tqdm import tqdm
 from artemis._utilities.domain import ProgressInfoLog
 
-from artemis._utilities.ops import get_predict_function
+from artemis._utilities.ops import as_vector, get_predict_function
 
 
 class PartialDependenceCalculator: 
@@ -135,14 +135,14 @@ class PartialDependenceCalculator:
             self.fill_pd_minus_single(range_dict, X_full)
 
     def fill_pd_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = as_vector(self.predict_function(self.model, X_full))
         for var_name, var_val in range_dict.keys():
             start, end = range_dict[(var_name, var_val)]
             value_index = get_index(self.pd_single[var_name]["f_values"], var_val)
             self.pd_single[var_name]["pd_values"][value_index] = np.mean(y[start:end])
 
     def fill_pd_pairs(self, range_dict, X_full):
-        y = self.predict_function(self.model, X_full)
+        y = as_vector(self.predict_function(self.model, X_full))
         for var_name1, var_name2, var_val1, var_val2 in range_dict.keys():
             start, end = range_dict[(var_name1, var_name2, var_val1, var_val2)]
             value_index1 = get_index(self.pd_pairs[(var_name1, var_name2)]["f1_values"], var_val1)
@@ -150,7 +150,7 @@ class PartialDependenceCalculator:
             self.pd_pairs[(var_name1, var_name2)]["pd_values"][value_index1, value_index2] = np.mean(y[start:end])
 
     def fill_pd_minus_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = as_vector(self.predict_function(self.model, X_full))
         for var_name, row_id in range_dict.keys():
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
diff --git a/artemis/_utilities/performance_metrics.py b/artemis/_utilities/performance_metrics.py
index a3b2dd8..5893d85 100644
--- a/artemis/_utilities/performance_metrics.py
+++ b/artemis/_utilities/performance_metrics.py
@@ -3,6 +3,7 @@ from abc import abstractmethod, ABC
 import numpy as np
 
 from .domain import ProblemType
+from .ops import as_vector
 
 
 class Metric:
@@ -33,7 +34,7 @@ class MSE(Metric):
         super().__init__(ProblemType.REGRESSION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.square(y_hat - y_true).mean()
+        return np.square(as_vector(y_hat) - as_vector(y_true)).mean()
 
 
 class Accuracy(Metric):
@@ -42,4 +43,4 @@ class Accuracy(Metric):
         super().__init__(ProblemType.CLASSIFICATION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.equal(y_true, y_hat).mean()
+        return np.equal(np.ravel(y_true), np.ravel(y_hat)).mean()
diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 1863f5a..f7a001a 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -2,7 +2,7 @@ from typing import Callable, List, Optional
 import numpy as np
 import pandas as pd
 from artemis._utilities.domain import ProgressInfoLog
-from artemis._utilities.ops import get_predict_function, sample_if_not_none
+from artemis._utilities.ops import as_vector, get_predict_function, sample_if_not_none
 
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 
@@ -106,7 +106,7 @@ class AdditivityMeter:
             show_progress=show_progress, desc=ProgressInfoLog.CALC_ADD
         )
 
-        self.preds = self.predict_function(self.model, self.X_sampled)
+        self.preds = as_vector(self.predict_function(self.model, self.X_sampled))
         for var in self.X_sampled.columns:
             self.full_result[var] = self.pd_calculator.get_pd_single(var, self.X_sampled[var].values) - np.mean(self.preds)
 
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index 41354c4..7646843 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -6,7 +6,7 @@ from tqdm import tqdm
 
 from artemis._utilities.domain import VisualizationType, InteractionMethod, ProgressInfoLog
 from artemis._utilities.exceptions import MethodNotFittedException
-from artemis._utilities.ops import remove_element, center, partial_dependence_value
+from artemis._utilities.ops import as_vector, remove_element, center, partial_dependence_value
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from ._pdp import PartialDependenceBasedMethod
 
@@ -190,7 +190,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
 
     def _calculate_ova_interactions_from_pd(self, show_progress: bool) -> pd.DataFrame:
         self.pd_calculator.calculate_pd_minus_single(self.features_included, show_progress=show_progress)
-        preds = self.predict_function(self.model, self.X_sampled)
+        preds = as_vector(self.predict_function(self.model, self.X_sampled))
         value_minus_single = []
         for feature in self.features_included:
             pd_f = self.pd_calculator.get_pd_single(feature, feature_values=self.X_sampled[feature].values)
-- 
2.43.0


From 9ff7ce546cef4356cf2dfe7647ecc546952295c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:09 +0000
Subject: [PATCH 36/41] fix: the lollipop plot is documented under the name
 that is accepted

---
 .../model_specific/gb_trees/_split_score.py    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index b34e369..1b55645 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -112,12 +112,12 @@ class SplitScoreMethod(FeatureInteractionMethod):
         - bar_chart - bar chart of top feature interactions values
         - graph - graph of feature interactions values
         - summary - combination of heatmap, bar chart and graph plots
-        - lolliplot - lolliplot for first k decision trees with split scores values.
+        - lollipop - lollipop plot for first k decision trees with split scores values.
         
         Parameters
         ----------
         vis_type : str 
-            Type of visualization, one of ['heatmap', 'bar_chart', 'graph', 'lolliplot', 'summary']. Default is 'heatmap'.
+            Type of visualization, one of ['heatmap', 'bar_chart', 'graph', 'lollipop', 'summary']. Default is 'heatmap'.
         title : str 
             Title of plot, default is 'default' which means that title will be automatically generated for selected visualization type.
         figsize : (float, float) 
@@ -168,21 +168,21 @@ class SplitScoreMethod(FeatureInteractionMethod):
             corresponding edge on visualization. Default depends on the interaction method.
 
         max_trees : float
-            Used for 'lolliplot' visualization. Fraction of trees that will be presented in plot. Default is 0.2. 
+            Used for 'lollipop' visualization. Fraction of trees that will be presented in plot. Default is 0.2. 
         colors : List[str]
-            Used for 'lolliplot' visualization. List of colors for nodes with successive depths. 
+            Used for 'lollipop' visualization. List of colors for nodes with successive depths. 
             Default is ["#e41a1c", "#377eb8", "#4daf4a", "#984ea3", "#ff7f00", "#ffff33"]. 
         shapes : List[str]
-            Used for 'lolliplot' visualization. List of shapes for nodes with successive depths. 
+            Used for 'lollipop' visualization. List of shapes for nodes with successive depths. 
             Default is ["o", ",", "v", "^", "<", ">"]. 
         max_depth : int
-            Used for 'lolliplot' visualization. Threshold for depth of nodes that will be presented in plot. Default is 1. 
+            Used for 'lollipop' visualization. Threshold for depth of nodes that will be presented in plot. Default is 1. 
         label_threshold : float
-            Used for 'lolliplot' visualization. Threshold for fraction of score of nodes that will be labeled in plot. Default is 0.1. 
+            Used for 'lollipop' visualization. Threshold for fraction of score of nodes that will be labeled in plot. Default is 0.1. 
         labels : bool
-            Used for 'lolliplot' visualization. Whether to add labels to plot. Default is True. 
+            Used for 'lollipop' visualization. Whether to add labels to plot. Default is True. 
         scale : str
-            Used for 'lolliplot' visualization. Scale for x axis (trees). Default is 'linear'. 
+            Used for 'lollipop' visualization. Scale for x axis (trees). Default is 'linear'. 
         """
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
-- 
2.43.0


From 3a8b1ebb7d9307d7b351db73fd5354a39f88a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:23 +0000
Subject: [PATCH 37/41] fix: partial dependence of data with missing values

---
 artemis/_utilities/pd_calculator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index d591158..28c369a 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -168,6 +168,8 @@ class PartialDependenceCalculator:
 
 
 def get_index(array, value) -> int:
+    if pd.isnull(value):
+        return np.where(pd.isnull(array))[0][0]
     return np.where(array == value)[0][0]
 
 def reorder_pair_values(pair_values: List[Tuple[Any, Any]]) -> List[Tuple[Any, Any]]:
-- 
2.43.0


From 39eb7ce837dbf7678f8b6aad7dc3e2ef5c373f06 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:13:15 +0000
Subject: [PATCH 38/41] fix: conditional bar chart colours every bar by its own
 number of occurrences

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index c24703d..34c1792 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -139,7 +139,7 @@ class Visualizer:
         new_cmap = colors.LinearSegmentedColormap.from_list("new_cmap", cmap(np.linspace(0.5, 1, 100)))
         sm = plt.cm.ScalarMappable(cmap=new_cmap, norm=norm)
         ax = sns.barplot(df_to_plot, x="Interaction", y=self.method, hue="n_occurences",
-                         palette=sm.to_rgba(np.flip(df_to_plot["n_occurences"])), dodge=False)
+                         palette={n: sm.to_rgba(n) for n in df_to_plot["n_occurences"]}, dodge=False)
         plt.vlines(x=df_to_plot["Interaction"], ymin=df_to_plot[self.method],
                    ymax=df_to_plot["unconditional_importance"], color=color, alpha=0.5)
         plt.scatter(df_to_plot["Interaction"], y=df_to_plot["unconditional_importance"], color=color, marker="o")
-- 
2.43.0


From 096adfc7fa08a05a8ebce4ffabd45ed1923a832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:06 +0000
Subject: [PATCH 39/41] fix: partial dependence of a feature named self

---
 artemis/_utilities/pd_calculator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 28c369a..d170ce8 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -158,7 +158,10 @@ class PartialDependenceCalculator:
     def _with_values(self, change_dict: Dict[str, Any]) -> pd.DataFrame:
         # the model is asked about data of the same types as the original ones
         dtypes = {feature: self.X[feature].dtype for feature in change_dict}
-        return self.X.copy().assign(**change_dict).astype(dtypes, copy=False)
+        X_changed = self.X.copy()
+        for feature, value in change_dict.items():
+            X_changed[feature] = value
+        return X_changed.astype(dtypes, copy=False)
 
     def _get_pair_key(self, pair: Tuple[str, str]) -> Tuple[str, str]:
         if pair in self.pd_pairs.keys():
-- 
2.43.0


From ea9fdf22e17fb157f91d6e70ee9c63f35672830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:06 +0000
Subject: [PATCH 40/41] fix: additivity of data with a feature named
 centered_prediction

---
 artemis/additivity/_additivity_meter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index f7a001a..04ec4bb 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -110,8 +110,7 @@ class AdditivityMeter:
         for var in self.X_sampled.columns:
             self.full_result[var] = self.pd_calculator.get_pd_single(var, self.X_sampled[var].values) - np.mean(self.preds)
 
-        self.full_result = self.full_result
+        sum_first_order_effects = self.full_result.values.sum(axis=1) + np.mean(self.preds)
         self.full_result["centered_prediction"] = self.preds - np.mean(self.preds)
 
-        sum_first_order_effects = self.full_result.values[:, :-1].sum(axis=1) + np.mean(self.preds)
         return 1-np.sum((self.preds - sum_first_order_effects)**2) / np.sum((self.full_result["centered_prediction"])**2)
-- 
2.43.0


From 755598fadf0ae44819fd76376f00d7a4e1ae460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:07 +0000
Subject: [PATCH 41/41] fix: targets given as list or one-column frame can be
 sampled

---
 artemis/_utilities/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index 1692304..613108e 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -27,7 +27,7 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
         return X, y
     else:
         positions = pd.Series(range(len(X))).sample(n, random_state=random_generator).values
-        y_sampled = y.iloc[positions] if isinstance(y, pd.Series) else y[positions]
+        y_sampled = y.iloc[positions] if isinstance(y, (pd.Series, pd.DataFrame)) else np.asarray(y)[positions]
         return X.iloc[positions], y_sampled
 
 
-- 
2.43.0

