From 7bd3d14d54758c266cb85aa7fcd374b82e9eb277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:16 +0000
Subject: [PATCH 01/13] fix: parse empty python code instead of raising
 IndexError

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index a6ec45d..e20ca22 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -1008,7 +1008,7 @@ class PseudoParser:
 
     if language == 'python':
 
-      if code[-1] != '\n':
+      if not code.endswith('\n'):
         code = code + '\n'
         appended_newline = True
       else:
-- 
2.43.0


From 954f6525368e7c82ea01228ae10b3e062c107112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 02/13] fix: accept splitters=None in
 infer_split_truncation_index as documented

---
 r_u_sure/parsing/pseudo_parser/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 2a33f85..13ef0b1 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -287,7 +287,7 @@ def infer_split_truncation_index(
       if after_cursor:
         if (node.parent.annotation == 'split' and
             node.parent.children[-1] == node and
-            tokens_raw[node.lo] in splitters):
+            (splitters is None or tokens_raw[node.lo] in splitters)):
           # we found the split immediately proceeding the cursor
           return code_index
 
-- 
2.43.0


From 2e285a9c58251a9a8625b084560214807bd4d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:13 +0000
Subject: [PATCH 03/13] fix: infer the largest consistent indent for candidates
 in any order

---
 r_u_sure/parsing/pseudo_parser/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 13ef0b1..add2079 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -60,7 +60,8 @@ def infer_python_spaces_per_indent(
   for candidate_indent_length in candidate_spaces_per_indent:
     if all([not this_indent_length % candidate_indent_length for
             this_indent_length in indent_lengths]):
-      inferred_indent_length = candidate_indent_length
+      inferred_indent_length = max(
+          inferred_indent_length, candidate_indent_length)
 
   return inferred_indent_length
 
-- 
2.43.0


From 41458405d3f3add857474e7cc9085fc9519ba43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:08 +0000
Subject: [PATCH 04/13] fix: draw labels above or beside their point when asked
 to

---
 r_u_sure/rendering/svg_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index dc60d2c..8787e46 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -144,7 +144,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.UP_LEFT,
         rendering.PointDirection.UP_RIGHT,
     }:
-      vertical_align_offset = (len(lines) + 0.5) * text_size
+      vertical_align_offset = -(len(lines) - 0.5) * text_size
       vertical_pad_offset = -padding_fraction * text_size
     elif direction in {
         rendering.PointDirection.DOWN,
@@ -157,7 +157,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.LEFT,
         rendering.PointDirection.RIGHT,
     }:
-      vertical_align_offset = text_size * (len(lines) - 1) / 2
+      vertical_align_offset = -text_size * (len(lines) - 1) / 2
       vertical_pad_offset = 0
     elif direction in {rendering.PointDirection.AROUND}:
       lines_above = (len(lines) + 1) // 2
-- 
2.43.0


From b7bc6a010d07f415ba4ea0456d4079807de7f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:44 +0000
Subject: [PATCH 05/13] fix: report out-of-order edges as the documented
 ValueError

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 8429617..a389f4b 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -249,7 +249,7 @@ def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
     raise ValueError(
         (
             f"Incoming edge {edge} to {edge.dest} added after an outgoing edge"
-            f" from {edge.dest} to {dag.seen_outgoing[edge.source]}"
+            f" from {edge.dest} to {dag.seen_outgoing[edge.dest]}"
         ),
     )
 
@@ -295,7 +295,7 @@ def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
                 "added after an outgoing edge from",
                 edge.dest,
                 "to",
-                dag.seen_outgoing[edge.source],
+                dag.seen_outgoing[edge.dest],
             ),
         )
 
-- 
2.43.0


From b4714cd5eda34a0e190b8e029f1d58f53f0b0d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:44 +0000
Subject: [PATCH 06/13] fix: keep one id per state when scratch table slots
 collide

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index a389f4b..81c85e4 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -424,6 +424,9 @@ def prune_unreachable_and_rewrite_states(
       if state == looked_up_state:
         # Already present.
         return looked_up_index
+      elif state in fallback_lookup_table:
+        # Already present, but evicted earlier.
+        return fallback_lookup_table[state]
       else:
         # evictions[()] += 1
         # Conflict! Evict the old state since it's less likely to be active.
-- 
2.43.0


From 47c73ac482fb9017df61af215db44c393d24bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:44 +0000
Subject: [PATCH 07/13] fix: raise ValueError when the final state is never
 reached

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 81c85e4..f15a630 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -454,7 +454,10 @@ def prune_unreachable_and_rewrite_states(
   # Second pass: Iterate through rewritten edges in reverse, and determine which
   # states are reachable from the end.
   reachable_from_end = np.zeros((len(states_by_index),), dtype=np.bool_)
-  reachable_from_end[lookup_or_create_id_for_state(dag.final_state)] = True
+  final_id = lookup_id_for_state(dag.final_state)
+  if final_id == -1:
+    raise ValueError("No path from start to end")
+  reachable_from_end[final_id] = True
   for i in range(len(rewritten_edge_triples) - 1, -1, -1):
     (source_id, dest_id, original_edge_index) = rewritten_edge_triples[i]
     if reachable_from_end[dest_id]:
-- 
2.43.0


From 73bb9532279059a0dfa2370971c869915965ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:08 +0000
Subject: [PATCH 08/13] fix: compute the minimal cost of a DAG without
 variables

---
 r_u_sure/decision_diagrams/packed_dags.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/packed_dags.py b/r_u_sure/decision_diagrams/packed_dags.py
index c6d264e..7ff1fb6 100644
--- a/r_u_sure/decision_diagrams/packed_dags.py
+++ b/r_u_sure/decision_diagrams/packed_dags.py
@@ -1423,6 +1423,10 @@ def compute_minimal_cost(
     update_prefixes_up_to(memo, memo.dag.num_variable_keys - 1)
     return memo.prefix_table[-1]
   elif strategy == MinimalCostComputationStrategy.FROM_MIDDLE:
+    if memo.dag.num_variable_keys == 0:
+      # There are no variables, and thus no min-marginals to use.
+      update_prefixes_up_to(memo, -1)
+      return memo.prefix_table[-1]
     target_var = memo.suffixes_valid_starting_from_tag[()]
     target_var = max(0, target_var)
     target_var = min(target_var, memo.dag.num_variable_keys - 1)
-- 
2.43.0


From 777cf42da0b35500777bbdd21a058bf9ef320160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:58 +0000
Subject: [PATCH 09/13] fix: stop sweeping once the soft timeout has passed

---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 6db2af1..d877323 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -695,6 +695,7 @@ def solve_system_with_sweeps(
 
   # Keep track of how many sweeps we have run without seeing any change.
   reached_plateau = False
+  timed_out = False
 
   while True:
     saw_any_change = False
@@ -728,12 +729,15 @@ def solve_system_with_sweeps(
       steps_at_sweep.append(step_count)
       times_at_sweep.append(stamp - base_time)
       if stamp - base_time > soft_timeout:
+        timed_out = True
         break
 
     # Check for exit criteria.
     if not saw_any_change:
       reached_plateau = True
       break
+    if timed_out:
+      break
 
   return MinMarginalSweepSolverResults(
       objective_at_step=np.asarray(objective_at_step),
-- 
2.43.0


From 92863fbacdc967e7e1186c9c8b4c8f860448f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:38 +0000
Subject: [PATCH 10/13] fix: unmatched selection of a prototype that starts
 with a region end

The branch for region end nodes set can_skip_prototype instead of
can_advance_unmatched, so a prototype whose first node is a region end raised
UnboundLocalError (and otherwise the flag was left over from another node).
---
 r_u_sure/edit_distance_utility/part_selection_dags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/edit_distance_utility/part_selection_dags.py b/r_u_sure/edit_distance_utility/part_selection_dags.py
index f61914c..2791b9d 100644
--- a/r_u_sure/edit_distance_utility/part_selection_dags.py
+++ b/r_u_sure/edit_distance_utility/part_selection_dags.py
@@ -782,7 +782,7 @@ def make_selection_dag_builder(
         elif prototype_node_id.category == PSNCategory.REGION_END_NODE:
           # Can skip region end nodes if we decide not to stop the region.
           assert prototype_visit.category == InOrderTraversalCategory.LEAF
-          can_skip_prototype = True
+          can_advance_unmatched = True
           cost = 0.0
           required_assignment = SharedVariableAssignment(
               key=DecisionKey(
-- 
2.43.0


From e32b0d2dae6d60618dc1ea97606d5aeb15faa49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:03 +0000
Subject: [PATCH 11/13] fix: valid_parse_ranges rejects every range that
 includes None

Only nodes with children were checked, so two neighbouring leaves whose common
boundary is None passed although the documentation excludes them.
---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index e20ca22..bdf675a 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -515,13 +515,13 @@ def valid_parse_ranges(root: Node, n: int) -> bool:
   """
 
   def _check(node):
+    if node.lo is None or node.hi is None:
+      return False
     if node.children:
       if node.lo != node.children[0].lo:
         return False
       if node.hi != node.children[-1].hi:
         return False
-      if node.lo is None or node.hi is None:
-        return False
       lows = [n.lo for n in node.children[1:]]
       his = [n.hi for n in node.children[:-1]]
       if lows != his:
-- 
2.43.0


From 6652f30da0bade92a97071135e80230794a9fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:14 +0000
Subject: [PATCH 12/13] fix: no token counts as context when the cursor is at
 the very start

---
 r_u_sure/wrappers/call_sequence_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/wrappers/call_sequence_wrapper.py b/r_u_sure/wrappers/call_sequence_wrapper.py
index 6158af4..f54362f 100644
--- a/r_u_sure/wrappers/call_sequence_wrapper.py
+++ b/r_u_sure/wrappers/call_sequence_wrapper.py
@@ -63,14 +63,14 @@ def extract_context_tokens(
   for node, _, _ in sequence_node_helpers.walk_with_paths(
       context_and_prototype
   ):
+    if position >= prediction_location:
+      break
     if isinstance(node, sequence_nodes.TextTokenNode):
       seen_tokens.add(node.text_contents)
     if isinstance(
         node, (sequence_nodes.TextTokenNode, sequence_nodes.TextDecorationNode)
     ):
       position += len(node.text_contents)
-      if position >= prediction_location:
-        break
   return seen_tokens
 
 
-- 
2.43.0


From 331907d6476686f83d22bdaa76dd23324c27cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:59 +0000
Subject: [PATCH 13/13] fix: give every added token an index of its own

After add_token('', ..., non_unique=True) had been called twice, the next new
token got the index of the second mark, which then decoded to that token.
---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index bdf675a..e3db03e 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -100,7 +100,7 @@ class RegexCodec:
     """
     if not non_unique:
       assert token not in self.token_to_index
-    index = len(self.token_to_index) + 1
+    index = len(self.index_to_token) + 1
     self.token_to_index[token] = index
     self.index_to_token[index] = token
     self.index_to_token_type[index] = token_type
-- 
2.43.0

