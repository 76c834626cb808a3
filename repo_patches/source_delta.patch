From 9bd20776a225e0eb91e92c60e4d6cd4447db14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:28 +0000
Subject: [PATCH 01/11] fix: compute the minimal cost of a DAG without
 variables

---
 r_u_sure/decision_diagrams/packed_dags.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/packed_dags.py b/r_u_sure/decision_diagrams/packed_dags.py
index c6d264e..ab528a1 100644
--- a/r_u_sure/decision_diagrams/packed_dags.py
+++ b/r_u_sure/decision_diagrams/packed_dags.py
@@ -1423,6 +1423,10 @@ def compute_minimal_cost(
     update_prefixes_up_to(memo, memo.dag.num_variable_keys - 1)
     return memo.prefix_table[-1]
   elif strategy == MinimalCostComputationStrategy.FROM_MIDDLE:
+    if memo.dag.num_variable_keys == 0:
+      # There is no variable whose min marginals we could use.
+      update_prefixes_up_to(memo, -1)
+      return memo.prefix_table[-1]
     target_var = memo.suffixes_valid_starting_from_tag[()]
     target_var = max(0, target_var)
     target_var = min(target_var, memo.dag.num_variable_keys - 1)
-- 
2.43.0


From dc5ad78ca734e507a1e76869575e437828cfb045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:15 +0000
Subject: [PATCH 02/11] fix: stop solving after the first sweep that exceeds
 the soft timeout

---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 6db2af1..d877323 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -695,6 +695,7 @@ def solve_system_with_sweeps(
 
   # Keep track of how many sweeps we have run without seeing any change.
   reached_plateau = False
+  timed_out = False
 
   while True:
     saw_any_change = False
@@ -728,12 +729,15 @@ def solve_system_with_sweeps(
       steps_at_sweep.append(step_count)
       times_at_sweep.append(stamp - base_time)
       if stamp - base_time > soft_timeout:
+        timed_out = True
         break
 
     # Check for exit criteria.
     if not saw_any_change:
       reached_plateau = True
       break
+    if timed_out:
+      break
 
   return MinMarginalSweepSolverResults(
       objective_at_step=np.asarray(objective_at_step),
-- 
2.43.0


From 6b084b423a4d2a9c00ac378347d325f513afdc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:15 +0000
Subject: [PATCH 03/11] fix: reuse the ID of a state that was evicted from the
 scratch table

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 8429617..060e8a3 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -424,6 +424,9 @@ def prune_unreachable_and_rewrite_states(
       if state == looked_up_state:
         # Already present.
         return looked_up_index
+      elif state in fallback_lookup_table:
+        # Already present, but evicted by an earlier conflict.
+        return fallback_lookup_table[state]
       else:
         # evictions[()] += 1
         # Conflict! Evict the old state since it's less likely to be active.
-- 
2.43.0


From 46fb1a0ae6b2bb41b96356a356a0e53ff49b0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:15 +0000
Subject: [PATCH 04/11] fix: report an unreachable final state instead of
 indexing out of bounds

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 060e8a3..ecfb32f 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -453,8 +453,9 @@ def prune_unreachable_and_rewrite_states(
 
   # Second pass: Iterate through rewritten edges in reverse, and determine which
   # states are reachable from the end.
+  final_state_id = lookup_or_create_id_for_state(dag.final_state)
   reachable_from_end = np.zeros((len(states_by_index),), dtype=np.bool_)
-  reachable_from_end[lookup_or_create_id_for_state(dag.final_state)] = True
+  reachable_from_end[final_state_id] = True
   for i in range(len(rewritten_edge_triples) - 1, -1, -1):
     (source_id, dest_id, original_edge_index) = rewritten_edge_triples[i]
     if reachable_from_end[dest_id]:
-- 
2.43.0


From a68cb1958c704acdb69701935ad72ad05bfd2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:15 +0000
Subject: [PATCH 05/11] fix: describe the conflicting edge when rejecting an
 out-of-order edge

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index ecfb32f..91c26de 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -249,7 +249,7 @@ def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
     raise ValueError(
         (
             f"Incoming edge {edge} to {edge.dest} added after an outgoing edge"
-            f" from {edge.dest} to {dag.seen_outgoing[edge.source]}"
+            f" from {edge.dest} to {dag.seen_outgoing[edge.dest]}"
         ),
     )
 
@@ -295,7 +295,7 @@ def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
                 "added after an outgoing edge from",
                 edge.dest,
                 "to",
-                dag.seen_outgoing[edge.source],
+                dag.seen_outgoing[edge.dest],
             ),
         )
 
-- 
2.43.0


From 44b9b4b7b3a6472649d79d1d31fb15e8a9eb9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:09 +0000
Subject: [PATCH 06/11] fix: parse empty Python code instead of raising
 IndexError

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index a6ec45d..e20ca22 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -1008,7 +1008,7 @@ class PseudoParser:
 
     if language == 'python':
 
-      if code[-1] != '\n':
+      if not code.endswith('\n'):
         code = code + '\n'
         appended_newline = True
       else:
-- 
2.43.0


From 062f1da869b27c658d68a74bb8cd4738d361a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:40 +0000
Subject: [PATCH 07/11] fix: let an unmatched selection pass any region end
 node

The branch set can_skip_prototype instead of can_advance_unmatched, so that
whether a selected but unmatched part may continue past a region end node
depended on the node visited before it, and a prototype that starts with a
region end node raised UnboundLocalError.
---
 r_u_sure/edit_distance_utility/part_selection_dags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/edit_distance_utility/part_selection_dags.py b/r_u_sure/edit_distance_utility/part_selection_dags.py
index f61914c..2791b9d 100644
--- a/r_u_sure/edit_distance_utility/part_selection_dags.py
+++ b/r_u_sure/edit_distance_utility/part_selection_dags.py
@@ -782,7 +782,7 @@ def make_selection_dag_builder(
         elif prototype_node_id.category == PSNCategory.REGION_END_NODE:
           # Can skip region end nodes if we decide not to stop the region.
           assert prototype_visit.category == InOrderTraversalCategory.LEAF
-          can_skip_prototype = True
+          can_advance_unmatched = True
           cost = 0.0
           required_assignment = SharedVariableAssignment(
               key=DecisionKey(
-- 
2.43.0


From 495d856b96c47228b606540b53aecc0b2c5ffc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:39 +0000
Subject: [PATCH 08/11] fix: close an SVG group when drawing inside it raises

A group left by an exception was never closed, so every later element became
part of it and the picture was malformed.
---
 r_u_sure/rendering/svg_renderer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index dc60d2c..e847c6a 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -276,8 +276,10 @@ class SVGRenderer(rendering.Renderer):
       <g class="{' '.join(style_tags)}">
         {self._render_hover_title(hover_text)}
     """)
-    yield
-    self.items.append("""
+    try:
+      yield
+    finally:
+      self.items.append("""
       </g>
     """)
 
-- 
2.43.0


From fa6616e18fd88a967c98293e4d1be35a11f20c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:39 +0000
Subject: [PATCH 09/11] fix: keep edge tracebacks on until the last scope is
 left

Leaving an inner (or another caller's) adding_edge_tracebacks scope switched
tracebacks off for the enclosing scope.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 91c26de..87f5d27 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -230,17 +230,20 @@ def partial_state_dag_starting_from(initial_state: State) -> PartialStateDAG:
 
 
 EDGE_TRACEBACKS_ENABLED = False
+_num_active_traceback_scopes = 0
 
 
 @contextlib.contextmanager
 def adding_edge_tracebacks():
   """Context manager to add tracebacks to edges."""
-  global EDGE_TRACEBACKS_ENABLED
+  global EDGE_TRACEBACKS_ENABLED, _num_active_traceback_scopes
+  _num_active_traceback_scopes += 1
   EDGE_TRACEBACKS_ENABLED = True
   try:
     yield
   finally:
-    EDGE_TRACEBACKS_ENABLED = False
+    _num_active_traceback_scopes -= 1
+    EDGE_TRACEBACKS_ENABLED = _num_active_traceback_scopes > 0
 
 
 def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
-- 
2.43.0


From ce5b16d2b29908c86e7e88e474ad1dd206475251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:19 +0000
Subject: [PATCH 10/11] fix: Python string literals may hold an escaped
 backslash before an escaped quote

The literal "a\\\"(" ended at the escaped quote, so that the bracket behind
it, which is inside the string, was matched as a real one.
---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index e20ca22..9c53c66 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -168,7 +168,7 @@ class RegexCodec:
         ('OTHER', r'.'),
     ]
     python_strings_and_comments = [
-        ('STRING', r'''(\"\"\"|\'\'\'|\"|\')((?<!\\)\\\2|.)*?\2'''),
+        ('STRING', r'''(\"\"\"|\'\'\'|\"|\')(\\.|[^\\])*?\2'''),
         ('COMMENT_HASH', r'(#)[^\n]*'),
     ]
     c_comments = [
-- 
2.43.0


From 45b23aefaaee579653abeab0c20ab079f2aa7300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:54 +0000
Subject: [PATCH 11/11] fix: draw labels above or level with their point when
 asked to

---
 r_u_sure/rendering/svg_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index e847c6a..6a729b2 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -144,7 +144,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.UP_LEFT,
         rendering.PointDirection.UP_RIGHT,
     }:
-      vertical_align_offset = (len(lines) + 0.5) * text_size
+      vertical_align_offset = -(len(lines) - 0.5) * text_size
       vertical_pad_offset = -padding_fraction * text_size
     elif direction in {
         rendering.PointDirection.DOWN,
@@ -157,7 +157,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.LEFT,
         rendering.PointDirection.RIGHT,
     }:
-      vertical_align_offset = text_size * (len(lines) - 1) / 2
+      vertical_align_offset = -text_size * (len(lines) - 1) / 2
       vertical_pad_offset = 0
     elif direction in {rendering.PointDirection.AROUND}:
       lines_above = (len(lines) + 1) // 2
-- 
2.43.0

