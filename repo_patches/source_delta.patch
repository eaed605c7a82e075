From 1aa3052691209a8da7078c245aaea0c413b146b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 01/49] fix: translate the filters of any/all comprehensions in
 controllers

A comprehension with an if clause produced a one-operand BoolOp, which Python refuses to
compile, and left mode constants in the filter untranslated.
---
 verse/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 63be923..5922ca8 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -926,7 +926,7 @@ def proc(node: ast.AST, env: Env) -> Any:
                     raise NotImplementedError(f"Reduction type {op} not supported in cond_trans")
 
             expr = proc(expr, env)
-            expr = cond_trans(expr, ast.BoolOp(ast.And(), ifs)) if len(ifs) > 0 else expr
+            expr = cond_trans(expr, merge_conds([proc(c, env) for c in ifs])) if len(ifs) > 0 else expr
             ret = Reduction(op, expr, target.id, proc(iter, env))
             env.pop()
             return ret
-- 
2.43.0


From 81f92e38909448adb197a8e4b5331a92a72e0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 02/49] fix: substitute longer variable names first when
 evaluating resets

---
 verse/analysis/verifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 09ebcbc..e2b4889 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1351,6 +1351,8 @@ class Verifier:
                 for var in cont_var_dict:
                     if var in expr:
                         symbols.append(var)
+                # substitute longer names first: a name can be a prefix of another (ego.x, ego.xdot)
+                symbols.sort(key=len, reverse=True)
 
                 # TODO: Implement this function
                 # The input to this function is a list of used symbols and the cont_var_dict
@@ -1471,7 +1473,8 @@ class Verifier:
             for idx in idxs:
                 val_dict = {}
                 tmp_exp = copy.deepcopy(expr_list[idx])
-                for i in range(0, len(state)):
+                # substitute longer names first: a name can be a prefix of another (ego.x, ego.xdot)
+                for i in sorted(range(0, len(state)), key=lambda i: len(statevec[i]), reverse=True):
                     if statevec[i] in tmp_exp:
                         tmp_exp = tmp_exp.replace(statevec[i], str(state[i]))
                 #print(tmp_exp)
-- 
2.43.0


From 29efe235b08b5ac280ff1801cc692934e8492b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 03/49] fix: combine resets of different conditions only as
 some state of the set can take them

---
 verse/analysis/verifier.py | 43 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index e2b4889..acf4bca 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1194,6 +1194,11 @@ class Verifier:
                     combined_reset_list = list(itertools.product(*resets.values()))
                     if len(combined_reset_list) == 1 and combined_reset_list[0] == ():
                         continue
+                    if len(resets) > 1 and len({unparse(r[-1].cond_veri) for rs in resets.values() for r in rs}) > 1:
+                        combined_reset_list = Verifier.joint_resets(
+                            resets, agent, cont_vars, disc_vars, len_dict, track_map,
+                            config.reachability_method == ReachabilityMethod.STAR_SETS
+                        )
                     for i in range(len(combined_reset_list)):
                         # Compute reset_idx
                         reset_idx = []
@@ -1277,6 +1282,44 @@ class Verifier:
         # Return result
         return None, possible_transitions + cached_trans
 
+    @staticmethod
+    def joint_resets(resets, agent, cont_vars, disc_vars, len_dict, track_map, stars):
+        """
+        When several conditions can hold on a set they need not hold together: find the
+        combinations of resets that some state of the set can take, including those where a
+        variable keeps its value because none of its conditions holds
+        """
+        def key(reset):
+            return unparse(reset[-1].cond_veri)
+
+        combined = []
+        feasible = {}
+        for choice in itertools.product(*[rs + [None] for rs in resets.values()]):
+            chosen = tuple(r for r in choice if r is not None)
+            hold = {key(r): r[-1].cond_veri for r in chosen}
+            fail = {
+                key(r): r[-1].cond_veri
+                for c, rs in zip(choice, resets.values()) if c is None for r in rs
+            }
+            if not chosen or any(k in hold for k in fail):
+                continue
+            k = (frozenset(hold), frozenset(fail))
+            if k not in feasible:
+                guard = GuardExpressionAst(
+                    list(hold.values()) + [ast.UnaryOp(ast.Not(), e) for e in fail.values()]
+                )
+                cont = copy.deepcopy(cont_vars)
+                updater = guard.parse_any_all_new(cont, disc_vars, len_dict)
+                Verifier.apply_cont_var_updater(cont, updater)
+                feasible[k] = (
+                    guard.evaluate_guard_disc(agent, disc_vars, cont, track_map)
+                    and guard.evaluate_guard_hybrid(agent, disc_vars, cont, track_map, stars)
+                    and guard.evaluate_guard_cont(agent, cont, track_map, stars)[0]
+                )
+            if feasible[k]:
+                combined.append(chosen)
+        return combined
+
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
         for variable in updater:
-- 
2.43.0


From 5e9c5bf66a3ad844d8d4598b9459740b0c74f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 04/49] fix: one successor set per time step when several
 conditions lead to the same mode

---
 verse/analysis/verifier.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index acf4bca..bfc8177 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1241,6 +1241,20 @@ class Verifier:
                 for dest in dest_list:
                     if dest not in reset_dict[agent_id][reset_idx]:
                         reset_dict[agent_id][reset_idx][dest] = []
+                    same_dest = reset_dict[agent_id][reset_idx][dest]
+                    if (
+                        same_dest
+                        and same_dest[-1][1] == hit_idx
+                        and config.reachability_method != ReachabilityMethod.STAR_SETS
+                    ):
+                        # one successor set per time step: the tube of the i-th set is shifted by i steps
+                        prev_rect, _, prev_reset_list = same_dest[-1]
+                        merged_rect = [
+                            np.minimum(prev_rect[0], reset_rect[0]).tolist(),
+                            np.maximum(prev_rect[1], reset_rect[1]).tolist(),
+                        ]
+                        same_dest[-1] = (merged_rect, hit_idx, prev_reset_list)
+                        continue
                     reset_dict[agent_id][reset_idx][dest].append(
                         # (reset_rect, hit_idx, reset_list[-1])
                         (reset_rect, hit_idx, reset_list)
-- 
2.43.0


From f5015cd0b413ea85e8be950d3b8adf5d144aa8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 05/49] fix: an assertion under a condition is checked wherever
 the condition can hold

---
 verse/analysis/verifier.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index bfc8177..a29d461 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1120,24 +1120,24 @@ class Verifier:
                                 sat = sat and contained
                         return sat
 
-                    if eval_expr(pre_expr):
-                        if not eval_expr(a.cond):
-                            if combine_len == 1:
-                                label = a.label if a.label != None else f"<assert {i}>"
-                                if config.print_level >= 1:
-                                    print(f'assert hit for {agent_id}: "{label}"')
-                                    print("index", idx)
-                                    print("start_time", node.start_time)
-                                asserts[agent_id].append(label)
-                            else:
-                                new_len = int(np.ceil(combine_len / reduction_rate))
-                                next_list = [
-                                    (i, min(i + new_len, end_idx), new_len)
-                                    for i in range(idx, end_idx, new_len)
-                                ]
-                                reduction_queue.extend(next_list[::-1])
-                                reduction_needed = True
-                                break
+                    # an assertion under a condition holds if the condition implies it all over the set
+                    if not eval_expr(ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), pre_expr), a.cond])):
+                        if combine_len == 1:
+                            label = a.label if a.label != None else f"<assert {i}>"
+                            if config.print_level >= 1:
+                                print(f'assert hit for {agent_id}: "{label}"')
+                                print("index", idx)
+                                print("start_time", node.start_time)
+                            asserts[agent_id].append(label)
+                        else:
+                            new_len = int(np.ceil(combine_len / reduction_rate))
+                            next_list = [
+                                (i, min(i + new_len, end_idx), new_len)
+                                for i in range(idx, end_idx, new_len)
+                            ]
+                            reduction_queue.extend(next_list[::-1])
+                            reduction_needed = True
+                            break
                 if reduction_needed:
                     break
                 if agent_id in asserts:
-- 
2.43.0


From 179f88264b4e6d7f1d3cf514b5cf174146378637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 06/49] fix: verification with unsafe_continue crashed when an
 assertion was hit

---
 verse/analysis/verifier.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index a29d461..ab3d550 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -571,8 +571,11 @@ class Verifier:
         )
         node.assert_hits = asserts
 
-        if not config.unsafe_continue and asserts != None:
+        if asserts != None:
             asserts, idx = asserts
+            if config.unsafe_continue:
+                # keep the whole tube; there are no transitions to follow
+                idx = max(len(t) for t in node.trace.values())
             if not consts.reachability_method == ReachabilityMethod.STAR_SETS:
                 for agent in node.agent:
                     node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
@@ -1729,8 +1732,11 @@ class Verifier:
         )
         node.assert_hits = asserts
 
-        if not config.unsafe_continue and asserts != None:
+        if asserts != None:
             asserts, idx = asserts
+            if config.unsafe_continue:
+                # keep the whole tube; there are no transitions to follow
+                idx = max(len(t) for t in node.trace.values())
             for agent in node.agent:
                 node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             return (
-- 
2.43.0


From aabe739faeb85d72ff712549a0c6c90c9efed5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 07/49] fix: simulation dropped transitions to the same mode
 with different resets

---
 verse/analysis/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 4c9f185..86c8a03 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -771,7 +771,9 @@ class Simulator:
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
                 break
-        transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
+        transitions = {
+            aid: dedup(v, lambda p: (p[1], tuple(p[2]))) for aid, v in transitions.items()
+        }
         return None, transitions, idx
 
     @staticmethod
-- 
2.43.0


From d34c87bd0a439335fc01547b55d4be46be468659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 08/49] fix: simulation ignored the assertions of agents
 without transitions

---
 verse/analysis/simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 86c8a03..067d796 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -708,6 +708,11 @@ class Simulator:
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
 
+        for agent in node.agent.values():
+            # assertions are checked for agents without any transition as well
+            if len(agent.decision_logic.asserts) > 0:
+                agent_guard_dict[agent.id]
+
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
         for idx in range(trace_length):
-- 
2.43.0


From a890721fab19f14ee6ff802c799ad80e625075b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 09/49] fix: a simulation that violates an assertion kept no
 trace of the violating state

---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 067d796..bf3948b 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -246,7 +246,7 @@ class Simulator:
         if not config.unsafe_continue and asserts != None:
             idx = transition_idx
             for agent in node.agent:
-                node.trace[agent] = node.trace[agent][:idx]
+                node.trace[agent] = node.trace[agent][: idx + 1]
             return (
                 node.id,
                 later,
-- 
2.43.0


From 1a2f7b5b83df3b7b6cfd44631b7f85339a03f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 10/49] fix: simulate_simple crashed on an assertion without a
 message

---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index bf3948b..10ab78b 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -871,7 +871,7 @@ class Simulator:
                     # If assertion error happen, means assert hit happen
                     # Get the which assert hit happen and return
                     _, error, _ = sys.exc_info()
-                    assertion_label = error.args[0]
+                    assertion_label = error.args[0] if error.args else "<assert>"
                     all_asserts[agent_id] = assertion_label
                     continue
 
-- 
2.43.0


From f686470669d82600b07d0929287ab30d49568f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 11/49] fix: simulate_simple ignored the assertions of agents
 without transitions

---
 verse/analysis/simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 10ab78b..b5abe33 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -809,6 +809,11 @@ class Simulator:
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
 
+        for agent in node.agent.values():
+            # assertions are checked for agents without any transition as well
+            if len(agent.decision_logic.asserts) > 0:
+                agent_guard_dict[agent.id]
+
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
         for idx in range(trace_length):
-- 
2.43.0


From 658615e3da44565f40f87a4a22952950e0823779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 12/49] fix: discrete-time discrepancy tube lost executions for
 nearly flat initial boxes

---
 verse/analysis/dryvr_disc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/analysis/dryvr_disc.py b/verse/analysis/dryvr_disc.py
index 7a3c6a6..fa3bcc5 100644
--- a/verse/analysis/dryvr_disc.py
+++ b/verse/analysis/dryvr_disc.py
@@ -40,6 +40,8 @@ def get_reachtube_segment(training_traces: np.ndarray, initial_radii: np.ndarray
     center_trace: np.ndarray = training_traces[0, :, :]
     trace_initial_time = center_trace[0, 0]
     x_points: np.ndarray = center_trace[:, 0] - trace_initial_time
+    # all_sensitivities_calc takes dimensions with a radius below 1e-10 as points, so do it here as well
+    initial_radii = np.where(initial_radii < 1e-10, 0.0, initial_radii)
     assert np.all(training_traces[0, :, 0] == training_traces[1:, :, 0])
     y_points: np.ndarray = all_sensitivities_calc(training_traces, initial_radii)
     points: np.ndarray = np.zeros((ndims - 1, trace_len, 2))
-- 
2.43.0


From da612180c76cf7e20e17a65957ffb2e597ca82b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 13/49] fix: cached tubes were overwritten by the union with
 the tubes of later initial sets

---
 verse/analysis/verifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index ab3d550..9496964 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -280,7 +280,7 @@ class Verifier:
                 continue
             # FIXME
             if res_tube is None:
-                res_tube = cur_bloated_tube
+                res_tube = cur_bloated_tube.copy()  # the cached tube must not change
                 tube_length = cur_bloated_tube.shape[0]
             else:
                 cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
@@ -360,7 +360,7 @@ class Verifier:
             if incremental:
                 cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
             if res_tube is None:
-                res_tube = cur_bloated_tube
+                res_tube = cur_bloated_tube.copy()  # cur_bloated_tube is cached
                 tube_length = cur_bloated_tube.shape[0]
             else:
                 if tube_length <= 2 * combine_seg_idx:
-- 
2.43.0


From f5f9e669afe08eb14ba82b4cf5c8c31738f55420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 14/49] fix: a cached tube of a later initial set was placed at
 the first time step

---
 verse/analysis/verifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 9496964..dce92f0 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -273,7 +273,8 @@ class Verifier:
                     # print('noncache', agent_id, time_horizon, self.tube_cache_hits )
             else:
                 cached = None
-            if cached != None:
+            # the first tube determines the times of the union: without it, recompute
+            if cached != None and (combine_seg_idx == 0 or res_tube is not None):
                 cur_bloated_tube = cached.tube
             else:
                 missing_seg_idx_list.append(combine_seg_idx)
@@ -283,6 +284,8 @@ class Verifier:
                 res_tube = cur_bloated_tube.copy()  # the cached tube must not change
                 tube_length = cur_bloated_tube.shape[0]
             else:
+                if tube_length <= 2 * combine_seg_idx:
+                    break
                 cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
                 # Handle Lower Bound
                 res_tube[combine_seg_idx * 2 :: 2, 1:] = np.minimum(
-- 
2.43.0


From 2496e84a48041a193d154cc303f88b92c4204005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 15/49] fix: sets entered at separate time steps were merged as
 if entered one step after another

---
 verse/analysis/verifier.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index dce92f0..f886df7 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1272,8 +1272,8 @@ class Verifier:
         count = 0
         for agent in reset_dict:
             for reset_idx in reset_dict[agent]:
-                for dest in reset_dict[agent][reset_idx]:
-                    reset_data = tuple(map(list, zip(*reset_dict[agent][reset_idx][dest])))
+                for dest, reset_data in Verifier.split_runs(reset_dict[agent][reset_idx]):
+                    reset_data = tuple(map(list, zip(*reset_data)))
                     # paths = [r[-1] for r in reset_data[-1]]
                     paths = [r[-1] for r in reset_data[-1][0]]
                     transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
@@ -1302,6 +1302,22 @@ class Verifier:
         # Return result
         return None, possible_transitions + cached_trans
 
+    @staticmethod
+    def split_runs(resets_by_dest):
+        """
+        The i-th initial set of a transition is entered i steps after the first one, so hits
+        in separate time steps make separate transitions
+        """
+        runs = []
+        for dest, resets in resets_by_dest.items():
+            prev_idx = None
+            for reset in resets:
+                if prev_idx is None or reset[1] > prev_idx + 1:
+                    runs.append((dest, []))
+                runs[-1][1].append(reset)
+                prev_idx = reset[1]
+        return runs
+
     @staticmethod
     def joint_resets(resets, agent, cont_vars, disc_vars, len_dict, track_map, stars):
         """
-- 
2.43.0


From 85a2edebbd44804594bbfdda2532d0d34a88a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 16/49] fix: DRYVR_DISC and mixed-monotone reachability ignored
 all initial sets but the first

---
 verse/analysis/verifier.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index f886df7..157d631 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -470,9 +470,7 @@ class Verifier:
                     else:
                         sim_trace_num = SIMTRACENUM              
 
-                    init = inits[0] # FIXME: this makes no sense, should instead mirror what regular dryvr does; assuming this was put here as a placeholder
-                    if isinstance(init, np.ndarray):
-                        init = init.tolist()
+                    init = combine_all(inits)
                     cur_bloated_tube = calc_bloated_tube_dryvr(
                         mode,
                         init,
@@ -530,7 +528,7 @@ class Verifier:
                     )
                     cur_bloated_tube = calculate_bloated_tube_mixmono_cont(
                         mode,
-                        inits,
+                        [combine_all(inits)],
                         uncertain_param,
                         remain_time,
                         consts.time_step,
@@ -543,7 +541,7 @@ class Verifier:
                     )
                     cur_bloated_tube = calculate_bloated_tube_mixmono_disc(
                         mode,
-                        inits,
+                        [combine_all(inits)],
                         uncertain_param,
                         remain_time,
                         consts.time_step,
-- 
2.43.0


From a710f69eb83719a9523f60c4a9c14043a91c00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 17/49] fix: names inside conditional expressions of
 controllers were not resolved

---
 verse/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 5922ca8..1a56cf5 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -933,7 +933,7 @@ def proc(node: ast.AST, env: Env) -> Any:
     elif isinstance(node, ast.Return):
         return proc(node.value, env) if node.value != None else None
     elif isinstance(node, ast.IfExp):
-        return node
+        return ast.IfExp(proc(node.test, env), proc(node.body, env), proc(node.orelse, env))
     elif isinstance(node, ast.Expr):
         if isinstance(node.value, ast.Call):
             warnings.warn(
-- 
2.43.0


From 772b2bb7027768231f70e2917d076af35257df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 18/49] fix: verification crashed when the controller's
 argument for the other agents is not named others

---
 verse/sensor/base_sensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verse/sensor/base_sensor.py b/verse/sensor/base_sensor.py
index 32672bc..19ccfea 100644
--- a/verse/sensor/base_sensor.py
+++ b/verse/sensor/base_sensor.py
@@ -55,6 +55,9 @@ class BaseSensor:
         cont = {}
         disc = {}
         len_dict = {"others": len(state_dict) - 1}
+        for arg in agent.decision_logic.args:
+            if arg.is_list:
+                len_dict[arg.name] = len(state_dict) - 1
         tmp = np.array(list(state_dict.values())[0][0])
         if simulate:
             for agent_id in state_dict:
-- 
2.43.0


From 54f4d60b012380fec65974ed4bef06d2ffffe1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 19/49] fix: a return before the end of a controller or helper
 was silently ignored; refuse it like other unsupported statements

---
 verse/parser/parser.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 1a56cf5..972324c 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -31,6 +31,15 @@ def unparse(e):
     return astunparser.unparse(e).strip("\n")
 
 
+def has_return(node: ast.AST) -> bool:
+    """Whether a statement can return from the function it is in"""
+    if isinstance(node, ast.Return):
+        return True
+    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
+        return False
+    return any(has_return(child) for child in ast.iter_child_nodes(node))
+
+
 def not_ir_ast(a) -> bool:
     """Is not some type that can be used in AST substitutions"""
     return isinstance(a, ast.arg)
@@ -210,6 +219,7 @@ class Lambda:
     args: LambdaArgs
     body: Optional[ast.expr]
     asserts: List[_Assert]
+    early_return: bool = False
 
     @staticmethod
     def from_ast(tree: Union[ast.FunctionDef, ast.Lambda], env: "Env") -> "Lambda":
@@ -244,20 +254,26 @@ class Lambda:
         for a in args:
             env.add_hole(a.name, a.typ)
         ret = None
+        early_return = False
         if isinstance(tree, ast.FunctionDef):
             for node in tree.body:
                 ret = proc(node, env)
+            early_return = any(has_return(node) for node in tree.body[:-1]) or (
+                not isinstance(tree.body[-1], ast.Return) and has_return(tree.body[-1])
+            )
         elif isinstance(tree, ast.Lambda):
             ret = proc(tree.body, env)
         asserts = env.scopes[0].asserts
         env.pop()
-        return Lambda(args, ret, asserts)
+        return Lambda(args, ret, asserts, early_return)
 
     @staticmethod
     def empty() -> "Lambda":
         return Lambda(args=[], body=None, asserts=[])
 
     def apply(self, args: List[ast.expr]) -> Tuple[List[_Assert], ast.expr]:
+        if self.early_return:
+            raise NotImplementedError("return before the end of a function")
         ret = copy.deepcopy(self.body)
         subst = ArgSubstituter({a.name: v for a, v in zip(self.args, args)})
         ret = subst.visit(ret)
@@ -372,6 +388,8 @@ class ControllerIR:
         if "decisionLogic" not in top or not isinstance(top["decisionLogic"], Lambda):
             raise TypeError("can't find controller")
         controller = top["decisionLogic"]
+        if controller.early_return:
+            raise NotImplementedError("return before the end of the controller")
         asserts = [
             (a.cond, a.label if a.label != None else f"<assert {i}>", merge_conds(a.pre))
             for i, a in enumerate(controller.asserts)
-- 
2.43.0


From 68ace65febc3d240d3f9b47cf5245eedc1059761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 20/49] fix: simulation trees were compared as if they were
 reachtubes

---
 verse/analysis/analysis_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 41e5fa7..0216e2f 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -335,7 +335,7 @@ class AnalysisTree:
             or (not strict and cur_agents.issuperset(other_agents))
         ):
             return False
-        if types[0] == "simtrace":  # Simulation
+        if types[0] == AnalysisTreeNodeType.SIM_TRACE:  # Simulation
             if len(self.nodes) != len(other.nodes):
                 return False
 
-- 
2.43.0


From ebfdb1894445e5a181b2161ebaa38f26492d82a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 21/49] fix: reachtube containment ignored correlations, short
 branches and dimensions of other agents

---
 verse/analysis/analysis_tree.py | 138 +++++++++++++-------------------
 1 file changed, 54 insertions(+), 84 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 0216e2f..f174659 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -1,8 +1,7 @@
 from enum import Enum, auto
-from functools import reduce
-from typing import Any, Iterable, List, Dict, Optional, Sequence, TypeVar, Literal
+from typing import Any, Iterable, List, Dict, Optional, Sequence, Tuple, TypeVar, Literal
 import json
-import numpy.typing as nptyp, numpy as np, portion
+import numpy.typing as nptyp, numpy as np
 import networkx as nx
 from matplotlib import colors
 import matplotlib.pyplot as plt
@@ -24,6 +23,36 @@ def index_of(l: Iterable[_T], item: _T) -> Optional[int]:
     return None
 
 
+_Box = Tuple[List[float], List[float]]
+
+
+def _is_covered(box: _Box, others: List[_Box]) -> bool:
+    """Whether the union of the boxes `others` contains the box. Boxes are given by the lists of
+    their lower and upper bounds"""
+    lower, upper = box
+    for lo, hi in others:
+        if all(a <= l and u <= b for l, u, a, b in zip(lower, upper, lo, hi)):
+            return True
+    for i, (lo, hi) in enumerate(others):
+        if not all(a <= u and l <= b for l, u, a, b in zip(lower, upper, lo, hi)):
+            continue
+        # The parts of the box outside of this one have to be covered by the rest of them
+        cur_lower, cur_upper = list(lower), list(upper)
+        for j, (a, b) in enumerate(zip(lo, hi)):
+            if cur_lower[j] < a:
+                part = (cur_lower, cur_upper[:j] + [a] + cur_upper[j + 1 :])
+                if not _is_covered(part, others[i + 1 :]):
+                    return False
+                cur_lower = cur_lower[:j] + [a] + cur_lower[j + 1 :]
+            if b < cur_upper[j]:
+                part = (cur_lower[:j] + [b] + cur_lower[j + 1 :], cur_upper)
+                if not _is_covered(part, others[i + 1 :]):
+                    return False
+                cur_upper = cur_upper[:j] + [b] + cur_upper[j + 1 :]
+        return True
+    return False
+
+
 class AnalysisTreeNodeType(Enum):
     """Denotes different types of AnalysisTreeNode's. Can either be simulation traces or reach
     tubes."""
@@ -364,89 +393,30 @@ class AnalysisTree:
 
             return sim_node_contains(self.root, other.root)
         else:  # Reachability
-            cont_num = len(other.nodes[0].trace[min_agents[0]][0])
-
-            def collect_ranges(
-                n: AnalysisTreeNode,
-            ) -> Dict[str, List[List[portion.Interval]]]:
-                trace_len = len(n.trace[min_agents[0]])
-                cur = {
-                    aid: [
-                        [
-                            portion.closed(n.trace[aid][i][j], n.trace[aid][i + 1][j])
-                            for j in range(cont_num)
-                        ]
-                        for i in range(0, trace_len, 2)
-                    ]
-                    for aid in min_agents
-                }
-                if len(n.child) == 0:
-                    return {aid: cur[aid] for aid in other_agents}
-                else:
-                    children = [collect_ranges(c) for c in n.child]
-                    child_num = len(children)
-                    time_step = round(
-                        n.trace[min_agents[0]][-1][0] - n.trace[min_agents[0]][-2][0],
-                        10,
-                    )
-                    start_time_list = [c.start_time for c in n.child]
-                    min_start_time = min(start_time_list)
-                    bias_list = [
-                        round((c.start_time - min_start_time) / time_step) for c in n.child
-                    ]
-                    trace_len_list = [len(children[i][min_agents[0]]) for i in range(child_num)]
-                    trace_len = max(trace_len_list)
-                    combined = {
-                        aid: [
-                            [
-                                reduce(
-                                    portion.Interval.union,
-                                    (
-                                        children[k][aid][i - bias_list[k]][j]
-                                        if i - bias_list[k] >= 0
-                                        and i - bias_list[k] < trace_len_list[k]
-                                        else portion.empty()
-                                        for k in range(child_num)
-                                    ),
-                                )
-                                for j in range(cont_num)
-                            ]
-                            for i in range(trace_len)
-                        ]
-                        for aid in other_agents
-                    }
-                    overlap_len = round(
-                        (n.trace[min_agents[0]][-1][0] - min_start_time) / time_step
-                    )
-                    overlap = {
-                        aid: [
-                            [
-                                portion.Interval.union(
-                                    cur[aid][i][j], combined[aid][overlap_len + i][j]
-                                )
-                                for j in range(cont_num)
-                            ]
-                            for i in range(-overlap_len, 0)
-                        ]
-                        for aid in other_agents
-                    }
-                    return {
-                        aid: cur[aid][:-overlap_len] + overlap[aid] + combined[aid][overlap_len:]
-                        for aid in other_agents
-                    }
-
-            this_tree, other_tree = collect_ranges(self.root), collect_ranges(other.root)
-            total_len = len(other_tree[min_agents[0]])
-            assert total_len <= len(this_tree[min_agents[0]])
+            def collect_boxes(tree: "AnalysisTree") -> Dict[str, Dict[float, List[_Box]]]:
+                boxes = {aid: {} for aid in min_agents}
+                for n in tree.nodes:
+                    for aid in min_agents:
+                        trace = n.trace[aid]
+                        for i in range(0, len(trace), 2):
+                            step = boxes[aid].setdefault(round(trace[i][0], 8), [])
+                            step.append((list(trace[i]), list(trace[i + 1])))
+                return boxes
+
+            this_tree, other_tree = collect_boxes(self), collect_boxes(other)
             # bloat and containment
+            bloated = {
+                aid: {
+                    time: [([v - tol for v in lo], [v + tol for v in hi]) for lo, hi in boxes]
+                    for time, boxes in this_tree[aid].items()
+                }
+                for aid in min_agents
+            }
             return all(
-                other_tree[aid][i][j]
-                in this_tree[aid][i][j].apply(
-                    lambda x: x.replace(lower=lambda v: v - tol, upper=lambda v: v + tol)
-                )
-                for aid in other_agents
-                for i in range(total_len)
-                for j in range(cont_num)
+                _is_covered(box, bloated[aid].get(time, []))
+                for aid in min_agents
+                for time, boxes in other_tree[aid].items()
+                for box in boxes
             )
 
     @staticmethod
-- 
2.43.0


From e8b58be8f468c0875eead39b5dbda9246d6561b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 22/49] fix: trees with nodes beyond the maximal height could
 not be loaded

---
 verse/analysis/analysis_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index f174659..0ef6f1e 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -256,7 +256,7 @@ class AnalysisTreeNode:
     def _from_dict(data: Dict[str, Any]) -> "AnalysisTreeNode":
         return AnalysisTreeNode(
             trace=(
-                {aid: np.array(data["trace"][aid]) for aid in data["agent"].keys()}
+                {aid: np.array(trace) for aid, trace in data["trace"].items()}
                 if data["type"] == "simtrace"
                 else data["trace"]
             ),
-- 
2.43.0


From afd792a07f094aae3380851960d8d297e52d9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 23/49] fix: first_transitions did not report the earliest
 transition

---
 verse/analysis/analysis_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 0ef6f1e..3b66e86 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -536,6 +536,6 @@ def first_transitions(tree: AnalysisTree) -> Dict[str, float]:  # id, start time
     for node in tree.nodes:
         for child in node.child:
             for aid in node.agent:
-                if aid not in d and node.mode[aid] != child.mode[aid]:
-                    d[aid] = child.start_time
+                if node.mode[aid] != child.mode[aid]:
+                    d[aid] = min(d.get(aid, child.start_time), child.start_time)
     return d
-- 
2.43.0


From cbea53b60ffcd293fdad835eeaeb0e4c631f2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 24/49] fix: fixed point detection mistook the end of a shorter
 branch for the horizon

---
 verse/utils/fixed_points.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verse/utils/fixed_points.py b/verse/utils/fixed_points.py
index cb9fc25..f461569 100644
--- a/verse/utils/fixed_points.py
+++ b/verse/utils/fixed_points.py
@@ -29,8 +29,9 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
         sim_enum[agent] = {'_index': 0} # initial start with an index of 0 
     T = 0 # we know time horizon occurs in the leaf node, by definition, shouldn't matter which leaf node we check
     if t_lower is None or t_upper is None:
+        # a branch may end before the horizon (for example when an assertion fails)
         last: list[AnalysisTreeNode] = tree.get_leaf_nodes(tree.root)
-        T = last[0].trace[list(agents)[0]][-1][0] # using list casting since the agent doesn't matter
+        T = max(leaf.trace[list(agents)[0]][-1][0] for leaf in last) # using list casting since the agent doesn't matter
     for node in nodes:
         reached[node_counter] = None
         modes = node.mode 
@@ -63,7 +64,7 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
                         upper.append(sim_enum[agent][mode]) 
                     reach_node[agent] += [lower, upper]
             else: ### for now, just assume if t_lower and t_upper not supplied, we just want last node 
-                if node.trace[agent][-1][0]==T:
+                if abs(node.trace[agent][-1][0]-T) < 1e-8: # times are sums of floats
                     lower = list(node.trace[agent][-2][1:])
                     upper = list(node.trace[agent][-1][1:])
                     for mode in modes[agent]: # assume that size of modes[agent] doesn't change between nodes
-- 
2.43.0


From 7e795d6b9e79da13f13df63c0b2a0f3e66324c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 25/49] fix: fixed point detection paired bounds of different
 time steps for DRYVR_DISC tubes

---
 verse/utils/fixed_points.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/verse/utils/fixed_points.py b/verse/utils/fixed_points.py
index f461569..e16c45b 100644
--- a/verse/utils/fixed_points.py
+++ b/verse/utils/fixed_points.py
@@ -48,9 +48,7 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
             if t_lower is not None and t_upper is not None: ### may want to seperate this out into a seperate function
                 if agent not in node.trace: # NOTE: not all agents present in all modes -- is this desired? 
                     continue 
-                loop_step = 1 if node.trace[agent][0][0] == node.trace[agent][1][0] else 2 # NOTE: so that 
-                # FIXME: the loop below only makes sense for dryvr, not dryvr_disc -- not important if solely using dryvr, but important to mention
-                for i in range(0, len(node.trace[agent])-1, loop_step): # just check the upper bound, time difference between lower and upper known to be time step of scenario
+                for i in range(0, len(node.trace[agent])-1, 2): # rows alternate between the lower and the upper bounds
                     if node.trace[agent][i][0]<t_lower: # first, use the time of the lower bound to see if we can add current node
                         continue
                     if node.trace[agent][i+1][0]>t_upper: # then, use the time of the upper bound to do the same thing
-- 
2.43.0


From e876d6df2d133b0356170c24abf8e378c260f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 26/49] fix: containment of an empty reach set raised an
 exception

---
 verse/utils/fixed_points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/utils/fixed_points.py b/verse/utils/fixed_points.py
index e16c45b..e72e2b4 100644
--- a/verse/utils/fixed_points.py
+++ b/verse/utils/fixed_points.py
@@ -83,7 +83,9 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
 
 #unit test this
 def contain_all_fix(reach1: Dict[int, List[List[float]]], reach2: Dict[int, List[List[float]]]) -> Bool:
-    nodes = list(reach1.keys()) # this is abritrary, could be from either reach set, just need this 
+    nodes = [node for node in reach1 if reach1[node]] # this is abritrary, could be from either reach set, just need this 
+    if not nodes: # the empty set is contained in any other
+        return True
     state_len = len(reach1[nodes[0]][0]) # taking the first vertex, could be any
     P = RealVector('p', state_len)
     in_r1 = Or() #just set this boolean statement to just Or for now, can sub with Or(False) if having issues
-- 
2.43.0


From d3da4dfe106d83373a6ad763d0eb9a4e13c08a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 27/49] fix: an agent with a single initial state could not be
 analysed when added with it

---
 verse/scenario/scenario.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index 69e4cdb..40fdd0d 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -96,7 +96,10 @@ class Scenario:
             self._update_agent_lane_mode(agent, self.map)
         self.agent_dict[agent.id] = agent
         if hasattr(agent, "init_cont") and agent.init_cont is not None:
-            self.init_dict[agent.id] = copy.deepcopy(agent.init_cont)
+            init = copy.deepcopy(agent.init_cont)
+            if isinstance(init, list) and len(init) == 1:
+                init = init + copy.deepcopy(init)
+            self.init_dict[agent.id] = init
         if hasattr(agent, "init_disc") and agent.init_disc is not None:
             self.init_mode_dict[agent.id] = copy.deepcopy(agent.init_disc)
 
-- 
2.43.0


From ada908902ba5dddf7e7dee8a0aae7a82e0833043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 28/49] fix: partitioned verification followed transitions only
 from the first time step at which they can happen

---
 verse/analysis/verifier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 157d631..1616c64 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1771,11 +1771,10 @@ class Verifier:
             for transition in all_possible_transitions:
                 transit_agent_idx, src_mode, dest_mode, next_init, idx, path = transition
 
-                # NOTE: is this correct, or do I need indices from start to end as well 
-                start_idx = idx[0]  # Use start_idx as the hitting index, end_idx = idx[1] exists sometimes
+                start_idx, end_idx = idx[0], idx[-1]
                 
-                # Get the hitting set at start_idx
-                hitting_rect = combine_rect([node.trace[transit_agent_idx][start_idx * 2], node.trace[transit_agent_idx][start_idx * 2 + 1]])
+                # Get the hitting set: as in verify, the sets of all the time steps that hit are entered with the first one
+                hitting_rect = combine_rect(node.trace[transit_agent_idx][start_idx * 2 : (end_idx + 1) * 2])
                 
                 # Partition the hitting rect -- NOTE: fixing partitioning of time (0th dim always) and adding option to only partition a select number of partitions 
                 partitions = Verifier._partition_rect(hitting_rect, n, partition_dims)
-- 
2.43.0


From d2d155d454ac069658733a75257dc70980090a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 29/49] fix: longitudinal position was off by a turn on
 circular segments longer than half a turn

---
 verse/map/lane_segment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/map/lane_segment.py b/verse/map/lane_segment.py
index 3c3f679..2753177 100644
--- a/verse/map/lane_segment.py
+++ b/verse/map/lane_segment.py
@@ -280,7 +280,9 @@ class CircularLane(AbstractLane):
     def local_coordinates(self, position: np.ndarray) -> Tuple[float, float]:
         delta = position - self.center
         phi = np.arctan2(delta[1], delta[0])
-        phi = self.start_phase + wrap_to_pi(phi - self.start_phase)
+        # unwrap around the middle of the arc, which may be longer than half a turn
+        middle = (self.start_phase + self.end_phase) / 2
+        phi = middle + wrap_to_pi(phi - middle)
         r = np.linalg.norm(delta)
         longitudinal = self.direction * (phi - self.start_phase) * self.radius
         lateral = self.direction * (self.radius - r)
-- 
2.43.0


From b1514129d8e7750800b636ee9a712289764f3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 30/49] fix: lane segments were chosen by signed lateral
 distance, so a far away segment to the left of a position won

---
 verse/map/lane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/map/lane.py b/verse/map/lane.py
index 226b253..63b6a86 100644
--- a/verse/map/lane.py
+++ b/verse/map/lane.py
@@ -29,10 +29,10 @@ class Lane:
             logitudinal, lateral = segment.local_coordinates(position)
             is_on = 0 - Lane.COMPENSATE <= logitudinal < segment.length
             if is_on:
-                if lateral < min_lateral:
+                if abs(lateral) < min_lateral:
                     idx = seg_idx
                     seg = segment
-                    min_lateral = lateral
+                    min_lateral = abs(lateral)
         return idx, seg
 
     def get_heading(self, position: np.ndarray) -> float:
-- 
2.43.0


From a6cbd8c0916082574a6bc3511895ab28dffb196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 31/49] fix: a lane segment could not be made from its own
 configuration (no id)

---
 verse/map/lane_segment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/map/lane_segment.py b/verse/map/lane_segment.py
index 2753177..c81e6a9 100644
--- a/verse/map/lane_segment.py
+++ b/verse/map/lane_segment.py
@@ -218,6 +218,7 @@ class StraightLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -297,6 +298,7 @@ class CircularLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
                 "start_phase": self.start_phase,
-- 
2.43.0


From 59ad1d4946f2d9fbb3df4ed91a74df53057a4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 32/49] fix: agents without track modes could not be analysed
 in a map with successor lanes (KeyError)

---
 verse/analysis/simulator.py | 2 +-
 verse/analysis/verifier.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index b5abe33..8980e49 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -761,7 +761,7 @@ class Simulator:
                     src_track = node.get_track(agent_idx, node.mode[agent_idx])
                     dest_mode = node.get_mode(agent_idx, dest)
                     dest_track = node.get_track(agent_idx, dest)
-                    map_modes = [[src_mode, src_track, dest_mode, dest_track]]
+                    map_modes = [src_mode, src_track, dest_mode, dest_track]
 
                     # NOTE: propagating change from get_transition_verify_opt from verifier to allow transitions that aren't necessarily map transitions to be allowed
                     # NOTE CONT: as before, want to make sure that map transitions are valid with the 'dest_track != track_map.h(src_track, src_mode, dest_mode)' line,
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 1616c64..9e416e3 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1279,7 +1279,7 @@ class Verifier:
                     src_track = node.get_track(agent, node.mode[agent])
                     dest_mode = node.get_mode(agent, dest)
                     dest_track = node.get_track(agent, dest)
-                    map_modes = [[src_mode, src_track, dest_mode, dest_track]]
+                    map_modes = [src_mode, src_track, dest_mode, dest_track]
 
                     # if a map transition is being initiated but the map does not permit the transition, don't add to transition list
                     # a map transition for now is defined as any transition that changes either the trackmode or agentmode
-- 
2.43.0


From 37acb4e918469181b20c752cdfc09736f068ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 33/49] fix: longitudinal positions of sets on circular
 segments missed positions across the branch cut of the angle

---
 verse/automaton/guard.py | 55 +++++++++++++---------------------------
 1 file changed, 17 insertions(+), 38 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 953eee8..b0e2cde 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -614,44 +614,23 @@ class GuardExpressionAst:
             assert longitudinal_high >= longitudinal_low
             return longitudinal_low, longitudinal_high
         elif lane_seg.type == "Circular":
-            # Delta lower
-            delta0 = position[0, :] - lane_seg.center
-            # Delta upper
-            delta1 = position[1, :] - lane_seg.center
-
-            phi0 = np.min(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-            phi1 = np.max(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-
-            phi0 = lane_seg.start_phase + wrap_to_pi(phi0 - lane_seg.start_phase)
-            phi1 = lane_seg.start_phase + wrap_to_pi(phi1 - lane_seg.start_phase)
-            longitudinal_low = (
-                min(
-                    lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-                    lane_seg.direction * (phi1 - lane_seg.start_phase) * lane_seg.radius,
-                )
-                + lane_seg.longitudinal_start
-            )
-            longitudinal_high = (
-                max(
-                    lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-                    lane_seg.direction * (phi1 - lane_seg.start_phase) * lane_seg.radius,
-                )
-                + lane_seg.longitudinal_start
-            )
+            # The longitudinal position only depends on the direction from the center, which is
+            # extreme in the corners of the box
+            corners = [
+                lane_seg.local_coordinates(np.array([x, y]))[0]
+                for x in position[:, 0]
+                for y in position[:, 1]
+            ]
+            longitudinal_low = min(corners)
+            longitudinal_high = max(corners)
+            half_turn = np.pi * lane_seg.radius
+            if longitudinal_high - longitudinal_low > half_turn:
+                # The box surrounds the center or lies across the direction opposite to the
+                # middle of the segment, where the longitudinal position jumps
+                longitudinal_low = lane_seg.length / 2 - half_turn
+                longitudinal_high = lane_seg.length / 2 + half_turn
+            longitudinal_low += lane_seg.longitudinal_start
+            longitudinal_high += lane_seg.longitudinal_start
 
             assert longitudinal_high >= longitudinal_low
             return longitudinal_low, longitudinal_high
-- 
2.43.0


From 986720d856f00ff9a17ec3b376628854dfd6844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 34/49] fix: guards on lane positions of sets ignored segments
 other than those of two corners (or crashed where these were off the lane)

---
 verse/automaton/guard.py | 69 +++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index b0e2cde..3500c54 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -5,7 +5,7 @@ import ast
 
 from z3 import *
 
-from verse.map import LaneMap, AbstractLane
+from verse.map import LaneMap, AbstractLane, Lane
 from verse.utils.utils import *
 from verse.agents.base_agent import BaseAgent
 from verse.parser import Reduction, ReductionType, unparse
@@ -463,18 +463,17 @@ class GuardExpressionAst:
                                 arg1_upper.append(max_val) 
                         vehicle_pos = (arg1_lower, arg1_upper)
 
-                        # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
+                        # Get all lane segments the set of vehicle pos may belong to
+                        vehicle_pos = np.array(vehicle_pos)
+                        lane_segs = self._get_lane_segments(track_map, vehicle_lane, vehicle_pos)
 
-                        # Compute the set of possible lateral values with respect to all possible segments
-                        lateral_set1 = self._handle_lateral_set(lane_seg1, np.array(vehicle_pos))
-                        lateral_set2 = self._handle_lateral_set(lane_seg2, np.array(vehicle_pos))
-
-                        # Use the union of two sets as the set of possible lateral positions
+                        # Use the union over these segments as the set of possible lateral positions
+                        lateral_sets = [
+                            self._handle_lateral_set(seg, vehicle_pos) for seg in lane_segs
+                        ]
                         lateral_set = [
-                            min(lateral_set1[0], lateral_set2[0]),
-                            max(lateral_set1[1], lateral_set2[1]),
+                            min(low for low, _ in lateral_sets),
+                            max(high for _, high in lateral_sets),
                         ]
                         if agent_vars != {}: #stars:
                             from verse.stars.starset import StarSet
@@ -533,23 +532,18 @@ class GuardExpressionAst:
                                 arg1_upper.append(max_val) 
                         vehicle_pos = (arg1_lower, arg1_upper)
 
-                        # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
-
-                        # Compute the set of possible longitudinal values with respect to all possible segments
-                        longitudinal_set1 = self._handle_longitudinal_set(
-                            lane_seg1, np.array(vehicle_pos)
-                        )
-                        longitudinal_set2 = self._handle_longitudinal_set(
-                            lane_seg2, np.array(vehicle_pos)
-                        )
-                        # Use the union of two sets as the set of possible longitudinal positions
+                        # Get all lane segments the set of vehicle pos may belong to
+                        vehicle_pos = np.array(vehicle_pos)
+                        lane_segs = self._get_lane_segments(track_map, vehicle_lane, vehicle_pos)
+
+                        # Use the union over these segments as the set of possible longitudinal positions
+                        longitudinal_sets = [
+                            self._handle_longitudinal_set(seg, vehicle_pos) for seg in lane_segs
+                        ]
                         longitudinal_set = [
-                            min(longitudinal_set1[0], longitudinal_set2[0]),
-                            max(longitudinal_set1[1], longitudinal_set2[1]),
+                            min(low for low, _ in longitudinal_sets),
+                            max(high for _, high in longitudinal_sets),
                         ]
-
                         if agent_vars != {}: #stars:
                             from verse.stars.starset import StarSet
                             import polytope as pc
@@ -595,6 +589,29 @@ class GuardExpressionAst:
         else:
             raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
 
+    def _get_lane_segments(
+        self, track_map: LaneMap, lane_idx: str, position: np.ndarray
+    ) -> List[AbstractLane]:
+        """
+        Get all segments of a lane that Lane.get_lane_segment may return for a position in the box
+        """
+        lane = track_map.lane_dict[track_map.get_phys_lane(lane_idx)]
+        if len(lane.segment_list) == 1:
+            return lane.segment_list
+        segments = []
+        lateral_bound = float("inf")
+        for seg in lane.segment_list:
+            low, high = self._handle_longitudinal_set(seg, position)
+            low, high = low - seg.longitudinal_start, high - seg.longitudinal_start
+            if high < -Lane.COMPENSATE or low >= seg.length:
+                continue
+            lateral_low, lateral_high = self._handle_lateral_set(seg, position)
+            segments.append((seg, max(lateral_low, -lateral_high, 0)))
+            if low >= -Lane.COMPENSATE and high < seg.length:
+                # no position belongs to a segment farther away than this one
+                lateral_bound = min(lateral_bound, max(-lateral_low, lateral_high))
+        return [seg for seg, distance in segments if distance <= lateral_bound]
+
     def _handle_longitudinal_set(self, lane_seg: AbstractLane, position: np.ndarray) -> List[float]:
         if lane_seg.type == "Straight":
             # Delta lower
-- 
2.43.0


From d19814ce5b4432cd0276223bce6e31bef0e13dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 35/49] fix: intersection of a star set with half-spaces used
 the transposed generators

---
 verse/stars/starset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index ea0dbf5..8bf4f28 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -272,7 +272,7 @@ class StarSet:
             raise Exception("constraint_mat vectors should be of length n")
         if not (len(rhs) == len(constraint_mat)):
             raise Exception("constraint_mat should be length of rhs")
-        new_c = np.matmul(constraint_mat, self.basis)
+        new_c = np.matmul(constraint_mat, self.basis.T)
         conj_c = np.vstack((self.C, new_c))
         new_g = np.subtract(rhs, np.matmul(constraint_mat, self.center))
         conj_g = np.append(self.g, new_g) 
-- 
2.43.0


From 24ecc895172006c88bd1d97119b976793c2f810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 36/49] fix: overapprox_rectangles of a star set did not
 contain the set

---
 verse/stars/starset.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index 8bf4f28..c8239d4 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -120,27 +120,8 @@ class StarSet:
 
 
     def overapprox_rectangles(self):
-        # breakpoint()
-        # print("this version does work!!")
-        #get the sum of each column
-        coefficents = self.basis.sum(axis = 0)
-
-        #find the alphas to minimize the pt to fit into the constraints
-        res = linprog(c=coefficents, 
-                A_ub=self.C, 
-                b_ub=self.g, 
-                bounds=(None, None))
-        min = self.center + (coefficents * res.x)
-
-        #maximize:
-        
-        invert_coefficents = -1 * coefficents
-        res = linprog(c=invert_coefficents, 
-                A_ub=self.C, 
-                b_ub=self.g, 
-                bounds=(None, None))
-        max = self.center + (coefficents * res.x)
-        return min, max
+        mins, maxes = self.overapprox_rectangle()
+        return np.array(mins), np.array(maxes)
 
     def rect_to_star(min_list, max_list):
         if len(min_list) != len(max_list):
-- 
2.43.0


From 6d7a4b7af401ae38aa3afbcc3cea58c8c8a26688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 37/49] fix: StarSet.maximize used the transposed generators
 and changed its argument

---
 verse/stars/starset.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index c8239d4..89f7958 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -444,11 +444,9 @@ class StarSet:
     def maximize(self, opt_direction):
         """return the point that maximizes the direction"""
 
-        opt_direction *= -1
-
-        # convert opt_direction to domain
+        # convert opt_direction to domain (linprog minimizes)
         #print(self.basis)
-        domain_direction = opt_direction.T @ self.basis
+        domain_direction = -1 * np.ravel(self.basis @ opt_direction)
 
 
         # use LP to optimize the constraints
-- 
2.43.0


From 6ee27f67d03bd0598b2fbf9b2ea8a53cba5d3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 38/49] fix: center of a star set was not in the middle of its
 range

---
 verse/stars/starset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index 89f7958..62c1bca 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -475,7 +475,7 @@ class StarSet:
         pt = []
         for i in range(0,self.n):
             min, max = self.get_max_min(i)
-            pt.append(max - min / 2)
+            pt.append((max + min) / 2)
             #maxes.append(max)
             #mins.append(min)
         return pt
-- 
2.43.0


From 3c69b7c57a3332e65b23189d7e6870a9aa55ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 39/49] fix: emptiness of star sets considered only
 non-negative parameters, and as many of them as dimensions

---
 verse/stars/starset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index 62c1bca..41e457a 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -510,13 +510,13 @@ class StarSet:
 #        return None
 
     def is_empty(self):
-        feasible = StarSet.is_feasible(self.n,self.C,self.g)
+        feasible = StarSet.is_feasible(self.m,self.C,self.g)
         if feasible:
             return False
         return True
 
     def is_feasible(n, constraint_mat, rhs, equal_mat=None, equal_rhs=None):
-        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs)
+        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs, bounds=(None, None))
         if results.status == 0:
             return True
         if results.status == 2:
-- 
2.43.0


From 0fdd80d35984dfc5c707a57c4c6b5966e5175e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 40/49] fix: membership in rotated rectangles and ellipses
 turned the point the wrong way

---
 verse/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/utils/utils.py b/verse/utils/utils.py
index c7ad013..17ba610 100644
--- a/verse/utils/utils.py
+++ b/verse/utils/utils.py
@@ -86,7 +86,7 @@ def point_in_rotated_rectangle(
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length / 2, -width / 2), (length / 2, width / 2))
 
@@ -105,7 +105,7 @@ def point_in_ellipse(
     :return: is the point inside the ellipse
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.matrix([[c, -s], [s, c]])
+    r = np.matrix([[c, s], [-s, c]])
     ru = r.dot(point - center)
     return np.sum(np.square(ru / np.array([length, width]))) < 1
 
-- 
2.43.0


From bf191ecb65da081fbf087003f555bec4526c1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 41/49] fix: rectangles that cross without a corner or midpoint
 in the other were said not to intersect

---
 verse/utils/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/verse/utils/utils.py b/verse/utils/utils.py
index 17ba610..cf8fe6f 100644
--- a/verse/utils/utils.py
+++ b/verse/utils/utils.py
@@ -120,7 +120,16 @@ def rotated_rectangles_intersect(
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    displacement = np.array(rect2[0]) - np.array(rect1[0])
+    # disjoint rectangles are apart along a side of one of them
+    for axis_angle in (rect1[3], rect1[3] + np.pi / 2, rect2[3], rect2[3] + np.pi / 2):
+        reach = sum(
+            length * abs(np.cos(angle - axis_angle)) + width * abs(np.sin(angle - axis_angle))
+            for _, length, width, angle in (rect1, rect2)
+        ) / 2
+        if abs(displacement @ np.array([np.cos(axis_angle), np.sin(axis_angle)])) > reach:
+            return False
+    return True
 
 
 def rect_corners(
-- 
2.43.0


From e3e3809c2dd224d1a8f910f7a33002827e1b81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 42/49] fix: NPCAgent steered away from its lane where the
 heading wraps around

---
 verse/agents/example_agent/car_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/agents/example_agent/car_agent.py b/verse/agents/example_agent/car_agent.py
index ba817bf..fcb789f 100644
--- a/verse/agents/example_agent/car_agent.py
+++ b/verse/agents/example_agent/car_agent.py
@@ -41,7 +41,7 @@ class NPCAgent(BaseAgent):
         vehicle_lane = mode[1]
         vehicle_pos = np.array([x, y])
         d = -lane_map.get_lateral_distance(vehicle_lane, vehicle_pos)
-        psi = lane_map.get_lane_heading(vehicle_lane, vehicle_pos) - theta
+        psi = wrap_to_pi(lane_map.get_lane_heading(vehicle_lane, vehicle_pos) - theta)
         steering = psi + np.arctan2(0.45 * d, v)
         steering = np.clip(steering, -0.61, 0.61)
         a = 0
-- 
2.43.0


From ed5bac185f5032d62c42600df37a1410ebdf2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 43/49] fix: Ball_g_agent could not be simulated (static method
 with self)

---
 verse/agents/example_agent/ballg_agent.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/verse/agents/example_agent/ballg_agent.py b/verse/agents/example_agent/ballg_agent.py
index ceca9c1..8e17822 100644
--- a/verse/agents/example_agent/ballg_agent.py
+++ b/verse/agents/example_agent/ballg_agent.py
@@ -24,13 +24,12 @@ class Ball_g_agent(BaseAgent):
         super().__init__(id, code, file_name)
         self.g_acc = g_acc_val
 
-    @staticmethod
     def dynamics(self, t, state):
         """Defines the RHS of the ODE used to simulate trajectories"""
         x, y, vx, vy = state
         x_dot = vx
         y_dot = vy
-        vx_dot = -self.g_acc  # Does not work.
+        vx_dot = -self.g_acc
         vy_dot = 0
         return [x_dot, y_dot, vx_dot, vy_dot]
 
-- 
2.43.0


From 65087296929ae42289d0953aff21a1eeaa1779a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 44/49] fix: agents simulated a step beyond horizons whose
 quotient by the time step is rounded up

---
 verse/agents/example_agent/car_agent.py    | 4 ++--
 verse/agents/example_agent/origin_agent.py | 6 +++---
 verse/agents/example_agent/robot_agent.py  | 2 +-
 verse/agents/example_agent/sign_agent.py   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/verse/agents/example_agent/car_agent.py b/verse/agents/example_agent/car_agent.py
index fcb789f..374227b 100644
--- a/verse/agents/example_agent/car_agent.py
+++ b/verse/agents/example_agent/car_agent.py
@@ -51,7 +51,7 @@ class NPCAgent(BaseAgent):
         self, mode: Tuple[str], init, time_bound, time_step, lane_map: LaneMap = None
     ) -> TraceType:
         time_bound = float(time_bound)
-        num_points = int(np.ceil(time_bound / time_step))
+        num_points = int(np.ceil(round(time_bound / time_step, 8)))
         trace = np.zeros((num_points + 1, 1 + len(init)))
         trace[1:, 0] = [round(i * time_step, 10) for i in range(num_points)]
         trace[0, 1:] = init
@@ -125,7 +125,7 @@ class CarAgent(BaseAgent):
         self, mode: List[str], init, time_bound, time_step, lane_map: LaneMap = None
     ) -> TraceType:
         time_bound = float(time_bound)
-        num_points = int(np.ceil(time_bound / time_step))
+        num_points = int(np.ceil(round(time_bound / time_step, 8)))
         trace = np.zeros((num_points + 1, 1 + len(init)))
         trace[1:, 0] = [round(i * time_step, 10) for i in range(num_points)]
         trace[0, 1:] = init
diff --git a/verse/agents/example_agent/origin_agent.py b/verse/agents/example_agent/origin_agent.py
index 34ac93f..286cbed 100644
--- a/verse/agents/example_agent/origin_agent.py
+++ b/verse/agents/example_agent/origin_agent.py
@@ -26,7 +26,7 @@ class vanderpol_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
         # note: digit of time
         init = initialCondition
@@ -70,7 +70,7 @@ class thermo_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
@@ -163,7 +163,7 @@ class craft_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
diff --git a/verse/agents/example_agent/robot_agent.py b/verse/agents/example_agent/robot_agent.py
index 4832ddd..f72c8c7 100644
--- a/verse/agents/example_agent/robot_agent.py
+++ b/verse/agents/example_agent/robot_agent.py
@@ -22,7 +22,7 @@ class RobotAgent(BaseAgent):
         # TODO: P1. Should TC_simulate really be part of the agent definition or should it be something more generic?
         # TODO: P2. Looks like this should be a global parameter; some config file should be setting this.
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
diff --git a/verse/agents/example_agent/sign_agent.py b/verse/agents/example_agent/sign_agent.py
index 2f79580..fa0b44d 100644
--- a/verse/agents/example_agent/sign_agent.py
+++ b/verse/agents/example_agent/sign_agent.py
@@ -9,7 +9,7 @@ class SignAgent(BaseAgent):
         self.decision_logic = ControllerIR.empty()
 
     def TC_simulate(self, mode, init, time_horizon, time_step, map=None):
-        number_points = int(np.ceil(float(time_horizon) / time_step))
+        number_points = int(np.ceil(round(float(time_horizon) / time_step, 8)))
         t = [i * time_step for i in range(0, number_points)]
         trace = [[0] + init] + [[i + time_step] + init for i in t]
         return np.array(trace)
-- 
2.43.0


From cab6f48c63db24a87cf0299885d8e44b37090a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 45/49] fix: cached simulation traces were reused with the
 times, horizon and time step of another node

---
 verse/analysis/incremental.py | 45 ++++++++++++++++++++++++++++++++---
 verse/analysis/simulator.py   | 31 ++++++++++++++++++++----
 2 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 46a18b7..77581bf 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -28,6 +28,30 @@ class CachedSegment:
     asserts: List[str]
     transitions: List[CachedTransition]
     node_ids: Set[Tuple[int, int]]
+    time_horizon: float
+    time_step: float
+
+    def trace_for(self, time_horizon: float, start_time: float) -> nptyp.NDArray[np.double]:
+        """A copy of the trace up to time_horizon, starting at start_time"""
+        trace = self.trace.copy()
+        trace[:, 0] += start_time - trace[0, 0]
+        if time_horizon < self.time_horizon - _TIME_TOL:
+            trace = trace[: int(round(time_horizon / self.time_step)) + 1]
+        return trace
+
+
+_TIME_TOL = 1e-9
+
+
+def covers_time(cached, time_horizon: float, time_step: float) -> bool:
+    """Whether what was computed for the horizon and step of a cached result starts with what would be
+    computed for the given ones"""
+    if abs(cached.time_step - time_step) > _TIME_TOL:
+        return False
+    if abs(cached.time_horizon - time_horizon) <= _TIME_TOL:
+        return True
+    num_steps = time_horizon / time_step
+    return time_horizon < cached.time_horizon and abs(num_steps - round(num_steps)) < 1e-6
 
 
 @dataclass
@@ -177,6 +201,8 @@ class SimTraceCache:
         transition,
         trans_ind: int,
         run_num: int,
+        time_horizon: float,
+        time_step: float,
     ):
         key = (agent_id,) + tuple(node.mode[agent_id])
         init = node.init[agent_id]
@@ -189,7 +215,12 @@ class SimTraceCache:
                     agent_id, transit_agents, node.init, transition, trans_ind
                 )
                 entry = CachedSegment(
-                    trace, assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
+                    trace,
+                    assert_hits.get(agent_id),
+                    transitions,
+                    set([(run_num, node.id)]),
+                    time_horizon,
+                    time_step,
                 )
                 tree[val - _EPSILON : val + _EPSILON] = entry
                 return entry
@@ -241,13 +272,21 @@ class SimTraceCache:
             ]
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[float], inits: Dict[str, List[float]]
+        self,
+        agent_id: str,
+        mode: Tuple[str],
+        init: List[float],
+        inits: Dict[str, List[float]],
+        time_horizon: float,
+        time_step: float,
     ) -> Optional[CachedSegment]:
         key = (agent_id,) + tuple(mode)
         if key not in self.cache:
             return None
         tree = self.cache[key]
-        entries = self.query_cont(tree, init)
+        entries = [
+            e for e in self.query_cont(tree, init) if covers_time(e, time_horizon, time_step)
+        ]
         if len(entries) == 0:
             return None
 
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 8980e49..a45587c 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -214,7 +214,9 @@ class Simulator:
         for agent_id in node.agent:
             if agent_id not in node.trace:
                 if agent_id in cached_segments:
-                    node.trace[agent_id] = cached_segments[agent_id].trace
+                    node.trace[agent_id] = cached_segments[agent_id].trace_for(
+                        remain_time, node.start_time
+                    )
                 else:
                     # pp(("sim", agent_id, *mode, *init))
                     # Simulate the trace starting from initial condition
@@ -284,6 +286,8 @@ class Simulator:
                                 [],
                                 transition_idx,
                                 consts.run_num,
+                                remain_time,
+                                consts.time_step,
                             )
                         )
                 # print(red("no trans"))
@@ -305,6 +309,8 @@ class Simulator:
                             transition,
                             transition_idx,
                             consts.run_num,
+                            remain_time,
+                            consts.time_step,
                         )
                     )
             # pp(("cached inits", self.cache.get_cached_inits(3)))
@@ -371,13 +377,28 @@ class Simulator:
             transition,
             transition_idx,
             run_num,
+            time_horizon,
+            time_step,
         ) in cache_updates:
             cached = self.cache.check_hit(
-                aid, done_node.mode[aid], done_node.init[aid], done_node.init
+                aid,
+                done_node.mode[aid],
+                done_node.init[aid],
+                done_node.init,
+                time_horizon,
+                time_step,
             )
             if new and not cached:
                 self.cache.add_segment(
-                    aid, done_node, transit_agents, full_trace, transition, transition_idx, run_num
+                    aid,
+                    done_node,
+                    transit_agents,
+                    full_trace,
+                    transition,
+                    transition_idx,
+                    run_num,
+                    time_horizon,
+                    time_step,
                 )
                 self.num_cached += 1
             else:
@@ -438,7 +459,9 @@ class Simulator:
                     init = node.init[agent_id]
                     if self.config.incremental:
                         # pp(("check hit", agent_id, mode, init))
-                        cached = self.cache.check_hit(agent_id, mode, init, node.init)
+                        cached = self.cache.check_hit(
+                            agent_id, mode, init, node.init, remain_time, time_step
+                        )
                         if cached != None:
                             self.cache_hits = self.cache_hits[0] + 1, self.cache_hits[1]
                         else:
-- 
2.43.0


From 9be33920f46c630ce1c11fe51b6f5262de5b2be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 46/49] fix: cached tubes were reused for longer horizons and
 other time steps

---
 verse/analysis/incremental.py | 45 +++++++++++++++++++++++++----------
 verse/analysis/verifier.py    | 44 +++++++++++++++++++++++++---------
 2 files changed, 66 insertions(+), 23 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 77581bf..312f373 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -181,6 +181,16 @@ def reach_trans_suit(
 @dataclass
 class CachedTube:
     tube: List[List[List[float]]]
+    time_horizon: float
+    time_step: float
+
+    def tube_for(self, time_horizon: float):
+        """A copy of the tube up to time_horizon"""
+        tube = self.tube.copy()
+        if time_horizon < self.time_horizon - _TIME_TOL:
+            end = tube[0, 0] + time_horizon + self.time_step / 2
+            tube = tube[: 2 * sum(1 for t in tube[1::2, 0] if t < end)]
+        return tube
 
     def __eq__(self, other) -> bool:
         if other is None:
@@ -309,13 +319,15 @@ class TubeCache:
         mode: Tuple[str],
         init: List[List[float]],
         trace: List[List[List[float]]],
+        time_horizon: float,
+        time_step: float,
     ):
         key = (agent_id,) + tuple(mode)
         init = list(map(list, zip(*init)))
         tree = self.cache[key]
         for i, (low, high) in enumerate(init):
             if i == len(init) - 1:
-                entry = CachedTube(trace)
+                entry = CachedTube(trace, time_horizon, time_step)
                 tree[low : high + _EPSILON] = entry
                 return entry
             else:
@@ -324,22 +336,31 @@ class TubeCache:
                 tree = next_level_tree
         raise Exception("???")
 
+    @staticmethod
+    def query_cont(tree: IntervalTree, cont: List[Tuple[float, float]]) -> List[CachedTube]:
+        """The cached tubes whose initial set covers cont, the closest ones first"""
+        if len(cont) == 0:
+            return [tree]
+        low, high = cont[0]
+        entries = [t for t in tree[low : high + _EPSILON] if t.begin <= low and high <= t.end]
+        entries.sort(key=lambda e: low - e.begin + e.end - high)
+        return [tube for e in entries for tube in TubeCache.query_cont(e.data, cont[1:])]
+
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[List[float]]
+        self,
+        agent_id: str,
+        mode: Tuple[str],
+        init: List[List[float]],
+        time_horizon: float,
+        time_step: float,
     ) -> Optional[CachedTube]:
         key = (agent_id,) + tuple(mode)
         if key not in self.cache:
             return None
-        tree = self.cache[key]
-        for low, high in list(map(list, zip(*init))):
-            next_level_entries = [
-                t for t in tree[low : high + _EPSILON] if t.begin <= low and high <= t.end
-            ]
-            if len(next_level_entries) == 0:
-                return None
-            tree = min(next_level_entries, key=lambda e: low - e.begin + e.end - high).data
-        assert isinstance(tree, CachedTube)
-        return tree
+        for tube in self.query_cont(self.cache[key], list(zip(*init))):
+            if covers_time(tube, time_horizon, time_step):
+                return tube
+        return None
 
 
 class ReachTubeCache:
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 9e416e3..b5431c4 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -68,6 +68,8 @@ class Verifier:
         agent_id,
         mode_label,
         initial_set,
+        time_horizon,
+        time_step,
         combine_seg_length=1000,
     ):
         """
@@ -93,7 +95,9 @@ class Verifier:
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
             if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
+                cached = self.cache.check_hit(
+                    agent_id, mode_label, combined_rect, time_horizon, time_step
+                )
                 if cached != None:
                     self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
                     # print('cache', agent_id, time_horizon, self.tube_cache_hits )
@@ -103,7 +107,7 @@ class Verifier:
             else:
                 cached = None
             if cached != None:
-                cur_bloated_tube = cached.tube
+                cur_bloated_tube = cached.tube_for(time_horizon)
             else:
                 missing_seg_idx_list.append(combine_seg_idx)
                 continue
@@ -213,7 +217,9 @@ class Verifier:
 
            
             if incremental:
-                cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
+                cache_tube_updates.append(
+                    (agent_id, mode_label, combined_rect, cur_bloated_tube, time_horizon, time_step)
+                )
                 #EXISTING CODE, NOT SURE WHAT TO DO:
             old_code = False
             if old_code:
@@ -240,6 +246,8 @@ class Verifier:
         agent_id,
         mode_label,
         initial_set,
+        time_horizon,
+        time_step,
         combine_seg_length=1000,
     ):
         """
@@ -264,7 +272,9 @@ class Verifier:
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
             if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
+                cached = self.cache.check_hit(
+                    agent_id, mode_label, combined_rect, time_horizon, time_step
+                )
                 if cached != None:
                     self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
                     # print('cache', agent_id, time_horizon, self.tube_cache_hits )
@@ -275,13 +285,13 @@ class Verifier:
                 cached = None
             # the first tube determines the times of the union: without it, recompute
             if cached != None and (combine_seg_idx == 0 or res_tube is not None):
-                cur_bloated_tube = cached.tube
+                cur_bloated_tube = cached.tube_for(time_horizon)
             else:
                 missing_seg_idx_list.append(combine_seg_idx)
                 continue
             # FIXME
             if res_tube is None:
-                res_tube = cur_bloated_tube.copy()  # the cached tube must not change
+                res_tube = cur_bloated_tube
                 tube_length = cur_bloated_tube.shape[0]
             else:
                 if tube_length <= 2 * combine_seg_idx:
@@ -361,7 +371,9 @@ class Verifier:
                 lane_map=lane_map,
             )
             if incremental:
-                cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
+                cache_tube_updates.append(
+                    (agent_id, mode_label, combined_rect, cur_bloated_tube, time_horizon, time_step)
+                )
             if res_tube is None:
                 res_tube = cur_bloated_tube.copy()  # cur_bloated_tube is cached
                 tube_length = cur_bloated_tube.shape[0]
@@ -756,8 +768,8 @@ class Verifier:
                 )
                 cached.transitions = dedup(cached.transitions, lambda i: (i.mode, i.dest, i.inits))
                 cached.node_ids.add((run_num, done_node.id))
-        for agent_id, mode_label, combined_rect, cur_bloated_tube in cache_tube_updates:
-            self.cache.add_tube(agent_id, mode_label, combined_rect, cur_bloated_tube)
+        for cache_tube_update in cache_tube_updates:
+            self.cache.add_tube(*cache_tube_update)
         # print(f"proc dur {timeit.default_timer() - t}")
 
     def compute_full_reachtube(
@@ -837,7 +849,12 @@ class Verifier:
                             # uncertain_param = node.uncertain_param[agent_id]
                             # CachedTube.tube
                             cur_bloated_tube, miss_seg_idx_list = self.check_cache_bloated_tube_stars(
-                                agent_id, mode, inits, combine_seg_length=init_seg_length
+                                agent_id,
+                                mode,
+                                inits,
+                                remain_time,
+                                time_step,
+                                combine_seg_length=init_seg_length,
                             )
                             cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
                             print("done")
@@ -847,7 +864,12 @@ class Verifier:
                             # uncertain_param = node.uncertain_param[agent_id]
                             # CachedTube.tube
                             cur_bloated_tube, miss_seg_idx_list = self.check_cache_bloated_tube(
-                                agent_id, mode, inits, combine_seg_length=init_seg_length
+                                agent_id,
+                                mode,
+                                inits,
+                                remain_time,
+                                time_step,
+                                combine_seg_length=init_seg_length,
                             )
                             cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
                 # FIXME
-- 
2.43.0


From b3e4eb85074132cec4e27f07d242a0f81f56b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 47/49] fix: cached transitions of other controllers, modes,
 nodes and horizons were reused

---
 verse/analysis/incremental.py | 162 ++++++++++++++++++++--------------
 verse/analysis/simulator.py   |  51 ++++++-----
 verse/analysis/verifier.py    |  58 ++++++------
 3 files changed, 153 insertions(+), 118 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 312f373..3788349 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -1,5 +1,5 @@
 from collections import defaultdict
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pprint import pp
 from typing import Any, DefaultDict, List, Tuple, Optional, Dict, Set
 from verse.agents.base_agent import BaseAgent
@@ -20,9 +20,10 @@ class CachedTransition:
     disc: List[str]
     cont: List[float]
     paths: List[ModePath]
+    node_id: Tuple[int, int]
 
 
-@dataclass
+@dataclass(eq=False)
 class CachedSegment:
     trace: nptyp.NDArray[np.double]
     asserts: List[str]
@@ -63,70 +64,96 @@ class CachedReachTrans:
     reset: List[float]
     reset_idx: List[int]
     paths: List[ModePath]
+    node_id: Tuple[int, int]
 
 
-@dataclass
+@dataclass(eq=False)
 class CachedRTTrans:
     asserts: List[str]
     transitions: List[CachedReachTrans]
     node_ids: Set[Tuple[int, int]]  # run_num, node_id
 
 
+@dataclass(eq=False)
+class CachedNode:
+    """What the transitions of a node were computed from"""
+
+    mode: Dict[str, Tuple[str]]
+    static: Dict[str, List[str]]
+    logic: Dict[str, ControllerIR]
+    trace: Dict[str, Any]  # before the traces are cut at the transitions
+
+    def same_transitions(self, node: AnalysisTreeNode) -> bool:
+        """Whether the transitions of node, whose traces are already computed, are those of this one"""
+
+        def same_trace(a, b) -> bool:
+            return len(a) == len(b) and all(
+                av == bv for ar, br in zip(a, b) for av, bv in zip(ar[1:], br[1:])
+            )
+
+        return set(self.mode.keys()) == set(node.agent.keys()) and all(
+            list(self.mode[aid]) == list(node.mode[aid])
+            and self.static[aid] == node.static[aid]
+            and same_logic(self.logic[aid], agent.decision_logic)
+            and same_trace(self.trace[aid], node.trace[aid])
+            for aid, agent in node.agent.items()
+        )
+
+
+def same_logic(a: ControllerIR, b: ControllerIR) -> bool:
+    def parts(ctlr: ControllerIR):
+        paths = [(p.var, *map(ControllerIR.dump, (p.cond_veri, p.val_veri))) for p in ctlr.paths]
+        asserts = [
+            (a.label, *map(ControllerIR.dump, (a.pre, a.cond))) for a in ctlr.asserts_veri
+        ]
+        return ctlr.args, ctlr.state_defs, paths, asserts
+
+    return a is b or parts(a) == parts(b)
+
+
+class CachedNodes:
+    """The nodes whose transitions are cached, by run number and node id"""
+
+    def __init__(self):
+        self.nodes: Dict[Tuple[int, int], CachedNode] = {}
+
+    def add(self, node_id: Tuple[int, int], node: AnalysisTreeNode, traces: Dict[str, Any]):
+        logic = {aid: agent.decision_logic for aid, agent in node.agent.items()}
+        self.nodes[node_id] = CachedNode(
+            copy.deepcopy(node.mode), copy.deepcopy(node.static), logic, traces
+        )
+
+    def past_nodes(self, cached: Dict[str, Any], run_num: int) -> Dict[Tuple[int, int], CachedNode]:
+        """The nodes of previous runs which all the cached results contributed to"""
+        if not cached:
+            return {}
+        node_ids = set.intersection(*[set(c.node_ids) for c in cached.values()])
+        return {n: self.nodes[n] for n in sorted(node_ids) if n[0] != run_num and n in self.nodes}
+
+
 def to_simulate(
-    old_agents: Dict[str, BaseAgent],
-    new_agents: Dict[str, BaseAgent],
-    cached: Dict[str, CachedSegment],
-) -> Tuple[Dict[str, CachedSegment], Any]:  # s/Any/PathDiffs/
-    assert set(old_agents.keys()) == set(new_agents.keys())
-    new_cache = {}
-    total_added_paths = []
-    for agent_id, segment in cached.items():
-        if not segment.transitions:
-            new_cache[agent_id] = segment
-            continue
-        segment = copy.deepcopy(segment)
-        removed_paths, added_paths, reset_changed_paths = [], [], []
-        old_agent, new_agent = old_agents[agent_id], new_agents[agent_id]
-        old_ctlr, new_ctlr = old_agent.decision_logic, new_agent.decision_logic
-        assert old_ctlr.args == new_ctlr.args
-
-        def group_by_var(ctlr: ControllerIR) -> Dict[str, List[ModePath]]:
-            grouped = defaultdict(list)
-            for path in ctlr.paths:
-                grouped[path.var].append(path)
-            return dict(grouped)
-
-        old_grouped, new_grouped = group_by_var(old_ctlr), group_by_var(new_ctlr)
-        if set(old_grouped.keys()) != set(new_grouped.keys()):
-            raise NotImplementedError("different variable outputs")
-        for var, old_paths in old_grouped.items():
-            new_paths = new_grouped[var]
-            for i, (old, new) in enumerate(itertools.zip_longest(old_paths, new_paths)):
-                if new == None:
-                    removed_paths.append(old)
-                elif not ControllerIR.ir_eq(old.cond_veri, new.cond_veri):
-                    removed_paths.append(old)
-                    added_paths.append(new)
-                elif not ControllerIR.ir_eq(old.val_veri, new.val_veri):
-                    reset_changed_paths.append(new)
-        removed = False
-        for trans in segment.transitions:
-            for path in trans.paths:
-                removed = removed or (path in removed_paths)
-                for rcp in reset_changed_paths:
-                    if path.cond == rcp.cond:
-                        path.val = rcp.val
-        if not removed:
-            new_cache[agent_id] = segment
-        total_added_paths.extend((new_agent, p) for p in added_paths)
-    return new_cache, total_added_paths
-
-
-def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
+    old_nodes: Dict[Tuple[int, int], CachedNode], node: AnalysisTreeNode, cached: Dict[str, Any]
+) -> Dict[str, Any]:
+    """The cached results with the transitions of node, empty when they have to be computed"""
+    for node_id, old_node in old_nodes.items():
+        if old_node.same_transitions(node):
+            return {
+                aid: replace(c, transitions=[t for t in c.transitions if t.node_id == node_id])
+                for aid, c in cached.items()
+            }
+    return {}
+
+
+def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind, node_id):
     if agent_id in transit_agents:
         return [
             CachedTransition(
-                {k: list(v) for k, v in inits.items()}, trans_ind, mode, list(init), paths
+                {k: list(v) for k, v in inits.items()},
+                trans_ind,
+                mode,
+                list(init),
+                paths,
+                node_id,
             )
             for _id, mode, init, paths in transition
         ]
@@ -134,10 +161,10 @@ def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
         return []
 
 
-def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind):
+def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind, node_id):
     if agent_id in transit_agents:
         return [
-            CachedReachTrans(inits, trans_ind, mode, dest, reset, reset_idx, paths)
+            CachedReachTrans(inits, trans_ind, mode, dest, reset, reset_idx, paths, node_id)
             for _id, mode, dest, reset, reset_idx, paths in transition
         ]
     else:
@@ -178,7 +205,7 @@ def reach_trans_suit(
     return all(suits(av, bv) for aid in a.keys() for av, bv in zip(a[aid], b[aid]))
 
 
-@dataclass
+@dataclass(eq=False)
 class CachedTube:
     tube: List[List[List[float]]]
     time_horizon: float
@@ -192,15 +219,11 @@ class CachedTube:
             tube = tube[: 2 * sum(1 for t in tube[1::2, 0] if t < end)]
         return tube
 
-    def __eq__(self, other) -> bool:
-        if other is None:
-            return False
-        return (self.tube == other.tube).all()
-
 
 class SimTraceCache:
     def __init__(self):
         self.cache: DefaultDict[tuple, IntervalTree] = defaultdict(IntervalTree)
+        self.nodes = CachedNodes()
 
     def add_segment(
         self,
@@ -222,7 +245,12 @@ class SimTraceCache:
         for i, val in enumerate(init):
             if i == len(init) - 1:
                 transitions = convert_sim_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
+                    agent_id,
+                    transit_agents,
+                    node.init,
+                    transition,
+                    trans_ind,
+                    (run_num, node.id),
                 )
                 entry = CachedSegment(
                     trace,
@@ -366,6 +394,7 @@ class TubeCache:
 class ReachTubeCache:
     def __init__(self):
         self.cache: DefaultDict[tuple, IntervalTree] = defaultdict(IntervalTree)
+        self.nodes = CachedNodes()
 
     def add_tube(
         self,
@@ -385,7 +414,12 @@ class ReachTubeCache:
         for i, (low, high) in enumerate(init):
             if i == len(init) - 1:
                 transitions = convert_reach_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
+                    agent_id,
+                    transit_agents,
+                    node.init,
+                    transition,
+                    trans_ind,
+                    (run_num, node.id),
                 )
                 entry = CachedRTTrans(
                     assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index a45587c..28e1873 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -14,7 +14,13 @@ from enum import Enum
 import numpy as np
 
 from verse.agents.base_agent import BaseAgent
-from verse.analysis.incremental import CachedSegment, SimTraceCache, convert_sim_trans, to_simulate
+from verse.analysis.incremental import (
+    CachedNode,
+    CachedSegment,
+    SimTraceCache,
+    convert_sim_trans,
+    to_simulate,
+)
 from verse.utils.utils import dedup
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import ModePath, find, unparse
@@ -23,7 +29,6 @@ from verse.analysis.incremental import (
     CachedSegment,
     combine_all,
     reach_trans_suit,
-    sim_trans_suit,
 )
 
 pp = functools.partial(pprint.pprint, compact=True, width=130)
@@ -200,7 +205,7 @@ class Simulator:
         config: "ScenarioConfig",
         cached_segments: Dict[str, CachedSegment],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
+        old_nodes: Dict[Tuple[int, int], CachedNode],
         later: int,
         remain_time: float,
         consts: SimConsts,
@@ -230,14 +235,7 @@ class Simulator:
         # pp(("cached_segments", cached_segments.keys()))
         # TODO: for now, make sure all the segments comes from the same node; maybe we can do
         # something to combine results from different nodes in the future
-        new_cache, paths_to_sim = {}, []
-        if old_node_id != None:
-            if old_node_id[0] != consts.run_num:
-                old_node = find(
-                    consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
-                )
-                assert old_node != None
-                new_cache, paths_to_sim = to_simulate(old_node.agent, node.agent, cached_segments)
+        new_cache, paths_to_sim = to_simulate(old_nodes, node, cached_segments), []
 
         asserts, transitions, transition_idx = Simulator.get_transition_simulate(
             new_cache, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level
@@ -369,6 +367,10 @@ class Simulator:
             self.simulation_queue.append((node, later))
         self.simulation_queue.sort(key=lambda p: p[1:])
         self.nodes.extend(next_nodes)
+        if len(cache_updates) > 0:
+            run_num = cache_updates[0][6]
+            full_traces = {u[1]: u[3] for u in cache_updates}
+            self.cache.nodes.add((run_num, id), done_node, full_traces)
         for (
             new,
             aid,
@@ -405,10 +407,17 @@ class Simulator:
                 assert cached != None
                 cached.transitions.extend(
                     convert_sim_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
+                        aid,
+                        transit_agents,
+                        done_node.init,
+                        transition,
+                        transition_idx,
+                        (run_num, done_node.id),
                     )
                 )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.disc, i.cont, i.inits))
+                cached.transitions = dedup(
+                    cached.transitions, lambda i: (i.disc, i.cont, i.inits, i.node_id)
+                )
                 cached.node_ids.add((run_num, done_node.id))
             # pre_len = len(cached_segments[aid].transitions)
             # pp(("dedup!", pre_len, len(cached_segments[aid].transitions)))
@@ -469,15 +478,10 @@ class Simulator:
                         # pp(("check hit res", agent_id, len(cached.transitions) if cached != None else None))
                         if cached != None:
                             cached_segments[agent_id] = cached
-                old_node_id = None
+                old_nodes = {}
                 if len(cached_segments) == len(node.agent):
-                    all_node_ids = [s.node_ids for s in cached_segments.values()]
-                    node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
-                    if len(node_ids) > 0:
-                        old_node_id = node_ids[0]
-                    # else:
-                    #     print(f"not full {node.id}: {node_ids}, {len(cached_segments) == len(node.agent)} | {all_node_ids}")
-                if not self.config.parallel or old_node_id != None:
+                    old_nodes = self.cache.nodes.past_nodes(cached_segments, run_num)
+                if not self.config.parallel or len(old_nodes) > 0:
                     # print(f"local {node.id}")
                     t = timeit.default_timer()
                     self.proc_result(
@@ -485,7 +489,7 @@ class Simulator:
                             self.config,
                             cached_segments,
                             node,
-                            old_node_id,
+                            old_nodes,
                             later,
                             remain_time,
                             consts,
@@ -498,7 +502,7 @@ class Simulator:
                             self.config,
                             cached_segments,
                             node,
-                            old_node_id,
+                            old_nodes,
                             later,
                             remain_time,
                             consts_ref,
@@ -673,7 +677,6 @@ class Simulator:
                 (aid, trans)
                 for aid, seg in cache.items()
                 for trans in seg.transitions
-                if sim_trans_suit(trans.inits, node.init)
             ]
             # pp(("cached trans", _transitions))
             if len(_transitions) > 0:
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index b5431c4..dc183fa 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -18,7 +18,7 @@ from verse.analysis.incremental import (
     to_simulate,
     combine_all,
 )
-from verse.analysis.incremental import CachedRTTrans, combine_all, reach_trans_suit
+from verse.analysis.incremental import CachedNode, CachedRTTrans, combine_all
 from verse.utils.utils import dedup
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import find, ModePath, unparse
@@ -397,7 +397,7 @@ class Verifier:
         cached_trans_tubes: Dict[str, CachedRTTrans],
         cached_tubes: Dict[str, Tuple],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
+        old_nodes: Dict[Tuple[int, int], CachedNode],
         later: int,
         remain_time: float,
         consts: ReachConsts,
@@ -566,16 +566,8 @@ class Verifier:
                 node.trace[agent_id] = trace.tolist()
         # pp(("cached tubes", cached_tubes.keys()))
         new_cache, paths_to_sim = {}, []
-        if old_node_id != None:
-            if old_node_id[0] != consts.run_num:
-                old_node = find(
-                    consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
-                )
-                assert old_node != None
-                new_cache, paths_to_sim = to_simulate(
-                    old_node.agent, node.agent, cached_trans_tubes
-                )
-                # pp(("to sim", new_cache.keys(), len(paths_to_sim)))
+        if consts.reachability_method != ReachabilityMethod.STAR_SETS:
+            new_cache = to_simulate(old_nodes, node, cached_trans_tubes)
 
         # Get all possible transitions to next mode
         # FIXME: weird bug using new dryvr_disc where length of next_init is 4096 even though all inits are the same
@@ -627,6 +619,7 @@ class Verifier:
                         transition,
                         transit_ind,
                         consts.run_num,
+                        node.trace[agent_id],
                     )
                 )
 
@@ -736,6 +729,10 @@ class Verifier:
         self.verification_queue.sort(key=lambda p: p[1:])
         if done_node.height <= max_height:
             self.nodes.extend(next_nodes)
+        if len(cache_trans_tube_updates) > 0:
+            run_num = cache_trans_tube_updates[0][5]
+            full_traces = {u[1]: u[6] for u in cache_trans_tube_updates}
+            self.trans_cache.nodes.add((run_num, id), done_node, full_traces)
         combined_inits = {a: combine_all(inits,self.config.reachability_method == ReachabilityMethod.STAR_SETS) for a, inits in done_node.init.items()}
         for (
             new,
@@ -744,6 +741,7 @@ class Verifier:
             transition,
             transition_idx,
             run_num,
+            _,
         ) in cache_trans_tube_updates:
             cached = self.trans_cache.check_hit(
                 aid, done_node.mode[aid], combine_all(done_node.init[aid]), done_node.init
@@ -763,10 +761,18 @@ class Verifier:
                 assert cached != None
                 cached.transitions.extend(
                     convert_reach_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
+                        aid,
+                        transit_agents,
+                        done_node.init,
+                        transition,
+                        transition_idx,
+                        (run_num, done_node.id),
                     )
                 )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.mode, i.dest, i.inits))
+                cached.transitions = dedup(
+                    cached.transitions,
+                    lambda i: (i.mode, i.dest, i.inits, i.reset, i.reset_idx, i.node_id),
+                )
                 cached.node_ids.add((run_num, done_node.id))
         for cache_tube_update in cache_tube_updates:
             self.cache.add_tube(*cache_tube_update)
@@ -873,24 +879,17 @@ class Verifier:
                             )
                             cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
                 # FIXME
-                old_node_id = None
+                old_nodes = {}
                 if len(cached_trans_tubes) == len(node.agent):
-                    all_node_ids = [s.node_ids for s in cached_trans_tubes.values()]
-                    # print('all_node_ids', all_node_ids)
-                    node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
-                    # print('node_ids', node_ids)
-                    if len(node_ids) > 0:
-                        old_node_id = node_ids[0]
-                    # else:
-                    #     print(f"not full {node.id}: {node_ids}, {len(cached_trans_tubes) == len(node.agent)} | {all_node_ids}")
-                if not self.config.parallel or (old_node_id != None and self.config.try_local):
+                    old_nodes = self.trans_cache.nodes.past_nodes(cached_trans_tubes, run_num)
+                if not self.config.parallel or (len(old_nodes) > 0 and self.config.try_local):
                     self.proc_result(
                         *self.compute_full_reachtube_step(
                             self.config,
                             cached_trans_tubes,
                             cached_tubes,
                             node,
-                            old_node_id,
+                            old_nodes,
                             later,
                             remain_time,
                             consts,
@@ -906,7 +905,7 @@ class Verifier:
                             cached_trans_tubes,
                             cached_tubes,
                             node,
-                            old_node_id,
+                            old_nodes,
                             later,
                             remain_time,
                             consts_ref,
@@ -975,7 +974,6 @@ class Verifier:
                 (aid, trans)
                 for aid, seg in cache.items()
                 for trans in seg.transitions
-                if reach_trans_suit(trans.inits, node.init)
             ]
             # pp(("cached trans", len(_transitions)))
             if len(_transitions) > 0:
@@ -983,7 +981,7 @@ class Verifier:
                 # TODO: check for asserts
                 cached_trans = [
                     (aid, tran.mode, tran.dest, tran.reset, tran.reset_idx, tran.paths)
-                    for aid, tran in dedup(_transitions, lambda p: (p[0], p[1].mode, p[1].dest))
+                    for aid, tran in _transitions
                     if tran.transition == min_trans_ind
                 ]
                 if len(paths) == 0:
@@ -1671,7 +1669,7 @@ class Verifier:
                         {},  # cached_trans_tubes (simplified) 
                         {},  # cached_tubes
                         node,
-                        None,  # old_node_id
+                        {},  # old_nodes
                         later,
                         remain_time,
                         consts,
@@ -1720,7 +1718,7 @@ class Verifier:
         cached_trans_tubes: Dict[str, CachedRTTrans],
         cached_tubes: Dict[str, Tuple],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
+        old_nodes: Dict[Tuple[int, int], CachedNode],
         later: int,
         remain_time: float,
         consts: ReachConsts,
-- 
2.43.0


From 492f4c26062d17ef0f5945abdba0f87a64dc156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 48/49] fix: negative values substituted into resets bound
 weaker than the powers they were raised to (-3 ** 2)

---
 verse/analysis/verifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index dc183fa..34dafb3 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1464,7 +1464,7 @@ class Verifier:
                     val_dict = {}
                     tmp = copy.deepcopy(expr)
                     for symbol_idx, symbol in enumerate(symbols):
-                        tmp = tmp.replace(symbol, str(comb[symbol_idx]))
+                        tmp = tmp.replace(symbol, f"({comb[symbol_idx]})")
                     res = eval(tmp, {}, val_dict)
                     lb = min(lb, res)
                     ub = max(ub, res)
@@ -1573,7 +1573,7 @@ class Verifier:
                 # substitute longer names first: a name can be a prefix of another (ego.x, ego.xdot)
                 for i in sorted(range(0, len(state)), key=lambda i: len(statevec[i]), reverse=True):
                     if statevec[i] in tmp_exp:
-                        tmp_exp = tmp_exp.replace(statevec[i], str(state[i]))
+                        tmp_exp = tmp_exp.replace(statevec[i], f"({state[i]})")
                 #print(tmp_exp)
                 result = eval(tmp_exp, {}, val_dict)
                 for i in range(0, len(state)):
-- 
2.43.0


From 78643fc38c263966bbecd98cdcd7c3951afbcffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:39 +0000
Subject: [PATCH 49/49] fix: guards the solver could not decide (2**x) were
 taken as impossible, so their transitions were lost

---
 verse/automaton/guard.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 3500c54..185bb99 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -210,7 +210,8 @@ class GuardExpressionAst:
             #guard \cap hyperrectangle =/= empty set
             # if false, then they are disjoint
             #breakpoint()
-            if cur_solver.check() == sat: #checking intersection with guard
+            # a guard the solver cannot decide has to be taken as possible
+            if cur_solver.check() != unsat: #checking intersection with guard
                 # The reachtube hits the guard
                 # remove hyperrectangle
                 cur_solver.pop()
@@ -233,7 +234,8 @@ class GuardExpressionAst:
             for symbol in symbols:
                 start, end = continuous_variable_dict[symbols[symbol]]
                 cur_solver.add(self.varDict[symbol] >= start, self.varDict[symbol] <= end)
-            if cur_solver.check() == sat:
+            # a guard the solver cannot decide has to be taken as possible
+            if cur_solver.check() != unsat:
                 # The reachtube hits the guard
                 cur_solver.pop()
                 res = True
-- 
2.43.0

