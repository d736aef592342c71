From 5062d6db240dd9a5ba7567e71accb5f939ce011b Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 01/76] fix: simulation crashed when the queue of events
 drained after the first event

---
 prosimos/simulation_engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 9b1a905..ede9b82 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -645,6 +645,12 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
     # print("Generation of all cases: %s" %
     #       str(datetime.timedelta(seconds=(datetime.datetime.now() - s_t).total_seconds())))
     current_event = bpm_env.events_queue.pop_next_event()
+    # the queue might drain right after the first event
+    last_event_datetime = (
+        CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
+        if current_event is not None
+        else None
+    )
     executed_cases = set()
 
     while current_event is not None:
-- 
2.43.0


From edcd68c8452bd1149e4139f7dd1c2710a5ead66d Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 02/76] fix: OR-join in a loop waited for tokens that could
 only arrive after it fired

---
 prosimos/control_flow_manager.py | 33 +++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index ea509f9..3a90737 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -147,6 +147,7 @@ class BPMNGraph:
         self.nodes_bitset = dict()
         self.arcs_bitset = dict()
         self.or_join_pred = dict()  # or_id -> [0 = node predecesors bitset, 1 = predecesors flow arcs]
+        self.or_join_flow_pred = dict()  # or_id -> incoming flow -> bitset of the arcs leading to it without crossing or_id
         self.or_join_conflicting_pred = dict()
         self.decision_successors = dict()
         self.element_probability = None
@@ -205,6 +206,7 @@ class BPMNGraph:
             if element.type is BPMN.INCLUSIVE_GATEWAY and element.is_join():
                 self.or_join_pred[e_id] = [0, 0]
                 self._find_or_conflicting_predecesors(e_id)
+                self._find_or_join_flow_predecesors(e_id)
                 pred_queue = deque([e_id])
                 while len(pred_queue) > 0:
                     element = self.element_info[pred_queue.popleft()]
@@ -218,6 +220,35 @@ class BPMNGraph:
             if element.type in [BPMN.EXCLUSIVE_GATEWAY, BPMN.INCLUSIVE_GATEWAY] and element.is_split():
                 self._find_decision_successors(element)
 
+    def _find_or_join_flow_predecesors(self, or_join_id):
+        self.or_join_flow_pred[or_join_id] = dict()
+        for in_flow in self.element_info[or_join_id].incoming_flows:
+            visited = {or_join_id}
+            arcs_mask = self.arcs_bitset[in_flow]
+            pred_queue = deque([self.flow_arcs[in_flow][0]])
+            while pred_queue:
+                prev_id = pred_queue.popleft()
+                if prev_id not in visited:
+                    visited.add(prev_id)
+                    for flow_id in self.element_info[prev_id].incoming_flows:
+                        arcs_mask |= self.arcs_bitset[flow_id]
+                        pred_queue.append(self.flow_arcs[flow_id][0])
+            self.or_join_flow_pred[or_join_id][in_flow] = arcs_mask
+
+    def _is_or_join_blocked(self, e_info, p_state):
+        """
+        An OR-join with a token must wait only for the tokens which can still arrive at one of its empty incoming flows,
+        and not for the ones that can also get to a flow already holding a token, e.g., those getting back to
+        the join through a loop after passing by the elements which follow it (otherwise, it would wait for itself).
+        """
+        to_empty, to_marked = 0, 0
+        for flow_id in e_info.incoming_flows:
+            if p_state.tokens[flow_id] > 0:
+                to_marked |= self.or_join_flow_pred[e_info.id][flow_id]
+            else:
+                to_empty |= self.or_join_flow_pred[e_info.id][flow_id]
+        return p_state.state_mask & to_empty & ~to_marked != 0
+
     def _find_decision_successors(self, split_info):
         self.decision_successors[split_info.id] = set()
         visited = {split_info.id}
@@ -315,7 +346,7 @@ class BPMNGraph:
                         count_tokens += 1
                 if count_tokens == len(e_info.incoming_flows):
                     return True
-                if count_tokens > 0 and self.or_join_pred[e_id][1] & p_state.state_mask == 0:
+                if count_tokens > 0 and not self._is_or_join_blocked(e_info, p_state):
                     return True
                 return False
         return False
-- 
2.43.0


From dde13c36361fe89f89fb42ab2e724fba2df38ce5 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 03/76] fix: OR-join fired before its split put a token on all
 the selected flows

---
 prosimos/control_flow_manager.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 3a90737..2ce5823 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -390,8 +390,15 @@ class BPMNGraph:
 
             self.simulation_execution_stats.update_element_execution(case_id, e_info, f_arcs)
 
+            # all the tokens must be in place before checking what they enable, e.g., an OR-join directly connected
+            # to its split must wait for the tokens that the same split puts on the remaining flows
+            for f_arc, _ in f_arcs:
+                p_state.tokens[f_arc] += 1
+                p_state.state_mask |= self.arcs_bitset[f_arc]
+            enabled_joins = set()
             for f_arc in f_arcs:
-                self._find_next(f_arc, case_id, p_state, enabled_tasks, to_execute, last_enabled, visited_at)
+                self._find_next(f_arc, case_id, p_state, enabled_tasks, to_execute, last_enabled, visited_at,
+                                enabled_joins)
             current += 1
         if len(enabled_tasks) > 1:
             random.shuffle(enabled_tasks)
@@ -897,16 +904,17 @@ class BPMNGraph:
                 gateways_branching[e_id] = flow_arc_probability
         return gateways_branching
 
-    def _find_next(self, f_arc_and_duration, case_id, p_state, enabled_tasks, to_execute, enabled_time: CustomDatetimeAndSeconds, visited_at):
+    def _find_next(self, f_arc_and_duration, case_id, p_state, enabled_tasks, to_execute, enabled_time: CustomDatetimeAndSeconds, visited_at, enabled_joins):
         # verify that there is no batch waiting to be executed
         f_arc, duration_sec = f_arc_and_duration
-        p_state.tokens[f_arc] += 1
-        p_state.state_mask |= self.arcs_bitset[f_arc]
         next_e = self.flow_arcs[f_arc][1]
         enabled_time = self._check_and_update_enabling_time(case_id, next_e, enabled_time)
         visited_at[next_e] = enabled_time
-        if self.is_enabled(next_e, p_state):
+        if next_e not in enabled_joins and self.is_enabled(next_e, p_state):
             next_el_type = self.element_info[next_e].type
+            if next_el_type in [BPMN.PARALLEL_GATEWAY, BPMN.INCLUSIVE_GATEWAY]:
+                # many flows of the same split may point to the join, which fires once
+                enabled_joins.add(next_e)
             if next_el_type == BPMN.TASK and self.is_task_batched(next_e):
                 self.enable_batch_or_task(next_e, case_id, enabled_time, enabled_tasks, duration_sec)
             elif next_el_type == BPMN.TASK:
-- 
2.43.0


From 685893c0d0cc86474fbad25f24bd626c72421fb4 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 04/76] fix: simulation with given arrival times lost the
 buffered log rows and the statistics

---
 prosimos/simulation_engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index ede9b82..770ead2 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -743,9 +743,9 @@ def run_simulation(
 def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting_times=None):
     bpm_env = SimBPMEnv(diffsim_info, stat_fwriter, log_fwriter)
     execute_full_process(bpm_env, fixed_starting_times)
-    if fixed_starting_times is not None:
-        return bpm_env
     if log_fwriter is None and stat_fwriter is None:
+        if fixed_starting_times is not None:
+            return bpm_env
         return bpm_env.log_info.compute_process_kpi(bpm_env), bpm_env.log_info
     if log_fwriter:
         bpm_env.log_writer.force_write()
@@ -754,7 +754,7 @@ def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting
 
     warning_logger.add_warnings(bpm_env.sim_setup.bpmn_graph.simulation_execution_stats.find_issues())
 
-    return None
+    return bpm_env if fixed_starting_times is not None else None
 
 
 def verify_miliseconds(array):
-- 
2.43.0


From 71178f80fcd15b5e37207f39996a996a302b9da4 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 05/76] fix: event selected by an event-based gateway took a
 different duration than the one that won

---
 prosimos/simulation_engine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 770ead2..dee21fa 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -582,9 +582,10 @@ class SimBPMEnv:
 
     def execute_event(self, c_event):
         # Handle event types separately (they don't need assigned resource)
-        event_duration_seconds = None
-        event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
-        [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
+        event_duration_seconds = c_event.duration_sec
+        if event_duration_seconds is None:
+            event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
+            [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
 
         completed_at = c_event.enabled_at + event_duration_seconds
         completed_datetime = c_event.enabled_datetime + timedelta(seconds=event_duration_seconds)
-- 
2.43.0


From 990f690842c9ab94f48070691e30af297c62bbe6 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 06/76] fix: all intermediate events shared one record, so
 their statistics were wrong

---
 prosimos/execution_info.py              | 36 ++++++++++++-------------
 prosimos/simulation_engine.py           |  2 +-
 prosimos/simulation_stats_calculator.py |  3 +++
 3 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/prosimos/execution_info.py b/prosimos/execution_info.py
index 498a5fd..36bdc5b 100644
--- a/prosimos/execution_info.py
+++ b/prosimos/execution_info.py
@@ -77,24 +77,24 @@ class TaskEvent:
 
     @classmethod
     def create_event_entity(cls, c_event: EnabledEvent, ended_at, ended_datetime):
-        cls.p_case = c_event.p_case  # ID of the current trace, i.e., index of the trace in log_info list
-        cls.task_id = c_event.task_id  # Name of the task related to the current event
-        cls.type = BPMN.INTERMEDIATE_EVENT
-        cls.enabled_at = c_event.enabled_at
-        cls.enabled_datetime = c_event.enabled_datetime
-        cls.started_at = c_event.enabled_at
-        cls.started_datetime = c_event.enabled_datetime
-        cls.completed_at = ended_at
-        cls.completed_datetime = ended_datetime
-        cls.idle_time = 0.0
-        cls.waiting_time = 0.0
-        cls.idle_cycle_time = 0.0
-        cls.idle_processing_time = 0.0
-        cls.cycle_time = 0.0
-        cls.processing_time = 0.0
-        cls.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
-
-        return cls
+        # events don't have any assigned resource
+        event_entity = cls(c_event.p_case, c_event.task_id, None)
+        event_entity.type = BPMN.INTERMEDIATE_EVENT
+        event_entity.enabled_at = c_event.enabled_at
+        event_entity.enabled_datetime = c_event.enabled_datetime
+        event_entity.started_at = c_event.enabled_at
+        event_entity.started_datetime = c_event.enabled_datetime
+        event_entity.completed_at = ended_at
+        event_entity.completed_datetime = ended_datetime
+        event_entity.idle_time = 0.0
+        event_entity.waiting_time = 0.0
+        event_entity.idle_cycle_time = 0.0
+        event_entity.idle_processing_time = 0.0
+        event_entity.cycle_time = 0.0
+        event_entity.processing_time = 0.0
+        event_entity.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
+
+        return event_entity
 
     def update_enabling_times(self, enabled_at):
         # what's the use case ?
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index dee21fa..ccacb4e 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -349,7 +349,7 @@ class SimBPMEnv:
 
         resource_name = (
             self.sim_setup.resources_map[full_event.resource_id].resource_name
-            if (hasattr(full_event, "resource_id"))
+            if full_event.resource_id is not None
             else "No assigned resource"
         )
 
diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index d170562..873704d 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -272,6 +272,9 @@ def compute_fuzzy_availability(bpm_env):
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
+            if ev.resource_id is None:
+                # intermediate events are not executed by any resource
+                continue
             if ev.resource_id not in r_working_intervals:
                 r_working_intervals[ev.resource_id] = []
             for interval in ev.worked_intervals:
-- 
2.43.0


From c08f5e91cd9d3ca816086fb89209ce41de57462e Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 07/76] fix: union of three or more overlapping intervals was
 computed wrong in the process KPIs

---
 prosimos/simulation_stats_calculator.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 873704d..f2c989b 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -344,15 +344,12 @@ def sum_interval_union(interval_list):
     if interval_list is None or len(interval_list) == 0:
         return 0
     interval_list = sorted(interval_list, key=lambda interval: interval.start)
-    t_duration = interval_list[0].duration
-    for i in range(1, len(interval_list)):
-        i_interval = interval_list[i - 1].intersection(interval_list[i])
-        for j in range(i - 2, -1, -1):
-            intersection = interval_list[j].intersection(i_interval)
-            if intersection is None:
-                break
-            i_interval = intersection
-        t_duration += interval_list[i].duration - i_interval.duration if i_interval else interval_list[i].duration
+    t_duration = 0
+    covered_until = interval_list[0].start
+    for interval in interval_list:
+        if interval.end > covered_until:
+            t_duration += (interval.end - max(interval.start, covered_until)).total_seconds()
+            covered_until = interval.end
     return round(t_duration, 6)
 
 
-- 
2.43.0


From d5919d17cc054e6db0ac1ce2837e30c635eca1a4 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 08/76] fix: equality condition on a numeric attribute given as
 text never held

---
 prosimos/branch_condition_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/branch_condition_rules.py b/prosimos/branch_condition_rules.py
index efc1c0f..e427e47 100644
--- a/prosimos/branch_condition_rules.py
+++ b/prosimos/branch_condition_rules.py
@@ -35,7 +35,7 @@ class BranchConditionRule:
             return False
 
         raw_case_value = all_case_values[self.attribute]
-        if self.condition in [">", ">=", "<", "<=", "!="]:
+        if self.condition in ["=", ">", ">=", "<", "<=", "!="]:
             try:
                 case_value = float(raw_case_value)
                 comparison_value = float(self.value)
-- 
2.43.0


From 0212ba4f0f390f813d914ec19c7843d5bf9ab846 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 09/76] fix: warnings of previous simulations were reported
 again by the next one

---
 prosimos/simulation_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index ccacb4e..4b1c294 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -693,6 +693,9 @@ def run_simulation(
     is_event_added_to_log=False,
     fixed_arrival_times=None,
 ):
+    # warnings of the previous simulations (in the same process) are not related to the current one
+    warning_logger.clear_warnings()
+
     diffsim_info = SimDiffSetup(bpmn_path, json_path, is_event_added_to_log, total_cases)
 
     if not diffsim_info:
-- 
2.43.0


From 123b90d57d060e9f1efb33aadaf9cd2fdf1bc1bb Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 10/76] fix: gateways without conditions were reported as
 having some conditions missing

---
 prosimos/simulation_properties_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index b24fae3..ca6c2d4 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -356,9 +356,7 @@ def parse_gateway_conditions(gateway_json, branch_rules):
         if len(prob_info) > 0:
             gateway_conditions[g_id] = GatewayConditionChoice(out_arc, gateway_rules)
 
-        if len(missing_conditions) > 0 and \
-                len(missing_conditions) != g_info["probabilities"] and \
-                1 < len(g_info["probabilities"]) != len(gateway_rules):
+        if len(missing_conditions) > 0 and len(gateway_rules) > 0:
             warning_logger.add_warning(f"Gateway {g_id} is using conditions, but some are missing. Flows without conditions: {', '.join(missing_conditions)}")
 
     return gateway_conditions
-- 
2.43.0


From 66e9d0798028b602d2ea88bdfe198da30a466d3b Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 11/76] fix: peek did not return the element with the lowest
 priority after updates of the queue

---
 prosimos/simulation_queues_ds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_queues_ds.py b/prosimos/simulation_queues_ds.py
index 50aca39..8e043ff 100644
--- a/prosimos/simulation_queues_ds.py
+++ b/prosimos/simulation_queues_ds.py
@@ -49,11 +49,11 @@ class PriorityQueue:
 
     def peek(self):
         """Return the lowest priority task (without removing it from the queue)"""
-        for heap_item in self.pq:
-            priority, _, task = heap_item
+        while self.pq:
+            priority, _, task = self.pq[0]
             if task is not self.REMOVED:
                 return task, priority
-
+            heappop(self.pq)
         return None, None
 
 
-- 
2.43.0


From 339926b51275d3bac58db3c84330ba41be961314 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 12/76] fix: worked and available time were swapped in the
 statistics returned in memory

---
 prosimos/simulation_stats_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index f2c989b..571ed7b 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -211,8 +211,8 @@ def compute_resource_utilization(bpm_env):
         # r_info = bpm_env.sim_setup.resources_map[r_id]
         resource_info[r_id] = ResourceKPI(bpm_env.sim_setup.resources_map[r_id],
                                           bpm_env.sim_resources[r_id].allocated_tasks,
-                                          bpm_env.sim_resources[r_id].worked_time,
                                           bpm_env.sim_resources[r_id].available_time,
+                                          bpm_env.sim_resources[r_id].worked_time,
                                           bpm_env.get_utilization_for(r_id))
 
     # for r_id in bpm_env.sim_setup.resources_map:
-- 
2.43.0


From 32ee33eb164e1add637465b0fcd7b61c9a4b1671 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 13/76] fix: loading the statistics lost the fraction of second
 and the offset of the simulation span

---
 prosimos/simulation_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_stats.py b/prosimos/simulation_stats.py
index 1bc99ca..2ab6901 100644
--- a/prosimos/simulation_stats.py
+++ b/prosimos/simulation_stats.py
@@ -194,10 +194,10 @@ def load_diff_simulation_results(csv_stats_path):
         for row in csv_reader:
             if len(row) > 1:
                 if row[0] == "started_at":
-                    started_at = parse_date(row[1])
+                    started_at = datetime.datetime.fromisoformat(row[1])
                     continue
                 if row[0] == "completed_at":
-                    sim_info = SimulationResult(started_at, parse_date(row[1]))
+                    sim_info = SimulationResult(started_at, datetime.datetime.fromisoformat(row[1]))
                     kpi_array = sim_info.get_kpi_ref_list()
                     continue
                 if row[0] == "Resource ID":
-- 
2.43.0


From 0970705884d82c5cb2badabcf6085350445258d1 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 14/76] fix: process KPIs counted work outside the calendar for
 tasks that span several working intervals

---
 prosimos/simulation_stats_calculator.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 571ed7b..136a6a9 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -91,8 +91,8 @@ class LogInfo:
                     for interval in event_info.worked_intervals:
                         real_work_intervals.append(interval)
                 else:
-                    r_calendar.remove_idle_times(event_info.started_datetime, event_info.completed_datetime,
-                                                 real_work_intervals)
+                    real_work_intervals.extend(working_intervals(r_calendar, event_info.started_datetime,
+                                                                 event_info.completed_datetime))
             processing_intervals.append(Interval(event_info.started_datetime, event_info.completed_datetime))
             waiting_intervals.append(Interval(event_info.enabled_datetime, event_info.started_datetime))
 
@@ -340,6 +340,20 @@ def print_event_state(state, e_step, bpm_env, resource_id, to_print):
                                                     to_print, bpm_env.simpy_env.now))
 
 
+def working_intervals(calendar, from_date, to_date):
+    # intervals between the two dates in which the calendar is working
+    result = list()
+    midnight = datetime.datetime.combine(from_date.date(), datetime.time.min, tzinfo=from_date.tzinfo)
+    while midnight < to_date:
+        for interval in calendar.work_intervals[midnight.weekday()]:
+            start = max(from_date, midnight + (interval.start - calendar.new_day))
+            end = min(to_date, midnight + (interval.end - calendar.new_day))
+            if start < end:
+                result.append(Interval(start, end))
+        midnight += datetime.timedelta(days=1)
+    return result
+
+
 def sum_interval_union(interval_list):
     if interval_list is None or len(interval_list) == 0:
         return 0
-- 
2.43.0


From 15969f71376c89547a7b695e2eb6696d7f425913 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 15/76] fix: tasks left waiting for a batch were lost, and
 waiting times of over a day wrapped around

---
 prosimos/batch_processing.py     | 20 ++++++++------
 prosimos/control_flow_manager.py | 11 +++++---
 prosimos/simulation_engine.py    | 46 +++++++++++++++++++++++---------
 prosimos/simulation_setup.py     |  4 +--
 4 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 4de0143..c8fcd14 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -123,7 +123,7 @@ class FiringSubRule():
             curr_enabled_datetime = element["curr_enabled_at"]
             op = _get_operator_symbols_ge(self.operator)
 
-            ready_wt_sec = (curr_enabled_datetime - last_enabled_datetime).seconds
+            ready_wt_sec = (curr_enabled_datetime - last_enabled_datetime).total_seconds()
             is_rule_true = op(ready_wt_sec, self.value2)
            
             if is_rule_true == False:
@@ -329,7 +329,7 @@ class FiringSubRule():
             return 0, None
 
 
-    def is_invalid_end(self, curr_batch_size, last_wt):
+    def is_invalid_end(self, curr_batch_size, last_wt, ready_wt_boundaries=None):
         is_invalid = False
 
         if RULE_TYPE(self.variable1) == RULE_TYPE.SIZE:
@@ -343,7 +343,7 @@ class FiringSubRule():
             # if we surpass the upper limit of waiting_time,
             # this will not be changed in the future cause we will not receive a new item
             # and thus ready_wt value will not be reset
-            _, high_boundary = self.ready_wt_boundaries
+            _, high_boundary = ready_wt_boundaries
             is_invalid = last_wt > high_boundary
 
         return is_invalid
@@ -466,7 +466,7 @@ class AndFiringRule():
                 # happens when no new cases will arrive 
                 return en_time_index, _get_enabled_time_for_wt_rule(prev_item, operator.gt, high_boundary)
 
-            diff = (item - prev_item).seconds
+            diff = (item - prev_item).total_seconds()
             is_batch_enabled_low = diff < low_boundary
 
             if is_batch_enabled_low:
@@ -480,7 +480,7 @@ class AndFiringRule():
                     # else we wait for the new task till the high boundary is reached
                     return en_time_index, _get_enabled_time_for_wt_rule(prev_item, operator.ge, low_boundary)
             
-            is_batch_enabled_high = diff > high_boundary
+            is_batch_enabled_high = diff >= high_boundary
             if is_batch_enabled_high:
                 # waiting time exceeds the higher boundary
                 # stop waiting, enable the batch with one task
@@ -508,7 +508,7 @@ class AndFiringRule():
         prev_item = first_item
         list_len = len(enabled_dt_with_curr_enabled)
         for en_time_index, item in enumerate(enabled_dt_with_curr_enabled[1:], 1):
-            diff = (item - first_item).seconds
+            diff = (item - first_item).total_seconds()
             is_batch_enabled_low = diff > low_boundary
             
             if not is_batch_enabled_low:
@@ -550,7 +550,11 @@ class AndFiringRule():
     def _get_min_enabled_time_waiting_time(self, case_id_and_enabled_times,
         last_task_start_time: CustomDatetimeAndSeconds, rule_type: RULE_TYPE) -> tuple([int, datetime]):
         
-        last_task_start_datetime = last_task_start_time.datetime
+        # no other task is going to join the batch,
+        # so the rule will be satisfied at the latest when its upper boundary is exceeded
+        _, high_boundary = self.ready_wt_boundaries \
+            if rule_type == RULE_TYPE.READY_WT else self.large_wt_boundaries
+        last_task_start_datetime = last_task_start_time.datetime + timedelta(seconds=high_boundary + 1)
         waiting_times = [ (last_task_start_datetime - v.datetime).total_seconds() for (_, v) in case_id_and_enabled_times ] 
 
         draft_element = {
@@ -839,7 +843,7 @@ class AndFiringRule():
         is_invalid = False
         
         for simple_rule in self.rules:
-            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt)
+            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt, self.ready_wt_boundaries)
 
             if is_invalid:
                 break
diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 2ce5823..ec61022 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1060,14 +1060,17 @@ class BPMNGraph:
                 yield case_id_and_start_time
 
 
-    def get_invalid_batches_if_any(self, current_point_of_time):
+    def get_batch_waiting_times(self):
+        return [time for tasks in self.batch_waiting_processes.values() for time in tasks.values()]
+
+    def get_invalid_batches_if_any(self, current_point_of_time, is_end=False):
         enabled_task_batch = dict()
         for (task_id, waiting_tasks) in self.batch_waiting_processes.items():
             num_tasks_wait_batch = len(waiting_tasks)
             if num_tasks_wait_batch == 0:
                 continue
 
-            if self.is_or_rule_invalid(waiting_tasks, task_id, num_tasks_wait_batch, current_point_of_time):
+            if is_end or self.is_or_rule_invalid(waiting_tasks, task_id, num_tasks_wait_batch, current_point_of_time):
                 # if the rule become invlaid, we execute everything we have
                 # invalid = the one that cannot be satisfied in the future anymore
                 # this method is being called only in case it is the end of all simulated cases
@@ -1102,9 +1105,9 @@ class BPMNGraph:
         all_keys = list(waiting_tasks.keys())
 
         first_key = all_keys[0]
-        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).seconds
+        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).total_seconds()
 
         last_key = all_keys[-1]
-        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).seconds
+        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).total_seconds()
 
         return self.batch_info[task_id].firing_rules.is_invalid_end(num_tasks_wait_batch, first_wt, last_wt)
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 4b1c294..f11994a 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -404,9 +404,17 @@ class SimBPMEnv:
                 self.calc_priority_and_append_to_queue(c_event, False)
 
     def execute_if_any_unexecuted_batch(self, last_task_enabled_time: CustomDatetimeAndSeconds):
+        # tasks might have joined the batch after the last executed event was enabled
+        waiting_times = self.sim_setup.bpmn_graph.get_batch_waiting_times()
+        if not waiting_times:
+            return
+        if last_task_enabled_time is not None:
+            waiting_times.append(last_task_enabled_time)
+        last_task_enabled_time = max(waiting_times, key=lambda enabled_time: enabled_time.datetime)
+
         for case_id, enabled_datetime in self.sim_setup.is_any_unexecuted_batch(last_task_enabled_time):
             if not enabled_datetime:
-                return
+                break
 
             enabled_batch_task_ids = self.sim_setup.is_any_batch_enabled(enabled_datetime)
 
@@ -420,16 +428,26 @@ class SimBPMEnv:
                             enabled_batch_task_ids[key] = item
 
             if enabled_batch_task_ids is not None:
-                for batch_task_id, batch_info in enabled_batch_task_ids.items():
-                    c_event = EnabledEvent(
-                        case_id,
-                        self.all_process_states[case_id],
-                        batch_task_id,
-                        self.simulation_at_from_datetime(batch_info.start_time_from_rule),
-                        batch_info.start_time_from_rule,
-                        batch_info,
-                    )
-                    self.calc_priority_and_append_to_queue(c_event, False)
+                self._append_unexecuted_batches(enabled_batch_task_ids)
+
+        if self.events_queue.peek() is None:
+            # no rule is going to be satisfied, execute the tasks that are still waiting
+            self._append_unexecuted_batches(
+                self.sim_setup.get_invalid_batches_if_any(last_task_enabled_time, True)
+            )
+
+    def _append_unexecuted_batches(self, enabled_batch_task_ids):
+        for batch_task_id, batch_info in enabled_batch_task_ids.items():
+            case_id = next(iter(batch_info.case_ids))
+            c_event = EnabledEvent(
+                case_id,
+                self.all_process_states[case_id],
+                batch_task_id,
+                self.simulation_at_from_datetime(batch_info.start_time_from_rule),
+                batch_info.start_time_from_rule,
+                batch_info,
+            )
+            self.calc_priority_and_append_to_queue(c_event, False)
 
     def _get_chunk(self, batch_spec, curr_index, all_case_ids):
         """Return only the part of the all_case_ids that will be executed as a batch"""
@@ -607,7 +625,7 @@ class SimBPMEnv:
 
     def simulation_at_from_datetime(self, datetime):
         td = datetime - self.sim_setup.start_datetime
-        return td.seconds
+        return td.total_seconds()
 
     def get_utilization_for(self, resource_id):
         if self.sim_resources[resource_id].available_time == 0:
@@ -646,6 +664,10 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
     # print("Generation of all cases: %s" %
     #       str(datetime.timedelta(seconds=(datetime.datetime.now() - s_t).total_seconds())))
     current_event = bpm_env.events_queue.pop_next_event()
+    if current_event is None:
+        # all the cases are waiting for the execution of a batch
+        bpm_env.execute_if_any_unexecuted_batch(None)
+        current_event = bpm_env.events_queue.pop_next_event()
     # the queue might drain right after the first event
     last_event_datetime = (
         CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
diff --git a/prosimos/simulation_setup.py b/prosimos/simulation_setup.py
index 824be34..975f4bd 100644
--- a/prosimos/simulation_setup.py
+++ b/prosimos/simulation_setup.py
@@ -97,8 +97,8 @@ class SimDiffSetup:
     def is_any_batch_enabled(self, started_datetime):
         return self.bpmn_graph.is_any_batch_enabled(started_datetime)
 
-    def get_invalid_batches_if_any(self, current_point_of_time):
-        return self.bpmn_graph.get_invalid_batches_if_any(current_point_of_time)
+    def get_invalid_batches_if_any(self, current_point_of_time, is_end=False):
+        return self.bpmn_graph.get_invalid_batches_if_any(current_point_of_time, is_end)
 
     def is_any_unexecuted_batch(self, last_task_enabled_time):
         return self.bpmn_graph.is_any_unexecuted_batch(last_task_enabled_time)
-- 
2.43.0


From 5ad5f678780bfc68cabb3104bf531a341cfba79f Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 16/76] fix: batches fired at the same time shared one batch id

---
 prosimos/simulation_engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index f11994a..10ddb63 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -1,6 +1,7 @@
 import csv
 import datetime
 import os
+import uuid
 import numpy as np
 from datetime import timedelta
 from typing import List
@@ -482,6 +483,7 @@ class SimBPMEnv:
 
         for batch_item in chunks:
             num_tasks_in_batch = len(batch_item)
+            batch_id = str(uuid.uuid4())
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
@@ -515,7 +517,7 @@ class SimBPMEnv:
                     enabled_datetime,
                     self,
                     num_tasks_in_batch,
-                    c_event.batch_info_exec.batch_id
+                    batch_id
                 )
 
                 self.sim_resources[r_id].worked_time += full_evt.ideal_duration
@@ -544,6 +546,7 @@ class SimBPMEnv:
 
         for batch_item in chunks:
             num_tasks_in_batch = len(batch_item)
+            batch_id = str(uuid.uuid4())
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
@@ -567,7 +570,7 @@ class SimBPMEnv:
                     enabled_datetime,
                     self,
                     num_tasks_in_batch,
-                    c_event.batch_info_exec.batch_id
+                    batch_id
                 )
 
                 (
-- 
2.43.0


From ffb4bc29b0a4134da361f490d581e07674b9d036 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 17/76] fix: a batch started before all its tasks were enabled

---
 prosimos/simulation_engine.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 10ddb63..86990b5 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -488,6 +488,8 @@ class SimBPMEnv:
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
             completed_at = 0
+            # the batch cannot start before all its tasks are enabled
+            members_enabled_at = max(enabled_time.seconds_from_start for _, enabled_time in batch_item)
 
             for case_id, enabled_time in batch_item:
                 p_case = case_id
@@ -497,7 +499,7 @@ class SimBPMEnv:
                 enabled_batch = c_event.enabled_at
 
                 r_avail_at = max(
-                    enabled_at,
+                    members_enabled_at,
                     r_avail_at,
                     enabled_batch,
                     completed_at,
@@ -550,7 +552,10 @@ class SimBPMEnv:
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
-            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds)
+            # the batch cannot start before all its tasks are enabled
+            members_enabled_at = max(enabled_time.seconds_from_start for _, enabled_time in batch_item)
+
+            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds, members_enabled_at)
             avail_datetime = self._datetime_from(r_avail_at)
             is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
             if not is_working:
-- 
2.43.0


From 9164174706b2b81f8bb6a00500491eaf637b924a Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 18/76] fix: a fired batch executed other cases than the ones
 it took from the queue

---
 prosimos/control_flow_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index ec61022..979d957 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -20,7 +20,9 @@ seconds_per_unit = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}
 
 class BatchInfoForExecution:
     def __init__(self, all_case_ids, task_batch_info, curr_task_id, batch_spec, start_time_from_rule):
-        self.case_ids = all_case_ids[curr_task_id].copy()
+        # only the tasks removed from the queue (see _clear_batch), the rest stays there for the next batches
+        waiting_cases = list(all_case_ids[curr_task_id].items())
+        self.case_ids = dict(waiting_cases[: sum(size for size in batch_spec if size is not None)])
         self.task_batch_info = task_batch_info[curr_task_id]
         self.batch_spec = batch_spec
         self.start_time_from_rule = start_time_from_rule
-- 
2.43.0


From c5a75b6cf325469e6874c11f9d0dfe872873728c Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 19/76] fix: tasks of a parallel batch finished at different
 times, freeing their resource too early

---
 prosimos/execution_info.py    | 7 +++++--
 prosimos/simulation_engine.py | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/prosimos/execution_info.py b/prosimos/execution_info.py
index 36bdc5b..51fd033 100644
--- a/prosimos/execution_info.py
+++ b/prosimos/execution_info.py
@@ -25,7 +25,8 @@ class ProcessInfo:
 
 class TaskEvent:
     def __init__(self, p_case, task_id, resource_id, resource_available_at=None, 
-        enabled_at=None, enabled_datetime=None, bpm_env=None, num_tasks_in_batch=0, batch_id=None):
+        enabled_at=None, enabled_datetime=None, bpm_env=None, num_tasks_in_batch=0, batch_id=None,
+        ideal_duration=None):
         self.p_case = p_case  # ID of the current trace, i.e., index of the trace in log_info list
         self.task_id = task_id  # Name of the task related to the current event
         self.type = BPMN.TASK # showing whether it's task or event
@@ -49,7 +50,9 @@ class TaskEvent:
             self.started_datetime = bpm_env.simulation_datetime_from(self.started_at)
 
             # Ideal duration from the distribution-function if allocate resource doesn't rest
-            self.ideal_duration = bpm_env.sim_setup.ideal_task_duration(task_id, resource_id, num_tasks_in_batch)
+            # (unless it was already sampled, e.g., by the tasks performed simultaneously with the current one)
+            self.ideal_duration = ideal_duration if ideal_duration is not None \
+                else bpm_env.sim_setup.ideal_task_duration(task_id, resource_id, num_tasks_in_batch)
             # Actual duration adding the resource resting-time according to their calendar
             self.real_duration = bpm_env.sim_setup.real_task_duration(self.ideal_duration, self.resource_id,
                                                                       self.started_datetime, self.worked_intervals)
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 86990b5..b146508 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -561,6 +561,9 @@ class SimBPMEnv:
             if not is_working:
                 r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
 
+            # all the tasks start and finish together, so their duration is sampled only once
+            ideal_duration = self.sim_setup.ideal_task_duration(task_id, r_id, num_tasks_in_batch)
+
             for case_id, enabled_time in batch_item:
                 p_case = case_id
                 enabled_at = enabled_time.seconds_from_start
@@ -575,7 +578,8 @@ class SimBPMEnv:
                     enabled_datetime,
                     self,
                     num_tasks_in_batch,
-                    batch_id
+                    batch_id,
+                    ideal_duration,
                 )
 
                 (
-- 
2.43.0


From 99a7ab244cded8b85ac981d04adccc32a9337b86 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 20/76] fix: probability of a task being executed alone was
 taken from the first batch size

---
 prosimos/batch_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index c8fcd14..562b629 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -993,7 +993,7 @@ class BatchConfigPerTask():
         else:
             # redefine the probabilities
             # to be used to get the probabiity of batch to be executed alone
-            prob_for_one = self.probabilities[0]
+            prob_for_one = dict(zip(self.possible_options, self.probabilities)).get(1, 0)
             other_than_one_prob = 1 - prob_for_one
             
             self.possible_options = [1,2]
-- 
2.43.0


From 2f6cb5249f91dd7478ed40d4cdd0459a145111bb Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:42:22 +0000
Subject: [PATCH 21/76] fix: batches were never fired by size rules with '>='
 or '>'

---
 prosimos/batch_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 562b629..23018a8 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -722,7 +722,8 @@ class AndFiringRule():
                 # initial_batch_size = batch_size
                 # if previously batch_size satisfy the size rule - return it
                 # if not - return the one we've just calculated with the size rule limitations
-                batch_size = batch_size if rule_operator(batch_size, value2) else batch_size_rule
+                is_limited = batch_size != sys.maxsize
+                batch_size = batch_size if is_limited and rule_operator(batch_size, value2) else batch_size_rule
                 
                 if batch_size > current_batch_size or \
                     enabled_time > initial_curr_enabled_at:
-- 
2.43.0


From 408e6d52e437c7bc6d21014073bfabd894d60b7b Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 22/76] fix: a large_wt rule without lower limit executed each
 task alone straight away

---
 prosimos/batch_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 23018a8..f8b37ef 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -512,7 +512,7 @@ class AndFiringRule():
             is_batch_enabled_low = diff > low_boundary
             
             if not is_batch_enabled_low:
-                if en_time_index == list_len - 1:
+                if en_time_index == list_len - 1 and en_time_index > 1:
                     # last item of the evaluation
                     # this will enable the batch in the future
                     result = en_time_index, _get_enabled_time_for_wt_rule(first_item, operator.ge, low_boundary)
-- 
2.43.0


From c6e16126d72a6be1f49c3edfa2e2e71f760ba500 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 23/76] fix: a week_day rule did not fire on its day when the
 next event happened on a later day

---
 prosimos/batch_processing.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index f8b37ef..112b526 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -189,20 +189,26 @@ class FiringSubRule():
         boundary_day = datetime(rule_nearest_past_day.year, rule_nearest_past_day.month, rule_nearest_past_day.day, \
                         0, 0, 0, rule_nearest_past_day.microsecond, rule_nearest_past_day.tzinfo)
 
-        if element["is_triggered_by_batch"] and \
-            curr_enabled_at.date() == boundary_day.date():
-                # the first executing task after the boundary date is a batched one
-                # we either found tasks enabled before midnight and execute them
-                # or we execute enabled batched tasks (if any) today
-                op = operator.lt
-                follow_rule = []
-                for time in enabled_times:
-                    if op(time, boundary_day):
-                        follow_rule.append(time)
+        if element["is_triggered_by_batch"]:
+            # the first executing task after the boundary date is a batched one
+            # we either found tasks enabled before midnight and execute them
+            # or we execute enabled batched tasks (if any) today
+            follow_rule = [enabled_at for enabled_at in enabled_times if enabled_at < boundary_day]
+
+            if len(follow_rule) > 1:
+                return len(follow_rule), boundary_day
+
+            if curr_enabled_at.date() != boundary_day.date():
+                # the day dictated by the rule is over, only the tasks enabled by its end
+                # could have been executed on that day
+                next_midnight = boundary_day + timedelta(days=1)
+                follow_rule = [enabled_at for enabled_at in enabled_times if enabled_at < next_midnight]
 
                 if len(follow_rule) > 1:
-                    return len(follow_rule), boundary_day
-                    
+                    return len(follow_rule), follow_rule[-1]
+
+                return 0, None
+
         if element["is_triggered_by_batch"]:
             boundary_day = curr_enabled_at
             op = operator.le
-- 
2.43.0


From 4057494e8dd72eb98f92fe6b5912ff534d552f5a Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 17:50:23 +0000
Subject: [PATCH 24/76] fix: daily_hour rules fired outside their hours, or a
 day late, when nothing happened at the boundary

---
 prosimos/batch_processing.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 112b526..9a7ffb9 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -163,12 +163,14 @@ class FiringSubRule():
 
     def _get_min_enabled_time_daily_hour(self, last_task_start_time: CustomDatetimeAndSeconds) -> tuple([int, datetime]):
         last_task_start_datetime = last_task_start_time.datetime
-        if self.operator in [operator.lt, operator.le, operator.eq]:
+        boundary_date = (last_task_start_datetime + timedelta(days=1)).date()
+        if self.operator in ['<', '<=']:
             boundary_time = time(0, 0, 0)
-            boundary_date = last_task_start_datetime.date()
-        else: 
+        else:
             boundary_time = self.value2
-            boundary_date = (last_task_start_datetime + timedelta(days=1)).date()
+            if last_task_start_datetime.time() < boundary_time:
+                # the hour dictated by the rule was not reached yet on that day
+                boundary_date = last_task_start_datetime.date()
 
         nearest_enabled_datetime = datetime.combine(
             boundary_date,
@@ -286,6 +288,10 @@ class FiringSubRule():
                 else:
                     # do not satisfy the condition
                     # execute when reached the time or midnight
+                    if op in [operator.lt, operator.le] and en_time.date() > prev_day_to_oldest_rule_time.date():
+                        # enabled after that midnight, verify the rule on the day when it was enabled
+                        break
+
                     follow_rule.append(en_time)
                     if op in [operator.lt, operator.le]:
                         final_enabled_time = datetime.combine(
@@ -312,7 +318,9 @@ class FiringSubRule():
 
             # go to the next iteration
             prev_day_to_oldest_rule_time += one_day_delta
-            if prev_day_to_oldest_rule_time > curr_enabled_at:
+            is_over = prev_day_to_oldest_rule_time.date() > curr_enabled_at.date() if op in [operator.lt, operator.le] \
+                else prev_day_to_oldest_rule_time > curr_enabled_at
+            if is_over:
                 # return batches of at least size of 2
                 return self._return_with_validation_arr(follow_rule, final_enabled_time)
 
@@ -393,6 +401,9 @@ class AndFiringRule():
 
         self.large_wt_boundaries = self._get_low_and_high_boundaries(rule_type, 1)
 
+    def _has_daily_hour_lower_limit(self):
+        return any(rule.variable1 == RULE_TYPE.DAILY_HOUR.value and rule.operator in ['>', '>='] for rule in self.rules)
+
     def _init_daily_hour_range_if_any(self):
         rule_type: RULE_TYPE = RULE_TYPE.DAILY_HOUR
         if not self._has_rule([rule_type]):
@@ -805,6 +816,10 @@ class AndFiringRule():
                 expected_enabled_time.append(en_time)
                 week_day_date = en_time.date()
             elif subrule.variable1 == "daily_hour":
+                if subrule.operator in ['<', '<='] and self._has_daily_hour_lower_limit():
+                    # the range starts at its lower limit (handled by the other subrule)
+                    continue
+
                 en_time = subrule._get_min_enabled_time_daily_hour(last_task_enabled_time)
                 if week_day_date != None:
                     en_time = datetime.combine(
-- 
2.43.0


From 7f7e5021f1d8b03647b6d00dc77e1aed66cc05fd Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 25/76] fix: batches of different tasks were fired together,
 before the tasks of one could join the other

---
 prosimos/control_flow_manager.py | 18 +++++++++++++++---
 prosimos/simulation_engine.py    | 26 ++++++++++++--------------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 979d957..9ba116d 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1031,6 +1031,7 @@ class BPMNGraph:
 
     def is_any_batch_enabled(self, started_datetime: CustomDatetimeAndSeconds):
         enabled_task_batch = dict()
+        enabled_specs = dict()
         for (task_id, waiting_tasks) in self.batch_waiting_processes.items():
             if len(waiting_tasks) == 0:
                 continue
@@ -1038,9 +1039,20 @@ class BPMNGraph:
             # finding the date in the future when rule will be satisfied
             is_enabled, batch_spec, start_time_from_rule = self.is_batched_task_enabled(task_id, started_datetime)
             if is_enabled:
-                enabled_task_batch[task_id] = self.create_batch_info_and_clear_from_queue(
-                    task_id, batch_spec, start_time_from_rule
-                )
+                enabled_specs[task_id] = (batch_spec, start_time_from_rule)
+
+        if len(enabled_specs) > 0:
+            first_start_time = min(start_time for (_, start_time) in enabled_specs.values())
+
+        for task_id, (batch_spec, start_time_from_rule) in enabled_specs.items():
+            if self.batch_info[task_id].are_rules_discovered and start_time_from_rule > first_start_time:
+                # cases of the batch started first might join this one before it starts,
+                # its rule is to be verified again after that
+                continue
+
+            enabled_task_batch[task_id] = self.create_batch_info_and_clear_from_queue(
+                task_id, batch_spec, start_time_from_rule
+            )
 
         return enabled_task_batch
 
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index b146508..ed61486 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -413,23 +413,21 @@ class SimBPMEnv:
             waiting_times.append(last_task_enabled_time)
         last_task_enabled_time = max(waiting_times, key=lambda enabled_time: enabled_time.datetime)
 
-        for case_id, enabled_datetime in self.sim_setup.is_any_unexecuted_batch(last_task_enabled_time):
-            if not enabled_datetime:
-                break
+        unexecuted_batches = list(self.sim_setup.is_any_unexecuted_batch(last_task_enabled_time))
+        # the batch enabled first might produce tasks joining the other ones
+        unexecuted_batches.sort(key=lambda batch: batch[1].datetime)
 
+        for case_id, enabled_datetime in unexecuted_batches:
             enabled_batch_task_ids = self.sim_setup.is_any_batch_enabled(enabled_datetime)
-
-            if not len(enabled_batch_task_ids):
-                # no rules were satisfied
-                # check whether there are some invalid rules
-                invalid_batches = self.sim_setup.get_invalid_batches_if_any(last_task_enabled_time)
-                if invalid_batches is not None:
-                    for key, item in invalid_batches.items():
-                        if key not in enabled_batch_task_ids:
-                            enabled_batch_task_ids[key] = item
-
-            if enabled_batch_task_ids is not None:
+            if enabled_batch_task_ids:
                 self._append_unexecuted_batches(enabled_batch_task_ids)
+                return
+
+        # no rules were satisfied
+        # check whether there are some invalid rules
+        self._append_unexecuted_batches(
+            self.sim_setup.get_invalid_batches_if_any(last_task_enabled_time)
+        )
 
         if self.events_queue.peek() is None:
             # no rule is going to be satisfied, execute the tasks that are still waiting
-- 
2.43.0


From 7a24b0d19cf57c0efddb41414b7c7af1a8a9af18 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 26/76] fix: tasks waiting for a batch were not ordered by the
 time they were enabled

---
 prosimos/control_flow_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 9ba116d..2720dae 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1023,6 +1023,10 @@ class BPMNGraph:
             return
 
         self.batch_waiting_processes[task_id][case_id] = enabled_time
+        # a case executed earlier might have joined the queue with a later enabled time
+        self.batch_waiting_processes[task_id] = dict(
+            sorted(self.batch_waiting_processes[task_id].items(), key=lambda item: item[1].datetime)
+        )
 
         if task_id in self.batch_count:
             self.batch_count[task_id] += 1
-- 
2.43.0


From e0dd552be5d1e169543f0f07e6542332633ae465 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 27/76] fix: tasks joined a batch before the simulation reached
 the time they were enabled

---
 prosimos/control_flow_manager.py |  5 ++---
 prosimos/simulation_engine.py    | 36 ++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 2720dae..93ee798 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -917,9 +917,8 @@ class BPMNGraph:
             if next_el_type in [BPMN.PARALLEL_GATEWAY, BPMN.INCLUSIVE_GATEWAY]:
                 # many flows of the same split may point to the join, which fires once
                 enabled_joins.add(next_e)
-            if next_el_type == BPMN.TASK and self.is_task_batched(next_e):
-                self.enable_batch_or_task(next_e, case_id, enabled_time, enabled_tasks, duration_sec)
-            elif next_el_type == BPMN.TASK:
+            if next_el_type == BPMN.TASK:
+                # a batched task joins its queue when the simulation reaches the enabled time
                 enabled_tasks.append(EnabledTask(next_e, None, duration_sec))
             elif next_el_type == BPMN.INTERMEDIATE_EVENT:
                 enabled_tasks.append(EnabledTask(next_e, None, duration_sec, True))
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index ed61486..9e22582 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -150,6 +150,13 @@ class SimBPMEnv:
 
         event_element_info = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
 
+        if (
+            c_event.batch_info_exec is None
+            and self.sim_setup.bpmn_graph.is_task_batched(c_event.task_id)
+            and not self._is_batched_task_executed_alone(c_event)
+        ):
+            return
+
         if event_element_info.type == BPMN.TASK and c_event.batch_info_exec is not None:
             # execute batched task
             executed_tasks = self.execute_task_batch(c_event)
@@ -209,6 +216,35 @@ class SimBPMEnv:
                     False,
                 )
 
+    def _is_batched_task_executed_alone(self, c_event: EnabledEvent):
+        """Either the task is executed alone or it joins the queue of tasks waiting for the batch execution"""
+        enabled_tasks = []
+        self.sim_setup.bpmn_graph.enable_batch_or_task(
+            c_event.task_id,
+            c_event.p_case,
+            CustomDatetimeAndSeconds(c_event.enabled_at, c_event.enabled_datetime),
+            enabled_tasks,
+            c_event.duration_sec,
+        )
+
+        for task in enabled_tasks:
+            if task.batch_info_exec is None:
+                return True
+
+            self.calc_priority_and_append_to_queue(
+                EnabledEvent(
+                    c_event.p_case,
+                    c_event.p_state,
+                    task.task_id,
+                    c_event.enabled_at,
+                    c_event.enabled_datetime,
+                    task.batch_info_exec,
+                ),
+                False,
+            )
+
+        return False
+
     def pop_and_allocate_resource(self, task_id: str, num_allocated_tasks: int):
         r_id, r_avail_at = self.resource_queue.pop_resource_for(task_id)
         self.sim_resources[r_id].allocated_tasks += num_allocated_tasks
-- 
2.43.0


From 3c4ae3a2e65bb61b7c60478f7cadf4f24a8c9aa3 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 28/76] fix: assign the event attributes of the tasks executed
 in a batch

---
 prosimos/simulation_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 9e22582..b9fdb6d 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -637,6 +637,7 @@ class SimBPMEnv:
 
         self.resource_queue.update_resource_availability(r_id, r_next_available)
 
+        self.update_attributes(full_evt)
         self.log_writer.add_csv_row(self.get_csv_row_data(full_evt))
 
         completed_at = full_evt.completed_at
-- 
2.43.0


From 9dc70fc6580f82bd2e0762648eb850612620b611 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 29/76] fix: evaluate all the operands of a chained comparison
 in the attribute expressions

---
 prosimos/event_attributes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 4a3dc2e..0f3781a 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -114,7 +114,13 @@ def eval_expr(expr, vars_dict):
             elif isinstance(node, ast.Str):
                 return node.s
             elif isinstance(node, ast.Compare):
-                return operators[type(node.ops[0])](_eval(node.left), _eval(node.comparators[0]))
+                left = _eval(node.left)
+                for comparison, comparator in zip(node.ops, node.comparators):
+                    right = _eval(comparator)
+                    if not operators[type(comparison)](left, right):
+                        return False
+                    left = right
+                return True
             elif isinstance(node, ast.BoolOp):
                 if type(node.op) is ast.And:
                     return all(_eval(value) for value in node.values)
-- 
2.43.0


From a3ecd079653cfaec81646f31b6842a5379937d0a Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 30/76] fix: evaluate the boolean constants in the attribute
 expressions

---
 prosimos/event_attributes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 0f3781a..a334437 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -113,6 +113,8 @@ def eval_expr(expr, vars_dict):
                     return vars_dict[node.id]
             elif isinstance(node, ast.Str):
                 return node.s
+            elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
+                return node.value
             elif isinstance(node, ast.Compare):
                 left = _eval(node.left)
                 for comparison, comparator in zip(node.ops, node.comparators):
-- 
2.43.0


From 43a4473b2a3a965324001cb8e06d04d56bf2e927 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 31/76] fix: do not stop the simulation when an attribute
 expression overflows

---
 prosimos/event_attributes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index a334437..769d465 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -143,6 +143,8 @@ def eval_expr(expr, vars_dict):
                         return 0
             else:
                 return 0
+        except OverflowError:
+            return np.finfo(np.float32).max
         except (SyntaxError, ZeroDivisionError, TypeError, KeyError):
             return 0
 
-- 
2.43.0


From 769bac118fdd10bffaae4b65add67ac97cf41688 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 32/76] fix: keep all the attributes of an event described by
 several entries

---
 prosimos/event_attributes_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/event_attributes_parser.py b/prosimos/event_attributes_parser.py
index ef8747a..a91d6ac 100644
--- a/prosimos/event_attributes_parser.py
+++ b/prosimos/event_attributes_parser.py
@@ -9,7 +9,7 @@ class EventAttributesParser:
         event_attributes = {}
         for curr_event_attr in self.data:
             event_id = curr_event_attr["event_id"]
-            event_attributes[event_id] = {}
+            event_attributes.setdefault(event_id, {})
             for attr in curr_event_attr["attributes"]:
                 event_attr = EventAttribute(
                     event_id,
-- 
2.43.0


From 7834ead159ac093261511300d5670f2959c61d58 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 33/76] fix: accept the probabilities of global attributes that
 sum up to one up to rounding

---
 prosimos/global_attributes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prosimos/global_attributes.py b/prosimos/global_attributes.py
index 13e1dbc..edf414c 100644
--- a/prosimos/global_attributes.py
+++ b/prosimos/global_attributes.py
@@ -52,12 +52,14 @@ class GlobalAttribute:
             return self.value.generate_sample(1)[0]
 
     def validate(self):
+        epsilon = 1e-6
+
         if self.global_attr_type == GLOBAL_ATTR_TYPE.DISCRETE:
             actual_sum_probabilities = reduce(lambda acc, item: acc + item, self.value["probabilities"], 0)
 
-            if actual_sum_probabilities != 1:
+            if not (1 - epsilon <= actual_sum_probabilities <= 1 + epsilon):
                 raise InvalidGlobalAttributeException(
-                    f"Global attribute ${self.name}: probabilities' sum should be equal to 1")
+                    f"Global attribute {self.name}: probabilities' sum should be equal to 1")
 
         return True
 
-- 
2.43.0


From 3e20a1346c5125e1fd5580877d38c5969efb9661 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:39:30 +0000
Subject: [PATCH 34/76] fix: write only one column for an attribute defined as
 global, case and event one

---
 prosimos/all_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/all_attributes.py b/prosimos/all_attributes.py
index 9bab483..6ea7314 100644
--- a/prosimos/all_attributes.py
+++ b/prosimos/all_attributes.py
@@ -41,7 +41,8 @@ class AllAttributes:
             self.event_attributes
         ]
         columns = [attr.get_columns_generated() for attr in attributes_collections]
-        return [item for sublist in columns for item in sorted(sublist)]
+        # an attribute might be updated by both the cases and the events
+        return list(dict.fromkeys(item for sublist in columns for item in sorted(sublist)))
 
     def _extract_case_attributes(self, case_attributes, global_case_attribute_names):
         global_case_attributes = list()
-- 
2.43.0


From e687f30f4432d1f4e47bb7625b3154b29ebdf8a4 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 35/76] fix: evaluate the divisions of sampled attributes by
 zero as those of the other ones

---
 prosimos/event_attributes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 769d465..08ed3bd 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -94,6 +94,11 @@ def parse_continuous_value(value_info) -> "DurationDistribution":
     return DurationDistribution.from_dict(value_info)
 
 
+def _to_python_number(value):
+    # the division of NumPy numbers by zero does not raise an exception
+    return value.item() if isinstance(value, np.number) else value
+
+
 def eval_expr(expr, vars_dict):
     try:
         tree = ast.parse(expr, mode='eval')
@@ -110,7 +115,7 @@ def eval_expr(expr, vars_dict):
                 return operators[type(node.op)](_eval(node.operand))
             elif isinstance(node, ast.Name):
                 if node.id in vars_dict:
-                    return vars_dict[node.id]
+                    return _to_python_number(vars_dict[node.id])
             elif isinstance(node, ast.Str):
                 return node.s
             elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
@@ -132,7 +137,7 @@ def eval_expr(expr, vars_dict):
                 func_name = node.func.id
                 args = [_eval(arg) for arg in node.args]
                 if func_name in distributions:
-                    return distributions[func_name](*args)
+                    return _to_python_number(distributions[func_name](*args))
                 elif func_name in math_functions:
                     args = [_eval(arg) for arg in node.args]
                     try:
-- 
2.43.0


From 5ffc8c42857028454a42815d71c5a00dd20ea235 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 36/76] fix: a condition on an attribute without a value is
 false

---
 prosimos/branch_condition_rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prosimos/branch_condition_rules.py b/prosimos/branch_condition_rules.py
index e427e47..4de37e6 100644
--- a/prosimos/branch_condition_rules.py
+++ b/prosimos/branch_condition_rules.py
@@ -35,6 +35,10 @@ class BranchConditionRule:
             return False
 
         raw_case_value = all_case_values[self.attribute]
+        if raw_case_value is None:
+            # the attribute is not assigned yet
+            return False
+
         if self.condition in ["=", ">", ">=", "<", "<=", "!="]:
             try:
                 case_value = float(raw_case_value)
-- 
2.43.0


From 99397459e00cb2592f33927236694fd22e725d7a Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 37/76] fix: granules of fuzzy calendars could not be given in
 seconds

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 1269d0a..17ee855 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -13,8 +13,10 @@ class FSpan(Enum):
 
 class WeeklyFuzzyCalendar:
     def __init__(self, granule_size):
+        # size of the granules in minutes (it can be a fraction, e.g., if they were given in seconds) and in seconds
         self.granule_size = granule_size
-        self.i_count = 1440 // granule_size
+        self.granule_seconds = round(granule_size * 60)
+        self.i_count = 86400 // self.granule_seconds
 
         self.probability_intervals = dict()
         self.next_shift = dict()
@@ -23,15 +25,14 @@ class WeeklyFuzzyCalendar:
             self.next_shift[i] = [0] * self.i_count
 
     def interval_index(self, current_date: datetime):
-        return (current_date.hour * 60 + current_date.minute) // self.granule_size
+        return (current_date.hour * 3600 + current_date.minute * 60 + current_date.second) // self.granule_seconds
 
     def duration_from_interval_start(self, current_date: datetime):
-        current_minute = current_date.hour * 60 + current_date.minute
-        start_minute = self.interval_index(current_date) * self.granule_size
-        return (current_minute - start_minute) * 60 + current_date.second
+        current_second = current_date.hour * 3600 + current_date.minute * 60 + current_date.second
+        return current_second - self.interval_index(current_date) * self.granule_seconds
 
     def duration_to_interval_end(self, current_date: datetime):
-        return self.granule_size * 60 - self.duration_from_interval_start(current_date)
+        return self.granule_seconds - self.duration_from_interval_start(current_date)
 
     def add_weekday_intervals(self, weekday: int, from_time: datetime, to_time: datetime, probability: float):
         from_i = self.interval_index(from_time)
@@ -91,7 +92,7 @@ class FuzzyModel:
 
     def _extract_date_info(self, current_date: datetime):
         avail = self.availability_calendar if self.default_calendar is FSpan.AVAILABILITY else self.workload_ratio
-        return avail, avail.granule_size * 60, current_date.date().weekday(), avail.interval_index(current_date)
+        return avail, avail.granule_seconds, current_date.date().weekday(), avail.interval_index(current_date)
 
     def next_available_time(self, current_date: datetime):
         avail_info, size_seconds, week_day, from_i = self._extract_date_info(current_date)
-- 
2.43.0


From 95d62b05ac7b551190f7a63fc1b04c48d01ad6fb Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 38/76] fix: fractions of second were ignored in the fuzzy
 calendars

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 17ee855..bff8fee 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -29,7 +29,7 @@ class WeeklyFuzzyCalendar:
 
     def duration_from_interval_start(self, current_date: datetime):
         current_second = current_date.hour * 3600 + current_date.minute * 60 + current_date.second
-        return current_second - self.interval_index(current_date) * self.granule_seconds
+        return current_second - self.interval_index(current_date) * self.granule_seconds + current_date.microsecond / 1e6
 
     def duration_to_interval_end(self, current_date: datetime):
         return self.granule_seconds - self.duration_from_interval_start(current_date)
-- 
2.43.0


From 035b8df710632857a9f917cc508de68bee73e3d7 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 39/76] fix: fuzzy intervals over the end of the week, e.g.,
 from Saturday to Monday, were lost

---
 prosimos/simulation_properties_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index ca6c2d4..87c4871 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -222,8 +222,9 @@ def convert_to_fuzzy_time_periods(time_period):
 
     time_periods = []
 
-    for day in range(from_day, to_day + 1):
-        week_day = list(int_week_days.keys())[list(int_week_days.values()).index(day)]
+    # the days can go over the end of the week, e.g., from Saturday to Monday
+    for day in range(from_day, from_day + (to_day - from_day) % 7 + 1):
+        week_day = list(int_week_days.keys())[list(int_week_days.values()).index(day % 7)]
         time_period = {
             "weekDay": week_day,
             "beginTime": time_period["beginTime"],
-- 
2.43.0


From 1a43e61a7b751d32c35736ea6895a9e8bc53a6ed Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 40/76] fix: tasks were executed in unavailable granules if the
 first one was not available

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index bff8fee..b6af480 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -121,12 +121,15 @@ class FuzzyModel:
 
         avail_info, size_seconds, week_day, i = self._extract_date_info(current_date)
 
-        real_duration = min(avail_info.duration_to_interval_end(current_date), ideal_duration)
+        real_duration = avail_info.duration_to_interval_end(current_date)
         if self.is_available(week_day, i):
+            real_duration = min(real_duration, ideal_duration)
             to_date = it_date + timedelta(seconds=real_duration)
             worked_intervals.append(Interval(it_date, to_date))
             it_date = to_date
             ideal_duration -= real_duration
+        else:
+            it_date += timedelta(seconds=real_duration)
         i += 1
         while ideal_duration > 0:
             if i >= avail_info.i_count:
-- 
2.43.0


From 93674284914c80f4f1724db5dae255f324d97014 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 41/76] fix: availability inside of one granule was counted
 several times in fuzzy calendars

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index b6af480..8a62e9c 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -160,6 +160,10 @@ class FuzzyModel:
         last_duration = fuzzy_c.duration_from_interval_start(to_date)
         first_duration = fuzzy_c.duration_to_interval_end(from_date)
 
+        if from_date + timedelta(seconds=first_duration) > to_date:
+            # both dates are in the same granule
+            return fuzzy_c.probability_intervals[week_day][i] * (to_date - from_date).total_seconds()
+
         duration = fuzzy_c.probability_intervals[week_day][i] * first_duration
         duration += fuzzy_c.probability_intervals[to_date.weekday()][fuzzy_c.interval_index(to_date)] * last_duration
 
-- 
2.43.0


From 6e53642b1df090a779f3c4cf96549907f0269125 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 42/76] fix: fuzzy resources that were never allocated were
 reported without available time

---
 prosimos/simulation_stats_calculator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 136a6a9..621c819 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -268,15 +268,14 @@ def compute_resorce_availability(bpm_env):
 
 def compute_fuzzy_availability(bpm_env):
     trace_list = bpm_env.log_info.trace_list
-    r_working_intervals = dict()
+    # resources that were never allocated are available, too
+    r_working_intervals = {r_id: [] for r_id in bpm_env.sim_setup.resources_map}
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
             if ev.resource_id is None:
                 # intermediate events are not executed by any resource
                 continue
-            if ev.resource_id not in r_working_intervals:
-                r_working_intervals[ev.resource_id] = []
             for interval in ev.worked_intervals:
                 r_working_intervals[ev.resource_id].append(interval)
 
@@ -293,7 +292,9 @@ def compute_fuzzy_availability(bpm_env):
         i_len = len(r_working_intervals[r_id])
         if i_len == 0:
             cumulative_worked_time[r_id] = 0
-            cumulative_available_time[r_id] = f_calendar.estimate_available_time(started_at, completed_at)
+            # (nothing was executed at all if the simulation has no start)
+            cumulative_available_time[r_id] = f_calendar.estimate_available_time(started_at, completed_at) \
+                if started_at < completed_at else 0
             bpm_env.sim_resources[r_id].available_time = cumulative_available_time[r_id]
             continue
 
-- 
2.43.0


From 6e77897bf1655e22f13d1c5e2efa1848b6dea9f2 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 43/76] fix: time available in fuzzy calendars was estimated
 from one of the calendars only

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 8a62e9c..681afa8 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -90,6 +90,11 @@ class FuzzyModel:
         # return random.choice([True, False], 1, p=[abs_prob, 1 - abs_prob])[0] or \
         #        random.choice([True, False], 1, p=[rel_prob, 1 - rel_prob])[0]
 
+    def _availability_probability(self, week_day, i):
+        # a resource is available according to any of the two calendars (see is_available)
+        return 1 - (1 - self.availability_calendar.probability_intervals[week_day][i]) * \
+            (1 - self.workload_ratio.probability_intervals[week_day][i])
+
     def _extract_date_info(self, current_date: datetime):
         avail = self.availability_calendar if self.default_calendar is FSpan.AVAILABILITY else self.workload_ratio
         return avail, avail.granule_seconds, current_date.date().weekday(), avail.interval_index(current_date)
@@ -162,14 +167,14 @@ class FuzzyModel:
 
         if from_date + timedelta(seconds=first_duration) > to_date:
             # both dates are in the same granule
-            return fuzzy_c.probability_intervals[week_day][i] * (to_date - from_date).total_seconds()
+            return self._availability_probability(week_day, i) * (to_date - from_date).total_seconds()
 
-        duration = fuzzy_c.probability_intervals[week_day][i] * first_duration
-        duration += fuzzy_c.probability_intervals[to_date.weekday()][fuzzy_c.interval_index(to_date)] * last_duration
+        duration = self._availability_probability(week_day, i) * first_duration
+        duration += self._availability_probability(to_date.weekday(), fuzzy_c.interval_index(to_date)) * last_duration
 
         to_date = to_date - timedelta(seconds=last_duration)
         c_date = from_date + timedelta(seconds=first_duration)
         while c_date < to_date:
-            duration += fuzzy_c.probability_intervals[c_date.weekday()][fuzzy_c.interval_index(c_date)] * size_seconds
+            duration += self._availability_probability(c_date.weekday(), fuzzy_c.interval_index(c_date)) * size_seconds
             c_date += timedelta(seconds=size_seconds)
         return duration
-- 
2.43.0


From 766a8348e756846ec3c19f54e259d7072cb7331b Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 44/76] fix: the command line added the events to the log when
 told not to

---
 cli/diff_res_bpsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/diff_res_bpsim.py b/cli/diff_res_bpsim.py
index fe1e1f2..8e74922 100644
--- a/cli/diff_res_bpsim.py
+++ b/cli/diff_res_bpsim.py
@@ -30,7 +30,7 @@ def cli():
 @click.option('--starting_at', required=False,
               help='Date-time of the first process case in the simulation.'
                    'If this parameter is not provided, the current date-time is assigned.')
-@click.option('--is_event_added_to_log', required=False,
+@click.option('--is_event_added_to_log', required=False, type=click.BOOL, default=False,
               help='Boolean showing whether event should be added to the resulted simulation log.'
                    'If this parameter is not provided, False is considered as the parameter value.')
 @click.pass_context
-- 
2.43.0


From f3a94f0277e1e99bb8778d46dccd325a7e2a996c Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 45/76] fix: discovery from the command line crashed with any
 value of its numeric options

---
 cli/diff_res_bpsim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/diff_res_bpsim.py b/cli/diff_res_bpsim.py
index 8e74922..806da18 100644
--- a/cli/diff_res_bpsim.py
+++ b/cli/diff_res_bpsim.py
@@ -45,15 +45,15 @@ def start_simulation(ctx, bpmn_path, json_path, total_cases, stat_out_path=None,
               help='Path to the event log in XES format')
 @click.option('--out_json', required=True,
               help='Path to the JSON file to produce as output with the differentiated simulation parameters')
-@click.option('--granule_size', required=False,
+@click.option('--granule_size', required=False, type=click.INT, default=60,
               help='Length of the working intervals in the calendars in minutes, 60 minutes by default')
-@click.option('--conf', required=False,
+@click.option('--conf', required=False, type=click.FLOAT, default=0.1,
               help='Confidence ratio in [0, 1] to consider a timestamp in the event-log as outlier, 0.1 by default.'
                    'Timestamps under the confidence threshold are not included in the calendar.')
-@click.option('--supp', required=False,
+@click.option('--supp', required=False, type=click.FLOAT, default=0.7,
               help='Support ratio in [0, 1] describing the coverage of timestamps by the calendar, 0.7 by default.'
                    'The calendar will include a ratio of timestamps in the log over the support threshold.')
-@click.option('--part', required=False,
+@click.option('--part', required=False, type=click.FLOAT, default=0.3,
               help='Resource participation ratio in [0, 1] to mark a resource as external, 0.3 by default.'
                    'Resources with participation ratio under the threshold in the event-log are discarded.')
 @click.pass_context
-- 
2.43.0


From 38424abcd27c21057b9f36e9880948e3a7e9c973 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 46/76] fix: attributes whose name contains a keyword replaced
 the columns of the CSV log

---
 bpdfr_discovery/log_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 17eaf91..30ba804 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -229,7 +229,9 @@ def process_csv_header(first_row):
         l_key = key.lower()
         for kw in key_words:
             if kw in l_key:
-                i_map[kw] = i
+                # other columns, e.g., case attributes, can also contain the keywords ("gender" contains "end")
+                if kw not in i_map:
+                    i_map[kw] = i
                 break
         i += 1
 
-- 
2.43.0


From 0919ce42721b22a66f5b701f666061bda0245d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 47/76] fix: the order of the resources in their queues changed
 from one process to another

---
 prosimos/simulation_queues_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_queues_ds.py b/prosimos/simulation_queues_ds.py
index 8e043ff..cf65d1e 100644
--- a/prosimos/simulation_queues_ds.py
+++ b/prosimos/simulation_queues_ds.py
@@ -86,7 +86,7 @@ class DiffResourceQueue:
         # Grouping the tasks that share all the resources
         for task_id_1 in task_resource_map:
             if task_id_1 not in taken:
-                joint_tasks = set()
+                joint_tasks = list()
                 for task_id_2 in task_resource_map:
                     is_joint = True
                     if len(task_resource_map[task_id_2]) != len(task_resource_map[task_id_1]):
@@ -97,7 +97,7 @@ class DiffResourceQueue:
                             break
                     if is_joint:
                         taken.add(task_id_2)
-                        joint_tasks.add(task_id_2)
+                        joint_tasks.append(task_id_2)
                 joint_sets.append(joint_tasks)
 
         index = 0
-- 
2.43.0


From ce6bf1b12e8cf7194ed3d3f8170dd830a3d4d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 48/76] fix: several true conditions whose flows have all
 probability zero stopped the simulation

---
 prosimos/outgoing_flow_selector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/outgoing_flow_selector.py b/prosimos/outgoing_flow_selector.py
index 21f9f89..b98faab 100644
--- a/prosimos/outgoing_flow_selector.py
+++ b/prosimos/outgoing_flow_selector.py
@@ -110,6 +110,9 @@ class OutgoingFlowSelector:
     @staticmethod
     def _scale_to_one(values):
         total = sum(values)
+        if total == 0:
+            # none of them was expected: all are equally likely
+            return [1 / len(values) for _ in values]
         return [value / total for value in values]
 
     @staticmethod
-- 
2.43.0


From 6438c09e9c4a3940882ae862f6f7c8d7d52cb3c4 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 49/76] fix: a starting datetime without an offset crashed the
 simulation after its files were opened

---
 prosimos/simulation_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index b9fdb6d..098a50a 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -773,6 +773,9 @@ def run_simulation(
     starting_at_datetime = (
         parse_datetime(starting_at, True) if starting_at else pytz.utc.localize(datetime.datetime.now())
     )
+    if starting_at_datetime.tzinfo is None:
+        # the datetimes without an offset are in UTC, as the default one
+        starting_at_datetime = pytz.utc.localize(starting_at_datetime)
     diffsim_info.set_starting_datetime(starting_at_datetime)
 
     if stat_out_path is None and log_out_path is None:
-- 
2.43.0


From 7a4c45babc14feb5a04e04ed345afcbdcd4f37a4 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 50/76] fix: a granule size of zero crashed the discovery
 instead of being rejected

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 30ba804..f364b9e 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -174,7 +174,7 @@ def compute_kpi_times_from_csv_log(log_path, bpmn_graph):
 
 
 def parse_and_validate_input(log_path, bpmn_path, minutes_x_granule, conf, supp, part, is_csv=False):
-    if minutes_x_granule < 0 or 1440 % minutes_x_granule != 0:
+    if minutes_x_granule <= 0 or 1440 % minutes_x_granule != 0:
         raise InvalidInputDiscoveryParameters(
             "Invalid granule_size. The time interval must be a divisor of 1400, e.g., 15, 30, 60 minutes"
         )
-- 
2.43.0


From 4dd3ed5150a1aa92789a9c5322070fd0780ba170 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 51/76] fix: an expression of attributes with a unary plus
 evaluated to 0

---
 prosimos/event_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 08ed3bd..cdf75e2 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -21,7 +21,7 @@ class EVENT_ATTR_TYPE(Enum):
 
 operators = {
     ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul, ast.Div: op.truediv,
-    ast.USub: op.neg, ast.Eq: op.eq, ast.NotEq: op.ne, ast.Lt: op.lt,
+    ast.UAdd: op.pos, ast.USub: op.neg, ast.Eq: op.eq, ast.NotEq: op.ne, ast.Lt: op.lt,
     ast.LtE: op.le, ast.Gt: op.gt, ast.GtE: op.ge, ast.Not: op.not_,
     ast.And: op.and_, ast.Or: op.or_, ast.Mod: op.mod, ast.Pow: op.pow,
     ast.FloorDiv: op.floordiv
-- 
2.43.0


From 7e7582bfa64254b0ae5bbc79a50afe1ab20a7b1b Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 20:57:33 +0000
Subject: [PATCH 52/76] fix: discovery with observed arrival times crashed when
 more than half of the intervals are equal

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index f364b9e..96a1a17 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -960,7 +960,7 @@ def _reject_outliers(data, m=5.0):
     data = np.asarray(data)
     d = np.abs(data - np.median(data))
     mdev = np.median(d)
-    s = d / mdev if mdev else 0.0
+    s = d / mdev if mdev else np.zeros(len(d))
     return data[s < m]
 
 
-- 
2.43.0


From e6e53a21bf61e21e3994aa37151b4e0fc9ef782b Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 53/76] fix: discovery crashed when no calendar is found for
 any of the resources of a task

---
 bpdfr_discovery/log_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 96a1a17..d1223d2 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -832,7 +832,7 @@ def discover_resource_calendars(calendar_factory, task_resource_events, min_conf
             elif r_name in joint_event_candidates:
                 discarded_joint[task_name].append([r_name, joint_resource_freq[r_name]])
 
-        if calendar_factory.task_coverage(task_name) < min_support:
+        if calendar_factory.task_coverage(task_name) < min_support or len(task_resources[task_name]) == 0:
             discarded_joint[task_name].sort(key=lambda x: x[1], reverse=True)
             for d_info in discarded_joint[task_name]:
                 resource_calendars[d_info[0]] = calendar_factory.build_unrestricted_resource_calendar(
@@ -870,7 +870,7 @@ def _max_disjoint_intervals(interval_list):
                 current_last = interval_list[i].completed_at
             else:
                 discarded_list.append(interval_list[i])
-        if len(max_set) > 1:
+        if len(max_set) > 1 or len(disjoint_intervals) == 0:
             disjoint_intervals.append(max_set)
         if len(max_set) == 1 or len(discarded_list) == 0:
             break
-- 
2.43.0


From 8e845b96366df8495719571f8cf003cd0c7c6d62 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 54/76] fix: the calendars discovered before 10:00, or with
 granules that do not divide the hour, were wrong

---
 bpdfr_discovery/log_parser.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index d1223d2..634fdfa 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -7,8 +7,8 @@ from pathlib import Path
 import numpy as np
 import pandas as pd
 import pytz
-from pix_framework.discovery.resource_calendar_and_performance.crisp.factory import CalendarFactory
-from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import RCalendar
+from pix_framework.discovery.resource_calendar_and_performance.crisp.factory import CalendarFactory as PixCalendarFactory
+from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import RCalendar, int_week_days
 from pix_framework.statistics.distribution import DurationDistribution, get_best_fitting_distribution
 
 from bpdfr_discovery.exceptions import InvalidInputDiscoveryParameters
@@ -21,6 +21,20 @@ from prosimos.simulation_properties_parser import parse_simulation_model
 print_info = False
 
 
+class CalendarFactory(PixCalendarFactory):
+    def _add_calendar_item(self, week_day: int, g_index: int, r_calendar: RCalendar):
+        # the times must be padded with zeros ("9:0:0" is read as a date of the year 1), and the granules
+        # can be longer than one hour or go over it
+        begin = g_index * self.minutes_x_granule
+        end = begin + self.minutes_x_granule
+        r_calendar.add_calendar_item(
+            int_week_days[week_day],
+            int_week_days[week_day],
+            "%02d:%02d:00" % (begin // 60, begin % 60),
+            "%02d:%02d:00" % (end // 60, end % 60) if end < 1440 else "23:59:59.999",
+        )
+
+
 def event_list_from_xes_log(log_path):
     from pm4py.objects.log.importer.xes import importer as xes_importer
 
-- 
2.43.0


From e5eff566c2518f6abcbc599df935e1f70d0e84e2 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 55/76] fix: tasks after a parallel join were taken as enabled
 when the branch started last was completed

---
 prosimos/control_flow_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 93ee798..944adb3 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -829,7 +829,9 @@ class BPMNGraph:
             e_info = suc_queue.popleft()
             for out_flow in e_info.outgoing_flows:
                 next_info = self._get_successor(out_flow)
-                p_state.flow_date[out_flow] = last_date
+                # parallel tasks are visited by the time they started, not by the time they were completed
+                if out_flow not in p_state.flow_date or last_date > p_state.flow_date[out_flow]:
+                    p_state.flow_date[out_flow] = last_date
                 if next_info.is_gateway() and next_info.id not in visited_elements:
                     suc_queue.append(next_info)
                     visited_elements.add(next_info.id)
-- 
2.43.0


From 975ee99ebfac248860f0662573ce75126d74c70c Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 56/76] fix: replaying a trace lost enabled gateways found at
 the same distance in parallel branches

---
 prosimos/control_flow_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 944adb3..e000628 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -727,7 +727,8 @@ class BPMNGraph:
                             c_min, closer_pred, or_f, temp_path = d, e_p, o_f, t_path
 
                 for e_id in closer_pred:
-                    enabled_pred[e_id] = closer_pred[e_id]
+                    # elements found at the same distance in other branches remain
+                    enabled_pred[e_id] = enabled_pred.get(e_id, []) + closer_pred[e_id]
                 for e_id in temp_path:
                     path_split[e_id] = temp_path[e_id]
                 for e_id in or_f:
-- 
2.43.0


From c3c86dcae294a450fd9f10ba2a25f4041f749673 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 57/76] fix: replaying a trace fired the joins of nested OR
 blocks outside in and counted the decisions after them twice

---
 prosimos/control_flow_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index e000628..6fc74ce 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -840,7 +840,8 @@ class BPMNGraph:
     def try_firing_or_join(self, enabled_pred, p_state, or_firing, path_decisions, f_arcs_frequency):
         fired = set()
         or_firing_list = list()
-        for or_join_id in or_firing:
+        # the joins of nested blocks go first
+        for or_join_id in sorted(or_firing, key=or_firing.get, reverse=True):
             or_firing_list.append(or_join_id)
         for or_join_id in or_firing_list:
             if self.is_enabled(or_join_id, p_state) or not enabled_pred:
-- 
2.43.0


From d8d7db5f528a57d9c765b9451572b0523614c020 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 58/76] fix: the arrival calendar was saved by the discovery in
 a form that the simulator cannot read

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 634fdfa..0d834b2 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -485,7 +485,7 @@ def preprocess_xes_log(
     # # (2) Discovering Arrival Time Calendar
     arrival_calendar = discover_arrival_calendar(initial_events, 60, 0.1, 1.0)
     # arrival_calendar = discover_arrival_calendar(initial_events, minutes_x_granule, min_confidence, min_support)
-    json_arrival_calendar = arrival_calendar.to_dict()
+    json_arrival_calendar = arrival_calendar.intervals_to_json()
 
     # # (3) Discovering Arrival Time Distribution
     arrival_time_dist = discover_arrival_time_distribution(initial_events, arrival_calendar, use_observed_arrival_times)
-- 
2.43.0


From ed2082656103e7f7abfc706273bfe3d2d7dbd348 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 59/76] fix: a batch could fire without tasks enabled before,
 when an intermediate event enabled later was processed first

---
 prosimos/simulation_engine.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 098a50a..c9f80de 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -71,12 +71,6 @@ class SimBPMEnv:
         self.sim_setup.bpmn_graph.all_attributes = all_attributes
 
     def calc_priority_and_append_to_queue(self, enabled_event: EnabledEvent, is_arrival_event: bool):
-        if enabled_event.is_inter_event:
-            # append with the highest priority
-            highest_priority = 0
-            self.append_enabled_event_to_queue(enabled_event, is_arrival_event, highest_priority)
-            return
-
         case_priority = self.calc_priority_for_task_or_batch(enabled_event)
 
         self.append_enabled_event_to_queue(enabled_event, is_arrival_event, case_priority)
-- 
2.43.0


From ef628e4f6b52889fa6721532bc2ea0b5b6cf9ba1 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 60/76] fix: an inclusive gateway whose independent
 probabilities do not sum to one stopped the simulation when none of its flows
 was selected

---
 prosimos/probability_distributions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prosimos/probability_distributions.py b/prosimos/probability_distributions.py
index 24a5f9a..215cae6 100644
--- a/prosimos/probability_distributions.py
+++ b/prosimos/probability_distributions.py
@@ -165,7 +165,14 @@ class Choice:
         for i in range(0, len(self.candidates_list)):
             if random.choice([True, False], 1, p=[self.probability_list[i], 1 - self.probability_list[i]]):
                 selected.append((self.candidates_list[i], None))
-        return selected if len(selected) > 0 else [(self.get_outgoing_flow(), None)]
+        return selected if len(selected) > 0 else [(self._get_scaled_outgoing_flow(), None)]
+
+    def _get_scaled_outgoing_flow(self):
+        """Select only one of the flows: their probabilities are independent, so they might not sum up to one"""
+        total = sum(self.probability_list)
+        if total == 0:
+            return random.choice(self.candidates_list, 1)[0]
+        return random.choice(self.candidates_list, 1, p=[prob / total for prob in self.probability_list])[0]
 
 
 def random_uniform(start, end):
-- 
2.43.0


From c03a6eff592d6919ea3581054792251eedc1700e Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 61/76] fix: a terminate end event reached while other branches
 were in progress stopped the simulation, and did not end the case at its time

---
 prosimos/control_flow_manager.py | 16 +++++++++++++---
 prosimos/simulation_engine.py    | 13 +++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 6fc74ce..537ea51 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -99,6 +99,9 @@ class ElementInfo:
     def is_start_or_end_event(self):
         return self.type in [BPMN.START_EVENT, BPMN.END_EVENT]
 
+    def is_terminate_end_event(self):
+        return self.type == BPMN.END_EVENT and self.event_type == EVENT_TYPE.TERMINATE
+
     def is_event(self):
         return self.type in [BPMN.START_EVENT, BPMN.END_EVENT, BPMN.INTERMEDIATE_EVENT]
 
@@ -109,6 +112,7 @@ class ProcessState:
         self.tokens = dict()
         self.flow_date = dict()
         self.state_mask = 0
+        self.is_terminated = False
         for flow_arc in bpmn_graph.flow_arcs:
             self.tokens[flow_arc] = 0
 
@@ -123,6 +127,7 @@ class ProcessState:
             self.state_mask &= ~self.arcs_bitset[flow_id]
 
     def remove_all_tokens_on_terminate(self):
+        self.is_terminated = True
         for token in self.tokens:
             self.remove_token(token)
 
@@ -359,7 +364,7 @@ class BPMNGraph:
                                           which equals to enabled time for current event
         """
         if not self.is_enabled(e_id, p_state):
-            return []
+            return [], {}
         enabled_tasks = list()
         to_execute = [e_id]
         current = 0
@@ -367,7 +372,7 @@ class BPMNGraph:
         while current < len(to_execute):
             e_info: ElementInfo = self.element_info[to_execute[current]]
             last_enabled = visited_at[e_info.id]
-            if e_info.type == BPMN.END_EVENT and e_info.event_type == EVENT_TYPE.TERMINATE:
+            if e_info.is_terminate_end_event():
                 """ Terminate End Event detected"""
                 p_state.remove_all_tokens_on_terminate()
             else:
@@ -926,11 +931,16 @@ class BPMNGraph:
                 enabled_tasks.append(EnabledTask(next_e, None, duration_sec))
             elif next_el_type == BPMN.INTERMEDIATE_EVENT:
                 enabled_tasks.append(EnabledTask(next_e, None, duration_sec, True))
+            elif self.element_info[next_e].is_terminate_end_event():
+                # the case is terminated when the simulation reaches the enabled time
+                enabled_tasks.append(EnabledTask(next_e, None, None, True))
             else:
                 to_execute.append(next_e)
 
     def _check_and_update_enabling_time(self, p_case, e_id, enabled_at: CustomDatetimeAndSeconds):
-        if p_case not in self.last_datetime[e_id]:
+        e_type = self.element_info[e_id].type
+        if p_case not in self.last_datetime[e_id] or e_type not in [BPMN.PARALLEL_GATEWAY, BPMN.INCLUSIVE_GATEWAY]:
+            # only the joins wait, the other elements are enabled by each of the tokens
             self.last_datetime[e_id][p_case] = enabled_at
         elif self.last_datetime[e_id][p_case] is None or self.last_datetime[e_id][p_case].datetime < enabled_at.datetime:
             self.last_datetime[e_id][p_case] = enabled_at
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index c9f80de..36f7c8c 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -144,6 +144,19 @@ class SimBPMEnv:
 
         event_element_info = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
 
+        if c_event.batch_info_exec is None and c_event.p_state.is_terminated:
+            # nothing else is executed in the case
+            return
+
+        if event_element_info.is_terminate_end_event():
+            self.sim_setup.update_process_state(
+                c_event.p_case,
+                c_event.task_id,
+                c_event.p_state,
+                CustomDatetimeAndSeconds(c_event.enabled_at, c_event.enabled_datetime),
+            )
+            return
+
         if (
             c_event.batch_info_exec is None
             and self.sim_setup.bpmn_graph.is_task_batched(c_event.task_id)
-- 
2.43.0


From a4644680514ab2ca44e7f7fa7d0c9af66906ed00 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 62/76] fix: an intermediate event with several incoming flows
 waited for all of them

---
 prosimos/simulation_properties_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index 87c4871..a7c250c 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -457,7 +457,7 @@ def parse_simulation_model(bpmn_path):
         split_gateways = dict()
         for t_id in elements_map:
             e_info = elements_map[t_id]["info"]
-            if e_info.type is BPMN.TASK:
+            if e_info.type in [BPMN.TASK, BPMN.INTERMEDIATE_EVENT]:
                 if elements_map[t_id]["in"] > 1:
                     _add_fake_gateway(
                         bpmn_graph,
-- 
2.43.0


From 5eafe8fea25f3d7a1a20c00c740353c4a360a321 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 63/76] fix: a terminate end event with several incoming flows
 waited for the other branches

---
 prosimos/simulation_properties_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index a7c250c..20b1123 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -480,7 +480,8 @@ def parse_simulation_model(bpmn_path):
                     _add_fake_gateway(
                         bpmn_graph,
                         "or_join_%s" % t_id,
-                        BPMN.INCLUSIVE_GATEWAY,
+                        # the first token to arrive terminates the case, it does not wait for the others
+                        BPMN.EXCLUSIVE_GATEWAY if e_info.is_terminate_end_event() else BPMN.INCLUSIVE_GATEWAY,
                         t_id,
                         join_gateways,
                     )
-- 
2.43.0


From 743749478f2215e08c535b8470a6a67783887115 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 64/76] fix: the meaning of a batch firing rule depended on the
 order in which its conditions were written

---
 prosimos/batch_processing_parser.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/prosimos/batch_processing_parser.py b/prosimos/batch_processing_parser.py
index b2e7bce..347d0c1 100644
--- a/prosimos/batch_processing_parser.py
+++ b/prosimos/batch_processing_parser.py
@@ -111,23 +111,20 @@ class BatchProcessingParser:
     @staticmethod
     def _move_size_to_end(list: List[FiringSubRule]):
         """
-        Re-order the elements inside list so that:
+        Re-order the elements inside list, so that the meaning of the rule does not depend
+        on the order in which its conditions were written:
             1) size rule is the last one in the sequence
-            2) week_day rule is the second item from the end
+            2) the lower limit of the daily_hour is the second item from the end
+            3) week_day rule comes after the upper limit of the daily_hour
         """
 
-        BatchProcessingParser._move_to_end("daily_hour", list)
-        BatchProcessingParser._move_to_end("size", list)
+        def get_position(rule: FiringSubRule):
+            if rule.variable1 == RULE_TYPE.SIZE.value:
+                return 4
+            if rule.variable1 == RULE_TYPE.WEEK_DAY.value:
+                return 2
+            if rule.variable1 == RULE_TYPE.DAILY_HOUR.value:
+                return 1 if rule.operator in ["<", "<="] else 3
+            return 0
 
-    @staticmethod
-    def _move_to_end(rule_name: str, list):
-        rule_index = next(
-            (i for i, item in enumerate(list) if item.variable1 == rule_name), -1
-        )
-        last_index = len(list) - 1
-
-        if rule_index == -1:
-            # size rule is not on the list of all rules
-            return
-
-        list.insert(last_index, list.pop(rule_index))
+        list.sort(key=get_position)
-- 
2.43.0


From a847cb91e3e69387da0c1b0fa491a6a880e3897b Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 65/76] fix: a batch of a week_day and daily_hour rule was
 missed when the next task came on another day

---
 prosimos/batch_processing.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 9a7ffb9..d800f83 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -191,6 +191,18 @@ class FiringSubRule():
         boundary_day = datetime(rule_nearest_past_day.year, rule_nearest_past_day.month, rule_nearest_past_day.day, \
                         0, 0, 0, rule_nearest_past_day.microsecond, rule_nearest_past_day.tzinfo)
 
+        if curr_enabled_at.date() != boundary_day.date() and \
+            len([enabled_at for enabled_at in enabled_times if enabled_at < boundary_day]) < 2:
+            # the day dictated by the rule is over, only the tasks enabled by its end
+            # could have been executed on that day
+            next_midnight = boundary_day + timedelta(days=1)
+            follow_rule = [enabled_at for enabled_at in enabled_times if enabled_at < next_midnight]
+
+            if len(follow_rule) > 1:
+                return len(follow_rule), follow_rule[-1]
+
+            return 0, None
+
         if element["is_triggered_by_batch"]:
             # the first executing task after the boundary date is a batched one
             # we either found tasks enabled before midnight and execute them
@@ -200,17 +212,6 @@ class FiringSubRule():
             if len(follow_rule) > 1:
                 return len(follow_rule), boundary_day
 
-            if curr_enabled_at.date() != boundary_day.date():
-                # the day dictated by the rule is over, only the tasks enabled by its end
-                # could have been executed on that day
-                next_midnight = boundary_day + timedelta(days=1)
-                follow_rule = [enabled_at for enabled_at in enabled_times if enabled_at < next_midnight]
-
-                if len(follow_rule) > 1:
-                    return len(follow_rule), follow_rule[-1]
-
-                return 0, None
-
         if element["is_triggered_by_batch"]:
             boundary_day = curr_enabled_at
             op = operator.le
-- 
2.43.0


From 05993dda2e3136e5402fc390b0909562ea80ed8b Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 66/76] fix: a batch of a daily_hour or week_day rule with a
 size rule fired outside of its time when too few tasks waited

---
 prosimos/batch_processing.py | 40 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index d800f83..0680f0d 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -181,7 +181,7 @@ class FiringSubRule():
         return nearest_enabled_datetime
 
 
-    def get_batch_size_relative_time(self, element):
+    def get_batch_size_relative_time(self, element, min_size=2):
         curr_enabled_at = element["curr_enabled_at"]
         rule_value_str = self.value2.upper()
   
@@ -192,13 +192,13 @@ class FiringSubRule():
                         0, 0, 0, rule_nearest_past_day.microsecond, rule_nearest_past_day.tzinfo)
 
         if curr_enabled_at.date() != boundary_day.date() and \
-            len([enabled_at for enabled_at in enabled_times if enabled_at < boundary_day]) < 2:
+            len([enabled_at for enabled_at in enabled_times if enabled_at < boundary_day]) < min_size:
             # the day dictated by the rule is over, only the tasks enabled by its end
             # could have been executed on that day
             next_midnight = boundary_day + timedelta(days=1)
             follow_rule = [enabled_at for enabled_at in enabled_times if enabled_at < next_midnight]
 
-            if len(follow_rule) > 1:
+            if len(follow_rule) >= min_size:
                 return len(follow_rule), follow_rule[-1]
 
             return 0, None
@@ -209,7 +209,7 @@ class FiringSubRule():
             # or we execute enabled batched tasks (if any) today
             follow_rule = [enabled_at for enabled_at in enabled_times if enabled_at < boundary_day]
 
-            if len(follow_rule) > 1:
+            if len(follow_rule) >= min_size:
                 return len(follow_rule), boundary_day
 
         if element["is_triggered_by_batch"]:
@@ -234,7 +234,7 @@ class FiringSubRule():
         
         return 0, None
 
-    def get_batch_size_by_daily_hour(self, element, only_one_date, range):
+    def get_batch_size_by_daily_hour(self, element, only_one_date, range, min_size=2):
         """
         only_one_date: no loops, you just check whether some batch could be enabled at this current datetime
         """
@@ -269,11 +269,11 @@ class FiringSubRule():
 
                 elif op(en_time, prev_day_to_oldest_rule_time):
                     # check whether we have something to execute before moving forward
-                    if len(follow_rule) > 1:
+                    if len(follow_rule) >= min_size:
                         return len(follow_rule), prev_day_to_oldest_rule_time
 
                     # satisy the condition
-                    # execute as pair of two tasks
+                    # execute as soon as there are enough tasks (a pair of two tasks by default)
                     if en_time > end_day:
                         # already in the next day execution
                         break
@@ -283,7 +283,7 @@ class FiringSubRule():
                         break
                         
                     follow_rule.append(en_time)
-                    if len(follow_rule) == 2:
+                    if len(follow_rule) == min_size:
                         final_enabled_time = en_time
                         break
                 else:
@@ -309,7 +309,7 @@ class FiringSubRule():
                     return 0, None
 
             res_len, res_time = self._return_with_validation_arr(follow_rule, final_enabled_time)
-            if res_len != 0:
+            if res_len >= min_size:
                 return res_len, res_time
 
             if only_one_date:
@@ -322,8 +322,8 @@ class FiringSubRule():
             is_over = prev_day_to_oldest_rule_time.date() > curr_enabled_at.date() if op in [operator.lt, operator.le] \
                 else prev_day_to_oldest_rule_time > curr_enabled_at
             if is_over:
-                # return batches of at least size of 2
-                return self._return_with_validation_arr(follow_rule, final_enabled_time)
+                # no batch with enough tasks by now
+                return 0, None
 
 
     def _return_with_validation_arr(self, arr_follow_rule, enabled_time):
@@ -600,6 +600,15 @@ class AndFiringRule():
 
         return False
 
+    def get_min_batch_size(self):
+        """ The lowest number of tasks in the batch which satisfies the size rule (at least two tasks) """
+        min_size = 2
+        for rule in self.rules:
+            if rule.is_batch_size() and rule.operator in ['=', '>=', '>']:
+                min_size = max(min_size, rule.value2 + 1 if rule.operator == '>' else rule.value2)
+
+        return min_size
+
     def is_batch_size_enough_for_exec(self, batch_size_res: int):
         return True if (self._has_rule([RULE_TYPE.READY_WT, RULE_TYPE.LARGE_WT]) or \
                 self.is_size_one()) and \
@@ -710,6 +719,7 @@ class AndFiringRule():
         batch_size, enabled_time = self.get_firing_batch_size_ready_and_large(element, batch_size, enabled_time)
 
         is_time_forced = False
+        min_size = self.get_min_batch_size()
 
         for subrule in self.rules:
             curr_size = 0
@@ -753,8 +763,8 @@ class AndFiringRule():
                 return batch_size, enabled_time
             
             elif subrule.variable1 == "week_day":
-                curr_size, enabled_time = subrule.get_batch_size_relative_time(element)
-                if curr_size < 2:
+                curr_size, enabled_time = subrule.get_batch_size_relative_time(element, min_size)
+                if curr_size < min_size:
                     batch_size = 0
                     break
                 is_time_forced = True
@@ -764,8 +774,8 @@ class AndFiringRule():
                     element["curr_enabled_at"] = enabled_time
                     only_one_date = True
                 
-                curr_size, enabled_time = subrule.get_batch_size_by_daily_hour(element, only_one_date, self.daily_hour_range)
-                if curr_size < 2:
+                curr_size, enabled_time = subrule.get_batch_size_by_daily_hour(element, only_one_date, self.daily_hour_range, min_size)
+                if curr_size < min_size:
                     batch_size = 0
                     break
 
-- 
2.43.0


From 47f3ece6857b37f5a5ab6ef973e39d264223d4ca Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 67/76] fix: a batch of a week_day rule with an upper limit of
 daily_hour fired outside of that day

---
 prosimos/batch_processing.py        | 12 ++++++++++++
 prosimos/batch_processing_parser.py |  9 ++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 0680f0d..b86f176 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -261,6 +261,18 @@ class FiringSubRule():
             start_day = datetime.combine(prev_day_to_oldest_rule_time.date(), start_time, oldest_in_batch_datetime.tzinfo)
             end_day = datetime.combine(prev_day_to_oldest_rule_time.date(), end_time, oldest_in_batch_datetime.tzinfo)
 
+            if only_one_date and op in [operator.lt, operator.le]:
+                # those waiting since before that day are executed at its beginning,
+                # otherwise, the batch is executed as soon as there are enough tasks
+                follow_rule = [en_time for en_time in enabled_times if en_time <= start_day]
+                if len(follow_rule) >= min_size:
+                    return len(follow_rule), start_day.replace(microsecond=curr_enabled_at.microsecond)
+
+                if len(enabled_times) >= min_size and enabled_times[min_size - 1] <= end_day:
+                    return min_size, enabled_times[min_size - 1]
+
+                return 0, None
+
             for en_time in enabled_times:
                 if op == operator.eq:
                     if en_time <= prev_day_to_oldest_rule_time:
diff --git a/prosimos/batch_processing_parser.py b/prosimos/batch_processing_parser.py
index 347d0c1..8b799c6 100644
--- a/prosimos/batch_processing_parser.py
+++ b/prosimos/batch_processing_parser.py
@@ -114,9 +114,12 @@ class BatchProcessingParser:
         Re-order the elements inside list, so that the meaning of the rule does not depend
         on the order in which its conditions were written:
             1) size rule is the last one in the sequence
-            2) the lower limit of the daily_hour is the second item from the end
-            3) week_day rule comes after the upper limit of the daily_hour
+            2) the (lower limit of the) daily_hour is the second item from the end
+            3) week_day rule comes before the daily_hour, or between its two limits
         """
+        has_lower_limit = any(
+            rule.variable1 == RULE_TYPE.DAILY_HOUR.value and rule.operator in [">", ">="] for rule in list
+        )
 
         def get_position(rule: FiringSubRule):
             if rule.variable1 == RULE_TYPE.SIZE.value:
@@ -124,7 +127,7 @@ class BatchProcessingParser:
             if rule.variable1 == RULE_TYPE.WEEK_DAY.value:
                 return 2
             if rule.variable1 == RULE_TYPE.DAILY_HOUR.value:
-                return 1 if rule.operator in ["<", "<="] else 3
+                return 1 if has_lower_limit and rule.operator in ["<", "<="] else 3
             return 0
 
         list.sort(key=get_position)
-- 
2.43.0


From 5122dbd4a8b481d096977db71505a55bd4fc16e0 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 68/76] fix: a batch of a daily_hour upper limit and a size
 rule fired later than at midnight

---
 prosimos/batch_processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index b86f176..6beb790 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -796,7 +796,10 @@ class AndFiringRule():
                     # hour overrides cause it takes into account the enabled datetime returned by week_day rule
                     batch_size = curr_size
 
-                if enabled_time != None and enabled_time.time() == subrule.value2:
+                # without a lower limit, those waiting are executed at midnight
+                is_from_midnight = subrule.operator in ['<', '<='] and not self._has_daily_hour_lower_limit()
+                boundary_time = time(0, 0, 0) if is_from_midnight else subrule.value2
+                if enabled_time != None and enabled_time.time() == boundary_time:
                     is_time_forced = True
                 else:
                     is_time_forced = False
-- 
2.43.0


From 0b7894ef86680d670c750022852508a9efd1d46c Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 69/76] fix: a batch of a week_day, daily_hour and size rule
 was missed when some of its tasks came on that day

---
 prosimos/batch_processing.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 6beb790..a712737 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -181,7 +181,7 @@ class FiringSubRule():
         return nearest_enabled_datetime
 
 
-    def get_batch_size_relative_time(self, element, min_size=2):
+    def get_batch_size_relative_time(self, element, min_size=2, is_combined=False):
         curr_enabled_at = element["curr_enabled_at"]
         rule_value_str = self.value2.upper()
   
@@ -191,8 +191,9 @@ class FiringSubRule():
         boundary_day = datetime(rule_nearest_past_day.year, rule_nearest_past_day.month, rule_nearest_past_day.day, \
                         0, 0, 0, rule_nearest_past_day.microsecond, rule_nearest_past_day.tzinfo)
 
-        if curr_enabled_at.date() != boundary_day.date() and \
-            len([enabled_at for enabled_at in enabled_times if enabled_at < boundary_day]) < min_size:
+        is_too_few_before = len([enabled_at for enabled_at in enabled_times if enabled_at < boundary_day]) < min_size
+
+        if curr_enabled_at.date() != boundary_day.date() and is_too_few_before:
             # the day dictated by the rule is over, only the tasks enabled by its end
             # could have been executed on that day
             next_midnight = boundary_day + timedelta(days=1)
@@ -212,7 +213,8 @@ class FiringSubRule():
             if len(follow_rule) >= min_size:
                 return len(follow_rule), boundary_day
 
-        if element["is_triggered_by_batch"]:
+        if element["is_triggered_by_batch"] or (is_combined and is_too_few_before):
+            # with other conditions, the tasks enabled on that day might still wait to be executed
             boundary_day = curr_enabled_at
             op = operator.le
         else:
@@ -775,7 +777,7 @@ class AndFiringRule():
                 return batch_size, enabled_time
             
             elif subrule.variable1 == "week_day":
-                curr_size, enabled_time = subrule.get_batch_size_relative_time(element, min_size)
+                curr_size, enabled_time = subrule.get_batch_size_relative_time(element, min_size, len(self.rules) > 1)
                 if curr_size < min_size:
                     batch_size = 0
                     break
-- 
2.43.0


From 13342f88f64fa1f01a4925372d5205ef8503d8b6 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 70/76] fix: of alternative batch firing rules, the one written
 first was followed instead of the one satisfied first

---
 prosimos/batch_processing.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index a712737..36bec6f 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -942,12 +942,19 @@ class OrFiringRule():
                 otherwise, enabled_time is being returned
         """
         is_batched_task_enabled = False
+        earliest = None
         for rule in self.rules:
-            is_batched_task_enabled, batch_spec, start_time = rule.is_true(spec)
+            # every rule is verified with all tasks waiting (the items of the spec are adjusted while being verified)
+            is_rule_enabled, batch_spec, start_time = rule.is_true({
+                key: value.copy() if isinstance(value, list) else value for key, value in spec.items()
+            })
 
-            # fast exit if one of the rule is true
-            if is_batched_task_enabled:
-                return is_batched_task_enabled, batch_spec, start_time
+            if is_rule_enabled and (earliest is None or start_time < earliest[2]):
+                earliest = is_rule_enabled, batch_spec, start_time
+
+        # the batch is executed by the rule which was satisfied first
+        if earliest is not None:
+            return earliest
 
         # no enabled batches, check whether rule is invalid
         # if yes, batch is triggered straight away
-- 
2.43.0


From e0bb9803d7f9f5e37481b0d5dadf5ff774427004 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 71/76] fix: at the end, a batch of a week_day rule with an
 upper limit of daily_hour fired after that limit

---
 prosimos/batch_processing.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 36bec6f..4bb00dd 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -840,7 +840,9 @@ class AndFiringRule():
             if subrule.variable1 == "size":
                 expected_enabled_time.append(last_task_enabled_time.datetime)
             elif subrule.variable1 == "week_day":
-                en_time = subrule._get_min_enabled_time_week_day(last_task_enabled_time)
+                en_time = subrule._get_min_enabled_time_week_day(
+                    self._skip_day_if_over(last_task_enabled_time)
+                )
                 expected_enabled_time.append(en_time)
                 week_day_date = en_time.date()
             elif subrule.variable1 == "daily_hour":
@@ -869,6 +871,23 @@ class AndFiringRule():
         return expected_enabled_time
 
 
+    def _skip_day_if_over(self, from_time: CustomDatetimeAndSeconds):
+        """ The next midnight when the upper limit of the daily_hour has passed on that day """
+        is_over = any(
+            rule.variable1 == RULE_TYPE.DAILY_HOUR.value
+            and rule.operator in ['<', '<=']
+            and from_time.datetime.time() > rule.value2
+            for rule in self.rules
+        )
+        if not is_over:
+            return from_time
+
+        next_midnight = datetime.combine(
+            from_time.datetime.date() + timedelta(days=1), time(0, 0, 0), from_time.datetime.tzinfo
+        )
+        return CustomDatetimeAndSeconds(from_time.seconds_from_start, next_midnight)
+
+
     def is_invalid(self, first_item_wt):
         """
         Verify whether the rule is invalid in the middle of simulation
-- 
2.43.0


From ad5f90bcfa85da5d656372bd786719b35b4148c1 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 72/76] fix: at the end, a batch was fired at once when one of
 its alternative rules could not be satisfied anymore

---
 prosimos/batch_processing.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 4bb00dd..d76cc9b 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -998,15 +998,10 @@ class OrFiringRule():
         :return: whether the rule is invalid
         :rtype: boolean
         """
-        is_invalid = False
-        
-        for and_rule in self.rules:
-            is_invalid = and_rule.is_invalid_end(num_tasks, first_wt, ready_wt)
-
-            if is_invalid:
-                return True
-
-        return is_invalid
+        # the batch can be fired as long as one of the alternatives can be satisfied
+        return len(self.rules) > 0 and all(
+            and_rule.is_invalid_end(num_tasks, first_wt, ready_wt) for and_rule in self.rules
+        )
     
 
     def get_enabled_time(self, waiting_times, last_task_enabled_time: CustomDatetimeAndSeconds):
@@ -1024,8 +1019,16 @@ class OrFiringRule():
             # not a batch, less than two items in the queue
             return None
 
+        last_datetime = last_task_enabled_time.datetime
+        first_wt = (last_datetime - waiting_times[0][1].datetime).total_seconds()
+        last_wt = (last_datetime - waiting_times[-1][1].datetime).total_seconds()
+
         enabled_times_per_or_rule = []
         for rule in self.rules:
+            if len(self.rules) > 1 and rule.is_invalid_end(len(waiting_times), first_wt, last_wt):
+                # cannot be satisfied anymore, one of the other alternatives might be
+                continue
+
             per_rule = rule.get_enabled_time(waiting_times, last_task_enabled_time)
             if len(per_rule) > 0:
                 # find the max time 
-- 
2.43.0


From 28807013b94b32d0b54273704cdffa307efdb9af Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 73/76] fix: a batch of a rule with both limits of daily_hour
 took two tasks only of those waiting at the lower limit

---
 prosimos/batch_processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index d76cc9b..eb788be 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -783,6 +783,10 @@ class AndFiringRule():
                     break
                 is_time_forced = True
             elif subrule.variable1 == "daily_hour":
+                if subrule.operator in ['<', '<='] and self._has_daily_hour_lower_limit():
+                    # both limits are verified by the other subrule
+                    continue
+
                 only_one_date = False
                 if is_time_forced:
                     element["curr_enabled_at"] = enabled_time
-- 
2.43.0


From ec9d4c2a9008a2bbb256714fd45ce86daf529182 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 74/76] fix: at the end, a single task waiting for a batch with
 alternative rules did not wait for the one that admits it

---
 prosimos/batch_processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index eb788be..d8fd9e0 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -1029,7 +1029,10 @@ class OrFiringRule():
 
         enabled_times_per_or_rule = []
         for rule in self.rules:
-            if len(self.rules) > 1 and rule.is_invalid_end(len(waiting_times), first_wt, last_wt):
+            if len(self.rules) > 1 and (
+                not rule.is_batch_size_enough_for_exec(len(waiting_times))
+                or rule.is_invalid_end(len(waiting_times), first_wt, last_wt)
+            ):
                 # cannot be satisfied anymore, one of the other alternatives might be
                 continue
 
-- 
2.43.0


From 58e5be0bd3467e05ec77d055c4df022d66c9b561 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 75/76] fix: a batch of a week_day rule missed its day when
 nothing happened for a week

---
 prosimos/batch_processing.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index d8fd9e0..811b092 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -181,12 +181,20 @@ class FiringSubRule():
         return nearest_enabled_datetime
 
 
-    def get_batch_size_relative_time(self, element, min_size=2, is_combined=False):
+    def get_batch_size_relative_time(self, element, min_size=2, is_combined=False, latest_time=time.max):
         curr_enabled_at = element["curr_enabled_at"]
         rule_value_str = self.value2.upper()
   
         enabled_times = element["enabled_datetimes"].copy()
         rule_nearest_past_day = get_nearest_past_day(rule_value_str, curr_enabled_at)
+        if len(enabled_times) >= min_size:
+            # nothing might have happened for weeks:
+            # find the first of the past days on which there were enough tasks
+            one_week_delta = timedelta(days=7)
+            while enabled_times[min_size - 1] <= datetime.combine(
+                (rule_nearest_past_day - one_week_delta).date(), latest_time, curr_enabled_at.tzinfo
+            ):
+                rule_nearest_past_day -= one_week_delta
             
         boundary_day = datetime(rule_nearest_past_day.year, rule_nearest_past_day.month, rule_nearest_past_day.day, \
                         0, 0, 0, rule_nearest_past_day.microsecond, rule_nearest_past_day.tzinfo)
@@ -218,10 +226,6 @@ class FiringSubRule():
             boundary_day = curr_enabled_at
             op = operator.le
         else:
-            rule_nearest_past_day = get_nearest_past_day(rule_value_str, curr_enabled_at)
-                
-            boundary_day = datetime(rule_nearest_past_day.year, rule_nearest_past_day.month, rule_nearest_past_day.day, \
-                            0, 0, 0, rule_nearest_past_day.microsecond, rule_nearest_past_day.tzinfo)
             op = operator.lt
 
         enabled_times = element["enabled_datetimes"].copy()
@@ -419,6 +423,13 @@ class AndFiringRule():
     def _has_daily_hour_lower_limit(self):
         return any(rule.variable1 == RULE_TYPE.DAILY_HOUR.value and rule.operator in ['>', '>='] for rule in self.rules)
 
+    def _get_latest_time_of_day(self):
+        return min(
+            (rule.value2 for rule in self.rules
+                if rule.variable1 == RULE_TYPE.DAILY_HOUR.value and rule.operator in ['<', '<=']),
+            default=time.max
+        )
+
     def _init_daily_hour_range_if_any(self):
         rule_type: RULE_TYPE = RULE_TYPE.DAILY_HOUR
         if not self._has_rule([rule_type]):
@@ -777,7 +788,9 @@ class AndFiringRule():
                 return batch_size, enabled_time
             
             elif subrule.variable1 == "week_day":
-                curr_size, enabled_time = subrule.get_batch_size_relative_time(element, min_size, len(self.rules) > 1)
+                curr_size, enabled_time = subrule.get_batch_size_relative_time(
+                    element, min_size, len(self.rules) > 1, self._get_latest_time_of_day()
+                )
                 if curr_size < min_size:
                     batch_size = 0
                     break
-- 
2.43.0


From 580aa04dded02cb6629260fb1cdb2f0ca89c0885 Mon Sep 17 00:00:00 2001
From: verifier <verifier@localhost>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 76/76] fix: a batch of a week_day rule with an exact
 daily_hour fired at another time

---
 prosimos/batch_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 811b092..bf51c7f 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -426,7 +426,7 @@ class AndFiringRule():
     def _get_latest_time_of_day(self):
         return min(
             (rule.value2 for rule in self.rules
-                if rule.variable1 == RULE_TYPE.DAILY_HOUR.value and rule.operator in ['<', '<=']),
+                if rule.variable1 == RULE_TYPE.DAILY_HOUR.value and rule.operator in ['<', '<=', '=']),
             default=time.max
         )
 
@@ -892,7 +892,7 @@ class AndFiringRule():
         """ The next midnight when the upper limit of the daily_hour has passed on that day """
         is_over = any(
             rule.variable1 == RULE_TYPE.DAILY_HOUR.value
-            and rule.operator in ['<', '<=']
+            and rule.operator in ['<', '<=', '=']
             and from_time.datetime.time() > rule.value2
             for rule in self.rules
         )
-- 
2.43.0

