From 8e52c80df7fe29250dc8ac43d1142e4f83a606d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 01/26] fix: incidence and consumption matrices take arc
 weights into account

---
 pm4py/objects/petri_net/utils/consumption_matrix.py | 7 ++-----
 pm4py/objects/petri_net/utils/incidence_matrix.py   | 4 ++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/consumption_matrix.py b/pm4py/objects/petri_net/utils/consumption_matrix.py
index 98386d3..466280a 100644
--- a/pm4py/objects/petri_net/utils/consumption_matrix.py
+++ b/pm4py/objects/petri_net/utils/consumption_matrix.py
@@ -60,13 +60,10 @@ class ConsumptionMatrix(object):
         net
             Petri net
         """
-        inv_indices = {y: x for x, y in self.__transition_indices.items()}
-        inv_indices = [inv_indices[i] for i in range(len(inv_indices))]
         self.__C = [[0 for i in range(len(self.__transition_indices))] for j in range(len(self.__place_indices))]
         for p in net.places:
-            outgoing_trans = [a.target for a in p.out_arcs]
-            self.__C[self.__place_indices[p]] = [-1 if inv_indices[i] in outgoing_trans else 0 for i in
-                                                 range(len(inv_indices))]
+            for a in p.out_arcs:
+                self.__C[self.__place_indices[p]][self.__transition_indices[a.target]] -= a.weight
 
     def __get_transition_indices(self) -> Dict[PetriNet.Transition, int]:
         """
diff --git a/pm4py/objects/petri_net/utils/incidence_matrix.py b/pm4py/objects/petri_net/utils/incidence_matrix.py
index 746950e..a804b4f 100644
--- a/pm4py/objects/petri_net/utils/incidence_matrix.py
+++ b/pm4py/objects/petri_net/utils/incidence_matrix.py
@@ -47,9 +47,9 @@ class IncidenceMatrix(object):
         a_matrix = [[0 for i in range(len(t_index))] for j in range(len(p_index))]
         for p in net.places:
             for a in p.in_arcs:
-                a_matrix[p_index[p]][t_index[a.source]] += 1
+                a_matrix[p_index[p]][t_index[a.source]] += a.weight
             for a in p.out_arcs:
-                a_matrix[p_index[p]][t_index[a.target]] -= 1
+                a_matrix[p_index[p]][t_index[a.target]] -= a.weight
         return a_matrix, p_index, t_index
 
     a_matrix = property(__get_a_matrix)
-- 
2.43.0


From b2320caa07d6faba94f4126a3bd2169123d6f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 02/26] fix: place invariants take arc weights into account

---
 .../algo/analysis/woflan/place_invariants/place_invariants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py b/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
index d730416..b7abbb7 100644
--- a/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
+++ b/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
@@ -41,10 +41,10 @@ def compute_place_invariants(net):
             t = transition_list[i]
             for in_arc in t.in_arcs:
                 # arcs that go to transition
-                C[place_list.index(in_arc.source), i] -= 1
+                C[place_list.index(in_arc.source), i] -= in_arc.weight
             for out_arc in t.out_arcs:
                 # arcs that lead away from transition
-                C[place_list.index(out_arc.target), i] += 1
+                C[place_list.index(out_arc.target), i] += out_arc.weight
             i += 1
         return C
 
-- 
2.43.0


From 913703f98a69acf72159923f249a6f91e6d5a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 03/26] fix: woflan marking vectors list the number of tokens
 of each place

---
 pm4py/algo/analysis/woflan/graphs/utility.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/graphs/utility.py b/pm4py/algo/analysis/woflan/graphs/utility.py
index ffb42bb..694fb1d 100644
--- a/pm4py/algo/analysis/woflan/graphs/utility.py
+++ b/pm4py/algo/analysis/woflan/graphs/utility.py
@@ -90,14 +90,13 @@ def convert_marking(net, marking, original_net=None):
     """
     #marking_list=list(el.name for el in marking.keys())
     #
-    marking_list = sorted([el.name for el in marking.keys()])
+    tokens = {el.name: count for el, count in marking.items()}
     place_list = sorted(list(el.name for el in net.places))
 
     mark = np.zeros(len(place_list))
     for index, value in enumerate(mark):
-        if place_list[index] in marking_list:
-            #TODO: Is setting the value to 1 ok in this case?
-            mark[index]=1
+        if place_list[index] in tokens:
+            mark[index] = tokens[place_list[index]]
     return mark
 
 def check_for_dead_tasks(net, graph):
-- 
2.43.0


From a7fdc7f9f95943133f68f59b67ef7ba17ef26d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 04/26] fix: typed directly-follows discovery counts the first
 pair of every case

---
 pm4py/algo/discovery/dfg/variants/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/variants/clean.py b/pm4py/algo/discovery/dfg/variants/clean.py
index 2c99756..d33d191 100644
--- a/pm4py/algo/discovery/dfg/variants/clean.py
+++ b/pm4py/algo/discovery/dfg/variants/clean.py
@@ -56,7 +56,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[str, Any]] = None) -> DFG
 
     starters = df[(df[aux_act_start] == CONST_PROCESS_START)]
     borders = df[(df[aux_act_end] == CONST_PROCESS_END)]
-    connections = df[((df[aux_act_start] != CONST_PROCESS_START) & (df[aux_act_end] != CONST_PROCESS_END))]
+    connections = df[(df[aux_act_end] != CONST_PROCESS_END)]
 
     dfg = DFG()
 
-- 
2.43.0


From e0156ae84b51d1320ca85fcf753ba363bae69ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 05/26] fix: rework per case on a table honours the case
 identifier column

---
 pm4py/statistics/rework/cases/pandas/get.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/rework/cases/pandas/get.py b/pm4py/statistics/rework/cases/pandas/get.py
index 01bee63..c19acce 100644
--- a/pm4py/statistics/rework/cases/pandas/get.py
+++ b/pm4py/statistics/rework/cases/pandas/get.py
@@ -57,6 +57,6 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     grouped_df = df.groupby(case_id_key)[activity_key].agg(["count", "nunique"]).reset_index().to_dict("records")
     rework_cases = {}
     for el in grouped_df:
-        rework_cases[el["case:concept:name"]] = {"number_activities": el["count"], "rework": el["count"] - el["nunique"]}
+        rework_cases[el[case_id_key]] = {"number_activities": el["count"], "rework": el["count"] - el["nunique"]}
 
     return rework_cases
-- 
2.43.0


From d6f8992da815b0529658df33ca55ee1219a0a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 06/26] fix: minimum self-distance witnesses compute missing
 distances with the given parameters

---
 pm4py/algo/discovery/minimum_self_distance/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/minimum_self_distance/utils.py b/pm4py/algo/discovery/minimum_self_distance/utils.py
index caf1d2e..809ca28 100644
--- a/pm4py/algo/discovery/minimum_self_distance/utils.py
+++ b/pm4py/algo/discovery/minimum_self_distance/utils.py
@@ -56,7 +56,7 @@ def derive_msd_witnesses(log: EventLog, msd: Optional[Dict[Any, int]] = None,
     act_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters,
                                          xes_constants.DEFAULT_NAME_KEY)
     alphabet = pm4py.get_event_attribute_values(log, act_key)
-    msd = msd if msd is not None else msd_algo.apply(log, parameters)
+    msd = msd if msd is not None else msd_algo.apply(log, parameters=parameters)
     log = list(map(lambda t: list(map(lambda e: e[act_key], t)), log))
     witnesses = dict()
     for a in alphabet:
-- 
2.43.0


From 188bc732da7ca188887c75c2e88fd5f4feaba23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 07/26] fix: minimum self-distance witnesses honour the given
 activity and case columns

---
 pm4py/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/stats.py b/pm4py/stats.py
index 2644415..365971f 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -468,7 +468,8 @@ def get_minimum_self_distance_witnesses(log: Union[EventLog, pd.DataFrame], acti
 
     from pm4py.algo.discovery.minimum_self_distance import algorithm as msd_algo
     from pm4py.algo.discovery.minimum_self_distance import utils as msdw_algo
-    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)))
+    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=properties), parameters=properties)
 
 
 def get_case_arrival_average(log: Union[EventLog, pd.DataFrame], activity_key: str = "concept:name", timestamp_key: str = "time:timestamp", case_id_key: str = "case:concept:name") -> float:
-- 
2.43.0


From ec3ebfea7aa197e61683fb380d3a237f83bddf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 08/26] fix: order the event table before extracting its
 variants

---
 pm4py/objects/log/util/pandas_numpy_variants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/pandas_numpy_variants.py b/pm4py/objects/log/util/pandas_numpy_variants.py
index b0dc973..0cc0980 100644
--- a/pm4py/objects/log/util/pandas_numpy_variants.py
+++ b/pm4py/objects/log/util/pandas_numpy_variants.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
     if not (hasattr(dataframe, "attrs") and dataframe.attrs):
         # dataframe has not been initialized through format_dataframe
         dataframe = pandas_utils.insert_index(dataframe, index_key)
-        dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
     case_variant = dict()
 
-- 
2.43.0


From 42b06f6133c8278f6d43a3752cfa596cd7d2f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 09/26] fix: the farthest string is picked also if all strings
 are equal to the given one

---
 pm4py/util/string_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/util/string_distance.py b/pm4py/util/string_distance.py
index 9217e65..51726a9 100644
--- a/pm4py/util/string_distance.py
+++ b/pm4py/util/string_distance.py
@@ -109,7 +109,7 @@ def argmax_levenshtein(stru: str, list_stri: List[str]) -> Union[str, None]:
     if list_stri:
         len_stru = len(stru)
         argmax_dist = None
-        max_edit_dist = 0
+        max_edit_dist = -1
         # sort the strings in the list based on the actual length in comparison
         # to the provided string
         list_stri = sorted(list_stri, key=lambda x: -len(x))
-- 
2.43.0


From 74d369e9d625cdef9d65601a24acb7ce3e7b01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 10/26] fix: a binary relation keeps its own list of nodes

---
 pm4py/objects/powl/BinaryRelation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/powl/BinaryRelation.py b/pm4py/objects/powl/BinaryRelation.py
index 2e6bc4d..67f73e8 100644
--- a/pm4py/objects/powl/BinaryRelation.py
+++ b/pm4py/objects/powl/BinaryRelation.py
@@ -35,7 +35,7 @@ class BinaryRelation:
         return self._nodes
 
     def _set_nodes(self, nodes: TList[T]) -> None:
-        self._nodes = nodes
+        self._nodes = list(nodes)
         self._map_node_to_id = {}
         self._map_id_to_node = {}
         n = 0
-- 
2.43.0


From 88ad3625bdd56f46427ec1909410e6d67aec2e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:41 +0000
Subject: [PATCH 11/26] fix: filter on paths of a table compares pairs of
 activities, not joined strings

---
 pm4py/algo/filtering/pandas/paths/paths_filter.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/paths/paths_filter.py b/pm4py/algo/filtering/pandas/paths/paths_filter.py
index b61e0bc..984cbad 100644
--- a/pm4py/algo/filtering/pandas/paths/paths_filter.py
+++ b/pm4py/algo/filtering/pandas/paths/paths_filter.py
@@ -20,7 +20,6 @@ from pm4py.util.xes_constants import DEFAULT_TIMESTAMP_KEY
 from pm4py.util.constants import PARAMETER_CONSTANT_ATTRIBUTE_KEY
 from pm4py.util.constants import PARAMETER_CONSTANT_CASEID_KEY
 from pm4py.util.constants import PARAMETER_CONSTANT_TIMESTAMP_KEY
-from pm4py.util.constants import DEFAULT_VARIANT_SEP
 from enum import Enum
 from pm4py.util import exec_utils, pandas_utils
 from copy import copy
@@ -69,14 +68,14 @@ def apply(df: pd.DataFrame, paths: List[Tuple[str, str]], parameters: Optional[D
     target_attribute_key = exec_utils.get_param_value(Parameters.TARGET_ATTRIBUTE_KEY, parameters, attribute_key)
 
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    paths = [path[0] + DEFAULT_VARIANT_SEP + path[1] for path in paths]
+    paths = [(path[0], path[1]) for path in paths]
     df = df.sort_values([case_id_glue, timestamp_key])
     filt_df = df[list({case_id_glue, attribute_key, target_attribute_key})]
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
     stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
-    stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[target_attribute_key + "_2"]
+    stacked_df["@@path"] = list(zip(stacked_df[attribute_key], stacked_df[target_attribute_key + "_2"]))
     stacked_df = stacked_df[stacked_df["@@path"].isin(paths)]
     i1 = df.set_index(case_id_glue).index
     i2 = stacked_df.set_index(case_id_glue).index
@@ -121,7 +120,6 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     attribute_key = exec_utils.get_param_value(Parameters.ATTRIBUTE_KEY, parameters, DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    provided_path = provided_path[0] + DEFAULT_VARIANT_SEP + provided_path[1]
     min_performance = exec_utils.get_param_value(Parameters.MIN_PERFORMANCE, parameters, 0)
     max_performance = exec_utils.get_param_value(Parameters.MAX_PERFORMANCE, parameters, sys.maxsize)
     df = df.sort_values([case_id_glue, timestamp_key])
@@ -129,8 +127,7 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
-    stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[attribute_key + "_2"]
-    stacked_df = stacked_df[stacked_df["@@path"] == provided_path]
+    stacked_df = stacked_df[(stacked_df[attribute_key] == provided_path[0]) & (stacked_df[attribute_key + "_2"] == provided_path[1])]
     stacked_df["@@timedelta"] = pandas_utils.get_total_seconds(stacked_df[timestamp_key + "_2"] - stacked_df[timestamp_key])
     stacked_df = stacked_df[stacked_df["@@timedelta"] >= min_performance]
     stacked_df = stacked_df[stacked_df["@@timedelta"] <= max_performance]
-- 
2.43.0


From a6416ee4b04b765c4cdc97915ba27e24c1d2257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:41 +0000
Subject: [PATCH 12/26] fix: path performance filter on a table considers only
 paths inside a case

---
 pm4py/algo/filtering/pandas/paths/paths_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/algo/filtering/pandas/paths/paths_filter.py b/pm4py/algo/filtering/pandas/paths/paths_filter.py
index 984cbad..fdebe9a 100644
--- a/pm4py/algo/filtering/pandas/paths/paths_filter.py
+++ b/pm4py/algo/filtering/pandas/paths/paths_filter.py
@@ -127,6 +127,7 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
+    stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + "_2"]]
     stacked_df = stacked_df[(stacked_df[attribute_key] == provided_path[0]) & (stacked_df[attribute_key + "_2"] == provided_path[1])]
     stacked_df["@@timedelta"] = pandas_utils.get_total_seconds(stacked_df[timestamp_key + "_2"] - stacked_df[timestamp_key])
     stacked_df = stacked_df[stacked_df["@@timedelta"] >= min_performance]
-- 
2.43.0


From 1e1d515b8250f050cf1ce39292e4b1f5daa9ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:23 +0000
Subject: [PATCH 13/26] fix: always-after and always-before count occurrences,
 not pairs

---
 pm4py/algo/discovery/log_skeleton/trace_skel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index f9dd74a..5e4f0d2 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -55,7 +55,8 @@ def after(trace):
     rel
         After- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j > i)
+    # every occurrence of an activity counts once per activity occurring later
+    return list((trace[i], x) for i in range(len(trace)) for x in set(trace[i + 1:]))
 
 
 def before(trace):
@@ -72,7 +73,8 @@ def before(trace):
     rel
         Before- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j < i)
+    # every occurrence of an activity counts once per activity occurring earlier
+    return list((trace[i], x) for i in range(len(trace)) for x in set(trace[:i]))
 
 
 def combos(trace):
-- 
2.43.0


From 902b4381f08d8651d4ec2a0d41156be6c4f2d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 14/26] fix: the start timestamp defaults to the chosen
 timestamp in performance DFG and temporal profile

---
 pm4py/algo/conformance/temporal_profile/variants/log.py | 3 +--
 pm4py/algo/discovery/dfg/variants/performance.py        | 3 +--
 pm4py/algo/discovery/temporal_profile/variants/log.py   | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/log.py b/pm4py/algo/conformance/temporal_profile/variants/log.py
index c10224c..284db41 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/log.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/log.py
@@ -89,8 +89,7 @@ def apply(log: EventLog, temporal_profile: typing.TemporalProfile,
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
 
     ret = []
diff --git a/pm4py/algo/discovery/dfg/variants/performance.py b/pm4py/algo/discovery/dfg/variants/performance.py
index c25981a..d38cc71 100644
--- a/pm4py/algo/discovery/dfg/variants/performance.py
+++ b/pm4py/algo/discovery/dfg/variants/performance.py
@@ -73,9 +73,8 @@ def performance(log: Union[EventLog, EventStream], parameters: Optional[Dict[Uni
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_util.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_util.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_util.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE, parameters, "mean")
 
     business_hours = exec_utils.get_param_value(Parameters.BUSINESS_HOURS, parameters, False)
diff --git a/pm4py/algo/discovery/temporal_profile/variants/log.py b/pm4py/algo/discovery/temporal_profile/variants/log.py
index 4bf2524..f4bc824 100644
--- a/pm4py/algo/discovery/temporal_profile/variants/log.py
+++ b/pm4py/algo/discovery/temporal_profile/variants/log.py
@@ -79,8 +79,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Any, Any]] = None) -> typing.
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     diff_time_recordings = {}
 
-- 
2.43.0


From e269021326a8d44eafac0e1fb4e97dce89d0b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 15/26] fix: the performance DFG of a table with start
 timestamps considers non-negative times only

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 795370c..7503369 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -71,7 +71,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
         if start_timestamp_key not in df.columns:
             df[start_timestamp_key] = df[timestamp_key]
-        st_eq_ct = True
+            st_eq_ct = True
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
     # columns
-- 
2.43.0


From cc762a40573e89563a83f32c344dfb53cb3da26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:42 +0000
Subject: [PATCH 16/26] fix: performance statistics of a table do not add a
 start timestamp column to it

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 7503369..923bf1d 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -70,6 +70,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
         if start_timestamp_key not in df.columns:
+            df = df.copy()
             df[start_timestamp_key] = df[timestamp_key]
             st_eq_ct = True
 
@@ -210,6 +211,7 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
 
     if start_timestamp_key not in df:
+        df = df.copy()
         df[start_timestamp_key] = df[timestamp_key]
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
@@ -293,6 +295,7 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     # to avoid retro-compatibility problems
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
+        df = df.copy()
         df[start_timestamp_key] = df[timestamp_key]
 
     # to get rows belonging to same case ID together, we need to sort on case ID
-- 
2.43.0


From 0d363944458c804f8463227eb9bd2bb4ecb48c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:23 +0000
Subject: [PATCH 17/26] fix: token-based replay adds to a place exactly the
 tokens it counts as missing

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 9fac2b7..0cd102c 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -93,7 +93,7 @@ def add_missing_tokens(t, marking):
         if marking[a.source] < a.weight:
             missing = missing + (a.weight - marking[a.source])
             tokens_added[a.source] = a.weight - marking[a.source]
-            marking[a.source] = marking[a.source] + a.weight
+            marking[a.source] = a.weight
     return [missing, tokens_added]
 
 
-- 
2.43.0


From 6cab0379e95796a81c27d9852b27c526f5828756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:23 +0000
Subject: [PATCH 18/26] fix: token-based replay does not report a trace as
 fitting that lacks tokens of the final marking

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 0cd102c..72bc310 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -681,7 +681,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
         remaining = remaining + current_remaining_map[p]
 
     if consider_remaining_in_fitness:
-        is_fit = (missing == 0) and (remaining == 0)
+        is_fit = (missing == 0) and (remaining == 0) and not diff_fin_mark_mark
     else:
         is_fit = (missing == 0)
 
-- 
2.43.0


From b0b460fcf310414f40f644c06f5204669b5abb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:23 +0000
Subject: [PATCH 19/26] fix: token-based replay judges a trace by its own
 unknown activities, not by those of the traces before

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 72bc310..2e0fdcb 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -685,7 +685,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
     else:
         is_fit = (missing == 0)
 
-    if consider_activities_not_in_model_in_fitness and notexisting_activities_in_model:
+    if consider_activities_not_in_model_in_fitness and any(event[activity_key] not in trans_map for event in trace):
         is_fit = False
 
     # separate global counts from local statistics in the case these are not enabled by the options
-- 
2.43.0


From 846be32392b6179dd564821c69782e67956997cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:05 +0000
Subject: [PATCH 20/26] fix: objects without interactions form connected
 components of their own in the OCEL component filters

---
 pm4py/filtering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index 7b49ce3..39b2d0b 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1187,6 +1187,7 @@ def filter_ocel_cc_length(ocel: OCEL, min_cc_length: int, max_cc_length: int) ->
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column].to_numpy().tolist())
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
@@ -1227,6 +1228,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column].to_numpy().tolist())
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
@@ -1265,6 +1267,7 @@ def filter_ocel_cc_activity(ocel: OCEL, activity: str) -> OCEL:
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column].to_numpy().tolist())
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
-- 
2.43.0


From 7ab828c7598fed86de1a9a34cc19ed900c99b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:15 +0000
Subject: [PATCH 21/26] fix: filter_ocel_cc_otype with positive=False discards
 the components with the object type

---
 pm4py/filtering.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index 39b2d0b..520b6d9 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1219,10 +1219,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
         ocel = pm4py.read_ocel('log.jsonocel')
         filtered_ocel = pm4py.filter_ocel_cc_otype(ocel, 'order')
     """
-    if positive:
-        objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
-    else:
-        objs = set(ocel.objects[~(ocel.objects[ocel.object_type_column] == otype)][ocel.object_id_column])
+    objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
 
     from pm4py.algo.transformation.ocel.graphs import object_interaction_graph
 
@@ -1238,7 +1235,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
 
     objs = [y for x in conn_comp for y in x]
 
-    return filter_ocel_objects(ocel, objs)
+    return filter_ocel_objects(ocel, objs, positive=positive)
 
 
 def filter_ocel_cc_activity(ocel: OCEL, activity: str) -> OCEL:
-- 
2.43.0


From f4837f8a61dbd7a40e1b6e0c07e59a2a3870c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:31 +0000
Subject: [PATCH 22/26] fix: the synchronous product keeps the weights of the
 arcs

---
 .../petri_net/utils/synchronous_product.py    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/synchronous_product.py b/pm4py/objects/petri_net/utils/synchronous_product.py
index 67d3a6f..7de7385 100644
--- a/pm4py/objects/petri_net/utils/synchronous_product.py
+++ b/pm4py/objects/petri_net/utils/synchronous_product.py
@@ -51,13 +51,13 @@ def construct(pn1, im1, fm1, pn2, im2, fm2, skip):
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -119,13 +119,13 @@ def construct_cost_aware(pn1, im1, fm1, pn2, im2, fm2, skip, pn1_costs, pn2_cost
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -166,8 +166,8 @@ def __copy_into(source_net, target_net, upper, skip):
 
     for t in source_net.transitions:
         for a in t.in_arcs:
-            add_arc_from_to(p_map[a.source], t_map[t], target_net)
+            add_arc_from_to(p_map[a.source], t_map[t], target_net, weight=a.weight)
         for a in t.out_arcs:
-            add_arc_from_to(t_map[t], p_map[a.target], target_net)
+            add_arc_from_to(t_map[t], p_map[a.target], target_net, weight=a.weight)
 
     return t_map, p_map
-- 
2.43.0


From c115255a9d8e776862cb0e1d65a3df22c7d7e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:28 +0000
Subject: [PATCH 23/26] fix: Dijkstra alignments with less memory do not
 discard the states that lead to a cheaper alignment

---
 .../petri_net/variants/dijkstra_less_memory.py         | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index c457ab3..0a76c37 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -476,9 +476,7 @@ def __check_closed(closed, ns):
     bool
         Boolean (true if the state is closed)
     """
-    if ns[0] in closed and closed[ns[0]] <= ns[1]:
-        return True
-    return False
+    return ns in closed
 
 
 def __add_closed(closed, ns):
@@ -492,7 +490,7 @@ def __add_closed(closed, ns):
     ns
         New state (marking, index)
     """
-    closed[ns[0]] = ns[1]
+    closed.add(ns)
 
 
 def __add_to_open_set(open_set, ns):
@@ -593,7 +591,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
     open_set = [initial_state]
     heapq.heapify(open_set)
 
-    closed = {}
+    closed = set()
     dummy_count = 0
     visited = 0
 
@@ -640,8 +638,6 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
-                # if a sync move reached new_m, do not schedule any model move that reaches new_m
-                this_closed.add(new_m)
                 del en_t[j]
                 continue
             j = j + 1
-- 
2.43.0


From e1722db66053773aabedc2505a01a555d1224e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:28 +0000
Subject: [PATCH 24/26] fix: the fitness of Dijkstra alignments with less
 memory accounts for the costs of the events of the trace

---
 .../alignments/petri_net/variants/dijkstra_less_memory.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index 0a76c37..a456bc8 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -298,7 +298,9 @@ def __transform_trace_to_mem_efficient_structure(trace, model_struct, parameters
 
     trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
     if trace_cost_function is None:
-        trace_cost_function = {i: align_utils.STD_MODEL_LOG_MOVE_COST for i in range(len(trace))}
+        trace_cost_function = [align_utils.STD_MODEL_LOG_MOVE_COST] * len(trace)
+        # the fitness is computed from the costs of the events
+        parameters[Parameters.PARAM_TRACE_COST_FUNCTION] = trace_cost_function
 
     labels = sorted(list(set(x[activity_key] for x in trace)))
     labels_dict = copy(model_struct[LABELS_DICT])
-- 
2.43.0


From 43966e181da0bf8dc0c93591bd58727ab0c71f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:47 +0000
Subject: [PATCH 25/26] fix: an empty trace that the model can produce without
 visible moves has alignment fitness 1

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 43cb8a9..88d14b2 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -158,7 +158,8 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
 
             fitness_num = ali['cost'] // align_utils.STD_MODEL_LOG_MOVE_COST
             fitness_den = ltrace_bwc // align_utils.STD_MODEL_LOG_MOVE_COST
-            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else 0
+            # an empty trace which the model can produce without visible moves has nothing that could deviate
+            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else int(len(trace) == 0)
 
             ali["fitness"] = fitness
             # returning also the best worst cost, for log fitness computation
-- 
2.43.0


From fb5af07604a62029637aa7dcf47672f559e180fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:08 +0000
Subject: [PATCH 26/26] fix: tweaked A* alignments are runs to the final
 marking with the reported cost, and dead ends are skipped

---
 .../variants/tweaked_state_equation_a_star.py | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index d9c2804..edfdf9e 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -408,7 +408,7 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
 
     # try to see if the firing sequence is already fine
     firing_sequence, reach_fm, explained_events = me.get_firing_sequence(x)
-    if reach_fm:
+    if reach_fm and __is_run_of_cost(firing_sequence, ini, fin, cost_function, h):
         return __reconstruct_alignment(firing_sequence, h, visited, queued, traversed,
                                        ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
     mm, index = __get_model_marking_and_index(ini)
@@ -445,6 +445,11 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             else:
                 mtcgt = mtcgt_dict[curr.t]
 
+            if mtcgt is None:
+                # no run through the transition reaches the final marking
+                closed.add(current_marking)
+                continue
+
             h1 = max(mtcgt - curr.g, 0)
             if h1 > curr.h:
                 tp = utils.TweakedSearchTuple(curr.g + h1, curr.g, h1, curr.m, curr.p, curr.t, curr.x, False, False)
@@ -462,6 +467,10 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
 
             me.change_ini_vec(curr.m)
             h, x = me.solve()
+            if h is None:
+                # the final marking cannot be reached
+                closed.add(current_marking)
+                continue
 
             __update_heu_dict_specific_point(heu_dict, heu_max_ind_dict, mm, index, h, x)
 
@@ -481,13 +490,14 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
 
         if curr.virgin:
             # try to see if the firing sequence is already fine
+            me.change_ini_vec(curr.m)
             firing_sequence, reach_fm, explained_events = me.get_firing_sequence(curr.x)
-            if reach_fm:
+            if reach_fm and __is_run_of_cost(firing_sequence, curr.m, fin, cost_function, curr.h):
                 trans_list = __transitions_list_from_state(curr) + list(firing_sequence)
                 return __reconstruct_alignment(trans_list, curr.f, visited, queued, traversed,
                                                ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
             mm, index = __get_model_marking_and_index(curr.m)
-            __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, h, x, firing_sequence, incidence_matrix, cost_vec)
+            __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, curr.h, curr.x, firing_sequence, incidence_matrix, cost_vec)
 
         closed.add(current_marking)
         visited += 1
@@ -528,6 +538,18 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             heapq.heappush(open_set, tp)
 
 
+def __is_run_of_cost(firing_sequence, ini, fin, cost_function, cost):
+    """
+    Checks that the firing sequence leads from the initial to the final marking, with the given cost
+    """
+    marking = ini
+    for t in firing_sequence:
+        if not t.sub_marking <= marking:
+            return False
+        marking = utils.add_markings(marking, t.add_marking)
+    return marking == fin and sum(cost_function[t] for t in firing_sequence) == cost
+
+
 def __min_total_cost_given_trans(mark_eq, ini, incidence_matrix, t):
     """
     Searches the minimum total cost assumed by the marking equation
-- 
2.43.0

