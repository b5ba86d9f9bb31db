#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Petri net firing follows the token game",
 "For every weighted net and marking, a transition is enabled exactly when it belongs to the net and every input place holds at least as many tokens as its input arc's weight (for an inhibitor arc: the place is empty), and the enabled set is exactly those transitions. "
 "Firing an enabled transition returns a new marking equal to the old one minus the input weights (a reset arc empties its place) plus the output weights (the classic and the inhibitor/reset semantics keep no zero entries), and leaves the given marking unchanged; firing a disabled transition returns nothing.",
 ["inputs", "histories"], "Every net (any number of places, transitions, weighted arcs; at most one arc per ordered node pair), every marking with non-negative counts, every transition, every firing sequence; plain and inhibitor/reset nets.",
 "Tests fire a handful of transitions on fixed example nets with weight-1 arcs; weights, self-loops, partial markings and firing of disabled transitions are not sampled.",
 ["pm4py/objects/petri_net/semantics.py", "pm4py/objects/petri_net/sem_interface.py", "pm4py/objects/petri_net/inhibitor_reset/semantics.py"],
 [("token game on a counter of places", "pm4py/objects/petri_net/semantics.py: is_enabled, execute, weak_execute, enabled_transitions, ClassicSemantics"),
  ("generic token game", "pm4py/objects/petri_net/semantics.py: PetriNetSemantics.is_enabled, fire"),
  ("inhibitor/reset token game", "pm4py/objects/petri_net/inhibitor_reset/semantics.py")],
 ["return values of the semantics objects", "the marking passed in"])

prop("C02", "Markings form a multiset algebra",
 "Two markings compare equal exactly when they have the same marked places with the same counts, equal markings have equal hashes, and one is below another exactly when each of its marked places holds at least as many tokens in the other. "
 "Adding and subtracting markings is place-wise, subtraction keeps no zero entry, subtracting what was added gives the original back, and no operand is modified.",
 ["inputs"], "All pairs of markings over any set of places, including empty ones.",
 "Tests compare a few literal markings; the laws quantify over all pairs and all counts.",
 ["pm4py/objects/petri_net/obj.py"],
 [("Marking operators", "pm4py/objects/petri_net/obj.py: Marking.__eq__, __le__, __add__, __sub__, __hash__")],
 ["return values of ==, <=, +, -, hash"])

prop("C03", "Petri net editing keeps the arc relation consistent",
 "After any sequence of building operations (adding a place, transition or arc; removing a place or a transition; merging nets) every arc of the net joins a place and a transition that belong to the net and is registered exactly once as outgoing at its source and incoming at its target, and no node lists any other arc. "
 "Each operation changes exactly what it names: removing a node removes it and its incident arcs only, and adding an arc adds that arc only, with the given weight.",
 ["inputs", "histories"], "Every well-formed net and every finite sequence of editing operations on it, in any order.",
 "Tests build a few nets and check that later algorithms run; dangling arcs or missing registrations only show up for particular edit histories.",
 ["pm4py/objects/petri_net/utils/petri_utils.py", "pm4py/objects/petri_net/obj.py"],
 [("editing operations", "pm4py/objects/petri_net/utils/petri_utils.py: add_place, add_transition, add_arc_from_to, remove_place, remove_transition, merge"),
  ("arc constructor refuses non-bipartite arcs", "pm4py/objects/petri_net/obj.py: PetriNet.Arc")],
 ["places, transitions, arcs of the net and in/out arcs of the nodes"],
 [("arc sets", "net.arcs, node.in_arcs, node.out_arcs", "pm4py/objects/petri_net/obj.py")])

prop("C04", "Reachability graphs contain exactly the reachable behaviour",
 "For every bounded accepting Petri net, the computed reachability graph has exactly one state per marking reachable from the initial marking by firing enabled transitions, and exactly one edge for every transition enabled in every reachable marking, leading to the marking obtained by firing it. "
 "Every edge appears among the outgoing edges of its source state and the incoming edges of its target state.",
 ["inputs", "histories"], "Every bounded net (weights allowed) and initial marking.",
 "Tests only look at the size of the graph of one example net; exactness quantifies over all nets and all firing sequences.",
 ["pm4py/objects/petri_net/utils/reachability_graph.py", "pm4py/objects/petri_net/semantics.py"],
 [("worklist exploration", "pm4py/objects/petri_net/utils/reachability_graph.py: marking_flow_petri, construct_reachability_graph")],
 ["states and transitions of the returned transition system"])

prop("C05", "Token-based replay accounts for every token",
 "For every event log and accepting Petri net (arc weights allowed), every replayed trace reports non-negative produced, consumed, missing and remaining token counts with produced + missing = consumed + remaining, where remaining is what the reached marking holds in excess of the final marking and missing what was added to fire a transition or is lacking at the end. "
 "With the default options a trace is reported as fitting exactly when no token is missing or remains (so it ends in the final marking) and, if consider_activities_not_in_model_in_fitness is set, every activity is known to the net; its fitness is 1/2(1-missing/consumed) + 1/2(1-remaining/produced) where both totals are positive. The log fitness applies the same formula to the totals, and unknown activities of one trace never affect another.",
 ["inputs", "histories"], "Every log (including unknown activities and empty traces), every accepting net whose silent transitions can only generate boundedly many tokens.",
 "Tests compare the replay of example logs with fixed totals; the balance law quantifies over all traces, nets and repair decisions.",
 ["pm4py/algo/conformance/tokenreplay/variants/token_replay.py"],
 [("missing-token repair and counters", "pm4py/algo/conformance/tokenreplay/variants/token_replay.py: add_missing_tokens, get_consumed_tokens, get_produced_tokens, apply_trace, apply_hidden_trans, enable_hidden_transitions"), ("log fitness", "pm4py/algo/evaluation/replay_fitness/variants/token_replay.py: evaluate")],
 ["per-trace replay diagnostics"])

prop("C06", "Directly-follows, start and end counts are exact",
 "For every event log, the directly-follows frequency of an ordered pair of activities equals the number of positions in all traces where the second immediately follows the first, pairs that never follow each other are absent, and the start (end) activity counts equal the number of non-empty traces that start (end) with the activity. "
 "The result is the same for the log and for the equivalent event table.",
 ["inputs"], "Every event log: any number of traces, lengths (including empty traces and single events), repeated and self-following activities; trace log and tabular representation.",
 "Tests count two or three pairs on running-example; an off-by-one for short traces or a cross-case pair shows up only for other inputs.",
 ["pm4py/algo/discovery/dfg/variants/native.py", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py", "pm4py/statistics/start_activities/log/get.py", "pm4py/statistics/end_activities/log/get.py"],
 [("pairwise counting over traces", "pm4py/algo/discovery/dfg/variants/native.py: native"),
  ("tabular counting", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py: get_dfg_graph"),
  ("start/end counting", "pm4py/statistics/start_activities/log/get.py, pm4py/statistics/end_activities/log/get.py")],
 ["discovered directly-follows graph, start and end activities"])

prop("C07", "Variants partition the traces of a log",
 "For every event log, each trace belongs to exactly one variant, namely the one whose key is its sequence of activities, every reported variant has at least one trace, and the variant counts sum to the number of traces. "
 "The variants computed for the log and for the equivalent event table have the same keys and counts.",
 ["inputs"], "Every event log and activity attribute; trace log and tabular representation (cases have at least one event in the table).",
 "Tests check the number of variants of a few example logs.",
 ["pm4py/statistics/variants/log/get.py", "pm4py/util/variants_util.py", "pm4py/stats.py"],
 [("grouping of traces by activity sequence", "pm4py/statistics/variants/log/get.py: get_variants_along_with_case_durations, get_variants_from_log_trace_idx, convert_variants_trace_idx_to_trace_obj"),
  ("variant key", "pm4py/util/variants_util.py: get_variant_from_trace")],
 ["variants and counts returned to the user"])

prop("C08", "Footprints classify activity pairs and flag exactly the violations",
 "For every event log, the footprint relations are exact: a pair is parallel when both orders directly follow each other, sequential when only one order does, and the start, end and occurring activities and the minimum trace length are those of the log. "
 "Footprint conformance reports exactly the relations of the log that the model's footprints do not allow (strict or not, for a whole log or per trace), the extended checks report exactly the disallowed start/end/missing activities and too-short traces, and comparing a log with its own footprints reports no violation.",
 ["inputs"], "Every event log, every pair of footprint relations.",
 "Tests assert that fitness is 1 on one example; the classification must hold for every pair of activities in every log.",
 ["pm4py/algo/discovery/footprints/log/variants/entire_event_log.py", "pm4py/algo/discovery/footprints/log/variants/trace_by_trace.py", "pm4py/algo/discovery/footprints/dfg/variants/dfg.py", "pm4py/algo/conformance/footprints/variants/log_model.py", "pm4py/algo/conformance/footprints/variants/log_extensive.py", "pm4py/algo/conformance/footprints/variants/trace_extensive.py"],
 [("pair classification", "pm4py/algo/discovery/footprints/log/variants/*.py, pm4py/algo/discovery/causal/variants/alpha.py"),
  ("set differences", "pm4py/algo/conformance/footprints/variants/*.py")],
 ["footprint dictionaries and conformance results"])

prop("C09", "A noise-free log skeleton describes the log it came from",
 "For every event log and zero noise threshold, the discovered skeleton contains exactly the always-before, always-after, equivalence, never-together, directly-follows and activity-frequency constraints that hold in every trace of the log (a constraint on a pair of activities speaks about the traces that contain its first activity). "
 "Checking the log against its own noise-free skeleton reports every trace as fitting with no deviation, and every reported deviation of any trace against any skeleton is a constraint that the trace violates.",
 ["inputs"], "Every event log (repeated activities, empty traces excluded), every trace checked against it.",
 "Tests run discovery with fixed thresholds on example logs and compare nothing semantic.",
 ["pm4py/algo/discovery/log_skeleton/variants/classic.py", "pm4py/algo/discovery/log_skeleton/trace_skel.py", "pm4py/algo/conformance/log_skeleton/variants/classic.py"],
 [("per-trace relations counted over variants", "pm4py/algo/discovery/log_skeleton/variants/classic.py"),
  ("per-trace relation extraction", "pm4py/algo/discovery/log_skeleton/trace_skel.py"),
  ("constraint checks", "pm4py/algo/conformance/log_skeleton/variants/classic.py")],
 ["skeleton dictionary", "conformance result"])

prop("C10", "Log filters keep exactly the matching cases",
 "For every event log, filtering on start activities, end activities, variants, directly-follows paths, attribute values, case size, rework, activities between and prefix-based criteria keeps exactly the cases (or events) that satisfy the stated criterion, in their original order within a case and with unchanged content. "
 "For the case-level criteria with a keep/remove switch, keeping and removing split the (non-empty) cases of the log into two disjoint parts.",
 ["inputs"], "Every event log and filter argument; trace log and tabular representation for start, end, variant, path, attribute-value, case-size and rework filters.",
 "Tests check the size of the result on one example log for one argument value.",
 ["pm4py/filtering.py", "pm4py/algo/filtering/log/start_activities/start_activities_filter.py", "pm4py/algo/filtering/log/end_activities/end_activities_filter.py", "pm4py/algo/filtering/log/variants/variants_filter.py", "pm4py/algo/filtering/log/paths/paths_filter.py", "pm4py/algo/filtering/log/attributes/attributes_filter.py", "pm4py/algo/filtering/log/cases/case_filter.py", "pm4py/algo/filtering/log/rework/rework_filter.py"],
 [("case selection predicates", "pm4py/algo/filtering/log/*/*.py, pm4py/algo/filtering/pandas/*/*.py")],
 ["filtered log"])

prop("C11", "Partial orders: closure, reduction and order tests are exact",
 "For every finite binary relation, the irreflexivity, transitivity and strict-partial-order tests hold exactly when the mathematical property does, start (end) nodes are exactly those with no incoming (outgoing) edge, and edge and node updates change only what they name. "
 "Adding transitive edges yields a relation containing the original and contained in its transitive closure, which is transitive on distinct nodes; for a strict partial order, the transitive reduction is the unique smallest relation with that closure.",
 ["inputs", "histories"], "Every finite relation over any number of distinct nodes.",
 "Tests use three- or four-node orders; order of iteration and chains of implied edges matter only for larger relations.",
 ["pm4py/objects/powl/BinaryRelation.py"],
 [("adjacency matrix operations", "pm4py/objects/powl/BinaryRelation.py")],
 ["results of the relation's operations"])

prop("C12", "Business-hours duration equals the overlap with the working slots",
 "For every pair of timestamps with start not after end and every set of weekly working slots, the business-hours duration equals the total length of the intersection between the interval (in wall-clock time) and the slots repeated every week, where slots that overlap or are at most one second apart count as one. "
 "It is never negative, never exceeds the elapsed time, is the elapsed time if the slots cover the week, and does not depend on the order or the overlap of the slots.",
 ["inputs"], "All timestamp pairs (including equal ones, weekends, spans of many weeks) and all slot lists within a week.",
 "Tests check two or three literal dates with the default slots.",
 ["pm4py/util/business_hours.py"],
 [("slot unification and weekly unrolling", "pm4py/util/business_hours.py: BusinessHours, get_overlapping_time, soj_time_business_hours_diff")],
 ["returned number of seconds"])

prop("C13", "String edit distance is the Levenshtein metric",
 "For all pairs of strings the edit distance equals the minimum number of insertions, deletions and substitutions turning one into the other; it is symmetric and zero exactly for equal strings. "
 "The closest (farthest) string picked from a list has the minimal (maximal) edit distance among all strings of the list.",
 ["inputs"], "All strings, all non-empty candidate lists (for the farthest string: not all candidates equal to the reference).",
 "Tests compute no edit distance directly.",
 ["pm4py/util/string_distance.py"],
 [("row-wise dynamic programme", "pm4py/util/string_distance.py: levenshtein_distance"),
  ("pruned search", "pm4py/util/string_distance.py: argmin_levenshtein, argmax_levenshtein")],
 ["returned distance or string"])

prop("C14", "Incidence and consumption matrices agree with the net",
 "For every net, the incidence matrix entry of a place and a transition equals the tokens the transition produces in the place minus the tokens it consumes from it, the consumption matrix entry is minus the tokens it consumes, and marking vectors list the token count of each place, all with one fixed ordering of places and transitions. "
 "Hence firing an enabled transition changes the encoded marking exactly by the transition's column.",
 ["inputs", "histories"], "Every weighted net (self-loops included), every marking, every transition.",
 "Tests only use the matrices through alignments of weight-1 nets without self-loops.",
 ["pm4py/objects/petri_net/utils/incidence_matrix.py", "pm4py/objects/petri_net/utils/consumption_matrix.py"],
 [("matrix construction", "pm4py/objects/petri_net/utils/incidence_matrix.py: IncidenceMatrix, pm4py/objects/petri_net/utils/consumption_matrix.py: ConsumptionMatrix")],
 ["matrices, index maps and encoded markings"])

prop("C15", "Streaming directly-follows discovery equals batch discovery",
 "After any number of received events, in any interleaving of cases, the directly-follows frequencies, start and end activities and activity counts reported by the streaming discovery equal those of the prefix log formed by the events received so far.",
 ["histories", "inputs"], "Every finite event stream, every interleaving of cases, at every prefix.",
 "Tests stream one example log in one order and look at the final result.",
 ["pm4py/streaming/algo/discovery/dfg/variants/frequency.py"],
 [("incremental counters per case", "pm4py/streaming/algo/discovery/dfg/variants/frequency.py: event_without_activity_or_case, process, get")],
 ["result of the streaming object"])

prop("C16", "Alignments are valid runs of log and model with the cost they report",
 "For every trace and easy-sound accepting net, the reported alignment's log moves and synchronous moves spell the trace, its model moves and synchronous moves form a firing sequence from the initial to the final marking, and its cost is the sum of its moves' costs. "
 "No other alignment of that trace and net is cheaper, and the fitness is one exactly if the trace is in the language of the net.",
 ["inputs"], "Every trace and every easy-sound net, for the default and the other exact alignment variants.",
 "Tests sum fitness over one example log and compare with fixed numbers.",
 ["pm4py/objects/petri_net/utils/synchronous_product.py", "pm4py/objects/petri_net/utils/align_utils.py", "pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py"],
 [("synchronous product", "pm4py/objects/petri_net/utils/synchronous_product.py"),
  ("A* search with a state-equation heuristic", "pm4py/algo/conformance/alignments/petri_net/variants/*.py")],
 ["alignment, cost and fitness"])

prop("C17", "Quality measures follow their definitions and stay within [0,1]",
 "Log-level replay fitness is computed from the summed produced, consumed, missing and remaining tokens by the token formula, the alignment-based average fitness is the average of the trace fitness values, the alignment-based log fitness is 1 minus the summed costs over the summed best-worst costs, the percentage of fitting traces is 100 times their share, footprint precision and fitness are the stated ratios, and simplicity is 1/(1+max(0, mean arc degree - 2)). "
 "Each of these measures lies between 0 and 1 (percentages between 0 and 100) whenever its inputs are counts of a valid replay.",
 ["inputs"], "All vectors of replay results with non-negative counts, missing <= consumed and remaining <= produced; all nets.",
 "Tests assert 'fitness > 0.9' on one log.",
 ["pm4py/algo/evaluation/replay_fitness/variants/token_replay.py", "pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py", "pm4py/algo/conformance/footprints/util/evaluation.py", "pm4py/algo/evaluation/simplicity/variants/arc_degree.py"],
 [("aggregation formulas", "pm4py/algo/evaluation/**, pm4py/algo/conformance/footprints/util/evaluation.py")],
 ["returned measures"])

prop("C18", "Play-out produces only traces of the model's language",
 "Every trace produced by the extensive play-out of an accepting Petri net is the visible label sequence of a firing sequence from the initial to the final marking, and every such label sequence within the length bound is produced. "
 "Every trace produced by the random (basic or stochastic) play-out is the visible label sequence of a firing sequence from the initial marking, and where only complete traces are requested (add_only_if_fm_is_reached) that sequence ends in the final marking.",
 ["inputs", "schedules"], "Every accepting net, every random choice.",
 "Tests only check that play-out terminates with the requested number of traces.",
 ["pm4py/algo/simulation/playout/petri_net/variants/extensive.py", "pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py", "pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py"],
 [("enumeration of firing sequences", "pm4py/algo/simulation/playout/petri_net/variants/*.py")],
 ["simulated log"])

prop("C19", "Performance aggregates are the statistics of the observed time differences",
 "For every event log, the performance directly-follows graph reports for each directly-following pair the mean, minimum, maximum, median, sum and standard deviation of exactly the observed non-negative time differences of that pair, and the temporal profile reports for each eventually-following pair the mean and standard deviation of the differences. "
 "Checking a log against a temporal profile reports exactly the pairs whose deviation from the mean exceeds the given number of standard deviations.",
 ["inputs"], "Every event log with timestamps.",
 "Tests check that the call succeeds.",
 ["pm4py/algo/discovery/dfg/variants/performance.py", "pm4py/algo/discovery/temporal_profile/variants/log.py", "pm4py/algo/conformance/temporal_profile/variants/log.py"],
 [("difference collection and aggregation", "pm4py/algo/discovery/dfg/variants/performance.py, pm4py/algo/discovery/temporal_profile/variants/*.py, pm4py/algo/conformance/temporal_profile/variants/*.py")],
 ["performance graph, temporal profile, deviations"])

prop("C20", "Filtering an object-centric log keeps it referentially intact",
 "For every object-centric event log, every filter returns a log whose relations mention only events and objects that are kept, whose object-to-object and object-change tables mention only kept objects, and which keeps exactly the events, objects or relations that satisfy the criterion; the input log is unchanged.",
 ["inputs"], "Every consistent object-centric log and filter argument.",
 "Tests check the number of events after a filter on one log.",
 ["pm4py/objects/ocel/util/filtering_utils.py", "pm4py/algo/filtering/ocel/event_attributes.py", "pm4py/algo/filtering/ocel/object_attributes.py", "pm4py/algo/filtering/ocel/activity_type_matching.py"],
 [("propagation between tables", "pm4py/objects/ocel/util/filtering_utils.py: propagate_event_filtering, propagate_object_filtering, propagate_relations_filtering")],
 ["tables of the returned log"])

prop("C21", "Algorithm parameters resolve by key with the stated precedence",
 "Reading a parameter from a parameter dictionary returns the value stored under the parameter's enumeration member, else the value stored under its string name (members stand for their values, on both sides), else the default, and an absent or empty dictionary yields the default; stored values (the value of a stored enumeration member) are returned unchanged even if they are false, zero or empty. "
 "Selecting an algorithm variant returns the implementation the variant names.",
 ["inputs"], "Every parameter, dictionary and default.",
 "Tests only pass truthy values under one key style.",
 ["pm4py/util/exec_utils.py"],
 [("lookup", "pm4py/util/exec_utils.py: get_param_value, unroll, get_variant")],
 ["returned value"])

prop("C22", "Dependency measures follow their definitions",
 "For every directly-follows graph, the alpha causal relation relates exactly the pairs that follow each other in one direction only, and the heuristics causal measure of (a,b) is (|ab|-|ba|)/(|ab|+|ba|+1), hence lies strictly between -1 and 1 and is antisymmetric.",
 ["inputs"], "Every directly-follows graph with positive frequencies.",
 "Tests check discovered nets on example logs only.",
 ["pm4py/algo/discovery/causal/variants/alpha.py", "pm4py/algo/discovery/causal/variants/heuristic.py"],
 [("pair-wise measure", "pm4py/algo/discovery/causal/variants/*.py")],
 ["causal relation"])

prop("C23", "Case statistics count what they say",
 "For every event log, rework counts for each activity the cases containing it at least twice, attribute-value counts give the number of events (or of cases, when counted once per case) with each value, the minimum self-distance of an activity is the smallest number of events strictly between two of its occurrences in a case (its witnesses are the activities occurring in between at that distance), and the eventually-follows counts give the number of ordered position pairs in a case.",
 ["inputs"], "Every event log and attribute; activities occurring any number of times.",
 "Tests check one or two values on running-example.",
 ["pm4py/statistics/rework/log/get.py", "pm4py/statistics/attributes/log/get.py", "pm4py/algo/discovery/minimum_self_distance/variants/log.py", "pm4py/statistics/eventually_follows/log/get.py"],
 [("counting loops", "the four files above")],
 ["returned counts"])

# ---- properties stated but not claimed (see MANIFEST not_applicable) ----
prop("N01", "Export and import of logs and models round-trip",
 "Exporting an event log, Petri net, process tree, BPMN diagram, directly-follows graph or object-centric log in any supported format and importing the file again yields an equivalent object.",
 ["inputs"], "Every log and model representable in the format.",
 "Tests round-trip a few example files.",
 ["pm4py/objects/log/exporter/xes", "pm4py/objects/petri_net/exporter", "pm4py/objects/process_tree/exporter", "pm4py/objects/bpmn/exporter", "pm4py/objects/ocel/exporter"],
 [("serialisation", "exporter and importer packages")], ["re-imported object"])
prop("N02", "Inductive miner models are sound and replay the log",
 "With zero noise threshold, the inductive miner returns a process tree whose language contains every trace of the log, and the net converted from it is a sound workflow net.",
 ["inputs"], "Every event log.", "Tests mine a few example logs.",
 ["pm4py/algo/discovery/inductive"], [("recursive cut detection and log splitting", "pm4py/algo/discovery/inductive")], ["discovered model"])
prop("N03", "Soundness checking decides workflow-net soundness",
 "A workflow net is reported sound exactly when from every reachable marking the final marking can be reached, it is reached properly, and no transition is dead.",
 ["inputs", "histories"], "Every workflow net.", "Tests check two nets.",
 ["pm4py/algo/analysis/woflan"], [("coverability-based analysis", "pm4py/algo/analysis/woflan")], ["verdict"])
prop("N04", "Model conversions preserve the language",
 "Converting between process trees, Petri nets, BPMN and POWL, and reducing models, preserves the set of visible traces.",
 ["inputs"], "Every model in the source formalism.", "Tests convert a few examples.",
 ["pm4py/objects/conversion", "pm4py/objects/process_tree/utils/generic.py", "pm4py/objects/petri_net/utils/reduction.py"], [("structural translation", "pm4py/objects/conversion")], ["converted model"])
prop("N05", "Log representations convert without loss",
 "Converting between event table, event stream and trace log and back preserves cases, event order and attribute values.",
 ["inputs"], "Every event log.", "Tests convert a few logs.",
 ["pm4py/objects/conversion/log"], [("grouping by case identifier in pandas", "pm4py/objects/conversion/log")], ["converted log"])
prop("N06", "Stochastic language distances are metrics",
 "The earth mover's distance between stochastic languages is zero exactly for equal languages and symmetric.",
 ["inputs"], "All pairs of stochastic languages.", "Tests compute one value.",
 ["pm4py/algo/evaluation/earth_mover_distance"], [("external linear-programming solver", "pm4py/algo/evaluation/earth_mover_distance")], ["distance"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
