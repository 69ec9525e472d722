From 70f2827a93ce9390eac7fd11856b17925daa12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 01/48] fix: assign and return TaskGraph wires in port order

run and prepend relied on the order in which networkx enumerates edges, so
graphs mixing parallel, add_wire and prepend permuted their wires.
---
 qermit/taskgraph/task_graph.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index ae65a9d..88fb096 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -178,10 +178,8 @@ class TaskGraph:
         # schemes so fine
         task_copy = copy(task)
 
-        for i, edge in enumerate(list(self._task_graph.out_edges(self._i, keys=True))):
-            self._task_graph.add_edge(
-                task_copy, edge[1], key=(i, edge[2][1]), data=None
-            )
+        for edge in list(self._task_graph.out_edges(self._i, keys=True)):
+            self._task_graph.add_edge(task_copy, edge[1], key=edge[2], data=None)
             self._task_graph.remove_edge(edge[0], edge[1])
 
         for port in range(task_copy.n_in_wires):
@@ -353,10 +351,13 @@ class TaskGraph:
 
         :return: Data from input edges to output vertex, assigned as wires.
         """
-        for edge, wire in zip(
-            self._task_graph.out_edges(self._i, data=True), input_wires
-        ):
-            edge[2]["data"] = wire
+        # wires are assigned in port order, not in the order edges were added
+        in_edges = sorted(
+            self._task_graph.out_edges(self._i, data=True, keys=True),
+            key=lambda edge: edge[2][0],
+        )
+        for edge, wire in zip(in_edges, input_wires):
+            edge[3]["data"] = wire
 
         # topological_sort fixes any dependency issues so can iterate and assume
         # input wires all realised before a task is reached
@@ -400,8 +401,11 @@ class TaskGraph:
                 o_data["data"] = outputs[ports[0]]
 
         output_wire = [
-            edge[2]["data"]
-            for edge in list(self._task_graph.in_edges(self._o, data=True))
+            edge[3]["data"]
+            for edge in sorted(
+                self._task_graph.in_edges(self._o, data=True, keys=True),
+                key=lambda edge: edge[2][1],
+            )
         ]
         return cast(Tuple[List[Wire]], tuple(output_wire))
 
-- 
2.43.0


From 6c1888d84aa48db012b4e8f77e6c1bb7dd19f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 02/48] fix: keep TaskGraph components independent of the
 graphs using them

Inserting or copying a component shared its inner graph and characterisation
with the original, and decomposing consumed the nested graph, so that reusing
a component corrupted other users of it.
---
 qermit/taskgraph/mittask.py    | 13 +++++++++
 qermit/taskgraph/task_graph.py | 48 ++++++++++++++++++++++++++++------
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/qermit/taskgraph/mittask.py b/qermit/taskgraph/mittask.py
index 65d1c14..e682e97 100644
--- a/qermit/taskgraph/mittask.py
+++ b/qermit/taskgraph/mittask.py
@@ -14,6 +14,7 @@
 
 
 from collections import namedtuple
+from copy import copy
 from enum import Enum
 from types import MethodType
 from typing import Callable, Dict, List, Optional, Union
@@ -101,6 +102,18 @@ class MitTask:
     def __call__(self, input_wires: List[Wire]) -> List[Wire]:
         return self.run(*input_wires)
 
+    def __copy__(self):
+        """
+        Returns a copy of the MitTask which does not share characterisation
+        data with it.
+        """
+        new_task = self.__class__.__new__(self.__class__)
+        new_task.__dict__.update(self.__dict__)
+        if isinstance(self.__dict__.get("run"), MethodType):
+            new_task.run = MethodType(self.run.__func__, new_task)
+        new_task.characterisation = copy(self.characterisation)
+        return new_task
+
     def __str__(self):
         return f"<MitTask::{self._label}>"
 
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 88fb096..88e53e5 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -67,9 +67,28 @@ class TaskGraph:
         """
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
-        self.characterisation = task_graph.characterisation
+        self.characterisation = copy(task_graph.characterisation)
         return self
 
+    def __copy__(self):
+        """
+        Returns a copy of the TaskGraph holding copies of its tasks, so that
+        neither graph is affected by later use of the other.
+        """
+        new_graph = self.__class__.__new__(self.__class__)
+        new_graph.__dict__.update(self.__dict__)
+        new_graph._task_graph = nx.relabel_nodes(
+            self._task_graph,
+            {
+                task: copy(task)
+                for task in self._task_graph
+                if task not in (self._i, self._o)
+            },
+        )
+        new_graph.characterisation = copy(self.characterisation)
+        new_graph._cache = copy(self._cache)
+        return new_graph
+
     @property
     def tasks(self) -> List[MitTask]:
         """
@@ -220,20 +239,33 @@ class TaskGraph:
             for task in node_list:
                 # => TaskGraph object with _task_graph attribute for decomposition
                 if hasattr(task, "_task_graph"):
+                    # substitute a copy of the nested graph, so that the graph
+                    # itself can still be used, here or elsewhere
+                    node, task = task, copy(task)
+
                     # relabel task names for ease of viewing wit visualisation methods
                     for sub_task in list(task._task_graph.nodes):
                         # in practice only IOTask
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
 
-                    task_in_edges = list(self._task_graph.in_edges(task, keys=True))
-                    task_out_edges = list(self._task_graph.out_edges(task, keys=True))
+                    # edges are matched by the port of the nested graph
+                    task_in_edges = sorted(
+                        self._task_graph.in_edges(node, keys=True),
+                        key=lambda edge: edge[2][1],
+                    )
+                    task_out_edges = sorted(
+                        self._task_graph.out_edges(node, keys=True),
+                        key=lambda edge: edge[2][0],
+                    )
 
-                    task_input_out_edges = list(
-                        task._task_graph.out_edges(task._i, keys=True)
+                    task_input_out_edges = sorted(
+                        task._task_graph.out_edges(task._i, keys=True),
+                        key=lambda edge: edge[2][0],
                     )
-                    task_output_in_edges = list(
-                        task._task_graph.in_edges(task._o, keys=True)
+                    task_output_in_edges = sorted(
+                        task._task_graph.in_edges(task._o, keys=True),
+                        key=lambda edge: edge[2][1],
                     )
 
                     if (
@@ -297,7 +329,7 @@ class TaskGraph:
 
                     # add all remaining edges, filling the rest of the subsituted graph
                     self._task_graph.add_edges_from(task._task_graph.edges)
-                    self._task_graph.remove_node(task)
+                    self._task_graph.remove_node(node)
                     check_for_decompose = True
                     break
 
-- 
2.43.0


From 420877becdf1cd949b90f40273b34be95692450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 03/48] fix: do not reuse data of earlier runs when a TaskGraph
 is run again

---
 qermit/taskgraph/task_graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 88e53e5..b3eeab6 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -383,6 +383,10 @@ class TaskGraph:
 
         :return: Data from input edges to output vertex, assigned as wires.
         """
+        # discard data held from any earlier run
+        for _, _, data in self._task_graph.edges(data=True):
+            data["data"] = None
+
         # wires are assigned in port order, not in the order edges were added
         in_edges = sorted(
             self._task_graph.out_edges(self._i, data=True, keys=True),
-- 
2.43.0


From 9e2c66e0ae3150fdfcda5dec0f2a94a0bc8afee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 04/48] fix: list every task of MitRes and MitEx, and no IO
 vertex, in tasks

---
 qermit/taskgraph/task_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index b3eeab6..bd38673 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -95,7 +95,7 @@ class TaskGraph:
         Returns a list of all tasks with both input and output ports
         in the TaskGraph.
         """
-        return list(self._task_graph)[2:]
+        return [task for task in self._task_graph if task not in (self._i, self._o)]
 
     def __call__(self, input_wires: List[Wire]) -> Tuple[List[Wire]]:
         return self.run(input_wires)
-- 
2.43.0


From 7069bb58a70cc006fad8e44493e50d384e40bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 05/48] fix: pass the CDR correction task its wires in port
 order

It relied on TaskGraph.run returning wires out of port order.
---
 qermit/clifford_noise_characterisation/ccl.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 259daf9..cfbeb25 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -574,6 +574,18 @@ def gen_CDR_MitEx(
             calibration_fraction=kwargs.get("calibration_fraction", 0.5),
         )
     )
+    # the correction task takes the calibration flag before the results
+    _post_task_graph.append(
+        MitTask(
+            _label="CDRSwapWires",
+            _n_in_wires=2,
+            _n_out_wires=2,
+            _method=lambda obj, noisy_expectation, calibration_complete: (
+                calibration_complete,
+                noisy_expectation,
+            ),
+        )
+    )
 
     _experiment_taskgraph.prepend(
         ccl_state_task_gen(
-- 
2.43.0


From f9ee4afe32f46e921f897a2919e5401b897d3de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 06/48] fix: replace, and not merge, data held by tasks in
 set_characterisation

---
 qermit/taskgraph/task_graph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index bd38673..0c88e4b 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -112,6 +112,12 @@ class TaskGraph:
 
     def set_characterisation(self, characterisation: dict):
         self.characterisation = characterisation
+        # tasks keep what they were given in earlier runs, and would return it
+        for task in self.tasks:
+            if isinstance(task, TaskGraph):
+                task.set_characterisation({})
+            else:
+                task.characterisation = {}
 
     @property
     def n_in_wires(self) -> int:
-- 
2.43.0


From 006310d68e0e318baf3e0cab9a3ef887b96368af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 07/48] fix: split shots into full jobs and merge on the
 results' own bits

A request for exactly max_shots shots was dropped, an empty request list
failed, and merged shots were labelled by the storage order of bits while
being read in sorted order.
---
 qermit/taskgraph/mitres.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 74c473c..66b7ba0 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -19,7 +19,7 @@ from typing import List, OrderedDict, Sequence, Tuple, Union, cast
 
 import networkx as nx  # type: ignore
 import numpy as np
-from pytket import Bit, Circuit
+from pytket import Circuit
 from pytket.backends import Backend, ResultHandle
 from pytket.backends.backendresult import BackendResult
 from pytket.utils.outcomearray import OutcomeArray
@@ -344,7 +344,7 @@ def split_shots_task_gen(max_shots: int) -> MitTask:
         for i, circ_shots in enumerate(circuit_wires):
             div_val = circ_shots.Shots // max_shots
             # Divide into jobs of size max_shots
-            if circ_shots.Shots > max_shots:
+            if circ_shots.Shots >= max_shots:
                 split_circuit_wires.extend(
                     [
                         CircuitShots(circ_shots.Circuit, max_shots)
@@ -397,19 +397,18 @@ def group_shots_task_gen() -> MitTask:
         # to the circuit of the same index.
         grouped_results = [
             [result for result, i in zip(results_wires, split_index) if i == j]
-            for j in range(split_index[-1] + 1)
+            for j in range(max(split_index, default=-1) + 1)
         ]
 
         # For each circuit, combine the results.
         for chunk in grouped_results:
             # Concatenate shots from all results
-            combined_shots = np.concatenate([result.get_shots() for result in chunk])
-            outcome_array = OutcomeArray.from_readouts(combined_shots)
-            merged_results.append(
-                BackendResult(
-                    shots=outcome_array, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
+            c_bits = chunk[0].get_bitlist()
+            combined_shots = np.concatenate(
+                [result.get_shots(c_bits) for result in chunk]
             )
+            outcome_array = OutcomeArray.from_readouts(combined_shots)
+            merged_results.append(BackendResult(shots=outcome_array, c_bits=c_bits))
 
         return (merged_results,)
 
-- 
2.43.0


From 4ac3f9369c168144fda39cb6c491c0cc7e39cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 08/48] fix: keep ObservableTracker objects independent and
 consistent

The default operator was shared by all trackers, extending changed the
operator of the caller and left the new strings untracked, copies shared
their lists and operator, and refused calls changed the tracker.
---
 qermit/taskgraph/utils.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 8c88520..69dc3a7 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -14,7 +14,7 @@
 
 
 from collections import OrderedDict
-from copy import copy
+from copy import copy, deepcopy
 from typing import Dict, Iterable, List, Optional, Tuple, Union
 
 from numpy import ndarray
@@ -222,7 +222,7 @@ class ObservableTracker:
     QubitPauliString in a given QubitPauliOperator.
     """
 
-    def __init__(self, qubit_pauli_operator: QubitPauliOperator = QubitPauliOperator()):
+    def __init__(self, qubit_pauli_operator: Optional[QubitPauliOperator] = None):
         """
         Default constructor, creates an empty dict object for mapping QubitPauliStrings to measurement circuits
         and the qubits measured to get expectation, along with an empty list for storing measurement circuits and
@@ -231,7 +231,11 @@ class ObservableTracker:
         :param qubit_pauli_operator: QubitPauliOperator for which given ObservableTracker is expected
             to retain measurement circuits all QubitPauliString keys for before any Backend execution.
         """
-        self._qubit_pauli_operator = qubit_pauli_operator
+        # held as a copy, as it can be changed by methods of this class
+        if qubit_pauli_operator is None:
+            self._qubit_pauli_operator = QubitPauliOperator()
+        else:
+            self._qubit_pauli_operator = deepcopy(qubit_pauli_operator)
         # indices being index in measurement circuits
         self._qps_to_indices: Dict[
             QubitPauliString, List[Tuple[int, List[Bit], bool]]
@@ -249,14 +253,15 @@ class ObservableTracker:
 
         :return: New ObservableTracker object
         """
-        # these variables could be mutated in the first ObservableTracker and effect
-        # this one
-        # To fix, copy everything
-        new_obj = ObservableTracker(copy(to_copy._qubit_pauli_operator))
+        # copy everything, including held lists, so that later changes to one
+        # ObservableTracker do not affect the other
+        new_obj = ObservableTracker(to_copy._qubit_pauli_operator)
 
-        new_obj._qps_to_indices = copy(to_copy._qps_to_indices)
+        new_obj._qps_to_indices = {
+            qps: list(indices) for qps, indices in to_copy._qps_to_indices.items()
+        }
         new_obj._measurement_circuits = copy(to_copy._measurement_circuits)
-        new_obj._partitions = copy(to_copy._partitions)
+        new_obj._partitions = [list(partition) for partition in to_copy._partitions]
         return new_obj
 
     def __str__(self):
@@ -293,6 +298,7 @@ class ObservableTracker:
                         coeff[0]
                     )
                 )
+        for coeff in new_coefficients:
             self._qubit_pauli_operator._dict[coeff[0]] = _coeff_convert(coeff[1])
 
     def extend_operator(self, new_operator: QubitPauliOperator):
@@ -302,6 +308,8 @@ class ObservableTracker:
         :param new_operator: Each QubitPauliString and coefficient added to held operator.
         """
         self._qubit_pauli_operator += new_operator
+        for k in new_operator._dict.keys():
+            self._qps_to_indices.setdefault(k, list())
 
     def remove_strings(self, strings: List[QubitPauliString]):
         """
@@ -333,6 +341,11 @@ class ObservableTracker:
         :param measurement_info: Each entry contains a QubitPauliString, the bits required to take expectation over in resulting result
             and a bool signifying whether expectation should be inverted when taking result.
         """
+        for s in measurement_info:
+            if s[0] not in self._qps_to_indices:
+                raise ValueError(
+                    "ObservableTracker object does not track {}.".format(s[0])
+                )
         self._measurement_circuits.append(circuit)
         index = len(self._measurement_circuits) - 1
 
@@ -342,10 +355,6 @@ class ObservableTracker:
             string = s[0]
             bits = s[1]
             invert = s[2]
-            if s[0] not in self._qps_to_indices:
-                raise ValueError(
-                    "ObservableTracker object does not track {}.".format(s[0])
-                )
             self._qps_to_indices[string].append((index, bits, invert))
 
     def get_measurement_circuits(
-- 
2.43.0


From 3a201484b8ade309d5ac801e4e87d2d2e8a819a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 09/48] fix: give each spectral filtering grid point its own
 ObservableTracker

The measurement circuits of the first grid point were run for all points,
which made the landscape constant.
---
 qermit/spectral_filtering/spectral_filtering.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qermit/spectral_filtering/spectral_filtering.py b/qermit/spectral_filtering/spectral_filtering.py
index 2eaefe0..b9e7cfd 100644
--- a/qermit/spectral_filtering/spectral_filtering.py
+++ b/qermit/spectral_filtering/spectral_filtering.py
@@ -13,6 +13,7 @@ from qermit import AnsatzCircuit, ObservableExperiment, SymbolsDict
 from qermit.taskgraph.mitex import MitEx, gen_compiled_MitRes
 from qermit.taskgraph.mittask import MitTask
 from qermit.taskgraph.task_graph import TaskGraph
+from qermit.taskgraph.utils import MeasurementCircuit, ObservableTracker
 
 from .signal_filter import SignalFilter, SmallCoefficientSignalFilter
 
@@ -411,9 +412,17 @@ def gen_obs_exp_grid_gen_task() -> MitTask:
                 circ = obs_exp.AnsatzCircuit.Circuit.copy()
                 anz_circ = AnsatzCircuit(circ, obs_exp.AnsatzCircuit.Shots, sym_dict)
 
-                obs_exp_grid[grid_point] = ObservableExperiment(
-                    anz_circ, obs_exp.ObservableTracker
+                # Each point has its own measurement circuits, as these hold
+                # the symbol values of the point.
+                tracker = ObservableTracker.from_ObservableTracker(
+                    obs_exp.ObservableTracker
                 )
+                tracker._measurement_circuits = [
+                    MeasurementCircuit(mc.circuit, sym_dict)
+                    for mc in tracker.measurement_circuits
+                ]
+
+                obs_exp_grid[grid_point] = ObservableExperiment(anz_circ, tracker)
 
             obs_exp_grid_list.append(obs_exp_grid)
 
-- 
2.43.0


From 53f3dc36403c3839414f6735829d482815f2ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 10/48] fix: collate frame randomisation results on the bits
 they are labelled by

Counts were read in sorted bit order but labelled in storage order.
---
 qermit/frame_randomisation/frame_randomisation.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 6a2f01e..133f4ec 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -18,9 +18,9 @@ from copy import copy
 from enum import Enum
 from functools import reduce
 from math import ceil
-from typing import Counter, List, Sequence, Tuple, cast
+from typing import Counter, List, Tuple
 
-from pytket import Bit, Circuit, OpType
+from pytket import Circuit, OpType
 from pytket.backends import Backend
 from pytket.backends.backendresult import BackendResult
 from pytket.passes import AutoRebase
@@ -135,18 +135,15 @@ def frame_randomisation_result_task_gen(samples: int) -> MitTask:
         ]
         results = []
         for chunk in chunked_results:
-            all_counts = [result.get_counts() for result in chunk]
+            c_bits = chunk[0].get_bitlist()
+            all_counts = [result.get_counts(c_bits) for result in chunk]
             combined_counts = reduce(operator.add, all_counts)
             outcome_array = {
                 OutcomeArray.from_readouts([key]): val
                 for key, val in combined_counts.items()
             }
             outcome_counts = Counter(outcome_array)
-            results.append(
-                BackendResult(
-                    counts=outcome_counts, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
-            )
+            results.append(BackendResult(counts=outcome_counts, c_bits=c_bits))
         return (results,)
 
     return MitTask(
-- 
2.43.0


From be50870eb33b520440a18189856ecbe4bbec6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 11/48] fix: use the documented states_simulator_mitex of
 gen_CDR_MitEx

The key was misspelt, so the MitEx given was ignored.
---
 qermit/clifford_noise_characterisation/ccl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index cfbeb25..bc5681d 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -518,7 +518,7 @@ def gen_CDR_MitEx(
     """
     _states_sim_mitex = copy(
         kwargs.get(
-            "states_simluator_mitex",
+            "states_simulator_mitex",
             MitEx(
                 simulator_backend,
                 _label="StatesSimMitEx",
-- 
2.43.0


From 7333979a65ce175d88102923fa27815c8c00df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 12/48] fix: keep the MitRes given to MitEx independent of the
 MitEx

---
 qermit/taskgraph/mitex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index 4871040..82f6aa1 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -14,7 +14,7 @@
 
 
 import inspect
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import List, OrderedDict, Tuple, Union, cast
 
 import networkx as nx  # type: ignore
@@ -307,7 +307,7 @@ class MitEx(TaskGraph):
         )
 
         # if mitres isn't defined, build around a mitres which compiles circuits
-        _mitres = kwargs.get("mitres", gen_compiled_MitRes(backend))
+        _mitres = copy(kwargs.get("mitres", gen_compiled_MitRes(backend)))
         self._task_graph.add_edge(
             collate_circuit_shots_task, _mitres, key=(0, 0), data=None
         )
-- 
2.43.0


From 5954ab38c483e6b84a216865176610f238628cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 13/48] fix: keep unwritten bits of circuits with leakage
 detection

get_detection_circuit removes them, so results could not be read.
---
 qermit/leakage_detection/leakage_detection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qermit/leakage_detection/leakage_detection.py b/qermit/leakage_detection/leakage_detection.py
index cc3b8d0..e71289a 100644
--- a/qermit/leakage_detection/leakage_detection.py
+++ b/qermit/leakage_detection/leakage_detection.py
@@ -46,6 +46,14 @@ def gen_add_leakage_gadget_circuit_task(backend: Backend) -> MitTask:
             )
             for circuit_shots in circuit_shots_list
         ]
+        # Bits which are not written to may have been removed, but are still
+        # part of the result.
+        for circuit_shots, detection_circuit_shots in zip(
+            circuit_shots_list, detection_circuit_shots_list
+        ):
+            for bit in circuit_shots.Circuit.bits:
+                if bit not in detection_circuit_shots.Circuit.bits:
+                    detection_circuit_shots.Circuit.add_bit(bit)
 
         # For each circuit create a postselection manager. These may be
         # different for each circuit, if for example the circuits are of
-- 
2.43.0


From ab484e4cb242572e123a121a89b323adab9b4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 14/48] fix: add measurement circuits to a copy of the
 ObservableTracker given

---
 qermit/taskgraph/measurement_reduction.py | 3 ++-
 qermit/taskgraph/mitex.py                 | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/measurement_reduction.py b/qermit/taskgraph/measurement_reduction.py
index b9e3e11..10db3f0 100644
--- a/qermit/taskgraph/measurement_reduction.py
+++ b/qermit/taskgraph/measurement_reduction.py
@@ -58,7 +58,8 @@ def measurement_reduction_task_gen(
             # symbols dict object
             symbols = measurement_wire[0][2]
             # ObservableTracker object for given experiment
-            tracker = measurement_wire[1]
+            # held as a copy, as the one passed may be used by other experiments
+            tracker = measurement_wire[1].from_ObservableTracker()
             # use measurement reduction method to get MeasurementSetup object
             # with reduced number of measurement circuits
             new_setup = measurement_reduction(
diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index 82f6aa1..b704a2b 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -132,7 +132,9 @@ def filter_observable_tracker_task_gen() -> MitTask:
             circuit = ansatz_circuit[0]
             shots = ansatz_circuit[1]
             symbols = ansatz_circuit[2]
-            observable_tracker = measurement_wire[1]
+            # measurement circuits are added to a copy, as the ObservableTracker
+            # passed may be used by other experiments
+            observable_tracker = measurement_wire[1].from_ObservableTracker()
 
             non_existant_qubits = (
                 observable_tracker.qubit_pauli_operator.all_qubits.difference(
-- 
2.43.0


From e89bc9c09e942e77d09835490d4a336691eb6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 15/48] fix: keep given measurement circuits when reducing
 measurements

---
 qermit/taskgraph/measurement_reduction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/measurement_reduction.py b/qermit/taskgraph/measurement_reduction.py
index 10db3f0..a4ad6e1 100644
--- a/qermit/taskgraph/measurement_reduction.py
+++ b/qermit/taskgraph/measurement_reduction.py
@@ -61,9 +61,10 @@ def measurement_reduction_task_gen(
             # held as a copy, as the one passed may be used by other experiments
             tracker = measurement_wire[1].from_ObservableTracker()
             # use measurement reduction method to get MeasurementSetup object
-            # with reduced number of measurement circuits
+            # with reduced number of measurement circuits, for every string
+            # without a measurement circuit
             new_setup = measurement_reduction(
-                list(tracker._qubit_pauli_operator._dict.keys()),
+                tracker.get_empty_strings(),
                 strat=strategy,
                 method=method,
                 cx_config=cx_config,
-- 
2.43.0


From 6c8fd38eddda4acb25b6c40cb44118c0f45dd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 16/48] fix: forget the qubits of strings removed from an
 ObservableTracker

---
 qermit/taskgraph/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 69dc3a7..1295265 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -320,6 +320,10 @@ class ObservableTracker:
         for qps in strings:
             self._qps_to_indices.pop(qps, None)
             self._qubit_pauli_operator._dict.pop(qps, None)
+        # qubits only acted on by removed strings no longer belong to the operator
+        self._qubit_pauli_operator = QubitPauliOperator(
+            self._qubit_pauli_operator._dict
+        )
 
     @property
     def qubit_pauli_operator(self):
-- 
2.43.0


From 2e479afcaf9501a99a02cf9112c9470559b67932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 17/48] fix: scale error distributions with zero rates,
 identity errors or no errors

---
 qermit/noise_model/noise_model.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 943d14b..aa103b0 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -145,7 +145,15 @@ class ErrorDistribution:
                 + "Please report this as an issue."
             )
 
-        if not self == ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index):
+        # Errors which do not occur, and the identity, are not recovered.
+        expected = ErrorDistribution(
+            distribution={
+                error: error_rate
+                for error, error_rate in self.distribution.items()
+                if error_rate > 10 ** (-6) and error != identity
+            }
+        )
+        if not expected == ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index):
             raise Exception(
                 "From PTM does not match to PTM. "
                 + "This is a fault in Qermit. "
@@ -396,6 +404,10 @@ class ErrorDistribution:
         :return: A new error distribution with the noise scaled.
         """
 
+        # There are no error rates to scale.
+        if self.distribution == {}:
+            return ErrorDistribution(distribution={})
+
         ptm, pauli_index = self.to_ptm()
         scaled_ptm = fractional_matrix_power(ptm, scaling_factor)
         return ErrorDistribution.from_ptm(ptm=scaled_ptm, pauli_index=pauli_index)
-- 
2.43.0


From 985d563580855a8131276b9651d745ce7398b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 18/48] fix: keep any qubits, bits and the phase in
 PauliErrorTranspile

---
 qermit/noise_model/pauli_error_transpile.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qermit/noise_model/pauli_error_transpile.py b/qermit/noise_model/pauli_error_transpile.py
index 2c39844..0b4c74a 100644
--- a/qermit/noise_model/pauli_error_transpile.py
+++ b/qermit/noise_model/pauli_error_transpile.py
@@ -23,12 +23,13 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
         :return: Circuit with additional noise operations.
         """
 
-        # Initialise circuit with the same registers as input.
+        # Initialise circuit with the same qubits and bits as input.
         noisy_circuit = Circuit()
-        for q_register in circuit.q_registers:
-            noisy_circuit.add_q_register(q_register)
-        for c_register in circuit.c_registers:
-            noisy_circuit.add_c_register(c_register)
+        for qubit in circuit.qubits:
+            noisy_circuit.add_qubit(qubit)
+        for bit in circuit.bits:
+            noisy_circuit.add_bit(bit)
+        noisy_circuit.add_phase(circuit.phase)
 
         # Add each command in the original circuit,
         # and a pauli error if appropriate.
-- 
2.43.0


From 34a7a597f759367707a2c2b151a832c24dec6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 19/48] fix: respect classical dependencies when boxing
 Clifford subcircuits

---
 .../box_clifford_subcircuits.py                   | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 093c90b..2eb89a7 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -1,5 +1,5 @@
 import networkx as nx  # type: ignore
-from pytket._tket.unit_id import Qubit
+from pytket._tket.unit_id import Qubit, UnitID
 from pytket.circuit import CircBox, Circuit, Command, OpType
 from pytket.passes import BasePass, CustomPass
 
@@ -90,16 +90,17 @@ def _circuit_to_graph(circuit: Circuit) -> tuple[nx.DiGraph, list[Command]]:
     # most recently acted on that qubit is added. This builds a DAG
     # showing the temporal order of gates.
     node_command = circuit.get_commands()
-    current_node: dict[Qubit, int] = {}
+    # The same is true of bits, as these may condition gates.
+    current_node: dict[UnitID, int] = {}
     dag = nx.DiGraph()
     for node, command in enumerate(node_command):
         dag.add_node(node)
-        for qubit in command.qubits:
-            # This if statement is used in case the qubit has not been
+        for unit in command.args:
+            # This if statement is used in case the unit has not been
             # acted on yet.
-            if qubit in current_node.keys():
-                dag.add_edge(current_node[qubit], node)
-            current_node[qubit] = node
+            if unit in current_node.keys():
+                dag.add_edge(current_node[unit], node)
+            current_node[unit] = node
 
     return dag, node_command
 
-- 
2.43.0


From 69349e36394b495ffcfc1228aa952a9b4a41b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 20/48] fix: close the checks of every box that checks were
 opened for

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index b77d3ea..26252b0 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -53,7 +53,7 @@ class PauliSampler(ABC):
         # if the command is a circbox named 'Clifford Subcircuit'
         for command in circuit.get_commands():
             # Add barriers and check if appropriate
-            if (
+            is_clifford_box = (
                 (command.op.type == OpType.CircBox)
                 and (cast(CircBox, command.op).get_circuit().name is not None)
                 and (
@@ -61,7 +61,8 @@ class PauliSampler(ABC):
                         "Clifford Subcircuit"
                     )
                 )
-            ):
+            )
+            if is_clifford_box:
                 clifford_subcircuit = self._decompose_clifford_subcircuit_box(command)
 
                 # List of Paulis to be used as checks before the subcircuit.
@@ -108,9 +109,7 @@ class PauliSampler(ABC):
             pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
-            if (command.op.type == OpType.CircBox) and (
-                cast(CircBox, command.op).get_circuit().name == "Clifford Subcircuit"
-            ):
+            if is_clifford_box:
                 # For each check, commute the pauli through
                 # the clifford circuit.
                 for end_stabiliser, control_qubit in zip(
-- 
2.43.0


From 4105fb0bfc0d6940b562488f8d0fca0d070324fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 21/48] fix: keep barriers when adding Pauli checks

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 26252b0..0c40ab9 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -106,7 +106,13 @@ class PauliSampler(ABC):
                 ]
 
             # Add original command
-            pauli_check_circuit.add_gate(command.op, command.args)
+            if command.op.type == OpType.Barrier:
+                pauli_check_circuit.add_barrier(
+                    units=command.args,
+                    data=command.op.data,  # type: ignore
+                )
+            else:
+                pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
             if is_clifford_box:
-- 
2.43.0


From c21cacdc02bfaaafde8b8c50bb9bf5d2aaa60a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 22/48] fix: frame randomisation of circuits without gates to
 randomise

---
 .../frame_randomisation.py                    | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 133f4ec..95e0f08 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -18,7 +18,7 @@ from copy import copy
 from enum import Enum
 from functools import reduce
 from math import ceil
-from typing import Counter, List, Tuple
+from typing import Counter, List, Set, Tuple, Union
 
 from pytket import Circuit, OpType
 from pytket.backends import Backend
@@ -35,6 +35,26 @@ from qermit import (
 from qermit.taskgraph.mitex import backend_compile_circuit_shots_task_gen
 
 
+def _sample_circuits(
+    randomisation: Union[PauliFrameRandomisation, UniversalFrameRandomisation],
+    cycle_types: Set[OpType],
+    circuit: Circuit,
+    samples: int,
+) -> List[Circuit]:
+    """
+    Samples instances of frame randomisation. A circuit which has no gates
+    of a cycle has no frames to randomise, and so every instance is a copy of it.
+
+    :param randomisation: Frame randomisation to sample from.
+    :param cycle_types: Types of the gates which frames are put around.
+    :param circuit: Circuit to have frame randomisation applied.
+    :param samples: Number of frame randomisation instances to sample.
+    """
+    if not any(circuit.n_gates_of_type(op_type) for op_type in cycle_types):
+        return [circuit.copy() for _ in range(samples)]
+    return randomisation.sample_circuits(circuit, samples)
+
+
 class FrameRandomisation(Enum):
     @staticmethod
     def PauliFrameRandomisation(
@@ -51,7 +71,9 @@ class FrameRandomisation(Enum):
         pfr = PauliFrameRandomisation()
         pfr_shots = ceil(shots / samples)
         AutoRebase({OpType.CX, OpType.Rz, OpType.H, OpType.S}).apply(circuit)
-        pfr_circuits = pfr.sample_circuits(circuit, samples)
+        pfr_circuits = _sample_circuits(
+            pfr, {OpType.CX, OpType.H, OpType.S}, circuit, samples
+        )
         return [CircuitShots(Circuit=c, Shots=pfr_shots) for c in pfr_circuits]
 
     @staticmethod
@@ -74,7 +96,9 @@ class FrameRandomisation(Enum):
         ufr_shots = ceil(shots / samples)
 
         AutoRebase({OpType.CX, OpType.Rz, OpType.H}).apply(circuit)
-        ufr_circuits = ufr.sample_circuits(circuit, samples)
+        ufr_circuits = _sample_circuits(
+            ufr, {OpType.CX, OpType.Rz, OpType.H}, circuit, samples
+        )
         return [CircuitShots(Circuit=c, Shots=ufr_shots) for c in ufr_circuits]
 
 
-- 
2.43.0


From a0a5df2a6059822a1cb06f3015bcee8a5f2b72ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 23/48] fix: fold as many gates as an exactly achievable noise
 scaling asks for

---
 qermit/zero_noise_extrapolation/zne.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index c075b35..4b0aa24 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -140,11 +140,8 @@ class Folding(Enum):
 
         _allow_approx_fold = kwargs.get("_allow_approx_fold", True)
 
-        # All gates will be folded by an amount equal to the even number
-        # less than noise_scaling-1. By doing so the noise is scaled by the
-        # odd integer less than noise_scaling.
         num_folds_dict = {
-            i: (int(noise_scaling - 1) // 2)
+            i: 0
             for i, cmd in enumerate(circ.get_commands())
             if (
                 not (cmd.op.type == OpType.Barrier)
@@ -160,14 +157,21 @@ class Folding(Enum):
                 "Barrier and CircBox."
             )
 
+        # The total number of folds required. This is rounded as it may be
+        # slightly smaller than intended as a result of floating point errors.
+        total_folds = int(round(len(num_folds_dict) * (noise_scaling - 1) / 2, 6))
+
+        # All gates will be folded by an amount equal to the even number
+        # less than noise_scaling-1. By doing so the noise is scaled by the
+        # odd integer less than noise_scaling.
+        for i in num_folds_dict:
+            num_folds_dict[i] = total_folds // len(num_folds_dict)
+
         # The remaining noise scaling is achieved by randomly selecting gates
-        # to scale. fold_frac gives the fraction of gates which need to be
-        # folded to achieve noise_scaling. The appropriate fraction of
-        # gates is then randomly selected.
-        fold_frac = ((noise_scaling - 1) % 2) / 2
+        # to scale.
         to_fold = np.random.choice(
             list(num_folds_dict.keys()),
-            size=int(len(num_folds_dict.keys()) * fold_frac),
+            size=total_folds % len(num_folds_dict),
             replace=False,
         )
         for i in to_fold:
@@ -248,7 +252,9 @@ class Folding(Enum):
         # Calculate the number of gates that need to be folded. Note that only
         # non barrier commands should be folded so only these are counted.
         num_additional_commands = (noise_scaling - 1) * num_non_barrier_commands
-        num_folded_commands = int(num_additional_commands // 2)
+        # This is rounded as it may be slightly smaller than intended as a
+        # result of floating point errors.
+        num_folded_commands = int(round(num_additional_commands / 2, 6))
 
         true_noise_scaling = 1 + ((num_folded_commands * 2) / num_non_barrier_commands)
         # This check isolates the case where the noise folding that can be achieved is different
-- 
2.43.0


From 3d76b192df4031044641c5c736334658d974d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 24/48] fix: keep bits and implicit permutation when folding
 two qubit gates

---
 qermit/zero_noise_extrapolation/zne.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 4b0aa24..43bc46e 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -191,10 +191,12 @@ class Folding(Enum):
                 "in the compiled circuit, and i is an integer."
             )
 
-        # Copy qubit register of original circuit.
+        # Copy qubit and bit registers of original circuit.
         folded_circuit = Circuit()
         for qubit in circ.qubits:
             folded_circuit.add_qubit(qubit)
+        for bit in circ.bits:
+            folded_circuit.add_bit(bit)
 
         for i, gate in enumerate(circ.get_commands()):
             # Barriers are not folded and added as given.
@@ -215,7 +217,12 @@ class Folding(Enum):
             else:
                 folded_circuit.add_gate(gate.op, gate.args)
 
-        return [folded_circuit]
+        # Everything but the commands, such as the phase and the implicit
+        # permutation of the qubits, is as in the original circuit.
+        folded_c_dict = circ.to_dict()
+        folded_c_dict["commands"] = folded_circuit.to_dict()["commands"]
+
+        return [Circuit.from_dict(folded_c_dict)]
 
     @staticmethod
     def gate(circ: Circuit, noise_scaling: float, **kwargs) -> List[Circuit]:
-- 
2.43.0


From 226a89b9d914eb1db186fb7c2dd4d03ecefcf232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 25/48] fix: fold gates of circuits with an implicit
 permutation

---
 qermit/zero_noise_extrapolation/zne.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 43bc46e..38998e1 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -286,6 +286,10 @@ class Folding(Enum):
         command_circ_dict = {
             key: val for key, val in c_dict.items() if key != "commands"
         }
+        # Individual commands do not permute the qubits.
+        command_circ_dict["implicit_permutation"] = [
+            [qubit, qubit] for qubit in c_dict["qubits"]
+        ]
 
         folded_command_list = []
         # For each command, fold the appropriate number of times.
@@ -352,6 +356,10 @@ class Folding(Enum):
         command_circ_dict = {
             key: val for key, val in c_dict.items() if key != "commands"
         }
+        # Individual commands do not permute the qubits.
+        command_circ_dict["implicit_permutation"] = [
+            [qubit, qubit] for qubit in c_dict["qubits"]
+        ]
 
         for command in c_dict["commands"]:
             # Barriers are added to the circuit but otherwise effectively
-- 
2.43.0


From f0253dca83bb48653bd8ef98bb05fb87a38a9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 26/48] fix: keep the implicit permutation of circuits that
 errors are added to

---
 qermit/noise_model/pauli_error_transpile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/pauli_error_transpile.py b/qermit/noise_model/pauli_error_transpile.py
index 0b4c74a..aa1adf9 100644
--- a/qermit/noise_model/pauli_error_transpile.py
+++ b/qermit/noise_model/pauli_error_transpile.py
@@ -58,6 +58,12 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
                                 "Not a Pauli noise model." + f" Contains {pauli} error"
                             )
 
-        return noisy_circuit
+        # Any implicit permutation of the qubits is as in the original circuit.
+        noisy_circuit_dict = noisy_circuit.to_dict()
+        noisy_circuit_dict["implicit_permutation"] = circuit.to_dict()[
+            "implicit_permutation"
+        ]
+
+        return Circuit.from_dict(noisy_circuit_dict)
 
     return CustomPass(add_gates)
-- 
2.43.0


From 3285eee84564e46b892b0af076370ea8d66fef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 27/48] fix: keep qubits, bits and implicit permutation in near
 Clifford training circuits

---
 qermit/clifford_noise_characterisation/ccl.py | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index bc5681d..d4cbf06 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -95,6 +95,32 @@ def sample_weighted_clifford_angle(rz_angle: float, **kwargs) -> float:
     return 0.5 * random.choices(range(4), weights)[0]
 
 
+def _blank_circuit(c: Circuit) -> Circuit:
+    """
+    :param c: Circuit to take qubits and bits from.
+
+    :return: Circuit with the same qubits and bits as the given circuit, and no gates.
+    """
+    blank_circuit = Circuit()
+    for qubit in c.qubits:
+        blank_circuit.add_qubit(qubit)
+    for bit in c.bits:
+        blank_circuit.add_bit(bit)
+    return blank_circuit
+
+
+def _permute_as(new_circuit: Circuit, c: Circuit) -> Circuit:
+    """
+    :param new_circuit: Circuit with the same qubits as c, and no implicit permutation.
+    :param c: Circuit to take the implicit permutation of qubits from.
+
+    :return: New circuit with the implicit permutation of the given circuit.
+    """
+    circuit_dict = new_circuit.to_dict()
+    circuit_dict["implicit_permutation"] = c.to_dict()["implicit_permutation"]
+    return Circuit.from_dict(circuit_dict)
+
+
 def gen_state_circuits(
     c: Circuit, n_non_cliffords: int, n_pairs: int, total_state_circuits: int, **kwargs
 ) -> List[Circuit]:
@@ -135,7 +161,6 @@ def gen_state_circuits(
     # Work in CX, H, Rz basis for ease
     DecomposeBoxes().apply(c)
     ufr_rebase.apply(c)
-    c.flatten_registers()
     all_coms = c.get_commands()
 
     #  angles that make Clifford gates for S^n
@@ -162,7 +187,7 @@ def gen_state_circuits(
         # make special case where its not possible to swap pairs
         # produce state circuits until limit reached
         while len(state_circuits) < total_state_circuits:
-            new_circuit = Circuit(c.n_qubits, len(c.bits))
+            new_circuit = _blank_circuit(c)
             for i in range(len(all_coms)):
                 com = all_coms[i]
                 if com.op.type == OpType.Rz:
@@ -188,7 +213,7 @@ def gen_state_circuits(
                     new_circuit.add_gate(com.op.type, cast(List[UnitID], com.qubits))
 
             # all circuits accepted and run, some results later discarded if not accepted by Metropolis-Hastings rule
-            state_circuits.append(new_circuit)
+            state_circuits.append(_permute_as(new_circuit, c))
         return state_circuits
 
     # reassign variables where appropriate to guarantee there is always one pair of non-Clifford Clifford
@@ -214,7 +239,7 @@ def gen_state_circuits(
         non_clifford_pair_elements = random.sample(list(non_cliffords), n_pairs)
 
         # create new Circuit from scratch
-        new_circuit = Circuit(c.n_qubits, len(c.bits))
+        new_circuit = _blank_circuit(c)
         for i in range(len(all_coms)):
             com = all_coms[i]
             if com.op.type == OpType.Rz:
@@ -270,7 +295,7 @@ def gen_state_circuits(
                 new_circuit.add_gate(com.op.type, cast(List[UnitID], com.qubits))
 
         # all circuits accepted and run, some results later discarded if not accepted by Metropolis-Hastings rule
-        state_circuits.append(new_circuit)
+        state_circuits.append(_permute_as(new_circuit, c))
 
     return state_circuits
 
-- 
2.43.0


From c5bddabe6e104e1cd8c867f3c19b51c5340f7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 28/48] fix: measurements in circuits near Clifford training
 circuits are generated from

---
 qermit/clifford_noise_characterisation/ccl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index d4cbf06..49be981 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -203,7 +203,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
                 # Measure gate has special case, but can assume 1 qubit to 1 bit
-                elif com.op.type is OpType.Measure:
+                elif com.op.type == OpType.Measure:
                     new_circuit.Measure(com.qubits[0], com.bits[0])
                 # A special case for Barrier metaop
                 elif com.op.type == OpType.Barrier:
@@ -285,7 +285,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
             # Measure gate has special case, but can assume 1 qubit to 1 bit
-            elif com.op.type is OpType.Measure:
+            elif com.op.type == OpType.Measure:
                 new_circuit.Measure(com.qubits[0], com.bits[0])
             # A special case for Barrier metaop
             elif com.op.type == OpType.Barrier:
-- 
2.43.0


From ccda1d015de574e12914dec3db7fc99e39962749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 29/48] fix: keep the qubits of Clifford training circuits

---
 .../pec_learning_based.py                                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 845ed87..64eca03 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -136,16 +136,18 @@ def random_commuting_clifford(
 
         new_qps = QubitPauliString(cast(List[Qubit], new_qps_qbs), qps_paulis)
 
-        place_with_map(rand_cliff_circ, n_q_map)
+        # The circuit itself keeps its qubits, only the one simulated is relabelled.
+        placed_cliff_circ = rand_cliff_circ.copy()
+        place_with_map(placed_cliff_circ, n_q_map)
 
         # Check if state is supported, otherwise use shots, otherwise raise error
         if simulator_backend.supports_state:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend
+                placed_cliff_circ, new_qps, simulator_backend
             )
         elif simulator_backend.supports_shots or simulator_backend.supports_counts:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend, n_shots=n_shots
+                placed_cliff_circ, new_qps, simulator_backend, n_shots=n_shots
             )
         else:
             raise RuntimeError(
-- 
2.43.0


From 35e60029817adead14303291727147f45150d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 30/48] fix: number frame errors alike in a circuit and its
 Clifford training circuits

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 64eca03..bd18721 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -854,6 +854,10 @@ def list_pauli_gates(circ: Circuit) -> List[Dict]:
         i["opgroup"] for i in circ.to_dict()["commands"] if "Frame" in i["opgroup"]
     ]
 
+    # Errors are numbered in the order of the labels, as the order of commands
+    # differs between a circuit and the Clifford circuits derived from it.
+    frame_opgroup_list.sort(key=lambda opgroup: int(opgroup.split()[-1]))
+
     prob_list = []
 
     if len(frame_opgroup_list) <= 0:
-- 
2.43.0


From de35ab943032423404c2b94e7ce1682957bd4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 31/48] fix: prepare depolarising calibration states through
 implicit qubit permutations

---
 qermit/clifford_noise_characterisation/dfsc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 9a945ef..f34c4bb 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -74,8 +74,11 @@ def preparation_circuit_for_partition(
     # +1 eigenstate to circuit
     # use RemoveRedundancies after to minimise gates required in cosntruction
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
+    # basis changes are found from the gates of a circuit only
+    explicit_circuit = clifford_circuit.copy()
+    explicit_circuit.replace_implicit_wire_swaps()
     for string in partition:
-        transformed_string = apply_clifford_basis_change(string, clifford_circuit)
+        transformed_string = apply_clifford_basis_change(string, explicit_circuit)
         transformed_dict = transformed_string.map
         for qubit in transformed_dict:
             if transformed_dict[qubit] == Pauli.X:
-- 
2.43.0


From 279ada37f4f9b3b1d7df12e7dacfb8231495d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 32/48] fix: correct strings whose depolarising calibration
 state is a -1 eigenstate

---
 qermit/clifford_noise_characterisation/dfsc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index f34c4bb..f203e36 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -294,7 +294,9 @@ def DFSC_correction_task_gen(zero_threshold: float) -> MitTask:
         ):
             new_qpo = dict()
             for key in experiment_qpo._dict:
-                val = characterisation_qpo._dict[key]
+                # calibration states are +1 or -1 eigenstates, noise scales their
+                # value towards zero in either case
+                val = abs(characterisation_qpo._dict[key])
                 if val > zero_threshold:
                     new_qpo[key] = experiment_qpo._dict[key] / val
                 else:
-- 
2.43.0


From c19ea9e10b0fea3114199e37f660825e4077fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 33/48] fix: merging the experiments of an empty list

---
 qermit/zero_noise_extrapolation/zne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 38998e1..53bf889 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -797,7 +797,7 @@ def merge_experiments_task_gen() -> MitTask:
         return (
             [
                 QubitPauliOperator(dictionary=index_to_merged_qpo_dict.get(index, {}))
-                for index in range(max(experiment_index_list) + 1)
+                for index in range(max(experiment_index_list, default=-1) + 1)
             ],
         )
 
-- 
2.43.0


From 72f716f32e2a27ff3a8cedc3c60430c9bee29cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 34/48] fix: refuse polynomials of a higher degree than the
 data determine

---
 qermit/zero_noise_extrapolation/zne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 53bf889..d3f3f42 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -584,7 +584,7 @@ class Fit(Enum):
         """
 
         # Raised if the degree of the polynomial requested is negative, or too high to fit the data to
-        if (deg > len(x)) or (deg < 0):
+        if (deg > len(x) - 1) or (deg < 0):
             raise ValueError(
                 "The degree of the polynomial must be positive and can be at most m-1, where m is the number of data points."
             )
-- 
2.43.0


From d164c75e3c09e9bef1f2e78dd4d6af274c15470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 35/48] fix: combine quasi-probabilities with results by
 string, not by the order strings are returned in

---
 .../pec_learning_based.py                     | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index bd18721..027556a 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -14,7 +14,7 @@
 
 import re
 from copy import copy
-from typing import Any, Dict, List, Tuple, Union, cast
+from typing import Any, Dict, List, Optional, Tuple, Union, cast
 
 import numpy as np
 from pytket.backends import Backend
@@ -311,7 +311,7 @@ def gen_run_with_quasi_prob() -> MitTask:
         obj,
         prob_list: List[List[QuasiProbabilities]],
         noisy_circ_results: List[QubitPauliOperator],
-        noisy_list_structure: List[Dict[str, int]],
+        noisy_list_structure: List[Dict[str, Any]],
     ) -> Tuple[List[QubitPauliOperator]]:
         """Converts list of quasi probabilities and noisy circuit results into error mitigated results.
 
@@ -321,11 +321,15 @@ def gen_run_with_quasi_prob() -> MitTask:
         :param noisy_circ_results: List of MitEx results from noisy backend.
         :param noisy_list_structure: Information on the structure of the noisy results.
             This takes the form {'experiment':int, 'error':int}, where 'experiment' indexes the
-            initial circuit and 'error' indexes the Pauli error applied.
+            initial circuit and 'error' indexes the Pauli error applied. The entry 'strings' may
+            list the strings of the experiment, in the order of their quasi probabilities.
         :return: Error mitigated results.
         """
 
         circ_results_list = []
+        # Quasi probabilities are listed in the order of the strings of the
+        # experiment, which need not be their order in the results.
+        qps_list: List[Optional[List[QubitPauliString]]] = []
         # Creates new list of noisy results to match the form of the list
         # of quasi probabilities. Each inner list now consists of results
         # corresponding to one ideal circuit.
@@ -335,13 +339,22 @@ def gen_run_with_quasi_prob() -> MitTask:
             last = len(experiment[0])
             # Append portion of the list of noisy results that relate to one circuit.
             circ_results_list.append(noisy_circ_results[first : first + last])
+            qps_list.append(
+                noisy_list_structure[first].get("strings")
+                if first < len(noisy_list_structure)
+                else None
+            )
             first += last
 
         # Create new list with mitigated results
         em_expect_list = []
-        for circuit_results, circuit_prob in zip(circ_results_list, prob_list):
+        for circuit_results, circuit_prob, strings in zip(
+            circ_results_list, prob_list, qps_list
+        ):
             em_expect = {}
-            for i, qps in enumerate(circuit_results[0]._dict):
+            if strings is None:
+                strings = list(circuit_results[0]._dict)
+            for i, qps in enumerate(strings):
                 em_expect[qps] = 0
                 # Sum noisy results, adjusted by quasi probabilities.
                 for j, prob in enumerate(circuit_prob[i]):
@@ -373,7 +386,7 @@ def collate_results_task_gen() -> MitTask:
     def task(
         obj,
         noisy_results: List[QubitPauliOperator],
-        noisy_list_structure: List[Dict[str, int]],
+        noisy_list_structure: List[Dict[str, Any]],
         ideal_results: List[QubitPauliOperator],
         ideal_list_structure: List[Dict[str, int]],
     ) -> Tuple[List[List[List[List[Tuple[QubitPauliOperator, QubitPauliOperator]]]]]]:
@@ -897,7 +910,7 @@ def gen_get_noisy_circuits(backend: Backend, **kwargs) -> MitTask:
 
     def task(
         obj, wire: List[ObservableExperiment]
-    ) -> Tuple[List[ObservableExperiment], List[Dict[str, int]]]:
+    ) -> Tuple[List[ObservableExperiment], List[Dict[str, Any]]]:
         """Create list of circuts, build from original by adding an error
          to one of the Frame gates. Note that there will be a new circuit for each
          possible Pauli error.
@@ -939,7 +952,13 @@ def gen_get_noisy_circuits(backend: Backend, **kwargs) -> MitTask:
                     )
                 )
                 list_structure.append(
-                    {"experiment": experiment_num, "error": error_num}
+                    {
+                        "experiment": experiment_num,
+                        "error": error_num,
+                        "strings": list(
+                            experiment.ObservableTracker.qubit_pauli_operator._dict
+                        ),
+                    }
                 )
 
         return (
-- 
2.43.0


From 562b33d2e5c284b303ee10583ae3096bc041d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 36/48] fix: order bits like the calibration matrices when
 correcting for SPAM

---
 qermit/spam/full_transition_tomography.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 0f14950..8671535 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -506,7 +506,10 @@ def correct_transition_noise(
     # if qubit in subset has no bit, skip it
     char_bits_order = []
     unused_final_qbs = []
-    for subset in noise_characterisation.CorrelatedNodes:
+    # matrices are held from largest to smallest subset
+    for subset in sorted(
+        noise_characterisation.CorrelatedNodes, key=len, reverse=True
+    ):
         for q in subset:
             if q in final_measures_qb_map:
                 char_bits_order.append(final_measures_qb_map[q])
-- 
2.43.0


From c6ab304a180b85f6203ed315c74a7fb13a85e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 37/48] fix: normalise the calibration matrices of mid-circuit
 measurements

---
 qermit/spam/full_transition_tomography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 8671535..5569d34 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -482,7 +482,8 @@ def get_single_matrix(
     mat = matrices[entry_to_keep[0]]
     all_indices = list(range(int(log2(mat.shape[0]))))
     all_indices.remove(entry_to_keep[1])
-    return reduce_matrix(all_indices, mat)
+    single_mat = reduce_matrix(all_indices, mat)
+    return cast(np.ndarray, single_mat / np.sum(single_mat, axis=0))
 
 
 def correct_transition_noise(
-- 
2.43.0


From c61fa646dfc841c53339a6c2ec97750ecb1040bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 38/48] fix: keep the total number of counts when correcting
 for SPAM

---
 qermit/spam/full_transition_tomography.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 5569d34..9c2d6cf 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -17,7 +17,7 @@ import itertools
 from collections import OrderedDict, namedtuple
 from enum import Enum
 from functools import lru_cache
-from math import ceil, log2
+from math import log2
 from typing import Counter, Dict, Iterable, List, Optional, Tuple, cast
 
 import numpy as np
@@ -549,14 +549,19 @@ def correct_transition_noise(
     # enum type not callable, ignore
     outvec = corr_method(reduced_matrices, in_vec_norm)  # type: ignore
     outvec *= Ncounts
+    # round to whole counts, keeping the total: the largest fractions are rounded up
+    counts_vec = np.floor(outvec)
+    n_round_up = int(round(Ncounts - np.sum(counts_vec)))
+    round_up = np.argsort(counts_vec - outvec, kind="stable")[:n_round_up]
+    counts_vec[round_up] += 1
     # counter object with binary from distribution
     corrected_counts = {
         int_to_binary(index, len(char_bits_order)): Bcount
-        for index, Bcount in enumerate(outvec)
+        for index, Bcount in enumerate(counts_vec)
     }
     counter = Counter(
         {
-            OutcomeArray.from_readouts([key]): ceil(val)
+            OutcomeArray.from_readouts([key]): int(val)
             for key, val in corrected_counts.items()
         }
     )
-- 
2.43.0


From 2c2e4fcb61c7cfccdeb68f75cf19c991ef6d7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 39/48] fix: keep bits that are not measured when correcting
 for SPAM

---
 qermit/spam/full_transition_tomography.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 9c2d6cf..9f4e1eb 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -522,6 +522,10 @@ def correct_transition_noise(
         mid_measure_qbs.append(mid_circuit_measures_bq_map[bit])
         char_bits_order.append(bit)
 
+    # bits no characterised qubit is measured on are not corrected
+    uncorrected_bits = [bit for bit in result.c_bits if bit not in char_bits_order]
+    char_bits_order.extend(uncorrected_bits)
+
     # get counts object for returning later
     counts = result.get_counts(cbits=char_bits_order)
     in_vec = np.zeros(1 << len(char_bits_order), dtype=float)
@@ -545,6 +549,8 @@ def correct_transition_noise(
             )
         )
 
+    reduced_matrices.extend(np.eye(2) for _ in uncorrected_bits)
+
     # with counts and characterisation matrices orders matching, correct distribution
     # enum type not callable, ignore
     outvec = corr_method(reduced_matrices, in_vec_norm)  # type: ignore
-- 
2.43.0


From 779ba92a363e91bc9c46e4e2daa1afc6b39ab8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 40/48] fix: correct the SPAM of circuits with an implicit
 qubit permutation

---
 qermit/spam/full_spam_correction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qermit/spam/full_spam_correction.py b/qermit/spam/full_spam_correction.py
index f567705..4b7340c 100644
--- a/qermit/spam/full_spam_correction.py
+++ b/qermit/spam/full_spam_correction.py
@@ -193,7 +193,12 @@ def gen_get_bit_maps_task() -> MitTask:
         """
         bq_maps = []
         for c in circuit_shots:
-            qb_map = c[0].qubit_to_bit_map
+            # map given by commands, as for a circuit with an implicit qubit permutation
+            # "qubit_to_bit_map" gives the names of qubits at the end of the circuit
+            measured_qbs = get_mid_circuit_measure_map(c[0])
+            qb_map = {
+                measured_qbs[bit]: bit for bit in c[0].qubit_to_bit_map.values()
+            }
             # if condition met, implies that mid circuit measurement has ocurred and not accounted for
             # in this case, iterate through circuit commands to get Qubits for all Bits
             if len(qb_map) != len(c[0].bits):
-- 
2.43.0


From b32dfaf5a4910217b9c3ca36a7aa6ad16e230a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 41/48] fix: keep the circuits frame randomisation is run on

---
 .../frame_randomisation.py                    | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 95e0f08..60e6b36 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -134,6 +134,30 @@ def frame_randomisation_circuits_task_gen(
     )
 
 
+def copy_circuits_task_gen() -> MitTask:
+    """
+    Returns a MitTask object that copies each circuit in wire, so that the circuits
+    passed are not modified by later tasks.
+    """
+
+    def task(obj, circs_shots: List[CircuitShots]) -> Tuple[List[CircuitShots]]:
+        """
+        :param circ_shots: A list of tuple of circuits and shots.
+
+        :return: Copies of the circuits, with the same shots.
+        """
+        return (
+            [
+                CircuitShots(Circuit=circ.copy(), Shots=shots)
+                for circ, shots in circs_shots
+            ],
+        )
+
+    return MitTask(
+        _label="CopyCircuits", _n_in_wires=1, _n_out_wires=1, _method=task
+    )
+
+
 def frame_randomisation_result_task_gen(samples: int) -> MitTask:
     """
     Returns a MitTask object that sequentially collates samples number of BackendResult objects into single
@@ -199,6 +223,8 @@ def gen_Frame_Randomisation_MitRes(backend: Backend, samples: int, **kwargs) ->
     )
     _mitres.prepend(backend_compile_circuit_shots_task_gen(backend))
     _mitres.prepend(frame_randomisation_circuits_task_gen(samples, _fr_type))
+    # circuits are rebased before frames are added, and are not ours to modify
+    _mitres.prepend(copy_circuits_task_gen())
     _mitres.append(
         frame_randomisation_result_task_gen(samples),
     )
-- 
2.43.0


From 61cba322a0a8921624b3ab34f87673623832c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 42/48] fix: characterise circuits with barriers by DFSC

---
 qermit/clifford_noise_characterisation/dfsc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index f203e36..299e108 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -19,6 +19,7 @@ from typing import Dict, List, Tuple, Union, cast
 from numpy import mean
 from pytket import Circuit
 from pytket.backends import Backend
+from pytket.passes import RemoveBarriers
 from pytket.pauli import Pauli, QubitPauliString
 from pytket.tailoring import apply_clifford_basis_change
 from pytket.transform import Transform
@@ -77,6 +78,7 @@ def preparation_circuit_for_partition(
     # basis changes are found from the gates of a circuit only
     explicit_circuit = clifford_circuit.copy()
     explicit_circuit.replace_implicit_wire_swaps()
+    RemoveBarriers().apply(explicit_circuit)
     for string in partition:
         transformed_string = apply_clifford_basis_change(string, explicit_circuit)
         transformed_dict = transformed_string.map
-- 
2.43.0


From a4d0694f99b268d4c0927c913300d59c052bbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 43/48] fix: propagate Paulis through circuits with an implicit
 qubit permutation

---
 qermit/noise_model/qermit_pauli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/qermit_pauli.py b/qermit/noise_model/qermit_pauli.py
index 2b16823..8b25708 100644
--- a/qermit/noise_model/qermit_pauli.py
+++ b/qermit/noise_model/qermit_pauli.py
@@ -115,7 +115,11 @@ class QermitPauli:
         :param circuit: Circuit to be applied.
         """
 
-        for command in circuit.get_commands():
+        # Any implicit permutation of the qubits acts after the commands.
+        explicit_circuit = circuit.copy()
+        explicit_circuit.replace_implicit_wire_swaps()
+
+        for command in explicit_circuit.get_commands():
             if command.op.type == OpType.Barrier:
                 continue
 
-- 
2.43.0


From 3f8f9eb492d02a0ffe43b6cd630319d4c2d7278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 44/48] fix: propagate errors forward through circuits with an
 implicit qubit permutation

---
 qermit/noise_model/noise_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index aa103b0..eb9c2df 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -730,4 +730,10 @@ class NoiseModel:
                     qubits=cast(List[Qubit], command.args),
                 )
 
+        if direction == Direction.forward:
+            # Any implicit permutation of the qubits acts after the commands.
+            permutation_dict = cliff_circ.to_dict()
+            permutation_dict["commands"] = []
+            pauli_error.apply_circuit(Circuit.from_dict(permutation_dict))
+
         return pauli_error
-- 
2.43.0


From 8e1f33a2d730efd7c95e73606a0f1ef87e500ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 45/48] fix: keep the implicit qubit permutation when boxing
 Clifford subcircuits

---
 qermit/coherent_pauli_checks/box_clifford_subcircuits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 2eb89a7..5a9539a 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -303,7 +303,13 @@ def _box_clifford_transform(circuit: Circuit) -> Circuit:
 
             implemented_commands[node_to_implement_list[0]] = True
 
-    return clifford_box_circuit
+    # Any implicit permutation of the qubits is as in the original circuit.
+    clifford_box_circuit_dict = clifford_box_circuit.to_dict()
+    clifford_box_circuit_dict["implicit_permutation"] = circuit.to_dict()[
+        "implicit_permutation"
+    ]
+
+    return Circuit.from_dict(clifford_box_circuit_dict)
 
 
 def BoxClifford() -> BasePass:
-- 
2.43.0


From 6fe07a6d6fb5c8859015c1dc2f0abc672d1404b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 46/48] fix: keep the implicit qubit permutation when adding
 Pauli checks

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 0c40ab9..36886ca 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -121,17 +121,10 @@ class PauliSampler(ABC):
                 for end_stabiliser, control_qubit in zip(
                     reversed(end_stabiliser_list), reversed(control_qubit_list)
                 ):
-                    for clifford_command in clifford_subcircuit.get_commands():
-                        if clifford_command.op.type == OpType.Barrier:
-                            continue
-
-                        # TODO: an error would be raised here if clifford_command
-                        # is not Clifford. It could be worth raising a clearer
-                        # error.
-                        end_stabiliser.apply_gate(
-                            op=clifford_command.op,
-                            qubits=clifford_command.qubits,
-                        )
+                    # TODO: an error would be raised here if clifford_subcircuit
+                    # is not Clifford. It could be worth raising a clearer
+                    # error.
+                    end_stabiliser.apply_circuit(circuit=clifford_subcircuit)
 
                     pauli_check_circuit.add_barrier(command.args + [control_qubit])
 
@@ -161,7 +154,18 @@ class PauliSampler(ABC):
                         bit=measure_bit,
                     )
 
-        return pauli_check_circuit, postselect_bits
+        # Any implicit permutation of the qubits is as in the original circuit.
+        pauli_check_circuit_dict = pauli_check_circuit.to_dict()
+        original_qubits = [qubit.to_list() for qubit in circuit.qubits]
+        pauli_check_circuit_dict["implicit_permutation"] = circuit.to_dict()[
+            "implicit_permutation"
+        ] + [
+            [qubit, qubit]
+            for qubit in pauli_check_circuit_dict["qubits"]
+            if qubit not in original_qubits
+        ]
+
+        return Circuit.from_dict(pauli_check_circuit_dict), postselect_bits
 
     @staticmethod
     def _decompose_clifford_subcircuit_box(clifford_subcircuit_box: Command) -> Circuit:
-- 
2.43.0


From a913b142257eb623def8dc4b8f215b4535e9ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 47/48] fix: simulate training circuits with an implicit qubit
 permutation as they are measured

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 027556a..419a9ef 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -139,6 +139,8 @@ def random_commuting_clifford(
         # The circuit itself keeps its qubits, only the one simulated is relabelled.
         placed_cliff_circ = rand_cliff_circ.copy()
         place_with_map(placed_cliff_circ, n_q_map)
+        # Implicit permutations are not accounted for when simulating expectations.
+        placed_cliff_circ.replace_implicit_wire_swaps()
 
         # Check if state is supported, otherwise use shots, otherwise raise error
         if simulator_backend.supports_state:
-- 
2.43.0


From 81734a387c677d91d0245c9f19453ccd3f54cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 48/48] fix: pass keyword arguments of
 MockQuantinuumBackend.get_result on

---
 qermit/noise_model/mock_quantinuum_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/noise_model/mock_quantinuum_backend.py b/qermit/noise_model/mock_quantinuum_backend.py
index 344534e..ba0a5bd 100644
--- a/qermit/noise_model/mock_quantinuum_backend.py
+++ b/qermit/noise_model/mock_quantinuum_backend.py
@@ -119,4 +119,4 @@ class MockQuantinuumBackend(QuantinuumBackend):
         :param handle: handle to results
         :return: Results corresponding to handle.
         """
-        return self.noisy_backend.get_result(handle, *kwargs)
+        return self.noisy_backend.get_result(handle, **kwargs)
-- 
2.43.0

