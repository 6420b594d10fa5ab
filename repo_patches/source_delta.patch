From 7179da43d9625cc1a282b567389b079c2697e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:54 +0000
Subject: [PATCH 01/35] fix: use collections.abc.Sequence (collections.Sequence
 was removed in Python 3.10), so input-driven evolution works

---
 netomaton/evolution.py | 3 ++-
 netomaton/utils.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0272482..d696e89 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -1,4 +1,5 @@
 import collections
+import collections.abc
 from enum import Enum
 from .state import State
 
@@ -418,7 +419,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.Sequence)
+    return isinstance(obj, collections.abc.Sequence)
 
 
 class _TimestepInputFunction:
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 15eb8ee..cf8c02d 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -4,7 +4,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib.animation as animation
 import matplotlib.collections as mcoll
-import collections
+import collections.abc
 from .state import State
 from .substitution_system import SubstitutionSystem
 try:
@@ -273,7 +273,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     def _get_item(items, i):
         if isinstance(items, str):
             return items
-        if isinstance(items, collections.Sequence):
+        if isinstance(items, collections.abc.Sequence):
             return items[i]
         return items
 
-- 
2.43.0


From ea3032a6e2a683d273274bf8a3ec4fd183e350cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 02/35] fix: binary encoding keeps tuples, numpy scalars and
 large integers, so networks and states holding them can be copied and
 compressed

---
 netomaton/state.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 5a4723e..826df33 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -1,6 +1,7 @@
 import msgpack
 import gc
 import networkx as nx
+import numpy as np
 
 
 class Network:
@@ -323,6 +324,10 @@ class State:
 
 
 class _Compressor:
+    # codes of the extension types used for values that have no counterpart in the binary format
+    _TUPLE = 1
+    _BIG_INT = 2
+
     def __init__(self):
         pass
 
@@ -335,7 +340,8 @@ class _Compressor:
 
         :return: packed bytes
         """
-        return msgpack.packb(obj)
+        # with strict types, tuples (and instances of subclasses of the basic types) are passed to _encode
+        return msgpack.packb(obj, default=_Compressor._encode, strict_types=True)
 
     @staticmethod
     def decompress(packed):
@@ -347,6 +353,28 @@ class _Compressor:
         :return: a decompressed object
         """
         gc.disable()
-        d = msgpack.unpackb(packed, strict_map_key=False)
+        d = msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._decode)
         gc.enable()
-        return d
\ No newline at end of file
+        return d
+
+    @staticmethod
+    def _encode(obj):
+        if isinstance(obj, np.generic):
+            return obj.item()
+        if isinstance(obj, tuple):
+            return msgpack.ExtType(_Compressor._TUPLE, _Compressor.compress(list(obj)))
+        if type(obj) is int:
+            # the binary format is limited to 64-bit integers
+            return msgpack.ExtType(_Compressor._BIG_INT, str(obj).encode())
+        for basic_type in (dict, list, str, int, float, bytes):
+            if isinstance(obj, basic_type):
+                return basic_type(obj)
+        raise TypeError("can not compress %r object" % type(obj).__name__)
+
+    @staticmethod
+    def _decode(code, data):
+        if code == _Compressor._TUPLE:
+            return tuple(msgpack.unpackb(data, strict_map_key=False, ext_hook=_Compressor._decode))
+        if code == _Compressor._BIG_INT:
+            return int(data.decode())
+        return msgpack.ExtType(code, data)
-- 
2.43.0


From 4d5ee75c9b9761f5a2573b86ea331aaf483224d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 03/35] fix: decompression restores the garbage collector's
 previous state, also when unpacking fails

---
 netomaton/state.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 826df33..260450a 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -1,5 +1,6 @@
 import msgpack
 import gc
+import threading
 import networkx as nx
 import numpy as np
 
@@ -328,6 +329,9 @@ class _Compressor:
     _TUPLE = 1
     _BIG_INT = 2
 
+    # the garbage collector is switched off for the whole process while unpacking
+    _gc_lock = threading.Lock()
+
     def __init__(self):
         pass
 
@@ -352,10 +356,14 @@ class _Compressor:
 
         :return: a decompressed object
         """
-        gc.disable()
-        d = msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._decode)
-        gc.enable()
-        return d
+        with _Compressor._gc_lock:
+            gc_was_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                return msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._decode)
+            finally:
+                if gc_was_enabled:
+                    gc.enable()
 
     @staticmethod
     def _encode(obj):
-- 
2.43.0


From 91e49acbb76ad061d1962c62df739acea073cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 04/35] fix: evolving for zero timesteps ends with the initial
 state instead of never

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d696e89..5f72015 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -427,7 +427,7 @@ class _TimestepInputFunction:
         self._num_steps = num_steps
 
     def __call__(self, t, activities, network):
-        if t == self._num_steps:
+        if t >= self._num_steps:
             return None
         return "__timestep__"
 
-- 
2.43.0


From 5a2072794b8f33ad1b41094f47f563b1c4f9abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:21 +0000
Subject: [PATCH 05/35] fix: past activities are available when activities are
 not persisted

---
 netomaton/evolution.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 5f72015..16e0fcd 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -189,13 +189,16 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     if topology_rule is None:
         neighbourhood_map = _get_neighbourhood_map(network)
 
+    # the activities of the timesteps that precede the last timestep, with as many entries as there are past conditions;
+    # these are tracked here, and not read from the trajectory, since the activities may not be persisted there
+    past = _get_past_activities(past_conditions)
+
     t = 1
     while True:
         inp = input_fn(t, prev_activities, prev_network)
         if inp is None:
             break
 
-        past = _get_past_activities(past_conditions, trajectory, t)
         curr_activities = {}
         trajectory[t] = State(compression=compression)
 
@@ -227,6 +230,8 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         else:
             raise Exception("unsupported update_order: %s" % update_order)
 
+        if past is not None:
+            past = past[1:] + [prev_activities]
         prev_activities = curr_activities
         prev_network = curr_network
 
@@ -383,19 +388,10 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
     return network
 
 
-def _get_past_activities(past_conditions, trajectory, t):
-    if past_conditions and len(past_conditions) > 0:
-        past_activities = [None]*len(past_conditions)
-        last_t = t - 1
-        for i in range(len(past_conditions)-1, -1, -1):
-
-            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else trajectory[last_t-1].activities
-            if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):
-                curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}
-
-            past_activities[i] = curr_past_cond
-            last_t -= 1
-        return past_activities
+def _get_past_activities(past_conditions):
+    if past_conditions is not None and len(past_conditions) > 0:
+        return [{i: v for i, v in enumerate(p)} if not isinstance(p, dict) and isinstance(p, (list, np.ndarray)) else p
+                for p in past_conditions]
     return None
 
 
-- 
2.43.0


From dbae6d1e9f9f9f9b1436a78cacf1317d35693e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 06/35] fix: nodes can be removed by other nodes' rules, more
 than once, and together with a perturbation

---
 netomaton/evolution.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 16e0fcd..fa8b62f 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -205,7 +205,8 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         if update_order is UpdateOrder.ACTIVITIES_FIRST:
             added_nodes, removed_nodes = evolve_activities(activity_rule, t, inp, curr_activities, prev_activities,
                                                            trajectory, prev_network, past, perturbation, persist_activities,
-                                                           memoize, memo_table, neighbourhood_map, memoization_key)
+                                                           memoize, memo_table, neighbourhood_map, memoization_key,
+                                                           remove_activities=True)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
             if added_nodes or removed_nodes:
@@ -244,7 +245,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
 
 def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, network,
                       past, perturbation, persist_activities, memoize, memoization_table, neighbourhood_map,
-                      memoization_key):
+                      memoization_key, remove_activities=False):
     added_nodes = []
     removed_nodes = []
     if activity_rule:
@@ -252,6 +253,12 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
 
+        # a node may also have been removed by the rule of another node, or removed more than once
+        removed_nodes = list(dict.fromkeys(removed_nodes))
+        if remove_activities:
+            for node_label in removed_nodes:
+                curr_activities.pop(node_label, None)
+
         if added_nodes:
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
@@ -287,8 +294,10 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         if ctx.removed_nodes:
             removed_nodes.extend(ctx.removed_nodes)
 
-        if node_label not in ctx.removed_nodes:
-            curr_activities[node_label] = new_activity
+        if node_label in ctx.removed_nodes:
+            continue
+
+        curr_activities[node_label] = new_activity
 
         if perturbation is not None:
             pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-- 
2.43.0


From cea31e4d624f51a3540e33e61100ce2c013aa467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 07/35] fix: neighbourhoods are not frozen once nodes are added
 or removed together with a topology rule

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index fa8b62f..ef68a54 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -209,7 +209,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                                            remove_activities=True)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
-            if added_nodes or removed_nodes:
+            if topology_rule is None and (added_nodes or removed_nodes):
                 # re-build the neighbourhood map, since the network has changed
                 neighbourhood_map = _get_neighbourhood_map(curr_network)
 
-- 
2.43.0


From 01b9e894acce856ed8923eaca296d1e19cd3aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 08/35] fix: an adjacency matrix keeps its nodes without
 connections

---
 netomaton/topology/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 2410044..db390c1 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -88,6 +88,9 @@ def from_adjacency_matrix(adj):
         for j, val in enumerate(row):
             if val != 0:
                 network.add_edge(i, j, weight=val)
+    # the nodes without connections are also part of the network
+    for i in range(len(adj)):
+        network.add_node(i)
     return network
 
 
-- 
2.43.0


From 68ef774ebdc8df0b1ce3fdfaac40bd687053a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 09/35] fix: a lattice has all its nodes, and exactly one
 self-loop per node when asked for

---
 netomaton/topology/networks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index db390c1..925dccc 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -61,10 +61,14 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
     G = nx.convert_node_labels_to_integers(G, first_label=first_label)
     network = ntm.Network()
     for edge in G.edges:
-        if edge[0] == edge[1] and not self_loops:
+        if edge[0] == edge[1]:
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
+    for node in G.nodes:
+        network.add_node(node)
+        if self_loops:
+            network.add_edge(node, node)
     return network
 
 
-- 
2.43.0


From c35509f29b26d7debe56d98bcc630c999ab9daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 10/35] fix: the majority rule resolves ties at random again
 (statistics.mode no longer raises since Python 3.8)

---
 netomaton/rules/activity_rule.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index 4d11ea7..18616bf 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -1,4 +1,4 @@
-from statistics import mode, StatisticsError
+from collections import Counter
 import numpy as np
 
 
@@ -40,11 +40,13 @@ def majority_rule(ctx):
 
     :return: the new activity for the node with the given neighbourhood
     """
-    try:
-        return mode(ctx.neighbourhood_activities)
-    except StatisticsError:
-        # a StatisticsError is raised if there is a tie, and there is no single most common element
-        return np.random.choice(ctx.neighbourhood_activities)
+    counts = Counter(ctx.neighbourhood_activities)
+    highest_count = max(counts.values())
+    most_common = [a for a in ctx.neighbourhood_activities if counts[a] == highest_count]
+    if len(most_common) > highest_count:
+        # there is a tie, and there is no single most common element
+        return most_common[np.random.randint(len(most_common))]
+    return most_common[0]
 
 
 def bits_to_int(bits):
-- 
2.43.0


From 10415d03a89e0fa1e78237cf01fba34200021dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 11/35] fix: randomizing an asynchronous rule's cycle keeps the
 given nodes

---
 netomaton/asynchronous_rule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2016ae7..11b42f2 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -23,18 +23,18 @@ class AsynchronousRule:
         if update_order is None and n is None:
             raise Exception("either update_order or n must be specified")
         self._activity_rule = activity_rule
+        self._nodes = list(range(n)) if update_order is None else list(update_order)
         if update_order is not None:
             self._update_order = update_order
         else:
-            self._shuffle_update_order(n)
+            self._shuffle_update_order()
         self._curr = 0
         self._num_applied = 0
         self._randomize_each_cycle = randomize_each_cycle
 
-    def _shuffle_update_order(self, n):
-        self._update_order = np.arange(n)
+    def _shuffle_update_order(self):
+        self._update_order = list(self._nodes)
         np.random.shuffle(self._update_order)
-        self._update_order = self._update_order.tolist()
 
     def __call__(self, ctx):
         if ctx.node_label in self._update_order:
@@ -53,4 +53,4 @@ class AsynchronousRule:
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-                self._shuffle_update_order(len(self._update_order))
+                self._shuffle_update_order()
-- 
2.43.0


From 58ef84468ef6bdd6a89c3f72f96cdd296f1cef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 12/35] fix: the relations of a configuration keep their order
 when there are more than nine

---
 netomaton/wolfram_physics_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 36be62e..a0bacdc 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -70,7 +70,8 @@ class WolframPhysicsModel:
                 merged_hyperedges[edge_label] = tuple(merged)
 
         edges.update(merged_hyperedges)
-        config = [edges[label] for label in sorted(edges)]  # sort so that we can preserve the order of the relations
+        # sort so that we can preserve the order of the relations (the labels are numbers)
+        config = [edges[label] for label in sorted(edges, key=lambda label: (len(label), label))]
 
         return config
 
-- 
2.43.0


From 341f03513963b1b843730dc9c845789d9dbc6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 13/35] fix: the head of a head-centric Turing machine reads
 tape symbols whole, whatever their type

---
 netomaton/turing_machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 9d9e20d..4dedb38 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -119,7 +119,8 @@ class HeadCentricTuringMachine(TuringMachine):
         if self._halt:
             return None
 
-        return self._tape_history[-1][self._head_pos]
+        # the symbol is given as the input of the single node, so that it is received whole, whatever its type
+        return [self._tape_history[-1][self._head_pos]]
 
     def activities_for_plotting(self, trajectory):
         activities = get_activities_over_time_as_list(trajectory)
-- 
2.43.0


From 7e3d7470564546e2174aaeabf6fc70927e417ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 14/35] fix: substitution systems whose symbols have all
 vanished can be padded and rendered

---
 netomaton/substitution_system.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index a561ae2..c246fe0 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -78,7 +78,8 @@ class SubstitutionSystem:
 
     @staticmethod
     def pad(trajectory):
-        activities = {t: s.activities for t, s in enumerate(trajectory)}
+        # there are no activities when no symbols are left
+        activities = {t: s.activities or {} for t, s in enumerate(trajectory)}
         activities = [[v for e, v in sorted(activities[k].items())] for k in sorted(activities)]
         max_len = np.max([len(a) for a in activities])
         return np.asarray([np.pad(a, (0, max_len - len(a)), 'constant', constant_values=0) for a in activities])
@@ -87,6 +88,7 @@ class SubstitutionSystem:
     def to_string(trajectory):
         s = []
         for state in trajectory:
-            s.append("".join([state.activities[k] for k in sorted(state.activities)]))
+            activities = state.activities or {}  # there are no activities when no symbols are left
+            s.append("".join([activities[k] for k in sorted(activities)]))
         return s
 
-- 
2.43.0


From d98a58fd13d26e1d0ed375c573f6acbc31ec8377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:51 +0000
Subject: [PATCH 15/35] fix: a seed of zero makes fungal growth reproducible

---
 netomaton/fungal_growth_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index c1adeb7..5f7e1b9 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -29,7 +29,7 @@ class FungalGrowthModel:
         """
         self._R_E = R_E
         self._d = 4  # the maximum node degree allowable
-        if seed:
+        if seed is not None:
             np.random.seed(seed)
         self._verbose = verbose
 
-- 
2.43.0


From f567218cfbaea4d206e245b5963d8322b54f579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:51 +0000
Subject: [PATCH 16/35] fix: node entropies and mutual informations keep states
 of several characters whole

---
 netomaton/analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index f8b2430..bfab9eb 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -21,8 +21,8 @@ def shannon_entropy(string):
 def average_node_entropy(trajectory_or_activities):
     """
     Calculates the average node entropy in the given automaton evolution, where entropy is the Shannon entropy.
-    The state of a node over time is represented as a string, and its entropy is calculated. The same is done for all
-    nodes in this Network Automaton, and the average entropy is returned.
+    The state of a node over time is represented as a sequence of strings, and its entropy is calculated. The same is
+    done for all nodes in this Network Automaton, and the average entropy is returned.
 
     :param trajectory_or_activities: a list of States that represents the evolution of the automaton, or a list of
                                      lists that represents the evolution of the automaton, where an inner list
@@ -40,7 +40,7 @@ def average_node_entropy(trajectory_or_activities):
     num_cols = len(activities[0])
     entropies = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         entropy = shannon_entropy(node_states_over_time)
         entropies.append(entropy)
     return np.mean(entropies)
@@ -109,7 +109,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])
         mutual_informations.append(mi)
     return np.mean(mutual_informations)
-- 
2.43.0


From a13999375a49ea422f0b3aa204203a2e5081c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:51 +0000
Subject: [PATCH 17/35] fix: the temporal distance is limited by the number of
 timesteps, not of nodes

---
 netomaton/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index bfab9eb..cefa6bb 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -105,7 +105,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
     else:
         activities = trajectory_or_activities
     num_cols = len(activities[0])
-    if not (0 < temporal_distance < num_cols):
+    if not (0 < temporal_distance < len(activities)):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-- 
2.43.0


From 392b01a9a8cd0dde6f276291d8a171e452d33af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:00 +0000
Subject: [PATCH 18/35] fix: string labels are quoted in the page of a network

---
 netomaton/vis/vis_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/netomaton/vis/vis_utils.py b/netomaton/vis/vis_utils.py
index fef9262..c2d3c34 100644
--- a/netomaton/vis/vis_utils.py
+++ b/netomaton/vis/vis_utils.py
@@ -1,3 +1,4 @@
+import json
 import os
 import webbrowser
 import networkx as nx
@@ -39,9 +40,14 @@ def show_network(G, name="out.html", is_notebook=False):
     # TODO if we are in a notebook, then there are some extra steps to render the html
 
 
+def _js(label):
+    # labels that are strings need quotes in the page's script
+    return json.dumps(label) if isinstance(label, str) else str(label)
+
+
 def get_html(G):
 
-    nodes = "[" + ",".join(["{id: " + str(n) + ", label: " + str(n) + ", shape: \"dot\", size: 10}" for n in G.nodes]) + "]"
+    nodes = "[" + ",".join(["{id: " + _js(n) + ", label: " + _js(n) + ", shape: \"dot\", size: 10}" for n in G.nodes]) + "]"
 
     edges = []
     self_references = {}
@@ -52,7 +58,7 @@ def get_html(G):
                 self_references[(e[0], e[1])] = 0
             self_references[(e[0], e[1])] += 1
             self_reference = ", selfReferenceSize: %s" % (15 + self_references[(e[0], e[1])]*5)
-        edges.append("{from: %s, to: %s, arrows: \"to\", weight: 1%s}" % (str(e[0]), str(e[1]), self_reference))
+        edges.append("{from: %s, to: %s, arrows: \"to\", weight: 1%s}" % (_js(e[0]), _js(e[1]), self_reference))
     edges = "[" + ",".join(edges) + "]"
 
     ret = """<html><head>
-- 
2.43.0


From 993ae6a8268c6610fc25fc665180d74ccecd24a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 19/35] fix: an update order listing a node more than once got
 its turns out of step

---
 netomaton/asynchronous_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 11b42f2..d3f2a80 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -30,6 +30,8 @@ class AsynchronousRule:
             self._shuffle_update_order()
         self._curr = 0
         self._num_applied = 0
+        # a node may be listed more than once, but it is visited once per timestep
+        self._num_listed = len(set(self._update_order))
         self._randomize_each_cycle = randomize_each_cycle
 
     def _shuffle_update_order(self):
@@ -49,7 +51,7 @@ class AsynchronousRule:
         return c == self._update_order[self._curr]
 
     def _check_for_end_of_cycle(self):
-        if self._num_applied == len(self._update_order):
+        if self._num_applied == self._num_listed:
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-- 
2.43.0


From d920cefa8fd611a37f0fefe111ef0830f3490254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:28 +0000
Subject: [PATCH 20/35] fix: a substitution system wrote its constants into the
 caller's rules

---
 netomaton/substitution_system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index c246fe0..61f8298 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -1,13 +1,14 @@
+import copy
 import numpy as np
 from .state import Network
 
 
 class SubstitutionSystem:
     def __init__(self, axiom, rules, constants=None):
-        self._rules = rules
+        self._rules = copy.copy(rules)  # the given rules are left as they are
         self._constants = constants if constants else []
         self._rules.update({c: c for c in self._constants})
-        self._neighbourhood_size = self._get_neighbourhood_size(rules)
+        self._neighbourhood_size = self._get_neighbourhood_size(self._rules)
         self._initial_conditions = [s for s in axiom]
         self._dtype = type(self._initial_conditions[0])
         self._network = self._init_network(len(self._initial_conditions))
-- 
2.43.0


From 11866139f95ff7d90d462a6736fa84c66c7ebbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:35 +0000
Subject: [PATCH 21/35] fix: plot1D applies a single ylim tuple to the axis
 instead of one number per series

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index cf8c02d..3c2bf20 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -298,7 +298,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
         if xlim:
             current_axis.set_xlim(xlim)
         if ylim:
-            current_axis.set_ylim(_get_item(ylim, i % 2))
+            current_axis.set_ylim(ylim if any(np.isscalar(v) for v in ylim) else _get_item(ylim, i % 2))
         if legend:
             current_axis.legend(**legend)
 
-- 
2.43.0


From 7d7059b782d1ef03bdcaa223fe1171591b0b2450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:35 +0000
Subject: [PATCH 22/35] fix: plot1D accepts a list of legend dicts, as
 documented

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index 3c2bf20..c0c3827 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -300,7 +300,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
         if ylim:
             current_axis.set_ylim(ylim if any(np.isscalar(v) for v in ylim) else _get_item(ylim, i % 2))
         if legend:
-            current_axis.legend(**legend)
+            current_axis.legend(**_get_item(legend, i % 2))
 
         current_axis_idx += 1
 
-- 
2.43.0


From 28401903ce268ecd45b5ea0e7f205ed90c97ce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:35 +0000
Subject: [PATCH 23/35] fix: animate_hex draws the colours between the given
 vmin and vmax

---
 netomaton/hexplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netomaton/hexplot.py b/netomaton/hexplot.py
index 3a54535..9306e37 100644
--- a/netomaton/hexplot.py
+++ b/netomaton/hexplot.py
@@ -77,6 +77,7 @@ def animate_hex(trajectory, title='', shape=None, save=False, interval=50, color
         patches.append(hex)
 
     p = PatchCollection(patches, match_original=True, cmap=m.get_cmap())
+    p.set_clim(vmin, vmax)
     ax.add_collection(p)
 
     i = {'index': 0}
-- 
2.43.0


From e94a12053d5cfc45c0e0c23d8d66203abe6d9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 24/35] fix: a substitution system evolved again links its
 first new symbol to one of the run before

---
 netomaton/substitution_system.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index 61f8298..249753e 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -15,6 +15,8 @@ class SubstitutionSystem:
         self._last_node_index = len(self._initial_conditions) - 1
         self._num_nodes_added = 0
         self._last_timestep = 0
+        self._last_activities = None
+        self._first_node_label = None
 
     def _get_neighbourhood_size(self, rules):
         neighbourhood_size = len(next(iter(rules)))
@@ -59,9 +61,13 @@ class SubstitutionSystem:
         #  carry the state information
 
     def _update_last_timestep(self, ctx):
-        if self._last_timestep != ctx.timestep:
+        # an evolution may also begin with the timestep that was the last one of the evolution before it
+        if self._last_timestep != ctx.timestep or self._last_activities is not ctx.activities \
+                or self._first_node_label == ctx.node_label:
             self._num_nodes_added = 0
+            self._first_node_label = ctx.node_label
         self._last_timestep = ctx.timestep
+        self._last_activities = ctx.activities
 
     def _get_state(self, ctx):
         state = ""
-- 
2.43.0


From 990966b11499fdb958bbef592808ca20e1ee7d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 25/35] fix: a Turing machine evolved again goes on with the
 heads and tapes of the run before

---
 netomaton/turing_machine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 4dedb38..639eca9 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -45,14 +45,15 @@ class TapeCentricTuringMachine(TuringMachine):
                 next_head_state, new_node_state, direction = self._rule_table[head_state][node_state]
             except KeyError as err:
                 raise Exception("no rule defined for head state %s, input %s" % (head_state, node_state)) from err
-            self._head_history.append((next_head_state, ctx.neighbour_labels[direction]))
+            # what follows the current timestep remains from an earlier evolution
+            self._head_history[self._current_timestep:] = [(next_head_state, ctx.neighbour_labels[direction])]
             return new_node_state
         return node_state
 
     def head_activities(self, trajectory):
         activities = get_activities_over_time_as_list(trajectory)
         annotations = [[None for _ in range(self._n)] for _ in range(len(activities))]
-        for i, h in enumerate(self._head_history):
+        for i, h in enumerate(self._head_history[:len(activities)]):
             annotations[i][h[1]] = str(h[0])
         return annotations
 
@@ -113,6 +114,12 @@ class HeadCentricTuringMachine(TuringMachine):
             raise Exception("unsupported direction: %s" % direction)
 
     def input_function(self, t, a, n):
+        if t == 1:
+            # an evolution begins, possibly after an earlier one
+            self._tape_history = self._tape_history[:1]
+            self._head_pos = self._initial_conditions[0][1]
+            self._halt = False
+
         if self._max_timesteps is not None and len(self._tape_history) == self._max_timesteps:
             return None
 
-- 
2.43.0


From dc66b36c45a8d7e04bae58e95c5855e63aa5be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 26/35] fix: table_rule does not find the states above nine in
 tables of more than ten colors

---
 netomaton/rule_tables.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/netomaton/rule_tables.py b/netomaton/rule_tables.py
index a1ae947..3ffc955 100644
--- a/netomaton/rule_tables.py
+++ b/netomaton/rule_tables.py
@@ -16,7 +16,12 @@ def table_rule(table):
     def _rule(ctx):
         state_repr = ''.join(str(x) for x in ctx.neighbourhood_activities)
         if not state_repr in table:
-            raise Exception("could not find state '%s' in table" % state_repr)
+            # a table of more than ten colors has a single digit for each state, e.g. 'A' for 10
+            digits = ''.join(np.base_repr(x, 36) if isinstance(x, (int, np.integer)) and 9 < x < 36 else str(x)
+                             for x in ctx.neighbourhood_activities)
+            if not digits in table:
+                raise Exception("could not find state '%s' in table" % state_repr)
+            return table[digits]
         return table[state_repr]
     return _rule
 
-- 
2.43.0


From f8b3ddc438dc4fc56ad25f37a5b22a4077d33173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 27/35] fix: a resource layer given as a numpy vector is
 refused

---
 netomaton/fungal_growth_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index 5f7e1b9..79b43d3 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -42,7 +42,7 @@ class FungalGrowthModel:
         self._initial_network = ntm.Network(self._num_agents)
 
         # a boolean matrix (flattened to a vector) representing the availability of resource to an agent
-        if resource_layer:
+        if resource_layer is not None and len(resource_layer) > 0:
             assert len(resource_layer) == self._num_agents, \
                 "the size of the resource layer must match the number of agents"
             self._resource_layer = resource_layer
-- 
2.43.0


From 25f6d99b6589687b279d587eb77291a2b507f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 28/35] fix: labels that are neither numbers nor strings are
 invalid in the generated page

---
 netomaton/vis/vis_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netomaton/vis/vis_utils.py b/netomaton/vis/vis_utils.py
index c2d3c34..4182ba5 100644
--- a/netomaton/vis/vis_utils.py
+++ b/netomaton/vis/vis_utils.py
@@ -1,4 +1,5 @@
 import json
+import numbers
 import os
 import webbrowser
 import networkx as nx
@@ -41,8 +42,9 @@ def show_network(G, name="out.html", is_notebook=False):
 
 
 def _js(label):
-    # labels that are strings need quotes in the page's script
-    return json.dumps(label) if isinstance(label, str) else str(label)
+    # labels that are not numbers need quotes in the page's script
+    is_number = isinstance(label, numbers.Real) and not isinstance(label, bool)
+    return str(label) if is_number else json.dumps(str(label))
 
 
 def get_html(G):
-- 
2.43.0


From a6abda7513b167bc3b4419f014f262e597ffca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:04 +0000
Subject: [PATCH 29/35] fix: input items that are arrays of text or objects
 raise, and the text "__timestep__" is taken for no input

---
 netomaton/evolution.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index ef68a54..cba75a9 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -279,7 +279,7 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         neighbour_labels = _get_neighbour_labels(node_label, neigh_map, network, incoming_connections)
         current_activity = prev_activities[node_label]
         neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in neighbour_labels]
-        node_in = None if inp == "__timestep__" else inp[node_label] if _is_indexable(inp) else inp
+        node_in = None if inp is _NO_INPUT else inp[node_label] if _is_indexable(inp) else inp
         ctx = NodeContext(node_label, t, prev_activities, neighbour_labels, neighbourhood_activities,
                           incoming_connections, current_activity, past, node_in)
 
@@ -427,6 +427,10 @@ def _is_indexable(obj):
     return isinstance(obj, collections.abc.Sequence)
 
 
+# stands for the input of the steps of an evolution that has none
+_NO_INPUT = object()
+
+
 class _TimestepInputFunction:
     def __init__(self, num_steps):
         self._num_steps = num_steps
@@ -434,7 +438,7 @@ class _TimestepInputFunction:
     def __call__(self, t, activities, network):
         if t >= self._num_steps:
             return None
-        return "__timestep__"
+        return _NO_INPUT
 
 
 class _ListInputFunction:
-- 
2.43.0


From 2dab45ee3a6dc550c65892abe55af295cb058bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:48 +0000
Subject: [PATCH 30/35] fix: rules that are callable objects with a length of
 zero are taken for no rule

---
 netomaton/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index cba75a9..7b537e3 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -170,7 +170,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
 
     input_fn = _get_input_function(timesteps, input)
 
-    if len(initial_conditions) != len(network) and activity_rule:
+    if len(initial_conditions) != len(network) and activity_rule is not None:
         raise Exception("too few intial conditions specified [%s] for the number of given nodes [%s]" %
                         (len(initial_conditions), len(network)))
 
@@ -248,7 +248,7 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                       memoization_key, remove_activities=False):
     added_nodes = []
     removed_nodes = []
-    if activity_rule:
+    if activity_rule is not None:
         added_nodes, removed_nodes = do_activity_rule(t, inp, curr_activities, prev_activities, network,
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
@@ -384,7 +384,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
             for target, connection_state in outgoing_links.items():
                 network.add_edge(node_label, target, **connection_state)
 
-    if topology_rule:
+    if topology_rule is not None:
         if copy_network:
             network = network.copy()
         network = topology_rule(TopologyContext(network, activities, t))
-- 
2.43.0


From df1afd29ce8e695fc663d4e62f24af174f744735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:54 +0000
Subject: [PATCH 31/35] fix: edges and nodes whose attributes are named like a
 parameter are lost or refused when converting from and to networkx

---
 netomaton/state.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 260450a..769ae48 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -193,9 +193,11 @@ class Network:
         """
         network = Network()
         for node in G.nodes(data=True):
-            network.add_node(node[0], **node[1])
+            network.add_node(node[0])
+            network[node[0]].update(node[1])
         for edge in G.edges(data=True):
-            network.add_edge(edge[0], edge[1], **edge[2])
+            network.add_edge(edge[0], edge[1])
+            network.edge(edge[0], edge[1])[-1].update(edge[2])
         return network
 
     def to_networkx(self):
@@ -210,9 +212,11 @@ class Network:
             for key in self._network[node]:
                 if key not in self._new_node():
                     atts[key] = self._network[node][key]
-            G.add_node(node, **atts)
+            G.add_node(node)
+            G.nodes[node].update(atts)
         for i, j, data in self.edges:
-            G.add_edge(i, j, **data)
+            # the attributes may have the names of the parameters (e.g. "key")
+            G.edges[i, j, G.add_edge(i, j)].update(data)
         return G
 
     def to_adjacency_matrix(self, nodelist=None, sum_multiedges=True, weight="weight"):
-- 
2.43.0


From fa3ad7887728919ed0b29e3c6abb486070b52574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:25 +0000
Subject: [PATCH 32/35] fix: open sandpiles narrower than three cells lose
 grains

---
 netomaton/sandpile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netomaton/sandpile.py b/netomaton/sandpile.py
index b9d17f4..0667363 100644
--- a/netomaton/sandpile.py
+++ b/netomaton/sandpile.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .ctrbl_rule import CTRBLRule
 from .topology import cellular_automaton2d
 
 
@@ -7,6 +8,11 @@ class Sandpile:
     def __init__(self, rows, cols, is_closed_boundary=True):
         self._K = 4  # this value is hard-coded because the neighbourhood type, "von Neumann", is fixed
         self._network = cellular_automaton2d(rows=rows, cols=cols, neighbourhood="von Neumann")
+        # a cell has a neighbour on each of its four sides, though the same cell may be on two of them, if the pile is
+        # narrower than 3 cells
+        neighbourhoods = CTRBLRule._init_neighbourhood_map((rows, cols))
+        self._network.rotation_system = {node: (neigh.top, neigh.left, neigh.center, neigh.right, neigh.bottom)
+                                         for node, neigh in neighbourhoods.items()}
         self._boundary_indices = self._get_boundary_indices((rows, cols))
         self._is_closed_boundary = is_closed_boundary
 
-- 
2.43.0


From a7ea4aa6e097da74e6c7bf90edfd1fe4e5a0d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:25 +0000
Subject: [PATCH 33/35] fix: Wolfram models number fresh nodes by the network
 of an earlier run

---
 netomaton/wolfram_physics_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index a0bacdc..32341c4 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -77,6 +77,8 @@ class WolframPhysicsModel:
 
     def topology_rule(self, cctx):
         relations = self.network_to_config(cctx.network)
+        # the network may not be the one that the last call returned
+        self.last_node = max([0] + [node for relation in relations for node in relation])
 
         matched_relations = []
         unmatched_relations = []
-- 
2.43.0


From d586fa17942a4225dd2fed253c931d25068998d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:25 +0000
Subject: [PATCH 34/35] fix: a network without nodes is taken for no network

---
 netomaton/evolution.py | 2 +-
 netomaton/state.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 7b537e3..e95c0e4 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -388,7 +388,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         if copy_network:
             network = network.copy()
         network = topology_rule(TopologyContext(network, activities, t))
-        if not network:
+        if network is None:
             raise Exception("topology rule must return a network")
 
     if persist_network:
diff --git a/netomaton/state.py b/netomaton/state.py
index 769ae48..e4d1c5d 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -319,12 +319,12 @@ class State:
 
     @property
     def network(self):
-        if self._network:
+        if self._network is not None:
             return Network.decompress(self._network) if self._compression else self._network
 
     @network.setter
     def network(self, n):
-        if n:
+        if n is not None:
             self._network = n.compress() if self._compression else n
 
 
-- 
2.43.0


From 5722eea7b5aa4ea0a3edfb0c2b789ffa804251fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:51 +0000
Subject: [PATCH 35/35] fix: joint entropies take symbols that end with null
 characters for one another

---
 netomaton/analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index cefa6bb..89e0015 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -1,4 +1,5 @@
 import math
+from collections import Counter
 from .utils import get_activities_over_time_as_list
 from .state import State
 import numpy as np
@@ -56,12 +57,11 @@ def joint_shannon_entropy(stringX, stringY):
 
     :return: a real number representing the joint Shannon entropy between the given strings
     """
-    X = np.array(list(stringX))
-    Y = np.array(list(stringY))
-    joint_symbol_probabilities = []
-    for x in set(X):
-        for y in set(Y):
-            joint_symbol_probabilities.append(np.mean(np.logical_and(X == x, Y == y)))
+    if len(stringX) != len(stringY):
+        raise Exception("the strings must be of the same length")
+    # not in arrays, which drop the null characters that a symbol may end with, and make text of numbers beside text
+    pairs = list(zip(stringX, stringY))
+    joint_symbol_probabilities = [count / len(pairs) for count in Counter(pairs).values()]
     return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p != 0)
 
 
-- 
2.43.0

