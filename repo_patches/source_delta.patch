From 014afd1fa584278924dcba91c6d840beebe9b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 01/25] fix: use collections.abc.Sequence, so that evolving
 with an input works on Python 3.10+

---
 netomaton/evolution.py | 3 ++-
 netomaton/utils.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0272482..d696e89 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -1,4 +1,5 @@
 import collections
+import collections.abc
 from enum import Enum
 from .state import State
 
@@ -418,7 +419,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.Sequence)
+    return isinstance(obj, collections.abc.Sequence)
 
 
 class _TimestepInputFunction:
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 15eb8ee..cf8c02d 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -4,7 +4,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib.animation as animation
 import matplotlib.collections as mcoll
-import collections
+import collections.abc
 from .state import State
 from .substitution_system import SubstitutionSystem
 try:
@@ -273,7 +273,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     def _get_item(items, i):
         if isinstance(items, str):
             return items
-        if isinstance(items, collections.Sequence):
+        if isinstance(items, collections.abc.Sequence):
             return items[i]
         return items
 
-- 
2.43.0


From c86b6da5f18427de1ee8761b748c523843d4bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 02/25] fix: majority_rule chooses randomly between tied
 states, as documented (statistics.mode no longer raises)

---
 netomaton/rules/activity_rule.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index 4d11ea7..fff327d 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -1,4 +1,4 @@
-from statistics import mode, StatisticsError
+from collections import Counter
 import numpy as np
 
 
@@ -40,11 +40,13 @@ def majority_rule(ctx):
 
     :return: the new activity for the node with the given neighbourhood
     """
-    try:
-        return mode(ctx.neighbourhood_activities)
-    except StatisticsError:
-        # a StatisticsError is raised if there is a tie, and there is no single most common element
-        return np.random.choice(ctx.neighbourhood_activities)
+    counts = Counter(ctx.neighbourhood_activities)
+    max_count = max(counts.values())
+    most_frequent = [activity for activity in counts if counts[activity] == max_count]
+    if len(most_frequent) == 1:
+        return most_frequent[0]
+    # there is a tie, and there is no single most common element
+    return np.random.choice(most_frequent)
 
 
 def bits_to_int(bits):
-- 
2.43.0


From 59027e47f0cdae8ac7db4cf4dcc85cbeebc4fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 03/25] fix: don't freeze the neighbourhoods after node births
 or deaths when there is a topology rule

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d696e89..bee9a8e 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -205,7 +205,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                                            memoize, memo_table, neighbourhood_map, memoization_key)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
-            if added_nodes or removed_nodes:
+            if neighbourhood_map is not None and (added_nodes or removed_nodes):
                 # re-build the neighbourhood map, since the network has changed
                 neighbourhood_map = _get_neighbourhood_map(curr_network)
 
-- 
2.43.0


From 2180fa29e91c84734b620cd4807a8f1adad88b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 04/25] fix: don't apply the perturbation to a node that has
 just been removed

---
 netomaton/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index bee9a8e..bba1615 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -285,9 +285,9 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         if node_label not in ctx.removed_nodes:
             curr_activities[node_label] = new_activity
 
-        if perturbation is not None:
-            pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-            curr_activities[node_label] = perturbation(pctx)
+            if perturbation is not None:
+                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
+                curr_activities[node_label] = perturbation(pctx)
 
     return added_nodes, removed_nodes
 
-- 
2.43.0


From c8f8aa1e8583bea257c75bcaaa20ce571ddab29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 05/25] fix: convert NumPy scalars returned by a perturbation,
 as is done for the activity rule

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index bba1615..59553c4 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -287,7 +287,7 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
 
             if perturbation is not None:
                 pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-                curr_activities[node_label] = perturbation(pctx)
+                curr_activities[node_label] = check_np(perturbation(pctx))
 
     return added_nodes, removed_nodes
 
-- 
2.43.0


From 5bab27b725679426ce53940caa8cc32b4180c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 06/25] fix: evolve terminates when timesteps is less than one

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 59553c4..fa3d5b7 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -427,7 +427,7 @@ class _TimestepInputFunction:
         self._num_steps = num_steps
 
     def __call__(self, t, activities, network):
-        if t == self._num_steps:
+        if t >= self._num_steps:
             return None
         return "__timestep__"
 
-- 
2.43.0


From 53030514d88402c8da007e557dfcb942155a5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 07/25] fix: a node removed through another node's context
 leaves no activity behind

---
 netomaton/evolution.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index fa3d5b7..7ab1aac 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -202,7 +202,8 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         if update_order is UpdateOrder.ACTIVITIES_FIRST:
             added_nodes, removed_nodes = evolve_activities(activity_rule, t, inp, curr_activities, prev_activities,
                                                            trajectory, prev_network, past, perturbation, persist_activities,
-                                                           memoize, memo_table, neighbourhood_map, memoization_key)
+                                                           memoize, memo_table, neighbourhood_map, memoization_key,
+                                                           remove_activities=True)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
             if neighbourhood_map is not None and (added_nodes or removed_nodes):
@@ -239,7 +240,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
 
 def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, network,
                       past, perturbation, persist_activities, memoize, memoization_table, neighbourhood_map,
-                      memoization_key):
+                      memoization_key, remove_activities=False):
     added_nodes = []
     removed_nodes = []
     if activity_rule:
@@ -247,6 +248,11 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
 
+        if remove_activities:
+            # a node may have been removed through the context of another node
+            for node_label in removed_nodes:
+                curr_activities.pop(node_label, None)
+
         if added_nodes:
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
@@ -362,7 +368,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         network = network.copy()
 
         # adjust connectivity map according to node deletions and insertions
-        for node_label in removed_nodes:
+        for node_label in dict.fromkeys(removed_nodes):
             network.remove_node(node_label)
 
         for activity, outgoing_links, node_label in added_nodes:
-- 
2.43.0


From 98c3e2a78335c836c3305e040e7b22e8ad18c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:02 +0000
Subject: [PATCH 08/25] fix: an empty network or activity map is a state like
 any other, not a missing one

---
 netomaton/evolution.py | 2 +-
 netomaton/state.py     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 7ab1aac..130619a 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -380,7 +380,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         if copy_network:
             network = network.copy()
         network = topology_rule(TopologyContext(network, activities, t))
-        if not network:
+        if network is None:
             raise Exception("topology rule must return a network")
 
     if persist_network:
diff --git a/netomaton/state.py b/netomaton/state.py
index 5a4723e..56b6e6c 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -303,22 +303,22 @@ class State:
 
     @property
     def activities(self):
-        if self._activities:
+        if self._activities is not None:
             return _Compressor.decompress(self._activities) if self._compression else self._activities
 
     @activities.setter
     def activities(self, a):
-        if a:
+        if a is not None:
             self._activities = _Compressor.compress(a) if self._compression else a
 
     @property
     def network(self):
-        if self._network:
+        if self._network is not None:
             return Network.decompress(self._network) if self._compression else self._network
 
     @network.setter
     def network(self, n):
-        if n:
+        if n is not None:
             self._network = n.compress() if self._compression else n
 
 
-- 
2.43.0


From 8ebb8a417c6b22993d8d3ca16e5d83f8142a8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 09/25] fix: past activities don't depend on whether the
 activities are persisted in the trajectory

---
 netomaton/evolution.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 130619a..8ba2b3c 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -180,6 +180,10 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     prev_activities = initial_conditions
     prev_network = network
 
+    # the activities of the timesteps that can still be referred to as past activities (the key is the timestep); these
+    # are kept separately from the trajectory, since the activities aren't necessarily persisted there
+    recent_activities = {0: initial_conditions}
+
     memo_table = {}
     if memoize and memoization_key is None:
         memoization_key = _UnorderedMemoizationKey() if network.rotation_system is None else _OrderedMemoizationKey()
@@ -195,7 +199,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         if inp is None:
             break
 
-        past = _get_past_activities(past_conditions, trajectory, t)
+        past = _get_past_activities(past_conditions, recent_activities, t)
         curr_activities = {}
         trajectory[t] = State(compression=compression)
 
@@ -231,6 +235,10 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         prev_activities = curr_activities
         prev_network = curr_network
 
+        if past_conditions:
+            recent_activities[t] = curr_activities
+            recent_activities.pop(t - len(past_conditions) - 1, None)
+
         t += 1
 
     # since we require Python 3.6, and dicts respect insertion order, we don't sort the trajectory entries by key
@@ -389,13 +397,13 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
     return network
 
 
-def _get_past_activities(past_conditions, trajectory, t):
+def _get_past_activities(past_conditions, recent_activities, t):
     if past_conditions and len(past_conditions) > 0:
         past_activities = [None]*len(past_conditions)
         last_t = t - 1
         for i in range(len(past_conditions)-1, -1, -1):
 
-            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else trajectory[last_t-1].activities
+            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else recent_activities[last_t-1]
             if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):
                 curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}
 
-- 
2.43.0


From afbad3cf1bbffe124ff3ecfc489d256d232d93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 10/25] fix: from_adjacency_matrix includes the nodes that have
 no edges

---
 netomaton/topology/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 2410044..18995dd 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -88,6 +88,9 @@ def from_adjacency_matrix(adj):
         for j, val in enumerate(row):
             if val != 0:
                 network.add_edge(i, j, weight=val)
+    # include any nodes that have no edges
+    for i in range(len(adj)):
+        network.add_node(i)
     return network
 
 
-- 
2.43.0


From a79db27d744e6f3284bcb3910b07b671834071df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 11/25] fix: AsynchronousRule reshuffles the node labels it was
 given

---
 netomaton/asynchronous_rule.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2016ae7..548b519 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -23,18 +23,19 @@ class AsynchronousRule:
         if update_order is None and n is None:
             raise Exception("either update_order or n must be specified")
         self._activity_rule = activity_rule
+        self._labels = list(update_order) if update_order is not None else list(range(n))
         if update_order is not None:
             self._update_order = update_order
         else:
-            self._shuffle_update_order(n)
+            self._shuffle_update_order()
         self._curr = 0
         self._num_applied = 0
         self._randomize_each_cycle = randomize_each_cycle
 
-    def _shuffle_update_order(self, n):
-        self._update_order = np.arange(n)
-        np.random.shuffle(self._update_order)
-        self._update_order = self._update_order.tolist()
+    def _shuffle_update_order(self):
+        indices = np.arange(len(self._labels))
+        np.random.shuffle(indices)
+        self._update_order = [self._labels[i] for i in indices]
 
     def __call__(self, ctx):
         if ctx.node_label in self._update_order:
@@ -53,4 +54,4 @@ class AsynchronousRule:
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-                self._shuffle_update_order(len(self._update_order))
+                self._shuffle_update_order()
-- 
2.43.0


From f13576d9b3d8ec2fc0ef33074a077ef61ccf02cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 12/25] fix: lattice honours self_loops, and includes the nodes
 that have no edges

---
 netomaton/topology/networks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 18995dd..5678d41 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -61,10 +61,14 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
     G = nx.convert_node_labels_to_integers(G, first_label=first_label)
     network = ntm.Network()
     for edge in G.edges:
-        if edge[0] == edge[1] and not self_loops:
+        if edge[0] == edge[1]:
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
+    for node in G.nodes:
+        network.add_node(node)
+        if self_loops:
+            network.add_edge(node, node)
     return network
 
 
-- 
2.43.0


From 3019dc580101af40fb0e2a1f8c25d5fb8feef396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 13/25] fix: average_mutual_information bounds the temporal
 distance by the number of timesteps

---
 netomaton/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index f8b2430..4f84561 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -105,7 +105,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
     else:
         activities = trajectory_or_activities
     num_cols = len(activities[0])
-    if not (0 < temporal_distance < num_cols):
+    if not (0 < temporal_distance < len(activities)):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-- 
2.43.0


From af7d0c8367fb8bdfd843f878102b580007022157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 14/25] fix: average node entropy and mutual information treat
 each state as one symbol

---
 netomaton/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 4f84561..2b6174a 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -40,7 +40,7 @@ def average_node_entropy(trajectory_or_activities):
     num_cols = len(activities[0])
     entropies = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(y[i]) for y in activities]
         entropy = shannon_entropy(node_states_over_time)
         entropies.append(entropy)
     return np.mean(entropies)
@@ -109,7 +109,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(y[i]) for y in activities]
         mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])
         mutual_informations.append(mi)
     return np.mean(mutual_informations)
-- 
2.43.0


From 21b4ffbd2a36a86efd289d1ba5f09296d3956274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 15/25] fix: network_to_config preserves the order of ten or
 more relations

---
 netomaton/wolfram_physics_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 36be62e..56b8312 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -70,7 +70,7 @@ class WolframPhysicsModel:
                 merged_hyperedges[edge_label] = tuple(merged)
 
         edges.update(merged_hyperedges)
-        config = [edges[label] for label in sorted(edges)]  # sort so that we can preserve the order of the relations
+        config = [edges[label] for label in sorted(edges, key=lambda l: (len(l), l))]  # preserve the (numeric) order of the relations
 
         return config
 
-- 
2.43.0


From 1f5f6fac553be6afe48dce482f5287c359a63c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:29 +0000
Subject: [PATCH 16/25] fix: a fungal growth model is seeded with seed 0 too

---
 netomaton/fungal_growth_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index c1adeb7..5f7e1b9 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -29,7 +29,7 @@ class FungalGrowthModel:
         """
         self._R_E = R_E
         self._d = 4  # the maximum node degree allowable
-        if seed:
+        if seed is not None:
             np.random.seed(seed)
         self._verbose = verbose
 
-- 
2.43.0


From 6cb9b31adc0f938055b6c7b9e6b1962fe09af1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 17/25] fix: table_rule could not look up states above 9 in the
 tables made by random_rule_table

---
 netomaton/rule_tables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netomaton/rule_tables.py b/netomaton/rule_tables.py
index a1ae947..7f5f88f 100644
--- a/netomaton/rule_tables.py
+++ b/netomaton/rule_tables.py
@@ -15,6 +15,10 @@ def table_rule(table):
     """
     def _rule(ctx):
         state_repr = ''.join(str(x) for x in ctx.neighbourhood_activities)
+        if not state_repr in table:
+            # the tables constructed here denote the states above 9 with letters
+            state_repr = ''.join(np.base_repr(x, 36) if isinstance(x, (int, np.integer)) and 9 < x < 36 else str(x)
+                                 for x in ctx.neighbourhood_activities)
         if not state_repr in table:
             raise Exception("could not find state '%s' in table" % state_repr)
         return table[state_repr]
-- 
2.43.0


From c3d2a554f9b08497ea12b6da18acb7231c07989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 18/25] fix: plot1D honours both limits when ylim is a 2-tuple,
 as documented

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index cf8c02d..3d88a46 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -298,7 +298,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
         if xlim:
             current_axis.set_xlim(xlim)
         if ylim:
-            current_axis.set_ylim(_get_item(ylim, i % 2))
+            current_axis.set_ylim(ylim if isinstance(ylim, tuple) else _get_item(ylim, i % 2))
         if legend:
             current_axis.legend(**legend)
 
-- 
2.43.0


From 12d891a122f5a4f4de16992170c970865d437181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 19/25] fix: plot1D accepts a list of legend arguments, as
 documented

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index 3d88a46..50aa4f0 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -300,7 +300,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
         if ylim:
             current_axis.set_ylim(ylim if isinstance(ylim, tuple) else _get_item(ylim, i % 2))
         if legend:
-            current_axis.legend(**legend)
+            current_axis.legend(**_get_item(legend, i % 2))
 
         current_axis_idx += 1
 
-- 
2.43.0


From 4c4b40f21f38c5f6e4190f46e54e250f03a8697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:02 +0000
Subject: [PATCH 20/25] fix: animate_hex honours the given colour limits

---
 netomaton/hexplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netomaton/hexplot.py b/netomaton/hexplot.py
index 3a54535..9306e37 100644
--- a/netomaton/hexplot.py
+++ b/netomaton/hexplot.py
@@ -77,6 +77,7 @@ def animate_hex(trajectory, title='', shape=None, save=False, interval=50, color
         patches.append(hex)
 
     p = PatchCollection(patches, match_original=True, cmap=m.get_cmap())
+    p.set_clim(vmin, vmax)
     ax.add_collection(p)
 
     i = {'index': 0}
-- 
2.43.0


From 63f5b0cf7d7ce7eea4ff89e3b95e707d46058975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:44 +0000
Subject: [PATCH 21/25] fix: update_edge updated some edges before refusing an
 index that does not exist

---
 netomaton/state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 56b6e6c..92e9e4a 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -74,8 +74,9 @@ class Network:
             for edge in self._network[j]["incoming"][i]:
                 edge.update(attr)
         else:
-            for k in indices:
-                self._network[j]["incoming"][i][k].update(attr)
+            # look all the edges up first, so that nothing is updated if one of them does not exist
+            for edge in [self._network[j]["incoming"][i][k] for k in indices]:
+                edge.update(attr)
 
     def remove_node(self, node_label):
         for i, v in self._network[node_label]["incoming"].items():
-- 
2.43.0


From dce7206a3083ad6ad3de5e5be572fe7281cf9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:25 +0000
Subject: [PATCH 22/25] fix: a substitution system can be used for another
 evolution

---
 netomaton/substitution_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index a561ae2..c82e69b 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -14,6 +14,7 @@ class SubstitutionSystem:
         self._last_node_index = len(self._initial_conditions) - 1
         self._num_nodes_added = 0
         self._last_timestep = 0
+        self._last_activities = None
 
     def _get_neighbourhood_size(self, rules):
         neighbourhood_size = len(next(iter(rules)))
@@ -58,9 +59,11 @@ class SubstitutionSystem:
         #  carry the state information
 
     def _update_last_timestep(self, ctx):
-        if self._last_timestep != ctx.timestep:
+        # the timestep alone does not tell the first timesteps of two evolutions apart
+        if self._last_timestep != ctx.timestep or self._last_activities is not ctx.activities:
             self._num_nodes_added = 0
         self._last_timestep = ctx.timestep
+        self._last_activities = ctx.activities
 
     def _get_state(self, ctx):
         state = ""
-- 
2.43.0


From 8a6f7642a63a5b0cf2be06c43210abecb52e72a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:25 +0000
Subject: [PATCH 23/25] fix: majority_rule changed or refused tied states that
 are not plain numbers

---
 netomaton/rules/activity_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index fff327d..2e4db9f 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -46,7 +46,7 @@ def majority_rule(ctx):
     if len(most_frequent) == 1:
         return most_frequent[0]
     # there is a tie, and there is no single most common element
-    return np.random.choice(most_frequent)
+    return most_frequent[np.random.randint(len(most_frequent))]
 
 
 def bits_to_int(bits):
-- 
2.43.0


From 0a34d72906bedff08dc6fe7d533123651e770146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:35 +0000
Subject: [PATCH 24/25] fix: networks and states with tuples as labels or
 values can be copied and compressed

---
 netomaton/state.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 92e9e4a..e08d3a9 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -336,7 +336,23 @@ class _Compressor:
 
         :return: packed bytes
         """
-        return msgpack.packb(obj)
+        return msgpack.packb(obj, default=_Compressor._pack, strict_types=True)
+
+    @staticmethod
+    def _pack(obj):
+        # msgpack would turn tuples into lists, and could not unpack them as the labels of nodes
+        if isinstance(obj, tuple):
+            return msgpack.ExtType(1, _Compressor.compress(list(obj)))
+        for kind in (dict, list, str, bytes, int, float):
+            if isinstance(obj, kind):
+                return kind(obj)
+        raise TypeError("can not compress %r object" % type(obj).__name__)
+
+    @staticmethod
+    def _unpack(code, packed):
+        if code != 1:
+            return msgpack.ExtType(code, packed)
+        return tuple(msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._unpack))
 
     @staticmethod
     def decompress(packed):
@@ -348,6 +364,6 @@ class _Compressor:
         :return: a decompressed object
         """
         gc.disable()
-        d = msgpack.unpackb(packed, strict_map_key=False)
+        d = msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._unpack)
         gc.enable()
         return d
\ No newline at end of file
-- 
2.43.0


From b3bb70572548728cb1818d0d192642f8cf042435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:25 +0000
Subject: [PATCH 25/25] fix: to_networkx lost edges and attributes when an edge
 attribute is called key

---
 netomaton/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index e08d3a9..0ff3c8b 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -210,8 +210,8 @@ class Network:
                 if key not in self._new_node():
                     atts[key] = self._network[node][key]
             G.add_node(node, **atts)
-        for i, j, data in self.edges:
-            G.add_edge(i, j, **data)
+        # an attribute called "key" must not be taken for the key of the edge
+        G.add_edges_from(self.edges)
         return G
 
     def to_adjacency_matrix(self, nodelist=None, sum_multiedges=True, weight="weight"):
-- 
2.43.0

