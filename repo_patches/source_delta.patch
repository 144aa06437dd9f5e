From 7c119352477b3f8945abeb9888429f586e80b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 01/61] fix: Automaton.add_edge overwrote an existing
 transition to state 0

The test 'if self.delta(q, a)' takes the target state 0 for an absent
transition, so a second transition silently replaced the first one.
---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index ab74894..27a7d1b 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -89,7 +89,7 @@ class Automaton(DirectedGraph):
         """
         assert q is not None
         assert r is not None
-        if self.delta(q, a):
+        if self.delta(q, a) is not BOTTOM:
             return (None, False)
         self.adjacencies[q][a] = r
         return (EdgeDescriptor(q, r, a), True)
-- 
2.43.0


From e003854a257f55f567c9acb7ad0b96e3ac80fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 02/61] fix: clear() of an automaton left the final states and
 symbols behind

The vertex descriptors restart from 0 after clear(), so the states added
next inherited the final flags (and symbols) of the removed ones.
---
 src/pybgl/automaton.py      |  8 ++++++++
 src/pybgl/node_automaton.py | 12 ++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 27a7d1b..5f5be72 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -52,8 +52,16 @@ class Automaton(DirectedGraph):
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
         else:
+            self.map_vfinal = None
             self.pmap_vfinal = pmap_vfinal
 
+    def clear(self):
+        # Overloaded method
+        super().clear()
+        # The vertex descriptors are reused: forget the former final states.
+        if self.map_vfinal is not None:
+            self.map_vfinal.clear()
+
     def delta(self, q: int, a: str) -> int:
         """
         Transition function, allowing to move from a state ``q`` to its
diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 714eda4..85ae44c 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -41,11 +41,19 @@ class NodeAutomaton(Automaton):
         """
         # Convention: self.adjacencies[q][a] = r
         super().__init__(num_vertices, q0, pmap_vfinal)
+        self.map_vsymbol = None
         if pmap_vsymbol is None:
-            map_vsymbol = defaultdict(lambda: None)
-            pmap_vsymbol = make_assoc_property_map(map_vsymbol)
+            self.map_vsymbol = defaultdict(lambda: None)
+            pmap_vsymbol = make_assoc_property_map(self.map_vsymbol)
         self.pmap_vsymbol = pmap_vsymbol
 
+    def clear(self):
+        # Overloaded method
+        super().clear()
+        # The vertex descriptors are reused: forget the former symbols.
+        if self.map_vsymbol is not None:
+            self.map_vsymbol.clear()
+
     def add_vertex(self, a: str = None) -> int:
         u = super().add_vertex()
         if a is not None:
-- 
2.43.0


From 58163a315767adb848cec16fff28be27b142e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 03/61] fix: IncidenceNodeAutomaton ignored q0 and pmap_vfinal
 passed by keyword

---
 src/pybgl/incidence_node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/incidence_node_automaton.py b/src/pybgl/incidence_node_automaton.py
index c0b0cd1..b2cea0a 100644
--- a/src/pybgl/incidence_node_automaton.py
+++ b/src/pybgl/incidence_node_automaton.py
@@ -25,7 +25,7 @@ class IncidenceNodeAutomaton(NodeAutomaton):
                 each state with its corresponding symbol.
         """
         self.predecessors = defaultdict(set)  # predecessors[r] = {q}
-        super().__init__(*args, pmap_vsymbol=pmap_vsymbol)  # UGLY
+        super().__init__(*args, pmap_vsymbol=pmap_vsymbol, **kwargs)  # UGLY
 
     # TODO: Factorize with IncidenceAutomaton
     def add_edge(self, q: int, r: int) -> tuple:
-- 
2.43.0


From 697f52fcf117237aa5732c964d3d63e17a12e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 04/61] fix: NodeAutomaton.alphabet missed the symbol of the
 initial state

A transition entering the initial state is labeled by its symbol, which
alphabet() ignored.
---
 src/pybgl/node_automaton.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 85ae44c..89b3faf 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -200,6 +200,11 @@ class NodeAutomaton(Automaton):
             self.symbol(q)
             for q in vertices(self)
             if not self.is_initial(q)
+        } | {
+            # The initial state contributes if a transition enters it.
+            a
+            for q in vertices(self)
+            for a in self.sigma(q)
         }
 
     def edges(self) -> iter:
-- 
2.43.0


From 90ddc125fb00a14a7f11db361933a71b1c38605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 05/61] fix: Nfa edge descriptors were unhashable, removed
 symbols stayed in the alphabet

out_edges() and edges() put a set in the distinguisher, so that the
descriptors could not be hashed, did not equal the one returned by
add_edge() and made edge() fail. remove_edge() left an empty entry that
alphabet() and sigma() still reported.
---
 src/pybgl/nfa.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 4637ce5..0fcc12c 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -158,7 +158,8 @@ class Nfa(DirectedGraph):
         s = rn.get(r)
         if s is None:
             s = rn[r] = set()
-        n = len(s) + 1
+        # The transitions form a set: adding one twice has no further effect.
+        n = 1
         s.add(n)
         return (EdgeDescriptor(q, r, (a, n)), True)
 
@@ -174,7 +175,11 @@ class Nfa(DirectedGraph):
         r = self.target(e)
         (a, n) = e.distinguisher
         try:
-            del self.adjacencies[q][a][r]
+            rn = self.adjacencies[q][a]
+            del rn[r]
+            if not rn:
+                # Forget the symbols that label no more transition.
+                del self.adjacencies[q][a]
         except KeyError:
             pass
 
@@ -192,7 +197,8 @@ class Nfa(DirectedGraph):
         return (
             EdgeDescriptor(q, r, (a, n))
             for (a, rn) in self.adjacencies.get(q, dict()).items()
-            for (r, n) in rn.items()
+            for (r, s) in rn.items()
+            for n in s
         )
 
     def edges(self):
@@ -207,7 +213,8 @@ class Nfa(DirectedGraph):
             EdgeDescriptor(q, r, (a, n))
             for (q, arn) in self.adjacencies.items()
             for (a, rn) in arn.items()
-            for (r, n) in rn.items()
+            for (r, s) in rn.items()
+            for n in s
         )
 
     def alphabet(self) -> set:
-- 
2.43.0


From ad0606cfb1db39f5d197a7fd3156c743e4349bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 06/61] fix: make_node_automaton looked up final states by
 descriptor

pmap_vfinal maps the state identifiers used in the transitions (as in
make_automaton), not the vertex descriptors of the new automaton.
---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 89b3faf..bb8a705 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -337,7 +337,7 @@ def make_node_automaton(
     for vertex_name in vertex_names:
         a = pmap_vlabel[vertex_name]
         u = g.add_vertex(a)
-        if pmap_vfinal[u]:
+        if pmap_vfinal[vertex_name]:
             g.set_final(u)
     for (qn, rn) in transitions:
         q = map_vertices[qn]
-- 
2.43.0


From 792b03fd608d45fbf43d6e32ccb4d15581547593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 07/61] fix: GraphView.__sub__ showed edges that are not in the
 first view

'and' binds tighter than 'or', so an edge filtered out by the left view
reappeared as soon as its endpoints were outside the right view.
---
 src/pybgl/graph_view.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 18fc175..1213f47 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -114,10 +114,11 @@ class GraphView:
             ),
             make_func_property_map(
                 lambda e: (
-                    self.pmap_erelevant[e] and
-                    not gv.pmap_erelevant[e] or (
-                        not gv.pmap_vrelevant[self.source(e)] and
-                        not gv.pmap_vrelevant[self.target(e)]
+                    self.pmap_erelevant[e] and (
+                        not gv.pmap_erelevant[e] or (
+                            not gv.pmap_vrelevant[self.source(e)] and
+                            not gv.pmap_vrelevant[self.target(e)]
+                        )
                     )
                 )
             )
-- 
2.43.0


From 3bc94f907890b1bfb583385409c128dd04e98ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 08/61] fix: GraphView.has_vertex and has_edge ignored the
 filters

They were forwarded to the nested graph, unlike num_vertices() and
num_edges(), so an empty view claimed to have vertices and edges.
---
 src/pybgl/graph_view.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 1213f47..399f9f9 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -242,6 +242,28 @@ class GraphView:
         """
         return __len_gen__(self.edges())
 
+    def has_vertex(self) -> bool:
+        """
+        Checks whether this :py:class:`GraphView` instance contains
+        at least one relevant vertex.
+
+        Returns:
+            ``True`` if the view has at least one vertex,
+            ``False`` otherwise.
+        """
+        return any(True for _ in self.vertices())
+
+    def has_edge(self) -> bool:
+        """
+        Checks whether this :py:class:`GraphView` instance contains
+        at least one relevant edge.
+
+        Returns:
+            ``True`` if the view has at least one edge,
+            ``False`` otherwise.
+        """
+        return any(True for _ in self.edges())
+
     def to_dot(self, *cls, **kwargs) -> str:
         """
         Exports this :py:class:`GraphView` instance to a Graphviz string.
-- 
2.43.0


From 9fdaa8c1e28b0a5d0bdfe7ac260630248dc0638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 09/61] fix: depth_first_search_graph explored everything when
 given no source

An empty iterable of sources was taken for the default value, e.g.
prune_incidence_automaton kept every state when no state is final.
---
 src/pybgl/depth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/depth_first_search.py b/src/pybgl/depth_first_search.py
index eebb8d8..ce5fa77 100644
--- a/src/pybgl/depth_first_search.py
+++ b/src/pybgl/depth_first_search.py
@@ -223,6 +223,6 @@ def depth_first_search_graph(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
-    for u in (sources if sources else g.vertices()):
+    for u in (sources if sources is not None else g.vertices()):
         if pmap_vcolor[u] == WHITE:
             depth_first_search(u, g, pmap_vcolor, vis, if_push)
-- 
2.43.0


From 620683f37825384c0c7da33e2aa80091739fc157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 10/61] fix: breadth_first_search failed with its default
 visitor or sources

---
 src/pybgl/breadth_first_search.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 02bc7e4..44f56dc 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -168,7 +168,7 @@ def breadth_first_search_graph(
         if_push = (lambda e, g: True)
 
     stack = deque()
-    for s in sources:
+    for s in (sources if sources is not None else list(g.vertices())):
         pmap_vcolor[s] = GRAY
         vis.discover_vertex(s, g)
         stack.append(s)
@@ -231,6 +231,8 @@ def breadth_first_search(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
+    if vis is None:
+        vis = DefaultBreadthFirstSearchVisitor()
     for u in g.vertices():
         vis.initialize_vertex(u, g)
         pmap_vcolor[u] = WHITE
-- 
2.43.0


From b53f71bc772063c1e5b1ae361ae325ded4444014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 11/61] fix: shortest path extraction did not survive cycles of
 null weight

make_shortest_path followed an arbitrary predecessor and could loop
forever; make_shortest_paths_dag(single_path=True) could stop before
reaching the source or walk past it.
---
 src/pybgl/dijkstra_shortest_paths.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 2abb979..c5f3445 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -5,7 +5,7 @@
 # https://github.com/nokia/pybgl
 
 import sys
-from collections import defaultdict
+from collections import defaultdict, deque
 from .algebra import BinaryRelation, BinaryOperator, Less, ClosedPlus
 from .aggregated_visitor import AggregatedVisitor
 from .graph import Graph, EdgeDescriptor
@@ -323,12 +323,12 @@ def make_shortest_paths_dag(
     done = set()
     while to_process:
         es = {e for u in to_process if pmap_vpreds[u] for e in pmap_vpreds[u]}
-        if single_path and es:
-            es = {es.pop()}
         kept_edges |= es
         predecessors = {g.source(e) for e in es if e not in done}
         done |= to_process
         to_process = predecessors - done
+    if single_path and s in done:
+        return set(make_shortest_path(g, s, t, pmap_vpreds))
     return kept_edges
 
 
@@ -356,13 +356,23 @@ def make_shortest_path(
         If several shortest paths exist from ``s`` to ``t``,
         this function returns an arbitrary shortest path.
     """
-# USELESS |    arcs = make_dag(g, s, t, pmap_vpreds, single_path=True)
-    u = t
+    # Search backward from t. Following an arbitrary predecessor is not
+    # enough, as it may loop forever in a cycle of null weight.
+    map_next = {t: None}  # map_next[u]: the arc to follow from u towards t
+    to_process = deque([t])
+    while to_process and s not in map_next:
+        v = to_process.popleft()
+        for e in pmap_vpreds[v]:
+            u = g.source(e)
+            if u not in map_next:
+                map_next[u] = e
+                to_process.append(u)
     path = list()
-    while u != s:
-        e = list(pmap_vpreds[u])[0]
-        path.insert(0, e)
-        u = g.source(e)
+    u = s
+    while u != t:
+        e = map_next[u]
+        path.append(e)
+        u = g.target(e)
     return path
 
 
-- 
2.43.0


From a1bef1f415f63be1dcc7e0ae324520425876bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 12/61] fix: topological_sort ignored the deque of the caller
 when it was empty

---
 src/pybgl/topological_sort.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/topological_sort.py b/src/pybgl/topological_sort.py
index 928fe83..f1f420c 100644
--- a/src/pybgl/topological_sort.py
+++ b/src/pybgl/topological_sort.py
@@ -50,7 +50,8 @@ def topological_sort(g: DirectedGraph, stack: deque = None) -> deque:
     Returns:
         The stack containing the vertices, sorted by topological order.
     """
-    stack = stack if stack else deque()
+    if stack is None:
+        stack = deque()
     depth_first_search_graph(
         g,
         pmap_vcolor=make_assoc_property_map(defaultdict(int)),
-- 
2.43.0


From 60cef4475bf981693363b600052eaf81723ee82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 13/61] fix: automaton_copy failed without pmap_vertices or
 pmap_edges

---
 src/pybgl/automaton_copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton_copy.py b/src/pybgl/automaton_copy.py
index f1cfec5..caef250 100644
--- a/src/pybgl/automaton_copy.py
+++ b/src/pybgl/automaton_copy.py
@@ -96,10 +96,10 @@ def automaton_copy(
 
     # Prepare the AutomatonCopyVisitor
     if not pmap_vertices:
-        map_vertices = dict()
+        map_vertices = defaultdict()
         pmap_vertices = make_assoc_property_map(map_vertices)
     if not pmap_edges:
-        map_edges = dict()
+        map_edges = defaultdict()
         pmap_edges = make_assoc_property_map(map_edges)
 
     vis = AutomatonCopyVisitor(
-- 
2.43.0


From e54a8c937f3490f1d34f3ca6efa7054676920cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 14/61] fix: graph_extract and graph_copy handled each
 undirected edge twice

---
 src/pybgl/graph_extract.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graph_extract.py b/src/pybgl/graph_extract.py
index 11aadd0..cb2de2d 100644
--- a/src/pybgl/graph_extract.py
+++ b/src/pybgl/graph_extract.py
@@ -6,7 +6,7 @@
 
 from collections import defaultdict
 
-from .graph import Graph, EdgeDescriptor
+from .graph import Graph, EdgeDescriptor, is_directed
 from .depth_first_search import (
     DefaultDepthFirstSearchVisitor,
     depth_first_search,
@@ -62,6 +62,7 @@ class DepthFirstSearchExtractVisitor(DefaultDepthFirstSearchVisitor):
         self.pmap_vcolor = pmap_vcolor
         self.callback_vertex_extract = callback_vertex_extract
         self.callback_edge_extract = callback_edge_extract
+        self.visited_edges = set()
 
     def discover_vertex(self, u: int, g: Graph):
         """
@@ -94,6 +95,13 @@ class DepthFirstSearchExtractVisitor(DefaultDepthFirstSearchVisitor):
             g (Graph): The considered graph.
         """
         if self.pmap_erelevant[e] and self.pmap_vrelevant[g.target(e)]:
+            if not is_directed(g):
+                # An undirected edge is met once from each of its ends.
+                u, v = g.source(e), g.target(e)
+                key = (min(u, v), max(u, v), e.distinguisher)
+                if key in self.visited_edges:
+                    return
+                self.visited_edges.add(key)
             self.examine_relevant_edge(e, g)
 
 
-- 
2.43.0


From e06ecd52ccc98b27956481cd5a62401c242deaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 15/61] fix: parallel_breadth_first_search passed g2 in place
 of g1 to finish_vertex

---
 src/pybgl/parallel_breadth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index bde529e..b8ff0bf 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -285,4 +285,4 @@ def parallel_breadth_first_search(
             else:
                 vis.black_target(e1, g1, e2, g2, a)
         pmap_vcolor[(q1, q2)] = BLACK
-        vis.finish_vertex(q1, g2, q2, g2)
+        vis.finish_vertex(q1, g1, q2, g2)
-- 
2.43.0


From 78cf57700fed15489433c8dee014b9576a6ee8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 16/61] fix: deterministic_intersection did not explore the
 pairs involving the state 0

---
 src/pybgl/deterministic_intersection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 377b5db..3b3f95f 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -81,9 +81,9 @@ def deterministic_intersection(
         vis=vis,
         if_push=lambda e1, g1, e2, g2: (
             e1 is not None
-            and g1.target(e1)
+            and g1.target(e1) is not BOTTOM
             and e2 is not None
-            and g2.target(e2)
+            and g2.target(e2) is not BOTTOM
         )
     )
     return g12
-- 
2.43.0


From 6f2a40d668cf43ba67bca9f8464584c6923b2b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 17/61] fix: initial state of the union and of the intersection

Every product state with an initial component became initial in turn, so
the result started in the wrong state if an initial state has in-edges;
there was no state at all when both initial states have no transition.
---
 src/pybgl/deterministic_intersection.py | 22 +++++++++++++++++++-
 src/pybgl/deterministic_union.py        | 17 +++++++++++++++-
 src/pybgl/product_mixin.py              | 27 +++++++++++++++++++++++--
 3 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 3b3f95f..3b42a7e 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -30,6 +30,21 @@ class DeterministicIntersectionVisitor(
         """
         super().__init__(g12, lambda a, b: a and b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        """
+        Method invoked when processing the pair of initial states.
+
+        Args:
+            s1 (int): The initial state of ``g1`` or ``None``.
+            g1 (Automaton): The automaton corresponding to left operand
+                of the intersection.
+            s2 (int): The initial state of ``g2`` or ``None``.
+            g2 (Automaton): The automaton corresponding to right operand
+                of the intersection.
+        """
+        if s1 is not BOTTOM and s2 is not BOTTOM:
+            self.add_initial_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
@@ -51,7 +66,12 @@ class DeterministicIntersectionVisitor(
                 of the intersection.
             a (str): The symbol that labels ``e1`` and ``e2``.
         """
-        if g1.target(e1) is not BOTTOM and g2.target(e2) is not BOTTOM:
+        if (
+            e1 is not None
+            and g1.target(e1) is not BOTTOM
+            and e2 is not None
+            and g2.target(e2) is not BOTTOM
+        ):
             self.add_product_edge(e1, g1, e2, g2)
 
 
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 73e0d85..38f4a91 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -4,7 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
-from .automaton import Automaton, EdgeDescriptor
+from .automaton import BOTTOM, Automaton, EdgeDescriptor
 from .parallel_breadth_first_search import (
     ParallelBreadthFirstSearchVisitor,
     parallel_breadth_first_search,
@@ -30,6 +30,21 @@ class DeterministicUnionVisitor(
         """
         super().__init__(g12, lambda a, b: a or b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        """
+        Method invoked when processing the pair of initial states.
+
+        Args:
+            s1 (int): The initial state of ``g1`` or ``None``.
+            g1 (Automaton): The automaton corresponding to left operand
+                of the union.
+            s2 (int): The initial state of ``g2`` or ``None``.
+            g2 (Automaton): The automaton corresponding to right operand
+                of the union.
+        """
+        if s1 is not BOTTOM or s2 is not BOTTOM:
+            self.add_initial_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 894f68d..774f52b 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -52,13 +52,36 @@ class ProductMixin:
             i.e. ``self.g12``.
         """
         q12 = self.g12.add_vertex()
-        if self.operator(g1.is_initial(q1), g2.is_initial(q2)):
-            self.g12.set_initial(q12)
         if self.operator(g1.is_final(q1), g2.is_final(q2)):
             self.g12.set_final(q12)
         self.map_product_vertices[(q1, q2)] = q12
         return q12
 
+    def add_initial_product_vertex(
+        self,
+        q1: int,
+        g1: Automaton,
+        q2: int,
+        g2: Automaton
+    ) -> int:
+        """
+        Creates (and keeps track of) the initial state of the product
+        automaton.
+
+        Args:
+            q1 (int): The initial state of ``g1`` or ``None``.
+            g1 (Automaton): The left operand.
+            q2 (int): The initial state of ``g2`` or ``None``.
+            g2 (Automaton): The right operand.
+
+        Returns:
+            The initial state of the product automaton,
+            i.e. ``self.g12``.
+        """
+        q12 = self.get_or_create_product_vertex(q1, g1, q2, g2)
+        self.g12.set_initial(q12)
+        return q12
+
     def add_product_edge(
         self,
         e1: EdgeDescriptor,
-- 
2.43.0


From 29a027c711e520ab33c86a2b31412458135f5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 18/61] fix: parallel_breadth_first_search processed a start
 pair twice when it is on a cycle

---
 src/pybgl/parallel_breadth_first_search.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index b8ff0bf..3d63d6a 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -247,20 +247,17 @@ def parallel_breadth_first_search(
 
     if vis is None:
         vis = ParallelBreadthFirstSearchVisitor()
-    if source_pairs is None:
-        q01 = g1.initial()
-        q02 = g2.initial()
-        stack.appendleft((q01, q02))
-        vis.start_vertex(q01, g1, q02, g2)
-    else:
-        for (s1, s2) in source_pairs:
-            stack.appendleft((s1, s2))
-            vis.start_vertex(s1, g1, s2, g2)
-
     if not pmap_vcolor:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
 
+    if source_pairs is None:
+        source_pairs = [(g1.initial(), g2.initial())]
+    for (s1, s2) in source_pairs:
+        pmap_vcolor[(s1, s2)] = GRAY
+        stack.appendleft((s1, s2))
+        vis.start_vertex(s1, g1, s2, g2)
+
     if not if_push:
         if_push = (lambda e1, g1, e2, g2: True)
 
-- 
2.43.0


From 06b1eede3b16d8b6cc18ccc77e69eed879a61145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 19/61] fix: hopcroft_minimize failed when all the states, or
 none, are final

---
 src/pybgl/hopcroft_minimize.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index 85564c5..3071792 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -29,13 +29,12 @@ def hopcroft_agglomerate_states(g: IncidenceAutomaton) -> set:
     g_alphabet = g.alphabet()
     final_states = {q for q in g.vertices() if g.is_final(q)}
     aggregated_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
-    }
-    waiting_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
+        states for states in (
+            frozenset(final_states),
+            frozenset(g.vertices()) - final_states
+        ) if states
     }
+    waiting_states = set(aggregated_states)
     while waiting_states != set():
         current_states = waiting_states.pop()
         for a in g_alphabet:
-- 
2.43.0


From 0df93520d7a5ef6d54f97052fe7e2badea562342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 20/61] fix: revuz_minimize could remove the initial state

---
 src/pybgl/revuz_minimize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/revuz_minimize.py b/src/pybgl/revuz_minimize.py
index 9af7c89..55e962d 100644
--- a/src/pybgl/revuz_minimize.py
+++ b/src/pybgl/revuz_minimize.py
@@ -222,8 +222,12 @@ def revuz_minimize(
         for mergeable_states in map_aggregates.values():
             if len(mergeable_states) < 2:
                 continue
-            # Sort states to get deterministic behavior
-            mergeable_states = sorted(mergeable_states)
+            # Sort states to get deterministic behavior. The initial state
+            # comes first, because the first state is the only one kept.
+            mergeable_states = sorted(
+                mergeable_states,
+                key=lambda q: (not g.is_initial(q), q)
+            )
             q1 = mergeable_states[0]
             for q2 in mergeable_states[1:]:
                 vis.merging_states(q1, q2, g)
-- 
2.43.0


From be70c3273d0feca10e529f4caa16601f05166226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 21/61] fix: the ? operator of regular expressions accepted
 words when its operand loops

---
 src/pybgl/thompson_compile_nfa.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 489458d..e33f46c 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -195,9 +195,18 @@ def zero_or_one(nfa: Nfa, q0: int, f: int) -> tuple:
         ``q0`` is its initial state;
         ``f`` is its initial state.
     """
+    # The new initial (resp. final) state has no in-edge (resp. out-edge).
+    # Otherwise, skipping a NFA which loops on q0 or on f would be incorrect.
     eps = nfa.epsilon
-    nfa.add_edge(q0, f, eps)
-    return (nfa, q0, f)
+    new_q0 = nfa.add_vertex()
+    new_f = nfa.add_vertex()
+    nfa.add_edge(new_q0, q0, eps)
+    nfa.add_edge(f, new_f, eps)
+    nfa.add_edge(new_q0, new_f, eps)
+    nfa.set_initials({new_q0})
+    nfa.set_final(f, False)
+    nfa.set_final(new_f, True)
+    return (nfa, new_q0, new_f)
 
 
 def zero_or_more(nfa: Nfa, q0: int, f: int) -> tuple:
-- 
2.43.0


From 96b74d37204d0d5810676ae51d03f230972956d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 22/61] fix: the {m,n} operator of regular expressions lost its
 initial state or accepted too many words

---
 src/pybgl/thompson_compile_nfa.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index e33f46c..60e06a3 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -336,7 +336,7 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         return concatenation(nfa1, q01, f1, nfa2, q02, f2)
     else:
         (q0_ori, f_ori, ori) = (q0, f, copy.deepcopy(nfa))
-        (nfa, _, f) = repetition(nfa, q0, f, m)
+        (nfa, q0, f) = repetition(nfa, q0, f, m)
         final_states = {f}
         # The m-n following NFA instances are optional. We add them
         # one by one to get their respective final states to build an
@@ -344,10 +344,16 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         for i in range(n - m):
             (nfa, q0, f) = concatenation(nfa, q0, f, ori, q0_ori, f_ori)
             final_states.add(f)
-        eps = nfa.epsilon
-        for pred_f in final_states:
-            if pred_f != f:
-                nfa.add_edge(pred_f, f, eps)
+        # This final state has no out-edge. Otherwise, jumping to it could
+        # then lead back to the middle of the last NFA instance.
+        if len(final_states) > 1:
+            eps = nfa.epsilon
+            new_f = nfa.add_vertex()
+            for pred_f in final_states:
+                nfa.add_edge(pred_f, new_f, eps)
+            nfa.set_final(f, False)
+            nfa.set_final(new_f, True)
+            f = new_f
         return (nfa, q0, f)
 
 
-- 
2.43.0


From 7fc0f60d4019ca4d63d61404d5fd5ad66d22a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 23/61] fix: the {,n} operator of regular expressions was not
 recognized

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 16e3bd6..022c597 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -148,7 +148,7 @@ RE_OPERATORS_RE = [
     for op in list(MAP_OPERATORS_RE.keys()) + ["(", ")"]
 ] + [
     # Extra repetition operators
-    "\\{\\s*\\d+(\\s*,)?(\\s*\\d+)?\\s*\\}",
+    "\\{\\s*(\\d+|\\d*\\s*,\\s*\\d*)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
     '\\[([^]])*\\]',
-- 
2.43.0


From 8f2be1c7c7235ff48f2f170aab2012b30cdd78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 24/61] fix: {m,n} and ? of regular expressions did not apply
 to the operand which precedes them, operators included

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 022c597..9a7d438 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -137,7 +137,7 @@ MAP_OPERATORS_RE = {
     # Unary operators
     "*":  Op(cardinality=1, precedence=4, associativity=LEFT),
     "+":  Op(cardinality=1, precedence=4, associativity=LEFT),
-    "?":  Op(cardinality=1, precedence=3, associativity=LEFT),
+    "?":  Op(cardinality=1, precedence=4, associativity=LEFT),
     # Binary operators
     ".":  Op(cardinality=2, precedence=2, associativity=LEFT),
     "|":  Op(cardinality=2, precedence=1, associativity=LEFT),
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 60e06a3..bca0ab8 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -602,7 +602,12 @@ def thompson_compile_nfa(expression: str, whole_alphabet: iter = None) -> Nfa:
             self.nfas.append((nfa1, q01, f1))
 
     vis = ThompsonShuntingYardVisitor()
-    shunting_yard_postfix(expression, map_operators=MAP_OPERATORS_RE, vis=vis)
+    # The {m,n} tokens are postfix operators (like "*")
+    map_operators = dict(MAP_OPERATORS_RE)
+    for a in expression:
+        if a[0] == "{":
+            map_operators[a] = MAP_OPERATORS_RE["*"]
+    shunting_yard_postfix(expression, map_operators=map_operators, vis=vis)
     assert len(vis.nfas) == 1
     (nfa, q0, f) = vis.nfas.pop()
     return (nfa, q0, f)
-- 
2.43.0


From 4039486cf37e931fbaa48378c849496f0ad74f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 25/61] fix: an explicit concatenation operator was doubled
 when compiling a regular expression

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 9a7d438..3cf484d 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -198,7 +198,7 @@ class CatifyTokenizeVisitor(TokenizeVisitor):
         ):
             self.expression.append(self.cat)
         self.expression.append(matched)
-        self.prev_needs_cat = (matched not in {"(", "|"})
+        self.prev_needs_cat = (matched not in {"(", "|", self.cat})
 
 
 def catify(s: str, cat: str = ".") -> iter:
-- 
2.43.0


From 8a5ccb1c9bad3c9370e1ca64598a968c19a72541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 26/61] fix: escaped backslash, hat and dollar, as written by
 re_escape, could not be compiled

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 3cf484d..8bdbaeb 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -153,7 +153,7 @@ RE_OPERATORS_RE = [
     # "\\[.*\\]",
     '\\[([^]])*\\]',
     # Escape sequences (not exhaustive)
-    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}])",
+    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}^$\\\\])",
 ]
 
 
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index bca0ab8..40e499e 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -513,7 +513,8 @@ def parse_escaped(s: str, whole_alphabet: iter = None) -> set:
     if len(s) == 2:
         if s in {
             r"\+", r"\*", r"\?", r"\.", r"\|",
-            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}"
+            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}",
+            r"\^", r"\$", "\\\\"
         }:
             return {s[1]}
         elif s in {r"\A", r"\B", r"\Z"}:
-- 
2.43.0


From 49c720689121d615bd256047c74d8b6bb60acca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 27/61] fix: intervals, trailing hyphens and escape sequences
 in bracket expressions

---
 src/pybgl/shunting_yard_postfix.py |  2 +-
 src/pybgl/thompson_compile_nfa.py  | 38 +++++++++++++++---------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 8bdbaeb..a1d9c74 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -151,7 +151,7 @@ RE_OPERATORS_RE = [
     "\\{\\s*(\\d+|\\d*\\s*,\\s*\\d*)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
-    '\\[([^]])*\\]',
+    '\\[(\\\\.|[^]\\\\])*\\]',
     # Escape sequences (not exhaustive)
     "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}^$\\\\])",
 ]
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 40e499e..9e84a5e 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -450,29 +450,29 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
     reverse = (s[1] == "^")
     i = 2 if s[1] == "^" else 1
     accepted = set()
-    last_non_hat = None
-    imax = len(s)
-
-    while i < imax - 1:
-        a = s[i]
-        if a == "-" and last_non_hat:
-            m = ord(last_non_hat)
-            n = ord(s[i + 1])
+    imax = len(s) - 1
+
+    def parse_item(i: int) -> tuple:
+        # Parses the item (symbol or escape sequence) starting at s[i].
+        if s[i] == "\\":
+            return (parse_escaped(s[i:i+2], whole_alphabet), i + 2)
+        return ({s[i]}, i + 1)
+
+    while i < imax:
+        (chars, i) = parse_item(i)
+        # The hyphen denotes an interval if it is between two symbols.
+        if len(chars) == 1 and i + 1 < imax and s[i] == "-":
+            (ends, i) = parse_item(i + 1)
+            if len(ends) != 1:
+                raise ValueError(f"Invalid end of interval in s = {s}")
+            m = ord(min(chars))
+            n = ord(min(ends))
             if m > n:
                 raise ValueError(
                     f"Invalid end of interval in s = {s} at index m = {m}"
                 )
-            for c in range(m, n + 1):
-                accepted.add(chr(c))
-            i += 1
-        else:
-            if a == "\\":
-                accepted |= parse_escaped(s[i:i+2])
-                i += 1
-            else:
-                accepted.add(a)
-        last_non_hat = a
-        i += 1
+            chars = {chr(c) for c in range(m, n + 1)}
+        accepted |= chars
     return accepted if not reverse else set(whole_alphabet) - accepted
 
 
-- 
2.43.0


From 5c87fd9fdccf2172a64ecf8ee20b2f76dd693c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 28/61] fix: the unary plus was not supported by RpnDequeAlg

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index a1d9c74..d4fef53 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -742,7 +742,7 @@ class RpnDequeAlg(RpnDequeOperation):
             return x ** y
         elif a == "u-":
             return -x
-        elif a == "u-":
+        elif a == "u+":
             return x
         else:
             raise ValueError(f"Unsupported operator '{a}'")
-- 
2.43.0


From ccf4d7208c38e2b2890303374fd099ff5e55790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 29/61] fix: a unary operator in the right operand of a power
 popped this power too early

---
 src/pybgl/shunting_yard_postfix.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index d4fef53..acfd104 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -337,6 +337,12 @@ def shunting_yard_postfix(
         Returns:
             ``o1`` is priorer than ``o2``.
         """
+        if (
+            map_operators[o2].cardinality == 1 and
+            map_operators[o2].associativity == RIGHT
+        ):
+            # o2 is a prefix operator: the operand of o1 is not yet complete.
+            return False
         return (
             (
                 map_operators[o2].associativity == RIGHT and
-- 
2.43.0


From dc824925b64e53fbc736c87e293a9cd070295836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 30/61] fix: shunting_yard_compute failed on tokenized
 expressions

---
 src/pybgl/shunting_yard_postfix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index acfd104..56f4fcb 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -781,10 +781,9 @@ def shunting_yard_compute(
     Returns:
         The output ``float`` result.
     """
-    if tokenize:
-        output = RpnDequeAlg(map_operators=map_operators)
+    output = RpnDequeAlg(map_operators=map_operators)
     ret = shunting_yard_postfix(
-        tokenizer_alg(expression),
+        tokenizer_alg(expression) if tokenize else expression,
         map_operators,
         output,
         vis
-- 
2.43.0


From 4e0461332e62e74732ffa18a5c0a0e5474d8bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 31/61] fix: Ast.to_expr always failed

---
 src/pybgl/shunting_yard_postfix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 56f4fcb..0e17fa3 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -590,14 +590,14 @@ class Ast(DirectedGraph):
             if d == 0:
                 return a
             elif d == 1:
-                child = self.children(u)[0]
+                [child] = self.children(u)
                 return f"({to_expr_rec(child)}){a}"
             else:
                 return "(%s)" % a.join(
                     to_expr_rec(child)
                     for child in self.children(u)
                 )
-        if self.root:
+        if self.root is None:
             raise RuntimeError("self.root is not initialized")
         return to_expr_rec(self.root)
 
@@ -683,6 +683,7 @@ def shunting_yard_ast(
     ret = shunting_yard_postfix(expression, map_operators, output, vis)
     assert len(ret) == 1
     root = ret.pop()
+    ast.root = root
     return (ast, root)
 
 
-- 
2.43.0


From ea06124aeac99d9d60fbb3a72802775862966de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 32/61] fix: automaton_insert_string did not return the reached
 state

---
 src/pybgl/automaton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 5f5be72..bc85cf0 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -447,6 +447,7 @@ class Automaton(DirectedGraph):
             self.add_edge(q, r, a)
             q = r
         self.set_final(q)
+        return q
 
 
 # ------------------------------------------------------------------
@@ -853,4 +854,4 @@ def automaton_insert_string(g: Automaton, w: str) -> int:
     Returns:
         The reached state in best effort.
     """
-    g.automaton_insert_string(w)
+    return g.automaton_insert_string(w)
-- 
2.43.0


From fc17590a17d7db9e6b4d96f1c620e237934e20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:23 +0000
Subject: [PATCH 33/61] fix: ReadGraphvizDpVisitor.__init__ passes no graph to
 its base class

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index c5979c1..ba9aa1a 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -176,7 +176,7 @@ class ReadGraphvizDpVisitor(ReadGraphvizVisitor):
     Graphviz file.
     """
     def __init__(self, g, dpv: dict, dpe: dict):
-        super().__init__(g)
+        super().__init__()
         self.dpv = dpv
         self.dpe = dpe
 
-- 
2.43.0


From 6b66b486f7cce85fd5891841d355df5dd95385e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 34/61] fix: read_graphviz_dp ignores the attributes that have
 no property map

---
 src/pybgl/graphviz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index ba9aa1a..059360a 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -181,13 +181,13 @@ class ReadGraphvizDpVisitor(ReadGraphvizVisitor):
         self.dpe = dpe
 
     def on_install_vertex_property(self, u, g, key, value):
-        pmap = self.dpv[key] if self.dpv else None
-        if pmap:
+        pmap = self.dpv.get(key) if self.dpv else None
+        if pmap is not None:
             pmap[u] = value
 
     def on_install_edge_property(self, e, g, key, value):
-        pmap = self.dpe[key] if self.dpe else None
-        if pmap:
+        pmap = self.dpe.get(key) if self.dpe else None
+        if pmap is not None:
             pmap[e] = value
 
 
-- 
2.43.0


From f4ecd08556ea0b59bad31d057e3a50a68d9f6b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 35/61] fix: read_graphviz reads the edges of undirected graphs

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 059360a..ff4ed18 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -106,7 +106,7 @@ class ReadGraphvizVisitor(GraphvizVisitor):
 
 PATTERN_SPACE = "\\s*"
 PATTERN_VERTEX_ID = "([0-9]+)"
-PATTERN_EDGE_CONNECTOR = "->"  # TODO manage -- for undirected graphs
+PATTERN_EDGE_CONNECTOR = "(?:->|--)"
 PATTERN_OPTS = "(\\[(.*)\\])?"
 PATTERN_LINE_VERTEX = PATTERN_SPACE.join(
     [PATTERN_VERTEX_ID, PATTERN_OPTS, ";"]
-- 
2.43.0


From cc96136e188753d1c00945e8b2735751661cd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 36/61] fix: GraphDp.get_dpe returns the per-edge style

---
 src/pybgl/graph_dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 5066e9f..3d50d13 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -73,7 +73,7 @@ class GraphDp:
         return self.dpv
 
     def get_dpe(self) -> dict:
-        return self.dpve
+        return self.dpe
 
     def get_dg(self) -> dict:
         return self.dg
-- 
2.43.0


From 4bec7c1ff8df24cf1731959439c54f92d77c0022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 37/61] fix: GraphDp.to_dot supports extra_style, which is a
 list and not a dict

---
 src/pybgl/graph_dp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 3d50d13..dbf69ec 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -97,7 +97,8 @@ class GraphDp:
         kwargs = enrich_kwargs(self.dg, "dg", **kwargs)
         kwargs = enrich_kwargs(self.dv, "dv", **kwargs)
         kwargs = enrich_kwargs(self.de, "de", **kwargs)
-        kwargs = enrich_kwargs(self.extra_style, "extra_style", **kwargs)
+        if self.extra_style and kwargs.get("extra_style") is None:
+            kwargs["extra_style"] = ";\n  ".join(self.extra_style)
         return to_dot(self.g, **kwargs)
 
     # TODO GraphView
-- 
2.43.0


From bfaab4378da0937878c57ed4a2b5075a4894d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 38/61] fix: GraphDp.to_json escapes the attributes

---
 src/pybgl/graph_dp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index dbf69ec..1fa39b4 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -4,6 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
+import json
 from copy import copy
 from .graph import Graph
 from .graphviz import GraphvizStyle, enrich_kwargs, graphviz_type, to_dot
@@ -127,7 +128,7 @@ class GraphDp:
                     JSON_NODE_FORMAT % {
                         "id": u,
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[u])
+                            "%s: %s" % (json.dumps(str(k)), json.dumps(str(pmap[u])))
                             for k, pmap in self.dpv.items()
                         ]),
                         "sep": "," if self.dpv else "",
@@ -138,7 +139,7 @@ class GraphDp:
                         "source": self.g.source(e),
                         "target": self.g.target(e),
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[e])
+                            "%s: %s" % (json.dumps(str(k)), json.dumps(str(pmap[e])))
                             for k, pmap in self.dpe.items()
                         ]),
                         "sep": "," if self.dpe else "",
-- 
2.43.0


From b939a49abfe8561dd5fb1a4bd111f1ce4dea892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 39/61] fix: AggregatedVisitor forwards the keyword arguments
 to its visitors

---
 src/pybgl/aggregated_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index 9bbdc66..1c28389 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -29,7 +29,7 @@ class AggregatedVisitor:
         """
         def wrapper(*args, **kwargs):
             for vis in self.visitors:
-                getattr(vis, method_name)(*args)
+                getattr(vis, method_name)(*args, **kwargs)
         return wrapper
 
     @staticmethod
-- 
2.43.0


From 50f6a85fdcd441da6f3508d55ce24be0548246be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:14 +0000
Subject: [PATCH 40/61] fix: enrich_kwargs does not alter the style
 dictionaries of the caller

---
 src/pybgl/graphviz_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index e4417e4..c168276 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -351,8 +351,8 @@ def enrich_kwargs(default_d: dict, key: str, **kwargs) -> dict:
         The updated ``**kwargs``.
     """
     if default_d:
-        if key not in kwargs:
-            kwargs[key] = dict()
+        # Do not alter the dictionary passed by the caller.
+        kwargs[key] = dict(kwargs.get(key) or dict())
         for (k, v) in default_d.items():
             if k not in kwargs[key].keys():
                 kwargs[key][k] = v
-- 
2.43.0


From 5ec79a92f2b7a73fee14da28c7c4eb30be3ed272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 41/61] fix: write_graphviz failed with the SVG and PNG formats

---
 src/pybgl/graphviz.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index ff4ed18..6595f3b 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -318,14 +318,18 @@ def write_graphviz(
         engine: str = "dot"
     ) -> bool:
         ret = False
-        bytes_img = run_graphviz(s_dot, engine, format)
-        if bytes_img:
-            print(bytes_img.decode("utf-8"), file=f)
+        # The image is a string (SVG) or a sequence of bytes (e.g., PNG).
+        img = run_graphviz(s_dot, engine, format)
+        if img:
+            if hasattr(f, "encoding"):  # Text file
+                f.write(img if isinstance(img, str) else img.decode("utf-8"))
+            else:
+                f.write(img.encode("utf-8") if isinstance(img, str) else img)
             ret = True
         return ret
 
     if isinstance(filename, str):
-        with open(filename, "w") as f:
+        with open(filename, "wb") as f:
             return write_graphviz_impl(s_dot, f, format, engine)
     else:
         return write_graphviz_impl(s_dot, filename, format, engine)
-- 
2.43.0


From f6d8b3c3153493d26f0b2c20b0059a852eb7516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 42/61] fix: make_node_automaton failed without pmap_vlabel

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index bb8a705..f1526c4 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -335,7 +335,7 @@ def make_node_automaton(
     }
     g = Constructor(0)
     for vertex_name in vertex_names:
-        a = pmap_vlabel[vertex_name]
+        a = pmap_vlabel[vertex_name] if pmap_vlabel is not None else None
         u = g.add_vertex(a)
         if pmap_vfinal[vertex_name]:
             g.set_final(u)
-- 
2.43.0


From 75a04265526c26aaada8370f2fc01ae708aa0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 43/61] fix: background_template_html failed with colors
 involving a percent sign

---
 src/pybgl/ipynb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/ipynb.py b/src/pybgl/ipynb.py
index ca96615..8200817 100644
--- a/src/pybgl/ipynb.py
+++ b/src/pybgl/ipynb.py
@@ -47,7 +47,13 @@ def background_template_html(background_color: str = None) -> str:
         The corresponding HTML template.
     """
     template_html = "<div style='background-color:%s'>%%s</div>"
-    return template_html % background_color if background_color else "%s"
+    return (
+        # The result is a template, so the percent signs must be escaped,
+        # e.g. in "hsl(173, 71%, 56%)".
+        template_html % background_color.replace("%", "%%")
+        if background_color
+        else "%s"
+    )
 
 
 def ipynb_display_graph(g, background_color: str = None, **kwargs):
-- 
2.43.0


From e1b487e7067341f297d3f3735147fbd1fd36d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 44/61] fix: accepts_debug accepted a word that leaves the
 automaton at its last symbol

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index bc85cf0..890bd8e 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -493,7 +493,7 @@ def accepts_debug(w: str, g: Automaton) -> bool:
         if q is BOTTOM:
             return False
         q = delta(q, a, g)
-    return is_final(q, g)
+    return q is not BOTTOM and is_final(q, g)
 
 
 def add_edge(q: int, r: int, a: str, g: Automaton) -> tuple:
-- 
2.43.0


From 1ffa2d7c99bf76c55e3f6002d28f61297d53367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 45/61] fix: an empty default style made the exported DOT text
 invalid

---
 src/pybgl/graphviz_impl.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index c168276..51f7738 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -103,13 +103,12 @@ class GraphvizStyle(metaclass=Singleton):
         Returns:
             The corresponding string.
         """
-        return "; ".join(
-            [
-                GraphvizStyle.attributes_to_dot("graph", GraphvizStyle.graph),
-                GraphvizStyle.attributes_to_dot("node", GraphvizStyle.node),
-                GraphvizStyle.attributes_to_dot("edge", GraphvizStyle.edge)
-            ] + GraphvizStyle.extra_style
-        )
+        instructions = [
+            GraphvizStyle.attributes_to_dot("graph", GraphvizStyle.graph),
+            GraphvizStyle.attributes_to_dot("node", GraphvizStyle.node),
+            GraphvizStyle.attributes_to_dot("edge", GraphvizStyle.edge)
+        ] + GraphvizStyle.extra_style
+        return "; ".join(s for s in instructions if s)
 
 
 # ------------------------------------------------------------------
-- 
2.43.0


From 2322dde4c1d34f722dbced86a906739e0fa82f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 46/61] fix: Nfa shared the set of initial states given by its
 caller

---
 src/pybgl/nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 0fcc12c..f43470b 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -44,7 +44,7 @@ class Nfa(DirectedGraph):
             epsilon (str): The symbol assigned to the epsilon-transition.
         """
         super().__init__(num_vertices)
-        self.initials = initials if initials else {0}
+        self.initials = set(initials) if initials else {0}
         if not pmap_vfinal:
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
-- 
2.43.0


From 0a9e302b9f80a9fa51cb7f858950cf2642ee8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 47/61] fix: accepts_debug failed on a NodeAutomaton that the
 word leaves

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 890bd8e..a739e36 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -489,9 +489,9 @@ def accepts_debug(w: str, g: Automaton) -> bool:
     q = initial(g)
     print(f"w = {w} q0 = {q}")
     for (i, a) in enumerate(w):
-        print(f"w[{i}] = {a}, {q} -> {delta(q, a, g)}")
         if q is BOTTOM:
             return False
+        print(f"w[{i}] = {a}, {q} -> {delta(q, a, g)}")
         q = delta(q, a, g)
     return q is not BOTTOM and is_final(q, g)
 
-- 
2.43.0


From 6f3c4909ea800f0d5f5a36161729e5ecea26e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 48/61] fix: the edit distances failed on long words
 (RecursionError)

---
 src/pybgl/damerau_levenshtein_distance.py | 7 ++++++-
 src/pybgl/lcs_distance.py                 | 7 ++++++-
 src/pybgl/levenshtein_distance.py         | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/damerau_levenshtein_distance.py b/src/pybgl/damerau_levenshtein_distance.py
index dfd181b..4022bd5 100644
--- a/src/pybgl/damerau_levenshtein_distance.py
+++ b/src/pybgl/damerau_levenshtein_distance.py
@@ -112,4 +112,9 @@ def damerau_levenshtein_distance(x: str, y: str) -> int:
         The minimal number of insertion/deletion/substitution/swap
         operations needed to transform `x` into `y`.
     """
-    return DamerauLevenshteinDistance(x, y).compute(0, 0)
+    d = DamerauLevenshteinDistance(x, y)
+    # Process the shortest suffixes first, to bound the recursion depth.
+    for i in range(len(x), -1, -1):
+        for j in range(len(y), -1, -1):
+            d.compute(i, j)
+    return d.compute(0, 0)
diff --git a/src/pybgl/lcs_distance.py b/src/pybgl/lcs_distance.py
index 074bd16..4d1eaf4 100644
--- a/src/pybgl/lcs_distance.py
+++ b/src/pybgl/lcs_distance.py
@@ -91,4 +91,9 @@ def lcs_distance(x: str, y: str) -> int:
         The minimal number of insertion/deletion substitution operations
         needed to transform ``x`` into ``y``.
     """
-    return LcsDistance(x, y).compute(0, 0)
+    d = LcsDistance(x, y)
+    # Process the shortest suffixes first, to bound the recursion depth.
+    for i in range(len(x), -1, -1):
+        for j in range(len(y), -1, -1):
+            d.compute(i, j)
+    return d.compute(0, 0)
diff --git a/src/pybgl/levenshtein_distance.py b/src/pybgl/levenshtein_distance.py
index 5efc694..bb73fc2 100644
--- a/src/pybgl/levenshtein_distance.py
+++ b/src/pybgl/levenshtein_distance.py
@@ -93,4 +93,9 @@ def levenshtein_distance(x: str, y: str) -> int:
         The minimal number of insertion/deletion/substitution
         operations needed to transform `x` into `y`.
     """
-    return LevenshteinDistance(x, y).compute(0, 0)
+    d = LevenshteinDistance(x, y)
+    # Process the shortest suffixes first, to bound the recursion depth.
+    for i in range(len(x), -1, -1):
+        for j in range(len(y), -1, -1):
+            d.compute(i, j)
+    return d.compute(0, 0)
-- 
2.43.0


From 01369e650366cd8def9d5d08ba61c7b210a60b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 49/61] fix: Ast.to_expr failed on long expressions
 (RecursionError)

---
 src/pybgl/shunting_yard_postfix.py | 34 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 0e17fa3..a98d3a6 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -584,22 +584,28 @@ class Ast(DirectedGraph):
             The string containing the expression modeled
             by this :py:class:`Ast` instance.
         """
-        def to_expr_rec(u) -> str:
-            a = str(self.symbol(u))
-            d = self.out_degree(u)
-            if d == 0:
-                return a
-            elif d == 1:
-                [child] = self.children(u)
-                return f"({to_expr_rec(child)}){a}"
-            else:
-                return "(%s)" % a.join(
-                    to_expr_rec(child)
-                    for child in self.children(u)
-                )
         if self.root is None:
             raise RuntimeError("self.root is not initialized")
-        return to_expr_rec(self.root)
+
+        # Post-order traversal (not recursive, as the tree may be deep).
+        exprs = dict()
+        stack = [(self.root, False)]
+        while stack:
+            (u, processed) = stack.pop()
+            a = str(self.symbol(u))
+            if not processed:
+                stack.append((u, True))
+                stack += [(child, False) for child in self.children(u)]
+                continue
+            children = [exprs.pop(child) for child in self.children(u)]
+            if not children:
+                exprs[u] = a
+            elif len(children) == 1:
+                [child] = children
+                exprs[u] = f"({child}){a}"
+            else:
+                exprs[u] = "(%s)" % a.join(children)
+        return exprs[self.root]
 
 
 class RpnDequeAst(RpnDequeOperation):
-- 
2.43.0


From 452dbf3d069914b66c74170e2ccdf5b34689f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 50/61] fix: exporting some vertices or edges of a view
 required sets

---
 src/pybgl/graph_view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 399f9f9..797b2d7 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -277,7 +277,7 @@ class GraphView:
         vs_ = kwargs.pop("vs", None)
         es_ = kwargs.pop("es", None)
         return self.g.to_dot(
-            vs=(vs & vs_) if vs_ is not None else vs,
-            es=(es & es_) if es_ is not None else es,
+            vs=vs.intersection(vs_) if vs_ is not None else vs,
+            es=es.intersection(es_) if es_ is not None else es,
             *cls, **kwargs
         )
-- 
2.43.0


From 3eac37555688da35fee12c1421209c4b5a35e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 51/61] fix: moore_determination never set the initial state of
 the given dfa

---
 src/pybgl/moore_determination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/moore_determination.py b/src/pybgl/moore_determination.py
index 7c300ff..8c69205 100644
--- a/src/pybgl/moore_determination.py
+++ b/src/pybgl/moore_determination.py
@@ -50,7 +50,7 @@ def moore_determination(
     # Keeps track of qs for which delta is not yet installed in dfa
     unprocessed_qs = set()
     unprocessed_qs.add(q0s)
-    _ = dfa_add_state(q0s)  # Build q0 in the DFA
+    dfa.set_initial(dfa_add_state(q0s))  # Build q0 in the DFA
 
     while unprocessed_qs:
         qs = unprocessed_qs.pop()
-- 
2.43.0


From d5924ade21f3fda267b5d5d49a2e330f012b9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 52/61] fix: Nfa.clear left final states behind

---
 src/pybgl/nfa.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index f43470b..00c3a24 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -49,9 +49,17 @@ class Nfa(DirectedGraph):
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
         else:
+            self.map_vfinal = None
             self.pmap_vfinal = pmap_vfinal
         self.epsilon = epsilon
 
+    def clear(self):
+        # Overloaded method
+        super().clear()
+        # The vertex descriptors are reused: forget the former final states.
+        if self.map_vfinal is not None:
+            self.map_vfinal.clear()
+
     def delta_one_step(self, qs: iter, a: str) -> set:
         """
         Determines the target states reached by consuming a symbol
-- 
2.43.0


From 7ec8b22fb8a01b86862e620bf25ab7089304a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 53/61] fix: inserting words in an automaton without initial
 state

---
 src/pybgl/automaton.py   | 3 +++
 src/pybgl/suffix_trie.py | 4 ++--
 src/pybgl/trie.py        | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index a739e36..2844969 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -441,6 +441,9 @@ class Automaton(DirectedGraph):
         Returns:
             The reached state in best effort.
         """
+        if self.initial() not in self.vertices():
+            # There is no state to start from (e.g., the automaton is empty).
+            self.set_initial(self.add_vertex())
         (q, i) = self.delta_best_effort(w)
         for a in w[i:]:
             r = self.add_vertex()
diff --git a/src/pybgl/suffix_trie.py b/src/pybgl/suffix_trie.py
index f673cbf..4692f4b 100644
--- a/src/pybgl/suffix_trie.py
+++ b/src/pybgl/suffix_trie.py
@@ -78,8 +78,8 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
     """
     if g is None:
         g = Trie(pmap_vfinal=make_func_property_map(lambda q: q != BOTTOM))
-    if g.num_vertices() == 0:
-        g.add_vertex()
+    if g.initial() not in g.vertices():
+        g.set_initial(g.add_vertex())
 
     # Naive implementation (slow)
     # g.insert("")
diff --git a/src/pybgl/trie.py b/src/pybgl/trie.py
index 518adda..a998e7a 100644
--- a/src/pybgl/trie.py
+++ b/src/pybgl/trie.py
@@ -105,6 +105,9 @@ def trie_deterministic_fusion(g1: Trie, g2: Trie):
             in place.
         g2 (Trie): The second :py:class:`Trie` instance (unmodified).
     """
+    if g1.initial() not in g1.vertices():
+        # There is no state to start from (e.g., g1 is empty).
+        g1.set_initial(g1.add_vertex())
     parallel_breadth_first_search(
         g1, g2,
         vis=TrieDeterministicFusion(),
-- 
2.43.0


From a2feae2517afc3e5fa4bff2990e0b11ffe70d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 54/61] fix: BKTree.clear left its root and elements behind

---
 src/pybgl/bk_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pybgl/bk_tree.py b/src/pybgl/bk_tree.py
index 70eca9c..6bed0f1 100644
--- a/src/pybgl/bk_tree.py
+++ b/src/pybgl/bk_tree.py
@@ -36,6 +36,13 @@ class BKTree(Automaton):
         self.map_velement = defaultdict()
         self.root = None
 
+    def clear(self):
+        # Overloaded method
+        super().clear()
+        # The vertex descriptors are reused: forget the former elements.
+        self.map_velement.clear()
+        self.root = None
+
     def add_vertex(self, w: str) -> int:
         """
         Adds a vertex to this :py:class:`BKTree` instance.
-- 
2.43.0


From 46bff82840902076b7690450dd9918044e23d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 55/61] fix: reading the attributes of a DOT statement

read_graphviz_dp lost the attributes that are separated by commas, that follow a
label written by to_dot (label=<...>) or whose name has capital letters (URL, K),
and altered the values that contain an ampersand.
---
 src/pybgl/graphviz.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 6595f3b..68a8ca6 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -6,7 +6,7 @@
 
 import re
 import sys
-from html.parser import HTMLParser
+from html import unescape
 from subprocess import Popen, PIPE
 from .graph import Graph, EdgeDescriptor
 from .graphviz_impl import *
@@ -16,26 +16,37 @@ from .graphviz_impl import *
 # Graphviz read
 # ------------------------------------------------------------------
 
-class GraphvizOptsParser(HTMLParser):
+class GraphvizOptsParser:
     """
     The :py:class:`GraphvizOptsVisitor` is
-    used to parse HTML content related to a vertex or an edge.
+    used to parse the attributes related to a vertex or an edge.
     """
+    RE_ATTRIBUTE = re.compile(
+        r"""([^\s=;,]+)\s*=\s*(?:"""
+        r""""((?:\\.|[^"\\])*)"|"""             # "value"
+        r"""'([^']*)'|"""                       # 'value'
+        r"""<((?:[^<>]|<[^<>]*>)*)>|"""         # <HTML value>
+        r"""([^\s;,"'<][^\s;,]*))""",           # value
+        re.DOTALL
+    )
+
     def __init__(self):
         """
         Constructor.
         """
-        super().__init__()
         self.d = dict()
 
-    def handle_starttag(self, tag, attrs):
-        for (k, v) in attrs:
-            self.d[k] = v
-
     def feed(self, graphviz_opts):
         if graphviz_opts:
-            graphviz_opts = "<fake_tag " + graphviz_opts[1:-1] + ">"
-            super().feed(graphviz_opts)
+            for match in self.RE_ATTRIBUTE.finditer(graphviz_opts[1:-1]):
+                (key, quoted, single_quoted, html, value) = match.groups()
+                if quoted is not None:
+                    value = quoted.replace('\\"', '"')
+                elif single_quoted is not None:
+                    value = single_quoted
+                elif html is not None:
+                    value = unescape(html)
+                self.d[key] = value
 
     def items(self):
         return self.d.items()
-- 
2.43.0


From 685caf5aa7d8cd1cf765a45105acf6e4decf430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 56/61] fix: double quotes in the attributes exported to DOT

The value of an attribute (or of a style) that contains a double quote made the
exported text invalid.
---
 src/pybgl/graphviz_impl.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index 51f7738..58be0f8 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -14,6 +14,25 @@ from .tokenize import TokenizeVisitor, tokenize
 # Graphviz style
 # ------------------------------------------------------------------
 
+def graphviz_escape_quotes(value: object) -> str:
+    """
+    Escapes the double quotes that are not escaped yet, so that a value
+    can be surrounded by double quotes in a Graphviz string.
+
+    Args:
+        value (object): The value of a Graphviz attribute.
+
+    Returns:
+        The string to be put between double quotes.
+    """
+    return re.sub(
+        r"(\\.)|([\"\\])",
+        lambda match: match.group(1) or "\\" + match.group(2),
+        str(value),
+        flags=re.DOTALL
+    )
+
+
 class GraphvizStyle(metaclass=Singleton):
     """
     The :py:class:`GraphvizStyle` class is a singleton that
@@ -92,7 +111,8 @@ class GraphvizStyle(metaclass=Singleton):
         return "%s [%s]" % (
             prefix,
             "; ".join([
-                "%s=\"%s\"" % (k, v) for k, v in d.items()
+                "%s=\"%s\"" % (k, graphviz_escape_quotes(v))
+                for k, v in d.items()
             ])
         ) if d else ""
 
@@ -219,7 +239,7 @@ def graphviz_properties_to_str(x: object, dpx: dict) -> str:
         The resulting Graphviz string.
     """
     return "[%s]" % "; ".join([
-        f"{k}=\"{pmap[x]}\"" if k != "label"
+        f"{k}=\"{graphviz_escape_quotes(pmap[x])}\"" if k != "label"
         else f"{k}=<{graphviz_escape_html(str(pmap[x]))}>"
         for (k, pmap) in dpx.items()
         if pmap[x] is not None
@@ -295,7 +315,7 @@ def graphviz_dx_to_dot(prefix: str, dx: dict) -> str:
     return "%s [%s]" % (
         prefix,
         "; ".join([
-            f"{k}=\"{v}\""
+            f"{k}=\"{graphviz_escape_quotes(v)}\""
             for (k, v) in dx.items()
         ])
     ) if dx else ""
-- 
2.43.0


From 25d6f4c6f25b474814370911263599171f2e40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 57/61] fix: an Nfa built without initial states got the
 initial state 0

Nfa(2, initials=set()) accepted the words read from state 0.
---
 src/pybgl/nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 00c3a24..7855d1b 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -44,7 +44,7 @@ class Nfa(DirectedGraph):
             epsilon (str): The symbol assigned to the epsilon-transition.
         """
         super().__init__(num_vertices)
-        self.initials = set(initials) if initials else {0}
+        self.initials = set(initials) if initials is not None else {0}
         if not pmap_vfinal:
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
-- 
2.43.0


From 4048af4e5284ce7cad3b1aee6630a937dbac8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 58/61] fix: Trie(1) raised TypeError

The number of vertices could only be passed by keyword, so that
make_automaton(transitions, Constructor=Trie) failed.
---
 src/pybgl/trie.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/trie.py b/src/pybgl/trie.py
index a998e7a..70f6525 100644
--- a/src/pybgl/trie.py
+++ b/src/pybgl/trie.py
@@ -27,10 +27,9 @@ class Trie(Automaton):
 
     The :py:class:`Trie` specializes the :py:class:`Automaton` class for trees.
     """
-    def __init__(self, *args, **kwargs):
+    def __init__(self, num_vertices: int = 1, *args, **kwargs):
         # Overloaded constructor
-        num_vertices = kwargs.pop("num_vertices", 1)
-        super().__init__(*args, num_vertices=num_vertices, **kwargs)
+        super().__init__(num_vertices, *args, **kwargs)
 
     def insert(self, x: object):
         """
-- 
2.43.0


From cbf1981f50815cfda1dd5b298a3f4a0d9be75774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 59/61] fix: NodeAutomaton.delta failed from BOTTOM

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index f1526c4..9c5e7e3 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -73,7 +73,7 @@ class NodeAutomaton(Automaton):
         Returns:
             The reached state (if any), :py:data:`BOTTOM` otherwise.
         """
-        return self.adjacencies[q].get(a, BOTTOM)
+        return self.adjacencies.get(q, dict()).get(a, BOTTOM)
 
     def add_edge(self, q: int, r: int) -> tuple:
         """
-- 
2.43.0


From 9b01ee11b57af8acdcf5945c119e11e5427e98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 60/61] fix: the union of two NodeAutomaton lost the symbol
 read by one of them only

---
 src/pybgl/product_mixin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 774f52b..1dc2469 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -106,14 +106,17 @@ class ProductMixin:
         if e1:
             q1 = g1.source(e1)
             r1 = g1.target(e1)
-            a = g1.label(e1)
+            # A NodeAutomaton cannot label a transition to BOTTOM.
+            if r1 is not BOTTOM:
+                a = g1.label(e1)
         else:
             q1 = r1 = BOTTOM
 
         if e2:
             q2 = g2.source(e2)
             r2 = g2.target(e2)
-            a = g2.label(e2)
+            if r2 is not BOTTOM:
+                a = g2.label(e2)
         else:
             q2 = r2 = BOTTOM
 
-- 
2.43.0


From 65f21e472d48f50887f3d4e5e1f3d5c0129483c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 61/61] fix: read_graphviz cut the lines of a string at
 characters other than line feeds and carriage returns

Labels and attributes with a character such as U+2028 or U+0085 (written as is by
to_dot) were split in two lines by str.splitlines, and the vertex or edge was lost,
whereas a stream of the same text was read correctly.
---
 src/pybgl/graphviz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 68a8ca6..56e886c 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -7,6 +7,7 @@
 import re
 import sys
 from html import unescape
+from io import StringIO
 from subprocess import Popen, PIPE
 from .graph import Graph, EdgeDescriptor
 from .graphviz_impl import *
@@ -155,7 +156,7 @@ def read_graphviz(iterable, g: Graph, vis: ReadGraphvizVisitor = None):
     if not vis:
         vis = ReadGraphvizVisitor()
     if isinstance(iterable, str):
-        iterable = iterable.splitlines()
+        iterable = StringIO(iterable, newline=None)
 
     for line in iterable:
         line = line.strip()
-- 
2.43.0

