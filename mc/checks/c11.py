from collections import defaultdict
from pybgl.dijkstra_shortest_paths import DijkstraVisitor, dijkstra_shortest_paths, dijkstra_shortest_paths_initialization, dijkstra_shortest_paths_iteration
from pybgl.algebra import Less
from pybgl.heap import Comparable, Heap
from pybgl.property_map import make_assoc_property_map
from mc.core import require
from mc import wgraph
ID, LEVEL = "C11", "exploration"
RULE = ("dijkstra_shortest_paths on every weighted graph of the bounded space and 7 semi-rings ((min,+) with default and explicit "
        "operators, (min,max), (max,min) twice, (max,x), lexicographic pairs): distances against Bellman-Ford, predecessor sets "
        "against the exact set of tight edges, and a monitor over the visitor events; the same with the initialization and the iterations called one by one. Non-trivial: at least two reachable vertices.")
ASSUMPTIONS = ["weights are non-negative for the semi-ring (combining never improves) and better than infty", "compare is a strict order",
               "pmap_vpreds maps to fresh empty sets and pmap_vcolor to WHITE, as documented"]
BOUND = {"quick": "n = 2 with <= 3 edges x weights 0..2, n = 3 with <= 4 edges x 0..2, n = 4 complete acyclic x {1,2,4}, n = 4 with 4-5 edges, dense families n <= 9, n = 60 sparse families; 1500 tied predecessors",
         "thorough": "n = 3 with 5 edges, n = 4 with <= 6 edges x {0,1,3}, larger dense families"}


def shards(tier):
    return [(tier, p) for p in wgraph.PARTS]


def cases(shard):
    for c in wgraph.space(*shard):
        for s in c[7]:
            yield c[:7] + (s,)


class Recorder(DijkstraVisitor):
    def __init__(self, dist):
        self.ev, self.dist = [], dist
    def initialize_vertex(self, u, g): self.ev.append(("init", u))
    def examine_vertex(self, u, g): self.ev.append(("visit", u, self.dist[u]))
    def discover_vertex(self, u, g): self.ev.append(("discover", u))
    def finish_vertex(self, u, g): self.ev.append(("finish", u))
    def examine_edge(self, e, g): self.ev.append(("examine", (e.source, e.target, e.distinguisher)))
    def edge_relaxed(self, e, g): self.ev.append(("relaxed", (e.source, e.target, e.distinguisher)))
    def edge_not_relaxed(self, e, g): self.ev.append(("kept", (e.source, e.target, e.distinguisher)))


def monitor(w, s, ev, dist):
    n = len(w.vs)
    require(sorted(ev[:n]) == sorted(("init", u) for u in w.vs), "every vertex must be initialized once, first: %s", ev[:n])
    cur = {u: w.infty for u in w.vs}
    cur[s] = w.zero
    discovered, finished, u, todo, pending, last = {s}, set(), None, None, None, None
    for x in ev[n:]:
        k = x[0]
        if k == "discover":
            require(x[1] not in discovered, "%s is discovered twice", x[1])
            discovered.add(x[1])
        elif k == "visit":
            require(u is None, "%s examined before %s is finished", x[1], u)
            u = x[1]
            require(u in discovered and u not in finished, "%s examined twice or before its discovery", u)
            require(x[2] == dist[u] == cur[u], "%s is examined at distance %s, its distance is %s", u, x[2], dist[u])
            require(last is None or not w.better(dist[u], last), "%s (%s) examined after a vertex at %s", u, dist[u], last)
            last, todo = dist[u], list(w.out[u])
        elif k == "examine":
            require(pending is None and u is not None and x[1] in todo, "unexpected examination of %s from %s", x[1], u)
            todo.remove(x[1])
            pending = x[1]
        elif k in ("relaxed", "kept"):
            require(pending == x[1], "%s of %s while examining %s", k, x[1], pending)
            new = w.plus(dist[u], w.weight[pending])
            v = pending[1]
            if v not in discovered or w.better(new, cur[v]):
                require(k == "relaxed" and v in discovered, "edge %s improves %s to %s but is reported as not relaxed", pending, cur[v], new)
            elif new != cur[v]:
                require(k == "kept", "edge %s does not improve %s (%s) but is reported as relaxed", pending, cur[v], new)
            if w.better(new, cur[v]):
                cur[v] = new
            pending = None
        elif k == "finish":
            require(x[1] == u and not todo and pending is None, "%s finished while edges %s are left", x[1], todo)
            finished.add(u)
            u = None
        else:
            require(False, "unexpected event %s", x)
    require(u is None and finished == set(dist) and discovered == set(dist), "finished %s, discovered %s, reachable %s", finished, discovered, set(dist))


def check(case, st):
    w = wgraph.World(case)
    s = w.vs[case[7]]
    dist = w.distances(s)
    tight = w.tight(dist)
    if len(dist) > 1:
        st.interesting()
    for run in range(2):
        map_dist, preds = defaultdict(lambda: w.zero), defaultdict(set)
        vis = Recorder(map_dist)
        color = defaultdict(int)
        kw = w.args()
        if run == 0:
            kw["pmap_vcolor"] = make_assoc_property_map(color)
            kw["vis"] = vis
        dijkstra_shortest_paths(w.g, s, w.pmap_eweight, make_assoc_property_map(preds), make_assoc_property_map(map_dist), **kw)
        for u in w.vs:
            want = dist.get(u, w.infty)
            require(map_dist[u] == want, "distance of %s from %s is %s, expected %s", u, s, map_dist[u], want)
            got = {w.k(e) for e in preds[u]}
            need = {x for x in tight if x[1] == u}
            require(got == need and len(preds[u]) == len(need), "shortest-path in-edges of %s are %s, expected %s", u, got, need)
        if run == 0:
            monitor(w, s, vis.ev, dist)
    # step by step, with the functions that dijkstra_shortest_paths is made of
    map_dist, preds, color = defaultdict(lambda: w.zero), defaultdict(set), defaultdict(int)
    pdist, ppreds, pcolor = (make_assoc_property_map(m) for m in (map_dist, preds, color))
    vis = Recorder(map_dist)
    dijkstra_shortest_paths_initialization(w.g, s, pcolor, pdist, w.zero, w.infty, vis)
    require({u: map_dist[u] for u in w.vs} == {u: w.zero if u == s else w.infty for u in w.vs}, "initial distances %s", dict(map_dist))
    kw = {} if w.default else {"compare": w.compare or Less(), "combine": w.combine}
    heap = Heap([s], to_comparable=lambda u: Comparable(pdist[u], kw.get("compare", Less())))
    order = []
    while heap:
        order.append(dijkstra_shortest_paths_iteration(heap, w.g, w.pmap_eweight, ppreds, pdist, pcolor, vis=vis, **kw))
    require(len(order) == len(dist) and sorted(order, key=repr) == sorted(dist.values(), key=repr), "distances returned by the iterations: %s", order)
    for u in w.vs:
        require(map_dist[u] == dist.get(u, w.infty) and {w.k(e) for e in preds[u]} == {x for x in tight if x[1] == u}, "step by step: %s is at distance %s, in-edges %s", u, map_dist[u], preds[u])
    if case[6].startswith("band"):     # a non-strict comparison, as in the documentation: same distances
        map_dist, preds = defaultdict(lambda: w.zero), defaultdict(set)
        kw = w.args()
        kw["compare"] = lambda a, b: a >= b
        dijkstra_shortest_paths(w.g, s, w.pmap_eweight, make_assoc_property_map(preds), make_assoc_property_map(map_dist), **kw)
        for u in w.vs:
            require(map_dist[u] == dist.get(u, w.infty), "with >=, distance of %s is %s", u, map_dist[u])
    st.outcome((len(dist), len(tight)))
