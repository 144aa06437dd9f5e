from collections import defaultdict
from pybgl.dijkstra_shortest_paths import dijkstra_shortest_path, dijkstra_shortest_paths, make_shortest_path, make_shortest_paths_dag
from pybgl.property_map import make_assoc_property_map
from mc.core import require
from mc import wgraph
from .c11 import Recorder, monitor
ID, LEVEL = "C12", "exploration"
RULE = ("for every weighted graph of the bounded space, every semi-ring and every target: dijkstra_shortest_path, make_shortest_path "
        "and make_shortest_paths_dag (all paths and single path) against the tight edges of Bellman-Ford distances; the visitor given to dijkstra_shortest_path sees the search up to the target. Non-trivial: "
        "the target is reachable and is not the source.")
ASSUMPTIONS = ["weights are non-negative for the semi-ring and better than infty; compare is a strict order",
               "with edges that cost nothing, the edges of the all-paths result are only bounded: it contains every simple shortest path and only tight edges that lead to the target",
               "make_shortest_path is only called for a reachable target"]
BOUND = {"quick": "as the shortest-path distances check, every target; 1500 tied predecessors", "thorough": "as the shortest-path distances check, every target"}


def shards(tier):
    return [(tier, p) for p in wgraph.PARTS]


def cases(shard):
    for c in wgraph.space(*shard):
        n = c[1]
        for s in c[7][:1]:
            for t in range(n) if n < 9 else (0, 1, n // 2, n - 1):
                yield c[:7] + (s, t)


def is_path(w, path, s, t, dist):
    """A list of consecutive edges from s to t whose combined weight is the distance."""
    u, cost, seen = s, w.zero, {s}
    for e in path:
        k = w.k(e)
        require(k in w.edges, "%s is not an edge of the graph", k)
        require(k[0] == u, "the path %s is not made of consecutive edges", [w.k(x) for x in path])
        cost = w.plus(cost, w.weight[k])
        u = k[1]
        require(u not in seen, "the path %s visits %s twice", [w.k(x) for x in path], u)
        seen.add(u)
    require(u == t, "the path %s does not lead to %s", [w.k(x) for x in path], t)
    require(cost == dist[t], "the path %s costs %s, the distance is %s", [w.k(x) for x in path], cost, dist[t])


def simple_paths(tight, s, t):
    """Edges of every simple path from s to t in the tight graph."""
    out = defaultdict(list)
    for k in tight:
        out[k[0]].append(k)
    kept = set()
    stack = [(s, (), frozenset([s]))]
    while stack:
        u, path, seen = stack.pop()
        if u == t:
            kept.update(path)
            continue
        for k in out[u]:
            if k[1] not in seen:
                stack.append((k[1], path + (k,), seen | {k[1]}))
    return kept


def backward(tight, t):
    kept, todo, done = set(), [t], {t}
    while todo:
        v = todo.pop()
        for k in tight:
            if k[1] == v:
                kept.add(k)
                if k[0] not in done:
                    done.add(k[0])
                    todo.append(k[0])
    return kept


def check_events(w, s, t, ev, dist):
    """The visitor of the caller sees the whole search up to the target."""
    n = len(w.vs)
    require(sorted(ev[:n]) == sorted(("init", u) for u in w.vs), "the visitor does not see the initialization: %s", ev[:n])
    if t not in dist:
        monitor(w, s, ev, dist)
        return
    seen = {x[1] for x in ev if x[0] == "finish"}
    need = {u for u in dist if w.better(dist[u], dist[t])}
    require(need <= seen, "the visitor does not see %s, closer than the target %s", need - seen, t)
    edges = {x[1] for x in ev if x[0] == "examine"}
    require(edges >= {k for k in w.edges if k[0] in seen}, "the visitor sees the edges %s, while %s are finished", edges, seen)
    require({x[1] for x in ev if x[0] == "visit"} - {t} == seen - {t}, "vertices examined and finished differ")
    done = [x for x in ev if x[0] == "visit"]
    require(all(x[1] != t for x in done[:-1]), "the search goes on after the target")


def check(case, st):
    w = wgraph.World(case)
    s, t = w.vs[case[7]], w.vs[case[8]]
    dist = w.distances(s)
    tight = w.tight(dist)
    kw = w.args()
    map_dist, preds = defaultdict(lambda: w.zero), defaultdict(set)
    vis = None
    if (case[8] + len(case[2])) % 2:
        vis = kw["vis"] = Recorder(map_dist)
    path = dijkstra_shortest_path(w.g, s, t, w.pmap_eweight, make_assoc_property_map(preds), make_assoc_property_map(map_dist), **kw)
    if t not in dist:
        require(path is None, "a path %s is returned to the unreachable vertex %s", path, t)
    else:
        require(path is not None, "no path is returned to %s, at distance %s", t, dist[t])
        is_path(w, path, s, t, dist)
        require(map_dist[t] == dist[t], "the distance of the target is %s, expected %s", map_dist[t], dist[t])
    if vis is not None:
        check_events(w, s, t, vis.ev, dist)
    map_dist, preds = defaultdict(lambda: w.zero), defaultdict(set)
    pm = make_assoc_property_map(preds)
    dijkstra_shortest_paths(w.g, s, w.pmap_eweight, pm, make_assoc_property_map(map_dist), **w.args())
    dag = make_shortest_paths_dag(w.g, s, t, pm)
    one = make_shortest_paths_dag(w.g, s, t, pm, single_path=True)
    if t not in dist:
        require(not dag and not one, "edges %s towards the unreachable vertex %s", dag, t)
        return
    if s != t:
        st.interesting()
    is_path(w, make_shortest_path(w.g, s, t, pm), s, t, dist)
    got = {w.k(e) for e in dag}
    low, high = (simple_paths(tight, s, t) if case[1] < 30 else set()), backward(tight, t)
    require(low <= got <= high, "shortest-paths edges %s, expected at least %s and at most %s", got, low, high)
    free = any(w.plus(dist[k[0]], w.weight[k]) == dist[k[0]] for k in tight)
    if not free:
        require(got == high, "shortest-paths edges %s, expected %s", got, high)
    src = defaultdict(list)
    for e in one:
        src[e.source].append(e)
    u, ordered = s, []
    while u != t and src[u]:
        ordered.append(src[u].pop())
        u = ordered[-1].target
    require(len(ordered) == len(one), "the single path %s is not one path from %s to %s", one, s, t)
    is_path(w, ordered, s, t, dist)
    st.outcome((len(got), len(one)))
