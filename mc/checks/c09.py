from collections import defaultdict
from itertools import product
from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor, depth_first_search, depth_first_search_graph
from pybgl.graph_traversal import BLACK, GRAY, WHITE
from pybgl.property_map import make_assoc_property_map
from mc.core import require
from mc import trav
ID, LEVEL = "C09", "exploration"
RULE = ("depth_first_search from every source, and depth_first_search_graph from several tuples of sources, on every graph of the "
        "bounded space, with every colouring of the other vertices (WHITE/GRAY/BLACK beforehand) and every edge filter on a "
        "subspace; the recorded event trace is checked by a monitor of the DFS protocol. A case is non-trivial when its trace "
        "has at least one edge event.")
ASSUMPTIONS = ["if_push is a pure function of the edge", "the order in which the out-edges of a vertex are examined is free",
               "in an undirected graph an edge may be examined once from each end (the code has no edge colour)",
               "visitors do not modify the graph"]
BOUND = {"quick": "all digraphs n <= 3, loop-free n = 4 and n = 4 with loops and <= 4 edges up to renaming, <= 4 edge sequences on n = 2, undirected n <= 4, structured families up to n = 9 (all sources) and n = 1500, a path, a cycle and a lollipop of 70000 vertices; hubs and bundles of 400",
         "thorough": "all loop-free digraphs n = 4, n = 4 with loops and <= 6 edges and n = 5 with <= 5 edges up to renaming, undirected n = 5, families up to n = 15"}


def shards(tier):
    return [(tier, p) for p in trav.parts(tier) + ["colors", "filter"]]


def cases(shard):
    tier, part = shard
    if part == "colors":
        for kind, m in (("D", None), ("U", None)):
            for es in trav.edge_sets(3, m, loops=False, directed=kind == "D"):
                for cols in product((WHITE, GRAY, BLACK), repeat=2):
                    yield (kind, 3, es, 0, "", "one", 0, (WHITE,) + cols, None)
                    yield (kind, 3, es, 0, "", "all", None, (WHITE,) + cols, None)
        return
    if part == "filter":
        for es in trav.edge_sets(3, 4, loops=tier != "quick"):
            for mask in range(1 << len(es)):
                yield ("D", 3, es, 0, "", "one", 0, None, mask)
        for es in trav.edge_seqs(2, 3):
            for mask in range(1 << len(es)):
                yield ("D", 2, es, 0, "", "one", 0, None, mask)
                yield ("D", 2, es, 0, "", "all", (1, 0), None, mask)
        return
    for g in trav.graph_space(tier, part):
        n = g[1]
        for s in (range(n) if n < 20 and not part.startswith("sets4") else [0]) if n < 50 else [0, n // 2]:
            yield g + ("one", s, None, None)
        if n < 50:
            yield g + ("all", None, None, None)
        if n <= 3:
            yield g + ("all", (), None, None)
            yield g + ("all", (n - 1,), None, None)
            yield g + ("all", tuple(reversed(range(n))), None, None)
            yield g + ("all", (0, 0), None, None)
            yield g + ("default", 0, None, None)


class Recorder(DefaultDepthFirstSearchVisitor):
    def __init__(self):
        self.ev = []
    def start_vertex(self, s, g): self.ev.append(("start", s))
    def discover_vertex(self, u, g): self.ev.append(("discover", u))
    def finish_vertex(self, u, g): self.ev.append(("finish", u))
    def examine_edge(self, e, g): self.ev.append(("examine", trav.key(g, e)))
    def tree_edge(self, e, g): self.ev.append(("tree", trav.key(g, e)))
    def back_edge(self, e, g): self.ev.append(("back", trav.key(g, e)))
    def forward_or_cross_edge(self, e, g): self.ev.append(("fwd", trav.key(g, e)))


def monitor(ev, out, sources, color):
    """Accepts exactly the traces of a depth-first search. Returns the final colours."""
    color = dict(color)
    it = iter(ev)
    pos = 0
    i = 0
    for s in sources:
        if color[s] != WHITE:
            continue
        require(i + 1 < len(ev) and ev[i] == ("start", s) and ev[i + 1] == ("discover", s),
                "expected start and discover of source %s at event %d: %s", s, i, ev[i:i + 2])
        i += 2
        color[s] = GRAY
        stack = [(s, list(out[s]))]
        while stack:
            u, todo = stack[-1]
            require(i < len(ev), "the trace stops while %s is being explored", u)
            kind, x = ev[i]
            i += 1
            if not todo:
                require((kind, x) == ("finish", u), "expected finish of %s at event %d: %s", u, i - 1, ev[i - 1])
                color[u] = BLACK
                stack.pop()
                continue
            require(kind == "examine" and x in todo, "expected an unexamined out-edge of %s (%s) at event %d: %s", u, todo, i - 1, (kind, x))
            todo.remove(x)
            v = x[1]
            want = {WHITE: "tree", GRAY: "back", BLACK: "fwd"}[color[v]]
            require(i < len(ev) and ev[i] == (want, x), "edge %s must be reported as %s: %s", x, want, ev[i:i + 1])
            i += 1
            if want == "tree":
                require(i < len(ev) and ev[i] == ("discover", v), "tree edge to %s must be followed by its discovery: %s", v, ev[i:i + 1])
                i += 1
                color[v] = GRAY
                stack.append((v, list(out[v])))
    require(i == len(ev), "unexpected events after the end of the search: %s", ev[i:i + 4])
    return color


def check(case, st):
    kind, n, edges, off, wrap, mode, s, cols, mask = case
    g, vs, out = trav.build(case)
    kept = {k for u in out for k in out[u]}
    push = None
    if mask is not None:
        ks = sorted(kept)
        kept = {k for i, k in enumerate(ks) if mask >> i & 1}
        push = lambda e, g: trav.key(g, e) in kept
        out = {u: [k for k in out[u] if k in kept] for u in out}
    color = {u: WHITE if cols is None else cols[i] for i, u in enumerate(vs)}
    runs = []
    for _ in range(2):      # a second search in the same process starts afresh
        d = defaultdict(int, {u: c for u, c in color.items() if c != WHITE})
        pm, vis = make_assoc_property_map(d), Recorder()
        kw = {} if push is None else {"if_push": push}
        if mode == "one":
            sources = [vs[s]]
            if cols is None and len(runs) == 1:
                depth_first_search(vs[s], g, vis=vis, **kw)
                d = None
            else:
                depth_first_search(vs[s], g, pm, vis, **kw)
        elif mode == "all":
            sources = list(g.vertices()) if s is None else [vs[i] for i in s]
            if s is None:
                depth_first_search_graph(g, pmap_vcolor=pm, vis=vis, **kw)
            else:
                depth_first_search_graph(g, list(sources) if len(runs) == 0 else iter(sources), pm, vis, **kw)
        else:
            depth_first_search(vs[0], g)
            depth_first_search_graph(g)
            d = defaultdict(int)
            depth_first_search(vs[0], g, make_assoc_property_map(d))
            vis.ev, sources = None, [vs[0]]
        if mode == "default":
            reach, todo = set(sources), list(sources)
            while todo:
                for k in out[todo.pop()]:
                    if k[1] not in reach:
                        reach.add(k[1])
                        todo.append(k[1])
            require({u for u in vs if d[u] == BLACK} == reach and all(d[u] == WHITE for u in vs if u not in reach),
                    "final colours %s, reachable %s", dict(d), reach)
            return
        if len(runs) == 0:
            final = monitor(vis.ev, out, sources, color)
            require(all(d[u] == final[u] for u in vs), "final colours %s, expected %s", dict(d), final)
            st.note_max("events", len(vis.ev))
        runs.append(vis.ev)
    require(runs[0] == runs[1], "a second search gives another trace: %s then %s", runs[0], runs[1])
    if any(k == "examine" for k, _ in runs[0]):
        st.interesting()
    if n <= 3:
        st.outcome("".join(k[0] for k, _ in runs[0]))
