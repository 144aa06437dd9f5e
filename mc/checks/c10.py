from collections import defaultdict
from itertools import permutations, product
from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor, breadth_first_search, breadth_first_search_graph
from pybgl.graph_traversal import BLACK, GRAY, WHITE, DefaultTreeTraversalVisitor, bfs_tree, dfs_tree
from pybgl.property_map import make_assoc_property_map
from mc.core import require
from mc import trav
ID, LEVEL = "C10", "exploration"
RULE = ("breadth_first_search from every source and breadth_first_search_graph from several tuples of sources on every graph of "
        "the bounded space, with every colouring of the other vertices and every edge filter on a subspace; dfs_tree and bfs_tree "
        "on every rooted labelled tree. The recorded event trace is checked by a monitor of the protocol, and the depth of every "
        "vertex in the search tree against its hop distance. A case is non-trivial when its trace has an edge event.")
ASSUMPTIONS = ["if_push is a pure function of the edge", "sources are distinct", "the order of the out-edges, and of vertices at the same distance, is free",
               "visitors do not modify the graph"]
BOUND = {"quick": "all digraphs n <= 3, loop-free n = 4 up to renaming, undirected n <= 4, families up to n = 9 and n = 1500, a path, a cycle and a lollipop of 70000 vertices, trees n <= 5; hubs and bundles of 400",
         "thorough": "all loop-free digraphs n = 4, n = 5 with <= 5 edges up to renaming, undirected n = 5, families up to n = 15, trees n <= 6"}


def shards(tier):
    return [(tier, p) for p in trav.parts(tier) + ["colors", "filter", "trees"]]


def trees(n):
    for root in range(n):
        others = [v for v in range(n) if v != root]
        for par in product(range(n), repeat=n - 1):
            parent = dict(zip(others, par))
            ok = True
            for v in others:
                x, k = v, 0
                while x != root and k <= n:
                    x, k = parent[x], k + 1
                ok = ok and k <= n
            if ok:
                yield root, tuple((parent[v], v) for v in others)


def cases(shard):
    tier, part = shard
    if part == "colors":
        for kind in "DU":
            for es in trav.edge_sets(3, loops=False, directed=kind == "D"):
                for cols in product((WHITE, GRAY, BLACK), repeat=2):
                    yield (kind, 3, es, 0, "", "graph", (0,), (WHITE,) + cols, None)
                    yield (kind, 3, es, 0, "", "single", 0, (WHITE,) + cols, None)
        return
    if part == "filter":
        for es in trav.edge_sets(3, 4, loops=tier != "quick"):
            for mask in range(1 << len(es)):
                yield ("D", 3, es, 0, "", "single", 0, None, mask)
        for es in trav.edge_seqs(2, 3):
            for mask in range(1 << len(es)):
                yield ("D", 2, es, 0, "", "single", 0, None, mask)
                yield ("D", 2, es, 0, "", "graph", (1, 0), None, mask)
        return
    if part == "trees":
        for n in range(1, 6 if tier == "quick" else 7):
            for root, es in trees(n):
                yield ("D", n, es, 0, "", "tree", root, None, None)
                if n == 3:
                    yield ("D", n, es, 300, "", "tree", root, None, None)
                    yield ("I", n, tuple(reversed(es)), 1, "view", "tree", root, None, None)
        for name, n, es in trav.families([9, 1500]):
            if name in ("path", "star", "tree"):
                yield ("D", n, tuple(es), 0, "", "tree", 0, None, None)
        return
    for g in trav.graph_space(tier, part):
        n = g[1]
        for s in (range(n) if n < 20 and not part.startswith("sets4") else [0]) if n < 50 else [0, n // 2]:
            yield g + ("single", s, None, None)
        if n < 50:
            yield g + ("graph", None, None, None)
            yield g + ("graph", (n - 1, 0) if n > 1 else (0,), None, None)
        if n <= 3:
            yield g + ("graph", (), None, None)
            yield g + ("graph", tuple(reversed(range(n))), None, None)
            yield g + ("default", 0, None, None)


class Recorder(DefaultBreadthFirstSearchVisitor):
    def __init__(self):
        self.ev = []
    def initialize_vertex(self, u, g): self.ev.append(("init", u))
    def discover_vertex(self, u, g): self.ev.append(("discover", u))
    def examine_vertex(self, u, g): self.ev.append(("visit", u))
    def finish_vertex(self, u, g): self.ev.append(("finish", u))
    def examine_edge(self, e, g): self.ev.append(("examine", trav.key(g, e)))
    def tree_edge(self, e, g): self.ev.append(("tree", trav.key(g, e)))
    def non_tree_edge(self, e, g): self.ev.append(("nontree", trav.key(g, e)))
    def gray_target(self, e, g): self.ev.append(("gray", trav.key(g, e)))
    def black_target(self, e, g): self.ev.append(("black", trav.key(g, e)))


class TreeRecorder(DefaultTreeTraversalVisitor):
    def __init__(self):
        self.ev = []
    def start_vertex(self, s, g): self.ev.append(("start", s))
    def discover_vertex(self, u, g): self.ev.append(("discover", u))
    def finish_vertex(self, u, g): self.ev.append(("finish", u))
    def examine_edge(self, e, g): self.ev.append(("examine", trav.key(g, e)))


def monitor(ev, out, vs, sources, color, init):
    color, i, depth, todo = dict(color), 0, {}, []
    if init:
        require(sorted(ev[:len(vs)]) == sorted(("init", u) for u in vs), "every vertex must be initialized once, first: %s", ev[:len(vs) + 1])
        i = len(vs)
        color = {u: WHITE for u in vs}
    require(sorted(ev[i:i + len(sources)]) == sorted(("discover", s) for s in sources), "the sources must be discovered first: %s", ev[i:i + len(sources) + 1])
    i += len(sources)
    for s in sources:
        color[s], depth[s] = GRAY, 0
    todo = set(sources)
    from collections import Counter
    levels = Counter({0: len(todo)})
    while todo:
        require(i < len(ev) and ev[i][0] == "visit" and ev[i][1] in todo, "expected the examination of one of %s: %s", list(todo)[:5], ev[i:i + 1])
        u = ev[i][1]
        i += 1
        require(depth[u] == min(k for k in levels if levels[k]), "%s (at depth %d) is examined before a closer vertex", u, depth[u])
        todo.discard(u)
        levels[depth[u]] -= 1
        if not levels[depth[u]]:
            del levels[depth[u]]
        left = list(out[u])
        while left:
            require(i < len(ev) and ev[i][0] == "examine" and ev[i][1] in left, "expected an unexamined out-edge of %s (%s): %s", u, left, ev[i:i + 1])
            x = ev[i][1]
            left.remove(x)
            v = x[1]
            if color[v] == WHITE:
                want = [("tree", x), ("discover", v)]
                color[v], depth[v] = GRAY, depth[u] + 1
                todo.add(v)
                levels[depth[v]] += 1
            else:
                want = [("nontree", x), ("gray" if color[v] == GRAY else "black", x)]
            require(ev[i + 1:i + 3] == want, "edge %s must be reported as %s: %s", x, want, ev[i + 1:i + 3])
            i += 3
        require(i < len(ev) and ev[i] == ("finish", u), "expected finish of %s: %s", u, ev[i:i + 1])
        i += 1
        color[u] = BLACK
    require(i == len(ev), "unexpected events after the end of the search: %s", ev[i:i + 4])
    return color, depth


def distances(out, sources, blocked):
    dist = {s: 0 for s in sources}
    frontier = list(sources)
    while frontier:
        nxt = []
        for u in frontier:
            for (_, v, _) in out[u]:
                if v not in dist and v not in blocked:
                    dist[v] = dist[u] + 1
                    nxt.append(v)
        frontier = nxt
    return dist


def check_tree(g, out, vs, root):
    children = {u: [k[1] for k in out[u]] for u in out}
    depth = distances(out, [root], ())
    for f in (dfs_tree, bfs_tree):
        vis = TreeRecorder()
        f(root, g, vis)
        f(root, g)
        ev = vis.ev
        require(ev[0] == ("start", root) and sum(k == "start" for k, _ in ev) == 1, "%s must start with start_vertex(%s): %s", f.__name__, root, ev[:2])
        order = [u for k, u in ev if k == "discover"]
        require(sorted(order) == sorted(depth), "%s discovers %s", f.__name__, order)
        at = {}
        for i, (k, x) in enumerate(ev):
            require((k, x) not in at, "%s reports %s twice", f.__name__, (k, x))
            at[(k, x)] = i
        require(sum(k == "examine" for k, _ in ev) == len(order) - 1, "%s must examine each edge once", f.__name__)
        for u in order:
            require(("finish", u) in at and at[("discover", u)] < at[("finish", u)], "%s never finishes %s", f.__name__, u)
            for k in out[u]:
                require(at[("discover", u)] < at.get(("examine", k), -1) < at[("finish", u)], "%s examines %s outside its source", f.__name__, k)
        if f is bfs_tree:
            ds = [depth[u] for u in order]
            require(ds == sorted(ds), "bfs_tree discovers depths %s", ds)
        else:
            stack = []      # pre-order: the parent of each vertex is on the current branch
            parent = {v: u for u in children for v in children[u]}
            for u in order:
                if u != root:
                    while stack and stack[-1] != parent[u]:
                        stack.pop()
                    require(stack, "dfs_tree order %s is not depth first", order)
                stack.append(u)


def check(case, st):
    kind, n, edges, off, wrap, mode, s, cols, mask = case
    g, vs, out = trav.build(case)
    if mode == "tree":
        if edges:
            st.interesting()
        return check_tree(g, out, vs, vs[s])
    push = None
    if mask is not None:
        ks = sorted(k for u in out for k in out[u])
        kept = {k for i, k in enumerate(ks) if mask >> i & 1}
        push = lambda e, g: trav.key(g, e) in kept
        out = {u: [k for k in out[u] if k in kept] for u in out}
    color = {u: WHITE if cols is None else cols[i] for i, u in enumerate(vs)}
    runs = []
    for run in range(2):
        d = defaultdict(int, {u: c for u, c in color.items() if c != WHITE})
        pm, vis = make_assoc_property_map(d), Recorder()
        kw = {} if push is None else {"if_push": push}
        if mode == "default":
            breadth_first_search(vs[0], g)
            breadth_first_search_graph(g)
            breadth_first_search_graph(g, [vs[0]])
            breadth_first_search_graph(g, [vs[0]], pm)
            reach = distances(out, [vs[0]], ())
            require(all(d[u] == (BLACK if u in reach else WHITE) for u in vs), "final colours %s, reachable %s", dict(d), reach)
            return
        if mode == "single":
            sources = [vs[s]]
            if run == 1 and cols is None:
                breadth_first_search(vs[s], g, vis=vis, **kw)
            else:
                breadth_first_search(vs[s], g, pm, vis, **kw)
        else:
            sources = list(vs) if s is None else [vs[i] for i in s]
            if s is None:
                breadth_first_search_graph(g, pmap_vcolor=pm, vis=vis, **kw)
            else:
                breadth_first_search_graph(g, list(sources) if run == 0 else iter(sources), pm, vis, **kw)
        if run == 0:
            final, depth = monitor(vis.ev, out, vs, sources, color, mode == "single")
            require(all(d[u] == final[u] for u in vs), "final colours %s, expected %s", dict(d), final)
            blocked = () if mode == "single" else {u for u in vs if color[u] != WHITE}
            require(depth == distances(out, sources, blocked), "search tree depths %s, hop distances %s", depth, distances(out, sources, blocked))
            st.note_max("events", len(vis.ev))
        runs.append(vis.ev)
    require(runs[0] == runs[1], "a second search gives another trace: %s then %s", runs[0], runs[1])
    if any(k == "examine" for k, _ in runs[0]):
        st.interesting()
    if n <= 3:
        st.outcome("".join(k[0] for k, _ in runs[0]))
