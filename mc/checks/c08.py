from itertools import product
from pybgl.graph_view import GraphView
from pybgl.incidence_graph import IncidenceGraph
from pybgl.property_map import make_func_property_map
from mc.core import require
from mc.gen import big_graphs, build_graph, canonical, edge_sets, edge_seqs
ID, LEVEL = "C08", "exploration"
RULE = ("every graph of a kind (directed, incidence, undirected) up to the bound, every vertex filter and every edge filter for one "
        "view, every pair of filters for |, & and -, and nested combinations of three views (those that have the same vertex or edge filter also share the property map); every observer of the view is "
        "compared with the filtered vertex and edge sets, also after the nested graph is modified. A case is non-trivial when "
        "a filter hides something that the unfiltered graph has.")
ASSUMPTIONS = ["edge(), and the automaton methods forwarded to the nested graph, are not part of the view (only iteration, degrees, counts)",
               "'-' nested directly under '|' is left unspecified for edges"]
BOUND = {"quick": "1 view: n <= 3, <= 3 edges; 2 views: n = 2, <= 2 edges; 3 views: n = 2, 1-2 edges; 1-3 views of structured graphs up to 40 vertices; views of views; filters that change; graphs of 120 vertices",
         "thorough": "1 view: n <= 3, <= 4 edges; 2 views: n <= 3, <= 2 edges; 3 views: n = 2, <= 2 edges"}


def shards(tier):
    out = [("big", kind, i) for kind in "DIU" for i in range(4)]
    for kind in "DIU":
        out.append((kind, 1, 2, 3, 0))
        out.append((kind, 1, 3, 3 if tier == "quick" else 4, 0))
        out.append((kind, 1, 2, 2, 1))
        out.append((kind, 1, 2, 2, 300))
        out.append((kind, 2, 2, 2, 0))
        out.append((kind, 3, 2, 1 if tier == "quick" else 2, 0))
        if tier != "quick":
            out.append((kind, 2, 3, 2, 0))
            out.append((kind, 2, 2, 3, 1))
    return out


NEST = ["(a|b)-c", "(a&b)|c", "(a|b)&c", "(a-b)-c", "(a-b)&c", "a-(b|c)", "a-(b-c)", "a|(b&c)", "a&(b-c)", "(a|b)|c"]


def masks(n, m, default=True):
    """Filters (vertex mask or None, edge mask or None)."""
    vs = ([None] if default else []) + list(range(1 << n))
    es = ([None] if default else []) + list(range(1 << m))
    return [(v, e) for v in vs for e in es]


def cases(shard):
    if shard[0] == "big":
        _, kind, idx = shard
        for i, (n, edges) in enumerate(big_graphs()):
            if kind == "U":
                edges = tuple((min(e), max(e)) for e in edges)
            if i % 4 == idx:
                k = len(edges)
                few = [(None, None), ((1 << n) - 2, None), (int("6b" * 10, 16) & (1 << n) - 1, None), (None, int("b7" * 99, 16) & (1 << k) - 1), (None, 1 << k - 1),
                       (int("f7" * 10, 16) & (1 << n) - 1, int("7d" * 99, 16) & (1 << k) - 1), (1 << n // 2, (1 << k) - 1)]
                for j, a in enumerate(few):
                    yield (kind, n, edges, 0, "a", (a,))
                    for l, b in enumerate(few):
                        for op in "|&-/":
                            yield (kind, n, edges, 300 * ((j + l) % 2), "a%sb" % op, (a, b))
                        yield (kind, n, edges, 0, NEST[(j + l) % len(NEST)], (a, b, few[(j * 2 + l + 1) % len(few)]))
        return
    kind, nviews, n, m, off = shard
    graphs = edge_seqs(n, m, directed=kind != "U") if n == 2 and nviews == 1 else \
        (e for e in edge_sets(n, m, directed=kind != "U") if n == 2 or canonical(n, e))
    for edges in graphs:
        k = len(edges)
        if nviews == 1:
            for f in masks(n, k):
                yield (kind, n, edges, off, "a", (f,))
        elif nviews == 2:
            fs = masks(n, k, default=False) + [(None, None)]
            for a, b in product(fs, fs):
                for op in "|&-/":
                    yield (kind, n, edges, off, "a%sb" % op, (a, b))
        elif k == m:
            fs = masks(n, k, default=False)
            for t in product(fs, fs, fs):
                for op in NEST:
                    yield (kind, n, edges, off, op, t)


def make_view(g, es, vs, f, made):
    """made: the property maps that views of the same filters share, or None."""
    vmask, emask = f
    pv = pe = None
    if vmask is not None:
        pos = {u: i for i, u in enumerate(vs)}
        pv = make_func_property_map(lambda u: u in pos and bool(f[0] >> pos[u] & 1))
    if emask is not None:
        nth = {(x.source, x.target, x.distinguisher): i for i, x in enumerate(es)}
        if not g.directed:
            nth.update({(x.target, x.source, x.distinguisher): i for i, x in enumerate(es)})

        def rel(e):
            i = nth.get((e.source, e.target, e.distinguisher))
            return i is not None and bool(f[1] >> i & 1)
        pe = make_func_property_map(rel)
    if made is not None:
        pv, pe = made.setdefault(("v", vmask), pv), made.setdefault(("e", emask), pe)
    return GraphView(g, pmap_vrelevant=pv, pmap_erelevant=pe)


class Ref:
    """Visible vertices; edges that pass the edge filter (restricted to visible ends when observed)."""
    def __init__(self, v, e):
        self.v, self.e = v, e

    def __or__(self, o):
        return Ref(self.v | o.v, self.e | o.e)

    def __and__(self, o):
        return Ref(self.v & o.v, self.e & o.e)

    def __sub__(self, o):
        return Ref(self.v - o.v, self.e)    # a surviving edge has no end in o, hence is not visible in o


def compare(view, g, ref, es, vs, directed):
    V = {vs[i] for i in ref.v}
    E = [es[i] for i in sorted(ref.e) if es[i].source in V and es[i].target in V]
    t = sorted((e.source, e.target, e.distinguisher) for e in E)
    require(sorted(view.vertices()) == sorted(V), "vertices %s, expected %s", list(view.vertices()), V)
    got = sorted((e.source, e.target, e.distinguisher) for e in view.edges())
    require(got == t, "edges %s, expected %s", got, t)
    require(view.num_vertices() == len(V) and view.num_edges() == len(t), "counts %s %s", view.num_vertices(), view.num_edges())
    require(bool(view.has_vertex()) == bool(V), "has_vertex() is %s", view.has_vertex())
    require(bool(view.has_edge()) == bool(t), "has_edge() is %s", view.has_edge())
    at, to = {u: [] for u in V}, {u: [] for u in V}
    for s, d, k in t:
        at[s].append((s, d, k))
        to[d].append((s, d, k))
        if not directed and s != d:
            at[d].append((d, s, k))
    for u in V:
        outs = sorted(at[u])
        got = sorted((view.source(e), view.target(e), e.distinguisher) for e in view.out_edges(u))
        require(got == outs, "out_edges(%s) %s, expected %s", u, got, outs)
        require(view.out_degree(u) == len(outs), "out_degree(%s) = %s", u, view.out_degree(u))
        if not directed or isinstance(g, IncidenceGraph):
            ins = sorted(to[u]) if directed else outs
            got = sorted((e.source, e.target, e.distinguisher) for e in view.in_edges(u))
            require(got == ins, "in_edges(%s) %s, expected %s", u, got, ins)
            require(view.in_degree(u) == len(ins), "in_degree(%s) = %s", u, view.in_degree(u))


def check(case, st):
    for shared in (False, True) if len({f[0] for f in case[5]}) < len(case[5]) or len({f[1] for f in case[5]}) < len(case[5]) else (False,):
        check_views(case, st, shared)


def check_views(case, st, shared):
    kind, n, edges, off, expr, filters = case
    directed = kind != "U"
    g, es = build_graph(kind, n, edges, off)
    vs = sorted(g.vertices())
    full_v, full_e = (1 << n) - 1, (1 << len(edges)) - 1
    if any(f[0] not in (None, full_v) or f[1] not in (None, full_e) for f in filters):
        st.interesting()
    made = {} if shared else None
    filters = [list(f) for f in filters]        # the maps of the views read these lists
    views = {c: make_view(g, es, vs, f, made) for c, f in zip("abc", filters)}
    refs = {c: Ref({i for i in range(n) if f[0] is None or f[0] >> i & 1},
                   {i for i in range(len(edges)) if f[1] is None or f[1] >> i & 1}) for c, f in zip("abc", filters)}
    if expr == "a/b":       # a view of a view
        view, ref = GraphView(views["a"], views["b"].pmap_vrelevant, views["b"].pmap_erelevant), refs["a"] & refs["b"]
    else:
        view, ref = eval(expr, {}, views), eval(expr, {}, refs)
    compare(view, g, ref, es, vs, directed)
    for c in views:      # combining views leaves the operands unchanged
        compare(views[c], g, refs[c], es, vs, directed)
    if len(filters) < 3 and not shared:      # a view follows its filters
        for c, f in zip("abc", filters):
            for i, m in enumerate((full_v, full_e)):
                if f[i] is not None:
                    f[i] ^= m
                    x = set(range(n if i == 0 else len(edges))) - (refs[c].v if i == 0 else refs[c].e)
                    refs[c] = Ref(x, refs[c].e) if i == 0 else Ref(refs[c].v, x)
                    ref = refs["a"] & refs["b"] if expr == "a/b" else eval(expr, {}, refs)
                    compare(view, g, ref, es, vs, directed)
    if len(filters) == 1 and edges:      # a view follows its graph
        e0 = es.pop(0)
        g.remove_edge(e0)
        dead, ref.e = 0, {i - 1 for i in ref.e if i > 0}
        emask = filters[0][1]
        if emask is None:
            compare(view, g, ref, es, vs, directed)
            e, _ = g.add_edge(vs[-1], vs[0])
            es.append(e)
            ref.e.add(len(es) - 1)
            compare(view, g, ref, es, vs, directed)
