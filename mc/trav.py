"""Shared spaces of traversal cases and the wrappers that build them."""
from itertools import product
from pybgl.graph_view import GraphView
from pybgl.property_map import make_func_property_map
from .gen import build_graph, canonical, edge_seqs, edge_sets, families, pairs

# case = (kind, n, edges, offset, wrap, extra)   wrap: "" or "view"


def build(case):
    """Returns (graph or view, vertices, visible out-edges: u -> list of (descriptor key))."""
    kind, n, edges, off, wrap = case[:5]
    if wrap == "view":
        # two hidden vertices, hidden edges to and from them, and a hidden parallel of every edge
        base, es = build_graph(kind, n + 2, list(edges) + [(u, n) for u in range(n)] + [(n + 1, u) for u in range(n)]
                               + [(n, n + 1)] + list(edges), off)
        vs = sorted(base.vertices())
        hidden_v = set(vs[n:])
        hidden_e = {(e.source, e.target, e.distinguisher) for e in es[len(edges) + 2 * n + 1:]}
        hidden_e |= {(t, s, d) for (s, t, d) in hidden_e}
        seen = {(e.source, e.target, e.distinguisher) for e in es[:len(edges)]}
        g = GraphView(base, make_func_property_map(lambda u: u not in hidden_v),
                      make_func_property_map(lambda e: (e.source, e.target, e.distinguisher) not in hidden_e))
        vs = vs[:n]
    else:
        g, es = build_graph(kind, n, edges, off)
        vs = sorted(g.vertices())
        seen = {(e.source, e.target, e.distinguisher) for e in es}
    out = {u: [] for u in vs}
    for (s, t, d) in sorted(seen):
        out[s].append((s, t, d))
        if kind == "U" and s != t:
            out[t].append((t, s, d))
    return g, vs, out


def key(g, e):
    return (g.source(e), g.target(e), e.distinguisher)


def graph_space(tier, part):
    """Named parts of the space of graphs; yields (kind, n, edges, offset, wrap)."""
    deep = tier != "quick"
    if part == "multi2":
        for kind in "DI":
            for es in edge_seqs(2, 4 if not deep else 5):
                yield (kind, 2, es, 0, "")
        yield ("D", 1, (), 0, "")
        for k in (1, 2, 3):
            yield ("D", 1, ((0, 0),) * k, 0, "")
    elif part == "sets3":
        for es in edge_sets(3):
            yield ("D", 3, es, 0, "")
            if len(es) > 1:
                yield ("D", 3, tuple(reversed(es)), 0, "")
    elif part == "seqs3":
        for es in edge_seqs(3, 3 if not deep else 4, loops=deep):
            yield ("I" if len(es) % 2 else "D", 3, es, 0, "")
    elif part.startswith("sets4"):
        which = int(part[5:] or 0)
        for i, es in enumerate(edge_sets(4, loops=False)):
            if i % 4 == which and (deep or canonical(4, es, fixed=(0,))):
                yield ("D", 4, es, 0, "")
    elif part.startswith("loops4"):
        which = int(part[6:] or 0)
        for i, es in enumerate(edge_sets(4, 6 if deep else 4, loops=True)):
            if i % 4 == which and any(u == v for u, v in es) and canonical(4, es, fixed=(0,)):
                yield ("D", 4, es, 0, "")
    elif part == "sets5":
        for es in edge_sets(5, 5, loops=False):
            if canonical(5, es, fixed=(0,)):
                yield ("D", 5, es, 0, "")
    elif part == "undirected":
        for es in edge_seqs(2, 3, directed=False):
            yield ("U", 2, es, 0, "")
        for es in edge_sets(3, directed=False):
            yield ("U", 3, es, 0, "")
        for es in edge_sets(4, directed=False, loops=False):
            yield ("U", 4, es, 0, "")
        if deep:
            for es in edge_sets(5, directed=False, loops=False):
                yield ("U", 5, es, 0, "")
        for es in edge_sets(3, 2, directed=False):
            yield ("U", 3, tuple(es) * 2, 0, "")
    elif part == "offset":
        for off in (1, 300):
            for es in edge_sets(2):
                for kind in "DI":
                    yield (kind, 2, es, off, "")
            for es in edge_sets(3, 3, loops=False):
                yield ("D", 3, es, off, "")
            for es in edge_sets(3, 2, directed=False):
                yield ("U", 3, es, off, "")
    elif part == "view":
        for es in edge_seqs(2, 2):
            for kind in "DI":
                yield (kind, 2, es, 0, "view")
        for es in edge_sets(3, 4, loops=deep):
            yield ("D", 3, es, 0, "view")
        for es in edge_sets(3, directed=False):
            yield ("U", 3, es, 0, "view")
    elif part == "families":
        for name, n, es in families(range(5, 10) if not deep else range(5, 16)):
            yield ("D", n, tuple(es), 0, "")
            yield ("I", n, tuple(reversed(es)), 0, "")
            yield ("U", n, tuple(es), 0, "")
    elif part == "large":
        for n in ((40, 1500) if not deep else (40, 130, 1500)):
            for name, n, es in families([n]):
                if name not in ("complete", "tournament", "parallel") or n < 50:
                    yield ("D", n, tuple(es), 0, "")
        for n in (100, 400):    # hubs other than the source, bundles of parallel edges
            hub = ((0, 1),) + tuple((1, i) for i in range(2, n - 1)) + tuple((i, n - 1) for i in range(2, n - 1))
            bundle = ((0, 1),) * n + ((1, 2),) * 3 + ((0, 2),) + ((2, 3),) * n
            for k, es, m in (("D", hub, n), ("I", hub + ((n - 1, 1),), n), ("U", hub, n), ("D", bundle, 4), ("D", bundle + ((3, 1),) * n, 4), ("U", bundle + ((1, 1),) * n, 4)):
                yield (k, m, es, 0, "")
    elif part.startswith("huge"):
        n = 70000       # more than 2 ** 16
        yield ("D", n, tuple((i, i + 1) for i in range(n - 1)) + {"0": (), "1": ((n - 1, 0),), "2": ((n - 1, n // 2),)}[part[-1]], 0, "")


QUICK_PARTS = ["multi2", "sets3", "seqs3", "sets40", "sets41", "sets42", "sets43", "undirected", "offset", "view", "families", "large", "huge0", "huge1", "huge2",
               "loops40", "loops41", "loops42", "loops43"]
THOROUGH_PARTS = QUICK_PARTS + ["sets5"]


def parts(tier):
    return QUICK_PARTS if tier == "quick" else THOROUGH_PARTS
