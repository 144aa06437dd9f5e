"""Exhaustive generators of small graphs, automata and words (simplest first), and structured deeper families."""
from itertools import combinations, permutations, product

from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.incidence_graph import IncidenceGraph

GRAPHS = {"D": DirectedGraph, "I": IncidenceGraph, "U": UndirectedGraph}


def build_graph(kind, n, edges, offset=0):
    """Builds a real graph whose vertices are offset .. offset+n-1; returns (g, edge descriptors in order)."""
    g = GRAPHS[kind](0)
    for _ in range(offset):
        g.remove_vertex(g.add_vertex())
    vs = [g.add_vertex() for _ in range(n)]
    # equal vertices that are not the same objects (matters when offset > 256)
    es = [g.add_edge(int(str(vs[u])), int(str(vs[v])))[0] for (u, v) in edges]
    return g, es


def pairs(n, loops=True, directed=True):
    return [(u, v) for u in range(n) for v in range(n) if (loops or u != v) and (directed or u <= v)]


def edge_sets(n, max_edges=None, loops=True, directed=True):
    """Every simple graph on n labelled vertices, by increasing number of edges."""
    ps = pairs(n, loops, directed)
    for k in range(len(ps) + 1 if max_edges is None else min(max_edges, len(ps)) + 1):
        yield from combinations(ps, k)


def edge_seqs(n, max_edges, loops=True, directed=True):
    """Every sequence of edges (insertion orders and parallel edges included)."""
    ps = pairs(n, loops, directed)
    for k in range(max_edges + 1):
        yield from product(ps, repeat=k)


def canonical(n, edges, fixed=()):
    """Is this edge set the least of its isomorphism class (vertices in `fixed` not permuted)?"""
    free = [v for v in range(n) if v not in fixed]
    key = sorted(edges)
    for p in permutations(free):
        f = dict(zip(free, p))
        f.update({v: v for v in fixed})
        if sorted((f[u], f[v]) for (u, v) in edges) < key:
            return False
    return True


def families(sizes):
    """Structured larger graphs: (name, n, edges)."""
    for n in sizes:
        path = [(i, i + 1) for i in range(n - 1)]
        yield ("path", n, path)
        yield ("rpath", n, [(i + 1, i) for i in range(n - 1)])
        yield ("cycle", n, path + [(n - 1, 0)])
        yield ("rcycle", n, [((i + 1) % n, i) for i in range(n)])
        yield ("star", n, [(0, i) for i in range(1, n)])
        yield ("instar", n, [(i, 0) for i in range(1, n)])
        yield ("complete", n, [(i, j) for i in range(n) for j in range(n) if i != j])
        yield ("tournament", n, [(i, j) for i in range(n) for j in range(i + 1, n)])
        yield ("tree", n, [((i - 1) // 2, i) for i in range(1, n)])
        yield ("lollipop", n, path + [(n - 1, n // 2)])
        yield ("ladder", n, [(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n - 1, 2)])
        yield ("cycles", n, [(i, i + 1 if i % 3 < 2 and i + 1 < n else i - i % 3) for i in range(n)]
               + [(i, i + 3) for i in range(n - 3)])
        yield ("forest", n, [(i, i + 1) for i in range(n - 1) if i % 3 != 2])
        yield ("parallel", n, [(i, i + 1) for i in range(n - 1) for _ in range(3)])
        yield ("backs", n, path + [(i, max(0, i - 2)) for i in range(1, n)])
        yield ("skips", n, path + [(i, i + 3) for i in range(n - 3)] + [(n - 1, 0)])


def words(symbols, n):
    for k in range(n + 1):
        yield from product(symbols, repeat=k)


def subsets(xs):
    xs = list(xs)
    for k in range(len(xs) + 1):
        yield from combinations(xs, k)


def big_graphs(directed=True, acyclic=False):
    """Larger graphs (n, edges): rings, stars, layers, bundles of parallel edges, irregular ones."""
    out = []
    for n in (12, 40):
        out.append((n, tuple((i, i + 1) for i in range(n - 1)) + (() if acyclic else ((n - 1, 0), (n // 2, n // 2)))))
        out.append((n, tuple((0, i) for i in range(1, n))))
        out.append((n, tuple((i, n - 1) for i in range(n - 1))))
        out.append((n, tuple((i, j) for i in range(n) for j in (2 * i + 1, 2 * i + 2, 2 * i + 4) if j < n)))
        out.append((n, tuple((i, j) for i in range(n) for j in range(n) if (i < j or not acyclic) and (i * i + 3 * j) % 11 == 1)))
        out.append((n, tuple((i // 4 % 3, 5 + i % 4) for i in range(n))))
        out.append((3, ((0, 1),) * n + ((1, 2), (0, 2)) + (() if acyclic else ((1, 0), (2, 2)) * 5)))
    n = 120
    out.append((n, tuple((0, i) for i in range(1, n)) + tuple((i, n - 1) for i in range(1, n - 1)) + (() if acyclic else ((n // 2, 0),))))
    out.append((n, tuple((i, i + 1) for i in range(n - 1)) + tuple((i // 2, i) for i in range(3, n)) + (() if acyclic else ((n - 1, 0), (7, 7)))))
    return out
