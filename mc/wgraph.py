"""Weighted graphs and semi-rings for the shortest-path checks."""
from itertools import permutations, product
from pybgl.algebra import ClosedMax, ClosedMin, ClosedPlus, ClosedTime, GreaterThan, INFINITY, Less
from pybgl.graph_view import GraphView
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from .gen import build_graph, canonical, edge_seqs, edge_sets, families

# name -> (compare or None, combine, zero, infty, better(a, b), combine of the reference, weight scale)
LEX = (float("inf"), float("inf"))
SEMIRINGS = {
    "plus": (lambda: None, lambda: ClosedPlus(), 0, INFINITY, lambda a, b: a < b, lambda a, b: a + b, lambda w: w),
    "plus2": (lambda: Less(), lambda: (lambda a, b: a + b), 0, 10 ** 9, lambda a, b: a < b, lambda a, b: a + b, lambda w: w),
    "minmax": (lambda: Less(), lambda: ClosedMax(), 0, INFINITY, lambda a, b: a < b, max, lambda w: w),
    "band": (lambda: GreaterThan(), lambda: min, INFINITY, 0, lambda a, b: a > b, min, lambda w: w + 1),
    "band2": (lambda: (lambda a, b: a > b), lambda: ClosedMin(), INFINITY, 0, lambda a, b: a > b, min, lambda w: w + 1),
    "rel": (lambda: GreaterThan(), lambda: ClosedTime(0), 1, 0, lambda a, b: a > b, lambda a, b: a * b, lambda w: 0.5 ** w),
    "lex": (lambda: Less(), lambda: (lambda a, b: (a[0] + b[0], a[1] + b[1])), (0, 0), LEX, lambda a, b: a < b,
            lambda a, b: (a[0] + b[0], a[1] + b[1]), lambda w: (w, 1)),
    # orders that differ from the order of Python on the same values: pairs by their second component first, and
    # words by their length first
    "rlex": (lambda: (lambda a, b: a[::-1] < b[::-1]), lambda: (lambda a, b: (a[0] + b[0], a[1] + b[1])), (0, 0), LEX, lambda a, b: a[::-1] < b[::-1],
             lambda a, b: (a[0] + b[0], a[1] + b[1]), lambda w: (9 - 2 * w, w)),
    "words": (lambda: (lambda a, b: (len(a), a) < (len(b), b)), lambda: (lambda a, b: a + b), "", "~" * 99, lambda a, b: (len(a), a) < (len(b), b),
              lambda a, b: a + b, lambda w: "zyxwbcda"[w % 8] * (1 + w % 3)),
}


class World:
    """A real weighted graph: case = (kind, n, edges, weights, offset, wrap, semiring)."""
    def __init__(self, case):
        kind, n, edges, weights, off, wrap, ring = case[:7]
        compare, combine, self.zero, self.infty, self.better, self.plus, scale = SEMIRINGS[ring]
        self.compare, self.combine, self.default = compare(), combine(), ring == "plus"
        if wrap == "view":
            extra = [(0, n), (n, n - 1)]
            base, es = build_graph(kind, n + 1, list(edges) + extra + list(edges), off)
            vs = sorted(base.vertices())
            hid = {self.k(e) for e in es[len(edges) + 2:]} | {self.k(e)[1::-1] + (e.distinguisher,) for e in es[len(edges) + 2:]}
            g = GraphView(base, make_func_property_map(lambda u: u != vs[n]), make_func_property_map(lambda e: self.k(e) not in hid))
            best = scale(0)
            self.weight = {self.k(e): best for e in es}
            es, self.vs = es[:len(edges)], vs[:n]
        else:
            g, es = build_graph(kind, n, edges, off)
            self.vs = sorted(g.vertices())
            self.weight = {}
        self.g = g
        for e, w in zip(es, weights):
            self.weight[self.k(e)] = scale(w)
            if kind == "U":
                self.weight[(e.target, e.source, e.distinguisher)] = scale(w)
        seen = {self.k(e) for e in es}
        if kind == "U":
            seen |= {(t, s, d) for (s, t, d) in seen}
        self.out = {u: [x for x in sorted(seen) if x[0] == u] for u in self.vs}
        self.edges = sorted(seen)
        self.pmap_eweight = make_func_property_map(lambda e: self.weight[self.k(e)])

    @staticmethod
    def k(e):
        return (e.source, e.target, e.distinguisher)

    def args(self):
        if self.default:
            return {}
        return dict(compare=self.compare, combine=self.combine, zero=self.zero, infty=self.infty)

    def distances(self, s):
        """Bellman-Ford; unreachable vertices are absent."""
        dist = {s: self.zero}
        changed = True
        while changed:
            changed = False
            for (u, v, d) in self.edges:
                if u in dist:
                    w = self.plus(dist[u], self.weight[(u, v, d)])
                    if v not in dist or self.better(w, dist[v]):
                        dist[v] = w
                        changed = True
        return dist

    def tight(self, dist):
        return {x for x in self.edges if x[0] in dist and self.plus(dist[x[0]], self.weight[x]) == dist[x[1]]}


def space(tier, part):
    """Yields (kind, n, edges, weights, offset, wrap, semiring, sources)."""
    deep = tier != "quick"
    if part == "tiny":
        for kind in "DI":
            for es in edge_seqs(2, 3):
                for ws in product((0, 1, 2) if len(es) < 3 or deep else (0, 1), repeat=len(es)):
                    yield (kind, 2, es, ws, 0, "", "plus", (0,))
        for off in (1, 300):
            for es in edge_seqs(2, 2):
                for ws in product((0, 1, 2), repeat=len(es)):
                    yield ("D", 2, es, ws, off, "", "plus", (0, 1))
    elif part.startswith("sets3"):
        which = int(part[5:])
        for i, es in enumerate(edge_sets(3, 4 if not deep else 5, loops=False)):
            if i % 4 == which:
                for ws in product((0, 1, 2), repeat=len(es)):
                    yield ("D", 3, es, ws, 0, "", "plus", (0,))
    elif part == "rings3":
        for ring in SEMIRINGS:
            for es in edge_sets(3, 3 if not deep else 4, loops=False):
                for ws in product((0, 1, 2) if len(es) < 4 else (1, 2), repeat=len(es)):
                    yield ("D", 3, es, ws, 0, "", ring, (0,))
    elif part == "par3":
        # three parallel edges, and loops
        for ws in product((0, 1, 2), repeat=4):
            for es in (((0, 1), (0, 1), (0, 1), (1, 2)), ((0, 1), (1, 1), (1, 2), (0, 2)), ((0, 1), (1, 2), (1, 2), (1, 2)),
                       ((0, 0), (0, 1), (1, 0), (1, 2)), ((0, 2), (2, 1), (1, 2), (2, 0))):
                for ring in ("plus", "band"):
                    yield ("D", 3, es, ws, 0, "", ring, (0,))
                    yield ("I", 3, tuple(reversed(es)), ws, 0, "", ring, (0, 2))
    elif part == "undirected":
        for es in edge_sets(3, directed=False, loops=False):
            for ws in product((0, 1, 2), repeat=len(es)):
                yield ("U", 3, es, ws, 0, "", "plus", (0, 2))
        for es in edge_sets(4, 4 if not deep else 5, directed=False, loops=False):
            for ws in product((1, 2, 4), repeat=len(es)):
                yield ("U", 4, es, ws, 0, "", "plus", (0,))
        for ws in product((0, 1, 2), repeat=4):
            yield ("U", 3, ((0, 1), (0, 1), (1, 2), (2, 1)), ws, 1, "", "plus", (0, 2))
    elif part == "view":
        for es in edge_sets(3, 3, loops=False):
            for ws in product((0, 1, 2), repeat=len(es)):
                yield ("D", 3, es, ws, 0, "view", "plus", (0,))
    elif part.startswith("dag4"):
        which = int(part[4:])
        es = ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3))
        for i, perm in enumerate(permutations(range(4))):
            if perm[0] == 0 and i % 2 == which % 2:
                ee = tuple((perm[u], perm[v]) for u, v in es)
                for ws in product((1, 2, 4), repeat=6):
                    if which < 2:
                        yield ("D", 4, ee, ws, 0, "", "plus", (0,))
                    elif sum(ws) % 3 == 0 or deep:
                        yield ("I", 4, tuple(reversed(ee)), ws, 0, "", "band", (0,))
    elif part.startswith("cyc4"):
        which = int(part[4:])
        for i, es in enumerate(edge_sets(4, 5 if not deep else 6, loops=False)):
            if i % 2 == which and len(es) >= 4 and canonical(4, es, fixed=(0,)):
                for ws in product((0, 1, 3), repeat=len(es)) if len(es) < 5 or deep else product((1, 3), repeat=len(es)):
                    yield ("D", 4, es, ws, 0, "", "plus", (0,))
    elif part.startswith("dense"):
        # larger graphs, weights enumerated by a three-parameter family: exercises the heap
        which = int(part[5:])
        for n in (5, 6, 7, 9):
            es = tuple((i, j) for i in range(n) for j in range(n) if i != j)
            for a in range(1, 8 if not deep else 14):
                for b in range(0, 6 if not deep else 12):
                    for m in (2, 5, 11, 23):
                        if (a + b) % 3 == which:
                            ws = tuple((a * i * i + b * j + i * j) % m for (i, j) in es)
                            for ring in ("plus", "band", "minmax", "rlex", "words") if n < 9 else ("plus", "rlex"):
                                yield ("D", n, es, ws, 0, "", ring, (0,) if n > 5 else (0, n - 1))
    elif part == "families":
        for name, n, es in families((6, 8) if not deep else (6, 8, 11)):
            for a in range(1, 6):
                ws = tuple((a * i * i + i) % (a + 2) for i in range(len(es)))
                for kind in "DU":
                    yield (kind, n, tuple(es), ws, 0, "", "plus", (0, n - 1))
        for name, n, es in families((60,)):
            ws = tuple((7 * i * i + i) % 10 for i in range(len(es)))
            yield ("D", n, tuple(es), ws, 0, "", "plus", (0,))
    elif part == "long":
        # long paths, and vertices of large degree
        for n in (300, 1500):
            path = tuple((i, i + 1) for i in range(n - 1))
            star = tuple((0, i) for i in range(1, n)) + tuple((i, n - 1) for i in range(1, n - 1))
            yield ("D", n, path, tuple(i % 3 for i in range(n - 1)), 0, "", "plus", (0,))
            yield ("U", n, path, tuple(1 + i % 2 for i in range(n - 1)), 0, "", "plus", (0,))
            yield ("D", n, star, tuple((7 * i) % 11 + (i % n) % 5 for i in range(len(star))), 0, "", "rlex", (0,))
            yield ("D", n, star, (2,) * (n - 2) + (4,) + (2,) * (n - 2), 0, "", "plus", (0,))      # many optimal paths
            yield ("D", 3, ((0, 1),) * (n // 3) + ((1, 2),) * 9 + ((0, 2),) * (n // 3), (1,) * (n // 3) + (2,) * 9 + (3, 4) * (n // 6), 0, "", "plus", (0,))
            yield ("D", n, tuple(reversed(star)), tuple((5 * i) % 13 for i in range(len(star))), 0, "", "plus", (0,))


PARTS = ["tiny", "sets30", "sets31", "sets32", "sets33", "rings3", "par3", "undirected", "view", "dag40", "dag41", "dag42", "dag43",
         "cyc40", "cyc41", "dense0", "dense1", "dense2", "families", "long"]
