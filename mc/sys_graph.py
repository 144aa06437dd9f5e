"""Explicit-state systems for the Graph family (C01-C03): the real container against a list of edges."""
import pybgl.graph as G
from pybgl.graph import DirectedGraph, EdgeDescriptor, Graph, UndirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl.reverse import reverse_graph
from .core import Violation, require


class Model:
    """Vertices, and edges as a list of (source, target, distinguisher)."""
    def __init__(self):
        self.vertices = []
        self.edges = []
        self.added = 0
        self.reversed = False
        self.old = 0      # number of clear()


def triples(es):
    return sorted((e.source, e.target, e.distinguisher) for e in es)


class GraphSystem:
    # classes: name -> (factory(num_vertices), directed?, incidence?)
    FACTORY = {
        "Graph": (lambda n: Graph(True, n), True, False),
        "DirectedGraph": (lambda n: DirectedGraph(n), True, False),
        "IncidenceGraph": (lambda n: IncidenceGraph(n), True, True),
        "UndirectedGraph": (lambda n: UndirectedGraph(n), False, True),
        "GraphU": (lambda n: UndirectedGraph(num_vertices=n), False, True),
    }

    def __init__(self, cls, num, offset, max_vertices, max_edges):
        self.cls, self.num, self.offset = cls, num, offset
        self.max_vertices, self.max_edges = max_vertices, max_edges
        self.factory, self.directed, self.incidence = self.FACTORY[cls]

    def make(self):
        m = Model()
        if self.offset:
            g = self.factory(0)
            for _ in range(self.offset):
                g.remove_vertex(g.add_vertex())
            for _ in range(self.num):
                m.vertices.append(g.add_vertex())
        else:
            g = self.factory(self.num)
            m.vertices = sorted(g.vertices())
            require(len(m.vertices) == self.num, "built with num_vertices=%s but has vertices %s", self.num, m.vertices)
        m.added = self.num
        return g, m

    def ops(self, m):
        if m.reversed:
            return [("reverse",)]
        out = []
        if m.added < self.max_vertices:
            out.append(("add_vertex",))
        if len(m.edges) < self.max_edges:
            out += [("add_edge", u, v) for u in m.vertices for v in m.vertices]
        for (u, v, n) in m.edges:
            out.append(("remove_edge", u, v, n))
            if not self.directed and u != v:
                out.append(("remove_edge", v, u, n))
        out += [("remove_vertex", u) for u in m.vertices]
        if m.old < 1 and m.vertices:
            out.append(("clear",))
        if self.cls == "IncidenceGraph":
            out.append(("reverse",))
        return out

    def apply(self, g, m, op):
        kind = op[0]
        free = self.free or len(m.edges) % 2 == 1      # alternate methods and free functions
        if kind == "add_vertex":
            u = G.add_vertex(g) if free else g.add_vertex()
            require(u not in m.vertices, "add_vertex returned %r, which is already a vertex", u)
            m.vertices.append(u)
            m.added += 1
        elif kind == "add_edge":
            _, u, v = op
            e, added = G.add_edge(u, v, g) if free else g.add_edge(u, v)
            require(added and e is not None, "add_edge(%s, %s) returned (%s, %s)", u, v, e, added)
            ends = (e.source, e.target)
            want = (u, v) if self.directed else (min(u, v), max(u, v))
            require(ends == (u, v) or ends == want, "add_edge(%s, %s) returned the edge %s", u, v, ends)
            t = want + (e.distinguisher,)
            require(t not in m.edges, "add_edge(%s, %s) returned the descriptor of an existing parallel edge", u, v)
            m.edges.append(t)
        elif kind == "remove_edge":
            _, u, v, n = op
            e = EdgeDescriptor(u, v, n)
            G.remove_edge(e, g) if free else g.remove_edge(e)
            m.edges.remove((u, v, n) if (u, v, n) in m.edges else (v, u, n))
        elif kind == "remove_vertex":
            u = op[1]
            G.remove_vertex(u, g) if free else g.remove_vertex(u)
            m.vertices.remove(u)
            m.edges = [e for e in m.edges if u not in e[:2]]
        elif kind == "clear":
            g.clear()
            m.vertices, m.edges, m.old = [], [], m.old + 1
        elif kind == "reverse":
            reverse_graph(g)
            m.reversed = not m.reversed

    def observe(self, g, m):
        vs = sorted(m.vertices)
        require(sorted(g.vertices()) == vs, "vertices() = %s, expected %s", list(g.vertices()), vs)
        require(sorted(G.vertices(g)) == vs, "vertices(g) disagrees with g.vertices()")
        require(g.num_vertices() == len(vs) == G.num_vertices(g), "num_vertices() = %s, expected %s", g.num_vertices(), len(vs))
        require(bool(g.has_vertex()) == bool(vs) == bool(G.has_vertex(g)), "has_vertex() = %s with vertices %s", g.has_vertex(), vs)
        es = sorted(m.edges)
        got = triples(g.edges())
        require(got == es, "edges() = %s, expected %s", got, es)
        require(triples(G.edges(g)) == es, "edges(g) disagrees with g.edges()")
        require(g.num_edges() == len(es) == G.num_edges(g), "num_edges() = %s, expected %s", g.num_edges(), len(es))
        require(bool(g.has_edge()) == bool(es) == bool(G.has_edge(g)), "has_edge() = %s with edges %s", g.has_edge(), es)
        require(bool(G.is_directed(g)) == self.directed == g.directed, "is_directed(g) = %s", G.is_directed(g))
        descr = set(g.edges())
        require(len(descr) == len(es), "edge descriptors are not distinct: %s", got)
        for e in g.edges():
            twin = EdgeDescriptor(e.source, e.target, e.distinguisher)
            require(e == twin and hash(e) == hash(twin) and twin in descr and not (e < twin),
                    "descriptor %s does not compare equal to its twin", e)
        for (a, b) in [(a, b) for a in g.edges() for b in g.edges()]:
            ta, tb = (a.source, a.target, a.distinguisher), (b.source, b.target, b.distinguisher)
            require((a == b) == (ta == tb) and (a < b) == (ta < tb), "descriptors %s and %s compare wrongly", ta, tb)
        for u in vs:
            outs = sorted((u, (b if a == u else a) if not self.directed else b, n) for (a, b, n) in m.edges
                          if a == u or (not self.directed and b == u))
            ins = sorted((a, b, n) for (a, b, n) in m.edges if b == u) if self.directed else outs
            if m.reversed:
                outs, ins = ins, outs
            go = triples(g.out_edges(u))
            require(go == outs, "out_edges(%s) = %s, expected %s", u, go, outs)
            require(triples(G.out_edges(u, g)) == outs, "out_edges(%s, g) is wrong", u)
            require(g.out_degree(u) == len(outs) == G.out_degree(u, g), "out_degree(%s) = %s, expected %s", u, g.out_degree(u), len(outs))
            src, tgt = (0, 1) if not m.reversed else (1, 0)
            for e in g.out_edges(u):
                t = (e.source, e.target)
                require((g.source(e), g.target(e)) == (t[src], t[tgt]) == (G.source(e, g), G.target(e, g)) and g.source(e) == u,
                        "source/target of out edge %s of %s: (%s, %s)", e, u, g.source(e), g.target(e))
            if self.incidence:
                gi = triples(g.in_edges(u))
                require(gi == ins, "in_edges(%s) = %s, expected %s", u, gi, ins)
                require(triples(G.in_edges(u, g)) == ins, "in_edges(%s, g) is wrong", u)
                require(g.in_degree(u) == len(ins) == G.in_degree(u, g), "in_degree(%s) = %s, expected %s", u, g.in_degree(u), len(ins))
                if self.directed:
                    for e in g.in_edges(u):
                        require(g.target(e) == u, "target of in edge %s of %s is %s", e, u, g.target(e))
        for u in vs:
            for v in vs:
                if m.reversed:
                    cand = [t for t in m.edges if (t[1], t[0]) == (u, v)]
                elif self.directed:
                    cand = [t for t in m.edges if t[:2] == (u, v)]
                else:
                    cand = [t for t in m.edges if t[:2] == (min(u, v), max(u, v))]
                for e, found in (g.edge(u, v), G.edge(u, v, g)):
                    if len(cand) == 1:
                        require(found and e is not None and
                                ((e.source, e.target, e.distinguisher) == cand[0] or
                                 not self.directed and (e.target, e.source, e.distinguisher) == cand[0]),
                                "edge(%s, %s) = (%s, %s), expected %s", u, v, e, found, cand[0])
                    else:
                        require((e, found) == (None, False), "edge(%s, %s) = (%s, %s) with %d edges between them", u, v, e, found, len(cand))

    def outcome(self, m):
        return "V%dE%d" % (len(m.vertices), len(m.edges))
