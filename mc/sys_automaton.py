"""Explicit-state systems for the Automaton family (C04, C05) against a dictionary model."""
import contextlib
import io
from collections import defaultdict
from itertools import product
import pybgl.automaton as A
import pybgl.node_automaton as NA
from pybgl.automaton import Automaton, EdgeDescriptor
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.node_automaton import NodeAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from .core import require

UNKNOWN = "unknown"


class Model:
    def __init__(self):
        self.vertices = []
        self.delta = {}        # (q, a) -> r
        self.symbol = {}       # node automata: q -> symbol
        self.initial = None
        self.finals = set()
        self.added = 0
        self.cleared = 0

    def sigma(self, q):
        return {a for (p, a) in self.delta if p == q}

    def edges(self):
        return sorted(((q, r, a) for (q, a), r in self.delta.items()), key=repr)

    def run(self, q, w):
        for a in w:
            if q is None:
                return None
            q = self.delta.get((q, a))
        return q


def words(symbols, n):
    """Words as strings if every symbol is one character, as lists otherwise (any symbol may be used)."""
    for k in range(n + 1):
        for w in product(symbols, repeat=k):
            yield list(w)


def trip(es):
    return sorted(((e.source, e.target, e.distinguisher) for e in es), key=repr)


class AutomatonSystem:
    CLASSES = {"Automaton": Automaton, "IncidenceAutomaton": IncidenceAutomaton,
               "NodeAutomaton": NodeAutomaton, "IncidenceNodeAutomaton": IncidenceNodeAutomaton}

    def __init__(self, cls, num, offset, q0, symbols, max_vertices, max_edges, own_map, kinds):
        self.name, self.cls = cls, self.CLASSES[cls]
        self.num, self.offset, self.q0, self.symbols = num, offset, q0, symbols
        self.max_vertices, self.max_edges, self.own_map, self.kinds = max_vertices, max_edges, own_map, kinds
        self.node = "Node" in cls
        self.incidence = cls.startswith("Incidence")

    def make(self):
        kw = {}
        m = Model()
        self.user_map = None
        if self.own_map == "func":      # read only; true for what is not a state
            kw["pmap_vfinal"] = make_func_property_map(lambda q: q is None or q % 2 == 1)
        elif self.own_map:
            self.user_map = kw["pmap_vfinal"] = make_assoc_property_map(defaultdict(bool))
        if self.q0 is not None:
            kw["q0"] = self.q0
        num = self.num
        if self.node and self.own_map:
            d = defaultdict(lambda: None)
            kw["pmap_vsymbol"] = make_assoc_property_map(d)
        if self.offset:
            g = self.cls(0, **kw)
            for _ in range(self.offset):
                g.remove_vertex(g.add_vertex())
            for _ in range(num):
                m.vertices.append(g.add_vertex())
        else:
            g = self.cls(num, **kw)
            m.vertices = sorted(g.vertices())
            require(len(m.vertices) == num, "built with num_vertices=%s but has vertices %s", num, m.vertices)
        m.initial = 0 if self.q0 is None else self.q0
        m.symbol = {q: None for q in m.vertices}
        m.added = num
        return g, m

    def ops(self, m):
        out = []
        K = self.kinds
        if m.added < self.max_vertices and "v" in K:
            out += [("add_vertex", a) for a in self.symbols + ((None,) if "n" in K else ())] if self.node else [("add_vertex",)]
        if "e" in K and (len(m.delta) < self.max_edges):
            if self.node:
                out += [("add_edge", q, r) for q in m.vertices for r in m.vertices]
            else:
                out += [("add_edge", q, r, a) for q in m.vertices for r in m.vertices for a in self.symbols]
        if "d" in K:
            out += [("remove_edge", q, r, a) for (q, r, a) in m.edges()]
        if "x" in K:
            out += [("remove_vertex", q) for q in m.vertices]
        if "i" in K:
            out += [("set_initial", q, b) for q in m.vertices for b in (True, False)]
            if m.initial == UNKNOWN or m.initial is not None and m.initial not in m.vertices:
                out.append(("unset",))
        if "f" in K:
            out += [("set_final", q, b) for q in m.vertices for b in (True, False)]
        if "w" in K and not self.node and (m.initial is None or not m.vertices or m.initial in m.vertices) and m.added < self.max_vertices:
            out += [("insert", w) for w in words(self.symbols, 2)]
        if "c" in K and m.vertices and m.cleared < 1:
            out.append(("clear",))
        return out

    def apply(self, g, m, op):
        kind = op[0]
        free = self.free or len(m.delta) % 2 == 1
        if kind == "add_vertex":
            if self.node:
                q = NA.add_vertex(op[1], g) if free else g.add_vertex(op[1])
            else:
                q = g.add_vertex()
            require(q not in m.vertices, "add_vertex returned %r, which is already a vertex", q)
            m.vertices.append(q)
            m.added += 1
            m.symbol[q] = op[1] if self.node else None
        elif kind == "add_edge":
            q, r = op[1], op[2]
            if self.node:
                a = m.symbol[r]
                e, added = NA.add_edge(q, r, g) if free else g.add_edge(q, r)
            else:
                a = op[3]
                e, added = A.add_edge(q, r, a, g) if free else g.add_edge(q, r, a)
            if (q, a) in m.delta:
                require(not added and e is None, "add_edge%s returned (%s, %s) although %s already has a transition by %r", op[1:], e, added, q, a)
            else:
                require(added and e is not None and (e.source, e.target, e.distinguisher) == (q, r, a),
                        "add_edge%s returned (%s, %s)", op[1:], e, added)
                m.delta[(q, a)] = r
        elif kind == "remove_edge":
            q, r, a = op[1:]
            g.remove_edge(EdgeDescriptor(q, r, a))
            del m.delta[(q, a)]
        elif kind == "remove_vertex":
            q = op[1]
            g.remove_vertex(q)
            m.vertices.remove(q)
            m.delta = {k: r for k, r in m.delta.items() if k[0] != q and r != q}
            m.finals.discard(q)
            if m.initial == q:
                m.initial = UNKNOWN
        elif kind == "set_initial":
            q, b = op[1:]
            if b and q % 2:         # default argument
                A.set_initial(q, g) if free else g.set_initial(q)
            else:
                A.set_initial(q, g, b) if free else g.set_initial(q, b)
            if b:
                m.initial = q
            elif m.initial == q:
                m.initial = None
        elif kind == "unset":       # there is no initial state any more
            q = A.initial(g) if free else g.initial()
            A.set_initial(q, g, False) if free else g.set_initial(q, False)
            m.initial = None
        elif kind == "set_final":
            q, b = op[1:]
            if b and q % 2:
                A.set_final(q, g) if free else g.set_final(q)
            else:
                A.set_final(q, g, b) if free else g.set_final(q, b)
            (m.finals.add if b else m.finals.discard)(q)
        elif kind == "insert":
            w = op[1] if (m.added + len(op[1])) % 2 else "".join(op[1])      # lists of symbols and strings
            before = set(m.vertices)
            reached = A.automaton_insert_string(g, w) if free else g.automaton_insert_string(w)
            fresh = [u for u in g.vertices() if u not in before]
            if m.initial not in m.vertices:     # there is no initial state: a new one starts the word
                q = g.initial()
                require(q in fresh, "inserting %s in an automaton without initial state: the initial state is %r", w, q)
                m.initial = q
                m.vertices.append(q)
                m.symbol[q] = None
                m.added += 1
                before.add(q)
            q, i = m.initial, 0
            while i < len(w) and (q, w[i]) in m.delta:
                q = m.delta[(q, w[i])]
                i += 1
            fresh = [u for u in g.vertices() if u not in before]
            require(len(fresh) == len(w) - i, "inserting %s created %d vertices, expected %d", w, len(fresh), len(w) - i)
            for a in w[i:]:
                r = g.delta(q, a)
                require(r in fresh and r not in m.vertices, "inserting %s leads to vertex %s, which is not a fresh one", w, r)
                m.vertices.append(r)
                m.symbol[r] = None
                m.delta[(q, a)] = r
                q = r
                m.added += 1
            m.finals.add(q)
            require(reached == q, "inserting %s returned %s instead of the state %s that it reaches", w, reached, q)
        elif kind == "clear":
            g.clear()
            m.vertices, m.delta, m.finals, m.symbol = [], {}, set(), {}
            m.initial = UNKNOWN
            m.cleared += 1

    def observe(self, g, m):
        vs = sorted(m.vertices)
        if self.own_map == "func":
            m.finals = {q for q in vs if q % 2}
        elif self.user_map is not None:
            require({q for q in vs if self.user_map[q]} == m.finals, "the map of the caller says %s, expected %s", {q for q in vs if self.user_map[q]}, m.finals)
        require(sorted(g.vertices()) == vs, "vertices() = %s, expected %s", list(g.vertices()), vs)
        require(g.num_vertices() == len(vs), "num_vertices() = %s, expected %s", g.num_vertices(), len(vs))
        require(bool(g.has_vertex()) == bool(vs), "has_vertex() = %s", g.has_vertex())
        es = m.edges()
        require(trip(g.edges()) == es, "edges() = %s, expected %s", trip(g.edges()), es)
        require(g.num_edges() == len(es), "num_edges() = %s, expected %s", g.num_edges(), len(es))
        require(sorted(A.vertices(g)) == vs and A.num_vertices(g) == len(vs) and bool(A.has_vertex(g)) == bool(vs), "vertices(g), num_vertices(g) or has_vertex(g) with %s", vs)
        require(trip(A.edges(g)) == es and A.num_edges(g) == len(es) and bool(A.has_edge(g)) == bool(es), "edges(g), num_edges(g) or has_edge(g) with %s", es)
        require(bool(g.has_edge()) == bool(es), "has_edge() = %s", g.has_edge())
        require({q for q in vs if g.is_final(q)} == m.finals and {q for q in vs if A.is_final(q, g)} == m.finals,
                "final states %s, expected %s", {q for q in vs if g.is_final(q)}, m.finals)
        require(set(g.finals()) == m.finals == set(A.finals(g)), "finals() = %s, expected %s", g.finals(), m.finals)
        symbols = list(self.symbols)
        for q in vs:
            s = m.sigma(q)
            require(set(g.sigma(q)) == s == set(A.sigma(q, g)), "sigma(%s) = %s, expected %s", q, g.sigma(q), s)
            outs = sorted(((p, r, a) for (p, a), r in m.delta.items() if p == q), key=repr)
            require(trip(g.out_edges(q)) == outs, "out_edges(%s) = %s, expected %s", q, trip(g.out_edges(q)), outs)
            require(trip(A.out_edges(q, g)) == outs and A.out_degree(q, g) == len(outs), "out_edges(%s, g) or out_degree(%s, g), expected %s", q, q, outs)
            require(g.out_degree(q) == len(outs), "out_degree(%s) = %s", q, g.out_degree(q))
            for e in g.out_edges(q):
                require(A.source(e, g) == q and A.target(e, g) == g.target(e), "source(e, g), target(e, g) of %s", e)
                require(g.source(e) == q and g.delta(q, g.label(e)) == g.target(e) and A.label(e, g) == g.label(e) == e.distinguisher,
                        "out edge %s of %s has source %s, target %s, label %r", e, q, g.source(e), g.target(e), g.label(e))
            if self.incidence:
                ins = sorted(((p, r, a) for (p, a), r in m.delta.items() if r == q), key=repr)
                require(trip(g.in_edges(q)) == ins, "in_edges(%s) = %s, expected %s", q, trip(g.in_edges(q)), ins)
                require(trip(A.in_edges(q, g)) == ins and A.in_degree(q, g) == len(ins), "in_edges(%s, g) or in_degree(%s, g), expected %s", q, q, ins)
                require(g.in_degree(q) == len(ins), "in_degree(%s) = %s", q, g.in_degree(q))
            for a in symbols:
                r = m.delta.get((q, a))
                require(g.delta(q, a) == r and A.delta(q, a, g) == r, "delta(%s, %r) = %s, expected %s", q, a, g.delta(q, a), r)
            if self.node:
                require(g.symbol(q) == m.symbol[q] == NA.symbol(q, g), "symbol(%s) = %r, expected %r", q, g.symbol(q), m.symbol[q])
        for a in symbols:
            require(g.delta(None, a) is None and A.delta(None, a, g) is None, "delta(BOTTOM, %r) = %s", a, g.delta(None, a))
        require(set(g.sigma(None)) == set() == set(A.sigma(None, g)), "sigma(BOTTOM) = %s", g.sigma(None))
        require(g.delta_word(None, symbols) is None and A.delta_word(None, symbols, g) is None, "delta_word(BOTTOM, ...) = %s", g.delta_word(None, symbols))
        for q, r in product(vs, vs):
            if self.node:
                cand = [a for (p, a), t in m.delta.items() if (p, t) == (q, r)]
                require(len(cand) <= 1, "model")
                for e, found in (g.edge(q, r), NA.edge(q, r, g)):
                    if cand:
                        require(found and (e.source, e.target, e.distinguisher) == (q, r, cand[0]), "edge(%s, %s) = (%s, %s)", q, r, e, found)
                    else:
                        require(not found and e is None, "edge(%s, %s) = (%s, %s), there is none", q, r, e, found)
            else:
                for a in symbols:
                    for e, found in (g.edge(q, r, a), A.edge(q, r, a, g)):
                        if m.delta.get((q, a)) == r:
                            require(found and (e.source, e.target, e.distinguisher) == (q, r, a), "edge(%s, %s, %r) = (%s, %s)", q, r, a, e, found)
                        else:
                            require(not found and e is None, "edge(%s, %s, %r) = (%s, %s), there is none", q, r, a, e, found)
        alpha = {a for (q, a) in m.delta}
        got = set(g.alphabet())
        if self.node:
            require(alpha <= got <= set(m.symbol[q] for q in vs), "alphabet() = %s but transitions carry %s", got, alpha)
        else:
            require(got == alpha == set(A.alphabet(g)), "alphabet() = %s, expected %s", got, alpha)
            want = all(m.sigma(q) == alpha for q in vs)
            require(g.is_finite() is True and A.is_finite(g) is True and g.is_deterministic() is True and A.is_deterministic(g) is True, "is_finite() or is_deterministic() is not True")
            require(bool(g.is_complete()) == want == bool(A.is_complete(g)), "is_complete() = %s, expected %s", g.is_complete(), want)
        if m.initial != UNKNOWN:
            require(g.initial() == m.initial == A.initial(g), "initial() = %s, expected %s", g.initial(), m.initial)
            for q in vs:
                require(bool(g.is_initial(q)) == (q == m.initial) == bool(A.is_initial(q, g)), "is_initial(%s) = %s, initial is %s", q, g.is_initial(q), m.initial)
            q0 = m.initial
            if q0 is None or q0 in vs:
                for w in words(symbols, 3):
                    q = m.run(q0, w)
                    want = q is not None and q in m.finals
                    require(bool(g.accepts(w)) == want == bool(A.accepts(w, g)), "accepts(%s) = %s, expected %s", w, g.accepts(w), want)
                    if len(w) < 3:
                        with contextlib.redirect_stdout(io.StringIO()):
                            got = A.accepts_debug(w, g)
                        require(bool(got) == want, "accepts_debug(%s) = %s, expected %s", w, got, want)
                    require(g.delta_word(q0, w) == q == A.delta_word(q0, w, g), "delta_word(%s, %s) = %s, expected %s", q0, w, g.delta_word(q0, w), q)
                    if q0 is not None:
                        i, p = 0, q0
                        while i < len(w) and (p, w[i]) in m.delta:
                            p = m.delta[(p, w[i])]
                            i += 1
                        require(tuple(g.delta_best_effort(w)) == (p, i) == tuple(A.delta_best_effort(g, w)), "delta_best_effort(%s) = %s, expected %s", w, g.delta_best_effort(w), (p, i))

    def outcome(self, m):
        return "V%dE%dF%d%s" % (len(m.vertices), len(m.delta), len(m.finals), "i" if m.initial in m.vertices else "-")
