"""Explicit-state system for Nfa (C06) against a set of transitions."""
from collections import defaultdict
from itertools import product
import pybgl.nfa as N
from pybgl.nfa import EPSILON, EdgeDescriptor, Nfa
from pybgl.property_map import make_assoc_property_map
from .core import require


class Model:
    def __init__(self):
        self.vertices = []
        self.trans = set()
        self.initials = set()
        self.finals = set()
        self.added = 0
        self.cleared = 0
        self.flagged = set()   # states whose final flag was set
        self.dirty = False     # the initial states contain a removed vertex

    def closure(self, qs, eps):
        qs = set(qs)
        while True:
            more = {r for (q, a, r) in self.trans if a == eps and q in qs} - qs
            if not more:
                return qs
            qs |= more

    def one(self, qs, a):
        return {r for (q, b, r) in self.trans if b == a and q in qs}


class NfaSystem:
    def __init__(self, num, offset, initials, symbols, eps, max_vertices, max_edges, own_map, kinds):
        self.num, self.offset, self.init = num, offset, initials
        self.eps = EPSILON if eps is None else eps
        self.custom_eps = eps is not None
        self.symbols = tuple(symbols)
        self.labels = self.symbols + (self.eps,)
        self.max_vertices, self.max_edges, self.own_map, self.kinds = max_vertices, max_edges, own_map, kinds

    def make(self):
        kw = {}
        if self.init is not None:
            kw["initials"] = set(self.init)
        if self.custom_eps:
            kw["epsilon"] = self.eps
        self.user_map = None
        if self.own_map:
            self.user_map = kw["pmap_vfinal"] = make_assoc_property_map(defaultdict(bool))
        m = Model()
        m.initials = {0} if self.init is None else set(self.init)
        if self.offset:
            g = Nfa(0, **kw)
            for _ in range(self.offset):
                g.remove_vertex(g.add_vertex())
            for _ in range(self.num):
                m.vertices.append(g.add_vertex())
        else:
            g = Nfa(self.num, **kw)
            m.vertices = sorted(g.vertices())
            require(len(m.vertices) == self.num, "Nfa(%s) has vertices %s", self.num, m.vertices)
        m.added = self.num
        return g, m

    def ops(self, m):
        out = []
        K = self.kinds
        if "v" in K and m.added < self.max_vertices:
            out.append(("add_vertex",))
        if "e" in K and len(m.trans) < self.max_edges:
            out += [("add_edge", q, r, a) for q in m.vertices for r in m.vertices for a in self.labels]
        if "d" in K:
            out += [("remove_edge", q, r, a) for (q, a, r) in sorted(m.trans, key=repr)]
        if "x" in K:
            out += [("remove_vertex", q) for q in m.vertices]
        if "i" in K:
            out += [("set_initial", q, b) for q in m.vertices for b in (True, False)]
            out += [("set_initials", tuple(s)) for s in ([], m.vertices[:1], m.vertices)]
        if "f" in K:
            out += [("set_final", q, b) for q in m.vertices for b in (True, False)]
        if "c" in K and m.vertices and m.cleared < 1:
            out.append(("clear",))
        return out

    def apply(self, g, m, op):
        kind = op[0]
        free = self.free or len(m.trans) % 2 == 1      # alternate methods and free functions
        if kind == "add_vertex":
            q = N.add_vertex(g) if free else g.add_vertex()
            require(q not in m.vertices, "add_vertex returned %r, which is already a vertex", q)
            m.vertices.append(q)
            m.added += 1
        elif kind == "add_edge":
            q, r, a = op[1:]
            e, added = N.add_edge(q, r, a, g) if free else g.add_edge(q, r, a)
            require(added and e is not None and (e.source, e.target) == (q, r) and g.label(e) == a,
                    "add_edge%s returned (%s, %s)", op[1:], e, added)
            require(e in set(g.out_edges(q)) and e in set(g.edges()), "the descriptor returned by add_edge%s is not among the edges", op[1:])
            require(bool(g.is_epsilon_transition(e)) == (a == self.eps) == bool(N.is_epsilon_transition(e, g)), "is_epsilon_transition of a %r transition", a)
            m.trans.add((q, a, r))
        elif kind == "remove_edge":
            q, r, a = op[1:]
            es = [e for e in g.out_edges(q) if g.target(e) == r and g.label(e) == a]
            require(len(es) == 1, "transition %s listed %d times", op[1:], len(es))
            N.remove_edge(es[0], g) if free else g.remove_edge(es[0])
            m.trans.discard((q, a, r))
        elif kind == "remove_vertex":
            q = op[1]
            N.remove_vertex(q, g) if free else g.remove_vertex(q)
            m.vertices.remove(q)
            m.trans = {t for t in m.trans if q not in (t[0], t[2])}
            m.finals.discard(q)
            if q in m.initials:
                g.set_initial(q, False)
                m.initials.discard(q)
        elif kind == "set_initial":
            if op[2] and op[1] % 2:         # default argument
                N.set_initial(op[1], g) if free else g.set_initial(op[1])
            else:
                N.set_initial(op[1], g, op[2]) if free else g.set_initial(op[1], op[2])
            (m.initials.add if op[2] else m.initials.discard)(op[1])
        elif kind == "set_initials":
            if len(m.trans) % 2:
                N.set_initials(list(op[1]), g)
            else:
                g.set_initials(set(op[1]))
            m.initials = set(op[1])
        elif kind == "set_final":
            if op[2] and op[1] % 2:
                N.set_final(op[1], g) if free else g.set_final(op[1])
            else:
                N.set_final(op[1], g, op[2]) if free else g.set_final(op[1], op[2])
            (m.finals.add if op[2] else m.finals.discard)(op[1])
            m.flagged.add(op[1])
        elif kind == "clear":
            g.clear()
            m.vertices, m.trans, m.finals, m.added = [], set(), set(), 0
            m.cleared += 1
            if self.user_map is not None:       # the states of the caller's map are the caller's
                for q in list(m.flagged):
                    self.user_map[q] = False
            g.set_initials(set())
            m.initials = set()

    def observe(self, g, m):
        vs = sorted(m.vertices)
        if self.user_map is not None:
            require({q for q in vs if self.user_map[q]} == m.finals, "the map of the caller says %s, expected %s", {q for q in vs if self.user_map[q]}, m.finals)
        require(sorted(N.vertices(g)) == vs and N.num_vertices(g) == len(vs) and bool(g.has_vertex()) == bool(vs) == bool(N.has_vertex(g)), "vertices(g), num_vertices(g) or has_vertex(g) with %s", vs)
        key = lambda t: repr(t)
        require(sorted(g.vertices()) == vs and g.num_vertices() == len(vs), "vertices() = %s, expected %s", list(g.vertices()), vs)
        es = sorted(m.trans, key=key)
        require(sorted(((g.source(e), g.label(e), g.target(e)) for e in g.edges()), key=key) == es, "edges() = %s, expected %s",
                [(g.source(e), g.label(e), g.target(e)) for e in g.edges()], es)
        require(sorted(((N.source(e, g), N.label(e, g), N.target(e, g)) for e in N.edges(g)), key=key) == es, "edges(g) = %s, expected %s",
                [(N.source(e, g), N.label(e, g), N.target(e, g)) for e in N.edges(g)], es)
        require(bool(g.has_edge()) == bool(es) == bool(N.has_edge(g)) and g.num_edges() == N.num_edges(g) == len(es) and len(set(g.edges())) == len(es), "num_edges() = %s, expected %s", g.num_edges(), len(es))
        require(set(g.alphabet()) == set(N.alphabet(g)) == {a for (q, a, r) in m.trans if a != self.eps}, "alphabet() = %s with %s", g.alphabet(), es)
        require(g.epsilon == self.eps == N.epsilon(g), "epsilon = %r", g.epsilon)
        require(set(g.finals()) == m.finals == set(N.finals(g)) and {q for q in vs if g.is_final(q)} == m.finals == {q for q in vs if N.is_final(q, g)}, "finals() = %s, expected %s", set(g.finals()), m.finals)
        require(set(N.initials(g)) == m.initials and {q for q in vs if g.is_initial(q)} == m.initials & set(vs) == {q for q in vs if N.is_initial(q, g)},
                "initials %s, expected %s", set(N.initials(g)), m.initials)
        for q in vs:
            outs = sorted((t for t in m.trans if t[0] == q), key=key)
            require(sorted(((g.source(e), g.label(e), g.target(e)) for e in g.out_edges(q)), key=key) == outs, "out_edges(%s) wrong, expected %s", q, outs)
            require(sorted(((N.source(e, g), N.label(e, g), N.target(e, g)) for e in N.out_edges(q, g)), key=key) == outs and N.out_degree(q, g) == len(outs), "out_edges(%s, g) or out_degree(%s, g) wrong, expected %s", q, q, outs)
            require(g.out_degree(q) == len(outs), "out_degree(%s) = %s", q, g.out_degree(q))
            c = m.closure({q}, self.eps)
            require(g.delta_epsilon({q}) == c, "delta_epsilon({%s}) = %s, expected %s", q, g.delta_epsilon({q}), c)
            s = {a for (p, a, r) in m.trans if p in c and a != self.eps}
            require(set(g.sigma(q)) == s == set(N.sigma(q, g)), "sigma(%s) = %s, expected %s", q, g.sigma(q), s)
            for a in self.symbols:
                d = m.closure(m.one(c, a), self.eps)
                require(set(g.delta(q, a)) == d == set(N.delta(q, a, g)), "delta(%s, %r) = %s, expected %s", q, a, g.delta(q, a), d)
            for r in vs:
                cand = [t for t in outs if t[2] == r]
                e, found = g.edge(q, r)
                require(bool(found) == (len(cand) == 1) and (not found or g.label(e) == cand[0][1]), "edge(%s, %s) = (%s, %s)", q, r, e, found)
        require(set(g.delta_epsilon(set(vs))) == m.closure(vs, self.eps) and set(g.delta_epsilon(set())) == set(), "delta_epsilon of a set of states")
        require(set(g.delta_one_step(set(vs), self.labels[0])) == m.one(vs, self.labels[0]), "delta_one_step")
        if m.initials <= set(vs):
            for k in range(4):
                for w in product(self.symbols, repeat=k):
                    qs = m.closure(m.initials, self.eps)
                    for a in w:
                        qs = m.closure(m.one(qs, a), self.eps)
                    want = bool(qs & m.finals)
                    require(set(g.delta_word(w)) == qs == set(N.delta_word(w, g)), "delta_word(%s) = %s, expected %s", w, g.delta_word(w), qs)
                    require(bool(g.accepts(w)) == want == bool(N.accepts(w, g)), "accepts(%s) = %s, expected %s", w, g.accepts(w), want)

    def outcome(self, m):
        return "V%dE%dF%dI%d" % (len(m.vertices), len(m.trans), len(m.finals), len(m.initials))
