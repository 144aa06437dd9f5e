"""Specifications of NFAs: exhaustive spaces, construction of the real objects, reference subset machine."""
from itertools import product
from pybgl.nfa import Nfa
from .lang import Machine

# spec = (n, initials mask, ((q, r, symbol), ...), finals mask); the symbol "" stands for epsilon


def build(spec, eps="ε", numbering=0):
    n, inits, trans, finals = spec
    g = Nfa(0, epsilon=eps) if eps != "ε" else Nfa()
    for _ in range(300 if numbering & 2 else 0):
        g.remove_vertex(g.add_vertex())
    vs = [g.add_vertex() for _ in range(n)]
    if numbering & 1:
        vs.reverse()
    for (q, r, a) in trans:
        g.add_edge(vs[q], vs[r], a or eps)
    g.set_initials({vs[q] for q in range(n) if inits >> q & 1})
    for q in range(n):
        if finals >> q & 1:
            g.set_final(vs[q])
    return g, vs


def snapshot(g):
    return (sorted(g.vertices()), sorted(((e.source, e.target, g.label(e)) for e in g.edges()), key=repr), sorted(g.initials), sorted(g.finals()))


class Subsets:
    """Reference subset construction, with bit masks; None when the subset is empty (unless keep_empty)."""
    def __init__(self, spec, keep_empty=False):
        n, inits, trans, finals = spec
        self.n, self.finals, self.keep = n, finals, keep_empty
        self.eps = [0] * n
        self.moves = {}
        for (q, r, a) in trans:
            if a == "":
                self.eps[q] |= 1 << r
            else:
                self.moves.setdefault(a, [0] * n)[q] |= 1 << r
        self.init = self.norm(self.closure(inits))

    def norm(self, m):
        return m if m or self.keep else None

    def closure(self, m):
        todo = m
        while todo:
            q = todo.bit_length() - 1
            todo &= ~(1 << q)
            new = self.eps[q] & ~m
            m |= new
            todo |= new
        return m

    def step(self, m, a):
        if m is None:
            return None
        moves = self.moves.get(a)
        r = 0
        if moves:
            for q in range(self.n):
                if m >> q & 1:
                    r |= moves[q]
        return self.norm(self.closure(r))

    def final(self, m):
        return bool(m) and bool(m & self.finals)


def masks_to_trans(arcs, m):
    return tuple(t for i, t in enumerate(arcs) if m >> i & 1)
