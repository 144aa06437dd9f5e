"""
Catalogue of the public operations, run against a world of live objects (C39).

An operation takes a world and a callback `tick`, and returns (value, results): `value()` recomputes a canonical image of what
the operation answered (independent of the numbering of new vertices when the numbering is free), `results` are the objects
handed to the caller, that the caller may then modify. `tick()` is called from every callback that the operation offers to its
caller (visitor events, filters, distances, comparisons): other operations can be run there.
"""
import contextlib
import io
from collections import defaultdict, deque
from itertools import product
import pybgl.automaton as A
import pybgl.graph as G
import pybgl.nfa as N
import pybgl.node_automaton as NA
from pybgl.aggregated_visitor import AggregatedVisitor
from pybgl.algebra import ClosedMax, ClosedMin, ClosedPlus, ClosedTime, GreaterThan, INFINITY, Less
from pybgl.automaton import Automaton, make_automaton
from pybgl.automaton_copy import automaton_copy
from pybgl.bk_tree import BKTree, make_bk_tree
from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor, breadth_first_search, breadth_first_search_graph
from pybgl.cut import cut
from pybgl.damerau_levenshtein_distance import damerau_levenshtein_distance, damerau_levenshtein_distance_naive
from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor, depth_first_search, depth_first_search_graph
from pybgl.deterministic_inclusion import deterministic_inclusion
from pybgl.deterministic_intersection import deterministic_intersection
from pybgl.deterministic_union import deterministic_union
from pybgl.digital_sequence import DigitalSequence
from pybgl.dijkstra_shortest_paths import DijkstraVisitor, dijkstra_shortest_path, dijkstra_shortest_paths, make_shortest_path, make_shortest_paths_dag
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_copy import graph_copy
from pybgl.graph_dp import GraphDp
from pybgl.graph_extract import graph_extract
from pybgl.graph_traversal import DefaultTreeTraversalVisitor, bfs_tree, dfs_tree
from pybgl.graph_view import GraphView
from pybgl.graphviz import graphviz_escape_html, read_graphviz, read_graphviz_dp
from pybgl.heap import Comparable, Heap, compare_to_key
from pybgl.hopcroft_minimize import hopcroft_minimize
from pybgl.incidence_automaton import IncidenceAutomaton, make_incidence_automaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton, make_incidence_node_automaton
from pybgl.lcs_distance import lcs_distance, lcs_distance_naive
from pybgl.levenshtein_distance import levenshtein_distance, levenshtein_distance_naive
from pybgl.moore_determination import moore_determination
from pybgl.nfa import Nfa
from pybgl.node_automaton import NodeAutomaton, make_node_automaton
from pybgl.parallel_breadth_first_search import ParallelBreadthFirstSearchVisitor, parallel_breadth_first_search
from pybgl.property_map import identity_property_map, make_assoc_property_map, make_constant_property_map, make_func_property_map
from pybgl.prune_incidence_automaton import find_reachable_vertices, prune_incidence_automaton
from pybgl.regexp import compile_dfa, compile_nfa
from pybgl.reverse import reverse_dict, reverse_graph
from pybgl.revuz_minimize import revuz_height, revuz_minimize
from pybgl.shunting_yard_postfix import (
    MAP_OPERATORS_ALG, MAP_OPERATORS_RE, DefaultShuntingYardVisitor, catify, re_escape, shunting_yard_ast, shunting_yard_compute,
    shunting_yard_postfix, tokenizer_alg, tokenizer_re
)
from pybgl.strong_components import strong_components
from pybgl.suffix_trie import factors, make_suffix_trie, slices
from pybgl.thompson_compile_nfa import (
    alternation, bracket, concatenation, literal, one_or_more, parse_bracket, parse_escaped, parse_repetition, repetition_range, zero_or_more
)
from pybgl.tokenize import TokenizeVisitor, tokenize
from pybgl.topological_sort import topological_sort
from pybgl.trie import Trie
from pybgl.trie_matching import trie_matching
from .dot import Dot
from .gen import build_graph
import re

WORDS = [w for k in range(4) for w in product("ab", repeat=k)]
NUM_WORLDS = 8


def key(e):
    return (e.source, e.target, e.distinguisher)


def ukey(e):
    return (min(e.source, e.target), max(e.source, e.target), e.distinguisher)


def graph_value(g):
    """Vertices and edges, as they are numbered."""
    k = ukey if not g.directed else key
    return (sorted(g.vertices()), sorted((k(e) for e in g.edges()), key=repr))


def dfa_value(g):
    """A deterministic automaton up to the numbering of its states (its reachable part), and its size."""
    q0 = g.initial()
    if q0 is None:
        return None
    num, todo, out = {q0: 0}, deque([q0]), []
    while todo:
        q = todo.popleft()
        row = []
        for a in sorted(g.sigma(q), key=repr):
            r = g.delta(q, a)
            if r not in num:
                num[r] = len(num)
                todo.append(r)
            row.append((a, num[r]))
        out.append((bool(g.is_final(q)), g.symbol(q) if hasattr(g, "symbol") else None, tuple(row)))
    return (out, g.num_vertices(), g.num_edges())


def nfa_value(g):
    return ([w for w in WORDS if g.accepts(w)], g.num_vertices(), g.num_edges(), sorted(map(repr, g.alphabet())))


def dot_value(text):
    d = Dot(text)
    return (d.kind, sorted(d.nodes, key=repr), sorted(d.edges, key=repr), d.defaults, d.settings)


class World:
    """Live objects that the operations read. Two worlds of the same number are equal."""
    def __init__(self, i):
        self.links, self.flips = {}, {}
        self.hook = lambda: None      # called from every map, filter or distance of the world
        n = 3 + i % 2
        E = [[(0, 1), (1, 2), (2, 0), (0, 2), (1, 1)], [(0, 1), (1, 2), (2, 3), (3, 1), (0, 3), (0, 3)], [(0, 1), (0, 1), (1, 2), (0, 2), (2, 1)],
             [(0, 1), (0, 2), (1, 3), (2, 3), (3, 0), (3, 3)], [(2, 1), (1, 0), (0, 2)], [(0, 1), (2, 3), (3, 2), (1, 0)], [(0, 0), (0, 1), (1, 2), (2, 0), (2, 1)],
             [(0, 3), (3, 2), (2, 1), (1, 0), (0, 2), (1, 3)]][i % 8]
        off = (0, 0, 1, 0, 300, 0, 2, 0)[i % 8]
        self.g, self.g_edges = build_graph("D", n, E, off)
        self.ig, self.ig_edges = build_graph("I", n, list(reversed(E)), off)
        self.ug, self.ug_edges = build_graph("U", n, E, off)
        self.dag, self.dag_edges = build_graph("D", n, [(min(e), max(e)) for e in E if e[0] != e[1]], off)
        self.tree, _ = build_graph("D", 4, [(0, 1), (0, 2), (1 + i % 2, 3)], off)
        self.vs = sorted(self.g.vertices())
        self.hid = self.vs[i % n]
        self.w = {key(e): (j * (i + 1)) % 4 + 1 for g, es in ((self.g, self.g_edges),) for j, e in enumerate(es)}
        self.pw = self.map(lambda e: self.w[key(e)])
        self.view = GraphView(self.g, self.map(lambda u: u != self.hid))
        self.view2 = GraphView(self.g, None, self.map(lambda e: e.source <= e.target))
        # deterministic automata: partial, with a cycle
        t1 = [(0, 1, "a"), (1, 0, "b"), (1, 2, "a"), (2, 2, "b")][:3 + i % 2]
        t2 = [(0, 0, "a"), (0, 1, "b"), (1, 2, "a"), (2, 1, "a")][i % 2:]
        self.d1 = make_incidence_automaton(t1, 0, self.map(lambda q: q % 2 == i % 2))
        self.d2 = make_automaton(t2, 0, self.map(lambda q: q == 1))
        self.transitions = t1
        self.acyclic = [(0, 1, "a"), (0, 2, "b"), (1, 3, "b"), (2, 3, "b"), (3, 4, "a"), (2, 4, "a")][:4 + i % 3]
        self.nfa = Nfa(3)
        for (q, r, a) in [(0, 0, "a"), (0, 1, "a"), (1, 2, N.EPSILON), (2, 0, "b"), (1, 1, "b"), (0, 2, N.EPSILON)][i % 3:]:
            self.nfa.add_edge(q, r, a)
        self.nfa.set_final(2)
        self.inits = {0, 1}
        self.node = make_node_automaton([(0, 1), (1, 2), (0, 2), (2, 1)], make_func_property_map(lambda q: "^aba"[q]), 0, make_func_property_map(lambda q: q == 2))
        self.words = [["a", "ab", "b"], ["", "ab", "abb"], ["ba", "a"], ["b"], ["aab", "ab"], ["", "a", "b"], ["abab"], ["bb", "ba"]][i % 8]
        self.trie, self.trie2 = Trie(), Trie()
        for x in self.words:
            self.trie.insert(x)
        self.trie2.insert("ab")
        self.trie2.insert("b")
        self.seq = DigitalSequence("abab"[:2 + i % 3])
        self.x, self.y = ["kitten", "aab", "", "ca"][i % 4], ["sitting", "aba", "ab", "abc"][i % 4]
        self.bk = make_bk_tree(["aa", "ab", "abc", "b"][:2 + i % 3], lambda x, y: (self.hook(), levenshtein_distance(x, y))[1])
        self.regexp = ["(a|b)*a", "a{1,2}b?", "[ab]+", "a.b|b", "(ab)*", "\\.|a", "a?b?", "[^a]b"][i % 8]
        self.infix = ["1+2*3", "-(1-2)^2", "8/4/2", "2^3^1"][i % 4]
        self.elements = [3, 1, 2, 1, 0][: 2 + i % 4]
        self.dot = "digraph G {\n 0 [color=\"red\"];\n 1 [label=<b>];\n 0->1 [color=\"blue\"];\n 1->1;\n}"
        self.dpv = {"color": self.map(lambda u: "c%s" % u)}
        self.dpe = {"label": self.map(lambda e: "e%s" % e.target)}
        self.style = {"rankdir": "TB"}
        self.gdp = GraphDp(self.g, self.dpv, self.dpe, dict(self.style))
        self.dict = {1: "a", 2: "b"}
        self.operators = dict(MAP_OPERATORS_ALG)
        self.postfix_in = list(tokenizer_alg(self.infix))

    def map(self, f):
        return make_func_property_map(lambda x: (self.hook(), f(x))[1])

    def value(self):
        """What the world looks like, through its observers."""
        return (graph_value(self.g), graph_value(self.ig), graph_value(self.ug), graph_value(self.dag), graph_value(self.tree), graph_value(self.view),
                [sorted(map(key, self.g.out_edges(u))) for u in self.g.vertices()], [sorted(map(key, self.ig.in_edges(u))) for u in self.ig.vertices()],
                [sorted(map(ukey, self.ug.out_edges(u))) for u in self.ug.vertices()],
                graph_value(self.d1), dfa_value(self.d1), [sorted(map(key, self.d1.in_edges(q))) for q in self.d1.vertices()], graph_value(self.d2), dfa_value(self.d2),
                sorted(self.d1.finals()), sorted(self.d2.finals()), sorted(self.node.finals()), graph_value(self.node), dfa_value(self.node),
                nfa_value(self.nfa), sorted(N.initials(self.nfa)), sorted(self.nfa.finals()), graph_value(self.nfa), self.inits,
                dfa_value(self.trie), dfa_value(self.trie2), graph_value(self.trie), self.seq.accepts(self.seq.w), list(self.seq.vertices()), sorted(map(key, self.seq.edges())),
                [self.bk.element(u) for u in sorted(self.bk.vertices())], graph_value(self.bk),
                self.words, self.transitions, self.acyclic, self.elements, self.dict, sorted(self.operators), self.postfix_in, self.style,
                sorted(self.dpv), sorted(self.dpe), {k: pm[self.vs[0]] for k, pm in self.dpv.items()}, sorted(self.w.items()), dot_value(self.gdp.to_dot()), self.gdp.to_json())


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def const(value, *results):
    return (lambda: value), results


def set_of(s):
    """A set (or other collection) given to the caller."""
    return (lambda: sorted(s, key=repr)), (s,)


def ticking(base, tick):
    """A visitor of this class that calls tick at every event and records nothing."""
    class V(base):
        pass
    for name in dir(base):
        if not name.startswith("_") and callable(getattr(base, name)):
            setattr(V, name, lambda self, *a, **k: tick())
    return V()


def seen_by(f, g, tick, base, *args, **kw):
    """Discovered and finished vertices of a traversal."""
    log = []

    class V(base):
        def discover_vertex(self, u, g):
            log.append(("d", u))
            tick()

        def finish_vertex(self, u, g):
            log.append(("f", u))
            tick()

        def examine_edge(self, e, g):
            log.append(("e", key(e)))
            tick()
    f(*args, vis=V(), **kw)
    return const(sorted(log))


@op
def dfs(w, tick):
    return seen_by(depth_first_search, w.g, tick, DefaultDepthFirstSearchVisitor, w.vs[0], w.g)


@op
def dfs_default(w, tick):
    depth_first_search(w.vs[0], w.g)
    depth_first_search_graph(w.g)
    return const(None)


@op
def dfs_colors(w, tick):
    d = defaultdict(int)
    depth_first_search(w.vs[1], w.ig, make_assoc_property_map(d))
    return (lambda: sorted(d.items())), (d,)


@op
def dfs_graph(w, tick):
    return seen_by(depth_first_search_graph, w.ug, tick, DefaultDepthFirstSearchVisitor, w.ug, if_push=lambda e, g: tick() or True)


@op
def bfs(w, tick):
    return seen_by(breadth_first_search, w.g, tick, DefaultBreadthFirstSearchVisitor, w.vs[0], w.g)


@op
def bfs_graph(w, tick):
    d = defaultdict(int)
    breadth_first_search_graph(w.view, [u for u in w.vs if u != w.hid][:1], make_assoc_property_map(d), vis=ticking(DefaultBreadthFirstSearchVisitor, tick), if_push=lambda e, g: tick() or True)
    return (lambda: sorted(d.items())), (d,)


@op
def bfs_default(w, tick):
    breadth_first_search(w.vs[0], w.g)
    breadth_first_search_graph(w.ug)
    return const(None)


@op
def tree_traversals(w, tick):
    out = []
    for f in (dfs_tree, bfs_tree):
        log = []

        class V(DefaultTreeTraversalVisitor):
            def discover_vertex(self, u, g):
                log.append(u)
                tick()
        f(min(w.tree.vertices()), w.tree, V())
        out.append(sorted(log))
    return const(out)


@op
def components(w, tick):
    d = defaultdict(int)
    n = strong_components(w.g, make_assoc_property_map(d))
    return (lambda: (n, sorted(sorted(u for u in d if d[u] == c) for c in set(d.values())))), (d,)


@op
def topological(w, tick):
    s = topological_sort(w.dag)
    return (lambda: (len(s), sorted(s))), (s,)


@op
def topological_cyclic(w, tick):
    try:
        topological_sort(w.g)
    except RuntimeError:
        return const("cyclic")
    return const("acyclic")


@op
def cut_set(w, tick):
    s = cut(w.vs[0], w.dag, lambda e, g: (tick(), g.source(e) == w.vs[1])[1])
    return set_of(s)


@op
def extract(w, tick):
    vs, es = [], []
    graph_extract(w.vs[0], w.g, make_func_property_map(lambda u: (tick(), u != w.hid)[1]), None, lambda u, g: (tick(), vs.append(u)), lambda e, g: (tick(), es.append(key(e))))
    return const((sorted(vs), sorted(es)))


@op
def copy_graph(w, tick):
    h, mv, me = DirectedGraph(), defaultdict(), defaultdict()
    graph_copy(w.vs[0], w.g, h, pmap_vertices=make_assoc_property_map(mv), pmap_edges=make_assoc_property_map(me), callback_dup_vertex=lambda *a: tick())
    back = {v: u for u, v in mv.items()}
    return (lambda: (sorted(mv), sorted(map(key, me)), sorted((back.get(e.source), back.get(e.target)) for e in h.edges()), h.num_vertices())), (h, mv, me)


@op
def copy_graph_default(w, tick):
    h = UndirectedGraph()
    graph_copy(w.vs[0], w.ug, h)
    return (lambda: (h.num_vertices(), h.num_edges())), (h,)


@op
def copy_automaton(w, tick):
    h = IncidenceAutomaton()
    mv = defaultdict()
    automaton_copy(w.d1.initial(), w.d1, h, pmap_vertices=make_assoc_property_map(mv), callback_dup_edge=lambda *a: tick())
    h.set_initial(mv[w.d1.initial()])
    return (lambda: dfa_value(h)), (h, mv)


@op
def dijkstra(w, tick):
    dist, preds = defaultdict(int), defaultdict(set)
    dijkstra_shortest_paths(w.g, w.vs[0], make_func_property_map(lambda e: (tick(), w.w[key(e)])[1]), make_assoc_property_map(preds), make_assoc_property_map(dist), vis=ticking(DijkstraVisitor, tick))
    return (lambda: (sorted(dist.items()), sorted((u, sorted(map(key, es))) for u, es in preds.items() if es))), (dist, preds) + tuple(preds.values())


@op
def dijkstra_default(w, tick):
    dist, preds = defaultdict(int), defaultdict(set)
    dijkstra_shortest_paths(w.g, w.vs[0], w.pw, make_assoc_property_map(preds), make_assoc_property_map(dist))
    path = make_shortest_path(w.g, w.vs[0], w.vs[1], make_assoc_property_map(preds)) if dist[w.vs[1]] != INFINITY else []
    return (lambda: (sorted(dist.items()), sum(w.w[key(e)] for e in path))), (path, preds)


@op
def dijkstra_bandwidth(w, tick):
    dist, preds = defaultdict(int), defaultdict(set)
    dijkstra_shortest_paths(w.g, w.vs[0], w.pw, make_assoc_property_map(preds), make_assoc_property_map(dist), compare=GreaterThan(), combine=min, zero=INFINITY, infty=0)
    return (lambda: sorted(dist.items())), (dist, preds)


@op
def shortest_path(w, tick):
    dist, preds = defaultdict(int), defaultdict(set)
    p = dijkstra_shortest_path(w.g, w.vs[0], w.vs[-1], w.pw, make_assoc_property_map(preds), make_assoc_property_map(dist), vis=ticking(DijkstraVisitor, tick))
    return (lambda: None if p is None else sum(w.w[key(e)] for e in p)), (p, dist, preds)


@op
def shortest_paths_dag(w, tick):
    dist, preds = defaultdict(int), defaultdict(set)
    dijkstra_shortest_paths(w.g, w.vs[0], w.pw, make_assoc_property_map(preds), make_assoc_property_map(dist))
    es = make_shortest_paths_dag(w.g, w.vs[0], w.vs[-1], make_assoc_property_map(preds))
    one = make_shortest_paths_dag(w.g, w.vs[0], w.vs[-1], make_assoc_property_map(preds), single_path=True)
    return (lambda: (sorted(map(key, es)), sum(w.w[key(e)] for e in one))), (es, one)


@op
def views(w, tick):
    out = []
    for v in (w.view, w.view2, w.view | w.view2, w.view & w.view2, w.view2 - w.view, GraphView(w.ug)):
        out.append((graph_value(v), v.num_vertices(), v.num_edges(), [sorted(map(key, v.out_edges(u))) for u in v.vertices()]))
    return const(out)


@op
def observers_graph(w, tick):
    out = [list(x) for g in (w.g, w.ig, w.ug) for u in list(g.vertices())[:2] for x in (g.out_edges(u),)] + [list(w.ig.in_edges(w.vs[0])), list(w.g.edges()), list(w.ug.edges())]
    return (lambda: [sorted(map(ukey, x)) for x in out]), tuple(out)


@op
def observers_automaton(w, tick):
    sets = [w.d1.alphabet(), w.d2.alphabet(), w.d1.finals(), w.d2.finals(), w.node.alphabet(), w.node.finals(), w.trie.finals()] + \
        [g.sigma(q) for g in (w.d1, w.d2, w.node, w.trie) for q in sorted(g.vertices())[:2]]
    words = [[bool(g.accepts(x)) for x in WORDS] for g in (w.d1, w.d2, w.trie)]
    return (lambda: ([sorted(s, key=repr) for s in sets], words)), tuple(sets)


@op
def observers_nfa(w, tick):
    g = w.nfa
    one = {0}
    sets = [g.alphabet(), g.delta_epsilon(one), one, g.delta_one_step({0, 1}, "a"), g.delta(0, "a"), g.delta(1, "b"), g.sigma(0), g.delta_word("a"), g.delta_word(""), set(g.finals())]
    return (lambda: ([sorted(s, key=repr) for s in sets], nfa_value(g))), tuple(sets)


@op
def observers_sequence(w, tick):
    g = w.seq
    sets = [g.alphabet(), g.sigma(0), g.sigma(1), g.out_edges(0), g.in_edges(1), g.in_edges(0), g.out_edges(len(g.w))]
    return (lambda: [sorted(s, key=repr) for s in sets]), tuple(sets)


@op
def union(w, tick):
    g = deterministic_union(w.d1, w.d2)
    return (lambda: dfa_value(g)), (g,)


@op
def intersection(w, tick):
    g = deterministic_intersection(w.d1, w.d2)
    return (lambda: dfa_value(g)), (g,)


@op
def intersection_with_itself(w, tick):
    g, h = deterministic_intersection(w.d1, w.d1), deterministic_union(w.d1, w.d1)
    return (lambda: (dfa_value(g), dfa_value(h))), (g, h)


@op
def inclusion(w, tick):
    return const((deterministic_inclusion(w.d1, w.d2), deterministic_inclusion(w.d2, w.d1), deterministic_inclusion(w.d1, w.d1)))


@op
def parallel(w, tick):
    log = []

    class V(ParallelBreadthFirstSearchVisitor):
        def discover_vertex(self, q1, g1, q2, g2):
            log.append(("d", q1, q2))
            tick()

        def examine_symbol(self, q1, g1, q2, g2, a):
            log.append((a, q1, q2))
            tick()
    parallel_breadth_first_search(w.d1, w.d2, vis=V())
    return const(sorted(log, key=repr))


@op
def parallel_default(w, tick):
    parallel_breadth_first_search(w.d1, w.d2)
    parallel_breadth_first_search(w.trie, w.seq, if_push=lambda e1, g1, e2, g2: tick() or True)
    return const(None)


@op
def determinize(w, tick):
    g = moore_determination(w.nfa)
    h = moore_determination(w.nfa, complete=False)
    return (lambda: (dfa_value(g), dfa_value(h))), (g, h)


@op
def minimize_hopcroft(w, tick):
    g = hopcroft_minimize(w.d1)
    return (lambda: dfa_value(g)), (g,)


@op
def minimize_revuz(w, tick):
    g = make_incidence_automaton(w.acyclic, 0, make_func_property_map(lambda q: q in (3, 4)))
    revuz_minimize(g)
    return (lambda: dfa_value(g)), (g,)


@op
def minimize_revuz_node(w, tick):
    g = make_incidence_node_automaton([(q, r) for (q, r, a) in w.acyclic], make_func_property_map(lambda q: "^abab"[q]), 0, make_func_property_map(lambda q: q in (3, 4)))
    revuz_minimize(g)
    return (lambda: dfa_value(g)), (g,)


@op
def height(w, tick):
    d = defaultdict(int)
    h = revuz_height(make_incidence_automaton(w.acyclic), make_assoc_property_map(d))
    return (lambda: (h, sorted(d.items()))), (d,)


@op
def prune(w, tick):
    g = make_incidence_automaton(w.transitions + [(0, 7, "c"), (8, 0, "a")], 0, make_func_property_map(lambda q: q == 1))
    prune_incidence_automaton(g)
    return (lambda: dfa_value(g)), (g,)


@op
def reachable(w, tick):
    src = {w.vs[0]}
    s = find_reachable_vertices(w.g, src)
    return (lambda: (sorted(s), sorted(src))), (s, src)


@op
def reversed_graph(w, tick):
    g, _ = build_graph("I", 3, [(0, 1), (1, 2), (0, 1)])
    reverse_graph(g)
    d = defaultdict(int)
    depth_first_search(2, g, make_assoc_property_map(d))
    return const((sorted(d.items()), sorted(map(key, g.out_edges(1))), sorted(map(key, g.in_edges(1)))))


@op
def reversed_dict(w, tick):
    d = reverse_dict(w.dict)
    return (lambda: sorted(d.items())), (d,)


@op
def regexp_nfa(w, tick):
    g = compile_nfa(w.regexp)
    return (lambda: nfa_value(g)), (g,)


@op
def regexp_dfa(w, tick):
    g, h = compile_dfa(w.regexp), compile_dfa(w.regexp, complete=True)
    return (lambda: (dfa_value(g), dfa_value(h))), (g, h)


@op
def regexp_error(w, tick):
    for bad in ("[", "a{2,1}", "(a", "a)", "*"):
        try:
            compile_nfa(bad)
        except Exception as e:
            e.args = ()
    return const(None)


@op
def thompson_parts(w, tick):
    def concat(x, y):
        return concatenation(x[0], x[1], x[2], y[0], y[1], y[2])
    a, b = literal("a"), bracket("ab")
    g = concat(a, b)
    h = alternation(*(literal("a") + literal("b")))
    i = zero_or_more(*literal("a"))
    j = one_or_more(*literal("b"))
    k = repetition_range(*(literal("a") + (1, 2)))
    return (lambda: [nfa_value(x[0]) for x in (g, h, i, j, k)]), tuple(x[0] for x in (a, b, g, h, i, j, k))


@op
def parse_sets(w, tick):
    sets = [parse_bracket("[a-c]"), parse_bracket("[^a]", "abc"), parse_bracket("[^a]"), parse_bracket("[\\d_]"), parse_escaped("\\d"), parse_escaped("\\W"), parse_escaped("\\."), parse_escaped("\\s")]
    return (lambda: ([sorted(s) for s in sets], parse_repetition("{1,2}"), re_escape("a.b"))), tuple(sets)


@op
def tokens(w, tick):
    out = [list(catify(w.regexp)), list(tokenizer_re(w.regexp)), list(tokenizer_alg(w.infix))]
    return (lambda: out and [list(x) for x in out]), tuple(out)


@op
def postfix(w, tick):
    out = shunting_yard_postfix(w.postfix_in, w.operators, vis=ticking(DefaultShuntingYardVisitor, tick))
    return (lambda: list(out)), (out,)


@op
def postfix_default(w, tick):
    out = shunting_yard_postfix(catify(w.regexp), {**MAP_OPERATORS_RE, "{1,2}": MAP_OPERATORS_RE["*"]})
    return (lambda: list(out)), (out,)


@op
def ast(w, tick):
    t, root = shunting_yard_ast(catify(w.regexp), {**MAP_OPERATORS_RE, "{1,2}": MAP_OPERATORS_RE["*"]})
    t.root = root

    def tree(u):
        return (t.symbol(u),) + tuple(tree(v) for v in t.children(u))
    return (lambda: (tree(root), t.num_vertices(), t.num_edges())), (t,)


@op
def compute(w, tick):
    return const((shunting_yard_compute(w.infix), shunting_yard_compute(list(w.postfix_in), tokenize=False)))


@op
def split(w, tick):
    log = []

    class V(TokenizeVisitor):
        def on_unmatched(self, x, start, end, s):
            log.append(("u", x))
            tick()

        def on_matched(self, x, start, end, s):
            log.append(("m", x))
            tick()
    tokenize(re.compile("ab|b"), "aabxb", V())
    tokenize(re.compile("a"), "aba")
    return const(log)


@op
def build_automata(w, tick):
    gs = [make_automaton(w.transitions), make_incidence_automaton(w.transitions), make_node_automaton([(0, 1), (1, 0)], make_func_property_map(lambda q: "ab"[q])),
          make_incidence_node_automaton([(0, 1)], make_func_property_map(lambda q: "ab"[q]))]
    return (lambda: [dfa_value(g) for g in gs]), tuple(gs)


@op
def new_automata(w, tick):
    gs = [Automaton(), Automaton(2), IncidenceAutomaton(1), NodeAutomaton(1), IncidenceNodeAutomaton(1), Trie()]
    return (lambda: [(graph_value(g), sorted(g.finals())) for g in gs]), tuple(gs)


@op
def new_nfa(w, tick):
    gs = [Nfa(), Nfa(2), Nfa(2, initials=w.inits)]
    return (lambda: [(graph_value(g), sorted(N.initials(g)), sorted(g.finals())) for g in gs]), tuple(gs)


@op
def new_graphs(w, tick):
    gs = [DirectedGraph(), DirectedGraph(2), IncidenceGraph(1), UndirectedGraph(), UndirectedGraph(2)]
    return (lambda: [graph_value(g) for g in gs]), tuple(gs)


@op
def trie_new(w, tick):
    t = Trie()
    for x in w.words:
        t.insert(x)
    t.insert(w.seq)
    t.insert(w.trie2)
    return (lambda: dfa_value(t)), (t,)


@op
def trie_match(w, tick):
    xs = [trie_matching(w.trie, w.trie2), trie_matching(w.trie2, w.trie), trie_matching(w.trie, w.trie)]
    return (lambda: [list(x) for x in xs]), tuple(xs)


@op
def suffixes(w, tick):
    t, u = make_suffix_trie(w.x), make_suffix_trie(w.y, 2)
    fs = [list(factors(w.x, 2)), list(factors("aba")), list(slices(3))]
    return (lambda: (dfa_value(t), dfa_value(u), [sorted(x) for x in fs])), (t, u) + tuple(fs)


@op
def suffixes_default(w, tick):
    t = make_suffix_trie()
    return (lambda: dfa_value(t)), (t,)


@op
def distances(w, tick):
    return const([f(w.x, w.y) for f in (levenshtein_distance, lcs_distance, damerau_levenshtein_distance)])


@op
def distances_naive(w, tick):
    return const([f(w.x[:3], w.y[:3]) for f in (levenshtein_distance_naive, lcs_distance_naive, damerau_levenshtein_distance_naive)])


@op
def metric_tree(w, tick):
    t = make_bk_tree(["aa", "b", "ab"], lambda x, y: (tick(), levenshtein_distance(x, y))[1])
    found = t.search("ba")
    return (lambda: (t.num_vertices(), sorted(t.element(u) for u in t.vertices()), found[1], t.search("aaa")[1])), (t,)


@op
def metric_tree_default(w, tick):
    t = make_bk_tree(["aa", "b"])
    u = BKTree(levenshtein_distance)
    return (lambda: (t.search("a")[1], sorted(t.element(q) for q in t.vertices()), u.search("a"), u.num_vertices())), (t, u)


@op
def metric_search(w, tick):
    return const([w.bk.search(x)[1] for x in ("a", "abcd", "b")] + [w.bk.search("zzzz", 1)])


@op
def heap_sort(w, tick):
    h = Heap(list(w.elements), to_comparable=lambda x: (tick(), -x)[1])
    out = [h.pop() for _ in w.elements]
    return const((out, sorted(list(Heap(w.elements)))))


@op
def heap_new(w, tick):
    h, k = Heap(), Heap(w.elements)
    return (lambda: (list(h), list(k))), (h, k)


@op
def heap_compare(w, tick):
    h = Heap(w.elements, to_comparable=compare_to_key(lambda x, y: (tick(), x >= y)[1]))
    return (lambda: list(h)), (h,)


@op
def to_dot_graph(w, tick):
    return const([dot_value(g.to_dot()) for g in (w.g, w.ug, w.view, w.d1, w.nfa, w.node, w.trie, w.bk, w.seq)])


@op
def to_dot_options(w, tick):
    return const([dot_value(g.to_dot(dpv=w.dpv, dpe=w.dpe, dg=w.style)) for g in (w.g, w.d1, w.nfa, w.node)] + [graphviz_escape_html("<b>a&b")])


@op
def graph_dp(w, tick):
    x, y = GraphDp(w.g), GraphDp(w.d1, w.dpv, w.dpe)
    return (lambda: [dot_value(z.to_dot()) for z in (x, y, w.gdp)] + [x.to_json(), w.gdp.to_json()]), (x.get_dg(), x.get_dv(), x.get_de(), x.get_dpv())


@op
def read_dot(w, tick):
    g, h = DirectedGraph(), DirectedGraph()
    pv, pe = make_assoc_property_map(defaultdict(str)), make_assoc_property_map(defaultdict(str))
    read_graphviz(w.dot, g)
    read_graphviz_dp(w.dot.split("\n"), h, {"color": pv}, {"color": pe})
    return (lambda: (g.num_vertices(), sorted(map(key, h.edges())), [pv[u] for u in sorted(h.vertices())][:2], sorted(pe[e] for e in h.edges())[-1:])), (g, h)


@op
def aggregated(w, tick):
    log = []

    class V(DefaultDepthFirstSearchVisitor):
        def discover_vertex(self, u, g):
            log.append(u)
            tick()
    x = AggregatedVisitor([V(), DefaultDepthFirstSearchVisitor()])
    depth_first_search(w.vs[0], w.g, vis=x)
    y, k = AggregatedVisitor(), x.keys()
    return (lambda: (sorted(log), sorted(k), sorted(y.keys()))), (k, y.keys())


@op
def operators(w, tick):
    return const([ClosedPlus()(1, 2), ClosedPlus()(1, INFINITY), ClosedTime(0)(0, 3), ClosedMin()(2, 1), ClosedMax()(2, 1), Less()(1, 2), GreaterThan()(1, 2), Comparable(1, Less()) < Comparable(2, Less())])


@op
def maps(w, tick):
    d = defaultdict(int)
    p, q = make_assoc_property_map(d), make_assoc_property_map(defaultdict(list))
    p[1] = 2
    q[0].append(1)
    return (lambda: (p[1], p[2], q[0], q[1], identity_property_map()[3], make_constant_property_map(4)[0])), (q[0], q[1])


@op
def same_maps(w, tick):
    """Algorithms called again with the same maps, reset by the caller in between."""
    dist, preds, color, comp, heights = defaultdict(int), defaultdict(set), defaultdict(int), defaultdict(int), defaultdict(int)
    pdist, ppreds, pcolor, pcomp, pheights = map(make_assoc_property_map, (dist, preds, color, comp, heights))
    acyclic = make_incidence_automaton(w.acyclic)
    out, calls = [], [
        lambda: dijkstra_shortest_paths(w.g, w.vs[0], w.pw, ppreds, pdist),
        lambda: dijkstra_shortest_paths(w.g, w.vs[0], w.pw, ppreds, pdist, pcolor, vis=DijkstraVisitor()),
        lambda: dijkstra_shortest_path(w.g, w.vs[0], w.vs[-1], w.pw, ppreds, pdist) is not None,
        lambda: depth_first_search(w.vs[0], w.g, pcolor), lambda: depth_first_search_graph(w.g, w.vs, pcolor),
        lambda: breadth_first_search(w.vs[0], w.g, pcolor), lambda: breadth_first_search_graph(w.g, w.vs, pcolor),
        lambda: strong_components(w.g, pcomp), lambda: revuz_height(acyclic, pheights)]
    for call in calls:
        for _ in range(2):
            x = call()
            out.append((x, sorted(dist.items()), sorted((u, sorted(map(key, es))) for u, es in preds.items() if es), sorted(color.items()),
                        sorted(sorted(u for u in comp if comp[u] == c) for c in set(comp.values())), sorted(heights.items())))
            for d in (dist, preds, color, comp, heights):
                d.clear()
    return const(out)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


@op
def nfa_queries(w, tick):
    g = w.nfa
    out = [g.delta(0, "a"), g.delta(1, "z"), g.delta_one_step({0, 1}, "a"), g.delta_one_step({0}, "z"), g.delta_one_step(set(), "a"), g.delta_epsilon({1}), g.delta_epsilon(set()),
           g.delta_word("ab"), g.delta_word(""), g.delta_word("zz"), N.delta_word("a", g), g.sigma(0), g.sigma(2), g.alphabet()]
    return (lambda: [sorted(x) for x in out]), tuple(out)


@op
def automaton_queries(w, tick):
    out = []
    for g in (w.d1, w.d2, w.node, w.trie, w.trie2):
        q = g.initial()
        out += [g.sigma(q), g.sigma(999), g.alphabet(), A.sigma(q, g), A.alphabet(g)]
    more = [[g.delta(g.initial(), "a") is None, g.delta_word(g.initial(), "ab") is None, g.accepts("ab"), A.is_complete(g)] for g in (w.d1, w.d2)]
    return (lambda: ([sorted(x) for x in out], more)), tuple(out)


@op
def graph_queries(w, tick):
    out = [list(g.vertices()) for g in (w.g, w.ig, w.ug, w.view, w.view2, w.dag)] + [list(g.edges()) for g in (w.g, w.ig, w.ug, w.view, w.view2)] + [list(w.g.out_edges(w.vs[0])), list(w.ig.in_edges(w.vs[1]))]
    return (lambda: [sorted(map(repr, x)) for x in out]), tuple(out)


@op
def debug(w, tick):
    return const([bool(quiet(lambda: A.accepts_debug(x, w.d1))) for x in ("", "a", "ab", "c")])


def shown(x, depth=0):
    """A query's answer, materialised: what it contains, in a canonical order unless it is a path."""
    if hasattr(x, "distinguisher"):
        return key(x)
    if isinstance(x, (str, int, float, type(None))):
        return x
    if isinstance(x, tuple) or depth:
        return tuple(shown(y, 1) for y in x)
    return sorted((shown(y, 1) for y in x), key=repr)


def asked(f, *args):
    try:
        return shown(f(*args))
    except Exception as e:      # not offered by this class (in_edges of a graph that does not maintain them)
        return type(e).__name__


def every_query(w, name):
    """All the queries on an object, in both forms: method and function."""
    g = getattr(w, name)
    word = ("ab", "a", "")
    vs = sorted(g.vertices())[:5]
    es = sorted(g.edges(), key=key)[:4]
    nfa, auto = isinstance(g, Nfa), isinstance(g, (Automaton, Nfa, DigitalSequence))
    labels = auto and not isinstance(g, NodeAutomaton) and not hasattr(g, "pmap_vsymbol")
    out = {}

    def both(f, *args):
        out[f, args] = (asked(getattr(g, f), *args) if hasattr(g, f) else None, asked(getattr(N, f, None) or getattr(NA, f, None) if f in ("symbol", "initials") else getattr(A, f, None) or getattr(G, f), *args, g))
    for f in ("vertices", "edges", "num_vertices", "num_edges", "has_vertex", "has_edge", "is_directed") + (("alphabet", "finals", "is_finite", "is_deterministic", "is_complete", "is_minimal") if auto else ()):
        if auto or f not in ("is_finite",):
            both(f)
    if auto:
        both("initials" if nfa else "initial")
    for q in vs:
        for f in ("out_edges", "out_degree", "in_edges", "in_degree") + (("sigma", "is_final", "is_initial") if auto else ()) + (("symbol",) if hasattr(g, "symbol") else ()):
            both(f, q)
        for r in vs[:3]:
            if labels and not nfa:
                both("edge", q, r, "a")
                both("edge", q, r, "b")
            else:
                out["edge", q, r] = (asked(g.edge, q, r), asked(NA.edge if hasattr(g, "symbol") else G.edge, q, r, g))
        if auto:
            for a in "abc":
                both("delta", q, a)
            if not nfa:
                for x in word:
                    both("delta_word", q, x)
    for e in es:
        for f in ("source", "target") + (("label",) if labels else ()):
            both(f, e)
        if nfa:
            both_e = (asked(g.is_epsilon_transition, e), asked(N.is_epsilon_transition, e, g))
            out["epsilon", key(e)] = both_e
    if auto:
        for x in word:
            both("accepts", x)
            if nfa:
                out["delta_word", x] = (asked(g.delta_word, x), asked(N.delta_word, x, g))
                out["closure"] = asked(g.delta_epsilon, set(vs[:1]))
            elif hasattr(g, "delta_best_effort"):
                out["best", x] = (asked(g.delta_best_effort, x), asked(A.delta_best_effort, g, x))
    return sorted(((repr(k), repr(x)) for k, x in out.items()))


@op
def every_query_graph(w, tick):
    return const([every_query(w, x) for x in ("g", "ig", "ug", "dag", "tree", "view", "view2", "bk")] + [[asked(w.bk.element, u) for u in sorted(w.bk.vertices())]])


@op
def every_query_automaton(w, tick):
    return const([every_query(w, x) for x in ("d1", "d2", "node", "trie", "trie2", "seq")])


@op
def every_query_nfa(w, tick):
    return const(every_query(w, "nfa"))


UPDATES = {}


def update(f):
    UPDATES[f.__name__] = f
    return f


def link(w, g, q, r, *a):
    """A new edge, or removes it when there is one. The updates ask the object as little as possible: a query could leave a trace that hides a stale answer."""
    e = w.links.pop((id(g), q, r, a), None)
    e = next((e for e in g.edges() if key(e)[:2] == (q, r) and (not a or g.label(e) == a[0])), None) if e is None else e
    if e is None:
        w.links[id(g), q, r, a] = g.add_edge(q, r, *a)[0]
    else:
        g.remove_edge(e)


def flip(w, name):
    w.flips[name] = not w.flips.get(name, False)
    return w.flips[name]


@update
def edge_g(w):
    es = [e for e in w.g.edges() if (e.source, e.target) == (w.vs[-1], w.vs[0])]
    e = es[0] if es else w.g.add_edge(w.vs[-1], w.vs[0])[0]
    w.w[key(e)] = 1
    if es:
        w.g.remove_edge(e)


@update
def loop_ig_ug(w):
    link(w, w.ig, w.vs[-1], w.vs[1])
    link(w, w.ug, w.vs[1], w.vs[-1])
    link(w, w.dag, w.vs[0], w.vs[-1])


@update
def vertex_g(w):
    """One more vertex, with an edge, or less."""
    if getattr(w, "extra", None) is None:
        w.extra = w.g.add_vertex()
        e, _ = w.g.add_edge(w.vs[0], w.extra)
        w.w[key(e)] = 2
    else:
        w.g.remove_vertex(w.extra)
        w.extra = None


@update
def vertex_others(w):
    for g in (w.ig, w.ug, w.dag, w.tree):
        g.add_edge(min(g.vertices()), g.add_vertex())


@update
def weights(w):
    for k in w.w:
        w.w[k] = 7 - w.w[k]


@update
def hidden(w):
    w.hid = w.vs[-1] if w.hid != w.vs[-1] else w.vs[1]


@update
def transitions_d1(w):
    q = max(w.d1.vertices())
    link(w, w.d1, q, 0, "c")
    link(w, w.d2, 1, 1, "b")


@update
def less_d2(w):
    for g in (w.d1, w.d2):
        for e in sorted(g.edges(), key=key)[-1:]:
            g.remove_edge(e)


@update
def initial_d1(w):
    q = 1 if flip(w, "initial_d1") else 0
    w.d1.set_initial(q)
    w.node.set_initial(q)


@update
def states_d1(w):
    q = w.d1.add_vertex()
    w.d1.add_edge(1, q, "d")


@update
def transitions_nfa(w):
    e = [e for e in w.nfa.edges() if key(e) == (2, 1, "a")]
    if e:
        w.nfa.remove_edge(e[0])
    else:
        w.nfa.add_edge(2, 1, "a")
        w.nfa.add_edge(0, 1, N.EPSILON)


@update
def states_nfa(w):
    q = w.nfa.add_vertex()
    w.nfa.add_edge(1, q, "b")
    w.nfa.set_final(q)
    w.nfa.set_final(2, False)


@update
def initial_nfa(w):
    w.nfa.set_initial(1, flip(w, "initial_nfa"))
    w.inits.add(len(w.inits))


@update
def edges_node(w):
    link(w, w.node, 2, 0)
    for e in sorted(w.node.edges(), key=key)[:1]:
        w.node.remove_edge(e)


@update
def words(w):
    w.trie.insert("bab" if flip(w, "words") else "aa")
    w.words.append("bab")


@update
def words_2(w):
    w.trie2.insert(w.trie)


@update
def elements(w):
    w.elements.append(2)
    w.bk.insert("b" * len(w.elements))
    w.elements[0] = -1


@update
def texts(w):
    w.regexp += "|b"
    w.infix += "-1"
    w.x, w.y = w.y + "a", w.x
    w.postfix_in[:] = list(tokenizer_alg(w.infix))
    w.dict[9] = "z"
    w.transitions.append((2, 3, "b") if len(w.transitions) < 4 else (3, 3, "c"))


@update
def styles(w):
    w.dpv["shape"] = make_func_property_map(lambda u: "s%s" % u)
    w.dpe.pop("label", None)
    w.style["rankdir"] = "LR"


def free_link(mod, g, q, r, *a):
    """The same, through the functions."""
    es = [e for e in G.edges(g) if (G.source(e, g), G.target(e, g)) in ((q, r), (r, q)[:2 * (not g.directed)]) and (not a or mod.label(e, g) == a[0])]
    e = es[0] if es else None
    if e is None:
        mod.add_edge(q, r, *a, g)
    else:
        G.remove_edge(e, g)


@update
def free_edges(w):
    free_link(G, w.ig, w.vs[-1], w.vs[1])
    free_link(G, w.ug, w.vs[1], w.vs[0])
    free_link(G, w.dag, w.vs[0], w.vs[-1])


@update
def free_vertices(w):
    for g in (w.ig, w.ug, w.tree):
        if g.num_vertices() < 5:
            G.add_edge(min(g.vertices()), G.add_vertex(g), g)
        else:
            G.remove_vertex(max(g.vertices()), g)


@update
def free_transitions(w):
    free_link(A, w.d1, max(w.d1.vertices()), 0, "b") if w.d1.delta(max(w.d1.vertices()), "b") in (None, 0) else None
    free_link(A, w.d2, 1, 0, "c")
    free_link(A, w.nfa, 2, 2, "b")
    free_link(NA, w.node, 1, 0) if w.node.delta(1, "^") in (None, 0) else None
    q = 1 if flip(w, "free") else 0
    A.set_initial(q, w.d2)
    A.set_final(1, w.nfa, q == 1)


@update
def all_transitions_d1(w):
    """Makes the automaton complete, or no longer so."""
    missing = [(q, a) for q in sorted(w.d1.vertices()) for a in sorted(w.d1.alphabet()) if w.d1.delta(q, a) is None]
    for q, a in missing:
        w.d1.add_edge(q, q, a)
    if not missing:
        w.d1.remove_edge(min(w.d1.edges(), key=key))


def spoil(results):
    """The caller uses what it received as it likes, through the public operations of these objects."""
    for x in results:
        if x is None:
            continue
        if isinstance(x, (set, list, deque)):
            add = x.add if isinstance(x, set) else x.append
            for v in (0, 1, 97, "zz", "a"):
                add(v)
            if not isinstance(x, set):
                x[0] = "changed"
            else:
                x.discard(0)
        elif isinstance(x, dict):
            x["zz"] = 1
            for k in list(x):
                x[k] = {"changed"}
        elif isinstance(x, Heap):
            x.push(-5)
            x.pop()
            x.push(5)
        elif isinstance(x, DirectedGraph) or isinstance(x, UndirectedGraph):
            spoil_graph(x)


def spoil_graph(g):
    vs = sorted(g.vertices())
    if isinstance(g, BKTree):
        g.insert("spoiled")
        return
    if isinstance(g, NodeAutomaton):
        q, r = g.add_vertex("z"), g.add_vertex("y")
        g.add_edge(q, r)
        if vs:
            g.add_edge(vs[0], r)
    elif hasattr(g, "pmap_vsymbol"):
        g.add_edge(g.add_vertex("z"), g.add_vertex("y"))
    else:
        q, r = g.add_vertex(), g.add_vertex()
        more = ("z",) if isinstance(g, (Automaton, Nfa)) else ()
        g.add_edge(q, r, *more)
        if vs:
            g.add_edge(vs[0], q, *more)
    if isinstance(g, (Automaton, Nfa)):
        try:
            g.set_final(r if not isinstance(g, NodeAutomaton) else q)
            for u in vs[:1]:
                g.set_final(u, not g.is_final(u))
        except RuntimeError:     # a map that only reads
            pass
        g.set_initial(q)
    for e in list(g.edges())[:1]:
        g.remove_edge(e)
    if len(vs) > 1:
        g.remove_vertex(vs[-1])


NO_TICK = lambda: None
# operations that offer callbacks to their caller
REENTRANT = [n for n in OPS]
