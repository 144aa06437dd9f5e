from collections import Counter, defaultdict
from itertools import product
from pybgl.automaton import Automaton
from pybgl.automaton_copy import automaton_copy
from pybgl.graph_copy import graph_copy
from pybgl.graph_extract import graph_extract
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from pybgl.node_automaton import NodeAutomaton
from mc.core import require
from mc import gen, trav
AUTOMATA = {"A": Automaton, "IA": IncidenceAutomaton, "NA": NodeAutomaton}
ID, LEVEL = "C15", "exploration"
RULE = ("graph_extract, graph_copy and automaton_copy from every source, with every vertex filter and every edge filter on every graph or "
        "automaton of the bounded space, into an empty and a non-empty target, with and without maps and callbacks. What is extracted "
        "is compared with the edges met on relevant paths, and the copy must be isomorphic to it. A case is non-trivial when at least one "
        "edge is extracted and another one is not.")
ASSUMPTIONS = ["the source is relevant; filters are pure functions", "in an undirected graph, the filters do not depend on the orientation of an edge",
               "initial and final states are not copied by automaton_copy"]
BOUND = {"quick": "n <= 3 with <= 4 edges (every filter), insertion orders and parallel edges on n = 2, unfiltered n = 4, families up to n = 9 and n = 1500; automata (Automaton, IncidenceAutomaton, NodeAutomaton) n <= 2 x 2 symbols, n = 3 with <= 3 transitions; hubs and bundles of 400",
         "thorough": "n = 3 with every edge set, n = 4 with <= 4 edges (every filter), automata n = 3 with <= 4 transitions"}


def shards(tier):
    out = [(tier, p) for p in ["multi2", "seqs3", "undirected", "offset", "view", "families", "large"]]
    out += [(tier, "all4_%d" % i) for i in range(4)] + [(tier, "filter3_%d" % i) for i in range(8)]
    out += [(tier, "aut2"), (tier, "aut1")] + [(tier, "aut3_%d" % i) for i in range(8)]
    if tier != "quick":
        out += [(tier, "filter4_%d" % i) for i in range(8)]
    return out


def cases(shard):
    tier, part = shard
    base, _, idx = part.partition("_")
    idx = int(idx or 0)
    if base == "all4":
        for g in trav.graph_space("quick", "sets4%d" % idx):
            yield g + (0, None, None, 0)
    elif base == "filter3":
        for i, es in enumerate(gen.edge_sets(3, 4 if tier == "quick" else None)):
            if i % 8 == idx and (tier == "quick" or len(es) <= 6):
                for vm in (7, 3, 5, 1):
                    for em in range(1 << len(es)):
                        yield ("D", 3, es, 0, "", 0, vm, em, i % 3)
    elif base == "filter4":
        for i, es in enumerate(gen.edge_sets(4, 4, loops=False)):
            if i % 8 == idx and gen.canonical(4, es, fixed=(0,)):
                for vm in (15, 7, 11, 13, 5):
                    for em in range(1 << len(es)):
                        yield ("D", 4, es, 0, "", 0, vm, em, i % 3)
    elif base.startswith("aut"):
        n = int(base[3:])
        syms = ("a", "b") if n < 3 else ("a", "b")
        arcs = [(q, a) for q in range(n) for a in syms]
        for i, targets in enumerate(product([None] + list(range(n)), repeat=len(arcs))):
            ts = tuple((q, r, a) for (q, a), r in zip(arcs, targets) if r is not None)
            if i % 8 == idx or n < 3:
                if n == 3 and len(ts) > (3 if tier == "quick" else 4):
                    continue
                for kind in ("A", "IA", "NA"):
                    if n == 3 and kind != "A" and len(ts) > 2 or kind == "NA" and len({(r, a) for (q, r, a) in ts}) > len({r for (q, r, a) in ts}):
                        continue
                    for vm in [(1 << n) - 1] + ([1, 5] if n == 3 else [1] if n == 2 else []):
                        for em in range(1 << len(ts)):
                            yield (kind, n, ts, 0, "", 0, vm, em, i % 3)
    else:
        for g in trav.graph_space(tier, part):
            n, m = g[1], len(g[2])
            for s in range(n) if n < 4 else (0, n - 1):
                yield g + (s, None, None, len(g[2]) % 3)
                if m and n < 4:
                    for em in range(1 << m) if m <= 4 else (1, (1 << m) - 2):
                        yield g + (s, None, em, em % 3)
                    for vm in range(1 << n):
                        if vm >> s & 1:
                            yield g + (s, vm, None, vm % 3)


def build(case):
    kind, n, edges, off = case[:4]
    if kind in AUTOMATA:
        g = AUTOMATA[kind](0)
        symbol = {r: a for (q, r, a) in edges}      # NA: the symbols are on the states
        vs = [g.add_vertex(*[symbol.get(q)] * (kind == "NA")) for q in range(n)]
        out = {u: [] for u in vs}
        for (q, r, a) in edges:
            g.add_edge(q, r, *[a] * (kind != "NA"))
            out[q].append((q, r, a))
        g.set_initial(0)
        return g, vs, out
    return trav.build(case)


def check(case, st):
    kind, n, edges, off, wrap, s, vm, em, variant = case
    aut = kind in AUTOMATA
    g, vs, out = build(case)
    key = (lambda g, e: (g.source(e), g.target(e), g.label(e))) if aut else trav.key
    canon = (lambda k: (min(k[:2]), max(k[:2]), k[2])) if kind == "U" else (lambda k: k)
    keys = sorted({canon(k) for u in vs for k in out[u]})
    rv = set(vs) if vm is None else {u for i, u in enumerate(vs) if vm >> i & 1}
    re = set(keys) if em is None else {k for i, k in enumerate(keys) if em >> i & 1}
    s = vs[s]
    before = (sorted(g.vertices()), sorted(key(g, e) for e in g.edges()))
    # specification
    rel = {u: [k for k in out[u] if canon(k) in re and k[1] in rv] for u in vs}
    seen, todo = {s}, [s]
    while todo:
        for k in rel[todo.pop()]:
            if k[1] not in seen:
                seen.add(k[1])
                todo.append(k[1])
    want = {canon(k) for u in seen for k in rel[u]}
    if want and len(want) < len(keys):
        st.interesting()
    st.outcome((len(seen), len(want)))
    filters = {}
    if vm is not None:
        filters["pmap_vrelevant"] = make_func_property_map(lambda u: u in rv)
    if em is not None:
        filters["pmap_erelevant"] = make_func_property_map(lambda e: canon(key(g, e)) in re)
    # graph_extract
    gotv, gote = [], []
    graph_extract(s, g, callback_vertex_extract=lambda u, h: gotv.append((u, h is g)),
                  callback_edge_extract=lambda e, h: gote.append((canon(key(h, e)), h is g)), **filters)
    require(sorted(gotv) == [(u, True) for u in sorted(seen)], "vertices extracted %s, expected %s", gotv[:50], sorted(seen)[:50])
    require(sorted(gote) == [(k, True) for k in sorted(want)], "edges extracted %s, expected %s", gote[:50], sorted(want)[:50])
    graph_extract(s, g, **filters)
    # copies
    cls = Automaton if kind == "NA" else type(g) if wrap == "" else gen.GRAPHS[kind]
    copy = automaton_copy if aut else graph_copy
    target = cls(0)
    old = []
    if variant == 1:
        old = [target.add_vertex() for _ in range(4)]
        target.remove_vertex(old.pop(0))
        target.remove_vertex(old.pop(1))
        if aut:
            target.add_edge(old[0], old[1], "z")
        else:
            target.add_edge(old[0], old[1])
    mv, me, cbv, cbe = defaultdict(), defaultdict(), [], []
    copy(s, g, target, pmap_vertices=make_assoc_property_map(mv), pmap_edges=make_assoc_property_map(me),
         callback_dup_vertex=lambda *a: cbv.append(a), callback_dup_edge=lambda *a: cbe.append(a), **filters)
    require(set(mv) == seen, "vertices copied %s, expected %s", sorted(mv)[:50], sorted(seen)[:50])
    require(len(set(mv.values())) == len(mv) and not set(mv.values()) & set(old) and
            sorted(target.vertices()) == sorted(list(mv.values()) + old), "vertices of the copy %s, map %s", sorted(target.vertices())[:50], dict(mv))
    require(sorted((u, h is g, d, t is target) for (u, h, d, t) in cbv) == sorted((u, True, d, True) for u, d in mv.items()),
            "calls to callback_dup_vertex %s", [(a[0], a[2]) for a in cbv][:50])
    tkeys = sorted(canon(key(target, e)) for e in target.edges())
    ends = lambda t, e: canon((t.source(e), t.target(e), t.label(e) if aut else 0))
    expect = Counter(canon((mv[a], mv[b], c if aut else 0)) for (a, b, c) in want)
    if old:
        expect[canon((old[0], old[1], "z" if aut else 0))] += 1
    require(Counter(ends(target, e) for e in target.edges()) == expect, "edges of the copy %s, expected %s", tkeys[:50], sorted(expect)[:50])
    got = {}
    for e, d in me.items():
        require(canon(key(g, e)) not in got, "edge %s was copied twice", e)
        got[canon(key(g, e))] = canon(key(target, d))
        a, b, c = key(g, e)
        require(ends(target, d) == canon((mv[a], mv[b], c if aut else 0)), "edge %s is mapped to %s", e, d)
    require(set(got) == want and len(set(got.values())) == len(got) and set(got.values()) <= set(tkeys),
            "edge map %s, expected the keys %s", got, sorted(want)[:50])
    require(Counter((canon(key(g, e)), canon(key(target, d)), h is g, t is target) for (e, h, d, t) in cbe) ==
            Counter((k, d, True, True) for k, d in got.items()), "calls to callback_dup_edge %s", [(a[0], a[2]) for a in cbe][:50])
    # defaults, and only some arguments
    plain = cls(0)
    if variant == 2:
        mv2 = defaultdict(lambda: None)
        copy(s, g, plain, pmap_vertices=make_assoc_property_map(mv2), **filters)
        require({u for u in mv2 if mv2[u] is not None} == seen, "vertices copied %s, expected %s", dict(mv2), sorted(seen))
        # with the maps of a previous copy
        again = cls(0)
        mv2.update({u: len(vs) - i for i, u in enumerate(vs)})
        me2 = defaultdict(lambda: None, me)
        copy(s, g, again, pmap_vertices=make_assoc_property_map(mv2), pmap_edges=make_assoc_property_map(me2), **filters)
        require(sorted(mv2[u] for u in seen) == sorted(again.vertices()) and all(mv2[u] == len(vs) - i for i, u in enumerate(vs) if u not in seen),
                "with the maps of a previous copy, vertices %s are mapped by %s", sorted(again.vertices())[:50], dict(mv2))
        require(sorted(canon(key(again, d)) for d in me2.values()) == sorted(canon(key(again, e)) for e in again.edges()) and
                Counter(ends(again, e) for e in again.edges()) == Counter(canon((mv2[a], mv2[b], c if aut else 0)) for (a, b, c) in want),
                "with the maps of a previous copy, edges %s", [canon(key(again, e)) for e in again.edges()][:50])
    else:
        copy(s, g, plain, **filters)
    require(plain.num_vertices() == len(seen) and plain.num_edges() == len(want),
            "without maps, %s vertices and %s edges are copied instead of %s and %s", plain.num_vertices(), plain.num_edges(), len(seen), len(want))
    require((sorted(g.vertices()), sorted(key(g, e) for e in g.edges())) == before, "the copied graph was modified")
