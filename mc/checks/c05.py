from mc.bfs_check import install
from mc.core import require
from mc.sys_automaton import AutomatonSystem
ID, LEVEL = "C05", "model_checking"
RULE = ("breadth-first search over histories of add_vertex(symbol)/add_edge/remove_edge/remove_vertex/set_initial/set_final/clear "
        "on NodeAutomaton and IncidenceNodeAutomaton against a dictionary (state, symbol of target) -> target; every observer and "
        "acceptance of every word of length <= 3 is compared in every state. A case is non-trivial when it reaches a new state.")
ASSUMPTIONS = ["the initial state after removing it or after clear(), and the flags of a removed state, are left unspecified",
               "alphabet() must contain every symbol carried by a transition and only symbols of states",
               "symbols of states are given when the state is added and not changed afterwards"]
BOUND = {"quick": "words of 1500 symbols, automata of 1500 states, 1500 symbols, 6000 transitions; larger starting automata (6 states and 18 transitions, chain of 12, star of 10 symbols) followed by 1-2 operations; histories <= 4-5, <= 4 states, <= 2 symbols; hubs removed", "thorough": "same larger automata; histories <= 5-6, <= 4 states, <= 2 symbols"}


def shards(tier):
    d = 0 if tier == "quick" else 1
    out = []
    for cls in ("NodeAutomaton", "IncidenceNodeAutomaton"):
        for c, dep in [
            ((cls, 0, 0, None, ("a", "b"), 3, 4, False, "vedx"), 5),
            ((cls, 0, 0, 1, ("a",), 3, 4, True, "vedx"), 6),
            ((cls, 0, 0, None, ("a", "b"), 2, 9, False, "nvedxifc"), 4),
            ((cls, 2, 0, 1, ("a", "b"), 4, 9, True, "ve"), 4),
            ((cls, 0, 0, None, ("a",), 2, 9, True, "veif"), 5),
            ((cls, 0, 300, 300, ("a", "b"), 2, 9, False, "vedx"), 4),
            ((cls, 0, 0, None, ("", 0), 2, 9, False, "ved"), 4),
            ((cls, 0, 1, 1, ("a", "b"), 3, 9, False, "vedx"), 4),
            ((cls, 0, 0, None, ("a",), 2, 9, False, "nvfc"), 6),
        ]:
            out.append((c, dep + d))
        abc = "abcdefghij"
        vertex, edge, final = (lambda a: ("add_vertex", a)), (lambda q, r: ("add_edge", q, r)), (lambda q: ("set_final", q, True))
        for ops, args, dep in [
            # more states and symbols to start from
            ([vertex(a) for a in "^aabbc"] + [edge(q, r) for q in range(6) for r in (1 + q % 2, 3 + q % 2, 5)] + [final(5), final(1)], (tuple("abc"), 7, 30, False, "vedxif"), 1 + d),
            ([vertex("a") for _ in range(12)] + [edge(q, q + 1) for q in range(11)] + [final(q) for q in range(12)], (("a",), 13, 12, True, "vedxif"), 1),
            ([vertex(a) for a in "^" + abc] + [edge(0, r) for r in range(1, 11)] + [final(q) for q in range(11)] + [edge(7, 1)], (tuple(abc), 11, 12, False, "dxif"), 1),
            ([vertex(a) for a in "abc"] + [edge(q, r) for q in range(3) for r in range(3)], (tuple("abc"), 4, 12, False, "vedx"), 2),
        ]:
            out.append((("from", tuple(ops), (cls, 0, 0, None) + args), dep))
        for kind in ("chain", "symbols", "instar", "dense"):
            out.append((("large", (cls, kind, 1500)), 0))
    return out


def large(args, st):
    """Words of 1500 symbols, 1500 symbols, 6000 transitions."""
    cls, kind, n = args
    g = AutomatonSystem.CLASSES[cls](num_vertices=0)
    symbol = {q: "ab"[q % 3 == 0] if kind == "chain" else chr(200 + q) if kind == "symbols" else "abcd"[q % 4] for q in range(n)}
    for q in range(n):
        require(g.add_vertex(symbol[q]) == q or True, "add_vertex")
    require(sorted(g.vertices()) == list(range(n)), "vertices() of %s states", n)
    model = {}
    pairs = [(q, q + 1) for q in range(n - 1)] if kind == "chain" else [(q, r) for q in range(n) for r in (0, 5, 2 + q % 2)] if kind == "instar" else [(0, q) for q in range(1, n)] + [(q, q) for q in range(1, n)] if kind == "symbols" else \
        [(q, (q * (k + 2) + k) % n) for q in range(n) for k in range(4)]
    for q, r in pairs:
        e, added = g.add_edge(q, r)
        require(bool(added) == ((q, symbol[r]) not in model), "add_edge%s = %s", (q, r), (e, added))
        if added:
            model[(q, symbol[r])] = r
    for q in range(0, n, 7):
        g.set_final(q)
    there = set(range(n))
    for turn in range(3):
        require(set(g.vertices()) == there, "the states are %s", len(there))
        require(sorted((g.source(e), g.label(e), g.target(e)) for e in g.edges()) == sorted((q, a, r) for (q, a), r in model.items()) and g.num_edges() == len(model), "edges() among %s", len(model))
        require(set(g.alphabet()) == {symbol[q] for q in there if q != g.initial()} | {a for q, a in model}, "alphabet() of %s states", n)
        outs, ins = {}, {}
        for (q, a), r in model.items():
            outs.setdefault(q, []).append(r)
            ins.setdefault(r, []).append(q)
        for q in sorted(there):
            require(g.symbol(q) == symbol[q] and g.is_final(q) == (q % 7 == 0), "symbol(%s) or is_final(%s)", q, q)
            require(sorted(g.target(e) for e in g.out_edges(q)) == sorted(outs.get(q, [])) and set(g.sigma(q)) == {symbol[r] for r in outs.get(q, [])}, "out_edges(%s) or sigma(%s)", q, q)
            if cls.startswith("Incidence"):
                require(sorted(g.source(e) for e in g.in_edges(q)) == sorted(ins.get(q, [])) and g.in_degree(q) == len(ins.get(q, [])), "in_edges(%s) or in_degree(%s)", q, q)
            for a in ("a", "b", symbol[q]):
                require(g.delta(q, a) == model.get((q, a)), "delta(%s, %r)", q, a)
        if kind == "chain" and not turn:
            w = "".join(symbol[q] for q in range(1, n))
            last = 7 * ((n - 1) // 7)
            require(g.accepts(w[:last]) and not g.accepts(w[:last - 1]) and not g.accepts(w + "a") and g.delta_word(0, w) == n - 1, "acceptance of words of %s symbols", n)
        if turn == 0:
            for q in (0, 5, n - 1):
                g.remove_vertex(q)
                there.discard(q)
                model = {(p, a): r for (p, a), r in model.items() if q not in (p, r)}
            continue
        for i, ((q, a), r) in enumerate(list(model.items())):
            if i % 2:
                e, found = g.edge(q, r)
                require(found, "edge(%s, %s)", q, r)
                g.remove_edge(e)
                del model[(q, a)]


install(globals(), lambda c: AutomatonSystem(*c), large)
