import contextlib
import io
from pybgl.automaton import accepts_debug
from mc.bfs_check import install
from mc.core import require
from mc.sys_automaton import AutomatonSystem, EdgeDescriptor
ID, LEVEL = "C04", "model_checking"
RULE = ("breadth-first search over histories of add_vertex/add_edge/remove_edge/remove_vertex/set_initial/set_final/"
        "automaton_insert_string/clear on Automaton and IncidenceAutomaton against a dictionary delta:(state, symbol) -> state; "
        "every observer and acceptance of every word of length <= 3 is compared in every state. A case is non-trivial when it "
        "reaches a state not seen before.")
ASSUMPTIONS = ["the initial state after removing it or after clear(), and the flags of a removed state, are left unspecified",
               "removal of an absent transition is left unspecified; iteration order is not compared"]
BOUND = {"quick": "words of 1500 symbols, automata of 1500 states, 1500 symbols, 6000 transitions; larger starting automata (30 transitions over 10 symbols, chain of 12, star of 10 symbols, 7 states) followed by 1-2 operations; histories <= 4-5, <= 3 states, <= 2 symbols; hubs removed, completeness of 1500 states", "thorough": "same larger automata; histories <= 5-7, <= 4 states, <= 3 symbols"}


def shards(tier):
    d = 0 if tier == "quick" else 1
    out = []
    for cls in ("Automaton", "IncidenceAutomaton"):
        for c, dep in [
            # num, offset, q0, symbols, max vertices, max edges, own property maps, operation kinds
            ((cls, 2, 0, None, ("a",), 3, 4, False, "vedx"), 5),
            ((cls, 2, 0, 1, ("a", "b"), 2, 4, True, "ed"), 5),
            ((cls, 0, 0, None, ("a",), 2, 3, False, "vedxifc"), 5),
            ((cls, 2, 0, None, ("a",), 2, 3, False, "eif"), 5),
            ((cls, 1, 0, None, ("a", "b"), 5, 8, False, "wedx"), 3),
            ((cls, 1, 0, None, ("a",), 4, 8, True, "wevf"), 4),
            ((cls, 2, 300, 300, ("a",), 3, 3, False, "vedxif"), 3),
            ((cls, 2, 0, None, ("", 0), 2, 4, False, "ed"), 4),
            ((cls, 3, 0, 2, ("ab", "é"), 3, 3, False, "ed"), 3),
            ((cls, 2, 1, 1, ("a",), 3, 3, False, "vedxif"), 4),
            ((cls, 0, 0, None, ("a",), 3, 9, False, "vfc"), 6),
            ((cls, 2, 0, None, ("a",), 3, 3, "func", "vedxi"), 4),
            ((cls, 0, 0, None, ("a", "b"), 7, 9, False, "wcf"), 3),
            ((cls, 1, 0, None, ("a",), 7, 9, False, "wcivx"), 4),
            ((cls, 2, 0, None, ("a",), 3, 1, True, "vexf"), 5),
        ]:
            out.append((c, dep + d))
        edge, final = (lambda q, r, a: ("add_edge", q, r, a)), (lambda q: ("set_final", q, True))
        abc = "abcdefghij"
        for ops, args, dep in [
            # more symbols, states and transitions to start from
            ([edge(q, (q + i) % 3, a) for q in range(3) for i, a in enumerate(abc)] + [final(1)], (3, 0, None, tuple(abc), 3, 31, False, "edxif"), 1),
            ([edge(q, q + 1, "a") for q in range(11)] + [final(q) for q in range(12)], (12, 0, None, ("a",), 13, 12, False, "vwedxif"), 1),
            ([edge(0, i + 1, a) for i, a in enumerate(abc)] + [final(q) for q in range(11)] + [edge(7, 0, "a")], (11, 0, 0, tuple(abc), 11, 12, True, "dxif"), 1),
            ([edge(q, r, "abc"[(q + r) % 3]) for q in range(3) for r in range(3)] + [final(2)], (3, 0, 1, tuple("abc"), 4, 12, False, "vedx"), 2),
            ([edge(q, (q * 2 + i) % 7, a) for q in range(7) for i, a in enumerate("ab")] + [final(q) for q in (1, 2, 4)], (7, 0, None, ("a", "b"), 8, 14, False, "vedxif"), 1 + d),
        ]:
            out.append((("from", tuple(ops), (cls,) + args), dep))
        for kind in ("chain", "symbols", "star", "dense"):
            out.append((("large", (cls, kind, 1500)), 0))
    return out


def large(args, st):
    """Words of 1500 symbols, 1500 symbols, 1500 in-transitions."""
    cls, kind, n = args
    g = AutomatonSystem.CLASSES[cls](num_vertices=n if kind != "chain" else 1)
    if kind == "chain":
        w = "".join("ab"[i % 3 == 0] for i in range(n))
        q = g.automaton_insert_string(w)
        require(g.num_vertices() == n + 1 and g.num_edges() == n and q == g.delta_word(g.initial(), w), "inserting a word of %s symbols", n)
        require(g.accepts(w) and not g.accepts(w[:-1]) and not g.accepts(w + "a") and set(g.finals()) == {q}, "acceptance of a word of %s symbols", n)
        v = w[:n // 2] + "c" + w[n // 2:]
        require(g.delta_best_effort(v) == (g.delta_word(g.initial(), w[:n // 2]), n // 2), "delta_best_effort of a word of %s symbols", n)
        g.automaton_insert_string(v)
        require(g.accepts(v) and g.accepts(w) and g.num_vertices() == n + 1 + (n - n // 2) + 1 and set(g.alphabet()) == set("abc"), "inserting a second word of %s symbols", n)
        with contextlib.redirect_stdout(io.StringIO()):
            require(accepts_debug(w, g) and not accepts_debug(w[:-1], g) and not accepts_debug(w + "a", g) and not accepts_debug("c" + w, g), "accepts_debug of a word of %s symbols", n)
        p = g.delta_word(g.initial(), w[:10])
        g.remove_vertex(p)
        require(not g.accepts(w) and not g.accepts(v) and p not in g.vertices() and g.delta_word(g.initial(), w[:10]) is None, "removing a state of a word of %s symbols", n)
        return
    model = {}
    if kind == "symbols":
        for i in range(1, n):
            model[(0, chr(200 + i))] = i
            model[(i, chr(200 + i))] = i
    elif kind == "star":
        for i in range(1, n):
            model[(i, "a")] = 0
            model[(i, "b")] = i - 1
        model[(0, "c")] = n - 1
    else:
        for i in range(n):
            for k, a in enumerate("abcd"):
                model[(i, a)] = (i * (k + 2) + k) % n
    for (q, a), r in model.items():
        e, added = g.add_edge(q, r, a)
        require(added and g.add_edge(q, (r + 1) % n, a) == (None, False), "add_edge%s", (q, r, a))
    for i in range(0, n, 7):
        g.set_final(i)
    there = set(range(n))
    for turn in range(3):
        got = [(g.source(e), g.label(e), g.target(e)) for e in g.edges()]
        require(sorted(got) == sorted((q, a, r) for (q, a), r in model.items()), "edges() among %s", len(model))
        require(g.num_edges() == len(model) and set(g.vertices()) == there and g.num_vertices() == len(there) and set(g.alphabet()) == {a for q, a in model}, "num_edges, num_vertices or alphabet")
        outs, ins = {}, {}
        for (q, a), r in model.items():
            outs.setdefault(q, []).append((q, a, r))
            ins.setdefault(r, []).append((q, a, r))
        for q in sorted(there):
            require(sorted((g.source(e), g.label(e), g.target(e)) for e in g.out_edges(q)) == sorted(outs.get(q, [])) and set(g.sigma(q)) == {a for _, a, _ in outs.get(q, [])}
                    and g.out_degree(q) == len(outs.get(q, [])), "out_edges(%s), sigma(%s) or out_degree(%s)", q, q, q)
            if cls.startswith("Incidence"):
                require(sorted((g.source(e), g.label(e), g.target(e)) for e in g.in_edges(q)) == sorted(ins.get(q, [])) and g.in_degree(q) == len(ins.get(q, [])), "in_edges(%s) or in_degree(%s)", q, q)
            require(g.is_final(q) == (q % 7 == 0), "is_final(%s)", q)
            for a in "abcd":
                require(g.delta(q, a) == model.get((q, a)), "delta(%s, %r)", q, a)
        require(bool(g.is_complete()) == (kind == "dense" and turn == 0), "is_complete() of %s states", n)
        if kind == "dense" and turn == 0:
            for q in (n - 1, n // 2):
                g.remove_edge(EdgeDescriptor(q, model[(q, "d")], "d"))
                require(not g.is_complete(), "is_complete() of %s states, without one transition of %s", n, q)
                g.add_edge(q, model[(q, "d")], "d")
        # remove the hub and other states, then every other transition, and check again
        if turn == 0:
            for q in (0, 5, n - 1):
                g.remove_vertex(q)
                there.discard(q)
                model = {(p, a): r for (p, a), r in model.items() if q not in (p, r)}
            continue
        for i, ((q, a), r) in enumerate(list(model.items())):
            if i % 2:
                g.remove_edge(EdgeDescriptor(q, r, a))
                del model[(q, a)]


install(globals(), lambda c: AutomatonSystem(*c), large)
