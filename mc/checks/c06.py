from mc.bfs_check import install
from mc.core import require
from mc.sys_nfa import EPSILON, Nfa, NfaSystem
ID, LEVEL = "C06", "model_checking"
RULE = ("breadth-first search over histories of add_vertex/add_edge/remove_edge/remove_vertex/set_initial(s)/set_final/clear on "
        "Nfa (epsilon transitions and cycles included) against a set of transitions; every observer, epsilon closure, delta and "
        "acceptance of every word of length <= 3 is compared in every state. A case is non-trivial when it reaches a new state.")
ASSUMPTIONS = ["the transitions form a set: adding one twice counts once (as the unit tests require)",
               "words do not contain the epsilon symbol", "the flags of a removed state are left unspecified"]
BOUND = {"quick": "chains and cycles of 1500 (epsilon) transitions, stars of 1500 states, 750 symbols; larger starting automata (epsilon chain of 10, complete on 4 states, 10 symbols, branches of 9) followed by 1-2 operations; histories <= 4-5, <= 3 states, <= 2 symbols + epsilon; hubs removed, 1499 initial states", "thorough": "same larger automata; histories <= 5-6"}


def shards(tier):
    d = 0 if tier == "quick" else 1
    out = [(c, dep + d) for c, dep in [
        # num, offset, initials, symbols, epsilon, max vertices, max edges, own property map, kinds
        ((2, 0, None, "a", None, 2, 8, False, "ed"), 5),
        ((3, 0, None, "a", None, 3, 6, False, "e"), 3),
        ((3, 0, (0,), "a", "#", 3, 3, True, "ef"), 3),
        ((1, 0, None, "ab", None, 3, 3, False, "vedx"), 4),
        ((1, 0, (), "a", None, 2, 2, False, "veif"), 4),
        ((2, 0, (0, 1), "a", "", 2, 3, True, "eif"), 4),
        ((0, 0, None, "a", None, 2, 2, False, "vedxfc"), 5),
        ((1, 0, None, "a", None, 2, 2, False, "vfcei"), 5),
        ((2, 300, (300,), "a", None, 2, 2, False, "edif"), 3),
        ((2, 1, (1,), ("", 0), None, 2, 3, False, "ed"), 3),
        ((2, 0, (1,), ("ab", "é"), "eps", 2, 4, False, "ed"), 3),
    ]]
    for n in (50, 1500):
        for eps in (None, "", "#"):
            out += [(("large", (kind, n, eps)), 0) for kind in ("chain", "cycle", "symbols", "star", "ladder")]
    eps = EPSILON
    edge, final = (lambda q, r, a: ("add_edge", q, r, a)), (lambda q: ("set_final", q, True))
    for ops, args, dep in [
        # more states, symbols and transitions to start from
        ([edge(q, q + 1, eps) for q in range(9)] + [edge(9, 0, "a"), final(5)], (10, 0, None, "a", None, 11, 11, False, "vedxif"), 1),
        ([edge(q, r, a) for q in range(4) for r in range(4) for a in ("a", eps)] + [final(3)], (4, 0, None, "a", None, 4, 32, False, "dxif"), 2),
        ([edge(q, r, a) for q in range(3) for r in range(3) for a in ("a", "b")] + [final(1)], (3, 0, (0, 2), "ab", None, 3, 19, True, "edxif"), 1 + d),
        ([edge(0, r, "a") for r in range(1, 10)] + [edge(r, 10, eps if r % 2 else "b") for r in range(1, 10)] + [final(10)], (11, 0, None, "ab", None, 11, 18, False, "dxif"), 1),
        ([edge(0, i, a) for i, a in enumerate("abcdefghij")] + [edge(i, 0, eps) for i in range(1, 10)] + [final(9)], (10, 0, None, "abcdefghij", None, 10, 19, False, "dx"), 1),
    ]:
        out.append((("from", tuple(ops), args), dep))
    return out


def large(args, st):
    """Long chains and cycles of (epsilon) transitions, large stars."""
    kind, n, eps = args
    kw = {} if eps is None else {"epsilon": eps}
    eps = EPSILON if eps is None else eps
    g = Nfa(n, **kw)
    if kind in ("chain", "cycle"):
        for q in range(n - 1):
            g.add_edge(q, q + 1, eps)
        if kind == "cycle":
            g.add_edge(n - 1, 0, eps)
        else:
            g.add_edge(n - 1, 0, "a")
        g.set_final(n - 1)
        for q in (0, n // 2, n - 1):
            want = set(range(q, n)) if kind == "chain" else set(range(n))
            require(set(g.delta_epsilon({q})) == want, "delta_epsilon({%s}) of a %s of %s epsilon transitions", q, kind, n)
            require(set(g.delta(q, "a")) == (set(range(n)) if kind == "chain" else set()), "delta(%s, 'a') of a %s of %s epsilon transitions", q, kind, n)
            require(set(g.sigma(q)) == ({"a"} if kind == "chain" else set()), "sigma(%s) of a %s of %s epsilon transitions", q, kind, n)
        require(set(g.delta_word("")) == set(range(n)), "delta_word('') of a %s of %s epsilon transitions", kind, n)
        require(bool(g.accepts("")) and (kind == "cycle" or n > 100 or bool(g.accepts("aa"))), "acceptance of a %s of %s epsilon transitions", kind, n)
        require(not g.accepts("b"), "a %s of %s epsilon transitions accepts b", kind, n)
        # cut it in the middle
        e, found = g.edge(n // 2, n // 2 + 1)
        require(found, "edge(%s, %s) not found", n // 2, n // 2 + 1)
        g.remove_edge(e)
        require(set(g.delta_epsilon({0})) == set(range(n // 2 + 1)) and not g.accepts(""), "a %s of %s epsilon transitions, once cut", kind, n)
    elif kind == "symbols":
        for q in range(n - 1):
            g.add_edge(q, q + 1, "ab"[q % 2])
        g.set_final(n - 1)
        w = "".join("ab"[q % 2] for q in range(n - 1))
        require(set(g.delta_word(w)) == {n - 1} and bool(g.accepts(w)), "a word of %s symbols", n - 1)
        require(not g.accepts(w[:-1]) and not g.accepts(w + "a") and set(g.delta_word(w[:-1])) == {n - 2}, "prefix of a word of %s symbols", n - 1)
        require(set(g.alphabet()) == {"a", "b"} and g.num_edges() == n - 1, "alphabet or num_edges of a chain of %s symbols", n)
    elif kind == "star":
        for q in range(1, n):
            g.add_edge(0, q, "a" if q % 2 else eps)
            g.add_edge(q, 0, "b")
        g.set_final(n - 1)
        even, odd = {q for q in range(n) if q % 2 == 0}, {q for q in range(n) if q % 2}
        require(set(g.delta_epsilon({0})) == even and set(g.delta(0, "a")) == odd and set(g.delta(0, "b")) == even, "the successors of the center of a star of %s states", n)
        require(g.out_degree(0) == n - 1 and g.num_edges() == 2 * (n - 1) and set(g.sigma(0)) == {"a", "b"}, "degree of the center of a star of %s states", n)
        require(set(g.delta_one_step(odd, "b")) == {0} and set(g.delta_word("ab")) == even, "a star of %s states", n)
        g.set_initials(range(1, n))
        require({q for q in g.vertices() if g.is_initial(q)} == set(range(1, n)) and set(g.delta_word("b")) == even, "%s initial states", n - 1)
        for q in range(n):
            g.set_final(q, q in odd)
        require(set(g.finals()) == odd and not g.accepts("b") and bool(g.accepts("ba")), "%s final states", len(odd))
        g.add_edge(3, 4, "c")
        g.remove_vertex(0)
        require(set(g.vertices()) == set(range(1, n)) and [(e.source, e.target) for e in g.edges()] == [(3, 4)] and g.num_edges() == 1, "a star of %s states, without its center", n)
        require(set(g.alphabet()) == {"c"} and set(g.delta_word("c")) == {4} and bool(g.accepts("")) and not g.accepts("b"), "a star of %s states, without its center", n)
        for q in range(1, n, 2):
            g.remove_vertex(q)
        require(set(g.vertices()) == even - {0} and {q for q in g.vertices() if g.is_initial(q)} == even - {0} and not set(g.finals()) and g.num_edges() == 0, "a star of %s states, without half of them", n)
    else:
        # chr(i): 0 -> 2i+1, and an epsilon transition from 2i+1 to 2i+2
        m = (n - 1) // 2
        for i in range(m):
            g.add_edge(0, 2 * i + 1, chr(200 + i) if chr(200 + i) != EPSILON else "EPS")
            g.add_edge(2 * i + 1, 2 * i + 2, eps)
        g.set_final(2 * m)
        require(len(g.alphabet()) == m == len(g.sigma(0)), "alphabet of %s symbols", m)
        require(sorted((e.source, e.target) for e in g.out_edges(0)) == [(0, 2 * i + 1) for i in range(m)] and g.out_degree(0) == m and g.num_edges() == 2 * m, "out_edges among %s symbols", m)
        for i in range(m):
            a = chr(200 + i) if chr(200 + i) != EPSILON else "EPS"
            require(set(g.delta(0, a)) == {2 * i + 1, 2 * i + 2} and bool(g.accepts([a])) == (i == m - 1), "symbol %r among %s symbols", a, m)


install(globals(), lambda c: NfaSystem(*c), large)
