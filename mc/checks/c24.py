from pybgl.prune_incidence_automaton import find_reachable_vertices, prune_incidence_automaton
from mc.core import require
from mc import lang
ID, LEVEL = "C24", "model_checking"
RULE = ("prune_incidence_automaton on every automaton of the bounded space; exactly the states on a path from the initial state to a final state remain, with "
        "every transition between them, and the language is compared exactly by exploring the product with the specification; find_reachable_vertices "
        "from every set of sources. A case is non-trivial when a state is removed and another one is kept.")
ASSUMPTIONS = ["the initial state is a state of the automaton, or there is none"]
BOUND = {"quick": "all automata with <= 3 states over {a} and <= 2 over {a,b} (every initial state), 3 states over {a,b} with every final set, 4 states over {a} with every final set and initial states 0 and 2, 4 states over {a,b} with <= 4 transitions, chains and rings up to 200 states, structured families up to 70 states or 40 symbols, chains and rings of 3000 states, symbols of several types; automata with <= 3 states whose symbols are on the states; trees of 511 states, stars of 120 symbols",
         "thorough": "4 states over {a,b} with <= 6 transitions"}


def shards(tier):
    out = [("n2",), ("families",), ("wide",), ("typed",), ("node",), ("deep",), ("broad",)] + [("n4a", i) for i in range(4)] + [("n3", i, tuple(range(8))) for i in range(8)]
    return out + [("n4", i, 4 if tier == "quick" else 6) for i in range(8)]


def cases(shard):
    from itertools import combinations, product
    if shard[0] == "n2":
        for n, syms in ((1, "ab"), (2, "a"), (2, "ab"), (3, "a")):
            for q0 in list(range(n)) + [None]:
                for d in lang.dfas(n, syms, q0):
                    for num in (0, 3):
                        yield (d, num)
    elif shard[0] == "n3":
        for i, delta in enumerate(product([None, 0, 1, 2], repeat=6)):
            if i % 8 == shard[1]:
                for f in shard[2]:
                    yield ((3, 0, delta, f, "ab"), i // 8 % 4)
    elif shard[0] == "n4a":
        for i, d in enumerate(lang.dfas(4, "a")):
            if i % 4 == shard[1]:
                yield (d, 0)
                yield (d[:1] + (2,) + d[2:], i // 4 % 4)
    elif shard[0] == "n4":
        for i, k in enumerate(c for k in range(shard[2] + 1) for c in combinations(range(8), k)):
            if i % 8 == shard[1]:
                for ts in product(range(4), repeat=len(k)):
                    delta = [None] * 8
                    for p, t in zip(k, ts):
                        delta[p] = t
                    for f in (8, 6, 1):
                        yield ((4, 0, tuple(delta), f, "ab"), 0)
    elif shard[0] == "typed":   # symbols of several types
        for t in lang.TYPED:
            for i, d in enumerate(d for d in lang.dfas(2, "ab") if d[3] == 2):
                yield (d[:4] + (t,), i % 4)
    elif shard[0] == "node":    # the symbols on the states
        for i, d in enumerate(lang.canonical(1, "ab") + lang.canonical(2, "ab") + lang.canonical(3, "ab")[::5] + lang.families()[:12]):
            d = lang.homogeneous(d)
            yield (d, i % 4, "M")
            yield (d[:1] + (d[0] // 2,) + d[2:], i // 4 % 4, "M")
            yield (d[:2] + (tuple(None if (p * 7 + i) % 5 < 2 else r for p, r in enumerate(d[2])),) + d[3:], i // 2 % 4, "M")
    elif shard[0] == "deep":
        for i, x in enumerate(lang.deep(3000)):
            for f in (x[3], 1, 1 << 1500, 6):
                for q0 in (0, 1400):
                    yield ((3000, q0, x[2], f, x[4]), i)
    elif shard[0] == "broad":
        for i, x in enumerate(list(lang.broad(511, 120)) + [lang.family(303, 2, lambda q, i: q + 1 if i == 0 and q < 302 else 302, lambda q: q == 301)]):
            n = x[0]
            for f in (x[3], 1, 1 << n - 1, 1 << n // 2 | 2):
                for q0 in (0, n // 2):
                    y = (n, q0, x[2], f, x[4])
                    yield (y, i % 4)
                    if n * len(x[4]) < 2000:
                        yield (lang.homogeneous(y), i % 4, "M")
    elif shard[0] == "wide":
        for i, x in enumerate(lang.families()):
            n = x[0]
            for j, f in enumerate((x[3], 1, 1 << n - 1, 1 << n // 2, int("0802" * 5, 16) & (1 << n) - 1)):
                for q0 in (0, n // 2, n - 1):
                    yield ((n, q0, x[2], f, x[4]), (i + j + q0) % 4)
                    yield ((n, q0, tuple(None if (p * 7 + f) % 5 < 2 else r for p, r in enumerate(x[2])), f, x[4]), j % 4)
    else:
        for n in (5, 30, 200):
            for f in (1, 1 << n - 1, 1 << n // 2, 6, 0):
                for q0 in (0, n // 3, n - 1):
                    for loop in (None, 0, n // 2):
                        yield ((n, q0, tuple(range(1, n)) + (loop,), f, "a"), 0)
                        yield ((n, q0, tuple(x for q in range(n) for x in (q + 1 if q + 1 < n else loop, q - 3 if q % 3 == 0 and q > 2 else None)), f, "ab"), 1)


def check(case, st):
    spec, num = case[:2]
    g, vs = lang.build(spec, *case[2:] or "I", num)
    n, q0, delta, finals, syms = spec
    k = len(syms)
    succ = [[r for r in delta[q * k:q * k + k] if r is not None] for q in range(n)]
    pred = [[p for p in range(n) if q in succ[p]] for q in range(n)] if n < 50 else None
    if pred is None:
        pred = [[] for _ in range(n)]
        for p in range(n):
            for r in succ[p]:
                pred[r].append(p)

    def reach(sources, nxt):
        seen, todo = set(sources), list(sources)
        while todo:
            for r in nxt[todo.pop()]:
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        return seen
    if n <= 3:
        for m in range(1 << n):
            got = find_reachable_vertices(g, {vs[q] for q in range(n) if m >> q & 1})
            require(got == {vs[q] for q in reach([q for q in range(n) if m >> q & 1], succ)}, "find_reachable_vertices from %s: %s", bin(m), got)
    useful = reach([] if q0 is None else [q0], succ) & reach([q for q in range(n) if finals >> q & 1], pred)
    prune_incidence_automaton(g)
    require(sorted(g.vertices()) == sorted(vs[q] for q in useful), "states left %s, expected %s", sorted(g.vertices()), sorted(vs[q] for q in useful))
    want = lang.order((vs[q], vs[delta[q * k + i]], a) for q in useful for i, a in enumerate(syms) if delta[q * k + i] in useful)
    require(lang.order((g.source(e), g.target(e), g.label(e)) for e in g.edges()) == want, "transitions left %s, expected %s", list(g.edges()), want)
    require(lang.order((g.source(e), g.target(e), g.label(e)) for q in g.vertices() for e in g.out_edges(q)) == want, "out_edges differ from edges")
    require(lang.order((g.source(e), g.target(e), g.label(e)) for q in g.vertices() for e in g.in_edges(q)) == want, "in_edges differ from edges")
    require(g.finals() == {vs[q] for q in useful if finals >> q & 1}, "final states %s", g.finals())
    require(q0 is None or not useful or g.initial() == vs[q0], "initial state %s, expected %s", g.initial(), q0)
    w, states = lang.difference(lang.real_machine(g), lang.spec_machine(spec), syms)
    require(w is None, "the word %r is treated wrongly", lang.show(w))
    st.states += states
    st.transitions += states * k
    st.traces += 1
    if 0 < len(useful) < n:
        st.interesting()
    st.outcome((n, len(useful)))
