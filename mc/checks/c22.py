from pybgl.hopcroft_minimize import hopcroft_minimize
from mc.core import require
from mc import lang
ID, LEVEL = "C22", "model_checking"
RULE = ("hopcroft_minimize on every deterministic automaton of the bounded space (partial or complete, with unreachable states, all/no states final); the "
        "language is compared exactly by exploring the whole product with the specification, and the number of states with the classes of the coarsest "
        "partition computed by Moore refinement. A case is non-trivial when two states are merged and two are not.")
ASSUMPTIONS = ["the initial state is a state of the automaton", "a missing transition and a transition to a dead state are not identified, unreachable states are kept"]
BOUND = {"quick": "all partial automata with <= 3 states over {a,b} (unreachable states included); up to renaming, complete 4 states over {a,b} with every final set, complete 5 states over {a,b}, partial 4 states over {a,b} and partial 3 states over {a,b,c} with two final sets; unary <= 10 states; structured families up to 140 states or 40 symbols, chains and rings of 1100 states, symbols of several types; automata with <= 3 states whose symbols are on the states; trees of 511 states, stars of 120 symbols, also with every state doubled",
         "thorough": "also complete 5 states with 5 final sets, partial 4 states with every final set, complete 4 states over 3 symbols, complete 6 states over {a,b} with one final state"}


def shards(tier):
    out = [("n2",), ("unary", 10), ("number",), ("long",), ("typed",), ("deep",)] + [("broad", i) for i in range(4)] + [("node", i) for i in range(4)] + [("wide", i) for i in range(4)] + [("n3raw", i) for i in range(16)]
    out += [("full", 4, 2, i, tuple(range(16))) for i in range(8)] + [("part", 4, 2, i, (1, 8)) for i in range(16)]
    out += [("full", 5, 2, i, (16, 2) if tier == "quick" else (16, 2, 1, 6, 21)) for i in range(16)] + [("part", 3, 3, i, (4, 3)) for i in range(4)]
    if tier != "quick":
        out += [("full", 4, 3, i, (8, 6)) for i in range(32)] + [("full", 6, 2, i, (32,)) for i in range(64)]
        out += [("part", 4, 2, i, tuple(range(16))) for i in range(16)]
    return out


def cases(shard):
    from itertools import product
    part = shard[0]
    if part == "n2":
        for n, syms in ((1, "ab"), (2, "a"), (2, "ab"), (3, "a")):
            for q0 in range(n):
                for d in lang.dfas(n, syms, q0):
                    yield (d, 0)
    elif part == "n3raw":
        for i, d in enumerate(lang.dfas(3, "ab")):
            if i % 16 == shard[1]:
                yield (d, 0)
    elif part == "unary":
        for n in range(1, shard[1] + 1):
            for u in lang.unary(n):
                yield (u, 0)
    elif part == "number":
        for i, d in enumerate(lang.canonical(2, "ab") + lang.canonical(3, "a")):
            for num in (1, 2, 3):
                yield (d, num)
            yield (d[:1] + (1,) + d[2:], i % 4)
    elif part in ("full", "part"):
        _, n, k, i8, finals = shard
        mod = 64 if n == 6 else 32 if (n, k) == (4, 3) else 16 if n == 5 or part == "part" and n == 4 else 8 if n == 4 else 4
        for i, delta in enumerate(lang.canonical_deltas(n, k, part == "part")):
            if i % mod == i8:
                for f in finals:
                    yield ((n, 0, delta, f, "abc"[:k]), 0)
    elif part == "wide":
        for i, x in enumerate(lang.families()):
            if i % 4 == shard[1]:
                n = x[0]
                for j, f in enumerate((x[3], 1, 1 << n - 1, (1 << n) - 1, int("36" * 10, 16) & (1 << n) - 1)):
                    yield (x[:3] + (f, x[4]), j % 4)
                    yield (x[:1] + (n // 2,) + x[2:3] + (f, x[4]), (j + 1) % 4)
                    yield (lang.doubled(x, f), j % 4)
    elif part == "typed":       # symbols of several types
        for t in lang.TYPED:
            for i, d in enumerate(lang.canonical(2, "ab") + [d for d in lang.canonical(3, "ab") if d[3] in (4, 3)][::3]):
                yield (d[:4] + (t,), i % 4)
    elif part == "node":        # the symbols on the states
        for i, d in enumerate(lang.canonical(1, "ab") + lang.canonical(2, "ab") + lang.canonical(3, "ab")[::2] + lang.canonical(3, "a") + lang.families()[:12]):
            if i % 4 == shard[1]:
                yield (lang.homogeneous(d), i // 4 % 4, "M")
    elif part == "broad":
        xs = list(lang.broad(511, 120)) + [lang.family(303, 2, lambda q, i: q + 1 if i == 0 and q < 302 else 302, lambda q: q % 50 == 7)]
        for i, x in enumerate(y for x in xs for y in (x, lang.doubled(x))):
            if i % 4 == shard[1]:
                yield (x, i % 3)
                if x[0] * len(x[4]) < 2000:
                    yield (lang.homogeneous(x), 0, "M")
    elif part == "deep":
        for x in lang.deep(1100):
            yield (x, 0)
    elif part == "long":
        for n in (12, 16, 25):
            for f in (1, 1 << n - 1, int("5" * 8, 16) & (1 << n) - 1, 0, (1 << n) - 1, 6):
                for loop in (None, 0, 1, n // 2, n - 1):
                    ring = tuple(range(1, n)) + (loop,)
                    yield ((n, 0, ring, f, "a"), 0)
                    two = tuple(x for q in range(n) for x in (ring[q], (q * 2) % n))
                    yield ((n, 0, two, f, "ab"), 1)
                    yield ((n, 0, tuple(x for q in range(n) for x in (ring[q], q - 1 if q else None)), f, "ab"), 0)


def classes(spec):
    """Coarsest partition: same finality, same missing transitions, equivalent targets."""
    n, q0, delta, finals, syms = spec
    k = len(syms)
    cls = [finals >> q & 1 for q in range(n)]
    while True:
        sig = [(cls[q],) + tuple(None if delta[q * k + i] is None else cls[delta[q * k + i]] for i in range(k)) for q in range(n)]
        ids = {}
        new = [ids.setdefault(s, len(ids)) for s in sig]
        if len(ids) == len(set(cls)):
            return new
        cls = new


def check(case, st):
    spec, num = case[:2]
    g, vs = lang.build(spec, *case[2:] or "I", num)
    before = lang.snapshot(g)
    m = hopcroft_minimize(g)
    require(lang.snapshot(g) == before, "the automaton was modified")
    w, k = lang.difference(lang.real_machine(m), lang.spec_machine(spec), spec[4])
    require(w is None, "the word %r is treated wrongly", lang.show(w))
    cls = classes(spec)
    n = len(set(cls))
    require(m.num_vertices() == n, "%s states, expected %s", m.num_vertices(), n)
    arcs = {(cls[q], i) for q in range(spec[0]) for i in range(len(spec[4])) if spec[2][q * len(spec[4]) + i] is not None}
    require(m.num_edges() == len(arcs), "%s transitions, expected %s", m.num_edges(), len(arcs))
    states = sorted(m.vertices())
    index = {q: i for i, q in enumerate(states)}
    ms = (len(states), index[m.initial()], tuple(index.get(m.delta(q, a)) for q in states for a in spec[4]),
          sum(1 << index[q] for q in states if m.is_final(q)), spec[4])
    require(len(set(classes(ms))) == len(states), "two states of the result are equivalent: %s", ms)
    require(lang.order((e.source, e.target, m.label(e)) for q in states for e in m.in_edges(q)) == lang.snapshot(m)[1], "in_edges and edges differ")
    st.states += k
    st.transitions += k * len(spec[4])
    st.traces += 1
    if 1 < n < spec[0]:
        st.interesting()
    st.outcome((spec[0], n))
