from pybgl.cut import cut
from mc.core import require
from mc import trav
from mc.gen import big_graphs
from .c13 import acyclic
from .c14 import reach
ID, LEVEL = "C16", "exploration"
RULE = ("cut(s, g, in_cut) for every acyclic graph of the bounded space, every source and every set of cut edges, against the definition: "
        "the ends of the cut edges and the sinks that a path without an earlier cut edge reaches; it is also checked directly that every "
        "maximal path from s meets the result. A case is non-trivial when an edge is cut and another edge is kept.")
ASSUMPTIONS = ["g is acyclic and in_cut is a pure function, as documented"]
BOUND = {"quick": "all acyclic graphs n <= 4 with <= 5 edges, sequences of <= 4 edges on 2-3 vertices, families up to n = 9, larger ones up to n = 40 and n = 1500 with some sets of cut edges, every set of cut edges (<= 8 edges); up to 1200 sinks or cut edges",
         "thorough": "all acyclic graphs n = 4, n = 5 with <= 6 increasing edges"}


def shards(tier):
    return [(tier, p) for p in ["multi2", "sets3", "seqs3", "view", "families", "offset", "big"] + ["dag4_%d" % i for i in range(8)]
            + (["dag5_%d" % i for i in range(8)] if tier != "quick" else [])]


def masks(m):
    if m <= 8:
        return range(1 << m)
    return [0, (1 << m) - 1] + [1 << i for i in range(m)] + [(1 << i) | (1 << j) for i in range(m) for j in range(i)]


def cases(shard):
    tier, part = shard
    if part.startswith("dag4"):
        for i, es in enumerate(trav.edge_sets(4, 5 if tier == "quick" else 6, loops=False)):
            if i % 8 == int(part[-1]) and acyclic({u: [(u, v) for (x, v) in es if x == u] for u in range(4)}):
                for m in masks(len(es)):
                    yield ("D", 4, es, 0, "", 0, m)
        return
    if part == "big":
        for n, es in big_graphs(acyclic=True) + [(1500, tuple((i, i + 1) for i in range(1499)))]:
            m = len(es)
            some = (1, 7, 300, 800) if m > 1000 else (2, 3, 5, 7, 11, 13, 37)
            for d in some:
                for r in (0, 1, d - 1):
                    mask = sum(1 << i for i in range(m) if i % d == r)
                    for mm in (mask, (1 << m) - 1 - mask) if m < 1000 else (mask,):
                        for s in {0, n // 3}:
                            yield ("I" if d % 2 else "D", n, es, 0, "", s, mm)
        for n in (600, 1200):     # many sinks, many cut edges
            k = n // 3
            for es in (tuple((0, i) for i in range(1, n)), tuple((i, n - 1) for i in range(n - 1)) + tuple((0, i) for i in range(1, n - 1)),
                       tuple((i, j) for i in range(n) for j in (2 * i + 1, 2 * i + 2) if j < n), tuple((0, i) for i in range(1, k)) + tuple((i, j) for i in range(1, k) for j in (k + i, 2 * k + i))):
                m = len(es)
                for d in (2, 3, 500):
                    mask = sum(1 << i for i in range(m) if i % d == 1)
                    yield ("I" if d == 2 else "D", n, es, 0, "", 0, mask)
                    yield ("D" if d == 2 else "I", n, es, 0, "", 0, (1 << m) - 1 - mask)
                yield ("D", n, es, 0, "", 0, 0)
        return
    if part.startswith("dag5"):
        ps = [(i, j) for i in range(5) for j in range(i + 1, 5)]
        for i, m in enumerate(range(1 << 10)):
            if i % 8 == int(part[-1]) and bin(m).count("1") <= 6:
                es = tuple(p for k, p in enumerate(ps) if m >> k & 1)
                for c in masks(len(es)):
                    yield ("D", 5, es, 0, "", 0, c)
        return
    for g in trav.graph_space(tier, part):
        if g[0] != "U" and acyclic({u: [(u, v) for (x, v) in g[2] if x == u] for u in range(g[1])}):
            for m in masks(len(g[2])):
                for s in (range(g[1]) if g[1] < 4 else (0, g[1] // 2)):
                    yield g + (s, m)


def check(case, st):
    g, vs, out = trav.build(case)
    s, mask = vs[case[5]], case[6]
    keys = sorted(k for u in vs for k in out[u])
    cutset = {k for i, k in enumerate(keys) if mask >> i & 1}
    kept = {u: [k for k in out[u] if k not in cutset] for u in vs}
    r = reach(kept, s)
    want = {k[1] for u in r for k in out[u] if k in cutset} | {u for u in r if not out[u]}
    for _ in range(2):
        got = cut(s, g, lambda e, g: trav.key(g, e) in cutset)
        require(isinstance(got, set), "the result is not a set: %s", got)
        require(got == want, "vertex cut %s, expected %s", got, want)
    # every maximal path from s meets the cut
    todo = [s] if s not in got else []
    seen = set(todo)
    while todo:
        u = todo.pop()
        require(out[u], "a path from %s ends in %s without meeting the cut %s", s, u, got)
        for k in out[u]:
            if k[1] not in got and k[1] not in seen:
                seen.add(k[1])
                todo.append(k[1])
    if cutset and len(cutset) < len(keys):
        st.interesting()
    st.outcome((len(r), len(want)))
