from collections import Counter, deque
from itertools import permutations
from pybgl.topological_sort import topological_sort
from mc.core import Violation, require
from mc import trav
ID, LEVEL = "C13", "exploration"
RULE = ("topological_sort on every directed graph of the bounded space (every labelled DAG with 5 vertices included), with the default "
        "deque, with an empty and with a non-empty deque of the caller; the result is compared with the reachability relation. A "
        "case is non-trivial when the graph has two vertices and an edge.")
ASSUMPTIONS = ["directed graphs; any topological order is accepted", "a deque which is not empty keeps its content after the sorted vertices",
               "what the deque contains after the error is left unspecified"]
BOUND = {"quick": "all digraphs n <= 3 (insertion orders and parallel edges), n = 4 loop-free, n = 4 with loops up to renaming, all DAGs n = 5, families up to n = 1500, a path, a cycle and a lollipop of 70000 vertices; hubs and bundles of 400",
         "thorough": "also n = 5 with <= 5 edges up to renaming and all DAGs n = 6 over increasing edges"}


def shards(tier):
    return [(tier, p) for p in trav.parts("thorough") + ["dags5_%d" % i for i in range(5)] + ([] if tier == "quick" else ["dags6_%d" % i for i in range(6)])]


def cases(shard):
    tier, part = shard
    if part.startswith("dags5"):
        first = int(part[-1])
        es = [(i, j) for i in range(5) for j in range(i + 1, 5)]
        seen = set()
        for p in permutations(range(5)):
            if p[0] == first:
                for m in range(1 << 10):
                    k = tuple(sorted((p[u], p[v]) for i, (u, v) in enumerate(es) if m >> i & 1))
                    if k not in seen:
                        seen.add(k)
                        yield ("D", 5, k, 0, "")
        return
    if part.startswith("dags6"):
        es = [(i, j) for i in range(6) for j in range(i + 1, 6)]
        p = [(x + int(part[-1])) % 6 for x in (3, 0, 5, 1, 4, 2)]
        for m in range(1 << 15):
            yield ("D", 6, tuple((p[u], p[v]) for i, (u, v) in enumerate(es) if m >> i & 1), 0, "")
        return
    for g in trav.graph_space("thorough" if part.startswith("sets4") else tier, part):
        if g[0] != "U":
            yield g


def acyclic(out):
    indeg = Counter(k[1] for ks in out.values() for k in ks)
    todo = [u for u in out if indeg[u] == 0]
    done = 0
    while todo:
        u = todo.pop()
        done += 1
        for k in out[u]:
            indeg[k[1]] -= 1
            if indeg[k[1]] == 0:
                todo.append(k[1])
    return done == len(out)


def check(case, st):
    g, vs, out = trav.build(case)
    dag = acyclic(out)
    if len(vs) > 1 and any(out.values()):
        st.interesting()
    st.outcome(("dag" if dag else "cyclic", min(len(vs), 6)))
    mine, extra = deque(), deque(["x", "y"])
    for stack in (None, mine, extra):
        try:
            r = topological_sort(g) if stack is None else topological_sort(g, stack)
        except RuntimeError as e:
            require(not dag, "RuntimeError (%s) for an acyclic graph", e)
            continue
        require(dag, "returned %s for a graph with a cycle", list(r)[:50])
        if stack is not None:
            require(r is stack, "the deque of the caller was not used")
        got = list(r)
        if stack is extra:
            require(got[-2:] == ["x", "y"], "content of the deque of the caller lost: %s", got[:50])
            got = got[:-2]
        require(sorted(got) == vs, "the result %s is not a permutation of the vertices %s", got[:50], vs[:50])
        pos = {u: i for i, u in enumerate(got)}
        for u in vs:
            for k in out[u]:
                require(pos[u] < pos[k[1]], "edge %s goes backwards in %s", k, got[:50])
    require(sorted(g.vertices()) == vs and sorted(trav.key(g, e) for e in g.edges()) == sorted(k for u in vs for k in out[u]),
            "the graph was modified")
