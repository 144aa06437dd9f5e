from collections import defaultdict
from pybgl.property_map import make_assoc_property_map
from pybgl.strong_components import strong_components
from mc.core import require
from mc import trav
from .c13 import acyclic
ID, LEVEL = "C14", "exploration"
RULE = ("strong_components on every directed graph of the bounded space; the components are compared with mutual reachability, and the "
        "numbering with the order of the components. A case is non-trivial when the graph has a cycle and an edge between two components.")
ASSUMPTIONS = ["the graph is directed; the edges between components go from a larger to a smaller component id, as documented"]
BOUND = {"quick": "all digraphs n <= 3 (insertion orders and parallel edges), n = 4 loop-free, n = 4 with loops up to renaming, n = 5 with <= 5 edges up to renaming, families up to n = 1500, a path, a cycle and a lollipop of 70000 vertices; hubs and bundles of 400",
         "thorough": "n = 5 with <= 7 edges up to renaming"}


def shards(tier):
    return [(tier, p) for p in trav.parts("thorough") + (["n5_%d" % i for i in range(8)] if tier != "quick" else [])]


def cases(shard):
    tier, part = shard
    if part.startswith("n5"):
        for i, es in enumerate(trav.edge_sets(5, 7, loops=False)):
            if i % 8 == int(part[-1]) and len(es) > 5 and trav.canonical(5, es, fixed=(0,)):
                yield ("D", 5, es, 0, "")
        return
    for g in trav.graph_space("thorough" if part.startswith("sets4") else tier, part):
        if g[0] != "U":
            yield g


def reach(out, s):
    seen, todo = {s}, [s]
    while todo:
        for k in out[todo.pop()]:
            if k[1] not in seen:
                seen.add(k[1])
                todo.append(k[1])
    return seen


def components(vs, out):
    """Kosaraju, as an oracle for large graphs; the definition itself for small ones."""
    if len(vs) <= 16:
        r = {u: reach(out, u) for u in vs}
        return {u: frozenset(v for v in r[u] if u in r[v]) for u in vs}
    order, seen = [], set()
    for s in vs:
        if s in seen:
            continue
        seen.add(s)
        stack = [(s, iter(out[s]))]
        while stack:
            u, it = stack[-1]
            for k in it:
                if k[1] not in seen:
                    seen.add(k[1])
                    stack.append((k[1], iter(out[k[1]])))
                    break
            else:
                order.append(u)
                stack.pop()
    rev = {u: [] for u in vs}
    for u in vs:
        for k in out[u]:
            rev[k[1]].append((k[1], u))
    comp = {}
    for s in reversed(order):
        if s not in comp:
            c, todo = {s}, [s]
            while todo:
                for k in rev[todo.pop()]:
                    if k[1] not in comp and k[1] not in c:
                        c.add(k[1])
                        todo.append(k[1])
            c = frozenset(c)
            for u in c:
                comp[u] = c
    return comp


def check(case, st):
    g, vs, out = trav.build(case)
    comp = components(vs, out)
    classes = set(comp.values())
    for k in range(3):
        d = defaultdict(int, {u: (len(vs) - i) * k for i, u in enumerate(vs)} if k else {})      # a map that holds other numbers, too
        n = strong_components(g, make_assoc_property_map(d))
        require(n == len(classes), "%s components returned, %d expected", n, len(classes))
        require(set(d) <= set(vs), "component given to something which is not a vertex: %s", set(d) - set(vs))
        ids = {u: d[u] for u in vs}
        require(set(ids.values()) == set(range(n)), "component ids %s are not 0..%d", set(ids.values()), n - 1)
        for c in classes:
            require(len({ids[u] for u in c}) == 1, "the component %s is split: %s", sorted(c)[:30], ids)
        for u in vs:
            for k in out[u]:
                require(ids[u] >= ids[k[1]], "edge %s goes from component %s to component %s", k, ids[u], ids[k[1]])
    if len(classes) > 1 and not acyclic(out) and any(comp[u] is not comp[k[1]] for u in vs for k in out[u]):
        st.interesting()
    st.outcome(tuple(sorted(len(c) for c in classes)) if len(vs) <= 5 else len(classes))
