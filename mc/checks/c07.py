from collections import defaultdict
from itertools import permutations, product, combinations
from pybgl.automaton import Automaton, make_automaton
from pybgl.incidence_automaton import IncidenceAutomaton, make_incidence_automaton
from pybgl.node_automaton import NodeAutomaton, make_node_automaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton, make_incidence_node_automaton
from pybgl.trie import Trie
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from mc.core import require
ID, LEVEL = "C07", "exploration"
RULE = ("every sequence of at most k transitions over every naming scheme of at most 3 states (contiguous and shifted integers, "
        "strings, tuples) and 1-2 symbols, every initial name, every set of final names, for the four builders; the automaton built "
        "must be isomorphic to the specified one (identical for names 0..n-1), the first of two conflicting transitions being kept. "
        "A case is non-trivial when it has at least one transition.")
ASSUMPTIONS = ["the initial name occurs in some transition, as documented", "names are mutually comparable"]
BOUND = {"quick": "<= 3 transitions over 2-3 names; larger automata (30 names, 60 transitions, 12 symbols); 400 names", "thorough": "<= 4 transitions over 2-3 names"}
SYMS = "abcdefghijkl"
BIG = {"BIGINT": tuple(7 * i + 3 for i in range(400)), "BIGSTR": tuple("s%03d" % (i * 7 % 400) for i in range(400)), "BIGSAME": tuple(range(400)), "BIGNEG": tuple(200 - i for i in range(400))}
NAMES = {"int": (0, 1, 2), "shift": (5, 3, 9), "str": ("b", "a", "root"), "neg": (-1, 0, 300), "tuple": ((0, 1), (0,), (1,))}


def shards(tier):
    k = 3 if tier == "quick" else 4
    out = []
    for names in NAMES:
        for node in (False, True):
            out.append((names, node, 2, 2, min(k, 3)))
            out.append((names, node, 3, 1, k))
            if tier != "quick" or names in ("int", "str"):
                out.append((names, node, 3, 2, k if node and k < 4 else 2 if tier == "quick" else 3))
    out.append(("big",))
    return sorted(out, key=lambda s: s[4] if len(s) > 4 else 0)


def cases(shard):
    if shard[0] == "big":
        for names in BIG:
            for n in (7, 30, 400):
                for k in (1, 2, 12) if n < 400 else (12,):
                    for d in (1, 3, 5) if n < 400 else (3,):
                        ts = tuple(((j * d) % n, (j * j + d) % n, SYMS[(j // d) % k]) for j in range(2 * n))
                        used = sorted({x for t in ts for x in t[:2]})
                        for q0 in (used[0], used[-1], used[len(used) // 2]):
                            for fs in (0, 1 << used[-1], int("9b" * 5, 16) & (1 << n) - 1):
                                yield (names, False, None, ts, q0, fs)
                                yield (names, True, tuple(SYMS[(i // d) % k] for i in range(n)), tuple(t[:2] for t in ts), q0, fs)
        return
    names, node, n, k, m = shard
    ns = NAMES[names][:n]
    syms = ("a", "b")[:k]
    if node:
        for labels in list(product(syms, repeat=n)) + [(None,) * n]:
            trans = [(q, r) for q in range(n) for r in range(n)]
            for ln in range(m + 1):
                for ts in product(trans, repeat=ln):
                    used = sorted({x for t in ts for x in t})
                    for q0 in used or [None]:
                        for fs in range(1 << n) if ln == m and n == 2 else (0, (1 << n) - 1, 1, 1 << (n - 1), 2):
                            yield (names, True, labels, ts, q0, fs)
    else:
        trans = [(q, r, a) for q in range(n) for r in range(n) for a in syms]
        for ln in range(m + 1):
            for ts in product(trans, repeat=ln):
                used = sorted({x for t in ts for x in t[:2]})
                for q0 in used or [None]:
                    for fs in sorted({0, (1 << n) - 1, 1, 1 << (n - 1), 2}):
                        yield (names, False, None, ts, q0, fs)


def same_shape(x, y):
    """Are two labelled graphs, with marks on the vertices, isomorphic? (refinement of the marks, then search)"""
    cx, cy = dict(x[1]), dict(y[1])
    while True:
        k = len(set(cx.values()) | set(cy.values()))
        names = {}
        new = []
        for (es, _), c in ((x, cx), (y, cy)):
            out, into = {q: [] for q in c}, {q: [] for q in c}
            for q, r, a in es:
                out[q].append((a, c[r]))
                into[r].append((a, c[q]))
            new.append({q: names.setdefault((c[q], tuple(sorted(out[q], key=repr)), tuple(sorted(into[q], key=repr))), len(names)) for q in c})
        cx, cy = new
        if sorted(cx.values()) != sorted(cy.values()):
            return False
        if len(names) == k:
            break
    classes = {}
    for q, c in cx.items():
        classes.setdefault(c, []).append(q)
    many = [c for c, qs in classes.items() if len(qs) > 1]
    if not many:
        return True
    c = min(many, key=lambda c: len(classes[c]))
    q = classes[c][0]
    return any(same_shape((x[0], dict(cx) | {q: -1}), (y[0], dict(cy) | {r: -1})) for r, d in cy.items() if d == c)


def check(case, st):
    names, node, labels, ts, q0, fs = case
    ns = NAMES[names] if names in NAMES else BIG[names]
    if ts:
        st.interesting()
    final = {i for i in range(len(ns)) if fs >> i & 1}
    used = sorted({x for t in ts for x in t[:2]})
    delta = {}
    for t in ts:
        a = labels[t[1]] if node else t[2]
        delta.setdefault((t[0], a), t[1])
    trans = [tuple(ns[x] for x in t[:2]) + tuple(t[2:]) for t in ts]
    fnames = {ns[i] for i in final}
    pf = [make_func_property_map(lambda n: n in fnames),
          make_assoc_property_map(defaultdict(bool, {n: True for n in fnames}))]
    kw = {} if q0 is None or (ns[q0] == 0 and len(ts) % 2) else {"q0n": ns[q0]}
    builds = []
    if node:
        lab = {ns[i]: labels[i] for i in range(len(labels))}
        # no label at all: the property map is omitted
        pl = None if None in labels else make_func_property_map(lambda n: lab[n])
        for f, c in ((make_node_automaton, NodeAutomaton), (make_incidence_node_automaton, IncidenceNodeAutomaton)):
            builds.append((f(list(trans), pmap_vlabel=pl, pmap_vfinal=pf[len(builds) % 2], **kw), c, final))
        builds.append((make_node_automaton(list(trans), pl, **kw), NodeAutomaton, set()))
    else:
        for f, c in ((make_automaton, Automaton), (make_incidence_automaton, IncidenceAutomaton)):
            builds.append((f(list(trans), pmap_vfinal=pf[len(builds) % 2], **kw), c, final))
        builds.append((make_automaton(list(trans), Constructor=IncidenceAutomaton, pmap_vfinal=pf[1], **kw), IncidenceAutomaton, final))
        builds.append((make_automaton(list(trans), **kw), Automaton, set()))
        builds.append((make_automaton(list(trans), Constructor=Trie, pmap_vfinal=pf[0], **kw), Trie, final))
    for g, cls, final in builds:
        require(type(g) is cls, "built a %s instead of %s", type(g), cls)
        vs = sorted(g.vertices())
        require(len(vs) == len(used), "%d states for the names %s", len(vs), [ns[i] for i in used])
        edges = sorted((e.source, e.target, g.label(e)) for e in g.edges())
        ok = False
        contiguous = [ns[i] for i in used] == list(range(len(used)))
        if len(used) > 5:      # follow the initial state and its transitions, all the states being reachable or isolated by the name order
            order = sorted(used, key=lambda i: ns[i])
            candidates = [tuple(vs[order.index(i)] for i in used)]
        else:
            candidates = permutations(vs)
        for perm in ([tuple(range(len(used)))] if contiguous else candidates):
            f = dict(zip(used, perm))
            if edges == sorted((f[q], f[r], a) for (q, a), r in delta.items()) and \
                    {q for q in vs if g.is_final(q)} == {f[i] for i in final if i in f} and \
                    (q0 is None or g.initial() == f[q0]) and \
                    (not node or all(g.symbol(f[i]) == labels[i] for i in used)):
                ok = True
                break
        if not ok and not contiguous and len(used) > 5:     # another numbering of the states
            ok = same_shape(({(f[q], f[r], a) for (q, a), r in delta.items()}, {f[i]: (i in final, q0 is not None and i == q0, node and labels[i]) for i in used}),
                            (set(edges), {q: (bool(g.is_final(q)), q0 is not None and q == g.initial(), node and g.symbol(q)) for q in vs})) and len(edges) == len(delta)
        require(ok, "%s does not match the transitions: edges %s, finals %s, initial %s", cls.__name__, edges,
                {q for q in vs if g.is_final(q)}, g.initial())
        if hasattr(g, "in_edges") and cls.__name__.startswith("Incidence"):
            got = sorted((e.source, e.target, g.label(e)) for v in vs for e in g.in_edges(v))
            require(got == edges, "in_edges %s, edges %s", got, edges)
