from collections import defaultdict
from itertools import product
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from pybgl.revuz_minimize import DefaultRevuzMinimizeVisitor, revuz_height, revuz_minimize
from mc.core import require
from mc import lang
ID, LEVEL = "C23", "model_checking"
RULE = ("revuz_height and revuz_minimize on every acyclic automaton of the bounded space (labels on the transitions or on the states, unreachable states, every "
        "initial state, several numberings) and on the trie of every finite set of words; every state that remains is compared with the specification (same "
        "classes, same transitions), the initial state must still be there, and the visitor must announce what happened. A case is non-trivial when two "
        "states are merged and two are not.")
ASSUMPTIONS = ["the automaton is acyclic and not empty, and the initial state is a state", "a custom pmap_elabel gives the symbols of the transitions",
               "a missing transition and a transition to a dead state are not identified, unreachable states are kept (merged like the others)"]
BOUND = {"quick": "edge-labelled: acyclic n <= 4 over {a,b} x every final set x every initial state x 2 numberings, n = 5 with three final sets; node-labelled: n <= 4 over {a,b} (every final set), n = 5 over {a,b} with one or all states final; tries of every set of words of length <= 2 over {a,b} and every set of <= 3 words of length <= 3; families up to n = 60, symbols of several types, automata more than a thousand transitions deep; up to 2000 states merged at once, trees of 2047 states",
         "thorough": "edge-labelled n = 5 with every final set, n = 6 with <= 7 transitions; node-labelled n = 5 with 6 final sets; tries of every set of words of length <= 3 (32768 sets)"}


def shards(tier):
    q = tier == "quick"
    out = [("edge4", i) for i in range(4)] + [("edge5", i, (16, 18, 31) if q else tuple(range(32))) for i in range(8 if q else 24)]
    out += [("node4", i) for i in range(4)] + [("node5", i, (16, 31) if q else (16, 31, 0, 24, 21, 3)) for i in range(8)]
    out += [("words", 2, 7, 1, 0), ("labels",), ("families",), ("typed",), ("deep",), ("broad", 0), ("broad", 1), ("broad", 2)] + [("words", 3, 3, 8, i) for i in range(8)]
    if not q:
        out += [("words", 3, 15, 8, i) for i in range(8)] + [("edge6", i) for i in range(24)]
    return out


def cases(shard):
    part = shard[0]
    if part in ("edge4", "edge5"):
        for n in (1, 2, 3, 4) if part == "edge4" else (5,):
            choices = [[None] + list(range(q + 1, n)) for q in range(n) for _ in "ab"]
            mod = 4 if n < 5 else 8 if len(shard[2]) < 4 else 24
            for i, delta in enumerate(product(*choices)):
                if i % mod == shard[1]:
                    for f in range(1 << n) if n < 5 else shard[2]:
                        for q0 in range(n) if n < 5 else (0, i % 5):
                            for num in (0, 1) if n < 5 else (i // 5 % 4,):
                                yield ("edge", (n, q0, delta, f, "ab"), num)
    elif part == "edge6":
        n = 6
        choices = [[None] + list(range(q + 1, n)) for q in range(n) for _ in "ab"]
        for i, delta in enumerate(product(*choices)):
            if i % 24 == shard[1] and sum(r is not None for r in delta) <= 7:
                yield ("edge", (n, 0, delta, 32, "ab"), i // 24 % 4)
    elif part in ("node4", "node5"):
        for n in (1, 2, 3, 4) if part == "node4" else (5,):
            ps = [(i, j) for i in range(n) for j in range(i + 1, n)]
            mod = 4 if n < 5 else 8
            for i, (labels, m) in enumerate(product(product("ab", repeat=n), range(1 << len(ps)))):
                if i % mod == shard[1]:
                    es = tuple(p for k, p in enumerate(ps) if m >> k & 1)
                    if len({(u, labels[v]) for u, v in es}) == len(es):
                        for f in range(1 << n) if n < 5 else shard[2]:
                            for q0 in range(n) if n < 4 else (0, n - 1):
                                yield ("node", (n, q0, labels, es, f), i // mod % 2)
    elif part == "words":
        _, ln, most, mod, rem = shard
        ws = ["".join(w) for k in range(ln + 1) for w in product("ab", repeat=k)]
        for m in range(1 << len(ws)):
            if m % mod == rem and bin(m).count("1") <= most:
                yield ("words", tuple(w for i, w in enumerate(ws) if m >> i & 1), 0)
    elif part == "labels":      # a label on the states as well
        choices = [[None] + list(range(q + 1, 4)) for q in range(4) for _ in "a"]
        for delta in product(*choices):
            for f in (8, 15, 0, 6):
                for labels in product("xy", repeat=4):
                    yield ("edge+", (4, 0, delta, f, "a"), labels)
    elif part == "typed":       # symbols of several types
        choices = [[None] + list(range(q + 1, 4)) for q in range(4) for _ in "ab"]
        for i, delta in enumerate(product(*choices)):
            for f in (8, 10, 13):
                yield ("edge", (4, 0, delta, f, lang.TYPED[i % len(lang.TYPED)]), i // 7 % 4)
        for t in lang.TYPED:
            ps = [(i, j) for i in range(4) for j in range(i + 1, 4)]
            for labels, m in product(product(t, repeat=4), range(1 << 6)):
                es = tuple(p for k, p in enumerate(ps) if m >> k & 1)
                if len({(u, labels[v]) for u, v in es}) == len(es):
                    yield ("node", (4, 0, labels, es, 8 if m % 2 else 12), m % 2)
    elif part == "broad":       # many states merged at once, large degrees
        m = shard[1]
        if m == 0:
            for k in (50, 300):
                for f in (lambda q: q > 0, lambda q: q % 7 == 1, lambda q: q == k + 1):
                    yield ("edge", lang.family(k + 2, k, lambda q, i: i + 1 if q == 0 else k + 1 if 0 < q <= k and i == q % 3 else None, f), k % 4)
            for n in (511, 2047):
                for f in (lambda q: q >= n // 2, lambda q: bin(q + 1).count("1") % 2 == 0, lambda q: q % 5 == 3):
                    yield ("edge", lang.family(n, 2, lambda q, i: 2 * q + 1 + i if 2 * q + 1 + i < n else None, f), n % 4)
        elif m == 1:
            for k in (12, 40):
                for j in (1, 3):
                    # 0 -> k states -> k states -> the last one
                    step = lambda q, i: i + 1 if q == 0 else k + 1 + (q * j + i) % k if q <= k else 2 * k + 1 if q <= 2 * k and i < 2 + q % j else None
                    yield ("edge", lang.family(2 * k + 2, k, step, lambda q: q == 2 * k + 1), 0)
                    yield ("edge", lang.family(2 * k + 2, k, step, lambda q: q > k), 3)
        else:
            for k in (20, 120):
                for a, b in ((k, k), (30, 7), (3, 2)):
                    a, b = min(a, k), min(b, k)
                    labels = ["^"] + [chr(300 + i) for i in range(k)] + ["x"] * a + ["y"] * b + ["z"]
                    es = [(0, 1 + i) for i in range(k)] + [(1 + i, 1 + k + i % a) for i in range(k)] + [(1 + i, 1 + k + a + i % b) for i in range(k)] + \
                         [(1 + k + i, 1 + k + a + b) for i in range(a + b) if i % 11]
                    for f in (1 << 1 + k + a + b, 1 << 1 + k + a + b | 1 << 2 + k):
                        yield ("node", (2 + k + a + b, 0, tuple(labels), tuple(es), f), k // 20 % 2)
            yield ("words", tuple(chr(97 + i % 26) + chr(97 + i // 26 % 26) + "ed"[:i % 3] + "ing" for i in range(600)), 0)
    elif part == "deep":        # states more than a thousand transitions apart
        for n in (1501, 3001):
            chain = lang.family(n, 1, lambda q, i: q + 1 if q + 1 < n else None, lambda q: q == n - 1)
            skip = lang.family(n, 2, lambda q, i: q + 1 + i if q + 1 + i < n else None, lambda q: q in (n - 1, n // 2))
            twice = lang.family(n, 2, lambda q, i: q + 2 if q + 2 < n and q and not i else q + 1 + i if not q else None, lambda q: q >= n - 2)
            for num in (0, 3):
                yield ("edge", chain, num)
                yield ("edge", skip, num)
                if n < 3000:
                    yield ("edge", twice, num)
        yield ("node", (1501, 0, "ab" * 750 + "a", tuple((q, q + 1) for q in range(1500)), 1 << 1500 | 1 << 7), 1)
        yield ("words", ("a" * 1200, "b" * 1200, "ab" * 600, "b" + "a" * 1199, ""), 0)
    elif part == "families":
        for n in (6, 9, 20, 60):
            for f in (1 << n - 1, (1 << n) - 1, int("9" * 20, 16) & (1 << n) - 1, 1 << n - 1 | 1 << n - 2 | 2):
                path = [q + 1 if q + 1 < n else None for q in range(n)]
                skip = [q + 2 if q + 2 < n else None for q in range(n)]
                tree = [2 * q + 1 if 2 * q + 1 < n else None for q in range(n)], [2 * q + 2 if 2 * q + 2 < n else None for q in range(n)]
                comb = [q + 2 if q % 2 == 0 and q + 2 < n else None for q in range(n)], [q + 1 if q % 2 == 0 and q + 1 < n else None for q in range(n)]
                for da, db in ((path, [None] * n), (path, path), (path, skip), tree, comb, (skip, [None] * n)):
                    for num in range(4):
                        yield ("edge", (n, 0, tuple(x for q in range(n) for x in (da[q], db[q])), f, "ab"), num)


class Recorder(DefaultRevuzMinimizeVisitor):
    def __init__(self):
        self.ev = []
    def merging_states(self, q1, q2, g):
        self.ev.append(("merging", q1, q2, q1 in set(g.vertices()) and q2 in set(g.vertices())))
    def move_transition(self, e_old, e_new, g):
        self.ev.append(("move", (g.source(e_old), g.target(e_old)), (g.source(e_new), g.target(e_new))))
    def remove_vertex(self, u, g):
        self.ev.append(("remove", u, u in set(g.vertices())))
    def states_merged(self, q1, q2, g):
        self.ev.append(("merged", q1, q2, q1 in set(g.vertices()) and q2 not in set(g.vertices())))


def build(case):
    """Returns (automaton, {state: {symbol: target}}, {state: label or None}, initial, finals, arguments)."""
    kind, spec, num = case
    kw = {}
    if kind in ("edge", "edge+"):
        n, q0, delta, f, syms = spec
        g, vs = lang.build(spec, "I", num if kind == "edge" else 0)
        trans = {vs[q]: {a: vs[delta[q * len(syms) + i]] for i, a in enumerate(syms) if delta[q * len(syms) + i] is not None} for q in range(n)}
        labels = {q: None for q in vs}
        if kind == "edge+":
            labels = dict(zip(vs, num))
            kw = {"pmap_vlabel": make_assoc_property_map(defaultdict(lambda: None, labels))}
        elif num == 3:
            kw = {"pmap_elabel": make_func_property_map(g.label), "leaves": {q for q in vs if not trans[q]}}
        return g, trans, labels, vs[q0], {vs[q] for q in range(n) if f >> q & 1}, kw
    if kind == "node":
        n, q0, syms, es, f = spec
        g = IncidenceNodeAutomaton(0)
        vs = [None] * n
        for q in reversed(range(n)) if num else range(n):
            vs[q] = g.add_vertex(syms[q])
        trans = {q: {} for q in vs}
        for (u, v) in es:
            g.add_edge(vs[u], vs[v])
            trans[vs[u]][syms[v]] = vs[v]
        g.set_initial(vs[q0])
        for q in range(n):
            if f >> q & 1:
                g.set_final(vs[q])
        return g, trans, {vs[q]: syms[q] for q in range(n)}, vs[q0], {vs[q] for q in range(n) if f >> q & 1}, kw
    g = IncidenceAutomaton(1)
    trans, finals = {0: {}}, set()
    for w in spec:
        g.automaton_insert_string(w)
        q = 0
        for a in w:
            if a not in trans[q]:
                r = len(trans)
                trans[q][a] = r
                trans[r] = {}
            q = trans[q][a]
        finals.add(q)
    return g, trans, {q: None for q in trans}, 0, finals, kw


def check(case, st):
    g, trans, labels, q0, finals, kw = build(case)
    vs = sorted(trans)
    require(sorted(g.vertices()) == vs, "construction: states %s", sorted(g.vertices()))
    height = {}
    todo = list(vs)
    while todo:
        q = todo[-1]
        below = [t for t in trans[q].values() if t not in height]
        if below:
            todo += below
        else:
            height[todo.pop()] = 1 + max((height[t] for t in trans[q].values()), default=-1)
    top = max(height.values())
    got = defaultdict(lambda: None)
    r = revuz_height(g, make_assoc_property_map(got))
    require(r == top, "the maximum height is %s, revuz_height returns %s", top, r)
    require({q: got[q] for q in vs} == height, "heights %s, expected %s", dict(got), height)
    # classes of equivalent states, by increasing height
    cls, ids = {}, {}
    for q in sorted(vs, key=height.get):
        cls[q] = ids.setdefault((q in finals, labels[q], frozenset((a, cls[t]) for a, t in trans[q].items())), len(ids))
    vis = Recorder()
    r = revuz_minimize(g, vis=vis, **kw) if kw or len(vs) % 2 else revuz_minimize(g, None, None, None, vis)
    require(r == top, "revuz_minimize returns %s, the height is %s", r, top)
    left = sorted(g.vertices())
    require(set(left) <= set(vs), "new states: %s", left)
    require(len({cls[q] for q in left}) == len(left), "equivalent states remain among %s (classes %s)", left, cls)
    require(len(left) == len(ids), "%s states remain, expected one per class, %s", left, cls)
    require(q0 in left and g.initial() == q0, "initial state %s, expected %s; the states are %s", g.initial(), q0, left)
    rep = {cls[q]: q for q in left}
    node = case[0] == "node"
    edges = []
    for q in left:
        require(bool(g.is_final(q)) == (q in finals), "finality of %s is %s", q, g.is_final(q))
        require(not node or g.symbol(q) == labels[q], "symbol of %s", q)
        want = {a: rep[cls[t]] for a, t in trans[q].items()}
        require({a: g.delta(q, a) for a in g.sigma(q)} == want, "transitions of %s: %s, expected %s", q, {a: g.delta(q, a) for a in g.sigma(q)}, want)
        edges += [(q, t, a) for a, t in want.items()]
    require(lang.order((e.source, e.target, g.label(e)) for e in g.edges()) == lang.order(edges), "edges %s, expected %s", list(g.edges()), lang.order(edges))
    require(lang.order((e.source, e.target, g.label(e)) for q in left for e in g.in_edges(q)) == lang.order(edges), "in_edges and edges differ")
    # the visitor
    gone, current = [], None
    present = [(q, t) for q in trans for t in trans[q].values()]
    for ev in vis.ev:
        if ev[0] == "merging":
            moves = [p for p, t in present if t == ev[2]]
            removed = 0
            require(current is None and ev[3] and cls[ev[1]] == cls[ev[2]], "merging_states%s: classes %s", ev[1:], cls)
            current = ev[1:3]
        elif ev[0] == "move":
            require(current is not None and ev[1][1] == current[1] and ev[2] == (ev[1][0], current[0]), "move_transition%s while merging %s", ev[1:], current)
            require(ev[1][0] in moves, "move_transition%s: no such transition", ev[1:])
            moves.remove(ev[1][0])
            present.remove(ev[1])
            present.append(ev[2])
        elif ev[0] == "remove":
            require(current is not None and ev[1:] == (current[1], True), "remove_vertex%s while merging %s", ev[1:], current)
            require(not moves, "remove_vertex%s before its transitions from %s are moved", ev[1:], moves)
            present = [x for x in present if current[1] not in x]
            removed += 1
        else:
            require(removed == 1 and ev[1:] == current + (True,), "states_merged%s while merging %s", ev[1:], current)
            gone.append(current[1])
            current = None
    require(current is None and sorted(gone + left) == vs, "states reported as merged %s, states left %s", gone, left)
    st.states += len(vs)
    st.transitions += len(edges)
    st.traces += 1
    if 1 < len(left) < len(vs):
        st.interesting()
    st.outcome((len(vs), len(left)))
