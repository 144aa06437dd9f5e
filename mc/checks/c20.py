from collections import defaultdict
from itertools import product
from pybgl.graph_traversal import BLACK, GRAY, WHITE
from pybgl.parallel_breadth_first_search import ParallelBreadthFirstSearchVisitor, parallel_breadth_first_search
from pybgl.property_map import make_assoc_property_map
from mc.core import require
from mc import lang
ID, LEVEL = "C20", "exploration"
RULE = ("parallel_breadth_first_search on every pair of automata of the bounded space, from the initial states and from given pairs of states, with "
        "and without a filter; the event trace is checked by a monitor of the protocol (each event with its arguments) and the pairs must be "
        "processed by increasing distance. A case is non-trivial when at least two pairs are processed.")
ASSUMPTIONS = ["source pairs are distinct; if_push is a pure function", "the order of the symbols is free",
               "no discover event is required for the source pairs, as start_vertex announces them", "visitors do not modify the automata"]
BOUND = {"quick": "all pairs with <= 2 states over {a,b} (one side up to renaming), pairs that the caller coloured GRAY or BLACK beforehand, overlapping alphabets, unary automata <= 4 states, no initial state, automata whose symbols are on the states (from <= 3 states), words read as automata (<= 4 symbols, 60), all sets of source pairs and several filters on a subspace; trees of 2047 states (frontiers of 1024 pairs), stars of 300 symbols; up to 9 source pairs",
         "thorough": "also 3 states x <= 2 states"}


def shards(tier):
    ps = [p for p in lang.pair_parts("quick") if tier != "quick" or not p.startswith(("c3c2", "full"))]
    return [("quick", p) for p in ps] + [("quick", "%s_%d" % (x, i)) for x in ("sources", "colors") for i in range(8)] + [("quick", "push_%d" % i) for i in range(8)]


def cases(shard):
    tier, part = shard
    base, _, idx = part.partition("_")
    small = [d for d in lang.canonical(1, "ab") + lang.canonical(2, "ab") if d[3] == 1]
    if base == "sources":
        for i, x in enumerate(small):
            if i % 8 == int(idx):
                for j, y in enumerate(small):
                    ps = list(product(list(range(x[0])) + [None], list(range(y[0])) + [None]))
                    for k in range(3):
                        for src in ([()] if k == 0 else [(p,) for p in ps] if k == 1 else [(p, q) for p in ps for q in ps if p != q][(i + j) % 5::5]):
                            yield (x, y, "A", "A", j % 4, 0, src, None)
            elif len(ps := list(product(list(range(x[0])) + [None], list(range(small[-1 - i][0])) + [None]))) > 3:
                for k in range(3, len(ps) + 1):     # more source pairs
                    for r in range(0, len(ps), 2):
                        yield (x, small[-1 - i], "A", "A", k % 4, 0, tuple((ps + ps)[r:r + k]), (None, "both", "zero")[(i + k) % 3])
    elif base == "colors":      # the caller excludes some pairs by their colour
        for i, x in enumerate(small):
            if i % 8 == int(idx):
                for j, y in enumerate(small):
                    ps = list(product(list(range(x[0])) + [None], list(range(y[0])) + [None]))
                    few = [((p, c),) for p in ps for c in (GRAY, BLACK)] + [((p, GRAY), (q, BLACK)) for p in ps for q in ps if p != q]
                    for before in few[(i + j) % 3::3]:
                        yield (x, y, "A", "A", j % 4, 0, None if i % 2 else ((0, 0), (None, 0)), "zero" if j % 3 == 0 else None, before)
    elif base == "push":
        for i, x in enumerate(small):
            if i % 8 == int(idx):
                for j, y in enumerate(small):
                    for push in ("both", "first", "never", "a", "zero", "forward"):
                        yield (x, y, "A", "A", 0, j % 4, None, push)
    else:
        for c in lang.pairs(tier, part):
            if base not in ("number", "raw2", "c3c2", "full") or c[0][3] == 1:
                yield c + (None, None)


EVENTS = ("start_vertex", "examine_vertex", "discover_vertex", "finish_vertex", "examine_symbol", "examine_edge", "tree_edge", "gray_target", "black_target")


class Recorder(ParallelBreadthFirstSearchVisitor):
    def __init__(self):
        self.ev = []


def recorder(name):
    def f(self, *args):
        self.ev.append((name,) + args)
    return f


for _name in EVENTS:
    assert hasattr(ParallelBreadthFirstSearchVisitor, _name)
    setattr(Recorder, _name, recorder(_name))


def check(case, st):
    x, y, cx, cy, nx, ny, src, push = case[:8]
    already = case[8] if len(case) > 8 else ()
    g1, v1 = lang.build(x, cx, nx)
    g2, v2 = lang.build(y, cy, ny)
    before = lang.snapshot(g1), lang.snapshot(g2)
    at = lambda vs, q: None if q is None else vs[q]
    d1 = {(v1[q], a): at(v1, x[2][q * len(x[4]) + i]) for q in range(x[0]) for i, a in enumerate(x[4])}
    d2 = {(v2[q], a): at(v2, y[2][q * len(y[4]) + i]) for q in range(y[0]) for i, a in enumerate(y[4])}
    syms = lang.order(set(x[4]) | set(y[4]))
    ends = lambda e: None if e is None else (e.source, e.target)
    pure = {None: lambda p, q, a: True,
            "both": lambda p, q, a: p is not None and q is not None and p[1] is not None and q[1] is not None,
            "first": lambda p, q, a: p is not None and p[1] is not None,
            "never": lambda p, q, a: False,
            "a": lambda p, q, a: a == "a",
            "zero": lambda p, q, a: not (p and p[1] == v1[0]),
            "forward": lambda p, q, a: not (q and q[1] is not None and q[1] <= q[0])}[push]
    kw = {}
    if push is not None:
        kw["if_push"] = lambda e1, h1, e2, h2: pure(ends(e1), ends(e2), (e1 or e2).distinguisher)
    if src is not None:
        sources = [(at(v1, p), at(v2, q)) for p, q in src]
        kw["source_pairs"] = iter(sources) if len(src) == 1 else list(sources)
    else:
        sources = [(g1.initial(), g2.initial())]
    colors = defaultdict(int, {(at(v1, p), at(v2, q)): c for (p, q), c in already})
    colors0 = dict(colors)
    vis = Recorder()
    parallel_breadth_first_search(g1, g2, vis=vis, pmap_vcolor=make_assoc_property_map(colors), **kw)
    ev = vis.ev
    i = 0
    color = defaultdict(int, colors0)
    dist, queue = {}, {}

    def expect(name, *args):
        nonlocal i
        require(i < len(ev), "the trace stops where %s%s is expected", name, args)
        got = ev[i]
        require(got[0] == name, "event %d is %s, expected %s%s", i, got[0], name, args)
        require(got[2] is g1 and got[4] is g2, "%s received the wrong automata", name)
        i += 1
        return got[1], got[3], got[5:]

    starts = []
    for s in sources:
        p, q, _ = expect("start_vertex")
        starts.append((p, q))
        color[(p, q)] = GRAY
        dist[(p, q)] = queue[(p, q)] = 0
    require(sorted(starts, key=str) == sorted(sources, key=str), "start_vertex was called for %s, expected %s", starts, sources)
    processed = 0
    while queue:
        p, q, _ = expect("examine_vertex", min(queue.values()))
        require((p, q) in queue and queue[(p, q)] == min(queue.values()), "pair %s examined, the queue is %s", (p, q), queue)
        del queue[(p, q)]
        processed += 1
        todo = {a for a in syms if d1.get((p, a)) is not None or d2.get((q, a)) is not None}
        while todo:
            require(i < len(ev) and ev[i][0] == "examine_symbol" and ev[i][5] in todo, "event %d of %s must examine a symbol of %s: %s", i, (p, q), todo, ev[i:i + 1])
            a = ev[i][5]
            todo.discard(a)
            require(expect("examine_symbol") == (p, q, (a,)), "examine_symbol was called with %s", ev[i - 1])
            r = (d1.get((p, a)), d2.get((q, a)))
            want = (None if p is None else (p, r[0]), None if q is None else (q, r[1]), (a,))
            kinds = {WHITE: ["examine_edge", "tree_edge"], GRAY: ["examine_edge", "gray_target"], BLACK: ["examine_edge", "black_target"]}[color[r]]
            for kind in kinds:
                e1, e2, rest = expect(kind, r)
                require((ends(e1), ends(e2), rest) == want, "%s was called with %s, expected %s", kind, (e1, e2, rest), want)
                require(all(e is None or e.distinguisher == a and (e.target is None or h.label(e) == a) for e, h in ((e1, g1), (e2, g2))), "%s: wrong label", kind)
            if color[r] == WHITE:
                color[r] = GRAY
                require(expect("discover_vertex") == (r[0], r[1], ()), "discover_vertex was called with %s, expected %s", ev[i - 1], r)
                if pure(want[0], want[1], a):
                    dist[r] = queue[r] = dist[(p, q)] + 1
        require(expect("finish_vertex") == (p, q, ()), "finish_vertex was called with %s, expected %s", ev[i - 1], (p, q))
        color[(p, q)] = BLACK
    require(i == len(ev), "unexpected events %s", ev[i:i + 3])
    require({k: c for k, c in colors.items() if c} == {k: c for k, c in color.items() if c}, "colours %s, expected %s", dict(colors), dict(color))
    if src is None and push is None:
        parallel_breadth_first_search(g1, g2)
    require((lang.snapshot(g1), lang.snapshot(g2)) == before, "an operand was modified")
    if processed > 1:
        st.interesting()
    st.outcome((processed, len(ev)))
