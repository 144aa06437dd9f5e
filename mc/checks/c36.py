import re
from collections import defaultdict
from itertools import product
from pybgl.aggregated_visitor import AggregatedVisitor
from pybgl.breadth_first_search import breadth_first_search
from pybgl.depth_first_search import depth_first_search_graph
from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths
from pybgl.property_map import (
    ReadPropertyMap, ReadWritePropertyMap, get, identity_property_map, make_assoc_property_map,
    make_constant_property_map, make_func_property_map, put
)
from pybgl.singleton import Singleton
from pybgl.tokenize import TokenizeVisitor, tokenize
from mc.core import require
from mc.gen import build_graph, edge_sets
ID, LEVEL = "C36", "model_checking"
RULE = ("Property maps: every history of reads, writes and (rejected) deletions, against a dictionary. Aggregated visitors: every list of <= 3 recorders out of three classes (nested ones included), every small graph and algorithm, "
        "against the visitor alone. Tokenizer: every pattern and string of the space, against a scan. Singletons: every order of constructions. "
        "A case is non-trivial when something is written, notified or matched.")
ASSUMPTIONS = ["keys are hashable and the default factory has no effect besides its result", "patterns of the tokenizer are given as compiled expressions"]
BOUND = {"quick": "histories of <= 4 operations over 2 maps, 2 keys; 3 visitors, graphs of 3 vertices; strings of <= 6 characters, 17 patterns; strings of 450 characters, 9 visitors",
         "thorough": "histories of <= 5 operations; strings of <= 8 characters"}
OPS = [(o, m, k) for o in ("read", "get", "write0", "put1", "del", "under") for m in (0, 1) for k in ("x", 2)]
PATTERNS = ["a", "ab|a", "a*", "b+", "(a)(b)?", "", "a|", "[ab]", "aa", "(?=a)", "b$", "^a", ".", "c", "\\s?a\\s?", "\\s+", "\\Sa? "]


def shards(tier):
    deep = tier != "quick"
    return [("map", i, 5 if deep else 4) for i in range(len(OPS))] + [("ro",), ("single",), ("big",)] + [("agg", i) for i in range(4)] + \
        [("tok", i, 8 if deep else 6) for i in range(len(PATTERNS))]


def cases(shard):
    if shard[0] == "map":
        _, i, n = shard
        for k in range(n):
            for rest in product(range(len(OPS)), repeat=k):
                for shared in (0, 1):
                    yield ("map", (i,) + rest, shared)
    elif shard[0] == "agg":
        for j, es in enumerate(edge_sets(3, 4)):
            if j % 4 == shard[1]:
                for k in range(4):
                    for classes in product(range(4), repeat=k):
                        if k < 3 or j % 16 == shard[1]:
                            for alg in ("bfs", "dfs", "dijkstra"):
                                yield ("agg", es, classes, alg)
    elif shard[0] == "big":
        for n in (20, 150):
            for i in range(len(PATTERNS)):
                for s in ("a" * n, "ab" * n, "c" * n + "ab", "abcab" * (n // 4), "b" + "a" * n, "aab" * n + "c"):
                    yield ("tok", i, s)
        for es in (((0, 1), (1, 2)), ((0, 1), (1, 0), (0, 2))):
            for classes in ((0, 1, 2, 3, 0), (3, 3, 3, 3), (0, 1, 0, 1, 0, 1), (2, 1, 0) * 3, (0,) * 8, (0, 1, 2) * 20):
                for alg in ("bfs", "dfs", "dijkstra"):
                    yield ("agg", es, classes, alg)
        for ops in ((0, 8, 4, 1, 9, 5) * 4, tuple(range(len(OPS))), tuple(range(len(OPS)))[::-1] * 2):
            for shared in (0, 1):
                yield ("map", tuple(i % len(OPS) for i in ops), shared)
    elif shard[0] == "tok":
        _, i, n = shard
        for k in range(n + 1):
            for s in product("ab \n" if len(PATTERNS[i]) > 3 and "s" in PATTERNS[i].lower() and k < 6 else "abc" if k < 5 else "ab", repeat=k):
                yield ("tok", i, "".join(s))
    elif shard[0] == "ro":
        for what in ("func", "identity", "constant", "changing"):
            for ops in product(("read", "write", "put", "del", "get") + (("change",) if what == "changing" else ()), repeat=4):
                yield ("ro", what, ops)
    else:
        for order in product(range(3), repeat=5):
            yield ("single", order)


def check(case, st):
    globals()["check_" + case[0]](case, st)


def check_map(case, st):
    _, ops, shared = case
    made = []

    def new_dict(i):
        def default():
            return "default%d" % i
        d = defaultdict(default)
        made.append(d)
        return d
    d0 = new_dict(0)
    ds = [d0, d0 if shared else new_dict(1)]
    maps = [make_assoc_property_map(d) for d in ds]
    models = [{}, {}]
    if shared:
        models[1] = models[0]
    default = lambda m: "default%d" % (0 if shared else m)
    for i in ops:
        o, m, k = OPS[i]
        pm, mod = maps[m], models[m]
        if o in ("read", "get"):
            v = pm[k] if o == "read" else get(pm, k)
            require(v == mod.get(k, default(m)), "the value of %r is %r, expected %r", k, v, mod.get(k, default(m)))
        elif o == "write0":
            pm[k] = mod[k] = "v%d" % m
            st.interesting()
        elif o == "put1":
            put(pm, k, None)
            mod[k] = None
            st.interesting()
        elif o == "under":
            ds[m][k] = mod[k] = "under"
        else:
            try:
                del pm[k]
            except RuntimeError:
                pass
            else:
                require(False, "a key can be deleted")
    for m in (0, 1):
        for k in ("x", 2, "never"):
            require(maps[m][k] == models[m].get(k, default(m)), "finally, %r is %r in map %d, expected %r", k, maps[m][k], m, models[m].get(k, default(m)))
        written = {k: v for k, v in ds[m].items() if k in models[m] or v != default(m)}
        require(written == models[m], "the dictionary holds %s, expected %s", dict(ds[m]), models[m])
        require(isinstance(maps[m], ReadWritePropertyMap), "type")


def check_ro(case, st):
    _, what, ops = case
    calls = []
    state = [0]
    pm = {"func": lambda: make_func_property_map(lambda k: (calls.append(k), (k, "f"))[1]), "identity": identity_property_map,
          "changing": lambda: make_func_property_map(lambda k: (k, state[0])),
          "constant": lambda: make_constant_property_map([1])}[what]()
    want = {"func": lambda k: (k, "f"), "identity": lambda k: k, "constant": lambda k: [1], "changing": lambda k: (k, state[0])}[what]
    for i, o in enumerate(ops):
        k = (0 if what == "changing" else i, "k")
        if o == "change":
            state[0] += 1
            continue
        if o in ("read", "get"):
            v = pm[k] if o == "read" else get(pm, k)
            require(v == want(k), "the value of %r is %r", k, v)
            st.interesting()
            continue
        try:
            if o == "write":
                pm[k] = 0
            elif o == "put":
                put(pm, k, 0)
            else:
                del pm[k]
        except RuntimeError:
            continue
        require(False, "%s is accepted by a read-only map", o)
    require(isinstance(pm, ReadPropertyMap), "type")
    require(what != "func" or calls == [(i, "k") for i, o in enumerate(ops) if o in ("read", "get")], "calls of the function %s", calls)
    try:
        make_assoc_property_map({})
    except TypeError:
        return
    require(False, "a plain dict is accepted as the storage of a property map")


class Recorder:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def __getattr__(self, event):
        if event.startswith("__"):
            raise AttributeError(event)

        def f(*args, **kwargs):
            self.log.append((self.name, event, tuple(a if isinstance(a, int) else (a.source, a.target, a.distinguisher) if hasattr(a, "distinguisher") else type(a).__name__ for a in args),
                             tuple(sorted(kwargs.items()))))
        return f


# the name of a class starts, or ends, with the name of another one
class RecorderOther(Recorder):
    pass


class SubRecorder(Recorder):
    pass


CLASSES = (Recorder, RecorderOther, SubRecorder)


def run(alg, es, vis):
    g, descr = build_graph("D", 3, es)
    vs = sorted(g.vertices())
    if alg == "bfs":
        breadth_first_search(vs[0], g, vis=vis)
    elif alg == "dfs":
        depth_first_search_graph(g, vis=vis)
    else:
        dijkstra_shortest_paths(g, vs[0], make_func_property_map(lambda e: 1 + e.source), make_assoc_property_map(defaultdict(set)), make_assoc_property_map(defaultdict(int)), vis=vis)


def check_agg(case, st):
    """Each nested visitor is notified of exactly what it is notified of alone, event by event, in the order of the list."""
    _, es, classes, alg = case
    alone = []
    run(alg, es, Recorder(alone, 0))
    log, visitors, names = [], [], []
    for i, c in enumerate(classes):
        if c == 3:
            # nested aggregation
            visitors.append(AggregatedVisitor([Recorder(log, (i, 0)), RecorderOther(log, (i, 1))]))
            names += [(i, 0), (i, 1)]
        else:
            visitors.append(CLASSES[c](log, (i,)))
            names.append((i,))
    agg = AggregatedVisitor(visitors) if visitors else AggregatedVisitor()
    run(alg, es, agg)
    want = [(name,) + ev[1:] for ev in alone for name in names]
    require(log == want, "the visitors are notified of %s, expected %s", log, want)
    # events of any name and arguments
    del log[:]
    agg.on_something(1, 2, key="v")
    require(log == [(name, "on_something", (1, 2), (("key", "v"),)) for name in names], "arguments of an event: %s", log)
    key = AggregatedVisitor.type_to_key
    require(agg.keys() == {key(v) for v in visitors}, "keys %s", agg.keys())
    for v in visitors:
        first = [w for w in visitors if type(w) is type(v)][0]
        require(agg.get(key(v)) is first, "get(%r)", key(v))
    for c in CLASSES:
        if c not in [type(v) for v in visitors]:
            miss = object()
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                require(agg.get(key(c([], 0)), miss) is miss and agg.get(key(c([], 0))) is None, "get of an absent visitor")
    if names and es:
        st.interesting()


def check_single(case, st):
    made = []

    class A(metaclass=Singleton):
        def __init__(self, x=0):
            made.append(("A", x))
            self.x = x

    class B(metaclass=Singleton):
        def __init__(self, x=0):
            made.append(("B", x))
            self.x = x

    class C(A):
        pass
    got = {}
    first = {}
    for i, c in enumerate(case[1]):
        cls = (A, B, C)[c]
        x = cls(i) if i % 2 else cls(x=i)
        first.setdefault(c, i)
        require(got.setdefault(c, x) is x, "two instances of a singleton")
        require(type(x) is cls and x.x == first[c], "the instance has type %s and value %s", type(x), x.x)
    require(len(made) == len(got), "constructions %s", made)
    st.interesting()


def check_tok(case, st):
    """Matched and unmatched pieces tile the text, in order; matched ones are those of the regular expression."""
    _, i, s = case
    pat = re.compile(PATTERNS[i])
    seen = []

    class Vis(TokenizeVisitor):
        def on_unmatched(self, x, start, end, text):
            seen.append(("u", x, start, end, text))

        def on_matched(self, x, start, end, text):
            seen.append(("m", x, start, end, text))
    tokenize(pat, s, Vis())
    pos, matched = 0, []
    for j, (kind, x, start, end, text) in enumerate(seen):
        require(text == s, "the text given is %r", text)
        require(x != "", "empty piece notified")
        stop = start + len(x) if end is None else end
        require(end is not None or (kind == "u" and j == len(seen) - 1), "no end for a piece that is not last")
        require(start == pos and s[start:stop] == x, "piece %r at %s:%s of %r, expected at %d", x, start, end, s, pos)
        pos = stop
        if kind == "m":
            matched.append((start, stop))
    require(pos == len(s), "the end of %r is not notified", s)
    # the leftmost non-empty matches, scanned from the end of the previous match
    want = [m.span() for m in pat.finditer(s) if m.group(0)]
    require(matched == want, "matched pieces %s of %r, expected %s", matched, s, want)
    tokenize(pat, s)
    if matched:
        st.interesting()
