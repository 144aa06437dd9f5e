from itertools import permutations, product
from pybgl.bk_tree import BKTree, bk_tree_insert, make_bk_tree
from pybgl.lcs_distance import lcs_distance
from pybgl.levenshtein_distance import levenshtein_distance
from mc.core import require
from mc.tries import words
ID, LEVEL = "C32", "exploration"
RULE = ("every sequence of insertions of bounded length (duplicates included) over small metric spaces (words with two edit distances, integers with three metrics), then every query "
        "with every radius; search is compared with the minimum over the inserted elements. In every tree each edge is labelled with the distance of its ends. "
        "A case is non-trivial when the tree has a vertex at depth two.")
ASSUMPTIONS = ["the distance is a metric", "any element at minimal distance may be returned"]
BOUND = {"quick": "sequences of <= 5 elements over 7 words, sequences of <= 6 elements over 7 integers, all permutations of 7 integers, every query and radius; sets of 31 words and 53 integers",
         "thorough": "sequences of <= 6 words and <= 7 integers"}


def discrete(x, y):
    return int(x != y)


def absolute(x, y):
    return abs(x - y)


def ring(x, y):
    return min((x - y) % 8, (y - x) % 8)


METRICS = {"lev": levenshtein_distance, "lcs": lcs_distance, "abs": absolute, "ring": ring, "discrete": discrete, "default": levenshtein_distance}
WORDS = words(2)
INTS = (0, 1, 2, 3, 5, 6, 7)


def shards(tier):
    q = tier == "quick"
    out = [("lev", 5 if q else 6, i) for i in range(16)] + [("lcs", 4 if q else 5, i) for i in range(8)] + [("abs", 6 if q else 7, i) for i in range(16)]
    out += [("ring", 5 if q else 6, i) for i in range(8)] + [("discrete", 3, i) for i in range(4)] + [("default", 2, 0)]
    out += [("perm", 7, i) for i in range(8)] + [("words",), ("clear",), ("deep",)]
    return out


def cases(shard):
    if shard[0] == "perm":
        for m in ("abs", "ring"):
            for j, p in enumerate(permutations((0, 1, 2, 3, 5, 6, 7)[:shard[1]])):
                if j % 8 == shard[2]:
                    yield (m, p)
    elif shard[0] == "clear":
        # None: the tree is cleared
        for m, items in (("abs", (0, 1, 3, 7)), ("lev", ("", "a", "ab", "bb")), ("ring", (0, 2, 7))):
            for k in (1, 2, 3, 4, 5):
                for t in product(items + (None,), repeat=k):
                    if None in t:
                        yield (m, t)
    elif shard[0] == "deep":
        # each element is the only child of the previous one; one element with many children
        for n in (300, 1500):
            yield ("discrete", tuple(range(n)))
            yield ("abs", tuple(range(n)))
            yield ("abs", tuple(range(n, 0, -1)))
            yield ("abs", tuple(7 * i % n for i in range(n)))
    elif shard[0] == "words":
        ws = ("book", "books", "cake", "boo", "boon", "cook", "cape", "cart")
        for i in range(8):
            for k in (1, 3, 5):
                yield ("lev", tuple(ws[(i + k * j) % 8] for j in range(8)) + ws[:2])
                yield ("default", tuple(ws[(i + k * j) % 8] for j in range(8)) + ws[:2])
                yield ("lcs", tuple(ws[(i + k * j) % 8] for j in range(6)))
        for k in (1, 3, 7, 10, 30, 52):
            yield ("abs", tuple(k * j % 53 for j in range(53)))
            yield ("abs", tuple((k * j % 53) ** 2 for j in range(40)))
            yield ("discrete", tuple(k * j % 53 for j in range(40)))
            yield ("lev", tuple(words(4)[k * j % 31] for j in range(31)))
            yield ("lcs", tuple(words(4)[k * j % 31] for j in range(31)))
            yield ("lev", tuple("ab" * (k * j % 31) for j in range(31)))
    else:
        metric, n, i = shard
        m = {"lev": 16, "abs": 16, "lcs": 8, "ring": 8, "discrete": 4, "default": 1}[metric]
        items = WORDS if metric in ("lev", "lcs", "default") else INTS
        j = 0
        for k in range(n + 1):
            for t in product(items, repeat=k):
                j += 1
                if j % m == i:
                    yield (metric, t)


def check(case, st):
    metric, items = case
    d = METRICS[metric]
    if metric == "default":
        t = make_bk_tree(iter(items))
        where = {}
        for x in items:
            where[x] = t.insert(x)
    else:
        t = BKTree(d)
        where = {}
        # the same tree in one call
        for k, x in enumerate(items):
            if x is None:
                t.clear()
                where = {}
                require(t.num_vertices() == 0 and t.search(items[0] or items[-1]) is None, "a cleared tree is not empty (%r)", items)
                continue
            u = t.insert(x) if k % 2 else bk_tree_insert(x, t)
            require(where.get(x, u) == u, "inserting %r again led to another vertex (%r)", x, items)
            require(x in where or (u not in where.values() if len(items) < 100 else t.num_vertices() == len(where) + 1), "inserting %r took the vertex of another element (%r)", x, items)
            where[x] = u
        while None in items:
            items = items[items.index(None) + 1:]
        t2 = make_bk_tree(iter(items), d) if len(items) % 2 else make_bk_tree(list(items), distance=d)
    elements = set(items)
    if metric != "default":
        require(t2.num_vertices() == len(elements) and {t2.element(u) for u in t2.vertices()} == elements, "make_bk_tree(%r)", items)
        for e in t2.edges():
            x, y = t2.element(t2.source(e)), t2.element(t2.target(e))
            require(t2.label(e) == d(x, y), "make_bk_tree: edge %r -> %r labelled %r", x, y, t2.label(e))
    require(t.num_vertices() == len(elements), "%d vertices for %r", t.num_vertices(), items)
    require({t.element(u) for u in t.vertices()} == elements, "elements %r for %r", [t.element(u) for u in t.vertices()], items)
    for x in elements:
        require(t.element(where[x]) == x, "element(insert(%r)) = %r", x, t.element(where[x]))
    below = {}
    children = {}
    for e in t.edges():
        u, v = t.source(e), t.target(e)
        require(t.label(e) == d(t.element(u), t.element(v)), "edge %r -> %r labelled %r", t.element(u), t.element(v), t.label(e))
        children.setdefault(u, []).append(v)
    require(t.num_edges() == max(0, len(elements) - 1), "%d edges for %r", t.num_edges(), items)

    def collect(u):
        order = [u]
        for v in order:
            order += children.get(v, ())
            require(len(order) <= len(elements), "a vertex has two parents (%r)", items)
        for v in reversed(order if len(order) < 100 else ()):
            below[v] = {t.element(v)}.union(*[below[w] for w in children.get(v, ())])
        return {t.element(v) for v in order}
    if items:
        require(collect(where[items[0]]) == elements, "the tree of %r is not connected to its first element", items)
        if any(w in children for v in children.get(where[items[0]], ()) for w in children.get(v, ())) or any(v in children for v in children.get(where[items[0]], ())):
            st.interesting()
    queries = (WORDS + ["aba", "bbbb", "c"]) if metric in ("lev", "lcs", "default") else list(range(9)) + [12]
    if len(items) > 7:
        queries = (list(range(0, 60, 4)) + [300, 1681] if len(items) < 100 else [0, 150, len(items) + 2]) if isinstance(items[0], int) else ["book", "boy", "card", "curry", "", "ca", "zzzzzz", "cooks"]
    for w in queries:
        ds = [d(w, x) for x in elements]
        best = min(ds) if ds else None
        for radius in (None, 0, 1, 2, 3):
            got = t.search(w) if radius is None else t.search(w, radius)
            if best is None or (radius is not None and best > radius):
                require(got is None, "search(%r, %r) in %r: %r but expected None", w, radius, items, got)
            else:
                require(got is not None and got[1] == best and got[0] in elements and d(w, got[0]) == best,
                        "search(%r, %r) in %r: %r but the minimum is %r", w, radius, items, got, best)
        if len(elements) > 1 and len(items) < 5:
            for r, sub in below.items():
                got = t.search(w, 2, r)
                b = min(d(w, x) for x in sub)
                require(got is None if b > 2 else got is not None and got[0] in sub and got[1] == b == d(w, got[0]),
                        "search(%r, 2, vertex of %r) in %r: %r but the minimum is %r", w, t.element(r), items, got, b)
    require(t.num_vertices() == len(elements), "search modified the tree")
