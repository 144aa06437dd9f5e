"""Words, and the exact content of a trie read through its observers."""
from itertools import combinations, product
from pybgl.trie import Trie
from pybgl.digital_sequence import DigitalSequence
from .core import require


def words(k, syms="ab", lo=0):
    return ["".join(t) for n in range(lo, k + 1) for t in product(syms, repeat=n)]


def prefixes(ws):
    return {w[:i] for w in ws for i in range(len(w) + 1)} | {""}


def subsets(items, lo, hi):
    for k in range(lo, hi + 1):
        yield from combinations(items, k)


def content(t, what="the trie"):
    """{prefix: (state, final)} of a trie; checks that it is a tree of the expected shape."""
    out = {}
    todo = [("", t.initial())]
    seen = set()
    while todo:
        w, q = todo.pop()
        require(q not in seen, "%s is not a tree: state %r is reached twice", what, q)
        seen.add(q)
        out[w] = (q, bool(t.is_final(q)))
        for e in t.out_edges(q):
            require(t.source(e) == q and t.delta(q, t.label(e)) == t.target(e), "%s: edge %s is not a transition", what, e)
            todo.append((w + t.label(e), t.target(e)))
    require(set(t.vertices()) == seen, "%s has states that no word reaches: %r", what, set(t.vertices()) - seen)
    return out


def check_trie(t, ws, what="the trie", longest=None):
    """t is exactly the trie of the set of words ws."""
    got = content(t, what)
    ps = prefixes(ws)
    require(set(got) == ps, "%s: its prefixes are %r, expected %r", what, sorted(got), sorted(ps))
    acc = {w for w, (q, f) in got.items() if f}
    require(acc == set(ws), "%s: it holds the words %r, expected %r", what, sorted(acc), sorted(ws))
    require({q for w, (q, f) in got.items() if f} == set(t.finals()), "%s: finals() = %r", what, set(t.finals()))
    require(t.num_vertices() == len(ps) and t.num_edges() == len(ps) - 1, "%s: num_vertices() = %r, num_edges() = %r", what, t.num_vertices(), t.num_edges())
    require(sum(1 for _ in t.edges()) == len(ps) - 1, "%s: edges() lists %d edges", what, sum(1 for _ in t.edges()))
    for w in ps | set(ws):
        require(t.accepts(w) == (w in ws), "%s: accepts(%r) = %r", what, w, t.accepts(w))
        require(not t.accepts(w + "~"), "%s accepts %r", what, w + "~")


def make(kind, ws):
    """A trie of the words: 's' in order, 'r' in reverse order, 'f' one after the other by fusion, 'o' with shifted states, 'd' digital sequence (one word),
    'n' built by hand, the longest prefixes first (the initial state is the last one), 'c' in a trie that was cleared, 'u' with states that are no longer reachable."""
    if kind == "d":
        (w,) = ws
        return DigitalSequence(w)
    if kind == "n":
        t, ps = Trie(num_vertices=0), sorted(prefixes(ws), key=lambda p: (-len(p), p))
        q = {p: t.add_vertex() for p in ps}
        for p in ps[:-1]:
            t.add_edge(q[p[:-1]], q[p], p[-1])
        t.set_initial(q[""])
        for w in ws:
            t.set_final(q[w])
        return t
    if kind == "c":
        t = Trie()
        t.insert("abba")
        t.insert("b")
        t.clear()
        t.set_initial(t.add_vertex())
    elif kind == "u":
        t = Trie()
        t.insert("zzz")
        t.insert("zyz")
        t.remove_vertex(t.delta_word(t.initial(), "z"))
    elif kind == "o":
        t = Trie(num_vertices=0)
        for _ in range(300):
            t.remove_vertex(t.add_vertex())
        t.set_initial(t.add_vertex())
    else:
        t = Trie()
    for w in (reversed(ws) if kind == "r" else ws):
        if kind == "f":
            u = Trie()
            u.insert(w)
            t.insert(u)
        else:
            t.insert(w)
    return t


def image(t):
    return (list(t.vertices()), [(t.source(e), t.target(e), t.label(e)) for e in t.edges()], t.initial(), sorted(t.finals()))


def wide_sets():
    """Larger sets of words: many words, many symbols, long words."""
    letters = [chr(33 + i) for i in range(40)]
    return [tuple(words(6)), tuple(words(6)[1::2]), tuple(w for w in words(5) if w.count("a") == 2), tuple(letters), tuple(letters[20:]) + ("!!", "#"),
            tuple(x + y for x in letters[::4] for y in letters[::3]), tuple("ab" * k + "c" for k in range(20)), tuple("a" * k for k in range(0, 60, 7)), ("a" * 300, "a" * 150 + "b" * 150, "b"),
            tuple(str(k) for k in range(0, 200, 3)), tuple(str(k) for k in range(0, 200, 2)), (), ("",)]
