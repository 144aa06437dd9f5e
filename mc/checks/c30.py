from collections import Counter
from pybgl.automaton import BOTTOM, delta, is_final, initial
from pybgl.deterministic_inclusion import deterministic_inclusion
from pybgl.deterministic_intersection import deterministic_intersection
from pybgl.deterministic_union import deterministic_union
from pybgl.digital_sequence import DigitalSequence
from pybgl.suffix_trie import factors, make_suffix_trie, slices
from pybgl.trie import Trie
from pybgl.graph import is_directed
from mc.core import Violation, require
from mc.lang import difference, real_machine, Machine
from mc.tries import check_trie, content, image, make, prefixes, subsets, words
ID, LEVEL = "C30", "exploration"
RULE = ("slices, factors and suffix tries of every word of the bounded space, with every bound on the length, alone or accumulated in one trie; every observer of the "
        "digital sequence of every word, and its union, intersection and inclusion with every small trie. A case is non-trivial when the word has a repeated factor.")
ASSUMPTIONS = ["a bound of 0 on the length means no bound", "final states of a suffix trie built in a trie given by the caller are left unspecified"]
BOUND = {"quick": "words of length <= 11 over {a,b}, <= 7 over {a,b,c}, every bound; pairs of words of length <= 3; n <= 30 for slices; words of up to 600 symbols, n = 150",
         "thorough": "words of length <= 13 over {a,b}, <= 9 over {a,b,c}"}


def shards(tier):
    n, m = (11, 7) if tier == "quick" else (13, 9)
    return [("word", n, "ab", i) for i in range(8)] + [("word", m, "abc", i) for i in range(8)] + [("slices",), ("pairs",), ("odd",)] + [("ops", i) for i in range(4)]


def cases(shard):
    part = shard[0]
    if part == "word":
        for j, w in enumerate(words(shard[1], shard[2])):
            if j % 8 == shard[3]:
                yield ("word", w)
    elif part == "slices":
        for n in list(range(31)) + [64, 150]:
            for m in [None] + list(range(n + 3)) if n < 50 else (None, 1, 31, 32, 33, n - 1, n, n + 1):
                yield ("slices", n, m)
    elif part == "pairs":
        for v in words(3):
            for w in words(3) + ["abab", "cab"]:
                for m in (None, 1, 2, 4):
                    yield ("pairs", v, w, m)
    elif part == "odd":
        for w in ("ananas", "banana", "mississippi", "a" * 60, "ab" * 40, "0\n é\"", "abcdefghijklmnopqrstuvwxyz", "ab" * 60 + "ba", "".join(chr(40 + i * i % 67) for i in range(100)), "a" * 599 + "b", "b" + "a" * 599, "ab" * 200, "".join(chr(40 + i * i % 67) for i in range(300))):
            yield ("word", w)
    elif part == "ops":
        for j, x in enumerate(subsets(words(2), 0, 3)):
            if j % 4 == shard[1]:
                for w in words(3):
                    yield ("ops", x, w)


def all_factors(w, m):
    return {w[i:j] for i in range(len(w) + 1) for j in range(i, len(w) + 1) if not m or j - i <= m}


def reached(t):
    """The words that lead somewhere in a trie."""
    todo, out = [("", t.initial())], set()
    while todo:
        w, q = todo.pop()
        require(w not in out and len(w) < 50, "%r leads to two states", w)
        out.add(w)
        todo += [(w + t.label(e), t.target(e)) for e in t.out_edges(q)]
    return out


def raises(f, *args):
    try:
        f(*args)
    except Exception:
        return True
    return False


def check(case, st):
    kind = case[0]
    if kind == "slices":
        n, m = case[1:]
        got = Counter(slices(n, m) if m is not None else slices(n))
        want = Counter([(0, 0)] + [(i, j) for i in range(n) for j in range(i + 1, n + 1) if not m or j - i <= m])
        require(got == want, "slices(%r, %r): %r", n, m, sorted(got.items()))
        return
    if kind == "word":
        w = case[1]
        bounds = [None] + list(range(1, len(w) + 2)) if len(w) < 12 else [None, 1, 3, len(w) - 1, len(w)]
        for m in bounds:
            got = Counter(factors(w, m) if m else factors(w))
            want = Counter(w[i:j] for i in range(len(w)) for j in range(i + 1, len(w) + 1) if not m or j - i <= m)
            want[""] = 1
            require(got == want, "factors(%r, %r): %r", w, m, got)
            t = make_suffix_trie(w, m) if m else make_suffix_trie(w)
            fs = all_factors(w, m)
            check_trie(t, fs, "make_suffix_trie(%r, %r)" % (w, m))
            require(not t.is_final(BOTTOM), "make_suffix_trie(%r, %r): the missing state is final", w, m)
            g = Trie()
            r = make_suffix_trie(w, m, g)
            require(r is g and set(content(g)) == fs, "make_suffix_trie(%r, %r) in a given trie", w, m)
            if len(w) > 40:
                continue
            if len(fs) < len(want) + sum(want.values()) - len(want):
                st.interesting()
        sequence(w)
    elif kind == "pairs":
        v, w, m = case[1:]
        g = Trie()
        make_suffix_trie(v, m, g)
        make_suffix_trie(w, m, g)
        fs = all_factors(v, m) | all_factors(w, m)
        got = content(g, "the suffix trie of two words")
        require(set(got) == fs, "suffix trie of %r and %r (max_len %r): %r", v, w, m, sorted(got))
        for k in "oucrn":        # in a trie whose initial state is not 0, or with unreachable states, or cleared
            t = make(k, (v,) if k != "r" else (v, "zb"))
            extra = prefixes([v]) | (prefixes(["zb"]) if k == "r" else set())
            make_suffix_trie(w, m, t)
            got = {u for u in reached(t)}
            require(got == all_factors(w, m) | extra, "suffix trie of %r (max_len %r) in a trie (%s) that holds %r: %r", w, m, k, v, sorted(got))
            require(t.accepts(v), "a word of the trie was lost")
        t.clear()
        make_suffix_trie(w, m, t)
        require(set(content(t)) == all_factors(w, m), "suffix trie of %r (max_len %r) in a cleared trie", w, m)
        t = make_suffix_trie(w, m, Trie(num_vertices=0))
        require(set(content(t)) == all_factors(w, m), "suffix trie of %r (max_len %r) in an empty trie", w, m)
        t = make_suffix_trie(w, m, make_suffix_trie(v, m))
        check_trie(t, fs, "suffix trie of %r and %r (max_len %r)" % (v, w, m))
        t = Trie()
        t.insert("ca")
        make_suffix_trie(v, m, t)
        require(set(content(t)) == all_factors(v, m) | prefixes(["ca"]), "suffix trie of %r in a trie that holds ca", v)
        require(t.accepts("ca"), "a word of the trie was lost")
    else:
        x, w = case[1:]
        t, g = make("sn"[len(w) % 2], x), DigitalSequence(w)
        it, ig = image(t), image(g)
        ref = lambda ws: Machine("", lambda q, a: q + a if any(v.startswith(q + a) for v in ws) else None, lambda q: q in ws)
        for (p, q) in ((t, g), (g, t)):
            u = deterministic_union(p, q)
            d, _ = difference(real_machine(u), ref(set(x) | {w}), "ab")
            require(d is None, "union of %r and of the sequence %r: wrong on %r", x, w, d)
            u = deterministic_intersection(p, q)
            d, _ = difference(real_machine(u), ref(set(x) & {w}), "ab")
            require(d is None, "intersection of %r and of the sequence %r: wrong on %r", x, w, d)
        a, b = {w}, set(x)
        want = 0 if a == b else 1 if a < b else -1 if a > b else None
        r = deterministic_inclusion(g, t)
        require(r == want, "deterministic_inclusion(sequence %r, %r) = %r but expected %r", w, x, r, want)
        require(image(t) == it and image(g) == ig, "an operand was modified")


def sequence(w):
    g = DigitalSequence(w)
    n = len(w)
    what = "DigitalSequence(%r)" % w
    require(list(g.vertices()) == list(range(n + 1)) and g.num_vertices() == n + 1 and g.num_edges() == n, "%s: vertices %r", what, list(g.vertices()))
    require(g.directed is True and is_directed(g), "%s is not directed", what)
    require(g.has_vertex() is True and g.has_edge() is (n > 0), "%s: has_vertex, has_edge", what)
    es = [(g.source(e), g.target(e), g.label(e)) for e in g.edges()]
    require(sorted(es) == [(i, i + 1, w[i]) for i in range(n)], "%s: edges %r", what, es)
    require(set(g.alphabet()) == set(w), "%s: alphabet %r", what, g.alphabet())
    require(g.initial() == 0 and initial(g) == 0 and set(g.finals()) == {n}, "%s: initial or final states", what)
    letters = set(w) | {"z"}
    for q in range(n + 1):
        require(g.is_initial(q) == (q == 0) and g.is_final(q) == (q == n) and is_final(q, g) == (q == n), "%s: flags of state %d", what, q)
        outs = [(g.source(e), g.target(e), g.label(e)) for e in g.out_edges(q)]
        ins = [(g.source(e), g.target(e), g.label(e)) for e in g.in_edges(q)]
        require(outs == ([(q, q + 1, w[q])] if q < n else []) and g.out_degree(q) == len(outs), "%s: out-edges of %d: %r", what, q, outs)
        require(ins == ([(q - 1, q, w[q - 1])] if q else []) and g.in_degree(q) == len(ins), "%s: in-edges of %d: %r", what, q, ins)
        require(set(g.sigma(q)) == set(w[q:q + 1]), "%s: sigma(%d) = %r", what, q, g.sigma(q))
        for a in letters:
            r = q + 1 if w[q:q + 1] == a else BOTTOM
            require(g.delta(q, a) == r and delta(q, a, g) == r, "%s: delta(%d, %r) = %r", what, q, a, g.delta(q, a))
        require(g.accepts(w[:q]) == (q == n), "%s: accepts(%r)", what, w[:q])
    require(not g.accepts(w + "z") and not g.accepts("z" + w), "%s accepts too much", what)
    require(g.delta(BOTTOM, "a") is BOTTOM and not g.sigma(BOTTOM) and not g.is_final(BOTTOM), "%s: missing state", what)
    for f, args in ((g.add_vertex, ()), (g.add_edge, (0, 0, "a")), (g.remove_vertex, (0,)), (g.insert, ("a",)), (g.set_final, (0,)), (g.set_initial, (n,)),
                    (g.remove_edge, (next(iter(g.edges()), None),))):
        require(raises(f, *args), "%s: %s does not raise", what, f.__name__)
    require(list(g.vertices()) == list(range(n + 1)) and g.accepts(w), "%s was modified", what)
