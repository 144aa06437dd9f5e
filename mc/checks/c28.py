from itertools import permutations, product
from pybgl.trie import Trie
from mc.core import require
from mc.tries import check_trie, image, make, subsets, wide_sets, words
ID, LEVEL = "C28", "exploration"
RULE = ("every sequence of insertions of bounded length into a trie (each one a word, a digital sequence or another trie, itself built in several ways), "
        "and the fusion of every pair of small tries; after each insertion the trie is compared with the trie of the union of the words (prefixes, final states, "
        "counts, tree shape), and the inserted trie with its former content. A case is non-trivial when an inserted trie shares a prefix with the trie and adds states.")
ASSUMPTIONS = ["the inserted objects are words, tries or digital sequences"]
BOUND = {"quick": "fusion of all pairs of sets of words of length <= 2 over {a,b} (2 numberings); sequences of 3 insertions of words of length <= 2, of 2 words of length <= 3 as words, tries or digital sequences; sets of <= 2 words of length <= 4 x 1 word; sets of up to 127 words, 40 symbols, words of 300 symbols",
         "thorough": "sets of <= 3 words of length <= 3 x sets of <= 3 words of length <= 3; sequences of 4 insertions"}


def shards(tier):
    out = [("fusion", i) for i in range(16)] + [("seq3", i) for i in range(8)] + [("seq2", i) for i in range(8)] + [("abc", i) for i in range(4)] + [("long",), ("self",), ("wide",), ("clear",)]
    if tier != "quick":
        out += [("big", i) for i in range(32)] + [("seq4", i) for i in range(16)]
    return out


def cases(shard):
    part, i = shard[0], shard[1] if len(shard) > 1 else 0
    if part == "fusion":
        sets = list(subsets(words(2), 0, 7))
        for j, x in enumerate(sets):
            if j % 16 == i:
                for k, y in enumerate(sets):
                    yield (("s", "r", "f", "=n", "=o")[j % 5], x), (("ts", "tr", "to", "tn")[(j + k) % 4], y)
    elif part == "seq3":
        items = [("w", (w,)) for w in words(2)] + [("t" + k, s) for s in subsets(words(2), 2, 2) for k in "s"] + [("d", (w,)) for w in ("", "ab", "a")]
        for j, t in enumerate(product(items, repeat=3)):
            if j % 8 == i:
                yield t
    elif part == "seq4":
        items = [("w", (w,)) for w in words(2)] + [("ts", s) for s in (("ab", "b"), ("a", "aa"), ("", "ba"), ("bb", "ba"))]
        for j, t in enumerate(product(items, repeat=4)):
            if j % 16 == i:
                yield t
    elif part == "seq2":
        for j, t in enumerate(product([(k, (w,)) for w in words(3) for k in ("w", "ts", "to", "tn", "d")], repeat=2)):
            if j % 8 == i:
                for last in ("abab", "bb", ""):
                    yield t + (("d", (last,)), ("w", ("a" + last,)))
    elif part == "abc":
        for j, x in enumerate(subsets(words(4), 1, 2)):
            if j % 4 == i:
                for y in words(2, "abc") + ["abab", "bbab", "cab"]:
                    yield (("w", x[:1]), ("to", x), ("d", (y,)))
    elif part == "big":
        sets = list(subsets(words(3), 1, 3))
        for j, x in enumerate(sets):
            if j % 32 == i:
                for k, y in enumerate(sets):
                    yield (("ts", x), ("to" if (j + k) % 2 else "tr", y))
    elif part == "long":
        for n in (10, 60, 150):
            for x in ("a" * n, "ab" * (n // 2), "a" * n + "b"):
                for y in ("a" * (n - 1) + "b", "a" * (n + 5), "b" + "a" * n, "", "0\n é"):
                    for k in ("w", "d", "ts", "to"):
                        yield (("w", (x,)), (k, (y,)), ("w", (x + y,)), (k, (y + x,)))
        for ws in permutations(("boxeur", "bougie", "ananas", "bonsoir", "ana")):
            yield tuple(("w" if j % 2 else "ts", (w,)) for j, w in enumerate(ws))
    elif part == "wide":
        big = wide_sets()
        for j, x in enumerate(big):
            for k, y in enumerate(big):
                yield (("s", "r", "f", "=n")[(j + k) % 4], x), (("ts", "tr", "to", "tn")[k % 4], y)
            yield (("ts", x),) + tuple(("d" if k % 2 else "w", (w,)) for k, w in enumerate(big[(j + 1) % len(big)][::3]))[:12]
    elif part == "clear":
        items = [("w", (w,)) for w in ("", "a", "ab", "bb")] + [("ts", s) for s in ((), ("",), ("ab", "b"), ("a", "aa"))] + [("to", ("ab", "b")), ("e", ()), ("d", ("ab",)), ("d", ("",)), ("c", ())]
        for k in (1, 2, 3, 4):
            for t in product(items, repeat=k):
                if ("c", ()) in t:
                    yield t
        for x in items[:-1]:
            for y in items[:-1]:
                yield (("empty", ()), x, y)
                yield (("moved", ()), x, y)
        yield (("w", ("a" * 300,)), ("c", ()), ("w", ("b" * 300,)), ("ts", ("a" * 300, "ab")))
    elif part == "self":
        for s in subsets(words(2), 0, 7):
            yield (("ts", s), ("self", ()))


def check(case, st):
    t, ws = Trie(), set()
    for kind, xs in case:
        what = "the trie after %r" % (case,)
        if kind == "c":
            t.clear()
            ws = set()
        elif kind == "empty":
            t = Trie(num_vertices=0) if case[1][0] != case[2][0] else Trie(0)
        elif kind[0] == "=":
            t = make(kind[1], xs)
        elif kind == "moved":
            t = make("o", ())
        elif kind == "e":
            t.insert(Trie(num_vertices=0))
            st.interesting()
            continue
        elif kind == "w" or kind in ("s", "r"):
            for w in (reversed(xs) if kind == "r" else xs):
                t.insert(w)
        elif kind == "f":
            for w in xs:
                t.insert(make("s", (w,)))
        elif kind == "self":
            t.insert(t)
        else:
            x = make(kind if kind == "d" else kind[1:] or "s", xs)
            before = image(x)
            t.insert(x)
            require(image(x) == before, "the inserted trie was modified (%r)", case)
            if xs and ws and any(w and any(w[0] == v[0] for v in ws if v) for w in xs) and not set(xs) <= ws:
                st.interesting()
            # the two tries do not share anything
            if len(case) < 3 and xs and kind != "d":
                y = make(kind[1:] or "s", xs)
                u = make("s", tuple(sorted(ws)))
                u.insert(y)
                y.insert("zz")
                u.insert("za")
                check_trie(u, ws | set(xs) | {"za"}, "the trie after %r then za" % (case,))
                check_trie(y, set(xs) | {"zz"}, "the inserted trie after an insertion")
        ws |= set(xs)
        if kind in ("c", "empty"):
            require(t.num_vertices() == 0 and t.num_edges() == 0 and not list(t.edges()) and not t.accepts("") and not t.accepts("a"), "%s is not empty", what)
        elif t.has_vertex() or ws:
            check_trie(t, ws, what)
    st.note_max("longest history", len(case))
