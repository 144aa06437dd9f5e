from pybgl.trie_matching import TrieMatchingVisitor, trie_matching
from mc.core import require
from mc.tries import image, make, prefixes, subsets, wide_sets, words
ID, LEVEL = "C29", "exploration"
RULE = ("trie_matching on every pair of sets of words of the bounded space, built in several ways; the four counters are compared with the numbers of prefixes "
        "of the union that belong to neither set, to the first only, to the second only and to both. A case is non-trivial when three counters are positive.")
ASSUMPTIONS = ["the counters are ordered as documented: neither, only the first, only the second, both; each distinct prefix of a word of either set counts once"]
BOUND = {"quick": "all pairs of sets of words of length <= 2 over {a,b}; pairs of sets of <= 3 words of length <= 3; {a,b} x {b,c}; digital sequences; sets of up to 127 words, 40 symbols, words of 300 symbols",
         "thorough": "sets of 4 words of length <= 3 x sets of <= 3 words"}


def shards(tier):
    out = [("two", i) for i in range(8)] + [("three", i) for i in range(8)] + [("alpha",), ("digital",), ("long",), ("wide",), ("same",)]
    out += [("big", i) for i in range(32)]
    if tier != "quick":
        out += [("huge", i) for i in range(64)]
    return out


def cases(shard):
    part, i = shard[0], shard[1] if len(shard) > 1 else 0
    if part in ("two", "three", "big", "huge"):
        sets = list(subsets(words(2), 0, 7) if part == "two" else subsets(words(3), 0, 2 if part == "three" else 3))
        rows = sets if part != "huge" else list(subsets(words(3), 4, 4))
        m = {"big": 32, "huge": 64}.get(part, 8)
        for j, x in enumerate(rows):
            if j % m == i:
                for k, y in enumerate(sets):
                    yield ("srfon"[(j // m + k) % 5], x, "srfon"[k % 5], y)
    elif part == "alpha":
        for x in subsets(words(2, "ab"), 0, 3):
            for y in subsets(words(2, "bc", 1), 0, 2):
                yield ("s", x, "o", y)
                yield ("o", y, "s", x)
    elif part == "digital":
        for x in subsets(words(2), 0, 3):
            for w in words(3):
                yield ("s", x, "d", (w,))
                yield ("d", (w,), "n", x)
        for v in words(4):
            for w in words(4):
                yield ("d", (v,), "d", (w,))
    elif part == "wide":
        big = wide_sets()
        for j, x in enumerate(big):
            for k, y in enumerate(big):
                yield ("srfon"[(j + k) % 5], x, "srfon"[k % 5], y)
    elif part == "same":
        # one trie with itself; tries with states that are no longer reachable, or that were cleared
        for j, x in enumerate(subsets(words(2), 0, 7)):
            for k in "srfoucn":
                yield (k, x, "=", x)
            for i, y in enumerate(subsets(words(2), 0, 2)):
                yield ("uc"[i % 2], x, "uso"[(i + j) % 3], y)
                yield ("uso"[(i + j) % 3], y, "uc"[(i + j) % 2], x)
        for x in wide_sets():
            yield ("s", x, "=", x)
            yield ("u", x, "=", x)
            yield ("u", x, "u", x[::2])
    elif part == "long":
        for n in (20, 200):
            for x in (("a" * n, "a" * 3), ("a" * n + "b", "b")):
                for y in (("a" * (n // 2),), ("a" * (n + 3), "b" * n, ""), ()):
                    yield ("s", x, "o", y)
                    yield ("r", y, "s", x)


def check(case, st):
    k1, x, k2, y = case
    g1 = make(k1, x)
    g2 = g1 if k2 == "=" else make(k2, y)
    i1, i2 = image(g1), image(g2)
    want = [0, 0, 0, 0]
    for p in prefixes(x) | prefixes(y):
        want[(p in x) + 2 * (p in y)] += 1
    got = trie_matching(g1, g2)
    require(list(got) == want, "trie_matching: %r but expected %r", list(got), want)
    vis = TrieMatchingVisitor()
    got = trie_matching(g1, g2, vis)
    require(list(got) == want, "trie_matching, called again with a visitor: %r but expected %r", list(got), want)
    require(image(g1) == i1 and image(g2) == i2, "trie_matching modified a trie")
    if sum(1 for c in want if c) >= 3:
        st.interesting()
