from pybgl.damerau_levenshtein_distance import DamerauLevenshteinDistance, damerau_levenshtein_distance, damerau_levenshtein_distance_naive
from pybgl.lcs_distance import LcsDistance, lcs_distance, lcs_distance_naive
from pybgl.levenshtein_distance import LevenshteinDistance, levenshtein_distance, levenshtein_distance_naive
from mc.core import require
from mc.tries import words
ID, LEVEL = "C31", "exploration"
RULE = ("the three edit distances (memoized and naive versions) on every ordered pair of words of the bounded space, against breadth-first search in the graph of "
        "edits (short words) and full dynamic programming; symmetry, identity and the triangle inequality (Levenshtein, LCS) on every triple. "
        "A case is non-trivial when the words differ and share a letter.")
ASSUMPTIONS = ["the Damerau-Levenshtein distance is the restricted one (optimal string alignment), as its naive definition in the code: it is not claimed to satisfy the triangle inequality",
               "the naive versions are only called on short words"]
BOUND = {"quick": "all pairs of words of length <= 7 over {a,b}, <= 5 over {a,b,c} against <= 4; permutations of 5 letters; all triples of words of length <= 4 over {a,b}; long words up to 2500 symbols; words of 550 symbols with a few far differences",
         "thorough": "all pairs of words of length <= 9 over {a,b}, <= 6 over {a,b,c} against <= 4, triples of length <= 5"}
CLASSES = {"levenshtein": LevenshteinDistance, "lcs": LcsDistance, "damerau": DamerauLevenshteinDistance}
FUNCTIONS = {"levenshtein": (levenshtein_distance, levenshtein_distance_naive), "lcs": (lcs_distance, lcs_distance_naive),
             "damerau": (damerau_levenshtein_distance, damerau_levenshtein_distance_naive)}


def reference(kind, x, y):
    n, m = len(x), len(y)
    d = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        for j in range(m + 1):
            if not i or not j:
                d[i][j] = i + j
                continue
            c = [d[i - 1][j] + 1, d[i][j - 1] + 1]
            if x[i - 1] == y[j - 1]:
                c.append(d[i - 1][j - 1])
            elif kind != "lcs":
                c.append(d[i - 1][j - 1] + 1)
            if kind == "damerau" and i > 1 and j > 1 and x[i - 1] == y[j - 2] and x[i - 2] == y[j - 1]:
                c.append(d[i - 2][j - 2] + 1)
            d[i][j] = min(c)
    return d[n][m]


def shards(tier):
    q = tier == "quick"
    return ([("pairs", 7 if q else 9, "ab", i) for i in range(16)] + [("pairs", 5 if q else 6, "abc", i) for i in range(32)] + [("perm", i) for i in range(4)] +
            [("triples", 4 if q else 5, i) for i in range(8)] + [("long",), ("swap",)] + [("longer", n) for n in (550, 1100, 2500)] + [("far", i) for i in range(7)])


def cases(shard):
    part = shard[0]
    if part == "pairs":
        _, k, syms, i = shard
        m = 16 if syms == "ab" else 32
        right = words(k if len(syms) == 2 else min(k, 4) if k > 4 else 3, syms)
        for j, x in enumerate(words(k, syms)):
            if j % m == i:
                for y in right:
                    yield (x, y)
                    if len(syms) == 3 and len(x) > 3:
                        yield (y, x)
    elif part == "perm":
        from itertools import permutations
        for j, p in enumerate(permutations("abcde")):
            if j % 4 == shard[1]:
                for y in ("abcde", "abdce", "edcba", "bcdea", "abcd", "badc", "aabbc"):
                    yield ("".join(p), y)
    elif part == "triples":
        ws = words(shard[1])
        for j, x in enumerate(ws):
            if j % 8 == shard[2]:
                for y in ws:
                    for z in ws:
                        yield (x, y, z)
    elif part == "long":
        for n in (20, 100, 300):
            for x in ("a" * n, "ab" * (n // 2), "a" * (n // 2) + "b" * (n // 2)):
                for y in ("", "a", "b" * 7, "ba" * 10, "ab" * 11 + "c", "aab" * 5):
                    yield (x, y)
                    yield (y, x)
    elif part == "longer":
        n = shard[1]
        for x in ("a" * n, "ab" * (n // 2), "a" * (n // 2) + "b" * (n // 2)):
            for y in ("b", "ba" * 4, x[1:], x[:n // 2] + "c" + x[n // 2:]) if n < 1000 else ("", "c", "ab" * 4):
                yield (x, y)
                yield (y, x)
    elif part == "far":         # few differences, far from the start
        n = 550
        base = ("abcd" * n)[:n]
        i = (0, 7, 255, 256, 257, n // 2, n - 2)[shard[1]]
        y = base[:i] + base[i + 1] + base[i] + base[i + 2:]
        for z in (y, y[:n // 3] + y[n // 3 + 1:], y + "b", y[:n // 3] + "zy" + y[n // 3 + 2:]):
            yield (base, z)
    elif part == "swap":
        for x in words(6, "ab", 6) + ["abcd", "abab", "aabb", "abba"]:
            for i in range(len(x) - 1):
                for j in range(i, len(x) - 1):
                    y = x[:i] + x[i + 1] + x[i] + x[i + 2:]
                    y = y[:j] + y[j + 1] + y[j] + y[j + 2:]
                    yield (x, y)
                    yield (x + "c", y)


def check(case, st):
    if len(case) == 3:
        x, y, z = case
        for kind in ("levenshtein", "lcs"):
            f = FUNCTIONS[kind][0]
            require(f(x, z) <= f(x, y) + f(y, z), "%s: d(%r, %r) > d(%r, %r) + d(%r, %r)", kind, x, z, x, y, y, z)
        return
    x, y = case
    if 0 < len(x) + len(y) <= 6:
        for kind, cls in CLASSES.items():
            d = cls(x, y)
            require(d.compute() == reference(kind, x, y), "%s(%r, %r).compute() = %r", cls.__name__, x, y, d.compute())
            for i in range(len(x) + 1):
                for j in range(len(y) + 1):
                    require(d.compute(i, j) == reference(kind, x[i:], y[j:]), "%s(%r, %r).compute(%d, %d) = %r", cls.__name__, x, y, i, j, d.compute(i, j))
    for kind, (f, naive) in FUNCTIONS.items():
        d = f(x, y)
        want = reference(kind, x, y)
        require(d == want, "%s distance of %r and %r: %r but expected %r", kind, x, y, d, want)
        require((d == 0) == (x == y) and f(y, x) == d, "%s distance of %r and %r is not symmetric", kind, x, y)
        if len(x) + len(y) <= 8:
            require(naive(x, y) == want, "naive %s distance of %r and %r: %r but expected %r", kind, x, y, naive(x, y), want)
    if x != y and set(x) & set(y):
        st.interesting()
