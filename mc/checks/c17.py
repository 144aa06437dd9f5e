from itertools import permutations, product
from pybgl.heap import Comparable, Heap, compare_to_key
from mc.core import require
ID, LEVEL = "C17", "exploration"
RULE = ("every history of push (of new elements, and of elements already there), pop and decrease_key (with every new priority that improves one element, or several) of bounded length over a small domain of "
        "elements and priorities (ties included), from every initial content, with and without a comparison key; in every state the "
        "size, truth value, iteration order and popped element are compared with a multiset. A case is non-trivial when it contains a pop "
        "of at least two elements.")
ASSUMPTIONS = ["priorities change only through decrease_key", "any order is accepted between elements of equal priority"]
BOUND = {"quick": "initial content <= 3, histories <= 4 over 3 elements and 3 priorities; all permutations of <= 7 elements; structured contents of <= 33 elements with decrease_key at every position; contents and pushes up to 1500 elements",
         "thorough": "histories <= 5; all permutations of <= 8 elements"}


def shards(tier):
    n = 4 if tier == "quick" else 5
    return [(mode, k, n) for mode in ("prio", "geprio", "plain", "gt", "eager") for k in range(4)] + \
           [("sort", mode, k) for mode in ("plain", "gt", "prio") for k in range(1, 8 if tier == "quick" else 9)] + \
           [("big", mode, n) for mode in ("prio", "geprio") for n in ((7, 15, 33) if tier == "quick" else (7, 15, 33, 64))] + \
           [("huge", mode, n) for mode in ("prio", "geprio", "plain", "gt", "eager") for n in (700, 1500)]


def cases(shard):
    if shard[0] == "sort":
        _, mode, n = shard
        for p in permutations(range(n)):
            yield (mode, p if mode != "prio" else tuple(x // 2 for x in p), ())
        if n <= 4:
            for p in product(range(n), repeat=n + 1):
                yield (mode, p, ())
        return
    if shard[0] == "huge":
        _, mode, n = shard
        for init in list(arrangements(n))[::2 if mode == "geprio" else 3] + [()]:
            adds = tuple(("push", (7 * x) % n // 2) for x in range(n - len(init) // 2))
            yield (mode, init, (("pop",),) * min(5, len(init)) + adds + (("pop",), ("push", n // 2)) * 9)
            if mode in ("prio", "geprio"):
                yield (mode, init, adds[:9] + tuple(x for i in (0, 127, 128, 255, 256, 600, n - 1) for x in (("dec", i % max(1, len(init)), -i), ("push", -i // 2), ("pop",))))
        return
    if shard[0] == "big":
        _, mode, n = shard
        for init in arrangements(n):
            for i in range(n):
                for p in (-1, n // 2, n):
                    yield (mode, init, (("dec", i, p),))
            for i in range(0, n - 3, 1 + n // 12):
                yield (mode, init, (("pop",),) * 3 + (("dec", i, -1), ("dec", i, -2), ("push", 0), ("pop",), ("dec", n // 3, n // 4), ("push", n // 2)))
            for k in (n // 2, n):
                yield (mode, init, (("pop",), ("push", n // 2)) * k)
                yield (mode, init, (("pop",),) * k + tuple(("push", x) for x in init[:n // 2]) + (("pop",),))
        return
    mode, k, n = shard
    for init in product(range(3), repeat=k):
        for ln in range(n + 1):
            yield from histories(mode, init, ln, k)


def arrangements(n):
    """Structured initial contents."""
    up = tuple(range(n))
    yield up
    yield up[::-1]
    yield tuple(x for p in zip(up, up[::-1]) for x in p)[:n]
    for k in (2, 3, 5):
        yield tuple(sorted(up, key=lambda x: (x * k % n, x)))
    yield tuple(x // 4 for x in up[::-1])
    yield (0,) * n


def histories(mode, init, ln, size):
    ops = [("push", p) for p in range(3)] + [("pop",)]
    if mode in ("prio", "geprio", "eager"):
        ops += [("dec", i, p) for i in range(3) for p in range(2)] + [("dup", i) for i in range(2)]
    for h in product(ops, repeat=ln):
        n, ok = size, True
        for op in h:
            if op[0] == "push":
                n += 1
            elif op[0] == "dup":
                ok = ok and op[1] < n
                n += 1
            elif op[0] == "pop":
                n -= 1
                ok = ok and n >= 0
            else:
                ok = ok and op[1] < n
            if not ok:
                break
        if ok and (ln == 0 or h[-1][0] not in ("push", "dup")):
            yield (mode, init, h)


class Item:
    """An element, known by its number; its priority lives outside of it."""
    def __init__(self, i):
        self.i = i
    def __eq__(self, other):
        return isinstance(other, Item) and self.i == other.i
    def __hash__(self):
        return hash(self.i)
    def __repr__(self):
        return "#%d" % self.i


def check(case, st):
    mode, init, h = case
    prio = {}
    made = []
    flip = 1

    def make(p):
        if mode in ("plain", "gt"):
            prio[p] = p
            return p
        x = Item(len(made))
        made.append(x)
        prio[x] = p
        return x

    key = None
    if mode == "prio":
        key = compare_to_key(lambda x, y: prio[x] <= prio[y])
    elif mode == "geprio":
        key, flip = compare_to_key(lambda x, y: prio[x] >= prio[y]), -1
    elif mode == "eager":
        key = lambda x: prio[x]     # compared by value, as of the insertion
    elif mode == "gt":
        key, flip = compare_to_key(lambda x, y: x >= y), -1
    rank = lambda x: flip * prio[x]
    content = [make(p) for p in init]
    if key is None:
        heap = Heap(list(content)) if content or len(h) % 2 else Heap()
    else:
        heap = Heap(iter(content), to_comparable=key) if content else Heap(to_comparable=key) if len(h) % 2 else Heap(None, key)
    pops = 0

    def look():
        require(len(heap) == len(content) and bool(heap) == bool(content), "size %s, truth %s for %s", len(heap), bool(heap), content)
        seq = list(heap)
        require(sorted(map(repr, seq)) == sorted(map(repr, content)), "iteration gives %s for the content %s", seq, content)
        require(all(rank(x) <= rank(y) for x, y in zip(seq, seq[1:])), "iteration %s is not sorted", seq)

    def pop():
        x = heap.pop()
        require(x in content, "popped %s which is not in %s", x, content)
        require(rank(x) == min(map(rank, content)), "popped %s (priority %s) from %s", x, prio[x], [(y, prio[y]) for y in content])
        content.remove(x)

    every = 1 if len(h) + len(init) < 300 else 97
    look()
    for k, op in enumerate(h):
        if op[0] == "push":
            x = make(op[1])
            heap.push(x)
            content.append(x)
        elif op[0] == "pop":
            pop()
            pops += 1
        elif op[0] == "dup":
            x = Item(content[op[1]].i)      # an element already there
            heap.push(x)
            content.append(x)
        else:
            x = content[op[1]]
            p = op[2] if flip == 1 else 2 - op[2]
            if (p - prio[x]) * flip < 0:
                prio[x] = p
            heap.decrease_key(Item(x.i))   # an equal element, not the same object
        if k % every == every - 1 or k > len(h) - 20:
            look()
    while content:
        pop()
        pops += 1
        require(len(heap) == len(content), "size %s, expected %s", len(heap), len(content))
    require(not heap and list(heap) == [], "the heap is not empty at the end")
    if pops > 1:
        st.interesting()
    for a, b in product(range(3), repeat=2):
        x, y = (Comparable(v, lambda x, y: x >= y) for v in (a, b))
        require(((x < y), (x <= y), (x == y), (x != y), (x > y), (x >= y)) == (a > b, a >= b, a == b, a != b, a < b, a <= b),
                "Comparable(%s) and Comparable(%s) compare wrongly", a, b)
