"""Deterministic automata: exhaustive spaces, construction of the real objects, exact language comparison."""
from itertools import permutations, product
from pybgl.automaton import Automaton
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.trie import Trie
from pybgl.digital_sequence import DigitalSequence
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.node_automaton import NodeAutomaton
from .core import require

# N, M: the symbol of a transition is the one of its target ("homogeneous" specs only); S: the specs of one word
CLASSES = {"A": Automaton, "I": IncidenceAutomaton, "T": Trie, "N": NodeAutomaton, "M": IncidenceNodeAutomaton}

# spec = (n, q0, delta, finals, syms): delta[q * len(syms) + i] is the target of q by syms[i] or None; finals is a bit mask


class Machine:
    """A (possibly partial) deterministic machine; None is the dead state."""
    def __init__(self, init, step, final):
        self.init, self.step_, self.final_ = init, step, final

    def step(self, q, a):
        return None if q is None else self.step_(q, a)

    def final(self, q):
        return q is not None and bool(self.final_(q))


def spec_machine(spec):
    n, q0, delta, finals, syms = spec
    idx = {a: i for i, a in enumerate(syms)}
    return Machine(q0, lambda q, a: delta[q * len(syms) + idx[a]] if a in idx else None, lambda q: finals >> q & 1)


def real_machine(g):
    q0 = g.initial()
    if q0 not in set(g.vertices()):
        q0 = None
    return Machine(q0, g.delta, g.is_final)


def pair_machine(a, b, op):
    """The machine of op over two machines; the dead pair is None."""
    def step(q, x):
        r = (a.step(q[0], x), b.step(q[1], x))
        return None if r == (None, None) else r
    init = (a.init, b.init)
    return Machine(None if init == (None, None) else init, step, lambda q: op(a.final(q[0]), b.final(q[1])))


def difference(x, y, alphabet, limit=100000):
    """Explores the whole product of two machines. Returns (word or None, number of product states)."""
    seen = {(x.init, y.init): None}
    todo = [(x.init, y.init)]
    while todo:
        nxt = []
        for p in todo:
            if x.final(p[0]) != y.final(p[1]):
                w = []
                while seen[p] is not None:
                    p, a = seen[p]
                    w.append(a)
                return tuple(reversed(w)), len(seen)
            for a in alphabet:
                r = (x.step(p[0], a), y.step(p[1], a))
                if r not in seen and r != (None, None):
                    seen[r] = (p, a)
                    nxt.append(r)
        require(len(seen) <= limit, "more than %d product states", limit)
        todo = nxt
    return None, len(seen)


def relation(x, y, alphabet):
    """(is L(x) - L(y) non-empty, is L(y) - L(x) non-empty, number of product states)"""
    seen, todo = {(x.init, y.init)}, [(x.init, y.init)]
    xy = yx = False
    while todo:
        p = todo.pop()
        fx, fy = x.final(p[0]), y.final(p[1])
        xy |= fx and not fy
        yx |= fy and not fx
        for a in alphabet:
            r = (x.step(p[0], a), y.step(p[1], a))
            if r not in seen and r != (None, None):
                seen.add(r)
                todo.append(r)
    return xy, yx, len(seen)


def build(spec, cls="A", numbering=0):
    """The real automaton of a spec. numbering: 0 same ids, 1 reversed ids, 2 ids starting at 300, 3 reversed from 300."""
    n, q0, delta, finals, syms = spec
    if cls == "S":
        g = DigitalSequence("".join(syms[[r is not None for r in delta[q * len(syms):][:len(syms)]].index(True)] for q in range(n - 1)))
        return g, list(range(n))
    g = CLASSES[cls](0)
    for _ in range(300 if numbering & 2 else 0):
        g.remove_vertex(g.add_vertex())
    if cls in "NM":
        read = {r: syms[i % len(syms)] for i, r in enumerate(delta)}
        order_ = reversed(range(n)) if numbering & 1 else range(n)
        vs = [g.add_vertex(read.get(q)) for q in order_]
    else:
        vs = [g.add_vertex() for _ in range(n)]
    if numbering & 1:
        vs.reverse()
    arcs = [(q, i) for q in range(n) for i in range(len(syms))]
    if numbering & 1:
        arcs.reverse()
    for (q, i) in arcs:
        r = delta[q * len(syms) + i]
        if r is not None:
            g.add_edge(vs[q], vs[r], *(() if cls in "NM" else (syms[i],)))
    if q0 is None:
        g.set_initial(g.initial(), False)
    else:
        g.set_initial(vs[q0])
    for q in range(n):
        if finals >> q & 1:
            g.set_final(vs[q])
    return g, vs


def homogeneous(spec):
    """An automaton of the same language, each state of which is reached by one symbol only."""
    n, q0, delta, finals, syms = spec
    k = len(syms)
    names, out = {(q0, None): 0}, {}
    todo = [(q0, None)]
    for q, a in todo:
        for i in range(k):
            r = None if q is None else delta[q * k + i]
            if r is not None:
                if (r, i) not in names:
                    names[r, i] = len(names)
                    todo.append((r, i))
                out[names[q, a], i] = names[r, i]
    return (len(names), 0, tuple(out.get((q, i)) for q in range(len(names)) for i in range(k)), sum(1 << j for (q, a), j in names.items() if q is not None and finals >> q & 1), syms)


def word_spec(w, syms="ab"):
    return (len(w) + 1, 0, tuple(q + 1 if q < len(w) and a == w[q] else None for q in range(len(w) + 1) for a in syms), 1 << len(w), syms)


def snapshot(g):
    return (sorted(g.vertices()), sorted(((e.source, e.target, g.label(e)) for e in g.edges()), key=repr), g.initial(), sorted(g.finals()))


def dfas(n, syms, q0=0):
    """Every partial deterministic automaton with n states."""
    for delta in product([None] + list(range(n)), repeat=n * len(syms)):
        for finals in range(1 << n):
            yield (n, q0, delta, finals, syms)


def canonical_deltas(n, k, partial=True):
    """The transition functions of the automata whose states are all reached and numbered in breadth-first order."""
    delta = []

    def rec(known):
        i = len(delta)
        if i == n * k:
            if known == n:
                yield tuple(delta)
            return
        if i // k >= known or known + (n * k - i) < n:
            return
        for r in ([None] if partial else []) + list(range(min(known + 1, n))):
            delta.append(r)
            yield from rec(max(known, r + 1) if r is not None else known)
            delta.pop()
    yield from rec(1)


_cache = {}


def canonical(n, syms):
    if (n, syms) not in _cache:
        _cache[(n, syms)] = [(n, 0, delta, finals, syms) for delta in canonical_deltas(n, len(syms)) for finals in range(1 << n)]
    return _cache[(n, syms)]


def unary(n, sym="a"):
    """Paths and lassos with n states over one symbol."""
    for loop in [None] + list(range(n)):
        for finals in range(1 << n):
            yield (n, 0, tuple(range(1, n)) + (loop,), finals, sym)


def family(n, k, f, final, q0=0, first="a"):
    """The automaton with n states over k symbols such that delta(q, i) = f(q, i)."""
    syms = "".join(chr(ord(first) + i) for i in range(k))
    return (n, q0, tuple(f(q, i) for q in range(n) for i in range(k)), sum(1 << q for q in range(n) if final(q)), syms)


# alphabets of two symbols, none of them usual
TYPED = ((1, "1"), (0, ""), ((1, 2), "(1, 2)"), ("ab", "a"), ("\u00e9", "e\u0301"), (-1, -2), (2.5, (2.5,)))


def order(symbols):
    return sorted(symbols, key=repr)


def show(w):
    """A word, for a message."""
    return "".join(w or ()) if all(isinstance(a, str) and len(a) == 1 for a in w or ()) else list(w)


def deep(n):
    """Automata whose states are more than a thousand transitions apart."""
    yield family(n, 1, lambda q, i: q + 1 if q + 1 < n else None, lambda q: q == n - 1)
    yield family(n, 1, lambda q, i: (q + 1) % n, lambda q: q % 700 == 0)
    yield family(n, 2, lambda q, i: q + 1 + i if q + 1 + i < n else None, lambda q: q in (n - 1, n // 2))


def broad(n, k):
    """Automata with many states at the same distance: trees with n states, a star with k symbols."""
    yield family(n, 2, lambda q, i: 2 * q + 1 + i if 2 * q + 1 + i < n else None, lambda q: bin(q + 1).count("1") % 2 == 0)
    yield family(n, 2, lambda q, i: 2 * q + 1 + i if 2 * q + 1 + i < n else q // 2 if i else None, lambda q: q >= n // 2)
    yield family(n // 2, 4, lambda q, i: 4 * q + 1 + i if 4 * q + 1 + i < n // 2 else None, lambda q: q % 3 == 1)
    yield family(k + 2, k, lambda q, i: i + 1 if q == 0 else k + 1 if (q, i) in ((3, 1), (k, 0)) else None, lambda q: q % 7 == 1)


def families():
    """Larger automata: remainders, chains, stars, trees, and irregular ones, over up to 40 symbols."""
    out = []
    for m, b in ((3, 2), (5, 2), (7, 3), (12, 2), (9, 10)):
        out.append(family(m, b, lambda q, i: (q * b + i) % m, lambda q: q == 0))
    for n, k in ((9, 3), (35, 4), (70, 2)):
        out.append(family(n, k, lambda q, i: q + 1 if i == q % k and q + 1 < n else None, lambda q: q % 4 == 2 or q == n - 1))
        out.append(family(n, k, lambda q, i: q + 1 if q + 1 < n else 0 if i == 0 else None, lambda q: q == n - 1))
        out.append(family(n, k, lambda q, i: None if (q + i) % 3 == 0 else (q * q + 5 * i + q + 1) % n, lambda q: q % 5 == 3))
    for k in (10, 33, 40):
        out.append(family(k + 1, k, lambda q, i: i + 1 if q == 0 else None, lambda q: q % 3 == 1))
        out.append(family(2, k, lambda q, i: 1 - q if i % 2 else q, lambda q: q == 1, first="c"))
    for n in (15, 63):
        out.append(family(n, 2, lambda q, i: 2 * q + 1 + i if 2 * q + 1 + i < n else None, lambda q: bin(q + 1).count("1") % 2 == 0))
        out.append(family(n, 2, lambda q, i: 2 * q + 1 + i if 2 * q + 1 + i < n else q // 2 if i else None, lambda q: q >= n // 2))
    return out


def doubled(spec, finals=None):
    """Every state in two equivalent copies, interleaved."""
    n, q0, delta, f, syms = spec
    k = len(syms)
    f = f if finals is None else finals
    return (2 * n, None if q0 is None else 2 * q0, tuple(None if delta[q // 2 * k + i] is None else 2 * delta[q // 2 * k + i] + (q + q // 2 + i) % 2 for q in range(2 * n) for i in range(k)),
            sum(3 << 2 * q for q in range(n) if f >> q & 1), syms)


def pair_parts(tier):
    out = ["raw2_%d" % i for i in range(8)] + ["alpha_%d" % i for i in range(4)] + ["number_%d" % i for i in range(4)]
    out += ["node_%d" % i for i in range(8)] + ["word_0", "word_1"]
    out += ["c3c2_%d" % i for i in range(8)] + ["unary_%d" % i for i in range(4)] + ["init", "empty", "full", "long", "wide_0", "wide_1", "typed", "deep", "broad_0", "broad_1"]
    if tier != "quick":
        out += ["c3c3_%d" % i for i in range(24)]
    return out


def pairs(tier, part):
    """Yields (spec1, spec2, class1, class2, numbering1, numbering2)."""
    base, _, idx = part.partition("_")
    idx = int(idx or 0)
    c2 = canonical(1, "ab") + canonical(2, "ab")
    if base == "raw2":
        for i, x in enumerate(d for n in (1, 2) for d in dfas(n, "ab")):
            if i % 8 == idx:
                for j, y in enumerate(c2):
                    yield (x, y, "AI"[(i + j) % 2], "AI"[(i // 2 + j) % 2], 0, 0)
    elif base == "c3c2":
        ones = lambda ds: [d for d in ds if tier != "quick" or d[3] in (1, 2, 4)]
        for i, x in enumerate(ones(canonical(3, "ab"))):
            if i % 8 == idx:
                for j, y in enumerate(ones(c2)):
                    yield (x, y, "A", "A", 0, 0) if (i // 8 + j) % 2 else (y, x, "A", "A", 0, 0)
    elif base == "c3c3":
        c3 = [d for d in canonical(3, "ab") if d[3] == 4]
        for i, x in enumerate(c3):
            if i % 24 == idx:
                for j, y in enumerate(c3):
                    yield (x, y, "A", "A", i % 4, j % 4)
    elif base == "alpha":
        d1, d2, d3 = canonical(2, "ab"), canonical(1, "bc") + canonical(2, "bc"), canonical(1, "c") + canonical(2, "c")
        for i, x in enumerate(canonical(1, "ab") + d1):
            if i % 4 == idx:
                for y in d2:
                    yield (x, y, "A", "A", i % 4, 0)
                for y in d3:
                    yield (x, y, "A", "I", 0, i % 4)
                    yield (y, x, "I", "A", i % 4, 0)
    elif base == "number":
        for i, x in enumerate(canonical(2, "ab")):
            if i % 4 == idx:
                for j, y in enumerate(canonical(1, "ab") + canonical(2, "a") + [d for d in canonical(2, "ab") if d[3] == 2]):
                    for num in ((1, 0), (0, 1), (1, 1), (2, 3), (3, 2)):
                        yield (x, y, "A", "IA"[j % 2]) + num
    elif base == "unary":
        m = 4 if tier == "quick" else 5
        us = [u for n in range(1, m + 1) for u in unary(n)]
        for i, x in enumerate(us):
            if i % 4 == idx:
                for j, y in enumerate(us):
                    yield (x, y, "A", "A", 0, j % 2)
    elif base == "init":
        for q1 in (None, 1, 0):
            for q2 in (None, 1, 0):
                for x in [d for d in canonical(2, "ab") if d[3] == 2] if q1 != 1 else list(dfas(2, "a")):
                    for y in [d for d in canonical(2, "ab") if d[3] == 2] if q2 != 1 else list(dfas(2, "a")):
                        yield ((x[0], q1) + x[2:], (y[0], q2) + y[2:], "A", "I", 0, 0)
    elif base == "empty":
        e = (0, None, (), 0, "ab")
        for x in [e] + c2:
            yield (x, e, "A", "A", 0, 0)
            yield (e, x, "A", "A", 0, 0)
    elif base == "node":      # the symbols on the states, for one operand or both
        c1 = [homogeneous(d) for d in canonical(1, "ab") + canonical(2, "ab")]
        c3 = [homogeneous(d) for d in canonical(3, "ab") if d[3] == (4 if tier == "quick" else d[3])]
        for i, x in enumerate(c1):
            if i % 8 == idx:
                for j, y in enumerate(c1):
                    yield (x, y, "NM"[(i // 8 + j) % 2], "NMAI"[(i // 8 + j // 2) % 4], i // 8 % 4, j % 4)
        for i, x in enumerate(c3):
            if i % 8 == idx:
                for j, y in enumerate(c1):
                    if j % 9 == i // 8 % 9:
                        yield (x, y, "N", "NIMA"[j // 9 % 4], 0, j % 2) if i % 2 else (y, x, "A", "M", 0, j % 2)
    elif base == "word":      # a word, read as an automaton
        ws = [word_spec(w) for m in range(5) for w in product("ab", repeat=m)] + [word_spec("ab" * 30), word_spec("b" * 61)]
        others = [(y, "AI"[j % 2]) for j, y in enumerate(canonical(1, "ab") + canonical(2, "ab"))] + [(homogeneous(y), "N") for y in canonical(2, "ab")]
        for i, x in enumerate(ws):
            if i % 2 == idx:
                for j, y in enumerate(ws):
                    yield (x, y, "S", "ST"[(i + j) % 2], 0, 0)
                for j, (y, c) in enumerate(others[i % 3::3]):
                    yield (x, y, "S", c, 0, j % 4) if j % 2 else (y, x, c, "S", j % 4, 0)
    elif base == "full":      # complete automata with 3 states: permutations and resets included
        c3 = [d for d in canonical(3, "ab") if None not in d[2] and (d[3] == 4 or tier != "quick" and d[3] in (1, 2))]
        for x in c3:
            for y in c3:
                yield (x, y, "A", "A", 0, 0)
    elif base == "typed":     # symbols of several types
        c2 = [d for d in c2 if d[3] == 2]
        for t in TYPED:
            for i, x in enumerate(c2):
                for y in c2[i % 7::7]:
                    yield (x[:4] + (t,), y[:4] + (t,), "A", "I", i % 4, i // 4 % 4)
            for x in canonical(2, "a"):
                for y in canonical(2, "a"):
                    yield (x[:4] + (t[:1],), y[:4] + (t[1:],), "A", "A", 0, 0)
    elif base == "deep":
        for i, x in enumerate(deep(2500)):
            for j, y in enumerate(deep(1250)):
                if (i + j) % 2 == 0:
                    yield (x, y, "AI"[i % 2], "AI"[j // 2 % 2], 0, j % 4)
    elif base == "broad":
        few = [d for d in canonical(1, "ab") if d[3]] + [family(7, 3, lambda q, i: (q * 2 + i) % 7, lambda q: q == 0)]
        bs = list(broad(4095, 300))
        for i, x in enumerate(bs):
            for j, y in enumerate(bs[:2] + few if i < 3 else bs[3:] + few):
                if (i + j) % 2 == idx:
                    yield (x, y, "AI"[i % 2], "AI"[j // 2 % 2], 0, j % 4) if i != 1 else (y, x, "A", "I", 0, 0)
    elif base == "wide":
        fs = families()
        for i, x in enumerate(fs):
            for j, y in enumerate(fs):
                if (i + j) % 2 == idx:
                    yield (x, y, "AI"[i % 2], "AI"[j // 2 % 2], (i + j) // 2 % 4, j % 4)
    elif base == "long":
        for n in (7, 12, 40):
            for m in (3, 5, 11):
                for fx in (1, 1 << n - 1, (1 << n) - 1, (1 << n) - 2):
                    for fy in (1, 1 << m - 1, (1 << m) - 1, 2):
                        for lx in (None, 0, n - 2):
                            for ly in (None, 0, m - 2):
                                yield ((n, 0, tuple(range(1, n)) + (lx,), fx, "a"), (m, 0, tuple(range(1, m)) + (ly,), fy, "a"), "A", "A", n % 4, m % 4)
