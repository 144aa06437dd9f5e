"""Regular expressions: terms, printing, and a reference machine made of Antimirov partial derivatives."""
from functools import lru_cache
from .lang import Machine
from .nfalang import Subsets

# term = "a" (one symbol) | ("[", "abc") (one symbol of a set) | (".", t, u) | ("|", t, u) | ("{", t, m, n, text) with n None for no bound

Q = {"?": (0, 1), "*": (0, None), "+": (1, None)}


def rep(t, text):
    if text in Q:
        m, n = Q[text]
    else:
        lo, comma, hi = text[1:-1].partition(",")
        m = int(lo.strip() or 0)
        n = m if not comma else int(hi) if hi.strip() else None
    return ("{", t, m, n, text)


def show(t, style=0):
    """style: 0 minimal parentheses, 1 full parentheses, 2 minimal parentheses and explicit concatenation."""
    def prec(t):
        return 4 if isinstance(t, str) or t[0] in "[{" else 2 if t[0] == "." else 1

    def par(t, level):
        s = rec(t)
        if style == 1 and not isinstance(t, str) and t[0] != "[":
            return "(" + s + ")"
        return "(" + s + ")" if prec(t) < level else s

    def rec(t):
        if isinstance(t, str):
            return t
        if t[0] == "[":
            return "[" + t[1] + "]"
        if t[0] == "{":
            return par(t[1], 4) + t[4]
        if t[0] == ".":
            return par(t[1], 2) + ("." if style == 2 else "") + par(t[2], 3)
        return par(t[1], 1) + "|" + par(t[2], 2)
    return rec(t)


# core = ("e",) epsilon | ("s", frozenset) | (".", r, s) | ("|", r, s) | ("*", r)
EPS = ("e",)


def cat(r, s):
    return s if r == EPS else r if s == EPS else (".", r, s)


@lru_cache(None)
def core(t):
    if isinstance(t, str):
        return ("s", frozenset(t))
    if t[0] == "[":
        return ("s", frozenset(t[1]))
    if t[0] in ".|":
        return (cat(core(t[1]), core(t[2])) if t[0] == "." else ("|", core(t[1]), core(t[2])))
    r, m, n = core(t[1]), t[2], t[3]
    out = ("*", r) if n is None else EPS
    for _ in range(0 if n is None else n - m):
        out = ("|", EPS, cat(r, out))
    for _ in range(m):
        out = cat(r, out)
    return out


@lru_cache(None)
def nullable(r):
    k = r[0]
    return k in "e*" or (k == "." and nullable(r[1]) and nullable(r[2])) or (k == "|" and (nullable(r[1]) or nullable(r[2])))


@lru_cache(None)
def partial(r, a):
    k = r[0]
    if k == "e":
        return frozenset()
    if k == "s":
        return frozenset([EPS]) if a in r[1] else frozenset()
    if k == "|":
        return partial(r[1], a) | partial(r[2], a)
    if k == "*":
        return frozenset(cat(x, r) for x in partial(r[1], a))
    out = frozenset(cat(x, r[2]) for x in partial(r[1], a))
    return out | partial(r[2], a) if nullable(r[1]) else out


def machine(t):
    return Machine(frozenset([core(t)]),
                   lambda q, a: frozenset().union(*(partial(r, a) for r in q)) or None,
                   lambda q: any(nullable(r) for r in q))


def extract(nfa):
    """The specification (see nfalang) of a real Nfa, read through its observers."""
    vs = sorted(nfa.vertices())
    idx = {v: i for i, v in enumerate(vs)}
    eps = nfa.epsilon
    trans = []
    for e in nfa.edges():
        a = nfa.label(e)
        trans.append((idx[nfa.source(e)], idx[nfa.target(e)], "" if a == eps else a))
    inits = sum(1 << idx[q] for q in set(nfa.initials))
    finals = sum(1 << idx[q] for q in vs if nfa.is_final(q))
    return (len(vs), inits, tuple(trans), finals)


def nfa_machine(nfa):
    return Subsets(extract(nfa))


def terms(n, leaves, quants):
    """All the terms with exactly n operators."""
    if n == 0:
        yield from leaves
        return
    for t in terms(n - 1, leaves, quants):
        for q in quants:
            yield rep(t, q)
    for i in range(n):
        left = list(terms(i, leaves, quants))
        for u in terms(n - 1 - i, leaves, quants):
            for t in left:
                yield (".", t, u)
                yield ("|", t, u)
