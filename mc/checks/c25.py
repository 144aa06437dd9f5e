from pybgl.regexp import compile_nfa, compile_dfa
from pybgl.thompson_compile_nfa import (thompson_compile_nfa, literal, bracket, concatenation, alternation, zero_or_one,
                                        zero_or_more, one_or_more, repetition, repetition_range)
from mc.core import require
from mc.lang import difference, real_machine, Machine
from mc import nfalang, relang
from mc.relang import rep, show, terms
ID, LEVEL = "C25", "model_checking"
RULE = ("every regular expression with a bounded number of operators (literals, sets, concatenation implicit or explicit, alternation, ?, *, +, "
        "{m}, {m,}, {,n}, {m,n}, parentheses minimal or full) is compiled to an NFA and to a DFA, whose product with the machine of the partial derivatives "
        "of the expression is explored completely; the combinators are also applied to every small NFA. A case is non-trivial when the "
        "expression has more than three characters or the NFA more than one transition.")
ASSUMPTIONS = ["the expression is well-formed; an empty operand such as () or a| is not part of the syntax", "'.' is the concatenation operator",
               "stacked operators such as *? apply from left to right (as the unit tests require)"]
BOUND = {"quick": "<= 3 operators out of 15 (all kinds of repetitions) over {a,b}, 4 operators out of 8 up to swapping a and b; larger families (words of 120 symbols, 12 branches, 30 repetitions, nesting of 30); combinators on every NFA with 2 states over {a,eps} and initial and final state, pairs of them on a subspace; repetitions up to 257",
         "thorough": "4 operators out of 11, 5 operators out of 6 on one symbol; combinators on every NFA with 2 states over {a,b,eps} and 3 states over {a,eps} with <= 4 transitions"}
QALL = ("?", "*", "+", "{0}", "{1}", "{2}", "{3,}", "{0,}", "{1,}", "{2,}", "{,2}", "{0,2}", "{1,2}", "{2,4}", "{1,1}")
QFEW = ("?", "*", "+", "{0}", "{0,2}", "{2,}")
QMORE = QFEW + ("{1,3}", "{2}", "{,1}")


def shards(tier):
    out = [("small", n) for n in range(3)] + [("n3", i) for i in range(8)] + [("n4", i) for i in range(16)]
    out += [("misc",)] + [("big", i) for i in range(6)] + [("comb", i) for i in range(8)] + [("pairs", i) for i in range(8)]
    if tier != "quick":
        out += [("n4x", i) for i in range(32)] + [("n5", i) for i in range(32)] + [("combx", i) for i in range(16)]
    return out


def first_leaf(t):
    while not isinstance(t, str):
        t = t[1]
    return t


def mod(it, i, n):
    for j, x in enumerate(it):
        if j % n == i:
            yield x


def cases(shard):
    part = shard[0]
    if part == "small":
        for t in terms(shard[1], ("a", "b", ("[", "ab")), QALL):
            for style in range(3):
                yield ("re", t, style)
    elif part == "n3":
        for t in mod(terms(3, ("a", "b"), QALL), shard[1], 8):
            yield ("re", t, 0)
    elif part == "n4":
        for j, t in enumerate(mod(terms(4, ("a", "b"), QFEW), shard[1], 16)):
            if first_leaf(t) == "a":
                yield ("re", t, (0, 0, 1, 2)[j % 4])
    elif part == "n4x":
        for t in mod(terms(4, ("a", "b"), QMORE), shard[1], 32):
            if first_leaf(t) == "a":
                yield ("re", t, 0)
    elif part == "n5":
        for t in mod(terms(5, ("a",), ("?", "*", "{0,2}", "{2}")), shard[1], 32):
            yield ("re", t, 0)
    elif part == "misc":
        yield ("empty",)
        for text in ("{ 2 }", "{ 1 , 2 }", "{ 2, }", "{, 2 }", "{12}", "{10,12}", "{11,}", "{,10}", "{0,0}", "{0}", "{00,02}", "{3,3}", "{7,9}", "{1,}", "{,1}", "{,}", "{,0}"):
            for x in ("a", (".", "a", "b"), ("|", "a", "b"), rep("a", "*"), ("[", "ab"), rep((".", "a", rep("b", "+")), "?")):
                yield ("re", rep(x, text), 0)
                yield ("re", (".", "b", rep(x, text)), 0)
                yield ("re", (".", rep(x, text), "a"), 2)
                yield ("re", ("|", rep(x, text), "b"), 1)
        for c in "0123456789 ,-:;<>=!@#%&_~`'\"/^$abzABZ\té\n字}]":
            yield ("lit", c)
    elif part == "big":
        for j, t in enumerate(big()):
            if j % 6 == shard[1]:
                yield ("re", t, j // 6 % 3)
    elif part in ("comb", "combx"):
        i, k = shard[1], 8 if part == "comb" else 16
        specs = nfa2("a") if part == "comb" else (s for u in (nfa2("ab"), nfa3()) for s in u)
        for spec in mod(specs, i, k):
            for op in ("?", "*", "+", (0,), (1,), (2,), (0, 0), (1, 1), (0, 1), (0, 2), (1, 2), (2, 3), (0, None), (1, None), (2, None)):
                if part == "comb" or op in ("?", "*", "+", (2,), (0, 2), (1, 2), (2, None)):
                    yield ("un", spec, op)
    elif part == "pairs":
        few = [s for s in nfa2("a") if sum(1 for q, r, a in s[2] if a == "a") <= 1 and not any(q == r and a == "" for q, r, a in s[2])]
        other = [s for s in nfa2("b") if sum(1 for q, r, a in s[2] if a == "b") <= 1 and not any(q == r and a == "" for q, r, a in s[2])]
        for x in mod(few, shard[1], 8):
            for y in other + few[::3]:
                yield ("bin", x, y, ".")
                yield ("bin", x, y, "|")


def fold(op, ts):
    t = ts[0]
    for u in ts[1:]:
        t = (op, t, u)
    return t


def nest(t, ops):
    for op in ops:
        t = rep(t, op) if op[0] in "?*+{" else (op, t, "a") if op in ".|" else (op[0], "b", t)
    return t


def big():
    """Larger expressions: long words, many branches, deep nesting, many repetitions, many states after determination."""
    ab = ("|", "a", "b")
    for n in (30, 120):
        yield fold(".", list("ab" * (n // 2)))
        yield fold(".", [rep("a", "?")] * (n // 4) + ["a"] * 3)
    for k in (4, 8, 12):
        yield fold("|", [fold(".", list("ab" * i + "c")) for i in range(1, k)])
        yield fold("|", [fold(".", [("a", "b")[m >> i & 1] for i in range(4)]) for m in range(0, 16, 16 // k)])
        yield fold("|", ["a", "b"] * k)
    for k in (1, 3, 5):
        yield (".", (".", rep(ab, "*"), "a"), fold(".", [ab] * k))
        yield (".", (".", rep(ab, "*"), "a"), rep(ab, "{%d}" % k))
    for ops in (["*", "."] * 4, ["+", "|"] * 4, ["?", "."] * 5, [".", "*", "|", "+"] * 2, ["{2}", "|"] * 3, ["{1,2}", "."] * 3, [".r", "*", "|r", "?"] * 3, [".", "."] * 15, ["|r", ".r"] * 8,
                ["{0,2}", ".r", "*"] * 2):
        yield nest("a", ops)
        yield nest(ab, ops)
    for x in ("{30}", "{0,25}", "{13,20}", "{17,}", "{,19}", "{9,11}"):
        yield rep("a", x)
        yield (".", rep((".", "a", "b"), x), "a")
    for x in ("{64}", "{100}", "{130}", "{60,120}", "{,80}", "{70,}", "{0,99}", "{255,257}"):
        yield rep("a", x)
        if x in ("{64}", "{,80}"):
            yield (".", rep((".", "a", "b"), x), "a")
    for x, y in (("{2}", "{3}"), ("{2,3}", "{2}"), ("{0,2}", "{1,2}"), ("{2,}", "{2}"), ("?", "{3}"), ("{2}", "*"), ("{3}", "{0}"), ("{0,1}", "{2,}")):
        yield rep(rep("a", x), y)
        yield (".", "b", rep(rep((".", "a", "b"), x), y))


def nfa2(syms):
    A = [(q, r, a) for q in range(2) for r in range(2) for a in tuple(syms) + ("",)]
    for m in range(1 << len(A)):
        for f in (0, 1):
            yield (2, 1, nfalang.masks_to_trans(A, m), 1 << f)


def nfa3():
    from itertools import combinations
    A = [(q, r, a) for q in range(3) for r in range(3) for a in ("a", "") if a or q != r]
    for k in range(5):
        for t in combinations(A, k):
            for f in (0, 2):
                yield (3, 1, t, 1 << f)


def union_spec(x, y, extra):
    """Disjoint union of two specifications, and extra states at the end."""
    n = x[0] + y[0]
    t = x[2] + tuple((q + x[0], r + x[0], a) for (q, r, a) in y[2])
    return n, t


def spec_cat(x, y):
    n, t = union_spec(x, y, 0)
    fx = [q for q in range(x[0]) if x[3] >> q & 1]
    iy = [q + x[0] for q in range(y[0]) if y[1] >> q & 1]
    return (n, x[1], t + tuple((f, i, "") for f in fx for i in iy), y[3] << x[0])


def spec_alt(x, y):
    n, t = union_spec(x, y, 0)
    return (n, x[1] | y[1] << x[0], t, x[3] | y[3] << x[0])


EMPTYWORD = (1, 1, (), 1)


def spec_plus(x):
    fx = [q for q in range(x[0]) if x[3] >> q & 1]
    ix = [q for q in range(x[0]) if x[1] >> q & 1]
    return (x[0], x[1], x[2] + tuple((f, i, "") for f in fx for i in ix), x[3])


def spec_rep(x, m, n):
    out = spec_alt(EMPTYWORD, spec_plus(x)) if n is None else EMPTYWORD
    for _ in range(0 if n is None else n - m):
        out = spec_alt(EMPTYWORD, spec_cat(x, out))
    for _ in range(m):
        out = spec_cat(x, out)
    return out


def single(nfa, q0, f):
    require(set(nfa.initials) == {q0}, "initial states: %r, returned %r", set(nfa.initials), q0)
    require(set(nfa.finals()) == {f}, "final states: %r, returned %r", set(nfa.finals()), f)


def compare(x, ref, alphabet, what, st):
    w, k = difference(x, ref, alphabet)
    st.states += k
    st.transitions += k * len(alphabet)
    require(w is None, "%s: the word %r is %s", what, "".join(w or ()), "wrongly rejected" if w is not None and run(ref, w) else "wrongly accepted")


def run(m, w):
    q = m.init
    for a in w:
        q = m.step(q, a)
        if q is None:
            return False
    return m.final(q)


def check(case, st):
    kind = case[0]
    if kind == "re":
        t, style = case[1], case[2]
        s = show(t, style)
        ref = relang.machine(t)
        nfa, q0, f = thompson_compile_nfa(s)
        single(nfa, q0, f)
        compare(relang.nfa_machine(nfa), ref, "abc", "NFA of %r" % s, st)
        dfa = compile_dfa(s, complete=True) if style == 1 else compile_dfa(s)
        compare(real_machine(dfa), ref, "abc", "DFA of %r" % s, st)
        if style == 2 or len(s) < 8:
            compare(relang.nfa_machine(compile_nfa(s)), ref, "abc", "compile_nfa(%r)" % s, st)
        if len(s) > 3:
            st.interesting()
    elif kind == "empty":
        ref = nfalang.Subsets(EMPTYWORD)
        nfa, q0, f = thompson_compile_nfa("")
        single(nfa, q0, f)
        compare(relang.nfa_machine(nfa), ref, "a", "NFA of ''", st)
        compare(real_machine(compile_dfa("")), ref, "a", "DFA of ''", st)
        compare(relang.nfa_machine(compile_nfa("")), ref, "a", "compile_nfa('')", st)
    elif kind == "lit":
        c = case[1]
        for s, w in ((c, c), (c + "a", c + "a"), ("a" + c, "a" + c), ("(" + c + ")" + "b", c + "b"), (c + c, c + c)):
            ref = nfalang.Subsets((len(w) + 1, 1, tuple((i, i + 1, x) for i, x in enumerate(w)), 1 << len(w)))
            compare(relang.nfa_machine(compile_nfa(s)), ref, set("ab" + c), "NFA of %r" % s, st)
            compare(real_machine(compile_dfa(s)), ref, set("ab" + c), "DFA of %r" % s, st)
        ref = nfalang.Subsets((2, 1, ((0, 1, c),), 2))
        nfa, q0, f = literal(c)
        single(nfa, q0, f)
        compare(relang.nfa_machine(nfa), ref, set("ab" + c), "literal(%r)" % c, st)
    elif kind == "un":
        spec, op = case[1], case[2]
        nfa, vs = nfalang.build(spec)
        f = next(vs[q] for q in range(spec[0]) if spec[3] >> q & 1)
        if op == "?":
            nfa, q0, f = zero_or_one(nfa, vs[0], f)
            want = spec_rep(spec, 0, 1)
        elif op == "*":
            nfa, q0, f = zero_or_more(nfa, vs[0], f)
            want = spec_rep(spec, 0, None)
        elif op == "+":
            nfa, q0, f = one_or_more(nfa, vs[0], f)
            want = spec_rep(spec, 1, None)
        elif len(op) == 1:
            nfa, q0, f = repetition(nfa, vs[0], f, op[0])
            want = spec_rep(spec, op[0], op[0])
        else:
            nfa, q0, f = repetition_range(nfa, vs[0], f, op[0], op[1])
            want = spec_rep(spec, op[0], op[1])
        single(nfa, q0, f)
        alphabet = "ab" if any(a == "b" for _, _, a in spec[2]) else "a"
        compare(relang.nfa_machine(nfa), nfalang.Subsets(want), alphabet, "%r applied to an NFA" % (op,), st)
        if len(spec[2]) > 1:
            st.interesting()
    else:
        x, y, op = case[1:]
        g1, v1 = nfalang.build(x)
        g2, v2 = nfalang.build(y)
        f1 = next(v1[q] for q in range(x[0]) if x[3] >> q & 1)
        f2 = next(v2[q] for q in range(y[0]) if y[3] >> q & 1)
        before = nfalang.snapshot(g2)
        nfa, q0, f = (concatenation if op == "." else alternation)(g1, v1[0], f1, g2, v2[0], f2)
        single(nfa, q0, f)
        require(nfalang.snapshot(g2) == before, "the second operand was modified")
        compare(relang.nfa_machine(nfa), nfalang.Subsets((spec_cat if op == "." else spec_alt)(x, y)), "ab", "%r of two NFAs" % op, st)
        st.interesting()
