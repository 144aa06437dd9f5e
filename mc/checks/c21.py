from itertools import combinations as combinations_
from pybgl.automaton import Automaton
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.moore_determination import moore_determination
from mc.core import require
from mc import nfalang
from mc.nfalang import masks_to_trans
ID, LEVEL = "C21", "model_checking"
RULE = ("moore_determination (complete or not) of every NFA of the bounded space, epsilon transitions and cycles included; the whole product of the result "
        "and of a reference subset construction is explored: same language, one state per reachable subset, completeness. A case is non-trivial "
        "when some reachable subset has at least two states.")
ASSUMPTIONS = ["dfa, when given, is empty", "words do not contain the epsilon symbol"]
BOUND = {"quick": "all NFAs with 2 states over {a,b,eps}, every initial and final set; 3 states over {a,eps} and {a,b} with the initial state 0 and the final state 2; cycles and grids up to 6 states, k-th symbol from the end (k <= 7), epsilon chains, rings and stars of 30 states, chains and rings of 1200 states, subsets of 25 states, symbols of several types",
         "thorough": "3 states over {a,eps} with every final set and {0}, {0,1} as initial states, 3 states over {a,b,eps} with <= 6 transitions, 4 states over {a} and 4 states over {a,eps} with <= 6 transitions"}


def arcs(n, syms):
    return [(q, r, a) for q in range(n) for r in range(n) for a in syms]


def shards(tier):
    out = [("n2", i) for i in range(8)] + [("n3ae", i) for i in range(8)] + [("n3ab", i) for i in range(8)] + [("families",), ("misc",), ("typed",), ("deep",), ("subsets",)]
    if tier != "quick":
        out += [("n3aex", i) for i in range(24)] + [("n3abe", i) for i in range(8)] + [("n4a", i) for i in range(8)] + [("n4ae", i) for i in range(8)]
    return out


def cases(shard):
    part = shard[0]
    i8 = shard[1] if len(shard) > 1 else 0
    if part == "n2":
        A = arcs(2, ("a", "b", ""))
        for m in range(i8, 1 << 12, 8):
            for inits in range(4):
                for finals in range(4):
                    yield ((2, inits, masks_to_trans(A, m), finals), "ε", 0)
    elif part in ("n3ae", "n3ab"):
        A = arcs(3, ("a", "") if part == "n3ae" else ("a", "b"))
        for m in range(i8, 1 << 18, 8):
            t = masks_to_trans(A, m)
            if not any(q == r and a == "" for q, r, a in t):
                yield ((3, 1, t, 4), "ε", 0)
    elif part == "n3aex":
        A = arcs(3, ("a", ""))
        for m in range(i8, 1 << 18, 24):
            t = masks_to_trans(A, m)
            if not any(q == r and a == "" for q, r, a in t):
                for inits in (1, 3):
                    for finals in range(1, 8):
                        yield ((3, inits, t, finals), "ε", 0)
    elif part in ("n3abe", "n4ae"):
        from itertools import combinations
        n = int(part[1])
        A = [x for x in arcs(n, ("a", "b", "") if n == 3 else ("a", "")) if x[2] or x[0] != x[1]]
        for k in range(7):
            for j, t in enumerate(combinations(A, k)):
                if j % 8 == i8:
                    yield ((n, 1, t, 1 << n - 1), "ε", 0)
    elif part == "n4a":
        A = arcs(4, ("a",))
        for m in range(i8, 1 << 16, 8):
            for finals in (8, 2, 5):
                yield ((4, 1, masks_to_trans(A, m), finals), "ε", 0)
    elif part == "families":
        for n in range(2, 8):
            ring = [(q, (q + 1) % n, "a") for q in range(n)]
            for extra in ([], [(0, 0, "b")], [(q, (q * 2) % n, "b") for q in range(n)], [(q, (q + 1) % n, "") for q in range(n)],
                          [(0, 0, "a"), (0, 0, "b")] + [(q, q + 1, "b") for q in range(n - 1)],
                          [(q, q + 1, "") for q in range(n - 1)], [(q, (q + 2) % n, "a") for q in range(n)] + [(n - 1, 0, "")]):
                for inits in (1, 2, (1 << n) - 1):
                    for finals in (1, 1 << n - 1, 0, (1 << n) - 1):
                        yield ((n, inits, tuple(ring + extra), finals), "ε", n % 4)
                        yield ((n, inits, tuple(ring[:-1] + extra), finals), "eps", 0)
        for k in range(2, 8):      # the k-th symbol from the end: 2^k subsets
            t = ((0, 0, "a"), (0, 0, "b"), (0, 1, "a")) + tuple((q, q + 1, a) for q in range(1, k) for a in "ab")
            yield ((k + 1, 1, t, 1 << k), "ε", 0)
            yield ((k + 1, 1, t + ((k, 0, ""),), 1 << k), "ε", 1)
            yield ((k + 1, 1, t + ((k, 1, "a"),), 1 << k | 2), "ε", 2)
            chain = tuple((q, q + 1, "") for q in range(k))
            yield ((k + 1, 1, chain + tuple((q, 0, "a") for q in range(k + 1)) + ((k, k, "b"),), 1 << k), "ε", 0)
            yield ((k + 1, 1, chain + ((k, 0, ""), (1, 2, "a"), (2, 1, "b")), 2), "ε", 3)
        for n in (12, 30):
            for f in (1, 1 << n - 1, 6):
                yield ((n, 1, tuple((q, (q + 1) % n, a) for q in range(n) for a in "a"), f), "ε", 0)
                yield ((n, 3, tuple((q, (q + 1) % n, "a") for q in range(n)) + ((n - 1, 2, ""),), f), "ε", 0)
                yield ((n, 1, tuple((0, r, "abcdefghij"[r % 10]) for r in range(n)) + tuple((r, 0, "") for r in range(n) if r % 3), f), "ε", 0)
    elif part == "typed":      # symbols of several types
        from mc.lang import TYPED
        for i, (x, y) in enumerate(t for t in TYPED if all(t)):
            A = arcs(2, (x, y, ""))
            for m in range(i, 1 << 12, 7):
                yield ((2, 1, masks_to_trans(A, m), 2), "ε", m % 4)
    elif part == "deep":       # more than a thousand states
        n = 1200
        yield ((n, 1, tuple((q, q + 1, "") for q in range(n - 1)), 1 << n - 1), "ε", 0)
        yield ((n, 1, tuple((q, (q + 1) % n, "a") for q in range(n)), 1 << n - 1), "ε", 0)
        yield ((n, 3, tuple((q, q + 1, "a") for q in range(n - 1)) + ((n - 2, n - 1, ""),), 1 << n - 1), "ε", 1)
    elif part == "subsets":    # every pair of subsets whose numbers read the same, and others, among 25 states
        n = 25
        sets = [s for k in (1, 2) for s in combinations_(range(1, n), k)]
        names = {}
        for s in sets:
            names.setdefault("".join(map(str, s)), []).append(s)
        for same in list(names.values()) + [sets[i::40] for i in range(40)]:
            if len(same) > 1:
                t = tuple((0, q, chr(97 + i)) for i, s in enumerate(same) for q in s) + tuple((q, 0, "") for q in range(1, n) if q % 9 == 4)
                yield ((n, 1, t, 1 << same[0][0]), "ε", 0)
                yield ((n, 1, t[::-1], 1 << same[-1][-1]), "ε", 0)
    elif part == "misc":       # numbering of the states, other epsilon symbols
        A = arcs(2, ("a", ""))
        for m in range(1 << 8):
            for finals in range(4):
                for num in (1, 2, 3):
                    yield ((2, 1, masks_to_trans(A, m), finals), "ε", num)
                for eps in ("", "b", "eps"):
                    yield ((2, 1, masks_to_trans(A, m), finals), eps, 0)
        for inits in (0, 1):
            for finals in (0, 1):
                for t in ((), ((0, 0, "a"),), ((0, 0, "a"), (0, 0, "")), ((0, 0, "long name"),)):
                    yield ((1, inits, t, finals), "ε", 0)


def check(case, st):
    spec, eps, num = case
    nfa, vs = nfalang.build(spec, eps, num)
    before = nfalang.snapshot(nfa)
    sigma = sorted({a for (_, _, a) in spec[2] if a}, key=repr)
    wide = False
    mine = IncidenceAutomaton(0)
    for _ in range(2 if num else 0):        # empty, but its states will not be numbered from 0
        mine.remove_vertex(mine.add_vertex())
    targets = (None, None) if spec[0] == 3 else (None, mine)
    for complete, target in zip((True, False), targets):
        dfa = moore_determination(nfa) if complete and target is None else moore_determination(nfa, complete=complete) if target is None else moore_determination(nfa, target, complete)
        if complete and spec[0] != 3:
            require(type(dfa) is Automaton, "the result is a %s", type(dfa))
        require(target is None or dfa is target, "the automaton of the caller is not returned")
        ref = nfalang.Subsets(spec, keep_empty=True)
        q0 = dfa.initial()
        require(q0 in set(dfa.vertices()), "the initial state %s is not a state", q0)
        where = {ref.init: q0}
        todo = [ref.init]
        while todo:
            m = todo.pop()
            q = where[m]
            st.states += 1
            wide |= bin(m).count("1") > 1
            require(bool(dfa.is_final(q)) == ref.final(m), "state %s (subset %s): final is %s", q, bin(m), dfa.is_final(q))
            for a in sigma:
                st.transitions += 1
                r, rm = dfa.delta(q, a), ref.step(m, a)
                if not complete and rm == 0:
                    require(r is None, "there is a transition by %r from subset %s to the empty subset", a, bin(m))
                    continue
                require(r is not None, "no transition by %r from subset %s (complete=%s)", a, bin(m), complete)
                if rm in where:
                    require(where[rm] == r, "two states, %s and %s, for the subset %s", where[rm], r, bin(rm))
                else:
                    where[rm] = r
                    todo.append(rm)
        require(len(set(where.values())) == len(where), "two subsets share a state: %s", where)
        require(set(where.values()) == set(dfa.vertices()), "states %s, the reachable subsets use %s", sorted(dfa.vertices()), sorted(where.values()))
        require(dfa.alphabet() <= set(sigma), "alphabet %s", dfa.alphabet())
        require(dfa.num_edges() == sum(1 for m in where for a in sigma if complete or ref.step(m, a)), "%s transitions", dfa.num_edges())
    require(nfalang.snapshot(nfa) == before, "the NFA was modified")
    st.traces += 1
    if wide:
        st.interesting()
    st.outcome((len(where), dfa.num_edges()))
