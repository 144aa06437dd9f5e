from pybgl.deterministic_intersection import deterministic_intersection
from pybgl.deterministic_union import deterministic_union
from pybgl.deterministic_intersection import DeterministicIntersectionVisitor
from pybgl.deterministic_union import DeterministicUnionVisitor
from mc.core import require
from mc import lang
ID, LEVEL = "C18", "model_checking"
RULE = ("deterministic_union and deterministic_intersection on every pair of deterministic automata of the bounded space; the language of "
        "the result is compared exactly with the product of the two specifications, by exploring every state of the product of the result and the "
        "specification. A case is non-trivial when both languages have transitions to explore.")
ASSUMPTIONS = ["the result has its symbols on its transitions; a DigitalSequence is read over words of one-character symbols", "g12, when given, is empty",
               "the number of states of the result is free"]
BOUND = {"quick": "all pairs with <= 2 states over {a,b} (one side up to renaming), 3 states with one final state x <= 2 states with one final state, complete 3 x 3 states with a single final state (the last one), unary automata <= 4 states, {a,b} x {b,c} and {a,b} x {c} with <= 2 states, no initial state, four numberings of the states, automata whose symbols are on the states (from <= 3 states), words read as automata (<= 4 symbols, 60), symbols of several types, chains and rings up to 2500 states; trees of 2047 states, stars of 300 symbols",
         "thorough": "all 3 x <= 2 states, 3 x 3 states with a single final state (the last one), complete 3 x 3 states with one final state, unary <= 5 states"}


def shards(tier):
    return [(tier, p) for p in lang.pair_parts(tier)]


def cases(shard):
    return lang.pairs(*shard)


def recorder(base):
    class Recorder(base):
        def __init__(self, g12):
            super().__init__(g12)
            self.seen = []

        def start_vertex(self, s1, g1, s2, g2):
            self.seen.append((s1, s2))
            super().start_vertex(s1, g1, s2, g2)
    return Recorder


RESULT = {"I": "I", "M": "I"}      # the class of the target; its symbols are on the transitions
VISITORS = {"union": recorder(DeterministicUnionVisitor), "intersection": recorder(DeterministicIntersectionVisitor)}


def check(case, st):
    x, y, cx, cy, nx, ny = case
    g1, _ = lang.build(x, cx, nx)
    g2, _ = lang.build(y, cy, ny)
    before = lang.snapshot(g1), lang.snapshot(g2)
    mx, my = lang.spec_machine(x), lang.spec_machine(y)
    alphabet = lang.order(set(x[4]) | set(y[4]))
    states = 0
    for name, f, op in (("union", deterministic_union, lambda a, b: a or b), ("intersection", deterministic_intersection, lambda a, b: a and b)):
        target = lang.CLASSES[RESULT.get(cy, "A")](0)
        for _ in range(3 if nx & 2 else 0):     # empty, but its states will not be numbered from 0
            target.remove_vertex(target.add_vertex())
        for g12 in (f(g1, g2), f(g1, g2, target) if nx or ny or cx != cy else None):
            if g12 is None:
                continue
            require(g12 is target or g12 not in (g1, g2, target), "%s does not return the target", name)
            w, k = lang.difference(lang.real_machine(g12), lang.pair_machine(mx, my, op), alphabet)
            require(w is None, "%s: the word %r is treated wrongly (first %s, second %s)", name, lang.show(w),
                    mx.final(run(mx, w)), my.final(run(my, w)))
            require(g12.alphabet() <= set(alphabet), "%s: alphabet %s", name, g12.alphabet())
            states += k
            if g12 is target and nx and x[0] * y[0] < 10000:
                # a visitor given by the caller is used, and knows the pairs of states
                g = lang.CLASSES[RESULT.get(cx, "A")](0)
                vis = VISITORS[name](g)
                require(f(g1, g2, g, vis) is g and vis.seen == [(g1.initial(), g2.initial())], "%s: the given visitor saw the start pairs %s", name, vis.seen)
                require(g.num_vertices() == g12.num_vertices() and g.num_edges() == g12.num_edges(), "%s: another result with a given visitor", name)
                pairs = [(q1, q2) for q1 in [None] + list(g1.vertices()) for q2 in [None] + list(g2.vertices())]
                known = {p: vis.get_product_vertex(*p) for p in pairs if vis.get_product_vertex(*p) is not None}
                for (q1, q2), q in known.items():
                    want = op(q1 is not None and g1.is_final(q1), q2 is not None and g2.is_final(q2))
                    require(bool(g.is_final(q)) == bool(want), "%s: finality of the pair (%s, %s)", name, q1, q2)
                require(sorted(known.values()) == sorted(g.vertices()), "%s: pairs of states %s", name, known)
            if nx or ny:
                for w in ("", "a", "b", "ab", "aa", "c"):
                    require(g12.accepts(w) == op(mx.final(run(mx, w)), my.final(run(my, w))), "%s: accepts(%r)", name, w)
    require((lang.snapshot(g1), lang.snapshot(g2)) == before, "an operand was modified")
    st.states += states
    st.transitions += states * len(alphabet)
    st.traces += 1
    if x[2] != (None,) * len(x[2]) and y[2] != (None,) * len(y[2]):
        st.interesting()
    st.outcome(states)


def run(m, w):
    q = m.init
    for a in w or ():
        q = m.step(q, a)
    return q
