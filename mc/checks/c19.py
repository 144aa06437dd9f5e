from pybgl.deterministic_inclusion import DeterministicInclusionVisitor, deterministic_inclusion
from mc.core import require
from mc import lang
ID, LEVEL = "C19", "model_checking"
RULE = ("deterministic_inclusion on every ordered pair of deterministic automata of the bounded space (and every pair swapped), against the "
        "two differences computed by exploring the whole product of the specifications. A case is non-trivial when the languages differ.")
ASSUMPTIONS = ["a DigitalSequence is read over words of one-character symbols"]
BOUND = {"quick": "all pairs with <= 2 states over {a,b} (one side up to renaming), 3 states with one final state x <= 2 states with one final state, complete 3 x 3 states with a single final state (the last one), unary automata <= 4 states, {a,b} x {b,c} and {a,b} x {c} with <= 2 states, no initial state, four numberings of the states, automata whose symbols are on the states (from <= 3 states), words read as automata (<= 4 symbols, 60), symbols of several types, chains and rings up to 2500 states; trees of 2047 states, stars of 300 symbols",
         "thorough": "all 3 x <= 2 states, 3 x 3 states with a single final state (the last one), complete 3 x 3 states with one final state, unary <= 5 states"}


def shards(tier):
    return [(tier, p) for p in lang.pair_parts(tier)]


def cases(shard):
    return lang.pairs(*shard)


class Recorder(DeterministicInclusionVisitor):
    def __init__(self):
        super().__init__()
        self.seen = []

    def start_vertex(self, s1, g1, s2, g2):
        self.seen.append((s1, s2))
        super().start_vertex(s1, g1, s2, g2)


def check(case, st):
    x, y, cx, cy, nx, ny = case
    g1, _ = lang.build(x, cx, nx)
    g2, _ = lang.build(y, cy, ny)
    before = lang.snapshot(g1), lang.snapshot(g2)
    mx, my = lang.spec_machine(x), lang.spec_machine(y)
    alphabet = lang.order(set(x[4]) | set(y[4]))
    xy, yx, k = lang.relation(mx, my, alphabet)
    want = {(False, False): 0, (False, True): 1, (True, False): -1, (True, True): None}[(xy, yx)]
    got = deterministic_inclusion(g1, g2)
    require(got == want and type(got) is type(want), "inclusion is %r, expected %r", got, want)
    vis = Recorder()
    got = deterministic_inclusion(g1, g2, vis)
    require(got == want and type(got) is type(want) and vis.seen == [(g1.initial(), g2.initial())], "inclusion with a given visitor is %r, expected %r; start pairs %s", got, want, vis.seen)
    swapped = None if want is None else -want
    got = deterministic_inclusion(g2, g1)
    require(got == swapped, "inclusion of the swapped operands is %r, expected %r", got, swapped)
    require(deterministic_inclusion(g1, g1) == 0, "an automaton is not equal to itself")
    require((lang.snapshot(g1), lang.snapshot(g2)) == before, "an operand was modified")
    st.states += k
    st.transitions += k * len(alphabet)
    st.traces += 1
    if want != 0:
        st.interesting()
    st.outcome(want)
