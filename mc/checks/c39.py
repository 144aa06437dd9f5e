import os
import pickle
import signal
from itertools import product
from mc import calls
from mc.calls import OPS, NO_TICK, NUM_WORLDS, UPDATES, World, spoil
from mc.core import CASE_CPU_S, Violation, describe_exc, require
ID, LEVEL = "C39", "model_checking"
RULE = ("Every history of two operations (followed by all the others in the thorough tier) out of a catalogue of the whole public interface, on several worlds of live objects: every operation gives the answer it gives alone in a fresh process, "
        "whatever was called before, whatever the caller did with the objects it received, and leaves the objects given to it, and the answers of the other calls, as they are. Nesting: every operation run inside every callback of every other one (visitors, filters, "
        "distances, comparisons). Faults: every operation aborted by an exception of its caller at every callback, followed by all the operations. Updates: every operation is called, the caller modifies some objects in one of 23 ways, every operation is called again, at most twice, and answers as if it had not been called before. Each history (all the nestings of two operations) runs in a process of its own. A case is non-trivial when an operation gives modifiable objects to its caller, or when a nested call took place.")
ASSUMPTIONS = ["a view, a GraphDp or a property map shares the objects it is made of, by design", "algorithms that work in place are run on an object of their own",
               "answers are compared up to the numbering of new vertices", "each operation of a nested pair only reads the shared objects"]
BOUND = {"quick": "83 operations; every pair in 4 worlds, every nesting and every abort at every callback (the 12 first ones) in 2 worlds; every sequence of 2 updates in 4 worlds",
         "thorough": "every pair in 8 worlds, every pair followed by the whole catalogue in 2 worlds, every nesting and abort (the 20 first callbacks) in 3 worlds; every sequence of 2 updates in 8 worlds"}
NAMES = sorted(OPS)


def shards(tier):
    deep = tier != "quick"
    out = [("pairs", w, i) for w in range(NUM_WORLDS if deep else 4) for i in range(8)]
    for what in ("abort", "nest"):
        out += [(what, w, i, 20 if deep else 12) for w in range(3 if deep else 2) for i in range(8)]
    out += [("update", w, i) for w in range(NUM_WORLDS if deep else 4) for i in range(len(UPDATES))]
    if deep:
        out += [("chains", w, i) for w in (1, 2) for i in range(len(NAMES))]
    return out


def cases(shard):
    what, w, i = shard[:3]
    if what == "pairs":
        for a, b in product(NAMES, repeat=2):
            if NAMES.index(a) % 8 == i:
                yield ("calls", w, (a, b))
    elif what == "chains":
        for b in NAMES:
            yield ("calls", w, (NAMES[i], b, "*"))
    elif what == "update":
        names = sorted(UPDATES)
        yield ("update", w, (names[i],))
        for b in names:
            yield ("update", w, (names[i], b))
    elif what == "abort":
        for a in NAMES[i::8]:
            for k in range(min(callbacks(w, a), shard[3])):
                yield ("abort", w, a, k)
    else:
        for a, b in product(NAMES, repeat=2):
            if NAMES.index(a) % 8 == i:
                n = min(callbacks(w, a), shard[3])
                if n:
                    yield ("nest", w, a, b, n)


def isolated(f):
    """f() in a process of its own, forked from this one, which has never called the code under test itself."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = ("error", "?")
        try:
            os.close(r)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
            try:
                out = ("value", f())
            except Violation as v:
                out = ("violation", v.msg)
            except Exception as e:
                out = ("violation", "the code under test raised " + describe_exc(e))
            with os.fdopen(wr, "wb") as p:
                pickle.dump(out, p)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    _, status = os.waitpid(pid, 0)
    require(os.WIFEXITED(status) and data, "no result after %d s of CPU time (non-termination), or the process died (status %s)", CASE_CPU_S, status)
    kind, x = pickle.loads(data)
    if kind != "value":
        raise Violation(x)
    return x


ALONE = {}


def alone(w, a):
    """What the operation answers when it is the first one, and how many times it calls back."""
    if (w, a) not in ALONE:
        def f():
            count = [0]

            def tick():
                count[0] += 1
            world = World(w)
            world.hook = tick
            view, _ = OPS[a](world, tick)
            n, world.hook = count[0], NO_TICK
            return repr(view()), n
        ALONE[(w, a)] = isolated(f)
    return ALONE[(w, a)]


def callbacks(w, a):
    try:
        return alone(w, a)[1]
    except Violation:
        return 1          # reported by the cases of this operation


def check(case, st):
    w = case[1]
    st.begin(case)
    if case[0] == "update":
        return updated(case, st)
    names = expand(case[2]) if case[0] == "calls" else case[2:4] if case[0] == "nest" else NAMES
    base = {a: alone(w, a)[0] for a in names}
    n = isolated(lambda: {"calls": history, "nest": nested, "abort": aborted}[case[0]](case, base))
    runs = case[4] if case[0] == "nest" else 1
    st.states += (len(names) + 1) * runs
    st.transitions += (len(names) + 2) * runs
    st.traces += 1
    if n:
        st.interesting()
    st.outcome(n)


def answers(world):
    return {a: repr(OPS[a](world, NO_TICK)[0]()) for a in NAMES}


def updated(case, st):
    """The caller modifies the objects of the world between two series of calls: the answers are those about the objects as they are."""
    _, w, ups = case

    def live():
        world = World(w)
        out = [answers(world)]
        for u in ups:
            UPDATES[u](world)
            out.append(answers(world))
        return out

    def fresh(k):
        world = World(w)
        for u in ups[:k]:
            UPDATES[u](world)
        return answers(world), repr(world.value())
    got = isolated(live)
    changed = 0
    for k in range(1, len(ups) + 1):
        want, _ = isolated(lambda: fresh(k))
        for a in NAMES:
            require(got[k][a] == want[a], "%s was called, then %s: it answers %s, instead of %s on objects so modified before any call", a, list(ups[:k]), got[k][a], want[a])
            changed += got[k][a] != got[k - 1][a]
    st.states += len(ups) + 1
    st.transitions += len(NAMES) * (len(ups) + 1)
    st.traces += 1
    if changed:
        st.interesting()
    st.outcome(changed)


def expand(names):
    return names if names[-1] != "*" else names[:-1] + tuple(NAMES)


def history(case, base):
    _, w, names = case
    names = expand(names)
    world = World(w)
    before = repr(world.value())
    views, given = [], []
    for i, a in enumerate(names):
        view, results = OPS[a](world, NO_TICK)
        got = repr(view())
        require(got == base[a], "%s answers %s after %s, but %s alone", a, got, list(names[:i]), base[a])
        views.append(view)
        given.append(results)
    for i, a in enumerate(names):
        got = repr(views[i]())
        require(got == base[a], "the answer of %s was %s, it becomes %s after %s", a, base[a], got, list(names[i + 1:]))
    now = repr(world.value())
    require(now == before, "%s altered the objects given: %s, before: %s", list(names), *diff(now, before))
    # the caller modifies what the first call gave to it
    spoil(given[0])
    now = repr(world.value())
    require(now == before, "modifying the result of %s alters the objects given to it: %s, before: %s", names[0], *diff(now, before))
    for i, a in list(enumerate(names))[1:]:
        got = repr(views[i]())
        require(got == base[a], "the answer of %s was %s, it becomes %s once the result of %s is modified", a, base[a], got, names[0])
    for a in names:
        view, _ = OPS[a](world, NO_TICK)
        got = repr(view())
        require(got == base[a], "once the result of %s is modified, %s answers %s, instead of %s", names[0], a, got, base[a])
    got = repr(OPS[names[-1]](World(w), NO_TICK)[0]())
    require(got == base[names[-1]], "%s answers %s on new equal objects, instead of %s", names[-1], got, base[names[-1]])
    return sum(len(x) for x in given)


def diff(now, before):
    i = next((i for i, (x, y) in enumerate(zip(now, before)) if x != y), min(len(now), len(before)))
    return "..." + now[max(0, i - 100):i + 100], "..." + before[max(0, i - 100):i + 100]


def nested(case, base):
    return sum(nested_at(case[1:4] + (k,), base) for k in range(case[4]))


def nested_at(case, base):
    w, a, b, k = case
    world = World(w)
    before = repr(world.value())
    count, inner = [0], []

    def tick():
        count[0] += 1
        if count[0] == k + 1:
            inner.append(OPS[b](world, NO_TICK))
    world.hook = tick
    view, _ = OPS[a](world, tick)
    world.hook = NO_TICK
    require(len(inner) == 1 or count[0] <= k, "nested calls %d", len(inner))
    got = repr(view())
    require(got == base[a], "%s answers %s when %s is called from its callback number %d, instead of %s", a, got, b, k, base[a])
    for v, _ in inner:
        got = repr(v())
        require(got == base[b], "%s answers %s when it is called from the callback number %d of %s, instead of %s", b, got, k, a, base[b])
    now = repr(world.value())
    require(now == before, "%s in %s altered the objects given: %s, before: %s", b, a, *diff(now, before))
    return len(inner)


class Stop(Exception):
    """Raised by the caller."""


def aborted(case, base):
    _, w, a, k = case
    world = World(w)
    before = repr(world.value())
    count = [0]

    def tick():
        count[0] += 1
        if count[0] == k + 1:
            raise Stop()
    world.hook = tick
    try:
        OPS[a](world, tick)
    except Stop:
        pass
    world.hook = NO_TICK
    now = repr(world.value())
    require(now == before, "%s, aborted at its callback number %d, altered the objects given: %s, before: %s", a, k, *diff(now, before))
    for b in [a] + NAMES:
        got = repr(OPS[b](world, NO_TICK)[0]())
        require(got == base[b], "%s answers %s after %s was aborted at its callback number %d, instead of %s", b, got, a, k, base[b])
    return count[0] > k
