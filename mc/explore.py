"""
Explicit-state exploration of the real containers: breadth-first search over operation histories.

A `System` provides
  make()             -> (obj, model): a fresh real object and its reference model
  ops(model)         -> the operations enabled in that state (repr-able tuples), simplest first
  apply(obj, model, op)  runs the operation on both; raises Violation if the answers differ
  observe(obj, model)    compares every observer of the real object with the model; raises Violation
  prefix                 (optional) operations that lead from make() to the initial state;
                         ("drop", k) removes the k-th edge
Live objects are not copied: a state is the history that reaches it, replayed on a fresh object. Two
histories are merged only when the real objects are structurally identical (every attribute, in
iteration order) and so are their models: identical objects have the same futures, unless the code keeps
something outside of them. Hence, the history that reaches each new state is also run on one object whose
observers are called after every operation; and, when a history is merged, its last but one operation is repeated.
"""
import signal, types
from .core import Violation, Hang, describe_exc, CASE_CPU_S


def snapshot(x, memo=None):
    """Structural image of an arbitrary object (representation-agnostic, order-preserving)."""
    if memo is None:
        memo = {}
    if x is None or isinstance(x, (bool, int, float, str, bytes, type)):
        return (type(x).__name__, x)
    i = id(x)
    if i in memo:
        return ("#", memo[i])
    memo[i] = len(memo)
    if isinstance(x, dict):
        return (type(x).__name__, tuple((snapshot(k, memo), snapshot(v, memo)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(snapshot(k, memo) for k in x))
    if isinstance(x, (list, tuple)) or type(x).__name__ == "deque":
        return (type(x).__name__, tuple(snapshot(k, memo) for k in x))
    if isinstance(x, types.FunctionType):
        cells = tuple(snapshot(c.cell_contents, memo) for c in (x.__closure__ or ()))
        return ("fn", x.__qualname__, x.__code__.co_firstlineno, cells)
    if isinstance(x, types.MethodType):
        return ("method", x.__name__, snapshot(x.__self__, memo))
    if isinstance(x, (types.BuiltinFunctionType, types.ModuleType)):
        return ("builtin", x.__name__)
    d = dict(getattr(x, "__dict__", {}))
    for klass in type(x).__mro__:
        for s in getattr(klass, "__slots__", ()) or ():
            if isinstance(s, str) and hasattr(x, s):
                d[s] = getattr(x, s)
    return (type(x).__qualname__, tuple((k, snapshot(v, memo)) for k, v in d.items()))


OBSERVE = ("observe",)


def step(system, obj, model, op):
    if op == OBSERVE:
        system.observe(obj, model)
        system.free = True      # the operations that follow take the form of functions
    else:
        system.apply(obj, model, op)


def start(system):
    """The initial state, or the one that a fixed sequence of operations reaches (`prefix`)."""
    system.free = False
    obj, model = system.make()
    for op in getattr(system, "prefix", ()):
        system.apply(obj, model, ("remove_edge",) + model.edges[op[1]] if op[0] == "drop" else op)
    return obj, model


def rebuild(system, history):
    obj, model = start(system)
    for op in history:
        step(system, obj, model, op)
    return obj, model


def canon(obj, model):
    return hash((snapshot(obj), snapshot(model)))


def replay(system, history):
    """Replays a history with every check on."""
    obj, model = start(system)
    system.observe(obj, model)
    obj, model = start(system)
    for i, op in enumerate(history):
        step(system, obj, model, op)
    system.observe(obj, model)
    system.observe(obj, model)


def bfs(system, depth, st, config):
    """Explores every history of at most `depth` operations. config: literal that rebuilds the system."""
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    hist = ()
    try:
        obj, model = start(system)
        seen = {canon(obj, model)}
        st.states += 1
        system.observe(obj, model)
        frontier = [()]
        level = 0
        while frontier and level < depth:
            nxt = []
            for base in frontier:
                hist = base
                _, model = rebuild(system, base)
                for op in system.ops(model):
                    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
                    hist = base + (op,)
                    st.case = (config, hist)
                    st.evaluations += 1
                    st.transitions += 1
                    obj, model = rebuild(system, base)
                    step(system, obj, model, op)
                    c1 = canon(obj, model)
                    new = c1 not in seen
                    if new:
                        seen.add(c1)
                        st.states += 1
                        nxt.append(hist)
                        st.interesting()
                        system.observe(obj, model)      # every observer agrees with the model
                        c2 = canon(obj, model)
                        if c2 != c1:                    # an observer changed the object: that is a state too
                            hist = hist + (OBSERVE,)
                            system.observe(obj, model)
                            if c2 not in seen:
                                seen.add(c2)
                                st.states += 1
                                nxt.append(hist)
                        # the same operations on one object that is observed all along: an answer given before must not outlive the state it is about
                        hist = tuple(o for p in base if p != OBSERVE for o in (OBSERVE, p)) + (OBSERVE, op)
                        obj, model = rebuild(system, hist)
                        system.observe(obj, model)
                    elif op != OBSERVE and base and base[-1] in system.ops(model):
                        # back to a known state: what was done before can be done again
                        hist += base[-1:]
                        step(system, obj, model, base[-1])
                        system.observe(obj, model)
                        st.transitions += 1
                    st.traces += 1
                    if hasattr(system, "outcome"):
                        st.outcome(system.outcome(model))
            frontier = nxt
            level += 1
            st.note_max("depth", level)
    except Violation as v:
        v.case = (config, hist)
        raise
    except Hang:
        raise Violation("no result after %d s of CPU time (non-termination)" % CASE_CPU_S, case=(config, hist))
    except Exception as e:
        raise Violation("the code under test raised " + describe_exc(e), case=(config, hist))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
