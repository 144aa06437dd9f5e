"""Glue between a System class and the runner: a shard is ((system arguments...), depth).

("from", prefix, (system arguments...)) starts from the state reached by a fixed sequence of operations.
"""
import signal
from . import explore as X
from .core import CASE_CPU_S, Violation


def install(ns, build, large=None):
    """large(args, st): the check of the scenarios ("large", args), which are not explored further."""
    def system(config):
        if config[0] != "from":
            return build(config)
        s = build(config[2])
        s.prefix = config[1]
        return s

    def explore(shard, st):
        config, depth = shard
        if config[0] == "large":
            st.case = (config, ())
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
            st.evaluations += 1
            st.states += 1
            st.interesting()
            try:
                large(config[1], st)
            except Violation as v:
                v.case = st.case
                raise
            return
        X.bfs(system(config), depth, st, config)

    def check(case, st):
        config, hist = case
        st.evaluations += 1
        if config[0] == "large":
            large(config[1], st)
            return
        X.replay(system(config), hist)
    ns["explore"] = explore
    ns["check"] = check


def from_shapes(kinds, depths, more=()):
    """Shards that start from larger graphs; kinds: classes, the first one being used for every shape."""
    directed = not any("Und" in k for k in kinds)

    def edges(es):
        return tuple(("add_edge", u, v) for u, v in es)
    parallel = edges([(0, 1)] * 11)
    shapes = {
        # number of vertices, operations, vertices and edges allowed
        "parallel": (2, parallel, 2, 12),
        "gaps": (2, parallel + (("drop", 3), ("drop", 0), ("drop", 7)), 2, 11),
        "again": (2, edges([(0, 1)]) + (edges([(0, 1)]) + (("drop", 0),)) * 20, 2, 3),
        "loops": (2, edges([(0, 0)] * 4 + [(0, 1), (1, 1)] * 2), 2, 9),
        "complete": (4, edges([(u, v) for u in range(4) for v in range(4) if directed or u <= v]), 4, 17),
        "multi": (3, edges([(0, 1), (1, 2), (2, 0), (1, 0)] * 3), 3, 12),
        "star": (10, edges([(0, v) for v in range(1, 10)] + ([(v, 0) for v in range(1, 6)] if directed else [])), 11, 16),
        "ring": (12, edges([(v, (v + 1) % 12) for v in range(12)]), 12, 13),
        # many parallel edges, and one vertex of large degree: the state itself, and no operation
        "many": (2, edges([(0, 1)] * 300) + (("drop", 299), ("drop", 0), ("drop", 256)) + edges([(0, 1), (1, 1)]), 2, 0),
        "hub": (280, edges([(0, v) for v in range(1, 280)] + ([(v, 0) for v in range(200, 280)] if directed else [(v, 5) for v in range(6, 60)])), 280, 0),
        "unhub": (280, edges([(0, v) for v in range(1, 280)] + ([(v, 0) for v in range(200, 280)] if directed else [(v, 5) for v in range(6, 60)]) + [(0, 0), (7, 9), (7, 9)]) + (("remove_vertex", 0),), 280, 0),
        "clique": (6, edges([(u, v) for u in range(6) for v in range(6) if u < v or directed and u > v]), 6, 30),
    }
    out = []
    for k in kinds:
        for name, (n, ops, nv, ne) in shapes.items():
            out.append((("from", ops, (k, n, 0, nv, ne)), 0 if name in ("many", "hub", "unhub") else depths.get(name, depths[None])))
    return out
