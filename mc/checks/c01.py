from mc.bfs_check import from_shapes, install
from mc.sys_graph import GraphSystem
ID, LEVEL = "C01", "model_checking"
RULE = ("breadth-first search over histories of add_vertex/add_edge/remove_edge/remove_vertex/clear on Graph and "
        "DirectedGraph against a list-of-edges model; states are merged only when the real object and the model are "
        "structurally identical; every observer is compared in every state. A case is non-trivial when it reaches a "
        "state not seen before.")
ASSUMPTIONS = ["a fresh id only has to differ from the current vertices; removal of an absent edge or vertex is left unspecified",
               "order of vertices(), edges() and out_edges() is not compared"]
BOUND = {"quick": "larger starting graphs (11 parallel edges, cliques of 4 and 6, star, ring of 12) followed by 1-3 operations, 300 parallel edges with removals and a vertex of degree 280; histories <= 5-6, <= 3 vertices, <= 3 edges (parallel edges and loops included); a hub of degree 360 removed",
         "thorough": "one more operation from the larger graphs; histories <= 7-8, <= 4 vertices, <= 4 edges"}


def shards(tier):
    d = 0 if tier == "quick" else 1
    return [(c, dep + d + d * (c[3] == 2)) for c, dep in [
        (("DirectedGraph", 0, 0, 2, 3), 7),
        (("DirectedGraph", 2, 0, 3, 4), 5),
        (("DirectedGraph", 1, 0, 2, 4), 6),
        (("Graph", 2, 0, 2, 3), 5),
        (("DirectedGraph", 3, 0, 4, 3), 4),
        (("DirectedGraph", 2, 300, 3, 3), 3),
        (("DirectedGraph", 1, 1, 3, 3), 5),
    ]] + from_shapes(("DirectedGraph",), {None: 2 + d, "parallel": 3 + d, "again": 3 + d, "star": 1 + d, "ring": 1 + d, "clique": 1 + d, "complete": 1 + d})


install(globals(), lambda c: GraphSystem(*c))
