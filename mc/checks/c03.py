from mc.bfs_check import from_shapes, install
from mc.sys_graph import GraphSystem
ID, LEVEL = "C03", "model_checking"
RULE = ("breadth-first search over histories of add_vertex/add_edge/remove_edge (either orientation)/remove_vertex/clear on "
        "UndirectedGraph against a list-of-edges model; in every state the edges and the incident edges of every vertex are "
        "compared with the model. A case is non-trivial when it reaches a state not seen before.")
ASSUMPTIONS = ["a self-loop is listed once among the incident edges of its vertex",
               "removal of an absent edge or vertex is left unspecified", "iteration order is not compared"]
BOUND = {"quick": "larger starting graphs (11 parallel edges, cliques of 4 and 6, star, ring of 12) followed by 1-3 operations, 300 parallel edges with removals and a vertex of degree 280; histories <= 5-6, <= 3 vertices, <= 3 edges; a hub of degree 330 removed", "thorough": "one more operation from the larger graphs; histories <= 7, <= 4 vertices, <= 4 edges"}


def shards(tier):
    d = 0 if tier == "quick" else 1
    return [(c, dep + d) for c, dep in [
        (("UndirectedGraph", 0, 0, 2, 3), 7),
        (("UndirectedGraph", 2, 0, 3, 4), 5),
        (("GraphU", 2, 0, 2, 4), 6),
        (("UndirectedGraph", 3, 0, 4, 3), 4),
        (("UndirectedGraph", 2, 300, 3, 3), 3),
        (("UndirectedGraph", 1, 1, 3, 3), 5),
    ]] + from_shapes(("UndirectedGraph",), {None: 2 + d, "parallel": 3 + d, "again": 3 + d, "star": 1 + d, "ring": 1 + d, "clique": 1 + d, "complete": 1 + d})


install(globals(), lambda c: GraphSystem(*c))
