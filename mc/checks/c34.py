from collections import defaultdict
from itertools import product
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graphviz import ReadGraphvizVisitor, read_graphviz, read_graphviz_dp
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from mc.core import require
from mc.gen import big_graphs, build_graph, edge_seqs, edge_sets
ID, LEVEL = "C34", "exploration"
RULE = ("For every small graph (multi-edges, loops, identifiers with holes), attribute assignment and layout of the text (written by to_dot or by hand with various spacings, "
        "given as a string, a list or a stream of lines), the graph read back is compared with the graph written: k-th vertex statement, k-th vertex; same edges, same attributes. "
        "A case is non-trivial when the graph has an edge.")
ASSUMPTIONS = ["one statement per line, numeric identifiers, vertices described before the edges (as documented)", "attribute values contain neither backslash nor ASCII control character"]
BOUND = {"quick": "multigraphs of 2 vertices and <= 3 edges, simple graphs of 3 vertices, 3 classes, 3 numberings, 4 attribute sets, 8 layouts; all values of <= 3 characters out of 22; larger graphs (40 vertices, 40 parallel edges), values of 40 characters; 20 attributes per statement, 120 vertices",
         "thorough": "multigraphs of 3 vertices and <= 3 edges; values of <= 4 characters"}
CHARS = ["a", "Z", "0", " ", "-", ";", "#", ":", "é", ",", "=", "|", "]", "_", "&", "<", ">", "[", "\"", "&lt;", "\u2028", "\x85"]

LAYOUTS = ["to_dot", "plain", "tight", "loose", "unquoted", "nosemi-header", "comma", "comma-unquoted"]


def shards(tier):
    deep = tier != "quick"
    out = [(k, n, i, deep) for k in "DIU" for n in (0, 1, 2) for i in range(1)]
    out += [(k, 3, i, deep) for k in "DIU" for i in range(6)]
    return out + [("value", i, 4 if deep else 3) for i in range(len(CHARS))] + [("hooks",), ("big",)]


def cases(shard):
    if shard[0] == "hooks":
        for es in edge_seqs(2, 2):
            for mask in range(4):
                yield ("hooks", es, mask)
        return
    if shard[0] == "value":
        _, i, n = shard
        for k in range(n):
            for rest in product(CHARS, repeat=k):
                yield ("value", CHARS[i] + "".join(rest))
        return
    if shard[0] == "big":
        for kind in "DIU":
            for j, (n, es) in enumerate(big_graphs(kind != "U")):
                for a in range(4):
                    for lay in LAYOUTS:
                        yield ("graph", kind, n, es, (0, 1, 12, 1300)[(j + a) % 4], a, lay)
        for c in CHARS:
            for d in CHARS:
                yield ("value", (c + d) * 20)
        return
    kind, n, i, deep = shard
    directed = kind != "U"
    if n < 3:
        graphs = list(edge_seqs(n, 3, directed=directed))
    elif deep:
        graphs = list(edge_seqs(3, 3, directed=directed)) + list(edge_sets(3, directed=directed))
    else:
        graphs = list(edge_sets(3, 4, directed=directed)) + [tuple(reversed(es)) * 2 for es in edge_sets(3, 2, directed=directed)]
    for j, es in enumerate(graphs):
        if n < 3 or j % 6 == i:
            for a in range(4):
                for lay in LAYOUTS:
                    yield ("graph", kind, n, tuple(es), (0, 1, 12)[(j + a) % 3], a, lay)


def text_of(kind, n, edges, off, attrs, lay):
    """The text, the attributes of the k-th vertex, and those of the k-th edge (as written)."""
    many = {} if n < 6 else {"attr_%s" % c: "%s 1" % c if lay in ("to_dot", "comma") else c for c in "bcdefghijklmnopqrs"}
    va = lambda i: dict({"label": "v>%d" % i, "color": "v%d" % i, "fontsize": str(i + 8)}, **many) if attrs & 1 else {}
    ea = lambda i: dict({"color": "e%d" % i, "URL": "http://x?y=%d&z" % i, "style": "dotted"}, **many) if attrs & 2 else {}
    if lay == "to_dot":
        g, es = build_graph(kind, n, edges, off)
        vs = sorted(g.vertices())
        idx = {(e.source, e.target, e.distinguisher): i for (i, e) in enumerate(es)}
        if kind == "U":
            idx.update({(e.target, e.source, e.distinguisher): i for (i, e) in enumerate(es)})
        num = lambda e: idx[(e.source, e.target, e.distinguisher)]
        pm = lambda f, a: {k: make_func_property_map(lambda x, k=k: f(x)[k]) for k in a}
        text = g.to_dot(vs=vs, es=es, dpv=pm(lambda u: va(u - off), va(0)), dpe=pm(lambda e: ea(num(e)), ea(0)))
        return text, va, ea, [(e.source - off, e.target - off) for e in es]
    arc = "--" if kind == "U" else "->"
    lines = [("graph" if kind == "U" else "digraph") + (" G {" if lay != "nosemi-header" else " \"my graph\"\n{")]
    if lay == "loose":
        lines += ["", "  // a comment", "  rankdir=LR;", "node [shape=\"circle\"];", "edge [color=\"red\"; label=\"0->1\"]; ", "graph [dpi=12];"]

    def opts(d):
        if not d:
            return ""
        q = {"unquoted": "%s=%s", "tight": "%s='%s'", "comma-unquoted": "%s = %s"}.get(lay, "%s=\"%s\"")
        sep = {"tight": " ", "loose": " ; ", "plain": " ", "unquoted": " ", "comma": ",", "comma-unquoted": " , "}.get(lay, "; ")
        body = sep.join(q % kv for kv in d.items())
        return {"loose": "  [ %s ] "}.get(lay, "[%s]" if lay == "tight" else " [%s]") % body
    pad = {"loose": "\t  ", "tight": ""}.get(lay, "  ")
    sp = {"loose": "  ", "tight": ""}.get(lay, " ")
    end = {"loose": " ;  ", "tight": ";"}.get(lay, ";")
    for i in range(n):
        lines.append(pad + str(off + i) + opts(va(i)) + end)
    for i, (u, v) in enumerate(edges):
        lines.append(pad + str(off + u) + sp + arc + sp + str(off + v) + opts(ea(i)) + end)
    return "\n".join(lines + ["}"]), va, ea, list(edges)


def forms(text):
    yield text
    yield text.splitlines()
    yield (line for line in text.splitlines(keepends=True))


def verify(g, directed, n, edges, what):
    vs = sorted(g.vertices())
    require(len(vs) == n == g.num_vertices(), "%s: %d vertices read instead of %d", what, len(vs), n)
    norm = (lambda u, v: (u, v)) if directed else (lambda u, v: (min(u, v), max(u, v)))
    got = sorted(norm(vs.index(g.source(e)), vs.index(g.target(e))) for e in g.edges())
    require(got == sorted(norm(u, v) for (u, v) in edges), "%s: edges read %s, expected %s", what, got, edges)
    return vs


def check(case, st):
    globals()["check_" + case[0]](case, st)


def check_graph(case, st):
    _, kind, n, edges, off, attrs, lay = case
    directed = kind != "U"
    text, va, ea, es = text_of(kind, n, edges, off, attrs, lay)
    what = "%s %s" % (lay, case[1:6])
    new = lambda: {"D": DirectedGraph, "U": UndirectedGraph}.get(kind, DirectedGraph)(0) if kind != "I" else build_graph("I", 0, [])[0]
    for iterable in forms(text):
        g = new()
        read_graphviz(iterable, g)
        verify(g, directed, n, es, what)
    for known in (("color",), ("color", "fontsize", "style", "unused", "label", "URL"), (), None):
        for iterable in forms(text):
            g = new()
            dpv = None if known is None else {k: make_assoc_property_map(defaultdict(lambda: None)) for k in known}
            dpe = None if known is None else {k: make_assoc_property_map(defaultdict(lambda: None)) for k in known}
            read_graphviz_dp(iterable, g, dpv, dpe)
            vs = verify(g, directed, n, es, what)
            for k in known or ():
                got = [dpv[k][u] for u in vs]
                require(got == [va(i).get(k) for i in range(n)], "%s: attribute %s of the vertices read as %s", what, k, got)
                norm = (lambda u, v: (u, v)) if directed else (lambda u, v: (min(u, v), max(u, v)))
                got = sorted((norm(vs.index(g.source(e)), vs.index(g.target(e))), str(dpe[k][e])) for e in g.edges())
                want = sorted((norm(u, v), str(ea(i).get(k))) for i, (u, v) in enumerate(es))
                require(got == want, "%s: attribute %s of the edges read as %s instead of %s", what, k, got, want)
                # nothing but vertices and edges of this graph
                require(set(dpv[k].d) <= set(vs) and len(dpe[k].d) <= len(es), "%s: attributes of something else", what)
            if known is not None:
                require(set(dpv) == set(dpe) == set(known), "%s: property maps added by the reader", what)
    if edges:
        st.interesting()


def check_value(case, st):
    """Labels and other attributes are read as they were given to to_dot."""
    val = case[1]
    g = DirectedGraph(2)
    (e, _) = g.add_edge(0, 1)
    dp = {"label": make_func_property_map(lambda x: val), "tooltip": make_func_property_map(lambda x: val), "URL": make_func_property_map(lambda x: "end")}
    text = g.to_dot(dpv=dp, dpe=dp)
    g2 = DirectedGraph(0)
    dpv = {k: make_assoc_property_map(defaultdict(str)) for k in dp}
    dpe = {k: make_assoc_property_map(defaultdict(str)) for k in dp}
    read_graphviz_dp(text, g2, dpv, dpe)
    verify(g2, True, 2, [(0, 1)], repr(val))
    for u in (0, 1):
        got = [dpv[k][u] for k in dp]
        require(got == [val, val, "end"], "the label, the tooltip %r and the URL are read as %r", val, got)
    e2 = next(iter(g2.edges()))
    got = [dpe[k][e2] for k in dp]
    require(got == [val, val, "end"], "the label, the tooltip %r and the URL of the edge are read as %r", val, got)
    st.interesting()


def check_hooks(case, st):
    """The visitor sees each attribute once, with the vertex or edge it belongs to; other lines go to on_else."""
    _, edges, mask = case
    seen, other = [], []

    class Vis(ReadGraphvizVisitor):
        def on_install_vertex_property(self, u, g, key, value):
            seen.append(("v", u, key, value))

        def on_install_edge_property(self, e, g, key, value):
            seen.append(("e", g.source(e), g.target(e), key, value))

        def on_else(self, line):
            other.append(line)
    lines = ["digraph G {"]
    want = []
    for i in (0, 1):
        if mask & 1:
            lines.append("%d [a='x%d' b='y'];" % (5 + i, i))
            want += [("v", i, "a", "x%d" % i), ("v", i, "b", "y")]
        else:
            lines.append("%d;" % (5 + i))
    for i, (u, v) in enumerate(edges):
        if mask & 2:
            lines.append("%d -> %d [a='w%d'];" % (5 + u, 5 + v, i))
            want.append(("e", u, v, "a", "w%d" % i))
        else:
            lines.append("%d -> %d;" % (5 + u, 5 + v))
    lines.append("}")
    g = DirectedGraph(0)
    read_graphviz(lines, g, Vis())
    verify(g, True, 2, edges, repr(case))
    require(seen == want, "attributes notified %s, expected %s", seen, want)
    require(other == ["digraph G {", "}"], "other lines %s", other)
    if edges:
        st.interesting()
