from itertools import product
from pybgl.automaton import Automaton
from pybgl.bk_tree import make_bk_tree
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_view import GraphView
from pybgl.graphviz import edge_to_graphviz, graphviz_escape_html, graphviz_type, vertex_to_graphviz
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.nfa import Nfa
from pybgl.node_automaton import NodeAutomaton
from pybgl.property_map import make_func_property_map
from pybgl.shunting_yard_postfix import Ast
from pybgl.trie import Trie
from mc.core import require
from mc.dot import Dot, check_escaped
from mc.gen import big_graphs, build_graph, edge_seqs, edge_sets
ID, LEVEL = "C33", "exploration"
RULE = ("to_dot on every small graph, view, automaton, NFA, trie, tree of the bounded space with every combination of options (subsets of vertices and edges, "
        "per-vertex and per-edge attributes, default styles, names of vertices); the text is parsed by an independent DOT parser and compared with the object. "
        "Labels: every string over an alphabet of special characters and tags, up to a length. A case is non-trivial when the object has an edge and "
        "an attribute, or when the label contains a special character.")
ASSUMPTIONS = ["attribute values other than labels that hold a backslash only have to leave the rest of the text unaffected (Graphviz gives them a meaning)", "tags are written without space before their name",
               "the order of statements and of attributes, and white space, are left free"]
BOUND = {"quick": "all multigraphs of 2 vertices and <= 3 edges, simple graphs of 3 vertices; automata of <= 2 states over 2 symbols; labels and other attributes of <= 3 pieces out of 21; larger graphs (40 vertices, 40 parallel edges), automata (34 states) and labels (66 pieces); 20 attributes, 120 vertices",
         "thorough": "graphs of 3 vertices and <= 3 edges (multigraphs), 4 vertices (simple, undirected); labels of <= 4 pieces"}

PIECES = ["a", "<", ">", "&", "<b>", "</b>", "<font color='red'>", "<br/>", "<foo>", "\n", "\t", "\r", "\x01", "[", "]", "{", "}", ";", "\"", "\\", "é -> "]


def shards(tier):
    deep = tier != "quick"
    out = [("graph", k, n, i, deep) for k in "DIUVW" for n in (0, 1, 2) for i in range(1)]
    out += [("graph", k, 3, i, deep) for k in "DIUVW" for i in range(4)]
    out += [("auto", c, i) for c in ("A", "I", "T", "N", "M", "nfa") for i in range(4)]
    out += [("big",), ("shared",), ("tree",)]
    out += [(k, i, 3 if not deep else 4) for k in ("label", "value") for i in range(len(PIECES))]
    return out


def cases(shard):
    what = shard[0]
    if what == "graph":
        _, kind, n, i, deep = shard
        directed = kind not in "UW"
        if n < 3:
            graphs = edge_seqs(n, 3, directed=directed)
        elif deep:
            graphs = list(edge_seqs(3, 3 if directed else 4, directed=directed)) + list(edge_sets(3, directed=directed))
        else:
            graphs = list(edge_sets(3, 4, directed=directed)) + [tuple(reversed(es)) * 2 for es in edge_sets(3, 2, directed=directed)]
        for j, es in enumerate(graphs):
            if n < 3 or j % 4 == i:
                for k in list(range(8)) + [8, 9, 11, 18, 34]:
                    yield ("graph", kind, n, tuple(es), (0, 1, 300)[j % 3], k)
        if deep and kind == "U" and n == 3:
            for j, es in enumerate(edge_sets(4, directed=False, loops=False)):
                if j % 4 == i:
                    yield ("graph", kind, 4, tuple(es), 1, j % 8)
    elif what == "big":
        for kind in "DIUVW":
            for j, (n, es) in enumerate(big_graphs(kind not in "UW")):
                for k in (0, 1, 2, 3, 6, 18, 34):
                    yield ("graph", kind, n, es, (0, 1, 300)[j % 3], k)
        for cls in ("A", "I", "T", "N", "M", "nfa"):
            for n in (9, 34):
                for f in (1, 1 << n - 1, int("96" * 6, 16) & (1 << n) - 1):
                    yield ("auto", cls, n, n // 2, tuple((q * q + 3 * i + 1) % n if (q + i) % 4 else None for q in range(n) for i in range(2)), f)
        for i, x in enumerate(PIECES):
            for k in (9, 33):
                yield ("label", x * k)
                yield ("label", (x + PIECES[i - 3]) * k)
    elif what == "auto":
        _, cls, i = shard
        for n in (1, 2):
            for j, delta in enumerate(product([None] + list(range(n)), repeat=2 * n)):
                if j % 4 == i:
                    for q0 in range(n):
                        for fin in range(1 << n):
                            yield ("auto", cls, n, q0, delta, fin)
    elif what == "shared":
        for c1, c2 in product(("A", "I", "T", "N", "nfa", "bk", "ast"), repeat=2):
            for given in ("color", "label", "shape", "empty", "none"):
                yield ("shared", c1, c2, given)
    elif what == "tree":
        for ws in product(("a", "ab", "<b>", "b&c"), repeat=2):
            yield ("bk", ws)
        for syms in product(("+", "a", "<", "12"), repeat=3):
            for shape in range(3):
                yield ("ast", syms, shape)
    else:
        what, i, n = shard
        if i == 0:
            yield (what, "")
        for k in range(n):
            for rest in product(PIECES, repeat=k):
                yield (what, PIECES[i] + "".join(rest))


def check(case, st):
    globals()["check_" + case[0]](case, st)


def expect(dot, directed, nodes, edges, what):
    require(dot.kind == ("digraph" if directed else "graph"), "%s: exported as a %s", what, dot.kind)
    arc = "->" if directed else "--"
    require(all(op == arc for (_, op, _, _) in dot.edges), "%s: wrong arcs %s", what, dot.edges)
    norm = (lambda u, v: (u, v)) if directed else (lambda u, v: (min(u, v), max(u, v)))
    order = lambda x: repr([str(y) if not isinstance(y, dict) else sorted(y.items()) for y in x])
    got = sorted(dot.nodes, key=order)
    want = sorted(nodes, key=order)
    require(got == want, "%s: exported vertices %s, expected %s", what, got, want)
    got = sorted((norm(u, v) + (a,) for (u, _, v, a) in dot.edges), key=order)
    want = sorted((norm(u, v) + (a,) for (u, v, a) in edges), key=order)
    require(got == want, "%s: exported edges %s, expected %s", what, got, want)


def check_graph(case, st):
    _, kind, n, edges, off, opt = case
    base = {"V": "I", "W": "U"}.get(kind, kind)
    if kind in "VW":
        # hidden: one vertex, its edges, and the first edge
        g0, es = build_graph(base, n + 1, list(edges) + [(0, n), (n, 0)], off)
        vs = sorted(g0.vertices())
        hid = vs[n]
        key = lambda e: (min(e.source, e.target), max(e.source, e.target), e.distinguisher) if base == "U" else (e.source, e.target, e.distinguisher)
        drop = key(es[0]) if edges else None
        g = GraphView(g0, make_func_property_map(lambda u: u != hid), make_func_property_map(lambda e: key(e) != drop))
        vs = vs[:n]
        hidden_edges = es[len(edges):] + [e for e in es[:len(edges)] if key(e) == drop]
        es = [e for e in es[:len(edges)] if key(e) != drop]
    else:
        g, es = build_graph(base, n, edges, off)
        vs = sorted(g.vertices())
    directed = base != "U"
    kw, nattr, eattr = {}, (lambda u: {}), (lambda e: {})
    name = str
    keyv = {u: i for i, u in enumerate(vs)}
    keye = {}
    for i, e in enumerate(es):
        keye[(e.source, e.target, e.distinguisher)] = keye[(e.target, e.source, e.distinguisher)] = i if not directed else keye.get((e.target, e.source, e.distinguisher), i)
        keye[(e.source, e.target, e.distinguisher)] = i
    num = lambda e: keye[(e.source, e.target, e.distinguisher)]
    if opt & 1:
        kw["dpv"] = {"color": make_func_property_map(lambda u: "c%d" % keyv[u] if keyv[u] else None),
                     "label": make_func_property_map(lambda u: keyv[u])}
        nattr = lambda u: dict({"label": ("html", str(keyv[u]))}, **({"color": "c%d" % keyv[u]} if keyv[u] else {}))
        kw["dpe"] = {"label": make_func_property_map(lambda e: "e%d" % num(e)), "weight": make_func_property_map(num)}
        eattr = lambda e: {"label": ("html", "e%d" % num(e)), "weight": str(num(e))}
        if n > 30:      # more attributes
            for x in "bcdefghijkl":
                kw["dpv"]["v" + x] = kw["dpe"]["e" + x] = make_func_property_map(lambda z, x=x: x * 2)
            n0, e0 = nattr, eattr
            nattr = lambda u: dict(n0(u), **{"v" + x: x * 2 for x in "bcdefghijkl"})
            eattr = lambda e: dict(e0(e), **{"e" + x: x * 2 for x in "bcdefghijkl"})
    subset_v, subset_e = list(vs), list(es)
    if opt & 2:
        subset_v, subset_e = vs[::2] if not opt & 32 else list(vs), es[1:] if not opt & 16 else list(es)
        if opt & 16:
            kw["vs"] = set(subset_v)
        elif opt & 32:
            kw["es"] = set(subset_e)
        else:
            kw["vs"], kw["es"] = (iter(subset_v), iter(subset_e)) if n % 2 else (list(subset_v), tuple(subset_e))
        if kind in "VW":
            # what the view hides stays hidden, even when it is requested
            for k, more in (("vs", [hid]), ("es", [e for e in hidden_edges])):
                if k in kw:
                    kw[k] = type(kw[k])(list(kw[k]) + more) if isinstance(kw[k], (set, list, tuple)) else iter(list(kw[k]) + more)
    if opt & 4:
        name = lambda u: "n%d" % (2 * u)
        kw["vertex_to_str"] = name
        kw["dg"], kw["dv"], kw["de"] = {"rankdir": "TB"}, {"shape": "box", "color": "red blue"}, {"style": "dotted"}
        kw["extra_style"] = "splines=\"ortho\""
    if opt & 8:
        kw["graphviz_style"] = 'node [shape="star"]' if n % 2 else ""
    text = g.to_dot(**kw)
    dot = Dot(text)
    if opt & 8:
        require(dot.defaults == {"graph": {}, "node": {"shape": "star"} if n % 2 else {}, "edge": {}}, "graphviz_style replaces the default style, not %s", dot.defaults)
    if kind not in "VW" and not opt & 6:     # the functions that export one vertex or one edge
        body = ["%s" % vertex_to_graphviz(u, g, kw.get("dpv")) for u in subset_v] + [edge_to_graphviz(e, g, kw.get("dpe")) for e in subset_e]
        one = Dot("%s G {%s}" % (graphviz_type(g), " ".join(x + ";" for x in body)))
        order = lambda x: repr([str(y) if not isinstance(y, dict) else sorted(y.items()) for y in x])
        require(sorted(one.nodes, key=order) == sorted(dot.nodes, key=order) and sorted(one.edges, key=order) == sorted(dot.edges, key=order),
                "exported one by one: %s, together: %s", one.nodes + one.edges, dot.nodes + dot.edges)
    expect(dot, directed, [(name(u), nattr(u)) for u in subset_v], [(name(e.source), name(e.target), eattr(e)) for e in subset_e], repr(case))
    if opt & 4:
        for (k, d) in (("graph", "dg"), ("node", "dv"), ("edge", "de")):
            for (a, v) in kw[d].items():
                require(dot.defaults[k].get(a) == v, "default %s of %s is %r instead of %r", a, k, dot.defaults[k].get(a), v)
        require(dot.settings.get("splines") == "ortho", "extra style lost: %s", dot.settings)
    if opt == 0:
        require(g.to_dot() == text, "two exports of the same graph differ")
    if edges and opt & 1:
        st.interesting()


SYMBOLS = ("a", "<")


def make_auto(cls, n, q0, delta, fin):
    """Returns the object, its vertices, and its transitions (source, target, label) with labels per vertex if any."""
    label = lambda a: ("html", {"<": "&#60;"}.get(a, a))
    trans, vlabel = [], None
    if cls in ("N", "M"):
        g = (NodeAutomaton if cls == "N" else IncidenceNodeAutomaton)()
        sym = [SYMBOLS[q % 2] for q in range(n)]
        vs = [g.add_vertex(a) for a in sym]
        for q in range(n):
            for i in range(2):
                r = delta[2 * q + i]
                if r is not None and g.add_edge(vs[q], vs[r])[1]:
                    trans.append((q, r, sym[r]))
        vlabel = [("html", "^") if q == q0 else label(sym[q]) for q in range(n)]
    elif cls == "nfa":
        g = Nfa(n)
        vs = sorted(g.vertices())
        for q in range(n):
            for i in range(2):
                r = delta[2 * q + i]
                if r is not None:
                    a = (SYMBOLS[1], g.epsilon)[i]
                    g.add_edge(vs[q], vs[r], a)
                    trans.append((q, r, a))
        label = lambda a: ("html", "<i>ε</i>") if a == g.epsilon else ("html", "&#60;")
    else:
        g = {"A": Automaton, "I": IncidenceAutomaton, "T": lambda n: Trie(num_vertices=n)}[cls](n)
        vs = sorted(g.vertices())
        for q in range(n):
            for i in range(2):
                r = delta[2 * q + i]
                if r is not None:
                    g.add_edge(vs[q], vs[r], SYMBOLS[i])
                    trans.append((q, r, SYMBOLS[i]))
    if cls == "nfa":
        g.set_initials({vs[q0]})
    else:
        g.set_initial(vs[q0])
    for q in range(n):
        if fin >> q & 1:
            g.set_final(vs[q])
    shape = lambda q: "doublecircle" if fin >> q & 1 else "circle"
    nodes = [(str(vs[q]), dict({"shape": shape(q)}, **({"label": vlabel[q]} if vlabel else {}))) for q in range(n)]
    edges = [(str(vs[q]), str(vs[r]), {"label": label(a)}) for (q, r, a) in trans]
    return g, nodes, edges


def check_auto(case, st):
    _, cls, n, q0, delta, fin = case
    g, nodes, edges = make_auto(cls, n, q0, delta, fin)
    expect(Dot(g.to_dot()), True, nodes, edges, repr(case))
    # the attributes given by the caller win
    dot = Dot(g.to_dot(dpv={"shape": make_func_property_map(lambda u: "box")}, dpe={"color": make_func_property_map(lambda e: "red")}))
    expect(dot, True, [(u, dict(d, shape="box")) for (u, d) in nodes], [(u, v, dict(d, color="red")) for (u, v, d) in edges], repr(case))
    if edges:
        st.interesting()


def sample(cls, k):
    """A small object of each class that decorates its export; k makes two objects different."""
    if cls == "bk":
        t = make_bk_tree(["ab", "abc"] if k else ["x", "xyz"])
        return t, {str(u): {"label": ("html", t.element(u))} for u in t.vertices()}
    if cls == "ast":
        t = Ast()
        u, v = t.add_vertex("+" if k else "-"), t.add_vertex("1")
        t.add_edge(u, v)
        return t, {str(x): {"label": ("html", "%s %s" % (x, t.symbol(x)))} for x in t.vertices()}
    g, nodes, _ = make_auto(cls, 2, 0, (1, None, None, 0), 1 + k)
    return g, dict(nodes)


def check_shared(case, st):
    """The dictionaries given by the caller are left as they are and may be used again with another object."""
    _, c1, c2, given = case
    pv = {"color": make_func_property_map(lambda u: "blue"), "label": make_func_property_map(lambda u: "L%s" % u),
          "shape": make_func_property_map(lambda u: "box")}
    dpv = {given: pv[given]} if given in pv else {} if given == "empty" else None
    before = None if dpv is None else dict(dpv)
    dpe = None if dpv is None else {}
    for (c, k) in ((c1, 0), (c2, 1)):
        g, want = sample(c, k)
        dot = Dot(g.to_dot(dpv=dpv, dpe=dpe))
        require(dpv == before and (dpe is None or dpe == {}), "to_dot modified the dictionaries of its caller: %s", dpv)
        for (u, d) in dot.nodes:
            w = dict(want[u])
            if given == "color":
                w["color"] = "blue"
            elif given == "label":
                w["label"] = ("html", "L%s" % u)
            elif given == "shape":
                w["shape"] = "box"
            require(all(d.get(a) == w[a] for a in w), "second use of the same dictionary: vertex %s has %s, expected %s", u, d, w)
    st.interesting()


def check_bk(case, st):
    t = make_bk_tree(case[1])
    dot = Dot(t.to_dot())
    require({u for (u, _) in dot.nodes} == {str(u) for u in t.vertices()}, "vertices %s", dot.nodes)
    for u in t.vertices():
        got = dict(dot.nodes)[str(u)]["label"]
        require(got[0] == "html", "the label is not an HTML string")
        check_escaped(t.element(u), got[1])
    require(sorted((u, v, a["label"][1]) for (u, _, v, a) in dot.edges) ==
            sorted((str(e.source), str(e.target), str(t.label(e))) for e in t.edges()), "edges %s", dot.edges)
    st.interesting()


def check_ast(case, st):
    _, syms, shape = case
    t = Ast()
    u, v, w = (t.add_vertex(a) for a in syms)
    es = [[(u, v), (u, w)], [(u, v), (v, w)], [(w, v)]][shape]
    for (x, y) in es:
        t.add_edge(x, y)
    dot = Dot(t.to_dot())
    require(sorted((a, b) for (a, _, b, _) in dot.edges) == sorted((str(a), str(b)) for (a, b) in es), "edges %s", dot.edges)
    for x in t.vertices():
        check_escaped("%s %s" % (x, t.symbol(x)), dict(dot.nodes)[str(x)]["label"][1])
    st.interesting()


def check_value(case, st):
    """The value of an attribute is the one given, and leaves the rest of the text unaffected."""
    val = case[1]
    g = DirectedGraph(2)
    g.add_edge(0, 1)
    dp = {"tooltip": make_func_property_map(lambda x: val), "xlabel": make_func_property_map(lambda x: "end")}
    dx = {"tooltip": val, "xlabel": "end"}
    dot = Dot(g.to_dot(dpv=dp, dpe=dp, dg=dx, dv=dx, de=dx, graphviz_style=""))
    same = lambda d: set(d) == {"tooltip", "xlabel"} and d["xlabel"] == "end" and ("\\" in val or d["tooltip"] == val)
    require([u for (u, _) in dot.nodes] == ["0", "1"] and [(u, v) for (u, _, v, _) in dot.edges] == [("0", "1")] and not dot.settings,
            "the value %r breaks the export", val)
    for d in [d for (_, d) in dot.nodes] + [dot.edges[0][3]] + list(dot.defaults.values()):
        require(same(d), "the value %r is exported as %s", val, d)
    if val not in PIECES:
        st.interesting()


def check_label(case, st):
    label = case[1]
    got = graphviz_escape_html(label)
    check_escaped(label, got)
    if label.count("<b>") == label.count("</b>") and label.count("<font") == 0:
        g = DirectedGraph(2)
        g.add_edge(0, 1)
        dp = {"label": make_func_property_map(lambda x: label)}
        dot = Dot(g.to_dot(dpv=dp, dpe=dp))
        require([u for (u, _) in dot.nodes] == ["0", "1"] and len(dot.edges) == 1, "the label %r breaks the export", label)
        for d in [d for (_, d) in dot.nodes] + [dot.edges[0][3]]:
            require(d == {"label": ("html", got)}, "the label %r is exported as %s", label, d)
    if got != label:
        st.interesting()
