import json
from collections import defaultdict
from copy import deepcopy
from itertools import product
from pybgl.automaton import Automaton
from pybgl.graph import DirectedGraph
from pybgl.graph_dp import GraphDp
from pybgl.graphviz import GraphvizStyle
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from mc.core import require
from mc.dot import Dot
from mc.gen import big_graphs, build_graph, edge_seqs, edge_sets
ID, LEVEL = "C35", "exploration"
RULE = ("Every small graph with every combination of per-vertex, per-edge, graph, default styles given to GraphDp and again to to_dot, every subset of vertices and edges exported; every string up to a length as attribute or key; "
        "the DOT text and the JSON text are parsed by independent parsers. A case is non-trivial when a style is given at both places, or when an attribute has a special character.")
ASSUMPTIONS = ["DOT attribute values that hold a backslash only have to leave the rest of the text unaffected", "the JSON export writes the values as strings"]
BOUND = {"quick": "multigraphs of 2 vertices and <= 2 edges, simple graphs of 3 vertices and <= 2 edges, 3^5 combinations of styles on 4 graphs; strings of <= 3 characters out of 13; larger graphs (40 vertices, 40 parallel edges), strings of 40 characters; 11 attributes, 120 vertices",
         "thorough": "multigraphs of 2 vertices and <= 3 edges, 3 vertices and <= 3 edges; strings of <= 4 characters"}
CHARS = ["a", "\"", "\\", "\n", "\t", "\r", "/", "{", "}", "%", "é", "\x01", "s"]
STYLES = ("dpv", "dpe", "dg", "dv", "de")


def shards(tier):
    deep = tier != "quick"
    return [("json", k, n, deep) for k in "DIU" for n in (0, 1, 2, 3)] + [("big",)] + [("styles", i) for i in range(9)] + \
        [("string", i, 4 if deep else 3) for i in range(len(CHARS))] + [("global",)]


def cases(shard):
    if shard[0] == "json":
        _, kind, n, deep = shard
        graphs = list(edge_seqs(n, 3 if deep else 2, directed=kind != "U")) if n < 3 else list(edge_sets(n, 3 if deep else 2, directed=kind != "U"))
        for j, es in enumerate(graphs):
            for vmask in range(1 << n):
                for emask in range(1 << len(es)):
                    yield ("json", kind, n, es, (0, 2)[j % 2], vmask, emask, (j + vmask + emask) % 4)
    elif shard[0] == "big":
        for kind in "DIU":
            for j, (n, es) in enumerate(big_graphs(kind != "U")):
                for vmask in ((1 << n) - 1, int("a6" * 5, 16) & (1 << n) - 1):
                    for emask in ((1 << len(es)) - 1, int("c5" * 20, 16) & (1 << len(es)) - 1):
                        yield ("json", kind, n, es, (0, 2)[j % 2], vmask, emask, (j + vmask) % 4)
        for c in CHARS:
            for d in CHARS:
                yield ("string", (c + d) * 20)
    elif shard[0] == "styles":
        for k, where in enumerate(product(range(4), repeat=5)):
            if k % 9 == shard[1]:
                for i in range(4):
                    yield ("styles", where, i, (k + i) % 3)
    elif shard[0] == "string":
        _, i, n = shard
        for k in range(n):
            for rest in product(CHARS, repeat=k):
                yield ("string", CHARS[i] + "".join(rest))
    else:
        for fg, bg in product((None, "grey", "#112233", ""), repeat=2):
            for extra in ((), ("splines=ortho",), ("splines=ortho", "dpi=12")):
                for order in (0, 1, 2, 3):
                    yield ("global", fg, bg, extra, order, ())
        for extra in ((), ("splines=ortho",)):
            for empty in product((0, 1), repeat=3):
                yield ("global", None, None, extra, 0, tuple(k for k, b in zip(("graph", "node", "edge"), empty) if b))


def check(case, st):
    globals()["check_" + case[0]](case, st)


def check_json(case, st):
    _, kind, n, edges, off, vmask, emask, opt = case
    g, es = build_graph(kind, n, edges, off)
    vs = sorted(g.vertices())
    sub_v = [u for i, u in enumerate(vs) if vmask >> i & 1]
    sub_e = [e for i, e in enumerate(es) if emask >> i & 1]
    va = {"color": make_func_property_map(lambda u: "c%d" % u), "rank": make_func_property_map(lambda u: u)} if opt & 1 else None
    idx = {id(e): i for i, e in enumerate(es)}
    ea = {"label": make_func_property_map(lambda e: "%d to %d" % (g.source(e), g.target(e)))} if opt & 2 else {}
    more = ["x%d" % i for i in range(9 if n > 3 else vmask % 3)]
    if opt & 1:
        va.update((x, make_func_property_map(lambda u, x=x: "%s %d" % (x, u))) for x in more)
    if opt & 2:
        ea.update((x, make_func_property_map(lambda e, x=x: x)) for x in more)
    gdp = GraphDp(g, dpv=va, dpe=ea)
    # all, then the subset
    for kw, wv, we in (({}, vs, es), ({"vs": iter(sub_v), "es": iter(sub_e)}, sub_v, sub_e), ({"vs": sub_v}, sub_v, es), ({"es": sub_e}, vs, sub_e)):
        text = gdp.to_json(**kw)
        try:
            d = json.loads(text)
        except ValueError as x:
            require(False, "to_json wrote invalid JSON (%s): %s", x, text)
        require(set(d) == {"graph_type", "vertices", "edges"}, "keys %s", sorted(d))
        require(d["graph_type"] == ("graph" if kind == "U" else "digraph"), "type %s", d["graph_type"])
        order = lambda x: json.dumps(x, sort_keys=True)
        want = [dict({"id": u}, **(dict({"color": "c%d" % u, "rank": str(u)}, **{x: "%s %d" % (x, u) for x in more}) if opt & 1 else {})) for u in wv]
        require(sorted(d["vertices"], key=order) == sorted(want, key=order), "JSON vertices %s, expected %s", d["vertices"], want)
        norm = lambda x: dict(x, source=min(x["source"], x["target"]), target=max(x["source"], x["target"])) if kind == "U" else x
        want = [norm(dict({"source": g.source(e), "target": g.target(e)}, **(dict({"label": "%d to %d" % (g.source(e), g.target(e))}, **{x: x for x in more}) if opt & 2 else {}))) for e in we]
        got = [norm(x) for x in d["edges"]]
        if kind == "U":
            for x in got + want:
                x.pop("label", None) if opt & 2 else None
        require(sorted(got, key=order) == sorted(want, key=order), "JSON edges %s, expected %s", got, want)
    require(gdp.get_dpe() == ea and gdp.get_dpv() == (va or {}), "getters")
    if edges and opt:
        st.interesting()


GRAPHS = [(1, ()), (2, ((0, 1),)), (2, ((0, 1), (1, 1))), (3, ((0, 1), (2, 1)))]


def check_styles(case, st):
    """where[i]: style i not given, given to GraphDp, given to to_dot, or to both (to_dot wins, key by key)."""
    _, where, i, kind = case
    n, edges = GRAPHS[i]
    g, es = build_graph("DIU"[kind], n, edges)
    mine = {"dpv": {"color": make_func_property_map(lambda u: "m%d" % u), "shape": make_func_property_map(lambda u: "box")},
            "dpe": {"color": make_func_property_map(lambda e: "m%d" % g.target(e)), "style": make_func_property_map(lambda e: "dotted")},
            "dg": {"rankdir": "TB", "dpi": "5"}, "dv": {"color": "mv", "shape": "egg"}, "de": {"color": "me", "penwidth": "3"}}
    call = {"dpv": {"color": make_func_property_map(lambda u: "k%d" % u)}, "dpe": {"color": make_func_property_map(lambda e: "k%d" % g.target(e))},
            "dg": {"rankdir": "BT"}, "dv": {"color": "kv"}, "de": {"color": "ke"}}
    k1 = {s: mine[s] for s, w in zip(STYLES, where) if w & 1}
    k2 = {s: call[s] for s, w in zip(STYLES, where) if w & 2}
    save1, save2 = {s: dict(d) for s, d in k1.items()}, {s: dict(d) for s, d in k2.items()}
    gdp = GraphDp(g, **k1)
    for s in STYLES:
        got = getattr(gdp, "get_" + s)()
        if s in k1:
            require(got == k1[s], "get_%s() returns %s", s, got)
        elif s in ("dpv", "dpe"):
            require(got == {}, "get_%s() returns %s", s, got)
    for again in range(2):
        dot = Dot(gdp.to_dot(**k2))
        require(k1 == save1 and k2 == save2, "to_dot altered the styles given by the caller")
        eff = {s: dict(k1.get(s, {}), **k2.get(s, {})) for s in STYLES}
        for s, part in (("dg", "graph"), ("dv", "node"), ("de", "edge")):
            for k, v in eff[s].items():
                require(dot.defaults[part].get(k) == v, "%s %s is %s, expected %s", s, k, dot.defaults[part].get(k), v)
            for k, v in getattr(GraphvizStyle, part).items():
                require(k in eff[s] or dot.defaults[part].get(k) == v, "default %s of %s lost: %s", k, part, dot.defaults[part])
        require(sorted(u for u, _ in dot.nodes) == sorted(str(u) for u in g.vertices()), "vertices %s", dot.nodes)
        for u, d in dot.nodes:
            want = {k: str(pm[int(u)]) for k, pm in eff["dpv"].items()}
            require(d == want, "attributes of %s: %s, expected %s", u, d, want)
        require(len(dot.edges) == len(es), "edges %s", dot.edges)
        for u, _, v, d in dot.edges:
            e = [e for e in g.edges() if (str(g.source(e)), str(g.target(e))) == (u, v)][0]
            want = {k: str(pm[e]) for k, pm in eff["dpe"].items()}
            require(d == want, "attributes of %s-%s: %s, expected %s", u, v, d, want)
    if any(w == 3 for w in where):
        st.interesting()


def check_string(case, st):
    """Any string survives in the values and in the keys of the JSON export, and DOT attributes are those of the JSON export."""
    s = case[1]
    g = DirectedGraph(2)
    (e, _) = g.add_edge(0, 1)
    pv, pe = make_assoc_property_map(defaultdict(str)), make_assoc_property_map(defaultdict(str))
    pv[0], pv[1], pe[e] = s, "plain", s + "x"
    d = json.loads(GraphDp(g, dpv={"tip": pv, s: pe}, dpe={s: pe}).to_json())
    want = [{"id": 0, "tip": s, s: ""}, {"id": 1, "tip": "plain", s: ""}]
    require(sorted(d["vertices"], key=lambda x: x["id"]) == want, "%r becomes %s", s, d["vertices"])
    require(d["edges"] == [{"source": 0, "target": 1, s: s + "x"}], "%r becomes %s", s, d["edges"])
    parts = ("graph", "node", "edge")
    save = {k: dict(getattr(GraphvizStyle, k)) for k in parts}
    try:
        for k in parts:
            getattr(GraphvizStyle, k)["comment"] = s
        text = GraphDp(g, dpv={"tip": pv}, dpe={"tip": pe}, dg={"label": s}, dv={"label": s}, de={"label": s}).to_dot()
    finally:
        for k in parts:
            setattr(GraphvizStyle, k, save[k])
    dot = Dot(text)
    same = lambda got, want: got is not None and ("\\" in s or got == want)
    require([u for u, _ in dot.nodes] == ["0", "1"] and len(dot.edges) == 1 and not dot.settings, "the value %r breaks the DOT export", s)
    require(same(dot.nodes[0][1].get("tip"), s) and same(dot.nodes[1][1].get("tip"), "plain") and same(dot.edges[0][3].get("tip"), s + "x"), "%r becomes %s %s in DOT", s, dot.nodes, dot.edges)
    for k in parts:
        require(same(dot.defaults[k].get("label"), s) and same(dot.defaults[k].get("comment"), s), "the style %r of %s becomes %s in DOT", s, k, dot.defaults[k])
    st.interesting()


def check_global(case, st):
    """The default style is that of GraphvizStyle when the text is written (or the GraphDp made), and stays as it is."""
    _, fg, bg, extra, order, empty = case
    parts = ("graph", "node", "edge")
    save = {k: deepcopy(getattr(GraphvizStyle, k)) for k in parts + ("extra_style",)}
    try:
        g = DirectedGraph(2)
        g.add_edge(0, 1)
        old = GraphDp(g)
        require({k: getattr(old, "get_" + a)() for k, a in zip(parts, ("dg", "dv", "de"))} == {k: save[k] for k in parts}, "defaults of GraphDp")
        calls = [lambda: fg is not None and GraphvizStyle.set_fg_color(fg), lambda: bg is not None and GraphvizStyle.set_bg_color(bg)]
        if order & 2:       # attributes of the user: kept
            for k in parts:
                save_k = getattr(GraphvizStyle, k)
                save_k["tooltip"], save_k["fontsize"] = "mine", "9"
        for f in calls[::-1] if order & 1 else calls:
            f()
        GraphvizStyle.extra_style = list(extra)
        want = deepcopy({k: save[k] for k in parts})
        if order & 2:
            for k in parts:
                want[k].update(tooltip="mine", fontsize="9")
        if fg is not None:
            want["graph"]["fontcolor"] = fg
            for k in ("node", "edge"):
                want[k]["color"] = want[k]["fontcolor"] = fg
        if bg is not None:
            want["graph"]["bgcolor"] = bg
        for k in empty:      # no default style at all
            want[k] = {}
            setattr(GraphvizStyle, k, {})
        for x in (g, GraphDp(g), Automaton(1), DirectedGraph(0)):
            dot = Dot(x.to_dot())
            require(dot.defaults == want, "default styles %s, expected %s", dot.defaults, want)
            got = {k: v for k, v in dot.settings.items()}
            require(got == dict(x.split("=") for x in extra), "extra style %s, expected %s", got, extra)
        require(str(GraphvizStyle()) == str(GraphvizStyle()) and GraphvizStyle() is GraphvizStyle(), "GraphvizStyle is not a singleton")
        # a GraphDp has its own copy: altering it does not alter the style of other graphs
        new = GraphDp(g)
        new.get_dg()["rankdir"] = "XX"
        new.get_dv()["shape"] = "XX"
        new.get_de()["color"] = "XX"
        new.extra_style.append("x=y")
        require({k: getattr(GraphvizStyle, k) for k in parts} == want and GraphvizStyle.extra_style == list(extra), "a GraphDp altered the global style")
        dot = Dot(new.to_dot())
        require((dot.defaults["graph"]["rankdir"], dot.defaults["node"]["shape"], dot.defaults["edge"]["color"], dot.settings.get("x")) == ("XX", "XX", "XX", "y"),
                "styles of this GraphDp lost: %s %s", dot.defaults, dot.settings)
        # its own extra style, given to the constructor or to to_dot (which wins)
        own = GraphDp(g, extra_style=["dpi=7"] + list(extra[:1]))
        for kw, dpi in (({}, "7"), ({"extra_style": "dpi=9"}, "9")):
            more = dict([x.split("=") for x in extra] + [("dpi", dpi)])     # the global extra style is kept
            require(Dot(own.to_dot(**kw)).settings == more, "extra style %s, expected %s", Dot(own.to_dot(**kw)).settings, more)
        # a GraphDp made before keeps the styles it was made with
        dot = Dot(old.to_dot())
        got = {k: {a: v for a, v in dot.defaults[k].items() if a in save[k]} for k in parts}
        require(got == {k: save[k] for k in parts}, "a GraphDp made before has %s", dot.defaults)
    finally:
        for k, v in save.items():
            setattr(GraphvizStyle, k, v)
    if fg or bg or extra:
        st.interesting()
