import contextlib
import io
import os
import shutil
import stat
import sys
import types
import xml.etree.ElementTree as ET
from itertools import product
from pybgl.automaton import Automaton
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_dp import GraphDp
from pybgl.graphviz import dot_to_svg, dotstr_to_html, graph_to_html, run_graphviz, write_graphviz
from pybgl.html import beside, html
from pybgl.ipynb import background_template_html, display_body, display_svg, in_ipynb, ipynb_display_graph
from pybgl.property_map import make_func_property_map
from mc.core import require
from mc.dot import Dot
from mc.gen import build_graph, edge_sets
ID, LEVEL = "C38", "fault_enumeration"
RULE = ("Every function that renders a graph x engine x format x output of Graphviz x outcome (success, success with a warning, missing program, every exit status x part of the output written x message x input read or not), Graphviz being replaced by a recording program in a scratch folder; "
        "notebook functions x backgrounds x contents; and, with the real Graphviz, every label of the space and every small graph, compared with the SVG (parsed as XML). "
        "A case is non-trivial when Graphviz fails, or when a label, a background or an output has a special character.")
ASSUMPTIONS = ["labels contain no two consecutive backslashes (Graphviz draws one of them)", "the program named dot on the PATH is Graphviz (real part: skipped when there is none)", "IPython is replaced by a recorder", "labels contain no control character (their escaped form is left free)"]
BOUND = {"quick": "8 functions, 4 engines, 4 formats, 8 outputs, 51 outcomes; labels of <= 2 pieces out of 20; graphs of 2-3 vertices and <= 2 edges",
         "thorough": "labels of <= 3 pieces; graphs of <= 4 edges"}
PIECES = ["a", "<", ">", "&", "<b>b</b>", "<i>i</i>", "<foo>", "[", "]", "{", "}", ";", "\"", "\\", "é", "->", "%", "&lt;", "&#60;", "'"]
SVG = "<?xml version='1.0'?>\n<!-- é -->\n<svg width='1'>\n100% é</svg>\n"
OUTPUTS = {"svg": SVG.encode(), "text": b"graph 1 2\n%s\n", "crlf": b"a\r\nb\r", "png": b"\x89PNG\r\n\x1a\n\xff\x00", "nested": b"<?xml version='1.0'?>\n<svg>\n<svg>a</svg><g/>\n<svg/></svg>\n", "empty": b"", "nl": b"\n", "big": b"<svg>" + b"x" * 300000 + b"</svg>"}
# exit status (15: killed) x what is written before x message x standard input read or not
FAILURES = tuple(product((1, 2, 255, "kill"), ("none", "part", "all"), (0, 1), ("read", "unread")))
OUTCOMES = ("ok", "warn", "missing") + FAILURES
FUNCS = ("run", "svg", "html", "graph", "file", "text", "bytes", "stringio")
STUB = """#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a"; done > "$STUB_DIR/args"
if [ "$STUB_READ" != unread ]; then cat > "$STUB_DIR/stdin"; fi
case "$STUB_OUT" in all) cat "$STUB_DIR/out";; part) head -c 9 "$STUB_DIR/out";; esac
if [ "$STUB_MSG" = 1 ]; then echo "Error: syntax error" >&2; fi
if [ "$STUB_RC" = kill ]; then kill -15 $$; fi
exit "$STUB_RC"
"""


def shards(tier):
    deep = tier != "quick"
    return [("stub", f) for f in FUNCS] + [("nb",)] + [("labels", i, deep) for i in range(len(PIECES))] + [("real", k, deep) for k in "DU"]


def cases(shard):
    if shard[0] == "stub":
        for outcome in OUTCOMES:
            good = outcome in ("ok", "warn")
            for engine in (None, "dot", "neato", "fdp") if good else (None, "neato"):
                for fmt in ("svg", "png", "plain", None) if good else (None, "png"):
                    for out in OUTPUTS if good else ("svg", "big") if outcome[1] == "all" and outcome[0] == 1 else ("svg",):
                        # text destinations only get text
                        if good and out == "png" and (fmt in ("svg", None) or shard[1] not in ("run", "file", "bytes")):
                            continue
                        if shard[1] in ("html", "graph") and fmt is not None:
                            continue
                        yield ("stub", shard[1], outcome, engine, fmt, out)
    elif shard[0] == "nb":
        colors = (None, "", "white", "#112233", "hsl(173, 71%, 56%)", "%s", "100%%")
        texts = ("", "a", "<svg>100%</svg>", "%s %d %%", "é<b>", "{0}")
        for c, t in product(colors, texts):
            yield ("background", c, t)
            yield ("display_svg", c, t)
            yield ("display_body", c, t)
        for c in colors:
            for engine in (None, "fdp"):
                for k in range(4):
                    yield ("display_graph", c, engine, k)
        for t in product(texts, repeat=3):
            yield ("beside", t)
    elif shard[0] == "labels":
        _, i, deep = shard
        ok = lambda labels: tuple(x for x in labels if "\\\\" not in x)
        if deep:
            for j in range(len(PIECES)):
                if ok([PIECES[i] + PIECES[j]]):
                    yield ("labels", ok(PIECES[i] + PIECES[j] + p for p in PIECES))
        yield ("labels", ok([PIECES[i]] + [PIECES[i] + p for p in PIECES]))
    else:
        _, kind, deep = shard
        for n in (1, 2, 3):
            for es in edge_sets(n, 4 if deep and n < 3 else 2 if n < 3 or deep else 1, directed=kind != "U"):
                yield ("real", kind, n, es)


@contextlib.contextmanager
def stub(outcome, out):
    d = os.path.join(os.environ["MC_SCRATCH"], "dot.%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "bin"))
    saved = os.environ["PATH"]
    try:
        if outcome != "missing":
            p = os.path.join(d, "bin", "dot")
            with open(p, "w") as f:
                f.write(STUB)
            os.chmod(p, stat.S_IRWXU)
            with open(os.path.join(d, "out"), "wb") as f:
                f.write(OUTPUTS[out])
        rc, written, msg, read = {"ok": (0, "all", 0, "read"), "warn": (0, "all", 1, "read")}.get(outcome, outcome) if outcome != "missing" else (0, "", "", "")
        os.environ.update(PATH=os.path.join(d, "bin") + (":" + saved if outcome != "missing" else ""), STUB_DIR=d, STUB_RC=str(rc), STUB_OUT=written, STUB_MSG=str(msg), STUB_READ=read)
        yield d
    finally:
        os.environ["PATH"] = saved
        shutil.rmtree(d, ignore_errors=True)


def check(case, st):
    kind = case[0]
    if kind in ("stub", "labels", "real"):
        globals()["check_" + kind](case, st)
    else:
        check_notebook(case, st)


def check_stub(case, st):
    _, func, outcome, engine, fmt, out = case
    g = DirectedGraph(2)
    g.add_edge(0, 1)
    # the whole text is passed on, even a large one
    text = g.to_dot() + ("\n// é " + "y" * 200000 if out == "big" else "\n// é ")
    kw = {}
    if engine is not None:
        kw["engine"] = engine
    if fmt is not None:
        kw["format"] = fmt
    want_engine, want_fmt = engine or "dot", fmt or "svg"
    raw = OUTPUTS[out]
    plain = raw.decode(errors="replace") if want_fmt == "svg" or func in ("svg", "stringio", "text") else raw
    with stub(outcome, out) as d:
        path = os.path.join(d, "image")
        err = io.StringIO()
        got, failed = None, None
        try:
            with contextlib.redirect_stderr(err):
                if func == "run":
                    got = run_graphviz(text, **kw)
                elif func == "svg":
                    got = dot_to_svg(text, **kw)
                elif func == "html":
                    got = dotstr_to_html(text, **kw)
                elif func == "graph":
                    text = g.to_dot()
                    got = graph_to_html(g, **kw)
                elif func == "file":
                    got = write_graphviz(text, path, **kw)
                elif func == "stringio":
                    buf = io.StringIO()
                    got = write_graphviz(text, buf, **kw)
                else:
                    with open(path, "wb" if func == "bytes" else "w", **({} if func == "bytes" else {"encoding": "utf-8", "newline": ""})) as f:
                        got = write_graphviz(text, f, **kw)
        except Exception as e:
            failed = e
        if outcome not in ("ok", "warn"):
            require(failed is not None, "%s returned %r though Graphviz failed (%s)", func, got, outcome)
            require(outcome == "missing" or isinstance(failed, RuntimeError), "%s raised %r when Graphviz fails", func, failed)
            require(outcome == "missing" or os.path.exists(os.path.join(d, "args")), "Graphviz was not run")
            st.interesting()
            return
        if failed is not None:
            raise failed
        with open(os.path.join(d, "stdin"), "rb") as f:
            require(f.read() == text.encode("utf-8"), "Graphviz did not receive the text")
        with open(os.path.join(d, "args")) as f:
            args = f.read().split("\n")[:-1]
        eff = parse_args(args)
        require(eff == (want_fmt, want_engine), "Graphviz is run with %s, expected format %s and engine %s", args, want_fmt, want_engine)
        if func in ("run", "html", "graph"):
            require(got == plain, "%s returned %r, expected %r", func, got if len(got) < 99 else len(got), plain if len(plain) < 99 else len(plain))
        elif func == "svg":
            want = plain[plain.find("<svg"):] if want_fmt == "svg" and "<svg" in plain else plain
            if want_fmt != "svg" or "<svg" in plain:
                require(got == want, "dot_to_svg returned %r, expected %r", got[:99], want[:99])
        else:
            require(bool(got) == bool(raw), "write_graphviz returned %r", got)
            if func == "stringio":
                data = buf.getvalue().encode()
            else:
                with open(path, "rb") as f:
                    data = f.read()
            if raw:
                require(data == raw or want_fmt in ("svg", "plain") and data == raw + b"\n", "%s: %d bytes written: %r, expected %r", func, len(data), data[:80], raw[:80])
    if out not in ("text", "nl"):
        st.interesting()


def parse_args(args):
    """(format, engine) as Graphviz reads them."""
    fmt, engine, i = None, "dot", 0
    while i < len(args):
        a = args[i]
        if a[:2] in ("-T", "-K"):
            v = a[2:]
            if not v:
                i += 1
                v = args[i]
            if a[1] == "T":
                fmt = v
            else:
                engine = v
        else:
            require(False, "unexpected argument %r of Graphviz", a)
        i += 1
    return fmt, engine


def check_notebook(case, st):
    shown = []
    mod = types.ModuleType("IPython.display")
    mod.HTML = lambda s: ("HTML", s)
    mod.display = shown.append
    saved = {k: sys.modules.get(k) for k in ("IPython", "IPython.display")}
    pkg = types.ModuleType("IPython")
    pkg.display = mod
    sys.modules["IPython"], sys.modules["IPython.display"] = pkg, mod
    d = os.path.join(os.environ["MC_SCRATCH"], "nb.%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        what = case[0]
        frame = lambda c, t: "<div style='background-color:%s'>" % c + t + "</div>" if c else t
        if what == "background":
            _, c, t = case
            got = background_template_html(c) % t
            require(got == frame(c, t), "background %r of %r is %r", c, t, got)
            if c is None:
                require(background_template_html() % t == t, "no background")
                require(in_ipynb() is False, "in_ipynb() without get_ipython")
                for cls, mod_name, want in (("ZMQInteractiveShell", "ipykernel.zmqshell", True), ("TerminalInteractiveShell", "IPython.terminal.interactiveshell", False), ("NoneType", "builtins", False)):
                    shell = type(cls, (), {"__module__": mod_name})
                    pkg.get_ipython = lambda: shell() if cls != "NoneType" else None
                    require(in_ipynb() is want, "in_ipynb() with a %s", cls)
            html(t)
            require(shown == [("HTML", t)], "html(%r) displayed %s", t, shown)
        elif what == "display_svg":
            _, c, t = case
            p = os.path.join(d, "x.svg")
            display_svg(t, p, background_color=c)
            with open(p) as f:
                require(f.read().rstrip("\n") == t, "the file does not hold the image")
            require(len(shown) == 2 and p in shown[0][1] and shown[1] == ("HTML", frame(c, t)), "displayed %s", shown)
        elif what == "display_body":
            _, c, t = case
            p = os.path.join(d, "x.html")
            display_body(t, p, background_color=c)
            with open(p) as f:
                page = f.read().rstrip("\n")
            require(page.startswith("<html>") and page.endswith("</html>") and "<body>%s</body>" % t in page, "page %r", page)
            require(len(shown) == 2 and shown[1] == ("HTML", frame(c, page)), "displayed %s", shown)
        elif what == "beside":
            a, b, c = case[1]
            got = beside("1" + a, "2" + b, "T" + c, "t1" + a, "t2" + c)
            pos = [got.find(x) for x in ("T" + c, "<b>t1" + a + "</b>", "<pre>1" + a + "</pre>", "<b>t2" + c + "</b>", "<pre>2" + b + "</pre>")]
            require(-1 not in pos and pos == sorted(pos), "beside%s is %s", case[1], got)
            require("%%" not in got.replace(a, "").replace(b, "").replace(c, ""), "percent signs are doubled")
        else:
            _, c, engine, k = case
            g = GraphDp(DirectedGraph(2)) if k == 3 else Automaton(2) if k == 2 else (UndirectedGraph if k else DirectedGraph)(2)
            kw = {"engine": engine} if engine else {}
            if c is not None:
                kw["background_color"] = c
            with stub("ok", "svg") as sd:
                ipynb_display_graph(g, vs=[1], **kw)
                with open(os.path.join(sd, "args")) as f:
                    require(parse_args(f.read().split("\n")[:-1]) == ("svg", engine or "dot"), "engine lost")
                with open(os.path.join(sd, "stdin")) as f:
                    dot = Dot(f.read())
            require([u for u, _ in dot.nodes] == ["1"], "options lost: %s", dot.nodes)
            require(shown == [("HTML", frame(c, OUTPUTS["svg"].decode()))], "displayed %s", shown)
        if "%" in repr(case):
            st.interesting()
    finally:
        for k, m in saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m
        shutil.rmtree(d, ignore_errors=True)


NS = "{http://www.w3.org/2000/svg}"


def svg_of(text):
    root = ET.fromstring(text)
    items = {"node": [], "edge": []}
    for x in root.iter(NS + "g"):
        if x.get("class") in items:
            # a label may be written in several pieces
            items[x.get("class")].append((x.find(NS + "title").text, "".join("".join(t.itertext()) for t in x.iter(NS + "text"))))
    return items


def visible(label):
    for t in ("<b>", "</b>", "<i>", "</i>"):
        label = label.replace(t, "")
    return label.replace("\xa0", " ")


def check_labels(case, st):
    """The real Graphviz accepts each label and shows its characters."""
    if shutil.which("dot") is None:
        return
    labels = case[1]
    g = DirectedGraph(len(labels))
    (e, _) = g.add_edge(0, len(labels) - 1)
    svg = graph_to_html(g, dpv={"label": make_func_property_map(lambda u: labels[u])}, dpe={"label": make_func_property_map(lambda e: labels[-1])})
    items = svg_of(svg)
    got = dict(items["node"])
    require(len(items["node"]) == len(labels) and len(items["edge"]) == 1, "%d vertices drawn instead of %d", len(got), len(labels))
    for u, label in enumerate(labels):
        require(got[str(u)].replace("\xa0", " ") == visible(label), "the label %r is drawn as %r", label, got[str(u)])
    require(items["edge"][0][1].replace("\xa0", " ") == visible(labels[-1]), "the label %r of an edge is drawn as %r", labels[-1], items["edge"][0][1])
    st.interesting()


def check_real(case, st):
    """The real Graphviz draws exactly the vertices and edges, with each engine."""
    if shutil.which("dot") is None:
        return
    _, kind, n, edges = case
    g, es = build_graph(kind, n, edges, 1)
    arc = "--" if kind == "U" else "->"
    for engine in (None, "neato") if edges else (None,):
        items = svg_of(dot_to_svg(g.to_dot(), engine or "dot"))
        require(sorted(t for t, _ in items["node"]) == sorted(str(u) for u in g.vertices()), "vertices drawn: %s", items["node"])
        want = sorted("%d%s%d" % (g.source(e), arc, g.target(e)) for e in g.edges())
        require(sorted(t for t, _ in items["edge"]) == want, "edges drawn: %s, expected %s", items["edge"], want)
    if edges:
        st.interesting()
