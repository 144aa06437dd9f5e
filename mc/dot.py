"""A parser of the DOT language, independent of the way the export lays out its text."""
import re
from .core import require

TOKEN = re.compile(r'\s+|(?P<op>->|--|[{}\[\]=;,])|"(?P<str>(?:\\.|[^"\\])*)"|(?P<id>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)|[A-Za-z_\u0080-\U0010ffff][\w]*)', re.S)


def tokens(s):
    i, out = 0, []
    while i < len(s):
        if s[i] == "<":
            # an HTML string: angle brackets are balanced in it
            depth, j = 0, i
            while True:
                require(j < len(s), "unbalanced HTML string in the DOT text %r", s[i:i + 80])
                depth += {"<": 1, ">": -1}.get(s[j], 0)
                j += 1
                if depth == 0:
                    break
            out.append(("html", s[i + 1:j - 1]))
            i = j
            continue
        m = TOKEN.match(s, i)
        require(m is not None and m.end() > i, "invalid DOT text at %r", s[i:i + 80])
        if m.group("op"):
            out.append(("op", m.group("op")))
        elif m.group("str") is not None:
            out.append(("str", m.group("str").replace('\\"', '"')))
        elif m.group("id"):
            out.append(("id", m.group("id")))
        i = m.end()
    return out


class Dot:
    """What a DOT text describes: kind, name, nodes [(id, attrs)], edges [(id, op, id, attrs)], defaults {graph, node, edge}, settings."""
    def __init__(self, text):
        require(isinstance(text, str), "the export is %r, not a string", type(text))
        self.toks, self.i = tokens(text), 0
        self.nodes, self.edges, self.defaults, self.settings = [], [], {"graph": {}, "node": {}, "edge": {}}, {}
        self.kind = self.take("id")
        require(self.kind in ("graph", "digraph"), "DOT type %r", self.kind)
        self.name = self.take("id", "str") if self.peek() != ("op", "{") else None
        self.expect("{")
        while self.peek() != ("op", "}"):
            self.statement()
            if self.peek() == ("op", ";"):      # at most one, as Graphviz requires
                self.i += 1
        self.expect("}")
        require(self.i == len(self.toks), "text after the end of the DOT graph")

    def peek(self):
        require(self.i < len(self.toks), "unexpected end of the DOT text")
        return self.toks[self.i]

    def take(self, *kinds):
        t = self.peek()
        require(t[0] in kinds, "unexpected DOT token %r", t)
        self.i += 1
        return t[1]

    def expect(self, op):
        require(self.peek() == ("op", op), "DOT token %r where %r is expected", self.peek(), op)
        self.i += 1

    def attrs(self):
        out = {}
        while self.peek() == ("op", "["):
            self.i += 1
            while self.peek() != ("op", "]"):
                k = self.take("id", "str")
                self.expect("=")
                kind, v = self.peek()
                require(kind != "op", "unexpected DOT token %r", v)
                self.i += 1
                require(k not in out, "attribute %s given twice", k)
                out[k] = ("html", v) if kind == "html" else v
                if self.peek() in (("op", ";"), ("op", ",")):
                    self.i += 1
            self.expect("]")
        return out

    def statement(self):
        quoted = self.peek()[0] == "str"
        x = self.take("id", "str", "html")
        op = self.peek()
        if x in self.defaults and not quoted:
            self.defaults[x].update(self.attrs())
        elif op == ("op", "="):
            self.i += 1
            self.settings[x] = self.take("id", "str", "html")
        elif op in (("op", "->"), ("op", "--")):
            self.i += 1
            y = self.take("id", "str", "html")
            self.edges.append((x, op[1], y, self.attrs()))
        else:
            self.nodes.append((x, self.attrs()))


TAGS = {"b", "br", "font", "hr", "i", "img", "o", "s", "sub", "sup", "table", "td", "tr", "u", "vr"}
TAG = re.compile(r"<(/?)([A-Za-z]+)(/?)(\s[^<>]*)?>")
PLAIN = {"\n": "\\n", "\t": "\\t", "\r": "\\r"}


def pieces(s):
    """The supported HTML tags and the other characters of a label."""
    i = 0
    while i < len(s):
        m = TAG.match(s, i)
        if m and m.group(2).lower() in TAGS and (not m.group(3) or m.group(2).lower() == "br"):
            yield True, m.group(0)
            i = m.end()
        else:
            yield False, s[i]
            i += 1


def check_escaped(label, got):
    """Is `got` a faithful HTML string for this label?"""
    i = 0
    for is_tag, x in pieces(label):
        if is_tag:
            require(got.startswith(x, i), "label %r: the tag %r is altered in %r", label, x, got)
            i += len(x)
            continue
        m = re.compile(r"&#(?:([0-9]+)|[xX]([0-9a-fA-F]+));").match(got, i)
        if m:
            c = chr(int(m.group(1)) if m.group(1) else int(m.group(2), 16))
            require(c == x, "label %r: the character %r becomes %r in %r", label, x, c, got)
            i = m.end()
        elif x in PLAIN:
            require(got.startswith(PLAIN[x], i), "label %r: the character %r becomes %r", label, x, got)
            i += 2
        elif ord(x) < 32:
            m = re.compile(r"[\x20-\x7e]*?;").match(got, i)
            require(m is not None, "label %r: the control character %r is not escaped in %r", label, x, got)
            i = m.end()
        else:
            require(x not in "&<>[]{}", "label %r: the character %r is not escaped in %r", label, x, got)
            require(got.startswith(x, i), "label %r: the character %r is altered in %r", label, x, got)
            i += len(x)
    require(i == len(got), "label %r is exported as %r", label, got)
