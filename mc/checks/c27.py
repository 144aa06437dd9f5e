from collections import deque
from itertools import product
from pybgl.shunting_yard_postfix import (MAP_OPERATORS_ALG, MAP_OPERATORS_RE, LEFT, RIGHT, Ast, Op, RpnDequeAlg, RpnDequeAst, RpnDequeOperation,
                                         DefaultShuntingYardVisitor, shunting_yard_ast, shunting_yard_compute, shunting_yard_postfix,
                                         tokenizer_alg, tokenizer_re)
from mc.core import require
ID, LEVEL = "C27", "exploration"
RULE = ("every expression tree with a bounded number of operators over the arithmetic operators, the regular expression operators and 48 custom operator tables "
        "(precedences, associativities, prefix and postfix operators) is written with minimal or full parentheses and with or without spaces; its tokens, postfix form, "
        "syntax tree and value are compared with the tree it was written from. A case is non-trivial when it has two operators.")
ASSUMPTIONS = ["the expression is well-formed", "a prefix operator is one with cardinality 1 and right associativity, a postfix operator one with cardinality 1 and left associativity",
               "operators of the same precedence have the same associativity, prefix operators excepted", "expressions whose value is undefined (division by zero, overflow) are not evaluated"]
BOUND = {"quick": "arithmetic: <= 4 operators over {+,-,*,/,^,unary +,unary -} x 3 writings, 5 operators over {-,/,^,unary -}; regular expressions <= 4 operators; custom tables <= 4 operators; deep expressions of 50, 600 and 2500 operands (9 shapes)",
         "thorough": "arithmetic: 5 operators over {+,-,*,^,unary -}, 6 over {-,^,unary -}; regular expressions and custom tables 5 operators"}
NUMBERS = ("2", "3", "0.5", "7", "10", "4")

# term = ("x", leaf index) | (op, t) | (op, t, u)


def terms(n, ops, table):
    if n == 0:
        yield "x"
        return
    for op in ops:
        if table[op].cardinality == 1:
            for t in terms(n - 1, ops, table):
                yield (op, t)
        else:
            for i in range(n):
                for t in terms(i, ops, table):
                    for u in terms(n - 1 - i, ops, table):
                        yield (op, t, u)


def tokens(t, table, leaves, full=False):
    """The tokens of a term whose leaves are taken from an iterator."""
    def prefix(op):
        return table[op].cardinality == 1 and table[op].associativity == RIGHT

    def right_spine(t):
        """Operators that would capture what follows t if they bind looser."""
        while t != "x" and not (table[t[0]].cardinality == 1 and not prefix(t[0])):
            yield t[0]
            t = t[-1]
            if isinstance(t, tuple) and paren.get(id(t)):
                return

    paren = {}

    def captured(t, op):
        """Is a part of t (written without parentheses) given to op rather than the whole of t?"""
        for o in right_spine(t):
            p, q = table[o].precedence, table[op].precedence
            if p < q or (p == q and table[op].associativity == RIGHT):
                return True
        return False

    def mark(t):
        if t == "x":
            return
        op = t[0]
        p = table[op].precedence
        for c in t[1:]:
            mark(c)
        if prefix(op):
            c = t[1]
            if c != "x":
                q = table[c[0]].precedence
                a = table[c[0]].associativity
                # the first operator of c after its first operand pops op when it does not bind tighter
                paren[id(c)] = paren.get(id(c)) or (not prefix(c[0]) and (q < p or (q == p and a == LEFT))) or left_open(c, op)
        elif len(t) == 2:
            c = t[1]
            if c != "x":
                q = table[c[0]].precedence
                paren[id(c)] = paren.get(id(c)) or q < p or captured(c, op)
        else:
            c, d = t[1], t[2]
            if c != "x":
                paren[id(c)] = paren.get(id(c)) or captured(c, op) or table[c[0]].precedence < p or (table[c[0]].precedence == p and not prefix(c[0]) and len(c) == 3 and table[op].associativity == RIGHT)
            if d != "x":
                q, a = table[d[0]].precedence, table[d[0]].associativity
                if not prefix(d[0]):
                    paren[id(d)] = paren.get(id(d)) or q < p or (q == p and a == LEFT) or left_open(d, op)

    def left_open(t, op):
        """Would op (written just before t) be popped by an operator of the left spine of t?"""
        while t != "x" and not paren.get(id(t)):
            if prefix(t[0]):
                return False
            q, a = table[t[0]].precedence, table[t[0]].associativity
            p = table[op].precedence
            if p > q or (p == q and a == LEFT):
                return True
            t = t[1]
        return False

    def rec(t):
        if t == "x":
            return [next(leaves)]
        out = []
        if prefix(t[0]):
            out = [t[0]] + sub(t[1])
        elif len(t) == 2:
            out = sub(t[1]) + [t[0]]
        else:
            out = sub(t[1]) + [t[0]] + sub(t[2])
        return out

    def sub(c):
        return ["("] + rec(c) + [")"] if c != "x" and (full or paren.get(id(c))) else rec(c)

    def copy(t):            # distinct objects, as they are identified by id()
        return t if t == "x" else (t[0],) + tuple(copy(c) for c in t[1:])
    t = copy(t)
    mark(t)
    return rec(t)


def postfix(t, leaves):
    return [next(leaves)] if t == "x" else [x for c in t[1:] for x in postfix(c, leaves)] + [t[0]]


def value(t, leaves):
    if t == "x":
        return float(next(leaves))
    vs = [value(c, leaves) for c in t[1:]]
    op = t[0]
    if len(vs) == 1:
        return -vs[0] if op == "u-" else vs[0]
    x, y = vs
    return x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y if op == "/" else x ** y


def custom_tables():
    for p1, a1, p2, a2 in ((1, LEFT, 2, LEFT), (1, LEFT, 2, RIGHT), (1, RIGHT, 2, LEFT), (1, RIGHT, 2, RIGHT), (2, LEFT, 2, LEFT), (2, RIGHT, 2, RIGHT), (3, LEFT, 1, RIGHT), (5, RIGHT, 4, LEFT)):
        for pre, post in ((3, 3), (3, 4), (4, 3), (1, 3), (2, 3), (0, 6)):
            yield {"@": Op(2, p1, a1), "#": Op(2, p2, a2), "~": Op(1, pre, RIGHT), "!": Op(1, post, LEFT)}


TABLES = list(custom_tables())
BIG = (50, 600, 2500)
ALL = ("+", "-", "*", "/", "^", "u+", "u-")


def shards(tier):
    out = [("alg", n, ALL, i, 4) for n in range(4) for i in range(4)] + [("alg", 4, ALL, i, 32) for i in range(32)] + [("alg", 5, ("-", "/", "^", "u-"), i, 32) for i in range(32)]
    out += [("re", n, i, 4) for n in range(5) for i in range(4)] + [("custom", n, i) for n in range(5) for i in range(8)] + [("tok",), ("ternary",), ("big",)] + [("python", n, i) for n in range(5 if tier == "quick" else 6) for i in range(4)]
    if tier != "quick":
        out += [("alg", 5, ("+", "-", "*", "^", "u-"), i, 32) for i in range(32)] + [("alg", 6, ("-", "^", "u-"), i, 32) for i in range(32)]
        out += [("re", 5, i, 16) for i in range(16)] + [("custom", 5, i) for i in range(8)]
    return out


def cases(shard):
    part = shard[0]
    if part == "alg":
        _, n, ops, i, m = shard
        for j, t in enumerate(terms(n, ops, MAP_OPERATORS_ALG)):
            if j % m == i:
                yield ("alg", t)
    elif part == "re":
        _, n, i, m = shard
        for j, t in enumerate(terms(n, (".", "|", "*", "+", "?"), MAP_OPERATORS_RE)):
            if j % m == i:
                yield ("re", t)
    elif part == "custom":
        for k, table in enumerate(TABLES):
            if k % 8 == shard[2]:
                for t in terms(shard[1], ("@", "#", "~", "!"), table):
                    yield ("custom", k, t)
    elif part == "tok":
        for a in ("1", "12", "0", "3.25", ".5", "007", "1e3", "2."):
            for b in ("1", "40", ".5"):
                for op in "+-*/^":
                    for sign in ("", "+", "-", "--", "+-"):
                        yield ("tok", a, op, sign, b)
    elif part == "big":
        for n in BIG:
            for shape in ("left", "right", "prefix", "nest", "mixed"):
                yield ("big", "alg", shape, n)
            for shape in ("cat", "alt", "nest", "star"):
                yield ("big", "re", shape, n)
    elif part == "python":
        _, n, i = shard
        # a sequence of operators with signs before each operand, without any parenthesis
        for j, ops in enumerate(product("+-*/^", repeat=n)):
            if j % 4 == i:
                for signs in product(("", "-", "+"), repeat=n + 1) if n < 4 else (("",) * 5, ("-",) + ("",) * 4, ("", "-") * 2 + ("",)):
                    yield ("python", ops, signs)
    elif part == "ternary":
        for perm in range(4):
            yield ("ternary", perm)


def big(kind, shape, n):
    """Tokens, postfix form and value (None: not evaluated) of a long expression, deep to the left, to the right or nested."""
    if kind == "re":
        xs = ["abcdefgh"[i % 8] for i in range(n)]
        if shape == "cat":
            toks = [t for x in xs for t in (x, ".")][:-1]
            return toks, [xs[0]] + [t for x in xs[1:] for t in (x, ".")], None
        if shape == "alt":
            toks = [t for x in xs for t in (x, ".", x, "|")][:-1]
            return toks, [xs[0], xs[0], "."] + [t for x in xs[1:] for t in (x, x, ".", "|")], None
        if shape == "star":
            return ["("] * n + ["a"] + [")", "*"] * n, ["a"] + ["*"] * n, None
        toks = [t for x in xs for t in (x, ".", "(")] + ["a"] + [")"] * n      # a.(b.(c.( ... a)))
        return toks, xs + ["a"] + ["."] * n, None
    xs = [float(i % 7 + 1) for i in range(n)]
    if shape == "left":
        v = xs[0]
        for x in xs[1:]:
            v -= x
        return [t for x in xs for t in (x, "-")][:-1], [xs[0]] + [t for x in xs[1:] for t in (x, "-")], v
    if shape == "right":
        xs = [2.0] + [1.0] * n
        return [t for x in xs for t in (x, "^")][:-1], xs + ["^"] * n, 2.0
    if shape == "prefix":
        return ["u-"] * n + [3.0], [3.0] + ["u-"] * n, 3.0 * (-1) ** n
    if shape == "nest":                                                        # x - (y - (z - ... 1))
        v = 1.0
        for x in reversed(xs):
            v = x - v
        return [t for x in xs for t in (x, "-", "(")] + [1.0] + [")"] * n, xs + [1.0] + ["-"] * n, v
    v = 0.0                                                                    # 0 + x * y - x * y + ...
    toks, want = [0.0], [0.0]
    for i, x in enumerate(xs):
        op = "+-"[i % 2]
        toks += [op, x, "*", 2.0]
        want += [x, 2.0, "*", op]
        v = v + x * 2 if op == "+" else v - x * 2
    return toks, want, v


def read_postfix(ast, root):
    out, stack = [], [root]
    while stack:
        u = stack.pop()
        out.append(ast.symbol(u))
        stack += list(ast.children(u))
    return out[::-1]


class Record(DefaultShuntingYardVisitor):
    def __init__(self):
        self.output, self.stack, self.ok = [], [], True

    def on_push_operator(self, o):
        self.stack.append(o)

    def on_pop_operator(self, o):
        self.ok = self.ok and bool(self.stack) and self.stack.pop() == o

    def on_push_output(self, a):
        self.output.append(a)


def read_ast(ast, u):
    children = list(ast.children(u))
    a = ast.symbol(u)
    return (a,) + tuple(read_ast(ast, v) for v in children) if children else a


def labelled(t, leaves):
    return next(leaves) if t == "x" else (t[0],) + tuple(labelled(c, leaves) for c in t[1:])


def same(x, y):
    return x == y or repr(x) == repr(y)     # nan included


def parse_checks(toks, table, t, leaf_list, st, what):
    want = postfix(t, iter(leaf_list))
    vis = Record()
    got = shunting_yard_postfix(toks, table, vis=vis)
    require(list(got) == want, "postfix form of %s: %r but expected %r", what, list(got), want)
    require(vis.output == want, "the visitor saw the output %r for %s", vis.output, what)
    require(vis.ok and not vis.stack, "the visitor did not see a stack of operators for %s", what)
    out = deque()
    got = shunting_yard_postfix(iter(toks), table, out)
    require(got is out and list(out) == want, "postfix form of %s in a given deque: %r", what, list(out))
    ast, root = shunting_yard_ast(toks, table)
    tree = read_ast(ast, root)
    ref = labelled(t, iter(leaf_list))
    require(tree == ref, "syntax tree of %s: %r but expected %r", what, tree, ref)
    n = len(want)
    require(ast.num_vertices() == n and ast.num_edges() == n - 1, "syntax tree of %s: %d vertices, %d edges", what, ast.num_vertices(), ast.num_edges())
    return ast, root, ref


def check(case, st):
    kind = case[0]
    if kind == "alg":
        t = case[1]
        k = sum(1 for x in postfix(t, iter(range(100))) if isinstance(x, int))
        leaves = [NUMBERS[i % len(NUMBERS)] for i in range(k)]
        floats = [float(x) for x in leaves]
        try:
            v = value(t, iter(leaves))
        except (ZeroDivisionError, OverflowError):
            v = None
        for full in (False, True):
            toks = tokens(t, MAP_OPERATORS_ALG, iter(leaves), full)
            for sep in ("", " ") if not full else ("  \t",):
                s = sep.join(x[-1] if x in ("u+", "u-") else x for x in toks)
                got = list(tokenizer_alg(s))
                want = [float(x) if x[0] in "0123456789." else x for x in toks]
                require(got == want, "tokenizer_alg(%r): %r but expected %r", s, got, want)
                if v is not None:
                    r = shunting_yard_compute(s)
                    require(same(r, v), "%s = %r but expected %r", s, r, v)
            parse_checks(want, MAP_OPERATORS_ALG, t, floats, st, s)
            if v is not None:
                r = shunting_yard_compute(want, tokenize=False)
                require(same(r, v), "value of the tokens %r = %r but expected %r", want, r, v)
                out = RpnDequeAlg()
                shunting_yard_postfix(want, MAP_OPERATORS_ALG, out)
                require(len(out) == 1 and same(out[0], v), "RpnDequeAlg holds %r for %s, expected %r", list(out), s, v)
        if v is not None and "u" not in "".join(x for x in toks if x[0] == "u"):
            ast, root = shunting_yard_ast(tokenizer_alg(s), MAP_OPERATORS_ALG)
            e = ast.to_expr()
            r = shunting_yard_compute(e)
            require(same(r, v), "to_expr() of the tree of %s is %s, whose value is %r", s, e, r)
        st.outcome("value" if v is not None else "no value")
    elif kind == "python":
        # the standard precedences: those of Python
        _, ops, signs = case
        s = "".join(x + y + z for x, y, z in zip(signs, ("2", "3", "0.5", "7", "4", "3"), tuple(ops) + ("",)))
        try:
            v = float(eval(s.replace("^", "**"), {}))
        except (ZeroDivisionError, OverflowError, TypeError):
            return
        r = shunting_yard_compute(s)
        require(same(r, v) or abs(r - v) <= 1e-9 * abs(v), "%s = %r but expected %r", s, r, v)
        if len(set(ops)) > 1:
            st.interesting()
        return
    elif kind == "big":
        _, lang, shape, n = case
        table = MAP_OPERATORS_ALG if lang == "alg" else MAP_OPERATORS_RE
        toks, want, v = big(lang, shape, n)
        what = "a %s expression of %d operands" % (shape, n)
        require(list(shunting_yard_postfix(toks, table)) == want, "postfix form of %s", what)
        ast, root = shunting_yard_ast(toks, table)
        out = RpnDequeAst(map_operators=table)         # with its own tree
        shunting_yard_postfix(toks, table, out)
        require(len(out) == 1 and read_postfix(out.ast, out[0]) == want, "RpnDequeAst of %s", what)
        require(read_postfix(ast, root) == want and ast.num_vertices() == len(want), "syntax tree of %s", what)
        if lang == "alg":
            s = " ".join(x[-1] if x in ("u+", "u-") else str(x) for x in toks)
            require(list(tokenizer_alg(s)) == toks, "tokenizer_alg of %s", what)
            r = shunting_yard_compute(s)
            require(same(r, v) and same(shunting_yard_compute(toks, tokenize=False), v), "value of %s: %r but expected %r", what, r, v)
            if "u-" not in want:
                r = shunting_yard_compute(ast.to_expr())
                require(same(r, v), "value of to_expr() of the tree of %s: %r but expected %r", what, r, v)
        else:
            require(list(tokenizer_re("".join(x for x in toks if x != "."))) == toks, "tokenizer_re of %s", what)
            ast2, root2 = shunting_yard_ast(tokenizer_re(ast.to_expr(), cat=None), MAP_OPERATORS_RE)
            require(read_postfix(ast2, root2) == want, "to_expr() of the tree of %s is a different expression", what)
        st.interesting()
        return
    elif kind == "re":
        t = case[1]
        k = sum(1 for x in postfix(t, iter(range(100))) if isinstance(x, int))
        leaves = "abcdefgh"[:k]
        for full in (False, True):
            toks = tokens(t, MAP_OPERATORS_RE, iter(leaves), full)
            got = list(tokenizer_re("".join(x for x in toks if x != ".")))
            require(got == toks, "tokenizer_re(%r): %r", "".join(x for x in toks if x != "."), got)
            got = list(tokenizer_re("".join(toks), cat=None))
            require(got == toks, "tokenizer_re(%r, cat=None): %r", "".join(toks), got)
            ast, root, ref = parse_checks(toks, MAP_OPERATORS_RE, t, list(leaves), st, "".join(toks))
        e = ast.to_expr()
        ast2, root2 = shunting_yard_ast(tokenizer_re(e, cat=None), MAP_OPERATORS_RE)
        require(read_ast(ast2, root2) == ref, "to_expr() of the tree of %s is %s, a different expression", "".join(toks), e)
    elif kind == "custom":
        table, t = TABLES[case[1]], case[2]
        k = sum(1 for x in postfix(t, iter(range(100))) if isinstance(x, int))
        leaves = list("abcdefgh"[:k])
        for full in (False, True):
            toks = tokens(t, table, iter(leaves), full)
            parse_checks(toks, table, t, leaves, st, "%s (table %d)" % (" ".join(toks), case[1]))
    elif kind == "tok":
        a, op, sign, b = case[1:]
        un = ["u" + x for x in sign]
        want = [float(a), op] + un + [float(b)]
        for sep in ("", " ", "\n "):
            s = sep.join([a, op] + list(sign) + [b])
            got = list(tokenizer_alg(s))
            require(got == want, "tokenizer_alg(%r): %r", s, got)
        s = sign + a + op + "(" + sign + b + ")" + op + a
        got = list(tokenizer_alg(s))
        want = un + [float(a), op, "("] + un + [float(b), ")", op, float(a)]
        require(got == want, "tokenizer_alg(%r): %r", s, got)
        st.interesting()
        return
    else:
        # operations receive their operands in order, whatever their number
        perm = case[1]
        table = {"f": Op(3, 5, LEFT), "g": Op(2, 5, LEFT), "h": Op(1, 5, LEFT)}

        class Deque(RpnDequeOperation):
            def on_append(self, a):
                return a + "'"

            def on_operation(self, a, op, u, vs):
                require(op == table[a] and u == a + "'", "on_operation(%r, %r, %r)", a, op, u)
                return a + "(" + ",".join(vs) + ")"
        rpn, want = [("1 2 3 f", "f(1',2',3')"), ("1 2 g 3 4 h f", "f(g(1',2'),3',h(4'))"), ("1 h 2 g", "g(h(1'),2')"), ("1 2 3 4 f g h", "h(g(1',f(2',3',4')))")][perm]
        d = Deque(table)
        for a in rpn.split():
            d.append(a)
        require(list(d) == [want], "RpnDequeOperation: %r but expected %r", list(d), want)
        st.interesting()
        return
    if sum(1 for x in postfix(t, iter([""] * 100)) if x) > 1:
        st.interesting()
