#!/usr/bin/env python3
"""
Mutation analysis of the checks (a tool to find their gaps; no check uses it).

  mutate.py run DIR [module.py ...]    generate mutants of the modules, drop those that the existing tests detect, run the
                                       quick checks anchored in the module on the others; results in DIR/results.jsonl
  mutate.py show DIR                   the survivors
Workers see a private copy of /repo mounted over /repo (private mount namespace), so /repo itself is never modified.
"""
import ast
import copy
import difflib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pybgl/"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
NAMES = {"append": "appendleft", "appendleft": "append", "pop": "popleft", "popleft": "pop", "min": "max", "max": "min", "any": "all", "all": "any",
         "source": "target", "target": "source", "out_edges": "in_edges", "in_edges": "out_edges", "add": "discard", "union": "intersection",
         "GRAY": "BLACK", "BLACK": "GRAY", "WHITE": "BLACK", "set_final": "set_initial", "is_final": "is_initial", "is_initial": "is_final",
         "g1": "g2", "g2": "g1", "q1": "q2", "q2": "q1", "r1": "r2", "r2": "r1", "u": "v", "v": "u", "q": "r", "r": "q", "startswith": "endswith",
         "break": None}


def variants(node):
    """Replacements for one AST node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for op in CMP.get(type(node.ops[0]), []):
            m = copy.deepcopy(node)
            m.ops = [op()]
            yield m
    elif isinstance(node, ast.BoolOp):
        m = copy.deepcopy(node)
        m.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield m
        for i in range(len(node.values)):
            vals = node.values[:i] + node.values[i + 1:]
            yield copy.deepcopy(vals[0]) if len(vals) == 1 else ast.BoolOp(node.op, copy.deepcopy(vals))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield copy.deepcopy(node.operand)
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        m = copy.deepcopy(node)
        m.op = BIN[type(node.op)]()
        yield m
    elif isinstance(node, ast.IfExp):
        yield copy.deepcopy(node.body)
        yield copy.deepcopy(node.orelse)
    elif isinstance(node, ast.Constant):
        if node.value is True or node.value is False:
            yield ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield ast.Constant(node.value + 1)
            if node.value:
                yield ast.Constant(node.value - 1)
        elif node.value is None:
            pass
        elif isinstance(node.value, str) and 0 < len(node.value) < 4:
            yield ast.Constant("")
    elif isinstance(node, (ast.Name, ast.Attribute)):
        n = node.id if isinstance(node, ast.Name) else node.attr
        if NAMES.get(n):
            m = copy.deepcopy(node)
            if isinstance(node, ast.Name):
                m.id = NAMES[n]
            else:
                m.attr = NAMES[n]
            yield m
    elif isinstance(node, ast.If):
        for b in (True, False):
            m = copy.deepcopy(node)
            m.test = ast.Constant(b)
            yield m
    elif isinstance(node, ast.comprehension) and node.ifs:
        m = copy.deepcopy(node)
        m.ifs = []
        yield m
    elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Break, ast.Continue)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield ast.Pass()
    elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        if isinstance(node.value, (ast.Set, ast.SetComp)):
            pass


LIMITS = (1, 8, 32)
COPIES = {"list", "set", "frozenset", "sorted", "tuple", "dict", "deque", "str"}


def is_none(n):
    return (isinstance(n, ast.Constant) and n.value is None) or (isinstance(n, ast.Name) and n.id == "BOTTOM")


def variants2(node):
    """Subtler replacements: identity for equality, truth for 'is None', dropped copies, slices, size limits, caches, swapped statements."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        op, right = node.ops[0], node.comparators[0]
        if isinstance(op, (ast.Eq, ast.NotEq)) and not isinstance(right, ast.Constant):
            m = copy.deepcopy(node)
            m.ops = [ast.Is() if isinstance(op, ast.Eq) else ast.IsNot()]
            yield m
        if isinstance(op, (ast.Is, ast.IsNot)) and is_none(right):
            left = copy.deepcopy(node.left)
            yield left if isinstance(op, ast.IsNot) else ast.UnaryOp(ast.Not(), left)
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield ast.Compare(copy.deepcopy(node.operand), [ast.Is()], [ast.Constant(None)])
    elif isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Name) and f.id in COPIES and len(node.args) == 1:
            yield copy.deepcopy(node.args[0])
        if isinstance(f, ast.Name) and f.id in ("max", "sum") and len(node.args) == 1:
            m = copy.deepcopy(node)
            m.func.id = "len"
            yield m
        if isinstance(f, ast.Attribute) and f.attr == "get" and len(node.args) == 2:
            yield ast.Subscript(copy.deepcopy(f.value), copy.deepcopy(node.args[0]), ast.Load())
        if isinstance(f, ast.Attribute) and f.attr in ("remove", "discard"):
            m = copy.deepcopy(node)
            m.func.attr = "discard" if f.attr == "remove" else "remove"
            yield m
        for i in range(len(node.keywords)):
            m = copy.deepcopy(node)
            del m.keywords[i]
            yield m
        if len(node.args) > 1:
            m = copy.deepcopy(node)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            yield m
            m = copy.deepcopy(node)
            m.args.pop()
            yield m
    elif isinstance(node, ast.Slice):
        for f in ("lower", "upper"):
            v = getattr(node, f)
            if v is not None:
                m = copy.deepcopy(node)
                setattr(m, f, ast.BinOp(copy.deepcopy(v), ast.Add(), ast.Constant(1)))
                yield m
                m = copy.deepcopy(node)
                setattr(m, f, None)
                yield m
    elif isinstance(node, (ast.ListComp,)):
        yield ast.GeneratorExp(copy.deepcopy(node.elt), copy.deepcopy(node.generators))
    elif isinstance(node, ast.comprehension):
        for k in LIMITS:
            m = copy.deepcopy(node)
            m.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(None, ast.Constant(k)), ast.Load())
            yield m
    elif isinstance(node, (ast.Set, ast.List, ast.Tuple)) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load) and len(node.elts) > 1:
        for i in range(len(node.elts) if not isinstance(node, ast.Tuple) else 0):
            m = copy.deepcopy(node)
            del m.elts[i]
            yield m
    elif isinstance(node, ast.Dict) and len(node.keys) > 1:
        for i in range(len(node.keys)):
            m = copy.deepcopy(node)
            del m.keys[i], m.values[i]
            yield m
    elif isinstance(node, ast.For):
        for k in LIMITS:
            m = copy.deepcopy(node)
            m.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(None, ast.Constant(k)), ast.Load())
            yield m
        m = copy.deepcopy(node)
        m.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(None, None, ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.Load())
        yield m
    elif isinstance(node, ast.While):
        for k in LIMITS[1:]:
            m = copy.deepcopy(node)
            m.body.insert(0, ast.parse("__n = locals().get('__n', 0) + 1\nif __n > %d: break" % k).body[0])
            m.body.insert(1, ast.parse("if __n > %d: break" % k).body[0])
            yield m
    elif isinstance(node, ast.FunctionDef) and not any(isinstance(x, (ast.Yield,)) for x in ast.walk(node)):
        if any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(node)) and node.args.args and not node.decorator_list and node.name[:2] != "__":
            m = copy.deepcopy(node)
            cache = """
def __cached(f):
    cache = {}
    def g(*args, **kwargs):
        try:
            key = (args, tuple(sorted(kwargs.items())))
            hash(key)
        except TypeError:
            return f(*args, **kwargs)
        if key not in cache:
            cache[key] = f(*args, **kwargs)
        return cache[key]
    return g
"""
            d = ast.Call(ast.Call(ast.Name("eval", ast.Load()), [ast.Constant("(lambda d: (exec(%r, d), d['__cached'])[1])({})" % cache)], []), [], [])
            m.decorator_list = [d.func]
            yield m


def mutants2(src):
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}

    def emit(child):
        try:
            text = ast.unparse(ast.fix_missing_locations(tree))
        except Exception:
            return
        if text not in seen:
            seen.add(text)
            yield getattr(child, "lineno", 0), text

    def walk(node):
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list"):
                continue
            items = value if isinstance(value, list) else [value]
            for i, child in enumerate(items):
                if not isinstance(child, ast.AST) or isinstance(child, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)):
                    continue
                for m in variants2(child):
                    if isinstance(value, list):
                        value[i] = m
                    else:
                        setattr(node, field, m)
                    yield from emit(child)
                    if isinstance(value, list):
                        value[i] = child
                    else:
                        setattr(node, field, child)
                if field in ("body", "orelse") and isinstance(value, list) and isinstance(child, ast.stmt) and i + 1 < len(value) and not isinstance(node, (ast.Module, ast.ClassDef)):
                    if not (isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant)) and not isinstance(value[i + 1], ast.FunctionDef):
                        value[i], value[i + 1] = value[i + 1], value[i]
                        yield from emit(child)
                        value[i], value[i + 1] = value[i + 1], value[i]
                yield from walk(child)
    for line, text in walk(tree):
        d = [x for x in difflib.unified_diff(base.split("\n"), text.split("\n"), n=2, lineterm="")][2:]
        yield line, "\n".join(d), text


def mutants(src):
    """(line, description, mutated source) for each mutant."""
    if os.environ.get("MUT_OPS") == "2":
        yield from mutants2(src)
        return
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}

    def skip(node):
        return isinstance(node, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise))

    def walk(node):
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list"):
                continue
            items = value if isinstance(value, list) else [value]
            for i, child in enumerate(items):
                if not isinstance(child, ast.AST) or skip(child):
                    continue
                for m in variants(child):
                    if isinstance(value, list):
                        value[i] = m
                    else:
                        setattr(node, field, m)
                    try:
                        text = ast.unparse(ast.fix_missing_locations(tree))
                    except Exception:
                        text = base
                    if isinstance(value, list):
                        value[i] = child
                    else:
                        setattr(node, field, child)
                    if text not in seen:
                        seen.add(text)
                        yield getattr(child, "lineno", 0), text
                yield from walk(child)
    for line, text in walk(tree):
        d = [x for x in difflib.unified_diff(base.split("\n"), text.split("\n"), n=2, lineterm="")][2:]
        yield line, "\n".join(d), text


def anchors():
    out = {}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        for f in p["anchors"]["files"]:
            out.setdefault(os.path.basename(f), []).append(p["id"])
    return out


def sh(cmd, timeout, **env):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **env), start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0].decode(errors="replace")
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -1, "timeout"


PYTEST = ("cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=%s PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -x -c /repo/pyproject.toml --rootdir=/repo "
          "-p no:cacheprovider --timeout=60 -o 'addopts=--doctest-modules' %s")


# docstring examples that fail on the unchanged tree
FAILING = " ".join("--deselect " + x for x in [
    "src/pybgl/dijkstra_shortest_paths.py::pybgl.dijkstra_shortest_paths.dijkstra_shortest_paths",
    "src/pybgl/graphviz_impl.py::pybgl.graphviz_impl.GraphvizStyle",
    "src/pybgl/ipynb.py::pybgl.ipynb.background_template_html",
    "src/pybgl/ipynb.py::pybgl.ipynb.display_svg",
    "src/pybgl/property_map.py::pybgl.property_map.make_assoc_property_map",
    "src/pybgl/shunting_yard_postfix.py::pybgl.shunting_yard_postfix.re_escape"])


def worker(d, i):
    w = os.path.join(d, "w%d" % i)
    jobs = json.load(open(os.path.join(d, "jobs.json")))
    anc = anchors()
    shutil.rmtree(os.path.join(w, "cwd"), ignore_errors=True)
    os.makedirs(os.path.join(w, "cwd"))
    for k, (mod, line, diff, text) in enumerate(jobs):
        try:
            os.mkdir(os.path.join(d, "claim", str(k)))
        except FileExistsError:
            continue
        orig = open(SRC + mod).read()
        res = {"k": k, "mod": mod, "line": line, "diff": diff}
        try:
            with open(SRC + mod, "w") as f:
                f.write(text)
            pyc = os.path.join(w, "pyc")
            shutil.rmtree(pyc, ignore_errors=True)
            rc, _ = sh(PYTEST % ("/repo", pyc, "tests"), 120)
            if rc == 0:
                rc, _ = sh(PYTEST % (os.path.join(w, "cwd"), pyc, FAILING + " /repo/src"), 120)
            if rc != 0:
                res["by"] = "tests"
            else:
                res["by"] = None
                for p in anc.get(mod, []):
                    rc, out = sh("%s/check %s quick" % (HERE, p), 1500, MC_PROCS="2")
                    if rc != 0:
                        res["by"], res["rc"] = p, rc
                        break
        finally:
            with open(SRC + mod, "w") as f:
                f.write(orig)
        with open(os.path.join(d, "results.jsonl"), "a") as f:
            f.write(json.dumps(res) + "\n")


def run(d, mods):
    os.makedirs(os.path.join(d, "claim"), exist_ok=True)
    jobs = []
    for mod in mods or sorted(anchors()):
        for line, diff, text in mutants(open(SRC + mod).read()):
            jobs.append((mod, line, diff, text))
    jobs.sort(key=lambda j: hash((j[0], j[1], j[2])) if not mods else 0)
    json.dump(jobs, open(os.path.join(d, "jobs.json"), "w"))
    print(len(jobs), "mutants")
    ps = []
    for i in range(8):
        w = os.path.join(d, "w%d" % i)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        shutil.copytree("/repo", os.path.join(w, "repo"), symlinks=True)
        ps.append(subprocess.Popen(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && exec python3 %s worker %s %d" % (w, os.path.abspath(__file__), d, i)]))
    for p in ps:
        p.wait()


def show(d):
    by, surv = {}, []
    for line in open(os.path.join(d, "results.jsonl")):
        r = json.loads(line)
        by[r["by"]] = by.get(r["by"], 0) + 1
        if r["by"] is None:
            surv.append(r)
    print(by)
    for r in sorted(surv, key=lambda r: (r["mod"], r["line"])):
        print("=====", r["k"], r["mod"], r["line"])
        print("\n".join(x for x in r["diff"].split("\n") if x[:2] != "@@"))


if __name__ == "__main__":
    if sys.argv[1] == "run":
        run(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "worker":
        worker(sys.argv[2], int(sys.argv[3]))
    else:
        show(sys.argv[2])
