"""refactor.py OUTDIR KIND...: rewrite every module of OUTDIR in place with edits that keep the behaviour.
Used by refactor.sh to check that no check depends on how the code is written.  Kinds:
  impl    the body of each function moves to a helper nested in it        (an extra frame per call)
  method  the body of each method moves to a private method of the class  (an extra frame per call)
  while   for loops become while loops over an explicit iterator
  invert  if A: x else: y  becomes  if not A: y else: x
  temp    returned values and conditions go through a local variable
  comp    comprehensions become calls of list/set/dict on a generator
  rename  local variables get other names
  early   if/else whose body ends with return loses its else
"""
import ast, os, sys, copy

def is_gen(f):
    todo = list(f.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        todo.extend(ast.iter_child_nodes(n))
    return False

def has_super(f): return any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for n in ast.walk(f))

def split_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body

def call_args(a):
    args = [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args]
    if a.vararg: args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
    kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
    if a.kwarg: kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
    return args, kws

def bare(a):
    b = copy.deepcopy(a)
    b.defaults = []; b.kw_defaults = [None] * len(b.kwonlyargs)
    for x in b.posonlyargs + b.args + b.kwonlyargs + [y for y in (b.vararg, b.kwarg) if y]: x.annotation = None
    return b

class Impl(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(f)): return f
        doc, body = split_doc(f.body)
        if not body: return f
        args, kws = call_args(f.args)
        inner = ast.FunctionDef(name="_impl", args=bare(f.args), body=body, decorator_list=[], returns=None)
        f.body = doc + [inner, ast.Return(ast.Call(ast.Name("_impl", ast.Load()), args, kws))]
        return f

class Method(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and f.args.args and f.args.args[0].arg == "self":
                doc, body = split_doc(f.body)
                if body:
                    args, kws = call_args(f.args)
                    name = "_do_%s_%s" % (f.name.strip("_"), c.name)
                    out.append(ast.FunctionDef(name=name, args=bare(f.args), body=body, decorator_list=[], returns=None))
                    f.body = doc + [ast.Return(ast.Call(ast.Attribute(args[0], name, ast.Load()), args[1:], kws))]
            out.append(f)
        c.body = out
        return c

class While(ast.NodeTransformer):
    n = 0
    def visit_For(self, f):
        self.generic_visit(f)
        if f.orelse: return f
        While.n += 1; it = "_it%d" % While.n
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [f.iter], [])),
                ast.While(ast.Constant(True), [
                    ast.Try([ast.Assign([f.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load())], []))],
                            [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])] + f.body, [])]

class Invert(ast.NodeTransformer):
    def visit_If(self, i):
        self.generic_visit(i)
        if not i.orelse: return i
        return ast.If(ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body)
    def visit_IfExp(self, i):
        self.generic_visit(i)
        return ast.IfExp(ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body)

class Temp(ast.NodeTransformer):
    def visit_Return(self, r):
        if r.value is None: return r
        return [ast.Assign([ast.Name("_ret", ast.Store())], r.value), ast.Return(ast.Name("_ret", ast.Load()))]
    def visit_If(self, i):
        self.generic_visit(i)
        return [ast.Assign([ast.Name("_cond", ast.Store())], i.test), ast.If(ast.Name("_cond", ast.Load()), i.body, i.orelse)]

class Comp(ast.NodeTransformer):
    def call(self, name, elt, gens): return ast.Call(ast.Name(name, ast.Load()), [ast.GeneratorExp(elt, gens)], [])
    def visit_ListComp(self, c): self.generic_visit(c); return self.call("list", c.elt, c.generators)
    def visit_SetComp(self, c): self.generic_visit(c); return self.call("set", c.elt, c.generators)
    def visit_DictComp(self, c): self.generic_visit(c); return self.call("dict", ast.Tuple([c.key, c.value], ast.Load()), c.generators)

class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        if any(isinstance(n, (ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda, ast.ClassDef)) for b in f.body for n in ast.walk(b)): return f
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval", "exec") for n in ast.walk(f)): return f
        if any(isinstance(n, (ast.Import, ast.ImportFrom)) for n in ast.walk(f)): return f
        loc = {n.id for b in f.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        loc |= {n.name for b in f.body for n in ast.walk(b) if isinstance(n, ast.ExceptHandler) and n.name}
        for b in f.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id in loc: n.id += "_loc"
                if isinstance(n, ast.ExceptHandler) and n.name: n.name += "_loc"
        return f

class Early(ast.NodeTransformer):
    def block(self, body):
        out = []
        for s in body:
            self.generic_visit(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                o, s.orelse = s.orelse, []
                out.append(s); out.extend(o)
            else: out.append(s)
        return out
    def generic_visit(self, n):
        for fld in ("body", "orelse", "finalbody"):
            v = getattr(n, fld, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt): setattr(n, fld, self.block(v))
        for h in getattr(n, "handlers", []): self.generic_visit(h)
        return n
    visit = generic_visit

KINDS = dict(impl=Impl, method=Method, **{"while": While}, invert=Invert, temp=Temp, comp=Comp, rename=Rename, early=Early)

if __name__ == "__main__":
    for mod in sorted(os.listdir(sys.argv[1])):
        if not mod.endswith(".py") or mod == "__init__.py": continue
        path = os.path.join(sys.argv[1], mod)
        t = ast.parse(open(path).read())
        for k in sys.argv[2:]:
            t = KINDS[k]().visit(t); ast.fix_missing_locations(t)
        open(path, "w").write(ast.unparse(t) + "\n")
