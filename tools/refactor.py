"""Behaviour-preserving rewrites of a copy of the repository, to test that the checks stay quiet.

    refactor.py REPO_COPY SEED PROBABILITY FILES...

Each rewrite is applied at random sites of the given files: expressions swapped round
or spelled with other numpy calls, results and arguments named, branches inverted,
comprehensions written as loops, bodies moved to helpers, keywords reordered.
Never run on /repo itself.
"""
import ast
import random
import sys

rnd = random.Random(int(sys.argv[2]))
P = float(sys.argv[3])
COUNT = {}


def go(name, p=None):
    ok = rnd.random() < (P if p is None else p)
    if ok:
        COUNT[name] = COUNT.get(name, 0) + 1
    return ok


N = [0]


def fresh(base="tmp"):
    N[0] += 1
    return f"{base}_{N[0]}_"


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def store(n):
    return ast.Name(id=n, ctx=ast.Store())


def npc(f, *args, **kw):
    return ast.Call(func=ast.Attribute(value=name("np"), attr=f, ctx=ast.Load()), args=list(args), keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()])


def is_np(c, f):
    return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "np" and c.func.attr == f


class Expr(ast.NodeTransformer):
    def __init__(self, torch, pandas):
        self.torch = torch
        self.pandas = pandas

    def visit_JoinedStr(self, n):
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and go("commute"):
            n.left, n.right = n.right, n.left
        elif isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and go("square"):
            if isinstance(n.left, (ast.Name, ast.Attribute)):
                return ast.BinOp(n.left, ast.Mult(), n.left)
            if not self.torch:
                return npc("square", n.left)
        elif isinstance(n.op, ast.Sub) and go("neg", P * 0.3):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right)) if not isinstance(n.left, ast.Constant) or True else n
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and not isinstance(n.comparators[0], (ast.List, ast.Tuple)) and type(n.ops[0]) in flip and go("flip"):
            return ast.Compare(n.comparators[0], [flip[type(n.ops[0])]()], [n.left])
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if go("ifexp"):
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords) and go("kwargs"):
            rnd.shuffle(n.keywords)
        f = n.func
        if not self.torch and not self.pandas:
            if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "pd", "self", "torch", "random_")) and f.attr in ("mean", "sum", "max", "min", "argmax") and go("method"):
                return npc(f.attr, f.value, *n.args, **{k.arg: k.value for k in n.keywords})
            if is_np(n, "mean") and len(n.args) == 1 and not n.keywords and go("meansum"):
                if isinstance(n.args[0], ast.Name):
                    return ast.BinOp(npc("sum", n.args[0]), ast.Div(), npc("size", n.args[0]))
            if (is_np(n, "zeros") or is_np(n, "ones")) and len(n.args) == 1 and not n.keywords and go("full"):
                return npc("full", n.args[0], ast.Constant(0.0 if f.attr == "zeros" else 1.0))
            if is_np(n, "clip") and len(n.args) == 3 and not n.keywords and not any(isinstance(a, ast.Constant) and a.value is None for a in n.args) and go("clip"):
                a, b, c = n.args
                return npc("minimum", npc("maximum", a, b), c)
            if is_np(n, "arange") and len(n.args) == 1 and not n.keywords and go("arange"):
                return npc("array", ast.Call(name("list"), [ast.Call(name("range"), n.args, [])], []))
            if is_np(n, "expand_dims") and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value == 1 and go("newaxis"):
                return ast.Subscript(n.args[0], ast.Tuple([ast.Slice(), ast.Constant(None)], ast.Load()), ast.Load())
            if is_np(n, "vstack") and len(n.args) == 1 and not n.keywords and False:
                return n
            if is_np(n, "array") and False:
                return n
        return n


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


def terminal(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Stmt(ast.NodeTransformer):
    """Statement lists."""

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_block(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n

    def visit_For(self, n):
        self.generic_block(n)
        it = n.iter
        if (
            isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1
            and isinstance(n.target, ast.Name) and not n.orelse and not has(ast.Module(n.body, []), ast.Continue)
            and go("while")
        ):
            i, m = fresh("i"), fresh("n")
            return [
                ast.Assign([store(m)], it.args[0]), ast.Assign([store(i)], ast.Constant(0)),
                ast.While(ast.Compare(name(i), [ast.Lt()], [name(m)]), [ast.Assign([n.target], name(i))] + n.body + [ast.AugAssign(store(i), ast.Add(), ast.Constant(1))], []),
            ]
        return n

    def visit_While(self, n):
        return self.generic_block(n)

    def visit_With(self, n):
        return self.generic_block(n)

    def visit_Try(self, n):
        return self.generic_block(n)

    def visit_If(self, n):
        self.generic_block(n)
        if n.orelse and go("invert"):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and len(n.test.values) == 2 and go("nest"):
            return ast.If(n.test.values[0], [ast.If(n.test.values[1], n.body, [])], [])
        if not n.orelse and go("cond"):
            c = fresh("cond")
            return [ast.Assign([store(c)], n.test), ast.If(name(c), n.body, [])]
        return n

    def hoist(self, call):
        pre = []
        if not isinstance(call, ast.Call) or (isinstance(call.func, ast.Name) and call.func.id in ("super", "next", "locals")):
            return pre
        if not isinstance(call.func, (ast.Name, ast.Attribute)) or has(call.func, ast.Call):
            return pre
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                return pre
        for i, a in enumerate(call.args):
            if not isinstance(a, (ast.Name, ast.Constant)):
                v = fresh("arg")
                pre.append(ast.Assign([store(v)], a))
                call.args[i] = name(v)
        for k in call.keywords:
            if k.arg and not isinstance(k.value, (ast.Name, ast.Constant)):
                v = fresh(k.arg)
                pre.append(ast.Assign([store(v)], k.value))
                k.value = name(v)
        return pre

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and go("name result"):
            v = fresh("result")
            pre = self.hoist(n.value) if go("hoist") else []
            return pre + [ast.Assign([store(v)], n.value), ast.Return(name(v))]
        return n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and go("listcomp"):
                t, g = n.targets[0].id, v.generators[0]
                acc = fresh("acc")
                body = ast.Expr(ast.Call(ast.Attribute(name(acc), "append", ast.Load()), [v.elt], []))
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                return [ast.Assign([store(acc)], ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], []), ast.Assign([store(t)], name(acc))]
            if isinstance(v, ast.DictComp) and len(v.generators) == 1 and go("dictcomp"):
                t, g = n.targets[0].id, v.generators[0]
                acc = fresh("acc")
                body = ast.Assign([ast.Subscript(name(acc), v.key, ast.Store())], v.value)
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                return [ast.Assign([store(acc)], ast.Dict([], [])), ast.For(g.target, g.iter, [body], []), ast.Assign([store(t)], name(acc))]
            if isinstance(v, ast.Call) and go("hoist"):
                return self.hoist(v) + [n]
            if isinstance(v, ast.BinOp) and go("split"):
                a, b = fresh("a"), fresh("b")
                return [ast.Assign([store(a)], v.left), ast.Assign([store(b)], v.right), ast.Assign(n.targets, ast.BinOp(name(a), v.op, name(b)))]
        return n

    def visit_AugAssign(self, n):
        return n

    def visit_FunctionDef(self, n):
        if any(isinstance(d, ast.Name) and d.id == "property" for d in n.decorator_list):
            pass
        n.body = self.block(n.body)
        return n

    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                s = self.visit(s)
                a = s.args
                plain = not a.vararg and not a.kwarg and not a.posonlyargs and not has(ast.Module(s.body, []), ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)
                if plain and not s.decorator_list and not (s.name.startswith("__")) and a.args and a.args[0].arg == "self" and len(s.body) > 1 and go("helper", P * 0.4):
                    h = "_" + s.name.lstrip("_") + "_impl"
                    doc = []
                    body = s.body
                    if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                        doc, body = [body[0]], body[1:]
                    ps = [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]
                    inner = ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in ps], None, [], [], None, []), body, [], None, None)
                    inner.type_params = []
                    s.body = doc + [ast.Return(ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(x) for x in ps], []))]
                    out += [s, inner]
                    continue
            elif isinstance(s, ast.ClassDef):
                s = self.visit(s)
            out.append(s)
        n.body = out
        return n


def main():
    repo, files = sys.argv[1].rstrip("/"), sys.argv[4:]
    assert repo != "/repo"
    for f in files:
        p = f"{repo}/{f}"
        src = open(p).read()
        t = ast.parse(src)
        torch = "import torch" in src
        pandas = "pandas" in src
        for i, s in enumerate(t.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s = Expr(torch, pandas).visit(s)
                s = Stmt().visit(s)
                t.body[i] = s
        ast.fix_missing_locations(t)
        out = ast.unparse(t)
        compile(out, p, "exec")
        open(p, "w").write(out + "\n")
    print(COUNT)


main()
