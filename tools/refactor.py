"""Behaviour-preserving rewrites of every source file of a scratch copy: python3 tools/refactor.py COPY [extract] [rename] [flip] [temp]

extract: the body of every function moves to a helper; rename: local names change; flip: if/else branches swap under a negated
condition; temp: returned expressions and call arguments go through a temporary name. The checks must stay quiet on the result.
"""
import ast, builtins, glob, sys


def fn_nodes(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def own(fn):
    """Nodes of a function without those of nested functions, lambdas and classes."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))


def rename(tree):
    for fn in fn_nodes(tree):
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn):
            continue
        args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        loc |= {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id += "_v"
            if isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name += "_v"


def flip(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


class Temp(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_out", ast.Store())], n.value), ast.Return(ast.Name("result_out", ast.Load()))]

    def visit_Lambda(self, n):
        return n


def extract(tree):
    def do(body, cls):
        out = []
        for n in body:
            if isinstance(n, ast.ClassDef):
                n.body = do(n.body, n)
            if isinstance(n, ast.FunctionDef) and len(n.body) > 2 and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(n)) \
                    and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(n)) and not n.args.vararg and not n.args.kwarg \
                    and all(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list):
                static = bool(n.decorator_list)
                names = [a.arg for a in n.args.posonlyargs + n.args.args]
                kws = [a.arg for a in n.args.kwonlyargs]
                h = ast.FunctionDef(name=f"_do_{n.name.strip('_')}", args=ast.arguments([], [ast.arg(x) for x in names], None, [ast.arg(x) for x in kws], [None] * len(kws), None, []),
                                    body=n.body, decorator_list=list(n.decorator_list), type_params=[])
                if cls is None:
                    f, pos = ast.Name(h.name, ast.Load()), names
                elif static:
                    f, pos = ast.Attribute(ast.Name(cls.name, ast.Load()), h.name, ast.Load()), names
                else:
                    f, pos = ast.Attribute(ast.Name(names[0], ast.Load()), h.name, ast.Load()), names[1:]
                doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
                n.body = doc + [ast.Return(ast.Call(f, [ast.Name(x, ast.Load()) for x in pos], [ast.keyword(x, ast.Name(x, ast.Load())) for x in kws]))]
                out.append(h)
            out.append(n)
        return out
    tree.body = do(tree.body, None)


def main():
    root, how = sys.argv[1], sys.argv[2:]
    for f in sorted(glob.glob(root + "/esat/**/*.py", recursive=True) + glob.glob(root + "/eval/*.py")):
        tree = ast.parse(open(f).read())
        if not tree.body:
            continue
        if "rename" in how: rename(tree)
        if "flip" in how: flip(tree)
        if "temp" in how: tree = Temp().visit(tree)
        if "extract" in how: extract(tree)
        open(f, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")


main()
