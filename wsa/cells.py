"""Variables which nested functions rebind (nonlocal) become lists of one element, which live on the heap."""
import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def own(f):
    """Nodes of a function without those of the functions nested in it (which are yielded themselves)."""
    todo = list(f.body) if isinstance(f.body, list) else [f.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FUNCS):
            todo += list(ast.iter_child_nodes(n))


def nonlocals(f):
    """Names rebound by nested functions of f and bound in f itself."""
    out = set()
    for n in own(f):
        if isinstance(n, FUNCS):
            inner = {x for m in own(n) if isinstance(m, ast.Nonlocal) for x in m.names}
            out |= inner | (nonlocals(n) - bound(n))
    return out


def params(f):
    a = f.args
    return {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [p for p in (a.vararg, a.kwarg) if p]}


def bound(f):
    """Local names of a function."""
    out = params(f)
    skip = set()
    for n in own(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            skip |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
    return out - skip


class Cells(ast.NodeTransformer):
    def __init__(self, names):
        self.names = set(names)

    def visit_Name(self, n):
        if n.id not in self.names:
            return n
        return ast.copy_location(ast.Subscript(ast.copy_location(ast.Name(n.id + "$cell", ast.Load()), n), ast.copy_location(ast.Constant(0), n), n.ctx), n)

    def visit_Nonlocal(self, n):
        rest = [x for x in n.names if x not in self.names]
        return ast.copy_location(ast.Nonlocal(rest) if rest else ast.Pass(), n)

    def _function(self, n):
        declared = {x for m in own(n) if isinstance(m, ast.Nonlocal) for x in m.names}
        hide = (bound(n) - declared) & self.names
        if not hide:
            return self.generic_visit(n)
        inner = Cells(self.names - hide)
        n.body = [inner.visit(x) for x in n.body] if isinstance(n.body, list) else inner.visit(n.body)
        return n

    visit_FunctionDef = visit_Lambda = _function


def rewrite(tree):
    if not any(isinstance(n, ast.Nonlocal) for n in ast.walk(tree)):
        return
    for f in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        names = nonlocals(f) & bound(f)
        if not names:
            continue
        c = Cells(names)
        f.body = [c.visit(x) for x in f.body]
        first = []
        for x in sorted(names):
            v = ast.List([ast.Name(x, ast.Load()) if x in params(f) else ast.Constant(None)], ast.Load())
            first.append(ast.copy_location(ast.Assign([ast.Name(x + "$cell", ast.Store())], v), f.body[0]))
        f.body = [ast.fix_missing_locations(x) for x in first] + f.body
