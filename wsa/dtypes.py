"""Inference of the number type (int / float) of terms; None when it is not certain."""
from . import terms as tm
from .terms import T, const, mk

INTS = set()  # base names of the symbols which stand for integers (empty: number types are not followed)

FLOAT_CALLS = {
    "numpy.linalg.norm", "numpy.linalg.inv", "numpy.linalg.det", "numpy.linalg.solve", "numpy.sqrt", "numpy.cos", "numpy.sin", "numpy.tan", "numpy.arccos",
    "numpy.arcsin", "numpy.arctan", "numpy.arctan2", "numpy.exp", "numpy.log", "numpy.mean", "numpy.divide", "numpy.double", "numpy.degrees",
    "numpy.radians", "math.sqrt", "math.cos", "math.sin", "math.tan", "math.acos", "math.asin", "math.atan", "math.atan2", "math.degrees", "math.radians",
    "builtins.float", "numpy.average",
}
SAME_CALLS = {
    "numpy.array", "numpy.asarray", "numpy.copy", "numpy.dot", "numpy.matmul", "numpy.cross", "numpy.sum", "numpy.add", "numpy.subtract", "numpy.multiply",
    "numpy.abs", "numpy.absolute", "builtins.abs", "numpy.transpose", "numpy.min", "numpy.max", "numpy.amin", "numpy.amax", "builtins.min", "builtins.max",
    "numpy.minimum", "numpy.maximum", "numpy.concatenate", "numpy.vstack", "numpy.negative", "numpy.diag", "numpy.prod", "numpy.inner", "numpy.clip",
}


def join(ds):
    ds = list(ds)
    if "float" in ds:
        return "float"
    return "int" if ds and all(d == "int" for d in ds) else None


def dtype(t, ints, memo=None):
    """ints: base names of the symbols which stand for integers."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return "int" if isinstance(t, (int, bool)) else "float" if isinstance(t, float) else None
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = None
    memo[t.id] = d = _dtype(t, ints, memo)
    return d


def _dtype(t, ints, memo):
    a = t.args
    go = lambda x: dtype(x, ints, memo)
    if t.op == "k":
        return go(a[1])
    if t.op == "sym":
        s = a[1][0] if isinstance(a[1], tuple) else a[1]
        if a[0].split("[")[0] in ints:
            return "int"
        return "float" if s in ("float", "arr") else "int" if s == "int" else None
    if t.op == "arr":
        return join(go(x) for x in a[1:]) if len(a) > 1 else None
    if t.op in ("list", "tuple"):
        return join(go(x) for x in a)
    if t.op == "bin":
        x, y = go(a[1]), go(a[2])
        if a[0] == "/":
            return "float" if x and y else None
        if a[0] == "**" and x == y == "int":
            return None
        return join((x, y))
    if t.op in ("T", "getitem", "setitem", "un"):
        return go(a[1] if t.op == "un" else a[0])
    if t.op == "ite":
        x, y = go(a[1]), go(a[2])
        return x if x == y else None
    if t.op == "call":
        if a[0] in FLOAT_CALLS:
            return "float"
        if a[0] == "builtins.int":
            return "int"
        kw = dict(a[2])
        if "dtype" in kw:
            k = kw["dtype"]
            k = k.args[1] if tm.is_k(k) else None
            return k if k in ("int", "float") else None
        if a[0] in SAME_CALLS:
            return join(go(x) for x in a[1])
    return None


def as_float(t, ints):
    """The same numbers converted to floats."""
    if dtype(t, ints) != "int":
        return t
    s = tm.shape(t)
    if s == ():
        return mk("call", "numpy.double", (t,), ())
    e = tm.expand(t)
    if e is None:
        return t
    return tm.arr(s, [const(float(x.args[1])) if tm.is_k(x) else mk("call", "numpy.double", (x,), ()) for x in e.args[1:]])
