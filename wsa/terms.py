"""Value graph: hash-consed terms, guards (BDDs) and their algebra.

A term is a node of the value-dependence graph that the abstract interpreter
(interp.py) builds from the source.  Leaves are constants and symbols of the
input domain; inner nodes are operations.  Guards are binary decision diagrams
over boolean terms.  Nothing in here imports or runs code of the analysed
package.
"""
import math
import sys
import time

import numpy as np

sys.setrecursionlimit(20000)

_TABLE = {}
DEADLINE = [None]


class OutOfTime(Exception):
    """Budget of one obligation is exhausted: the obligation is undecided."""

_COUNT = [0]


class T:
    __slots__ = ("op", "args", "id", "loc", "_shape")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


CURRENT_LOC = [None]


def mk(op, *args):
    key = (op,) + args
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _COUNT[0] += 1
        t.id = _COUNT[0]
        t.loc = CURRENT_LOC[0]
        t._shape = 0
        _TABLE[key] = t
    return t


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    if t.op == "k":
        return repr(t.args[1])
    if t.op == "sym":
        return t.args[0]
    if t.op == "bin":
        return f"({show(t.args[1], depth - 1)} {t.args[0]} {show(t.args[2], depth - 1)})"
    if t.op == "cmp":
        return f"{show(t.args[1], depth - 1)} {t.args[0]} {show(t.args[2], depth - 1)}"
    if t.op == "getitem":
        return f"{show(t.args[0], depth - 1)}[{', '.join(show(i, depth - 1) for i in t.args[1])}]"
    if t.op == "call":
        return f"{t.args[0]}({', '.join(show(a, depth - 1) for a in t.args[1])})"
    if t.op == "arr":
        return f"array{t.args[0]}[{', '.join(show(a, depth - 1) for a in t.args[1:])}]"
    return f"{t.op}({', '.join(show(a, depth - 1) for a in t.args)})"


# --------------------------------------------------------------------------- constants
SCALARS = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis))


def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, np.generic):
        v = v.item()
    return mk("k", type(v).__name__, v)


def is_k(t):
    return isinstance(t, T) and t.op == "k"


def sym(name, sort="num"):
    """sort: 'num' | 'int' | 'str' | 'any' | 'bool' | ('arr', shape) | ('list', elem_sort)"""
    return mk("sym", name, sort)


def arr(shape, elems):
    return mk("arr", tuple(shape), *[const(e) for e in elems])


def from_np(v):
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return const(v.item())
        return arr(v.shape, [x.item() if isinstance(x, np.generic) else x for x in v.flatten()])
    return const(v)


def np_const(t):
    """Constant folding: numpy/python value of a constant term or None."""
    if not isinstance(t, T):
        return t if isinstance(t, SCALARS) else None
    if t.op == "k":
        return t.args[1]
    if t.op == "arr" and all(e.op == "k" for e in t.args[1:]):
        try:
            return np.array([e.args[1] for e in t.args[1:]]).reshape(t.args[0])
        except Exception:
            return None
    return None


def is_const(t):
    if not isinstance(t, T):
        return isinstance(t, SCALARS)
    return t.op == "k" or (t.op == "arr" and all(e.op == "k" for e in t.args[1:]))


# --------------------------------------------------------------------------- shapes
SCALAR_FUNCS = {
    "numpy.linalg.det", "numpy.arccos", "numpy.sqrt", "math.sqrt", "math.cos", "math.sin",
    "math.acos", "builtins.abs", "builtins.float", "builtins.int", "builtins.len", "math.tan",
    "builtins.min", "builtins.max", "builtins.round", "math.fabs", "math.atan2", "math.hypot",
    "builtins.str", "builtins.sum", "math.radians", "math.degrees", "math.acos", "math.floor", "math.ceil",
}
SAME_SHAPE = {
    "numpy.abs", "numpy.sign", "numpy.sqrt", "numpy.cos", "numpy.sin", "numpy.arccos", "numpy.round",
    "numpy.clip", "numpy.minimum", "numpy.maximum", "numpy.linalg.inv", "numpy.array", "numpy.asarray",
    "numpy.negative", "numpy.absolute", "numpy.floor", "numpy.deg2rad", "numpy.rad2deg", "numpy.radians", "numpy.degrees",
    "numpy.around", "numpy.copy", "numpy.square", "numpy.power", "numpy.mod", "numpy.remainder", "numpy.where",
    "numpy.linalg.pinv", "numpy.fabs", "numpy.rint", "numpy.trunc", "numpy.double", "numpy.ceil",
    "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.isclose", "numpy.nan_to_num", "numpy.cross",
    "numpy.less", "numpy.greater", "numpy.less_equal", "numpy.greater_equal", "numpy.flip", "numpy.sort", "numpy.float64",
    "numpy.arcsin", "numpy.arctan2", "numpy.tan", "numpy.exp", "numpy.log", "numpy.cumsum",
}


def _bc(a, b):
    if a is None or b is None:
        return None
    if len(a) < len(b):
        a, b = b, a
    b = (1,) * (len(a) - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x == 1:
            out.append(y)
        elif y == 1 or x == y:
            out.append(x)
        else:
            return None
    return tuple(out)


def _mm(a, b):
    if a is None or b is None or not a or not b:
        return None
    if len(a) == 1 and len(b) == 1:
        return ()
    if len(a) == 1:
        return tuple(b[:-2]) + (b[-1],)
    if len(b) == 1:
        return tuple(a[:-1])
    if len(b) == 2:
        return tuple(a[:-1]) + (b[-1],)
    return None


def shape(t):
    if not isinstance(t, T):
        return () if isinstance(t, SCALARS) else None
    if t._shape == 0:
        t._shape = _shape(t)
    return t._shape


def _shape(t):
    op, a = t.op, t.args
    if op == "k":
        return ()
    if op == "sym" or op == "carry":
        s = a[-1]
        if isinstance(s, tuple) and s[0] == "arr":
            return s[1]
        if s in ("num", "int", "float", "str", "bool"):
            return ()
        return None
    if op == "arr":
        return a[0]
    if op == "bin":
        sa, sb = shape(a[1]), shape(a[2])
        if a[0] == "@":
            return _mm(sa, sb)
        return _bc(sa, sb)
    if op in ("un", "round"):
        return shape(a[1])
    if op in ("cmp",):
        if a[0] in ("<", "<=", "==", "!=", ">", ">="):
            return _bc(shape(a[1]), shape(a[2]))
        return ()
    if op in ("fstr", "fmt", "not", "isnone", "mayraise", "isinstance", "truth", "guard"):
        return ()
    if op == "stub":
        if a[0].endswith("[]"):
            return ()
        return shape(a[1]) if len(a) > 1 else None
    if op == "T":
        s = shape(a[0])
        return None if s is None else tuple(reversed(s))
    if op == "getitem":
        s = shape(a[0])
        if s is None:
            return None
        out, pos = [], 0
        for i in a[1]:
            if isinstance(i, tuple) and i[0] == "slice":
                if pos >= len(s):
                    return None
                n = s[pos]
                if isinstance(n, int) and all(x is None or isinstance(x, int) for x in i[1:]):
                    out.append(len(range(*slice(*i[1:]).indices(n))))
                elif i == ("slice", None, None, None):
                    out.append(n)
                else:
                    out.append("?")
                pos += 1
            elif isinstance(i, tuple) and i[0] == "none":
                out.append(1)
            elif isinstance(i, tuple):
                return None
            elif isinstance(i, int) or (isinstance(i, T) and shape(i) == ()):
                pos += 1
            elif isinstance(i, T) and shape(i) is not None and len(shape(i)) == 1:
                out.append("?")
                pos += 1
            else:
                return None
        if pos > len(s):
            return None
        return tuple(out) + tuple(s[pos:])
    if op == "ite":
        s1, s2 = shape(a[1]), shape(a[2])
        return s1 if s1 == s2 else None
    if op == "setitem":
        return shape(a[0])
    if op == "mcall" and a[1] == "transpose":
        s0 = shape(a[0])
        ax = [np_const(x) for x in (a[2][0].args if len(a[2]) == 1 and a[2][0].op in ("tuple", "list") else a[2])]
        if s0 is None:
            return None
        if not ax:
            return tuple(reversed(s0))
        return tuple(s0[i] for i in ax) if sorted(x for x in ax if isinstance(x, int)) == list(range(len(s0))) else None
    if op == "call":
        f, args, kw = a[0], a[1], dict(a[2])
        s0 = shape(args[0]) if args else None
        if f == "numpy.reshape" and len(args) == 2 and s0 is not None and all(isinstance(x, int) for x in s0):
            n = np_const(args[1]) if args[1].op != "tuple" else [np_const(x) for x in args[1].args]
            n = [n] if isinstance(n, int) else None if n is None else [int(x) if isinstance(x, (int, np.integer)) else None for x in n]
            if n is not None and None not in n and n.count(-1) <= 1:
                tot, rest = int(np.prod(s0, dtype=int)), int(np.prod([x for x in n if x != -1], dtype=int))
                if -1 in n:
                    n[n.index(-1)] = tot // rest if rest else 0
                if int(np.prod(n, dtype=int)) == tot:
                    return tuple(n)
            return None
        if f in ("numpy.dot", "numpy.matmul"):
            return _mm(shape(args[0]), shape(args[1]))
        if f in ("numpy.inner", "numpy.vdot"):
            return ()
        if f == "numpy.transpose" and len(args) == 1:
            return None if s0 is None else tuple(reversed(s0))
        if f == "numpy.linalg.solve":
            return shape(args[1])
        if f == "numpy.diag" and s0 is not None:
            return (s0[0], s0[0]) if len(s0) == 1 else (s0[0],)
        if f in ("numpy.linalg.norm", "numpy.sum", "numpy.min", "numpy.max", "numpy.mean", "numpy.prod",
                 "numpy.any", "numpy.all", "numpy.amin", "numpy.amax", "numpy.argmin", "numpy.argmax", "numpy.ptp"):
            ax = kw.get("axis")
            if ax is None and f != "numpy.linalg.norm" and len(args) > 1:
                ax = args[1]
            if ax is None or (is_k(ax) and ax.args[1] is None):
                return ()
            if s0 is not None and is_k(ax) and isinstance(ax.args[1], int):
                n = ax.args[1] % len(s0)
                return tuple(s0[:n]) + tuple(s0[n + 1:])
            return None
        if f in ("numpy.minimum", "numpy.maximum", "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide",
                 "numpy.isclose", "numpy.power", "numpy.mod", "numpy.clip", "numpy.cross", "numpy.less", "numpy.greater"):
            return _bc(shape(args[0]), shape(args[1]))
        if f == "numpy.where" and len(args) == 3:
            return _bc(shape(args[0]), _bc(shape(args[1]), shape(args[2])))
        if f == "numpy.linspace" and len(args) >= 3:
            n = np_const(args[2])
            s1 = _bc(shape(args[0]), shape(args[1]))
            if s1 is None:
                return None
            return ((n if isinstance(n, int) else "n" + str(args[2].id)),) + s1
        if f == "numpy.concatenate" and args and args[0].op in ("tuple", "list"):
            ss = [shape(x) for x in args[0].args]
            if any(s is None for s in ss) or "axis" in kw:
                return None
            n = 0
            for s in ss:
                n = n + s[0] if isinstance(n, int) and isinstance(s[0], int) else "?"
            return (n,) + tuple(ss[0][1:])
        if f == "numpy.einsum":
            return None
        if f in SCALAR_FUNCS and (s0 is None or s0 == () or f in ("numpy.linalg.det", "builtins.len", "builtins.min", "builtins.max")):
            return ()
        if f in SAME_SHAPE:
            return s0
        return None
    if op == "np_m":  # method lowered
        return None
    return None


# --------------------------------------------------------------------------- algebra
PYBIN = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "@": lambda a, b: a @ b,
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
    "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
}


def binop(op, a, b):
    """Build (and fold) a binary operation on terms."""
    a, b = const(a), const(b)
    if is_const(a) and is_const(b):
        x, y = np_const(a), np_const(b)
        if x is not None and y is not None:
            return from_np(PYBIN[op](x, y))
    # elementwise on small literal arrays so that table entries stay scalars
    if op in "+-*/" and len(op) == 1:
        if a.op == "arr" and b.op == "arr" and a.args[0] == b.args[0]:
            return arr(a.args[0], [binop(op, x, y) for x, y in zip(a.args[1:], b.args[1:])])
        if a.op == "arr" and shape(b) == ():
            return arr(a.args[0], [binop(op, x, b) for x in a.args[1:]])
        if b.op == "arr" and shape(a) == ():
            return arr(b.args[0], [binop(op, a, x) for x in b.args[1:]])
    return mk("bin", op, a, b)


def unop(op, a):
    a = const(a)
    if is_const(a):
        x = np_const(a)
        return from_np({"-": lambda v: -v, "+": lambda v: +v, "~": lambda v: ~v}[op](x))
    if op == "+":
        return a
    if op == "-" and a.op == "arr":
        return arr(a.args[0], [unop("-", x) for x in a.args[1:]])
    return mk("un", op, a)


def transpose(a):
    if a.op == "T":
        return a.args[0]
    if a.op == "arr" and len(a.args[0]) == 2:
        n, m = a.args[0]
        e = a.args[1:]
        return arr((m, n), [e[i * m + j] for j in range(m) for i in range(n)])
    s = shape(a)
    if s is not None and len(s) < 2:
        return a
    return mk("T", a)


def getitem(a, idx):
    """idx: tuple of ints / terms / ('slice',..) / ('none',)"""
    idx = tuple(np_const(i) if is_k(i) and not isinstance(i.args[1], (str, bytes)) and i.args[1] is not None else i for i in idx)
    s = shape(a)
    if s is not None:
        idx = tuple(i + s[n] if isinstance(i, int) and i < 0 and n < len(s) and isinstance(s[n], int) else i
                    for n, i in enumerate(idx))
    if len(idx) == 1 and isinstance(idx[0], T) and idx[0].op == "arr" and is_const(idx[0]) and s and isinstance(s[0], int):
        m = np_const(idx[0])
        if m is not None and m.ndim == 1 and (m.dtype == bool and len(m) == s[0] or m.dtype.kind in "iu" and (np.abs(m) < s[0] + (m < 0)).all()):
            ids = np.nonzero(m)[0] if m.dtype == bool else m % s[0]
            e = expand(a)
            if e is not None:
                w = int(np.prod(s[1:])) if len(s) > 1 else 1
                els = []
                for k in ids:
                    els += e.args[1 + int(k) * w: 1 + (int(k) + 1) * w]
                return arr((len(ids),) + tuple(s[1:]), els)
    if a.op == "arr":
        if all(isinstance(i, int) or (isinstance(i, tuple) and i[0] in ("slice", "none")) for i in idx):
            ids = np.arange(len(a.args) - 1).reshape(a.args[0])
            r = ids[tuple(slice(*i[1:]) if isinstance(i, tuple) and i[0] == "slice" else (None if isinstance(i, tuple) else i) for i in idx)]
            if isinstance(r, np.ndarray):
                return arr(r.shape, [a.args[1 + int(k)] for k in r.flatten()])
            return a.args[1 + int(r)]
    if a.op == "getitem" and all(isinstance(i, (int, T)) for i in a.args[1]) and all(
        not isinstance(i, T) or shape(i) == () for i in a.args[1]
    ):
        return getitem(a.args[0], a.args[1] + idx)
    if a.op == "bin" and a.args[0] == "@" and len(idx) == 1 and isinstance(idx[0], int):
        sa = shape(a.args[1])
        if sa is not None and len(sa) == 2:
            return binop("@", getitem(a.args[1], idx), a.args[2])
    if a.op == "setitem" and len(idx) == len(a.args[1]) and all(isinstance(i, int) for i in idx + a.args[1]):
        return a.args[2] if idx == a.args[1] else getitem(a.args[0], idx)
    return mk("getitem", a, idx)


def expand(a):
    s = shape(a)
    if a.op == "arr":
        return a
    if s is None or not all(isinstance(n, int) for n in s):
        return None
    return arr(s, [getitem(a, i) for i in np.ndindex(*s)])


def setitem(a, idx, v):
    idx = tuple(np_const(i) if is_k(i) else i for i in idx)
    s = shape(a)
    if s is not None and all(isinstance(n, int) for n in s) and len(s) >= 1 and all(isinstance(i, int) for i in idx):
        e = expand(a)
        vs = shape(v)
        sub = s[len(idx):]
        if e is not None and (sub == () or vs == sub or vs == ()):
            els = list(e.args[1:])
            ids = np.arange(len(els)).reshape(s)[idx]
            if sub == ():
                els[int(ids)] = v
            else:
                for n, k in enumerate(np.ndindex(*sub)):
                    els[int(ids[k])] = v if vs == () else getitem(v, k)
            return arr(s, els)
    return mk("setitem", a, idx, v)


# --------------------------------------------------------------------------- BDD
class _BDD:
    def __init__(self):
        self.nodes = [None, None]  # 0 False, 1 True
        self.table = {}
        self.var_of = {}
        self.vars = []
        self.memo = {}

    def var(self, term):
        n = self.var_of.get(term)
        if n is None:
            n = len(self.vars)
            self.vars.append(term)
            self.var_of[term] = n
        return self.node(n, 0, 1)

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.table.get(k)
        if r is None:
            r = len(self.nodes)
            if r & 0x3FF == 0 and DEADLINE[0] is not None and time.process_time() > DEADLINE[0]:
                raise OutOfTime("guards")
            self.nodes.append(k)
            self.table[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in (f, g, h) if x > 1)

        def cof(x, b):
            if x > 1 and self.nodes[x][0] == v:
                return self.nodes[x][2 if b else 1]
            return x

        r = self.node(v, self.ite(cof(f, 0), cof(g, 0), cof(h, 0)), self.ite(cof(f, 1), cof(g, 1), cof(h, 1)))
        self.memo[k] = r
        return r

    def restrict(self, f, care):
        """Coudert-Madre restrict: simplify f on the care set."""
        if care == 1 or f <= 1:
            return f
        if care == 0:
            return 0
        k = ("r", f, care)
        r = self.memo.get(k)
        if r is not None:
            return r
        fv, cv = self.nodes[f][0], self.nodes[care][0]
        if cv < fv:
            r = self.restrict(f, self.ite(self.nodes[care][1], 1, self.nodes[care][2]))
        elif fv < cv:
            r = self.node(fv, self.restrict(self.nodes[f][1], care), self.restrict(self.nodes[f][2], care))
        else:
            lo, hi = self.nodes[care][1], self.nodes[care][2]
            if lo == 0:
                r = self.restrict(self.nodes[f][2], hi)
            elif hi == 0:
                r = self.restrict(self.nodes[f][1], lo)
            else:
                r = self.node(fv, self.restrict(self.nodes[f][1], lo), self.restrict(self.nodes[f][2], hi))
        self.memo[k] = r
        return r


B = _BDD()
TRUE, FALSE = 1, 0


def AND(*xs):
    r = 1
    for x in xs:
        r = B.ite(r, x, 0)
    return r


def OR(*xs):
    r = 0
    for x in xs:
        r = B.ite(r, 1, x)
    return r


def NOT(x):
    return B.ite(x, 0, 1)


def atom(t):
    return B.var(t)


def atoms_of(f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if f > 1 and f not in seen:
        seen.add(f)
        v, lo, hi = B.nodes[f]
        acc.add(B.vars[v])
        atoms_of(lo, acc, seen)
        atoms_of(hi, acc, seen)
    return acc


def show_guard(f, limit=4):
    """Human readable: one satisfying cube."""
    if f == 1:
        return "always"
    if f == 0:
        return "never"
    out = []
    while f > 1:
        v, lo, hi = B.nodes[f]
        if hi != 0:
            out.append(show(B.vars[v], 4))
            f = hi
        else:
            out.append("not " + show(B.vars[v], 4))
            f = lo
    return " and ".join(out[:limit]) + (" …" if len(out) > limit else "")


# --------------------------------------------------------------------------- numeric interpretation of closed-form terms
class Unevaluable(Exception):
    pass


class DomainError(Unevaluable):
    """A function of math called clearly outside of its domain: it raises ValueError."""

    def __init__(self, name, arg, loc):
        super().__init__(f"{name}({arg!r}): math domain error")
        self.loc = loc


def _domain(name, args):
    """The arguments are outside of the domain by more than rounding can explain."""
    try:
        x = float(args[0])
    except Exception:
        return False
    if name in ("math.acos", "math.asin"):
        return abs(x) > 1 + 1e-6
    if name == "math.sqrt":
        return x < -1e-6
    return name in ("math.log", "math.log10", "math.log2") and x < -1e-6


def _resolve(name):
    import numpy  # noqa

    mods = {"numpy": np, "math": math}
    parts = name.split(".")
    if parts[0] in mods:
        o = mods[parts[0]]
        for p in parts[1:]:
            o = getattr(o, p)
        return o
    if parts[0] == "builtins" and parts[1] in (
        "abs", "min", "max", "float", "int", "round", "len", "sum", "sorted", "bool", "pow", "str", "list", "tuple", "divmod", "any", "all",
    ):
        return __builtins__[parts[1]] if isinstance(__builtins__, dict) else getattr(__builtins__, parts[1])
    raise Unevaluable(name)


def evaluate(t, env, memo=None):
    """Random interpretation: value of a closed-form term at one assignment of its symbols."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r[0]
    chain = []
    while isinstance(t, T) and t.op == "ite" and t.id not in memo and t not in env:
        chain.append(t.id)
        try:
            t = t.args[1] if bdd_eval(t.args[0], env, memo) else t.args[2]
        except Unevaluable:
            raise
        except Exception as e:
            raise Unevaluable(f"ite: {type(e).__name__}: {e}")
    if not isinstance(t, T):
        v = t
    elif t.id in memo:
        v = memo[t.id][0]
    else:
        v = _evaluate(t, env, memo)
        memo[t.id] = (v,)
    for i in chain:
        memo[i] = (v,)
    return v


def _class(name):
    """Class of the standard library or numpy by its dotted name."""
    if not isinstance(name, str):
        return None
    m, _, n = name.rpartition(".")
    if m == "builtins":
        c = getattr(__import__("builtins"), n, None)
    elif m == "numpy":
        c = getattr(np, n, None)
    elif m == "numbers":
        c = getattr(__import__("numbers"), n, None)
    elif m == "collections.abc":
        c = getattr(__import__("collections.abc").abc, n, None)
    else:
        c = None
    return c if isinstance(c, type) else None


def _evaluate(t, env, memo):
    op, a = t.op, t.args
    ev = lambda x: evaluate(x, env, memo)
    if t in env:
        return env[t]
    if op == "k":
        return a[1]
    if op == "sym":
        if a[0] in env:
            return env[a[0]]
        raise Unevaluable(a[0])
    try:
        if op == "arr":
            return np.array([ev(x) for x in a[1:]]).reshape(a[0])
        if op == "bin":
            return PYBIN[a[0]](ev(a[1]), ev(a[2]))
        if op == "un":
            return {"-": lambda v: -v, "~": lambda v: ~v}[a[0]](ev(a[1]))
        if op == "cmp":
            x, y = ev(a[1]), ev(a[2])
            return {"<": lambda: x < y, "==": lambda: x == y, "<=": lambda: x <= y, "!=": lambda: x != y,
                    ">": lambda: x > y, ">=": lambda: x >= y,
                    "in": lambda: x in y, "is": lambda: x is y}[a[0]]()
        if op == "T":
            return np.asarray(ev(a[0])).T
        if op == "getitem":
            idx = []
            for i in a[1]:
                if isinstance(i, tuple) and i[0] == "slice":
                    idx.append(slice(*[ev(x) for x in i[1:]]))
                elif isinstance(i, tuple) and i[0] == "none":
                    idx.append(None)
                else:
                    idx.append(ev(i))
            b = ev(a[0])
            if isinstance(b, (list, tuple, str, dict)):
                for i in idx:
                    b = b[i]
                return b
            return b[tuple(idx)]
        if op == "setitem":
            b = np.array(ev(a[0]), dtype=float)
            b[tuple(slice(*[ev(x) for x in i[1:]]) if isinstance(i, tuple) and i[0] == "slice" else None if isinstance(i, tuple) and i[0] == "none" else ev(i) for i in a[1])] = ev(a[2])
            return b
        if op == "list":
            return [ev(x) for x in a]
        if op == "tuple":
            return tuple(ev(x) for x in a)
        if op == "dict":
            return {ev(k): ev(v) for k, v in a}
        if op == "set":
            return {ev(x) for x in a}
        if op == "inst":
            return {k: ev(v) for k, v in a[1:]}
        if op == "append":
            return list(ev(a[0])) + [ev(a[1])]
        if op == "concat":
            return list(ev(a[0])) + list(ev(a[1]))
        if op == "map":
            out = []
            for x in ev(a[0]):
                e2 = dict(env)
                e2[a[1]] = x
                out.append(evaluate(a[2], e2, {}))
            return out
        if op == "stub":
            f = env.get(("stub", a[0]))
            if f is None:
                raise Unevaluable("stub " + a[0])
            return f(*[ev(x) for x in a[1:]])
        if op == "ite":
            return ev(a[1]) if bdd_eval(a[0], env, memo) else ev(a[2])
        if op == "guard":
            return bdd_eval(a[0], env, memo)
        if op == "not":
            return not ev(a[0])
        if op == "truth":
            return bool(ev(a[0]))
        if op == "mayraise" and len(a) > 5:
            for x in a[5]:     # operations which can be carried out do not raise
                if x.op not in ("call", "mcall", "bin", "getitem"):
                    raise Unevaluable("mayraise")
                evaluate(x, env, memo)
            return False
        if op == "isnone":
            return ev(a[0]) is None
        if op == "isinstance":
            c = _class(a[1])
            if c is None:
                raise Unevaluable(f"isinstance of {a[1]}")
            return isinstance(ev(a[0]), c)
        if op == "call":
            f = _resolve(a[0])
            args = [ev(x) for x in a[1]]
            if _domain(a[0], args):
                raise DomainError(a[0], args[0], t.loc)
            return f(*args, **{k: ev(v) for k, v in a[2]})
        if op == "mcall":
            o = ev(a[0])
            if isinstance(o, (np.ndarray, np.generic, str, float, int, list)):
                if isinstance(o, (float, int)):
                    o = np.float64(o)
                return getattr(o, a[1])(*[ev(x) for x in a[2]], **{k: ev(v) for k, v in a[3]})
        if op == "attr":
            o = ev(a[0])
            if isinstance(o, np.ndarray):
                return getattr(o, a[1])
        if op == "fmt":
            if isinstance(a[0], T) and a[0].op == "fn" and a[0].args[0].split(".")[-1][:1] != "<" and not a[1]:
                return f"<class '{a[0].args[0].removeprefix('builtins.')}'>"
            x = ev(a[0])
            if a[2]:
                x = {"r": repr, "s": str, "a": ascii}[a[2]](x)
            return format(x, ev(a[1]) if isinstance(a[1], T) else a[1])
        if op == "fstr":
            return "".join(str(ev(x)) for x in a)
    except Unevaluable:
        raise
    except Exception as e:  # e.g. singular matrix at this point
        raise Unevaluable(f"{op}: {type(e).__name__}: {e}")
    raise Unevaluable(op)


def bdd_eval(f, env, memo=None):
    memo = {} if memo is None else memo
    while f > 1:
        v, lo, hi = B.nodes[f]
        f = hi if bool(np.all(evaluate(B.vars[v], env, memo))) else lo
    return bool(f)


def free_syms(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sym":
            acc.add(x)
        elif x.op in ("ite", "guard"):
            for at in atoms_of(x.args[0]):
                st.append(at)
            st.extend(x.args[1:])
        else:
            st.extend(x.args)
    return acc


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op in ("ite", "guard"):
            st.extend(atoms_of(x.args[0]))
            st.extend(x.args[1:])
        else:
            st.extend(x.args)
