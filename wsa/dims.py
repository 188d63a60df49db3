"""Units-of-measure inference over the value graph.

Every number carries a power of the unit of length (cell vectors 1, reciprocal
vectors -1, volumes 3, relative positions and angles 0).  The inference computes
the power of every term and reports operations that combine different powers:
sums, comparisons, minima, roundings and transcendental functions.  A program
without such operations gives the same answer in every unit of length.
"""
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import T

Z, U = "zero", "unknown"
TINY = 1e-12
ZERO = Fraction(0)

ANGULAR = {"cos", "sin", "tan", "arccos", "arcsin", "arctan", "acos", "asin", "atan", "exp", "log", "log10", "log2", "radians", "degrees", "deg2rad",
           "rad2deg", "cosh", "sinh", "tanh"}
KEEP = {"abs", "absolute", "fabs", "float", "array", "asarray", "copy", "reshape", "transpose", "sort", "sorted", "sum", "mean", "min", "max", "amin", "amax",
        "negative", "norm", "diag", "flip", "ravel", "float64", "double", "nan_to_num", "squeeze", "atleast_1d", "atleast_2d", "cumsum", "diff", "ptp",
        "swapaxes", "roll", "flatten", "tolist", "astype", "item", "median", "unique", "trace", "real", "asanyarray", "ascontiguousarray", "list", "tuple"}
ROUND = {"round", "around", "rint", "floor", "ceil", "trunc", "int", "round_", "fix"}
PAIR = {"minimum", "maximum", "fmin", "fmax", "add", "subtract", "hypot", "less", "greater", "less_equal", "greater_equal", "equal", "not_equal", "mod",
        "remainder", "fmod", "clip", "arctan2", "atan2", "allclose", "isclose", "array_equal", "linspace", "concatenate", "stack", "vstack", "hstack"}


class Dims:
    def __init__(self, syms, stubs=()):
        self.syms = syms          # function: name of symbol -> power or None
        self.stubs = dict(stubs)  # name of stub -> function(dims of args, args)
        self.memo = {}
        self.reports = []         # (term, message)
        self.judged = 0

    # ---- helpers
    def join(self, ds, t=None, what=None):
        """Common power of the operands, U if not known; reports a mismatch."""
        out = Z
        for d in ds:
            d = self.flat(d)
            if d is U:
                out = U if out is Z else out if t is not None and out is not U else U
                continue
            if d is Z:
                continue
            if out is Z:
                out = d
            elif out is not U and out != d:
                if t is not None:
                    self.reports.append((t, f"{what} of quantities in {unit(out)} and in {unit(d)}"))
                return U
        if t is not None:
            self.judged += 1
        return U if any(self.flat(d) is U for d in ds) else out

    def flat(self, d):
        if isinstance(d, np.ndarray):
            s = {x for x in d.flat if x is not Z}
            return Z if not s else (s.pop() if len(s) == 1 else U)
        return d

    def collapse(self, a):
        d = self.flat(a)
        return a if d is U else d

    def binary(self, t, op, x, y):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            sx, sy = tm.shape(t.args[1]), tm.shape(t.args[2])
            if op == "@" or sx is None or sy is None or not all(isinstance(n, int) for n in tuple(sx) + tuple(sy)):
                return self.flat(x) if self.flat(y) in (Z, ZERO) and op == "@" and self.flat(x) is not U else U
            f = lambda d, s: d if isinstance(d, np.ndarray) and d.shape == tuple(s) else np.full(s, self.flat(d), dtype=object)
            try:
                a, b = np.broadcast_arrays(f(x, sx), f(y, sy))
            except ValueError:
                return U
            out = np.empty(a.shape, dtype=object)
            for k in np.ndindex(*a.shape):
                out[k] = self.binary(t, op, a[k], b[k])
            return self.collapse(out) if out.shape else out[()]
        if op in ("+", "-"):
            return self.join([x, y], t, {"+": "sum", "-": "difference"}[op])
        if op in ("%", "//"):
            d = self.join([x, y], t, "remainder or quotient")
            return d if op == "%" else ZERO if d is not U else U
        if x is U or y is U:
            return U
        if op in ("*", "@"):
            return Z if Z in (x, y) else x + y
        if op == "/":
            return Z if x is Z else U if y is Z else x - y
        if op == "**":
            n = tm.np_const(t.args[2])
            if x is Z or x == 0:
                return x
            if isinstance(n, (int, float)) and not isinstance(n, bool):
                return x * Fraction(n).limit_denominator(60)
        return U

    def dim(self, t):
        if not isinstance(t, T):
            return self.const(t)
        # iterative post-order to keep the recursion shallow
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._dim(t)
        return r

    def const(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return U
        if isinstance(v, (int, float)):
            return Z if v == 0 or abs(v) < TINY or v != v or abs(v) == float("inf") else ZERO
        return U

    def _dim(self, t):
        op, a = t.op, t.args
        if op == "k":
            return self.const(a[1])
        if op == "sym":
            d = self.syms(a[0])
            return U if d is None else Fraction(d)
        if op == "arr" or op in ("list", "tuple"):
            els = [self.dim(x) for x in (a[1:] if op == "arr" else a)]
            if not els:
                return Z
            if op == "arr" and len(els) == int(np.prod(a[0])) and not any(isinstance(x, np.ndarray) for x in els):
                o = np.empty(len(els), dtype=object)
                o[:] = els
                return self.collapse(o.reshape(a[0]))
            return self.join(els)
        if op == "bin":
            return self.binary(t, a[0], self.dim(a[1]), self.dim(a[2]))
        if op == "un":
            return self.dim(a[1])
        if op == "cmp":
            if a[0] in ("<", "<=", ">", ">=", "==", "!="):
                self.join([self.dim(a[1]), self.dim(a[2])], t, "comparison")
            return U
        if op == "T":
            d = self.dim(a[0])
            return d.T if isinstance(d, np.ndarray) else d
        if op == "getitem":
            d = self.dim(a[0])
            if isinstance(d, np.ndarray):
                try:
                    return self.collapse(np.array(d[tuple(slice(*i[1:]) if isinstance(i, tuple) and i[0] == "slice" else i for i in a[1] if isinstance(i, (int, tuple)))], dtype=object)) \
                        if all(isinstance(i, int) or isinstance(i, tuple) and i[0] == "slice" for i in a[1]) and len(a[1]) < d.ndim else (
                        d[a[1]] if all(isinstance(i, int) for i in a[1]) else U)
                except Exception:
                    return U
            return d
        if op == "setitem":
            return self.join([self.dim(a[0]), self.dim(a[2])])
        if op == "round":
            return self.rounding(t, self.dim(a[1]))
        if op == "ite":
            return self.join([self.dim(a[1]), self.dim(a[2])])
        if op == "stub":
            f = self.stubs.get(a[0])
            return U if f is None else f([self.flat(self.dim(x)) for x in a[1:]], a[1:])
        if op == "mcall":
            name = a[1]
            d = self.dim(a[0])
            if name == "dot" and len(a[2]) == 1:
                return self.times(d, self.dim(a[2][0]))
            if name in ROUND:
                return self.rounding(t, d)
            return self.flat(d) if name in KEEP else U
        if op == "attr":
            d = self.dim(a[0])
            return (d.T if isinstance(d, np.ndarray) else d) if a[1] == "T" else U
        if op == "call":
            return self.call(t, a[0], a[1], dict(a[2]))
        return U

    def times(self, x, y, sign=1):
        x, y = self.flat(x), self.flat(y)
        if x is U or y is U:
            return U
        if x is Z or y is Z and sign == 1:
            return Z
        return U if y is Z else x + sign * y

    def rounding(self, t, d):
        f = self.flat(d)
        if f is not U and f is not Z:
            self.judged += 1
            if f != 0:
                self.reports.append((t, f"rounding of a quantity in {unit(f)} to a fixed number of digits"))
        return d

    def call(self, t, f, args, kw):
        mod, name = f.rsplit(".", 1)
        ds = [self.dim(x) for x in args]
        if mod not in ("numpy", "math", "builtins", "numpy.linalg"):
            return U
        d0 = self.flat(ds[0]) if ds else U
        if name in ANGULAR:
            if d0 is not U and d0 is not Z:
                self.judged += 1
                if d0 != 0:
                    self.reports.append((t, f"{name} of a quantity in {unit(d0)}"))
            return ZERO
        if name in ROUND:
            return self.rounding(t, ds[0]) if ds else U
        if name in ("min", "max") and len(args) > 1:
            return self.join(ds, t, name)
        if name in KEEP:
            return self.flat(ds[0]) if ds else U
        if name in ("isclose", "allclose"):
            d = self.join(ds[:2], t, "comparison")
            tol = args[3] if len(args) > 3 else kw.get("atol")
            if tol is None:
                if d not in (U, Z, ZERO):
                    self.reports.append((t, f"comparison of quantities in {unit(d)} with the absolute tolerance of {name}"))
            else:
                self.join([d, self.dim(tol)], t, "comparison with a tolerance")
            return U
        if name == "where":
            return self.join(ds[1:]) if len(ds) == 3 else U
        if name in PAIR:
            d = self.join(ds[:2] if name == "linspace" else ds, t if name not in ("concatenate", "stack", "vstack", "hstack") else None, name)
            return ZERO if name in ("arctan2", "atan2") else U if name in ("less", "greater", "less_equal", "greater_equal", "equal", "not_equal", "array_equal") else d
        if name in ("dot", "matmul", "inner", "vdot", "cross", "outer", "multiply", "kron", "tensordot"):
            return self.times(ds[0], ds[1]) if len(ds) >= 2 else U
        if name in ("divide", "true_divide"):
            return self.times(ds[0], ds[1], -1)
        if name in ("sqrt", "square", "cbrt"):
            return d0 if d0 in (U, Z) else d0 * {"sqrt": Fraction(1, 2), "square": 2, "cbrt": Fraction(1, 3)}[name]
        if name in ("power", "pow", "float_power"):
            n = tm.np_const(args[1]) if len(args) > 1 else None
            return d0 if d0 in (Z, ZERO) else d0 * Fraction(n).limit_denominator(60) if d0 is not U and isinstance(n, (int, float)) else U
        if name == "det":
            s = tm.shape(args[0])
            return d0 if d0 in (U, Z) else d0 * (s[-1] if s and isinstance(s[-1], int) else 3)
        if name in ("inv", "pinv"):
            return d0 if d0 in (U, Z) else -d0
        if name == "solve":
            return self.times(ds[1], ds[0], -1)
        if name in ("sign", "len", "argmin", "argmax"):
            return ZERO
        if name in ("eye", "identity", "ones", "arange"):
            return ZERO
        if name in ("zeros", "zeros_like"):
            return Z
        return U


def unit(d):
    if d == 0:
        return "no unit"
    n = d if d.denominator != 1 else int(d)
    return {1: "units of length", -1: "inverse units of length"}.get(n, f"units of length to the power {n}")
