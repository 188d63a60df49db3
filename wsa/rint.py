"""Random interpretation of the extracted terms (Gulwani-Necula style value numbering):
two closed-form terms are equal when they agree at random points of their domain."""
import numpy as np

from . import terms as tm
from .core import Undecided, Violation


def val(r, v, env, memo=None):
    """Concrete value of the abstract value v of the Result r at the point env."""
    t = r.it.as_T(r.st, v)
    try:
        return tm.evaluate(t, env, memo)
    except tm.DomainError as e:
        raise Violation(f"a result needs {e} (ValueError)", e.loc)
    except tm.Unevaluable as e:
        raise Undecided(f"term is not closed-form: {e}")


def guard(f, env, memo=None):
    try:
        return tm.bdd_eval(f, env, memo)
    except tm.Unevaluable as e:
        raise Undecided(f"guard is not closed-form: {e}")


def raised(r, env, memo=None, strict=False):
    """The raise record certainly active at the point, or None."""
    for x in r.raises:
        try:
            if x.pc == 1 or tm.bdd_eval(x.pc, env, memo):
                return x
        except tm.Unevaluable as e:
            if strict:
                raise Undecided(f"guard of a raise is not closed-form: {e}")
    return None


class _Auto(dict):
    """Values for all symbols, by their kinds."""

    def __init__(self, g):
        super().__init__()
        self.g = g

    def __contains__(self, t):
        return isinstance(t, str) or isinstance(t, tm.T) and t.op == "sym"

    def __getitem__(self, t):
        if isinstance(t, str):
            raise KeyError(t)
        if t not in self.keys():
            k = t.args[1]
            if isinstance(k, tuple) and k and k[0] == "arr":
                v = self.g.uniform(-1, 1, size=k[1])
            else:
                v = {"int": int(self.g.integers(1, 9)), "str": "Cr", "bool": True}.get(k, float(self.g.uniform(0.1, 0.9)))
            dict.__setitem__(self, t, v)
        return dict.__getitem__(self, t)

    def get(self, t, default=None):
        return self[t] if isinstance(t, tm.T) and t in self else default


def possible(pc, env=None, samples=6):
    """Whether the condition is met by some of the sampled inputs; Undecided when it is not closed-form."""
    if pc in (0, 1):
        return bool(pc)
    for k in range(samples if env is None else 1):
        e = _Auto(np.random.default_rng(k)) if env is None else env
        try:
            if tm.bdd_eval(pc, e):
                return True
        except tm.Unevaluable as x:
            raise Undecided(f"a condition is not closed-form: {x}")
    return False


def returned(r, env=None):
    """Whether the call certainly returns for some inputs."""
    return possible(r.st.pc, env)


def sure(raises, env=None, strict=False):
    """Records of raises that are certainly possible; those with conditions that are not closed-form are left out (Undecided at the end when strict)."""
    doubt = None
    for x in getattr(raises, "raises", raises):
        try:
            if possible(x.pc, env):
                yield x
        except Undecided as e:
            doubt = e
    if strict and doubt is not None:
        raise doubt


def exit_at(r, env, memo=None, fallback=None):
    """Location of the return statement taken at the point."""
    for e in r.exits:
        try:
            if tm.bdd_eval(e.pc, env, memo):
                return e.loc
        except tm.Unevaluable:
            pass
    return fallback


def cls_name(c):
    return getattr(c, "name", str(c)).split(".")[-1]


def close(a, b, tol=1e-7):
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(np.nan_to_num(a, nan=1e99), np.nan_to_num(b, nan=1e99)))
    s = 1.0 + max(np.max(np.abs(a), initial=0), np.max(np.abs(b), initial=0))
    return bool(np.all(np.abs(a - b) <= tol * s))


def same(a, b, tol=1e-7):
    """Structural equality of concrete values, numbers up to tol."""
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        aa, bb = np.asarray(a), np.asarray(b)
        if aa.dtype.kind in "biufc" and bb.dtype.kind in "biufc":
            return close(aa, bb, tol)
        return aa.shape == bb.shape and bool(np.all(aa == bb))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b, tol)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def blame(r, terms_or_value):
    """Best location for a wrong value: where its outermost operation was created."""
    t = terms_or_value
    if not isinstance(t, tm.T):
        t = r.it.as_T(r.st, t)
    st = [t]
    while st:
        x = st.pop(0)
        if isinstance(x, tm.T):
            if x.loc and x.op not in ("k", "tuple", "list", "dict", "arr"):
                return x.loc
            if x.op in ("tuple", "list", "dict", "arr", "inst"):
                for a in x.args:
                    st += list(a) if isinstance(a, tuple) else [a]
    return t.loc if isinstance(t, tm.T) else None
