"""Kpoints objects stay consistent; refused changes raise ValueError and change nothing.

Typestate of the object: sequences of operations on a symbolic Kpoints object
are analysed; after each one names, coordinates, labels and path must agree, and
the abstract state at a raise must be the state before the call.
"""
import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation
from ..inputs import sarr
from ..interp import Tup
from . import kobj
from .calls import vec
from .kobj import LABELS, NAMES

LEVEL = "other"
FLOOR = 40


def check(ctx):
    it = ctx.interp("plain")
    for label, kw in CTOR_BAD:
        ctx.ob(f"constructor refuses {label}", ctor_bad, ctx, it, label, kw)
    for label, kw in CTOR_OK:
        ctx.ob(f"constructor accepts {label}", ctor_ok, ctx, it, label, kw)
    for label, name, v in SET_BAD:
        ctx.ob(f"assignment refuses {label}", set_bad, ctx, it, label, name, v)
    for label, v, want in SET_OK:
        ctx.ob(f"path accepts {label}", set_ok, ctx, it, label, v, want)
    for label, args in ADD:
        ctx.ob(f"add_hs_point {label}", add, ctx, it, label, args)
    for p in (None, "X-Y-Z", "Z-X", [["W", "GAMMA"]], "X-Y|Y-Z|W-X"):
        for rel in (True, False):
            ctx.ob(f"add_hs_point keeps the path {p} (relative={rel})", add, ctx, it, f"path {p}", dict(form="array", relative=rel), p)
    for q, kw in (("x", {}), ("x", dict(label="x")), ("q", dict(label="X")), ("q", dict(label="x")), ("gamma", {}), ("XX", {}), ("X_P", {}), ("K1", dict(label="K$_1$")), ("1", {}), ("Q", dict(label="")), ("Q", dict(label="a|b"))):
        ctx.ob(f"add_hs_point {q}, {kw}", add, ctx, it, f"{q} {kw}", dict(form="array", **kw), [["GAMMA", "X"], ["Y", "Z"]], q)
    for how in ("constructor", "assignment"):
        ctx.ob(f"n in the {how}", n_types, ctx, it, how)
    ctx.ob("add_hs_point refuses a defined name", add_dup, ctx, it)
    for nm in NAMES:
        ctx.ob(f"remove_hs_point {nm}", remove, ctx, it, nm)
    ctx.ob("remove and add again", readd, ctx, it)
    ctx.ob("path after removal of its point", removed_path, ctx, it)
    ctx.ob("copy is independent", copied, ctx, it)


CTOR_BAD = [("too few labels", dict(labels=LABELS[:4])), ("too many labels", dict(labels=LABELS + ["q"])), ("too few names", dict(names=NAMES[:4], path=[["GAMMA", "X"]])),
            ("too many names", dict(names=NAMES + ["Q"], m=5, labels=LABELS)), ("an undefined point in the path", dict(path=[["GAMMA", "X"], ["Y", "Q"]])),
            ("an undefined point in the path string", dict(path="GAMMA-X|Y-Q")), ("a subpath of one point", dict(path=[["GAMMA", "X"], ["Y"]])),
            ("a subpath of one point in a string", dict(path="GAMMA-X|Y")), ("an empty string", dict(path="")),
            ("two points of one name", dict(names=["A", "B", "A", "C", "D"], path=[["A", "B"]])), ("two points of one name, no labels", dict(names=["A", "B", "C", "D", "D"], labels=None, path=[["A", "B"]])),
            ("two points of one name, no path", dict(names=["A", "A"], labels=None)), ("two points of one name that differ in coordinates only", dict(names=["A", "B", "A"], labels=["a", "b", "c"], path="A-B-A")),
            ("a float as n", dict(n=2.5)), ("a string as n", dict(n="10")), ("a number as the path", dict(path=5))]
CTOR_OK = [("names, labels and path", dict(path=[["GAMMA", "X"], ["Y", "Z"]])), ("no labels", dict(labels=None)), ("no names", dict(names=None, labels=LABELS, m=5)),
           ("no names, no labels", dict(names=None, labels=None, m=3)), ("a path string", dict(path="W-X|Y-GAMMA-Z")), ("two points", dict(names=["A", "B"], labels=None)),
           ("no points", dict(names=None, labels=None, m=0)), ("one point", dict(names=None, labels=None, m=1)), ("one point with a name", dict(names=["A"], labels=["a"])),
           ("twelve points", dict(names=[f"P{12 - i}" for i in range(12)], labels=[f"$p_{i}$" for i in range(12)])), ("twelve points, no labels", dict(names=list("LKJIHGFEDCBA"), labels=None, path="A-L|K-B-C-D-E-F-G-H-I-J")),
           ("twelve points, no names", dict(names=None, labels=None, m=12)), ("eleven points, labels only", dict(names=None, labels=[f"l{i}" for i in range(11)], m=11)),
           ("names with separators", dict(names=["A-1", "B|2", "C"], labels=None)), ("names which differ in letter case only", dict(names=["x", "X", "Gamma", "GAMMA"], labels=None)),
           ("names with spaces", dict(names=["A", " A", "A ", "a b"], labels=None, path=[["A", " A"], ["A ", "a b"]])),
           ("a subpath twice", dict(path=[["GAMMA", "X"], ["Y", "Z"], ["GAMMA", "X"]])), ("a subpath and its reverse", dict(path=[["GAMMA", "X", "Y"], ["Y", "X", "GAMMA"]])),
           ("points twice in a row", dict(path=[["X", "X"], ["Y", "Y", "Z"]])), ("a subpath twice in a string", dict(path="GAMMA-X|GAMMA-X|X-GAMMA")),
           ("names which look like numbers", dict(names=["1", "01", "1.0"], labels=None, path="1-01-1.0")), ("no points, empty lists", dict(names=[], labels=[], m=0))]
SET_BAD = [("an undefined point", "path", [["GAMMA", "X"], ["Y", "Q"]]), ("an undefined point in a string", "path", "X-Y-Q"), ("a subpath of one point", "path", [["X", "Y"], ["Z"]]),
           ("a subpath of one point in a string", "path", "X-Y|Z"), ("an empty subpath", "path", [["X", "Y"], []]), ("a float as n", "n", 2.5), ("a string as n", "n", "10"), ("None as n", "n", None),
           ("a number as the path", "path", 5), ("None as the path", "path", None)]
SET_OK = [("a list with a subpath twice", [["X", "Y"], ["Z", "W"], ["X", "Y"]], [["X", "Y"], ["Z", "W"], ["X", "Y"]]), ("a list with a subpath and its reverse", [["X", "Y"], ["Y", "X"], ["X", "Y"]], [["X", "Y"], ["Y", "X"], ["X", "Y"]]),
          ("tuples with a subpath twice", (("X", "Y"), ("X", "Y")), [["X", "Y"], ["X", "Y"]]), ("a long path", [["X", "Y", "Z", "W", "GAMMA"] * 3], [["X", "Y", "Z", "W", "GAMMA"] * 3]),
          ("the path which is set already", [["GAMMA", "X"], ["Y", "Z"]], [["GAMMA", "X"], ["Y", "Z"]]), ("a list", [["Z", "X"], ["W", "Y", "GAMMA"]], [["Z", "X"], ["W", "Y", "GAMMA"]]), ("a string", "Z-X|W-Y-GAMMA", [["Z", "X"], ["W", "Y", "GAMMA"]]),
          ("a single subpath", "X-Y", [["X", "Y"]]), ("a closed path", "X-Y-X", [["X", "Y", "X"]]),
          ("an empty list", [], []), ("a point twice in a row", [["X", "X"], ["Y", "Y", "Z"]], [["X", "X"], ["Y", "Y", "Z"]]), ("a repeated point in a string", "X-X|Z-Y", [["X", "X"], ["Z", "Y"]]),
          ("a subpath twice", "X-Y|X-Y", [["X", "Y"], ["X", "Y"]]), ("tuples", (("Z", "X"), ("W", "Y", "GAMMA")), [["Z", "X"], ["W", "Y", "GAMMA"]])]


def build(it, st, v):
    if isinstance(v, list):
        return it.new_list(st, [build(it, st, x) for x in v], "input:value")
    if isinstance(v, tuple):
        return Tup([build(it, st, x) for x in v])
    return v


def state(it, r, obj, heap=None):
    from ..interp import State
    st = r.st if heap is None else State(heap=dict(heap))
    return it.as_T(st, obj)


def strs(it, r, v, env=None):
    return rint.val(kobj.R(it, r.st), v, env or {})


def consistent(it, r, env, names, what, loc):
    """names, coordinates and labels describe the same points in the same order."""
    k = r.value
    nm = list(strs(it, r, it.getattr(r.st, k, "hs_names"), env))
    co = strs(it, r, it.getattr(r.st, k, "hs_coordinates"), env)
    la = strs(it, r, it.getattr(r.st, k, "hs_labels"), env)
    if nm != names:
        raise Violation(f"{what}: hs_names is {nm}, {names} expected", loc, f"names {what.split()[0]}")
    if sorted(co) != sorted(names) or sorted(la) != sorted(names):
        raise Violation(f"{what}: hs_names is {nm}, hs_coordinates has {sorted(co)}, hs_labels has {sorted(la)}", loc, f"keys {what.split()[0]}")
    return co, la


def ctor_bad(ctx, it, label, kw):
    r = kobj.make(it, **kw)
    loc = kobj.loc(it, "__init__")
    if rint.returned(r):
        raise Violation(f"{label} is accepted", loc, f"ctor accepts {label}")
    for x in rint.sure(r):
        if rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for {label}", x.loc, f"ctor class {label}")


def ctor_ok(ctx, it, label, kw):
    r = kobj.make(it, **kw)
    loc = kobj.loc(it, "__init__")
    if r.st.pc == 0:
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} for {label}", r.raises[-1].loc, f"ctor raises {label}")
    names = kw.get("names", NAMES)
    m = kw.get("m", len(names) if names else 5)
    env = kobj.env(oracle.rng(ctx.seed, label))
    path = strs(it, r, kobj.get(it, r.st, r.value, "path")[0])
    got = list(strs(it, r, it.getattr(r.st, r.value, "hs_names"), env))
    if names is None:
        if len(got) != m or len(set(got)) != m:
            raise Violation(f"default names are {got}", loc, "default names")
        names = got
        if names != [f"K{i + 1}" for i in range(m)]:
            raise Violation(f"default names are {names}, K1, K2, ... are documented", loc, "default names text")
    co, la = consistent(it, r, env, list(names), f"constructor with {label}", loc)
    for i, x in enumerate(names):
        if not rint.close(co[x], env[f"k{i}"]):
            raise Violation(f"coordinates of {x} are not the ones given at its position", loc, "ctor coordinates")
        lb = kw.get("labels", LABELS)
        if lb is not None and la[x] != lb[i]:
            raise Violation(f"label of {x} is {la[x]!r}, {lb[i]!r} was given", loc, "ctor labels")
        if lb is None and la[x] != (x if kw.get("names", NAMES) is not None else f"K$_{i + 1}$"):
            raise Violation(f"default label of {x} is {la[x]!r}", loc, "ctor default labels")
    p = kw.get("path")
    want = ([list(names)] if len(names) > 1 else []) if p is None else [s.split("-") for s in p.split("|")] if isinstance(p, str) else p
    if [list(s) for s in path] != want:
        raise Violation(f"path is {path}, {want} expected", loc, "ctor path")
    if not rint.close(strs(it, r, it.getattr(r.st, r.value, "rcell"), env), env["rcell"]):
        raise Violation("rcell is not the given one", loc, "ctor rcell")
    s = strs(it, r, kobj.get(it, r.st, r.value, "path_string")[0])
    if s != "|".join("-".join(x) for x in want):
        raise Violation(f"path_string is {s!r} for the path {want}", kobj.loc(it, "path_string"), "path_string")


def unchanged(it, r, before, raises, what, loc):
    if rint.returned(r):
        raise Violation(f"{what} is accepted", loc, f"accepts {what}")
    for x in raises:
        if rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for {what}", x.loc, f"class {what}")
        if x.heap is not None and state(it, r, r.value, x.heap) is not before:
            raise Violation(f"{what} is refused after the object was changed", x.loc, f"changed {what}")


def set_bad(ctx, it, label, name, v):
    r = kobj.make(it, path=[["GAMMA", "X"], ["Y", "Z"]], n=5)
    v = build(it, r.st, v)
    before = state(it, r, r.value)
    _, raises = kobj.act(it, r.st, lambda: it.setattr(r.st, r.value, name, v))
    unchanged(it, r, before, raises, label, kobj.loc(it, name))


def set_ok(ctx, it, label, v, want):
    r = kobj.make(it, path=[["GAMMA", "X"], ["Y", "Z"]], n=5)
    v = build(it, r.st, v)
    _, raises = kobj.act(it, r.st, lambda: it.setattr(r.st, r.value, "path", v))
    loc = kobj.loc(it, "path")
    if r.st.pc == 0:
        raise Violation(f"path given as {label} is refused", raises[-1].loc, f"path refused {label}")
    got = [list(s) for s in strs(it, r, kobj.get(it, r.st, r.value, "path")[0])]
    if got != want:
        raise Violation(f"path given as {label} is stored as {got}, {want} expected", loc, f"path stored {label}")


ADD = [("relative array", dict(form="array")), ("relative list", dict(form="list")), ("label", dict(form="array", label="$q$")), ("Cartesian array", dict(form="array", relative=False)),
       ("Cartesian list", dict(form="list", relative=False, label="q"))]


N_OK = [0, 1, 4, np.int64(4), np.int32(7), np.uint8(3)]
N_BAD = [2.0, 2.5, "10", None, np.float64(3.0), (4,), 1j]


def n_types(ctx, it, how):
    n = tm.sym("n", "any")
    if how == "constructor":
        r = kobj.make(it, path=[["GAMMA", "X"], ["Y", "Z"]], n=n)
        raises = r.raises
        loc = kobj.loc(it, "__init__")
    else:
        r = kobj.make(it, path=[["GAMMA", "X"], ["Y", "Z"]], n=5)
        _, raises = kobj.act(it, r.st, lambda: it.setattr(r.st, r.value, "n", n))
        loc = kobj.loc(it, "n")
    for v in N_OK + N_BAD:
        x = next((x for x in raises if x.pc == 1 or rint.guard(x.pc, {"n": v})), None)
        t = f"n = {v!r} of {type(v).__name__}"
        if v in N_OK and type(v) in [type(w) for w in N_OK]:
            if x is not None:
                raise Violation(f"{how}: {t} is refused", x.loc, "n refused")
            got = strs(it, r, kobj.get(it, r.st, r.value, "n")[0], {"n": v})
            if got != v:
                raise Violation(f"{how}: {t} is stored as {got!r}", loc, "n stored")
        elif x is None:
            raise Violation(f"{how}: {t} is accepted", loc, "n accepted")
        elif rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{how}: {rint.cls_name(x.cls)} instead of ValueError for {t}", x.loc, "n class")


def add(ctx, it, label, a, path=[["GAMMA", "X"], ["Y", "Z"]], Q="Q"):
    r = kobj.make(it, path=path, n=5)
    q = vec(it, r.st, a["form"], "q")
    kw = {k: v for k, v in a.items() if k != "form"}
    before = strs(it, r, kobj.get(it, r.st, r.value, "path")[0])
    _, raises = kobj.call(it, r.st, r.value, "add_hs_point", Q, q, **kw)
    loc = kobj.loc(it, "add_hs_point")
    if r.st.pc == 0:
        raise Violation("a new point is refused", raises[-1].loc, "add refused")
    env = kobj.env(oracle.rng(ctx.seed, label))
    env["q"] = np.array([0.3, -0.2, 0.7])
    for i in range(3):
        env[f"q[{i}]"] = env["q"][i]
    co, la = consistent(it, r, env, NAMES + [Q], f"add_hs_point ({label})", loc)
    want = env["q"] if kw.get("relative", True) else env["q"] @ np.linalg.inv(env["rcell"])
    if not rint.close(co[Q], want):
        raise Violation(f"coordinates of the added point are {co[Q]}, {want} expected (relative={kw.get('relative', True)})", loc, "add coordinates")
    if la[Q] != kw.get("label", Q):
        raise Violation(f"label of the added point is {la[Q]!r}", loc, "add label")
    for i, x in enumerate(NAMES):
        if not rint.close(co[x], env[f"k{i}"]) or la[x] != LABELS[i]:
            raise Violation(f"adding {Q} changes {x}", loc, "add changes others")
    if strs(it, r, kobj.get(it, r.st, r.value, "path")[0]) != before:
        raise Violation("adding a point changes the path", loc, "add changes path")
    # the added point can be used in the path
    _, raises = kobj.act(it, r.st, lambda: it.setattr(r.st, r.value, "path", f"X-{Q}"))
    if r.st.pc == 0:
        raise Violation("the added point can not be used in the path", raises[-1].loc, "added point unusable")


def add_dup(ctx, it):
    for nm in NAMES:
        for kw in ({}, dict(relative=False), dict(label="z")):
            r = kobj.make(it, path=[["GAMMA", "X"], ["Y", "Z"]], n=5)
            q = vec(it, r.st, "array", "q")
            before = state(it, r, r.value)
            _, raises = kobj.call(it, r.st, r.value, "add_hs_point", nm, q, **kw)
            unchanged(it, r, before, raises, f"a second point with a defined name", kobj.loc(it, "add_hs_point"))


def remove(ctx, it, nm):
    keep = [x for x in NAMES if x != nm]
    r = kobj.make(it, path=[keep[:2], keep[1:]], n=5)
    before = strs(it, r, kobj.get(it, r.st, r.value, "path")[0])
    _, raises = kobj.call(it, r.st, r.value, "remove_hs_point", nm)
    loc = kobj.loc(it, "remove_hs_point")
    if r.st.pc == 0:
        raise Violation(f"{nm} can not be removed though it is not in the path", raises[-1].loc, "remove refused")
    env = kobj.env(oracle.rng(ctx.seed, nm))
    co, la = consistent(it, r, env, keep, f"remove_hs_point({nm})", loc)
    for x in keep:
        if not rint.close(co[x], env[f"k{NAMES.index(x)}"]) or la[x] != LABELS[NAMES.index(x)]:
            raise Violation(f"removing {nm} changes {x}", loc, "remove changes others")
    if strs(it, r, kobj.get(it, r.st, r.value, "path")[0]) != before:
        raise Violation(f"removing {nm} changes the path which does not contain it", loc, "remove changes path")
    before = state(it, r, r.value)
    st = r.st
    _, raises = kobj.act(it, st, lambda: it.setattr(st, r.value, "path", f"{keep[0]}-{nm}"))
    unchanged(it, r, before, raises, "a removed point in the path", kobj.loc(it, "path"))


def readd(ctx, it):
    r = kobj.make(it, path=[["X", "Y"]], n=5)
    kobj.call(it, r.st, r.value, "remove_hs_point", "Z")
    q = vec(it, r.st, "array", "q")
    _, raises = kobj.call(it, r.st, r.value, "add_hs_point", "Z", q)
    loc = kobj.loc(it, "add_hs_point")
    if r.st.pc == 0:
        raise Violation("a removed point can not be added again", raises[-1].loc, "readd refused")
    env = kobj.env(oracle.rng(ctx.seed, "readd"))
    env["q"] = np.array([0.3, -0.2, 0.7])
    co, la = consistent(it, r, env, ["GAMMA", "X", "Y", "W", "Z"], "remove and add", loc)
    if not rint.close(co["Z"], env["q"]) or la["Z"] != "Z":
        raise Violation("a point added again keeps old data", loc, "readd data")


def removed_path(ctx, it):
    r = kobj.make(it, path=[["GAMMA", "X"], ["Y", "Z", "W"]], n=5)
    _, raises = kobj.call(it, r.st, r.value, "remove_hs_point", "Z")
    loc = kobj.loc(it, "remove_hs_point")
    if r.st.pc == 0:
        return
    path = strs(it, r, kobj.get(it, r.st, r.value, "path")[0])
    if any("Z" in s for s in path):
        raise Violation(f"after removal of Z the path is still {[list(s) for s in path]}: labels, ticks and points raise KeyError", loc, "removed point stays in path")
    if any(len(s) < 2 for s in path):
        raise Violation(f"after removal of Z the path is {path}", loc, "removed point leaves short subpath")


def copied(ctx, it):
    r = kobj.make(it, path=[["GAMMA", "X"], ["Y", "Z"]], n=5)
    v, raises = kobj.call(it, r.st, r.value, "copy")
    a = it.as_T(r.st, r.value)
    if it.as_T(r.st, v) is not a:
        raise Violation("the copy differs from the original", kobj.loc(it, "copy"), "copy differs")
    q = vec(it, r.st, "array", "q")
    kobj.call(it, r.st, v, "add_hs_point", "Q", q)
    kobj.call(it, r.st, v, "remove_hs_point", "W")
    kobj.act(it, r.st, lambda: it.setattr(r.st, v, "path", "Q-X"))
    kobj.act(it, r.st, lambda: it.setattr(r.st, v, "n", 77))
    if it.as_T(r.st, r.value) is not a:
        raise Violation("changes of the copy change the original", kobj.loc(it, "copy"), "copy shares")
