"""String and list notations of a k-path are inverse to each other.

All shapes of up to four subpaths and paths with repeated, reversed, joined, long and
many subpaths are enumerated; both conversions are propagated
through the analysed functions in both directions, malformed strings are refused.
"""
import itertools

from .. import rint
from ..core import Undecided, Violation, fun_loc
from ..interp import State

LEVEL = "other"
FLOOR = 60
L, S = "wulfric.kpoints.get_path_as_list", "wulfric.kpoints.get_path_as_string"
NAMES = ["GAMMA", "X", "X1", "H_P", "SIGMA0", "K$_1$", "a b", "Y", " W", "W ", "x", "1"]

# repeated points, repeated and reversed subpaths, subpaths that continue the previous one, long and many subpaths
SPECIAL = [[list(s) for s in p] for p in (
    ["GX", "GX"], ["GX", "MR", "GX"], ["GX", "XG"], ["GX", "XM"], ["GX", "XG", "GX", "XG"], ["GXG"], ["GG"], ["GXXG"], ["GX", "XX", "MX"], ["GXMG", "RX", "MR", "GXMG"],
    ["ABCDEFGHIJKLMNOPQRS"], ["AB", "CD", "EF", "GH", "IJ", "KL", "MN", "OP", "QR", "ST", "UV", "WX"], ["ZYXWV", "BA", "ZA"], ["XG", "GX"], ["AB", "BC", "CD", "DA"])]
SPECIAL += [[["GAMMA", "X_P", "GAMMA"], ["X_P", "GAMMA"]], [["Γ", "X"], ["X", "Γ"]], [["10", "9"], ["9", "10"]], [["X", "x"], ["x", "X"]], [["gamma", "Gamma", "GAMMA"]]]


def check(ctx):
    it = ctx.interp("plain")
    for k in (1, 2, 3, 4):
        for shape in itertools.product((2, 3, 5), repeat=k):
            ctx.ob(f"subpaths of {shape} points", trip, ctx, it, shape)
    for path in SPECIAL:
        ctx.ob("path " + "|".join("-".join(s) for s in path)[:60], roundtrip, ctx, it, path)
    for s in ("", "X", "X-Y|Z", "X|Y-Z", "X-Y|", "|X-Y"):
        ctx.ob(f"string {s!r}", bad, ctx, it, s)
    for v in (None, 5, ("X", "Y")):
        ctx.ob(f"{v!r} instead of a string", notstr, ctx, it, v)
    ctx.ob("number instead of a list", notlist, ctx, it)


def run(it, fn, build):
    st = State()
    r = it.run(fn, [build(st)], {}, st=st)
    loc = r.exits[-1].loc if r.exits else fun_loc(it.public(fn))
    return r, loc


def trip(ctx, it, shape):
    i, path = 0, []
    for n in shape:
        path.append([NAMES[(i + j * (1 + n)) % len(NAMES)] for j in range(n)])
        i += 3
    roundtrip(ctx, it, path)


def roundtrip(ctx, it, path):
    want = "|".join("-".join(s) for s in path)
    for seq in ("list", "tuple"):
        from ..interp import Tup
        r, loc = run(it, S, lambda st: it.new_list(st, [it.new_list(st, list(s)) if seq == "list" else Tup(s) for s in path]))
        if r.st.pc == 0:
            raise Violation(f"{rint.cls_name(r.raises[-1].cls)} for the path {path}", r.raises[-1].loc, "string raises")
        s = rint.val(r, r.value, {})
        if s != want:
            raise Violation(f"path {path} is written as {s!r}, {want!r} expected", loc, "as string")
    r, loc = run(it, L, lambda st: want)
    if r.st.pc == 0:
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} for the path {want!r}", r.raises[-1].loc, "list raises")
    v = [list(x) for x in rint.val(r, r.value, {})]
    if v != path:
        raise Violation(f"path {want!r} is read as {v}", loc, "as list")
    ctx.count("paths")


def bad(ctx, it, s):
    r, loc = run(it, L, lambda st: s)
    if rint.returned(r):
        raise Violation(f"path {s!r} with a subpath of less than two points is accepted", loc, "short subpath accepted")
    if any(rint.cls_name(q.cls) != "ValueError" for q in rint.sure(r)):
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} instead of ValueError for {s!r}", r.raises[-1].loc, "short subpath class")


def notstr(ctx, it, v):
    from ..interp import Tup
    r, loc = run(it, L, lambda st: Tup(v) if isinstance(v, tuple) else v)
    if rint.returned(r):
        raise Violation(f"{v!r} is accepted as a string", loc, "not string")
    if any(rint.cls_name(q.cls) != "ValueError" for q in rint.sure(r)):
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} instead of ValueError for {v!r}", r.raises[-1].loc, "not string class")


def notlist(ctx, it):
    for build in (lambda st: 5, lambda st: it.new_list(st, [5]), lambda st: None):
        r, loc = run(it, S, build)
        if rint.returned(r):
            raise Violation("a number is accepted as a path", loc, "not list")
        if any(rint.cls_name(q.cls) != "ValueError" for q in rint.sure(r)):
            raise Violation(f"{rint.cls_name(r.raises[-1].cls)} instead of ValueError for a number", r.raises[-1].loc, "not list class")
