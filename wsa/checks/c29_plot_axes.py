"""Axes of a figure contain everything that was plotted, in every subplot; flat figures included.

Sequences of plotting calls are analysed over a model of the figure; the value
graphs of the ranges set by show() and save() are compared with the extent of
the recorded traces at generic, flat and remote arrangements of the points.
"""
import itertools

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation
from ..inputs import sarr
from ..interp import Tup
from . import kobj, plots
from .plots import Plot, traces

LEVEL = "other"
FLOOR = 20
ASSUMPTIONS = ["plotly honours the ranges of axes it is given; the extent of letters and of arrow heads is not known, only where they are placed"]
PATH = [["GAMMA", "X"], ["Y", "Z", "W"]]
ITEMS = ["points", "line", "vector", "vector_label", "cell", "lattice", "atoms", "kpath", "kpoints"]


def check(ctx):
    it = plots.plot_interp(ctx)
    for out in ("show", "save"):
        for x in ITEMS + ["many points", "many atoms"]:
            ctx.ob(f"{x}, then {out}", one, ctx, it, [(x, 1)], out)
        for a, b in itertools.permutations(ITEMS, 2):
            if out == "save" or ctx.thorough:
                ctx.ob(f"{a}, {b}, then {out}", one, ctx, it, [(a, 1), (b, 1)], out)
        for a, b in (("cell", "points"), ("kpath", "kpoints"), ("vector", "line"), ("points", "points")):
            ctx.ob(f"{a} and {b} in different subplots, then {out}", one, ctx, it, [(a, 1), (b, 2), (a, 2)], out)
    ctx.ob("save, then more, then save", again, ctx, it)
    for out in ("show", "save"):
        for seq in ([("points", 1), ("line", 2), ("cell", 3), ("points", 4), ("vector", 1), ("lattice", 2), ("line", 3), ("atoms", 4)],
                    [("line", 4), ("points", 3), ("points", 2), ("line", 1), ("points", 3), ("line", 2), ("points", 1), ("points", 4)]):
            ctx.ob(f"{len(seq)} objects in four subplots, then {out}", one, ctx, it, seq, out)
            ctx.ob(f"{len(seq)} objects in subplots of two rows, then {out}", one, ctx, it, [(x, (1 + i // 2 % 2, 1 + c % 2)) for i, (x, c) in enumerate(seq)], out)
            ctx.ob(f"{len(seq)} objects in two rows of two subplots, then {out}", one, ctx, it, [(x, divmod(c - 1, 2)) for x, c in seq], out)
    ctx.ob("empty figure", empty, ctx, it)


def draw(it, p, what, col, i):
    st = p.st
    v = lambda n, s=(3,): sarr(it, st, f"{n}{i}", s)
    kw = dict(row=1, col=col) if isinstance(col, int) else dict(row=col[0] + 1, col=col[1] + 1)
    if what == "points":
        p.call("plot_points", v("pts", (3, 3)), **kw)
    elif what == "many points":
        p.call("plot_points", v("many", (12, 3)), **kw)
    elif what == "many atoms":
        a = it.new_dict(st, [("positions", v("many", (12, 3))), ("names", it.new_list(st, ["Fe1", "O1", "O2"] * 4))])
        p.call("plot_atoms", v("cell", (3, 3)), a, shift=v("shift"), **kw)
    elif what == "line":
        p.call("plot_line", v("start"), v("end"), **kw)
    elif what == "vector":
        p.call("plot_vector", v("start"), v("end"), **kw)
    elif what == "vector_label":
        p.call("plot_vector", v("start"), v("end"), vector_label="v", **kw)
    elif what == "cell":
        p.call("plot_cell", v("cell", (3, 3)), shift=v("shift"), **kw)
    elif what == "lattice":
        p.call("plot_lattice", v("cell", (3, 3)), shift=v("shift"), range=Tup([1, 0, 2]), **kw)
    elif what == "atoms":
        a = it.new_dict(st, [("positions", v("pts", (3, 3))), ("names", it.new_list(st, ["Fe1", "O1", "O2"]))])
        p.call("plot_atoms", v("cell", (3, 3)), a, shift=v("shift"), **kw)
    else:
        p.call("plot_" + what, p.kp, shift=v("shift"), **kw)


SYM = {"pts": (3, 3), "start": (3,), "end": (3,), "cell": (3, 3), "shift": (3,), "many": (12, 3)}


def environments(ctx, n, *key):
    g = oracle.rng(ctx.seed, *key)
    for kind in ("generic", "generic", "remote", "negative", "flat x", "flat y", "flat z", "one point") * (3 if ctx.thorough else 1):
        e = kobj.env(g)
        for i in range(n):
            for k, s in SYM.items():
                v = g.uniform(-3, 3, size=s)
                if kind in ("remote", "negative") and k != "cell":
                    v += 40 if kind == "remote" else -40
                if kind.startswith("flat"):
                    v[..., "xyz".index(kind[-1])] = 2.5 if k != "cell" and len(kind) else 0.0
                if kind == "one point":
                    v = np.zeros(s) + (1.5 if k != "cell" else 0.0)
                e[f"{k}{i}"] = v
        if kind.startswith("flat"):
            ax = "xyz".index(kind[-1])
            e["rcell"][:, ax] = 0.0
        if kind == "one point":
            e["rcell"][:] = 0.0
        yield kind, e


def setup(it):
    r = kobj.make(it, path=PATH, n=2)
    p = Plot(it, r.st)
    p.kp = r.value
    return p


def finish(p, out):
    n = len(p.it.known_items(p.st, p.it.getattr(p.st, p.fig, "out")))
    p.call(out)
    m = p.it.known_items(p.st, p.it.getattr(p.st, p.fig, "out"))
    if m is None or len(m) != n + 1:
        raise Violation(f"{out}() does not hand the figure over", p.loc(out), f"{out} nothing")


def ranges(p, e, memo):
    """Last ranges of axes per subplot (row and col None: all subplots)."""
    d = {}
    for kw, row, col in p.record("scenes", e, memo):
        for ax in "xyz":
            a = kw.get(f"{ax}axis")
            r = a.get("range") if isinstance(a, dict) else kw.get(f"{ax}axis_range")
            if r is not None:
                d[(row, col, ax)] = np.asarray(r, dtype=float)
    return d


def compare(p, e, out, desc):
    memo = {}
    p.at(e, memo)
    ts = traces(p, e, memo)
    rs = ranges(p, e, memo)
    ratios = [kw.get("aspectratio") for kw, _, _ in p.record("scenes", e, memo)]
    for t in ts:
        if t.kind == "cone":
            continue
        for i, ax in enumerate("xyz"):
            r = rs.get((t.row, t.col, ax), rs.get((None, None, ax)))
            if r is None:
                continue
            lo, hi = np.nanmin(t.points[:, i]), np.nanmax(t.points[:, i])
            tol = 1e-9 * (1 + abs(lo) + abs(hi))
            a, b = min(r), max(r)
            if not (np.isfinite([a, b]).all() and a <= lo + tol and b >= hi - tol):
                raise Violation(f"the {ax} axis ranges over {np.round(r, 4).tolist()}, the plotted points over {np.round([lo, hi], 4).tolist()}; {desc}", p.loc(out), "range")
            if not b > a:
                raise Violation(f"the {ax} axis has no length ({np.round(r, 4).tolist()}); {desc}", p.loc(out), "length")
    for q in ratios:
        if isinstance(q, dict):
            v = np.array(list(q.values()), dtype=float)
            if not np.isfinite(v).all() or (v <= 0).any():
                raise Violation(f"the aspect ratio of the figure is {q}; {desc}", p.loc(out), "ratio")


def one(ctx, it, seq, out):
    p = setup(it)
    for i, (what, col) in enumerate(seq):
        draw(it, p, what, col, i)
    finish(p, out)
    for kind, e in environments(ctx, len(seq), str(seq), out):
        compare(p, e, out, f"{kind} arrangement")
        ctx.count("points")


def again(ctx, it):
    p = setup(it)
    draw(it, p, "points", 1, 0)
    finish(p, "save")
    draw(it, p, "line", 1, 1)
    draw(it, p, "cell", 2, 2)
    finish(p, "save")
    for kind, e in environments(ctx, 3, "again"):
        compare(p, e, "save", f"{kind} arrangement, saved twice")


def empty(ctx, it):
    p = setup(it)
    finish(p, "save")
    p.at({})
