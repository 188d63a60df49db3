"""Plotted geometry: coordinates of traces are the absolute coordinates of what was asked to be drawn.

PlotlyEngine is analysed over a model of the figure; the value graphs of the
coordinates of the recorded traces are compared with the definition.
"""
import re

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation
from ..inputs import sarr
from ..interp import Tup
from . import kobj, plots
from .calls import cell, nums
from .plots import Plot, markers, seg_key, segments, traces

LEVEL = "other"
FLOOR = 30
ASSUMPTIONS = ["plotly draws the traces it is given", "colors, sizes and texts of labels are not decided, except colors of atoms"]
SHIFTS = ("default", "array", "list", "tuple")
PATH = [["GAMMA", "X"], ["Y", "Z", "GAMMA"]]
MANY = [[a, b] for a in kobj.NAMES for b in kobj.NAMES if a != b]
LONG = [["GAMMA", "X", "Y", "GAMMA", "Z", "W"]]


def check(ctx):
    it = plots.plot_interp(ctx)
    for f in ("array", "list"):
        for sh in SHIFTS:
            for lab in (None, "label"):
                ctx.ob(f"plot_cell ({f}, shift {sh}, legend {lab})", plot_cell, ctx, it, f, sh, lab)
            ctx.ob(f"plot_wigner_seitz_cell ({f}, shift {sh})", wigner, ctx, it, f, sh, "plot_wigner_seitz_cell")
            ctx.ob(f"plot_brillouin_zone ({f}, shift {sh})", wigner, ctx, it, f, sh, "plot_brillouin_zone")
            ctx.ob(f"plot_lattice ({f}, shift {sh})", lattice, ctx, it, f, sh)
            for keys in (("names",), ("species",), ("names", "species"), ()):
                ctx.ob(f"plot_atoms ({f}, shift {sh}, keys {keys})", atoms, ctx, it, f, sh, keys)
        ctx.ob(f"plot_atoms ({f}, 12 atoms)", atoms_many, ctx, it, f, 12)
        for n in (1, 3, 12):
            ctx.ob(f"plot_points ({f}, {n})", points, ctx, it, f, n)
        ctx.ob(f"plot_line ({f})", line, ctx, it, f, "plot_line")
        ctx.ob(f"plot_vector ({f})", line, ctx, it, f, "plot_vector")
    for sh in SHIFTS:
        for lab in (None, "label"):
            ctx.ob(f"plot_kpath (shift {sh}, legend {lab})", kpath, ctx, it, sh, lab)
        for only in (None, False, True):
            ctx.ob(f"plot_kpoints (shift {sh}, only_from_kpath {only})", kpoints, ctx, it, sh, only)
    for path in (LONG, MANY, [["GAMMA", "X", "Y", "Z", "W"] * 3], [["X", "W"]], [["X", "W"], ["W", "Y", "X"], ["GAMMA", "Y"]]):
        d = "|".join("-".join(x) for x in path)
        ctx.ob(f"plot_kpath (path {d})", kpath, ctx, it, True, "label", path)
        ctx.ob(f"plot_kpoints (path {d})", kpoints, ctx, it, True, True, path)
    for names, path in ((["X", "X1", "X_P", "XY", "1"], [["X1", "XY"]]), (["X", "x", "X'", "Y_X", "_"], [["Y_X", "X'", "Y_X"]]), (["AB", "A", "B", "BA", "ABA"], [["ABA", "BA"], ["ABA", "AB"]])):
        for only in (None, True):
            ctx.ob(f"plot_kpoints (names {names}, path {path}, only_from_kpath {only})", kpoints, ctx, it, True, only, path, names)


def shift_arg(it, st, sh):
    if sh == "default":
        return {}
    if sh == "array":
        return dict(shift=sarr(it, st, "shift", (3,)))
    if sh == "list":
        return dict(shift=nums(it, st, "shift", (3,)))
    return dict(shift=Tup([tm.sym(f"shift[{i}]", "float") for i in range(3)]))


def base(ctx, *key):
    g = oracle.rng(ctx.seed, *key)
    for _ in range(3 if not ctx.thorough else 12):
        e = plots.rand_env(g, {"shift": (3,), "start": (3,), "end": (3,)})
        c = oracle.random_cell(g)
        e["cell"] = c
        for i in range(3):
            for j in range(3):
                e[f"cell[{i}][{j}]"] = float(c[i, j])
        yield g, e


def shift_of(e, sh):
    return np.zeros(3) if sh == "default" else e["shift"]


def frame(p, e, name, row, col, label, group):
    """Traces of the call, checks common to all of them."""
    p.at(e)
    ts = traces(p, e)
    if not ts:
        raise Violation(f"{name} draws nothing", p.loc(name), "nothing")
    for t in ts:
        if (t.row, t.col) != (row, col):
            raise Violation(f"{name} draws in the subplot {(t.row, t.col)}, {(row, col)} was given", p.loc(name), "subplot")
    groups = {t.d.get("legendgroup") for t in ts}
    if len(groups) != 1 or None in groups or (group is not None and groups != {group}):
        raise Violation(f"{name} puts its traces in the groups {sorted(map(str, groups))}{'' if group is None else ', ' + group + ' was given'}", p.loc(name), "legend group")
    shown = [t for t in ts if t.d.get("showlegend")]
    if len(shown) != (0 if label is None else 1) or any(t.d.get("name") != label for t in shown):
        raise Violation(f"{name} makes {len(shown)} entries in the legend for legend_label = {label!r}", p.loc(name), "legend entries")
    return ts


def where(label, group=None):
    d = dict(row=2, col=3)
    if label is not None:
        d["legend_label"] = label
    if group is not None:
        d["legend_group"] = group
    return d


def expect_segments(p, name, got, want):
    g, w = sorted(map(seg_key, got)), sorted(map(seg_key, want))
    if g != w:
        extra = [s for s in g if g.count(s) > w.count(s)]
        miss = [s for s in w if w.count(s) > g.count(s)]
        raise Violation(f"{name} draws {len(g)} segments, {len(w)} expected; e.g. wrong or repeated {extra[:1]}, missing {miss[:1]}", p.loc(name), f"{name} segments")


def edges_of(c, s):
    out = []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        for m in (0, 1):
            for n in (0, 1):
                o = s + m * c[j] + n * c[k]
                out.append((o, o + c[i]))
    return out


def vectors(p, name, ts, c, s):
    """Cones at the tips of the vectors along them."""
    cones = [t for t in ts if t.kind == "cone"]
    if len(cones) != 3:
        raise Violation(f"{name} draws {len(cones)} tips of vectors, 3 expected", p.loc(name), "cones")
    for i in range(3):
        for t in cones:
            d = np.array([np.ravel(t.d[k])[0] for k in "uvw"], dtype=float)
            if rint.close(t.points, (s + c[i])[None, :]) and rint.close(np.cross(d, c[i]), np.zeros(3)) and d @ c[i] > 0:
                break
        else:
            raise Violation(f"{name} does not draw the tip of the vector {i + 1}", p.loc(name), "tip")


def plot_cell(ctx, it, f, sh, lab):
    for vec in (None, True, False):
        p = Plot(it)
        c = cell(it, p.st, f)
        p.call("plot_cell", c, **shift_arg(it, p.st, sh), **where(lab, "g" if vec is None else None), **({} if vec is None else dict(plot_vectors=vec)))
        for g, e in base(ctx, f, sh, lab, vec):
            ts = frame(p, e, "plot_cell", 2, 3, lab, "g" if vec is None else None)
            s = shift_of(e, sh)
            want = edges_of(e["cell"], s)
            if vec is not False:
                want += [(s, s + v) for v in e["cell"]]
                vectors(p, "plot_cell", ts, e["cell"], s)
            expect_segments(p, "plot_cell", segments(ts), want)
            ctx.count("points")


def wigner(ctx, it, f, sh, name):
    e0 = [(0, 1), (1, 2), (3, 0), (2, 3)]
    seen = []

    def stub(rec):
        def fn(i, st, a, k):
            b = (list(a) + list(k.values()))[0]
            seen.append((rec, i.to_array_T(st, b)))
            return Tup([sarr(i, st, "V", (4, 3)), i.new_array(st, tm.arr((4, 2), [x for q in e0 for x in q]))])
        return fn
    old = dict(it.stubs) if hasattr(it, "stubs") else None
    it.stub_public("wulfric.cell.get_wigner_seitz_cell", stub("ws"))
    it.stub_public("wulfric.cell.get_brillouin_zone", stub("bz"))
    for lab in (None, "label"):
        for vec in (True, False):
            seen.clear()
            p = Plot(it)
            c = cell(it, p.st, f)
            p.call(name, c, plot_vectors=vec, **shift_arg(it, p.st, sh), **where(lab))
            if not seen:
                raise Undecided("Wigner-Seitz cell comes from elsewhere")
            for g, e in base(ctx, f, sh, lab, name):
                e["V"] = g.uniform(-1, 1, (4, 3))
                ts = frame(p, e, name, 2, 3, lab, None)
                s = shift_of(e, sh)
                cc = e["cell"] if name == "plot_wigner_seitz_cell" else 2 * np.pi * np.linalg.inv(e["cell"]).T
                for rec, t in seen:
                    got = np.asarray(tm.evaluate(t, e))
                    if rec == "bz":
                        got = 2 * np.pi * np.linalg.inv(got).T
                    if not rint.close(got, cc):
                        raise Violation(f"{name} draws the Wigner-Seitz cell of another lattice", p.loc(name), "other lattice")
                want = [(s + e["V"][a], s + e["V"][b]) for a, b in e0]
                if vec:
                    want += [(s, s + v) for v in cc]
                    vectors(p, name, ts, cc, s)
                expect_segments(p, name, segments(ts), want)
                ctx.count("points")


def expect_points(p, name, got, want, ordered=True):
    got, want = np.asarray(got), np.asarray(want)
    if not ordered and got.shape == want.shape:
        got = got[np.lexsort(np.round(got, 6).T)]
        want = want[np.lexsort(np.round(want, 6).T)]
    if got.shape != want.shape or not rint.close(got, want):
        raise Violation(f"{name} draws points at {np.round(got, 4).tolist()[:4]}..., {np.round(want, 4).tolist()[:4]}... expected ({len(got)} and {len(want)} points)", p.loc(name), f"{name} points")


def lattice(ctx, it, f, sh):
    for rng in (None, (1, 1, 1), (2, 0, 1), (0, 0, 0)):
        p = Plot(it)
        c = cell(it, p.st, f)
        p.call("plot_lattice", c, **shift_arg(it, p.st, sh), **where("label"), **({} if rng is None else dict(range=Tup(list(rng)))))
        r = rng or (1, 1, 1)
        for g, e in base(ctx, f, sh, str(rng)):
            ts = frame(p, e, "plot_lattice", 2, 3, "label", None)
            ix = np.array([(i, j, k) for i in range(-r[0], r[0] + 1) for j in range(-r[1], r[1] + 1) for k in range(-r[2], r[2] + 1)])
            expect_points(p, "plot_lattice", np.concatenate([t.points for t in markers(ts)]), ix @ e["cell"] + shift_of(e, sh), ordered=False)
            ctx.count("points")


def points(ctx, it, f, n):
    p = Plot(it)
    arg = sarr(it, p.st, "pts", (n, 3)) if f == "array" else nums(it, p.st, "pts", (n, 3))
    p.call("plot_points", arg, **where("label", "gr"))
    for g, e in base(ctx, f, n):
        e.update(plots.rand_env(g, {"pts": (n, 3)}))
        ts = frame(p, e, "plot_points", 2, 3, "label", "gr")
        expect_points(p, "plot_points", np.concatenate([t.points for t in markers(ts)]), e["pts"])


def line(ctx, it, f, name):
    for vl in (None, "v") if name == "plot_vector" else (None,):
        p = Plot(it)
        mk_ = (lambda n: sarr(it, p.st, n, (3,))) if f == "array" else (lambda n: nums(it, p.st, n, (3,)))
        p.call(name, mk_("start"), mk_("end"), **where("label", "gr"), **({} if vl is None else dict(vector_label=vl)))
        for g, e in base(ctx, f, name):
            ts = frame(p, e, name, 2, 3, "label", "gr")
            expect_segments(p, name, segments(ts), [(e["start"], e["end"])])
            if name == "plot_vector":
                d = e["end"] - e["start"]
                cones = [t for t in ts if t.kind == "cone"]
                if len(cones) != 1 or not rint.close(cones[0].points, e["end"][None, :]):
                    raise Violation("plot_vector does not draw one tip at the end of the vector", p.loc(name), "tip")
                u = np.array([np.ravel(cones[0].d[k])[0] for k in "uvw"], dtype=float)
                if not rint.close(np.cross(u, d), np.zeros(3)) or u @ d <= 0:
                    raise Violation("the tip of the vector has another direction", p.loc(name), "direction of tip")
                txt = [x for t in ts if "text" in t.mode for x in np.ravel(t.d.get("text"))]
                if txt != ([] if vl is None else [vl]):
                    raise Violation(f"labels of the vector are {txt}", p.loc(name), "label of vector")


def kset(it, ctx, path=PATH, names=kobj.NAMES):
    r = kobj.make(it, path=path, n=3, names=names)
    if r.st.pc == 0:
        raise Undecided("Kpoints object is not constructed")
    return r


def kpath(ctx, it, sh, lab, path=PATH):
    r = kset(it, ctx, path)
    p = Plot(it, r.st)
    p.call("plot_kpath", r.value, **shift_arg(it, p.st, sh), **where(lab))
    for g, e in base(ctx, sh, lab):
        e.update(kobj.env(g))
        ts = frame(p, e, "plot_kpath", 2, 3, lab, None)
        s = shift_of(e, sh)
        xyz = {n: e[f"k{i}"] @ e["rcell"] + s for i, n in enumerate(kobj.NAMES)}
        want = [(xyz[a], xyz[b]) for sp in path for a, b in zip(sp, sp[1:])]
        expect_segments(p, "plot_kpath", segments(ts), want)


def numbers(text):
    return [float(x) for x in re.findall(r"-?\d+\.\d+", str(text))]


def mentions(text, v):
    ns = numbers(text)
    return all(any(abs(n - x) < 6e-5 for n in ns) for x in v)


def kpoints(ctx, it, sh, only, path=PATH, NAMES=kobj.NAMES):
    r = kset(it, ctx, path, NAMES)
    p = Plot(it, r.st)
    p.call("plot_kpoints", r.value, **shift_arg(it, p.st, sh), **where("label"), **({} if only is None else dict(only_from_kpath=only)))
    names = [n for n in NAMES if not only or any(n in s for s in path)]
    for g, e in base(ctx, sh, only):
        e.update(kobj.env(g))
        ts = markers(frame(p, e, "plot_kpoints", 2, 3, "label", None))
        s = shift_of(e, sh)
        rel = {n: e[f"k{i}"] for i, n in enumerate(NAMES)}
        got = [x for t in ts for x in t.points]
        txt = [x for t in ts for x in np.ravel(t.d.get("text"))]
        if sorted(map(str, txt)) != sorted(names):
            raise Violation(f"plot_kpoints draws the points {txt}, {names} expected", p.loc("plot_kpoints"), "kpoints names")
        for x, n in zip(got, txt):
            if not rint.close(x, rel[n] @ e["rcell"] + s):
                raise Violation(f"plot_kpoints draws the point {n} at {np.round(x, 4).tolist()}, {np.round(rel[n] @ e['rcell'] + s, 4).tolist()} expected", p.loc("plot_kpoints"), "kpoints position")
        for t in ts:
            h = t.d.get("hovertext")
            if h is None or isinstance(h, str):
                continue
            for x, n, y in zip(t.points, np.ravel(t.d.get("text")), h):
                if str(n) not in y or not mentions(y, rel[n]) or not mentions(y, x):
                    raise Violation(f"hover text of the point {n} does not show its name, relative and absolute coordinates: {y}", p.loc("plot_kpoints"), "kpoints hover")


SPECIES = ["Fe", "O", "Cr"]


def atoms_many(ctx, it, f, n):
    names = [("Fe", "O", "Cr")[i * i % 3] + str(90 - i) for i in range(n)]
    names[3] = "?87"  # no element
    p = Plot(it)
    st = p.st
    pos = sarr(it, st, "pos", (n, 3)) if f == "array" else nums(it, st, "pos", (n, 3))
    p.call("plot_atoms", cell(it, st, f), it.new_dict(st, [("positions", pos), ("names", it.new_list(st, names))]), **where("label"))
    tab = it.public("wulfric.constants").env["ATOM_COLORS"]
    for g, e in base(ctx, f, n, "many"):
        e.update(plots.rand_env(g, {"pos": (n, 3)}))
        table = rint.val(kobj.R(it, st), tab, e)
        ts = markers(frame(p, e, "plot_atoms", 2, 3, "label", None))
        expect_points(p, "plot_atoms", np.concatenate([t.points for t in ts]), e["pos"] @ e["cell"])
        txt = [x for t in ts for x in np.ravel(t.d.get("text"))]
        if txt != names:
            raise Violation(f"plot_atoms labels the atoms {txt}, their names are {names}", p.loc("plot_atoms"), "atom labels")
        col = [t.d.get("marker", {}).get("color") for t in ts]
        col = col[0] if len(col) == 1 else col
        want = [table[x.rstrip("0123456789").replace("?", "X")] for x in names]
        if not isinstance(col, (list, tuple)) or list(col) != want:
            raise Violation(f"plot_atoms gives the atoms the colors {col}, {want} expected", p.loc("plot_atoms"), "atom colors")
        for t in ts:
            h = t.d.get("hovertext")
            if isinstance(h, (list, tuple)) and len(h) == n:
                for i, y in enumerate(h):
                    if not mentions(y, e["pos"][i]) or not mentions(y, t.points[i]):
                        raise Violation(f"hover text of the atom {i + 1} does not show its relative and absolute coordinates: {y}", p.loc("plot_atoms"), "atom hover")
                    if not re.search(rf"(?<![\d.]){i + 1}(?![\d.])", y):
                        raise Violation(f"hover text of the atom {i + 1} does not show its index: {y}", p.loc("plot_atoms"), "atom hover index")
                    if names[i] not in y:
                        raise Violation(f"hover text of the atom {i + 1} does not show its name {names[i]}: {y}", p.loc("plot_atoms"), "atom hover name")
        ctx.count("points")


def atoms(ctx, it, f, sh, keys):
    for colors in (None, ["#112233", "#445566", "#778899"], "#ABCDEF"):
        p = Plot(it)
        st = p.st
        c = cell(it, st, f)
        pos = sarr(it, st, "pos", (3, 3)) if f == "array" else nums(it, st, "pos", (3, 3))
        names = ["Fe1", "O2", "Cr7"]
        pairs = [("positions", pos)]
        if "names" in keys:
            pairs.append(("names", it.new_list(st, names)))
        if "species" in keys:
            pairs.append(("species", it.new_list(st, ["Ni", "O", "Cr"] if "names" in keys else SPECIES)))
        kw = {}
        if colors is not None:
            kw["colors"] = colors if isinstance(colors, str) else it.new_list(st, colors)
        p.call("plot_atoms", c, it.new_dict(st, pairs), **shift_arg(it, st, sh), **where("label"), **kw)
        tab = it.public("wulfric.constants").env["ATOM_COLORS"]
        for g, e in base(ctx, f, sh, str(keys), str(colors)):
            e.update(plots.rand_env(g, {"pos": (3, 3)}))
            table = rint.val(kobj.R(it, st), tab, e)
            ts = markers(frame(p, e, "plot_atoms", 2, 3, "label", None))
            expect_points(p, "plot_atoms", np.concatenate([t.points for t in ts]), e["pos"] @ e["cell"] + shift_of(e, sh))
            txt = [x for t in ts for x in np.ravel(t.d.get("text"))]
            if "names" in keys and txt != names:
                raise Violation(f"plot_atoms labels the atoms {txt}, their names are {names}", p.loc("plot_atoms"), "atom labels")
            col = [t.d.get("marker", {}).get("color") for t in ts]
            col = col[0] if len(col) == 1 else col
            want = colors
            if colors is None:
                sp = ["Ni", "O", "Cr"] if keys == ("names", "species") else SPECIES if keys else ["X"] * 3
                want = [table[x] for x in sp]
            if (list(col) if not isinstance(col, str) else [col] * 3) != (want if not isinstance(want, str) else [want] * 3):
                raise Violation(f"plot_atoms gives the atoms the colors {col}, {want} expected", p.loc("plot_atoms"), "atom colors")
            for t in ts:
                h = t.d.get("hovertext")
                if isinstance(h, (list, tuple)) and len(h) == 3:
                    for i, y in enumerate(h):
                        if not mentions(y, e["pos"][i]) or not mentions(y, t.points[i]):
                            raise Violation(f"hover text of the atom {i + 1} does not show its relative and absolute coordinates: {y}", p.loc("plot_atoms"), "atom hover")
            ctx.count("points")
