"""Plotted objects have the given color, label and size; hover texts show the properties of atoms.

PlotlyEngine is analysed over a model of the figure; colors, texts and sizes of the
recorded traces are compared with the arguments of the call.
"""
import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation
from ..inputs import sarr
from ..interp import Tup
from . import kobj, plots
from .c28_plot_geometry import PATH, base, kset, where
from .calls import cell, nums
from .plots import Plot, Trace, traces

LEVEL = "other"
FLOOR = 30
ASSUMPTIONS = ["plotly draws the traces it is given", "widths of lines and positions of texts relative to their points are not decided"]
BLACK, BZ = "#000000", "#FF4D67"
COLORS = (None, "#12AB34", "red", "rgb(1, 2, 3)")


def check(ctx):
    it = plots.plot_interp(ctx)
    for f in ("array", "list"):
        for col in COLORS:
            for name in ("plot_points", "plot_line", "plot_vector", "plot_cell", "plot_wigner_seitz_cell", "plot_brillouin_zone", "plot_lattice"):
                ctx.ob(f"{name} ({f}, color {col})", colored, ctx, it, f, name, col)
        for v in (None, False, "q"):
            for name in ("plot_cell", "plot_wigner_seitz_cell", "plot_brillouin_zone"):
                ctx.ob(f"{name} ({f}, vectors {v})", vectors, ctx, it, f, name, v)
        ctx.ob(f"plot_vector ({f}, label)", vector_label, ctx, it, f)
        ctx.ob(f"plot_points ({f}, colors of points)", many_colors, ctx, it, f)
        ctx.ob(f"plot_points ({f}, scale)", scale, ctx, it, f, "plot_points")
        ctx.ob(f"plot_atoms ({f}, scale)", scale, ctx, it, f, "plot_atoms")
        ctx.ob(f"plot_atoms ({f}, contrast of labels)", contrast, ctx, it, f)
        for keys in ((), ("names",), ("species",), ("names", "species"), ("names", "spglib_types"), ("names", "charge"), ("moment", "names", "species", "spglib_types", "charge"), ("_q", "Position")):
            for bad in (0, 2, 4):
                ctx.ob(f"plot_atoms ({f}, hover text, keys {keys}, key with {bad} entries)", hover, ctx, it, f, keys, bad)
            ctx.ob(f"plot_atoms ({f}, no hover text, keys {keys})", no_hover, ctx, it, f, keys)
    for col in COLORS:
        for name in ("plot_kpath", "plot_kpoints"):
            ctx.ob(f"{name} (color {col})", colored, ctx, it, "array", name, col)
    ctx.ob("plot_kpoints (scale)", scale, ctx, it, "array", "plot_kpoints")
    for k in range(len(KP)):
        ctx.ob(f"plot_kpoints (hover text, {KP[k]})", kp_hover, ctx, it, *KP[k])


def stub_ws(it):
    def fn(i, st, a, k):
        return Tup([sarr(i, st, "V", (4, 3)), i.new_array(st, tm.arr((4, 2), [0, 1, 1, 2, 3, 0, 2, 3]))])
    it.stub_public("wulfric.cell.get_wigner_seitz_cell", fn)
    it.stub_public("wulfric.cell.get_brillouin_zone", fn)


def draw(ctx, it, f, name, **kw):
    """-> plot after one call"""
    if name in ("plot_kpath", "plot_kpoints"):
        r = kset(it, ctx)
        p = Plot(it, r.st)
        p.call(name, r.value, **where("label", "gr"), **kw)
        return p
    p = Plot(it)
    st = p.st
    mk_ = lambda n, s: sarr(it, st, n, s) if f == "array" else nums(it, st, n, s)
    if name == "plot_points":
        a = [mk_("pts", (3, 3))]
    elif name in ("plot_line", "plot_vector"):
        a = [mk_("start", (3,)), mk_("end", (3,))]
    elif name == "plot_atoms":
        a = [cell(it, st, f), it.new_dict(st, [("positions", mk_("pos", (3, 3))), ("names", it.new_list(st, ["Fe1", "O2", "Cr7"]))])]
    else:
        if name in ("plot_wigner_seitz_cell", "plot_brillouin_zone"):
            stub_ws(it)
        a = [cell(it, st, f)]
    p.call(name, *a, **where("label", "gr"), **kw)
    return p


def points_of(ctx, *key):
    for g, e in base(ctx, *key):
        e.update(plots.rand_env(g, {"pts": (3, 3), "pos": (3, 3)}))
        e.update(kobj.env(g))
        e["V"] = g.uniform(-1, 1, (4, 3))
        yield g, e


def parts(p, e):
    """Every recorded trace, also those of texts."""
    p.at(e)
    out = traces(p, e)
    if not out:
        raise Undecided("nothing is drawn")
    return out


def sub(d, *path):
    """Entry of nested settings, written as nested dictionaries or with underscores."""
    if not path:
        return d
    if not isinstance(d, dict):
        return None
    for n in range(len(path), 0, -1):
        k = "_".join(path[:n])
        if k in d:
            v = sub(d[k], *path[n:])
            if v is not None:
                return v
    return None


def colors_of(t):
    """{part: color} of one trace"""
    d, out = t.d, {}
    if t.kind == "cone":
        s = d.get("colorscale")
        if s is None or isinstance(s, str):
            return {"tip": s}
        return {f"tip {i}": x[1] for i, x in enumerate(s)}
    mc = sub(d, "marker", "color")
    if "lines" in t.mode:
        c = sub(d, "line", "color")
        out["line"] = mc if c is None else c
    if "markers" in t.mode:
        out["marker"] = mc
    if "text" in t.mode:
        out["text"] = sub(d, "textfont", "color")
    return out


def one(c):
    if isinstance(c, str) or c is None:
        return c
    v = {x for x in np.ravel(np.asarray(c, dtype=object))}
    return v.pop() if len(v) == 1 else tuple(c)


def colored(ctx, it, f, name, col):
    key = "colors" if name == "plot_points" else "color"
    kw = {} if col is None else {key: col}
    if name == "plot_vector":
        kw["vector_label"] = "v"
    p = draw(ctx, it, f, name, **kw)
    want = col or (BZ if name == "plot_brillouin_zone" else BLACK)
    for g, e in points_of(ctx, f, name, str(col)):
        for t in parts(p, e):
            for part, c in colors_of(t).items():
                if one(c) != want:
                    raise Violation(f"{name} draws the {part} with the color {c}, {want} {'is the default' if col is None else 'was given'}", p.loc(name), f"{name} color")
        ctx.count("points")
        break


def texts(ts):
    """[(text, point)]"""
    out = []
    for t in ts:
        if "text" in t.mode and t.kind != "cone":
            x = t.d.get("text")
            x = [x] * len(t.points) if isinstance(x, str) else list(np.ravel(np.asarray(x, dtype=object))) if x is not None else []
            if len(x) != len(t.points):
                raise Undecided("texts and points of different length")
            out += list(zip(x, t.points))
    return out


def vectors(ctx, it, f, name, v):
    kw = {} if v is None else dict(plot_vectors=False) if v is False else dict(vector_label=v)
    for sh in (False, True):
        k2 = dict(kw)
        if sh:
            k2["shift"] = Tup([tm.sym(f"shift[{i}]", "float") for i in range(3)])
        p = draw(ctx, it, f, name, **k2)
        pre = v if isinstance(v, str) else "b" if name == "plot_brillouin_zone" else "a"
        for g, e in points_of(ctx, f, name, str(v)):
            ts = parts(p, e)
            got = texts(ts)
            cones = [t for t in ts if t.kind == "cone"]
            want = [] if v is False else [f"{pre}{i}" for i in (1, 2, 3)]
            if sorted(str(x) for x, _ in got) != want:
                raise Violation(f"{name} labels the vectors {[x for x, _ in got]}, {want} expected", p.loc(name), f"{name} labels of vectors")
            if v is False and cones:
                raise Violation(f"{name} draws vectors for plot_vectors = False", p.loc(name), f"{name} vectors are drawn")
            cc = e["cell"] if name != "plot_brillouin_zone" else 2 * np.pi * np.linalg.inv(e["cell"]).T
            s = e["shift"] if sh else np.zeros(3)
            for x, q in got:
                beyond(p, name, x, q - s, cc[int(str(x)[-1]) - 1])
            ctx.count("points")


def beyond(p, name, x, d, v):
    """The label is on the line of its vector, by its tip and not inside of it."""
    a = d @ v / (v @ v)
    if not rint.close(d, a * v) or not 1 - 1e-9 <= a <= 2:
        raise Violation(f"{name} puts the label {x} at {np.round(d, 4).tolist()} from the origin, away from the tip {np.round(v, 4).tolist()} of its vector", p.loc(name), f"{name} place of label")


def vector_label(ctx, it, f):
    p = draw(ctx, it, f, "plot_vector", vector_label="lab")
    for g, e in points_of(ctx, f, "vl"):
        got = texts(parts(p, e))
        if [str(x) for x, _ in got] != ["lab"]:
            raise Violation(f"plot_vector labels the vector {[x for x, _ in got]}, 'lab' was given", p.loc("plot_vector"), "vector label")
        beyond(p, "plot_vector", "lab", got[0][1] - e["start"], e["end"] - e["start"])


def many_colors(ctx, it, f):
    cs = ["#112233", "red", "#778899"]
    p = Plot(it)
    a = sarr(it, p.st, "pts", (3, 3)) if f == "array" else nums(it, p.st, "pts", (3, 3))
    p.call("plot_points", a, colors=it.new_list(p.st, cs))
    for g, e in points_of(ctx, f, "mc"):
        for t in parts(p, e):
            c = colors_of(t).get("marker")
            c = [c] * len(t.points) if isinstance(c, str) or c is None else list(c)
            want = []
            for q in t.points:
                ix = [i for i in range(3) if rint.close(q, e["pts"][i])]
                want += [cs[ix[0]]] if ix else []
            if len(want) == len(t.points) and c != want:
                raise Violation(f"plot_points gives the points the colors {c}, {want} were given", p.loc("plot_points"), "colors of points")


def sizes(ts):
    out = []
    for t in ts:
        if "markers" in t.mode:
            out.append(("marker", sub(t.d, "marker", "size")))
        if "text" in t.mode and "markers" in t.mode:
            out.append(("text", sub(t.d, "textfont", "size")))
    return out


def scale(ctx, it, f, name):
    per = {}
    for s in (None, 1, 2, 2.5, 0.5, 1.37):
        p = draw(ctx, it, f, name, **({} if s is None else dict(scale=s)))
        for g, e in points_of(ctx, f, name, "scale"):
            per[s] = sizes(parts(p, e))
            break
    one_ = per[None]
    for part, x in one_:
        if x is None or not np.all(np.asarray(x, dtype=float) > 0):
            raise Violation(f"{name} draws the {part} with the size {x}", p.loc(name), f"{name} size")
    for s, got in per.items():
        k = 1 if s is None else s
        if len(got) != len(one_):
            raise Undecided("number of traces depends on the scale")
        for (part, x), (_, y) in zip(got, one_):
            if x is None or not rint.close(np.asarray(x, dtype=float), k * np.asarray(y, dtype=float)):
                raise Violation(f"{name} draws the {part} with the size {x} for scale = {s}, {y} without it", p.loc(name), f"{name} scale of {part}")


def luminance(c):
    r, g, b = (int(c[i:i + 2], 16) / 255 for i in (1, 3, 5))
    return 0.2126 * r ** 2.2 + 0.7152 * g ** 2.2 + 0.0722 * b ** 2.2


def contrast(ctx, it, f):
    tab = None
    for case in ("#FFFFFF", "#000000", ["#FFFF99", "#000066", "#EEEEEE"], ["#A0A0A0", "#606060", "#00C000"], ["#FFFF00", "#0000FF", "#0A0B0C"], "#00ff00", "red", "rgb(1,2,3)", None):
        kw = {}
        p = Plot(it)
        st = p.st
        pos = sarr(it, st, "pos", (3, 3)) if f == "array" else nums(it, st, "pos", (3, 3))
        names = ["H1", "N2", "S3"] if case is None else ["Fe1", "O2", "Cr7"]
        at = it.new_dict(st, [("positions", pos), ("names", it.new_list(st, names))])
        if case is not None:
            kw["colors"] = case if isinstance(case, str) else it.new_list(st, case)
        p.call("plot_atoms", cell(it, st, f), at, **where("label", "gr"), **kw)
        for g, e in points_of(ctx, f, "contrast"):
            for t in parts(p, e):
                if "text" not in t.mode:
                    continue
                n = len(t.points)
                sp = lambda c: [c] * n if isinstance(c, str) or c is None else list(c)
                cs, tx = sp(sub(t.d, "marker", "color")), sp(sub(t.d, "textfont", "color"))
                if None in tx or len(tx) != n or len(cs) != n:
                    raise Violation(f"plot_atoms gives the labels the colors {tx} for the atoms of the colors {cs}", p.loc("plot_atoms"), "colors of labels")
                for a, b in zip(cs, tx):
                    hexa = isinstance(a, str) and len(a) == 7 and a[0] == "#"
                    if isinstance(b, str) and b.upper() in ("#000000", "#FFFFFF", "BLACK", "WHITE", "#000", "#FFF"):
                        white = b.upper() in ("#FFFFFF", "WHITE", "#FFF")
                        if hexa and (luminance(a) > 0.3 and white or luminance(a) < 0.13 and not white):
                            raise Violation(f"plot_atoms writes a {'white' if white else 'black'} label on the atom of the color {a}", p.loc("plot_atoms"), "contrast of label")
                    elif not hexa or not isinstance(b, str) or b.upper() == a.upper():
                        raise Undecided("another rule for the colors of labels")
            break


VAL = {"names": ["Fe1", "O2", "Cr7"], "species": ["Ni", "Oq", "Cw"], "spglib_types": [40041, 50052, 60063], "charge": [12345.25, "plus", 70717], "moment": ["up", "down", "flat"], "_q": [2.03125, 7.0625, 5.09375], "Position": ["left", "right", "around"]}


def hover(ctx, it, f, keys, bad):
    p = Plot(it)
    st = p.st
    pos = sarr(it, st, "pos", (3, 3)) if f == "array" else nums(it, st, "pos", (3, 3))
    pairs = [("positions", pos)] + [(k, it.new_list(st, VAL[k])) for k in keys]
    if bad:
        pairs.insert(1, ("tags", it.new_list(st, ["zzz1", "zzz2", "zzz3", "zzz4"][:bad])))
    kw = {"colors": "#ABCDEF"}
    n0 = len(it.events) if hasattr(it, "events") else 0
    p.call("plot_atoms", cell(it, st, f), it.new_dict(st, pairs), **where("label", "gr"), **kw)
    ev = [x for x in (it.events[n0:] if hasattr(it, "events") else []) if x.kind == "warn"]
    for g, e in points_of(ctx, f, str(keys), "hover"):
        ts = [t for t in parts(p, e) if "markers" in t.mode]
        got = []
        for t in ts:
            h = t.d.get("hovertext")
            info = t.d.get("hoverinfo", "all")
            if not isinstance(info, str) or not ("text" in info or info == "all"):
                raise Violation(f"plot_atoms does not show the hover text: hoverinfo is {info!r}", p.loc("plot_atoms"), "hover is off")
            if h is None and t.d.get("hovertemplate") is not None:
                raise Undecided("hover template")
            h = [h] if isinstance(h, str) and len(t.points) == 1 else h
            if h is None or isinstance(h, str) or len(h) != len(t.points):
                raise Violation(f"hover texts of the atoms are {h!r}", p.loc("plot_atoms"), "hover texts")
            got += list(zip(t.points, h))
        want = e["pos"] @ e["cell"]
        for q, y in got:
            ix = [i for i in range(3) if rint.close(q, want[i])]
            if len(ix) != 1:
                raise Undecided("atoms are drawn elsewhere")
            i = ix[0]
            for k in keys:
                if str(VAL[k][i]) not in str(y):
                    raise Violation(f"hover text of the atom {i + 1} does not show its {k} {VAL[k][i]!r}: {y}", p.loc("plot_atoms"), f"hover text without {'a key' if k not in ('names', 'species', 'spglib_types') else k}")
                for j in range(3):
                    if j != i and str(VAL[k][j]) in str(y):
                        raise Violation(f"hover text of the atom {i + 1} shows {k} of another atom: {y}", p.loc("plot_atoms"), "hover text of another atom")
            if not any(x in str(y) for x in (f"{i + 1}",)):
                raise Violation(f"hover text of the atom {i + 1} does not show its index: {y}", p.loc("plot_atoms"), "hover text without index")
            if bad and "zzz" in str(y):
                raise Violation(f"hover text shows the values of a key with another number of entries: {y}", p.loc("plot_atoms"), "hover text of a wrong key")
        if bool(ev) != bool(bad):
            raise Violation(f"{len(ev)} warnings for {'a key' if bad else 'no key'} with a number of entries other than the number of atoms", p.loc("plot_atoms"), "warning")
        ctx.count("points")


def no_hover(ctx, it, f, keys):
    p = Plot(it)
    st = p.st
    pos = sarr(it, st, "pos", (3, 3)) if f == "array" else nums(it, st, "pos", (3, 3))
    pairs = [("positions", pos)] + [(k, it.new_list(st, VAL[k])) for k in keys]
    p.call("plot_atoms", cell(it, st, f), it.new_dict(st, pairs), colors="#ABCDEF", add_hoverinfo=False, **where("label", "gr"))
    for g, e in points_of(ctx, f, str(keys), "nohover"):
        for t in parts(p, e):
            if t.d.get("hoverinfo") not in ("none", "skip"):
                raise Violation(f"plot_atoms shows hover information for add_hoverinfo = False: hoverinfo is {t.d.get('hoverinfo')!r}", p.loc("plot_atoms"), "hover is on")
        break


KP = [(kobj.NAMES, kobj.LABELS), (["X", "X1", "X_P", "XY", "Y"], ["$X$", "X_1$", "$X^{\\prime}$", "x y", "$"]), (["A'", "_A", "A_", "P_P", "a"], ["1", "$A$", "", "<br>", "A_P"])]


def kp_hover(ctx, it, names, labels):
    r = kobj.make(it, path=[names[:2], names[2:4]], n=3, names=names, labels=labels)
    if r.st.pc == 0:
        raise Undecided("Kpoints object is not constructed")
    p = Plot(it, r.st)
    p.call("plot_kpoints", r.value, **where("label", "gr"))
    for g, e in points_of(ctx, "kph"):
        for t in parts(p, e):
            if "markers" not in t.mode:
                continue
            info = t.d.get("hoverinfo", "all")
            h = t.d.get("hovertext")
            if not isinstance(info, str) or not ("text" in info or info == "all"):
                raise Violation(f"plot_kpoints does not show the hover text: hoverinfo is {info!r}", p.loc("plot_kpoints"), "kpoints hover is off")
            if h is None or isinstance(h, str) or len(h) != len(t.points):
                raise Undecided("hover text of another form")
            for n, y in zip(np.ravel(np.asarray(t.d.get("text"), dtype=object)), h):
                if str(n) not in names:
                    raise Violation(f"plot_kpoints labels a point {n!r}, its name is none of {names}", p.loc("plot_kpoints"), "kpoints name")
                lab = labels[names.index(str(n))]
                if str(n) not in str(y) or lab not in str(y):
                    raise Violation(f"hover text of the point {n} does not show its name and its label {lab}: {y}", p.loc("plot_kpoints"), "kpoints hover label")
