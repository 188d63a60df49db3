"""Kpoints.from_crystal holds the recommended points and path of the crystal; hs_table lists all points of an object.

from_crystal and get_path_and_points are analysed for the same crystal; names,
coordinates, path, labels, reciprocal cell and n of the object are compared with
the result of the other function. The text of hs_table is read row by row.
"""
import numpy as np

from .. import oracle, oracle_k, rint
from ..core import Undecided, Violation, fun_loc
from ..interp import State
from . import kobj
from .common import crystal_env, crystal_interp, run_crystal

LEVEL = "other"
FLOOR = 90
FN = "wulfric.Kpoints.from_crystal"
GP = "wulfric.kpoints.get_path_and_points"
TYPES = [("c", "P"), ("c", "F"), ("c", "I"), ("t", "P"), ("t", "I"), ("o", "P"), ("o", "C"), ("o", "F"), ("o", "I"), ("o", "A"), ("h", "P"), ("h", "R"), ("m", "P"), ("m", "C"), ("a", "P")]
# groups without inversion
NONCENTRO = {("c", "P"): 195, ("c", "F"): 196, ("c", "I"): 197, ("t", "P"): 75, ("t", "I"): 79, ("o", "P"): 16, ("o", "C"): 20, ("o", "F"): 22, ("o", "I"): 23, ("o", "A"): 38,
             ("h", "P"): 143, ("h", "R"): 146, ("m", "P"): 3, ("m", "C"): 5, ("a", "P"): 1}


def check(ctx):
    it = crystal_interp(ctx)
    for t in TYPES:
        for conv in ("HPKOT", "SC", None):
            for tr in (None, True, False):
                for n in ((None, 7) if tr is None else (7,)):
                    ctx.ob(f"from_crystal of {t[0]}{t[1]}, {conv}, with_time_reversal={tr}, n={n}", composed, ctx, it, t, conv, tr, n)
    p = ctx.interp("plain")
    for names, labels in ((kobj.NAMES, kobj.LABELS), (["GAMMA"], ["$G$"]), (["A", "a rather long name", "B_1"], ["a", "b", "c"]), (["K2", "K1", "K3"], None), ([], []), ([f"P{i}" for i in range(60)], None)):
        for path in (None, "other"):
            for d in (None, 0, 1, 3, 12, 15):
                if path and len(names) < 3:
                    continue
                pth = None if path is None and len(names) > 1 else [[names[0], names[-1]]] if len(names) > 1 else []
                ctx.ob(f"hs_table of {len(names)} points, path {path}, decimals {d}", table, ctx, p, names, labels, pth, d, False)
    for d in (None, 5):
        ctx.ob(f"hs_table after additions and removals, decimals {d}", table, ctx, p, kobj.NAMES, kobj.LABELS, [["GAMMA", "X"]], d, True)


def composed(ctx, it, t, conv, tr, n):
    kw = {} if tr is None else dict(with_time_reversal=tr)
    num = NONCENTRO[t]
    r1, *_ = run_crystal(it, GP, *t, conv, number=num, extra_kwargs=dict(kw))
    r2, *_ = run_crystal(it, FN, *t, conv, number=num, extra_kwargs=dict(kw, **({} if n is None else dict(n=n))))
    loc = fun_loc(it.public(FN)) if hasattr(it.public(FN), "node") else None
    g = oracle.rng(ctx.seed, str(t), str(conv), str(tr))
    if r2.st.pc == 0 and r1.st.pc != 0:
        raise Violation(f"from_crystal raises {rint.cls_name(r2.raises[-1].cls)} although there is a recommended path", r2.raises[-1].loc, "from_crystal raises")
    names = plot_names(it)
    used = 0
    for c in oracle_k.region_cells(g, *t, 6)[:16]:
        env = crystal_env(g, *t, c)
        env["cell"] = np.array([[1, 1, 0], [0, 1, 0], [0, 1, 2]]) @ env["cell"]
        m1, m2 = {}, {}
        if rint.raised(r1, env, m1) is not None:
            continue
        x = rint.raised(r2, env, m2)
        if x is not None:
            raise Violation(f"from_crystal raises {rint.cls_name(x.cls)} although there is a recommended path", x.loc, "from_crystal raises")
        v = rint.val(r1, r1.value, env, m1)
        if len(v) != 2:
            raise Undecided("other result")
        path, pts = [s.split("-") for s in v[0].split("|")] if isinstance(v[0], str) else [list(s) for s in v[0]], dict(v[1])
        got = {}
        for k in ("rcell", "hs_names", "hs_coordinates", "hs_labels", "path", "n"):
            y, _ = kobj.get(it, r2.st, r2.value, k)
            got[k] = rint.val(r2, y, env, m2)
        at = rint.exit_at(r2, env, m2, loc)
        if not rint.close(got["rcell"], 2 * np.pi * np.linalg.inv(np.array(env["cell"], dtype=float)).T):
            raise Violation("rcell of the object is not the reciprocal cell of the given cell", at, "rcell")
        if [list(s) for s in got["path"]] != path:
            raise Violation(f"path of the object {got['path']} is not the recommended path {path}", at, "path")
        if sorted(got["hs_names"]) != sorted(pts) or len(set(got["hs_names"])) != len(got["hs_names"]):
            raise Violation(f"points {got['hs_names']} are not the recommended points {list(pts)}", at, "points")
        if set(got["hs_coordinates"]) != set(pts) or set(got["hs_labels"]) != set(pts):
            raise Violation("coordinates or labels belong to other points", at, "keys")
        for k in pts:
            if not rint.close(got["hs_coordinates"][k], pts[k]):
                raise Violation(f"coordinates of the point {k} are not the recommended ones", at, "coordinates")
            if got["hs_labels"][k] != names.get(k):
                raise Violation(f"label of the point {k} is {got['hs_labels'][k]!r}, not its plot name {names.get(k)!r}", at, "labels")
        if got["n"] != (100 if n is None else n):
            raise Violation(f"n of the object is {got['n']}, requested {n}", at, "n")
        used += 1
    if not used and r1.st.pc != 0:
        raise Undecided("no admissible representative")
    ctx.count("points", used)


def plot_names(it):
    m = it.load("wulfric.constants").env.get("HS_PLOT_NAMES")
    if m is None:
        raise Undecided("table of plot names is not found")
    st = State()
    st.heap.update(it.base_heap)
    return {k: v for k, v in it.content(st, m)}


def table(ctx, it, names, labels, path, d, changed):
    r = kobj.make(it, path=path, names=names, labels=labels)
    if r.st.pc == 0:
        raise Undecided("constructor refuses")
    st, k = r.st, r.value
    names = list(names)
    g = oracle.rng(ctx.seed, str(names), str(d))
    env = kobj.env(g, len(names))
    if changed:
        from ..inputs import sarr
        env["extra"] = g.uniform(-1, 1, size=3)
        kobj.call(it, st, k, "add_hs_point", "NEW", sarr(it, st, "extra", (3,)), "new", relative=False)
        kobj.call(it, st, k, "remove_hs_point", "Z")
        names = [n for n in names if n != "Z"] + ["NEW"]
    v, raises = kobj.call(it, st, k, "hs_table", *([] if d is None else [d]))
    loc = kobj.loc(it, "hs_table")
    if st.pc == 0:
        raise Violation(f"hs_table raises {rint.cls_name(raises[-1].cls)}", raises[-1].loc, "hs_table raises")
    text = rint.val(kobj.R(it, st), v, env)
    coords = {n: env[f"k{i}"] for i, n in enumerate(kobj.NAMES if changed else names) if f"k{i}" in env}
    if changed:
        coords["NEW"] = env["extra"] @ np.linalg.inv(env["rcell"])
    dec = 8 if d is None else d
    rows = text.split("\n")
    if len(rows) != 1 + len(names):
        raise Violation(f"hs_table has {len(rows)} lines for {len(names)} points and a header", loc, "rows")
    head = rows[0].split()
    if head != ["Name", "rel_b1", "rel_b2", "rel_b3", "k_x", "k_y", "k_z"]:
        raise Violation(f"header of hs_table is {head}", loc, "header")
    for n, row in zip(names, rows[1:]):
        if not row.startswith(n) or len(row[len(n):].split()) != 6:
            raise Violation(f"row {row!r} of hs_table is not the row of {n}: name and six numbers", loc, "row")
        num = row[len(n):].split()
        want = list(coords[n]) + list(np.asarray(coords[n]) @ env["rcell"])
        for a, b in zip(num, want):
            try:
                f = float(a)
            except ValueError:
                raise Violation(f"{a!r} in hs_table is not a number", loc, "number")
            if abs(f - b) > 0.5000001 * 10.0 ** -dec + 1e-9:
                raise Violation(f"hs_table shows {a} for {n} where the coordinate is {b:.{dec}f}", loc, "number")
            if dec and len(a.split(".")[-1]) != dec:
                raise Violation(f"hs_table shows {a} with decimals={dec}", loc, "decimals")
    ctx.count("rows", len(names))
