"""Missing packages: the import succeeds, what needs one raises ImportError, nothing else is affected.

The package is analysed with every combination of missing packages (import of
a missing one raises); each public call is then analysed again.
"""
from .. import rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import Cls, Fun, State
from . import calls
from .common import crystal_interp

LEVEL = "other"
FLOOR = 100
HEAVY = ("get_conventional", "get_primitive", "get_path_and_points", "bl_symbol", "sc_get_variation", "from_crystal")
COMBOS = [("plotly",), ("scipy",), ("spglib",), ("plotly", "scipy"), ("plotly", "scipy", "spglib")]
NEEDS = {
    "plotly": [("PlotlyEngine()", "wulfric.PlotlyEngine", lambda it, st: ([], {})), ("PlotlyEngine(fig)", "wulfric.PlotlyEngine", lambda it, st: ([calls.sym("fig", "any")], {}))],
    "scipy": [(n, "wulfric.cell." + n, lambda it, st: ([calls.cell(it, st, "array")], {})) for n in ("get_wigner_seitz_cell", "get_brillouin_zone")],
    "spglib": [("get_spglib_data", "wulfric.get_spglib_data", lambda it, st: ([calls.cell(it, st, "array"), calls.atoms(it, st, "array", ("names",), values=calls.NAMES)], {})),
               ("get_niggli", "wulfric.cell.get_niggli", lambda it, st: ([calls.cell(it, st, "array")], {})),
               ("get_niggli(spglib)", "wulfric.cell.get_niggli", lambda it, st: ([calls.cell(it, st, "array")], dict(implementation="SPGLIB")))] + [
        (n.split(".")[-1] + " without data", n, lambda it, st: ([calls.cell(it, st, "array"), calls.atoms(it, st, "array", ("names",), values=calls.NAMES)], {}))
        for n in ("wulfric.crystal.get_conventional", "wulfric.crystal.get_primitive", "wulfric.kpoints.get_path_and_points", "wulfric.Kpoints.from_crystal",
                  "wulfric.crystal.hpkot_get_extended_bl_symbol", "wulfric.crystal.sc_get_variation")],
}


def interp(ctx, combo):
    return ctx.interp("without " + " ".join(combo), missing=combo)


def names(it):
    out = {}
    for m in sorted(it.modules):
        if "_tests" in m or any(p.startswith("_") for p in m.split(".")):
            continue
        out[m] = {n for n, v in it.load(m).env.items() if not n.startswith("_") and isinstance(v, (Fun, Cls))}
    return out


def check(ctx):
    for combo in COMBOS:
        w = " and ".join(combo)
        ctx.ob(f"import without {w}", loads, ctx, combo)
        for p in combo:
            for label, fn, build in NEEDS[p]:
                ctx.ob(f"{label} without {w}", refused, ctx, combo, label, fn, build)
        for label, fn, build, _ in calls.table() if combo in (("spglib",), ("plotly", "scipy")) else ():
            if "spglib" in combo and (fn in ("wulfric.get_spglib_data",) or label == "get_niggli(spglib)" or "aP" in label):
                continue
            ctx.ob(f"{label} without {w}", works, ctx, combo, label, fn, build)


def loads(ctx, combo):
    it = interp(ctx, combo)
    it.load("wulfric")
    for m in sorted(it.modules):
        if "_tests" not in m:
            it.load(m)
    for m, x in it.load_raises:
        if "_tests" not in m and "__main__" not in m and x.pc == 1:
            raise Violation(f"import of the package raises {rint.cls_name(x.cls)} when {' and '.join(combo)} cannot be imported", x.loc, "import fails")
    full = names(ctx.interp("plain"))
    have = names(it)
    for m in full:
        miss = full[m] - have.get(m, set())
        if miss:
            raise Violation(f"{sorted(miss)} of {m} do not exist when {' and '.join(combo)} cannot be imported", None, "missing names")


def run(ctx, combo, fn, build, stubs=False):
    if stubs:
        key = "stubbed, without " + " ".join(combo)
        ctx.interp(key, missing=combo)
        it = crystal_interp(ctx, key)
    else:
        it = interp(ctx, combo)
    st = State()
    a, k = build(it, st)
    return it, it.run(fn, a, k, st=st)


def refused(ctx, combo, label, fn, build):
    it, r = run(ctx, combo, fn, build)
    f = it.public(fn)
    loc = fun_loc(f if isinstance(f, Fun) else f.lookup("__init__"))
    if rint.returned(r):
        raise Violation(f"{label} returns although {' and '.join(combo)} cannot be imported", loc, "no error")
    bad = [x for x in r.raises if rint.cls_name(x.cls) not in ("ImportError", "ModuleNotFoundError")]
    sure = [x for x in r.raises if x.pc == 1]
    if sure and not (rint.cls_name(sure[-1].cls) in ("ImportError", "ModuleNotFoundError")):
        raise Violation(f"{label} raises {rint.cls_name(sure[-1].cls)} instead of ImportError when {' and '.join(combo)} cannot be imported", sure[-1].loc, "class")
    for x in bad:
        if rint.cls_name(x.cls) in ("NameError", "UnboundLocalError", "AttributeError", "TypeError"):
            raise Violation(f"{label} raises {rint.cls_name(x.cls)} instead of ImportError when {' and '.join(combo)} cannot be imported", x.loc, "class")


def works(ctx, combo, label, fn, build):
    it, r = run(ctx, combo, fn, build, any(x in fn for x in HEAVY))
    for x in r.raises:
        if rint.cls_name(x.cls) in ("NameError", "ImportError", "ModuleNotFoundError"):
            raise Violation(f"{label} raises {rint.cls_name(x.cls)} when {' and '.join(combo)} cannot be imported, although it does not need it", x.loc, f"works {label.split('(')[0]}")
