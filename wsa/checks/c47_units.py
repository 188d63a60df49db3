"""The unit of length does not matter: no operation mixes powers of the unit of length.

Powers of the unit of length are inferred for every term of the value graphs of
the results and of the conditions they depend on (cells and tolerances of
distances 1, k-space -1, relative positions and angles 0).  Sums, comparisons,
minima, roundings and transcendental functions of mixed powers are reported,
results of another power than documented as well.
"""
from fractions import Fraction

from .. import oracle
from .. import terms as tm
from ..core import Undecided, Violation
from ..dims import Dims, U, Z, unit
from ..inputs import sarr, satoms
from ..interp import State, Tup
from . import c30_voronoi as c30_voronoi
from . import kobj
from .common import crystal_interp, run_crystal

LEVEL = "proof"
FLOOR = 60
ASSUMPTIONS = ["numbers below 1e-12 are tests for zero", "spglib returns cells in the unit of the given cell; symprec is a length"]
POWER = {"cell": 1, "sd.conventional_cell": 1, "sd.primitive_cell": 1, "sd.original_cell": 1, "sd.symprec": 1, "rcell": -1, "R": 0, "gp": 0, "gpabs": 1, "ltol": 1,
         "a": 1, "b": 1, "c": 1, "alpha": 0, "beta": 0, "gamma": 0, "v1": 1, "v2": 1, "vector": 1, "pa": 1, "rl": 1, "atol": 0, "c1": 1, "c2": 1}


def power(name):
    if name in POWER:
        return POWER[name]
    if name.endswith("positions") or name.startswith("k") and name[1:].isdigit() or name.startswith("angle"):
        return 0
    return None


def dims():
    return Dims(power, {"niggli": lambda d, a: d[0], "params[]": lambda d, a: d[0] if a[1].args[1] < 3 else Fraction(0)})


def check(ctx):
    it = crystal_interp(ctx)
    for fam, cen in oracle.LATTICE_TYPES:
        nums = sorted({oracle.REPRESENTATIVE[(fam, cen)][0], oracle.REPRESENTATIVE[(fam, cen)][-1]})
        for n in nums:
            lt = f"{fam}{cen} space group {n}"
            for conv in ("HPKOT", "SC", "spglib"):
                ctx.ob(f"get_conventional {conv} {lt}", crystal, ctx, it, "wulfric.crystal.get_conventional", fam, cen, conv, n, (1, 0))
                ctx.ob(f"get_primitive {conv} {lt}", crystal, ctx, it, "wulfric.crystal.get_primitive", fam, cen, conv, n, (1, 0))
            ctx.ob(f"sc_get_variation {lt}", crystal, ctx, it, "wulfric.crystal.sc_get_variation", fam, cen, None, n, None)
            ctx.ob(f"hpkot_get_extended_bl_symbol {lt}", crystal, ctx, it, "wulfric.crystal.hpkot_get_extended_bl_symbol", fam, cen, None, n, None)
            for conv in ("HPKOT", "SC"):
                for rel in (True, False):
                    ctx.ob(f"get_path_and_points {conv} {lt} relative={rel}", crystal, ctx, it, "wulfric.kpoints.get_path_and_points", fam, cen, conv, n, (None, 0 if rel else -1), dict(relative=rel))
    for label, fn, build, want in CALLS:
        ctx.ob(label, one, ctx, ctx.interp("units"), label, fn, build, want)
    for fn, want in (("get_wigner_seitz_cell", 1), ("get_brillouin_zone", -1)):
        ctx.ob(fn, zone, ctx, fn, want)
    for label, f, want in KPOINTS:
        ctx.ob(label, kpoints, ctx, ctx.interp("units"), label, f, want)


def V(*names):
    return lambda it, st: ([sarr(it, st, x, (3, 3) if x in ("cell", "c1", "c2") else (3,)) for x in names], {})


def S(*names, **kw):
    return lambda it, st: ([tm.sym(x, "float") for x in names], {k: tm.sym(v, "float") if isinstance(v, str) else v for k, v in kw.items()})


def A(names=(), before=(), after=(), **kw):
    def build(it, st):
        a = [sarr(it, st, "cell", (3, 3))] if "cell" in before else []
        a.append(satoms(it, st, 3, ("names",)))
        k = {}
        for n, v in kw.items():
            k[n] = sarr(it, st, v, (3, 3) if v == "cell" else (3,)) if isinstance(v, str) else v
        return a + list(after), k
    return build


CALLS = [
    ("get_reciprocal", "wulfric.cell.get_reciprocal", V("cell"), -1),
    ("get_params", "wulfric.cell.get_params", V("cell"), (1, 1, 1, 0, 0, 0)),
    ("from_params", "wulfric.cell.from_params", S("a", "b", "c", "alpha", "beta", "gamma"), 1),
    ("get_scalar_products", "wulfric.cell.get_scalar_products", V("cell"), (2, 2, 2)),
    ("get_transformation_matrix", "wulfric.cell.get_transformation_matrix", V("c1", "c2"), 0),
    ("get_lattice_points", "wulfric.cell.get_lattice_points", V("cell"), 1),
    ("get_volume of a cell", "wulfric.geometry.get_volume", V("cell"), 3),
    ("get_volume of vectors", "wulfric.geometry.get_volume", V("v1", "v2", "vector"), 3),
    ("get_volume of parameters", "wulfric.geometry.get_volume", S("a", "b", "c", "alpha", "beta", "gamma"), 3),
    ("get_angle", "wulfric.geometry.get_angle", V("v1", "v2"), 0),
    ("get_angle in radians", "wulfric.geometry.get_angle", lambda it, st: (V("v1", "v2")(it, st)[0], dict(radians=True)), 0),
    ("get_spherical", "wulfric.geometry.get_spherical", V("vector"), (1, 0, 0)),
    ("get_spherical with axes", "wulfric.geometry.get_spherical", lambda it, st: (V("vector")(it, st)[0], dict(polar_axis=sarr(it, st, "pa", (3,)), radial_line_zero=sarr(it, st, "rl", (3,)))), (1, 0, 0)),
    ("parallelepiped_check", "wulfric.geometry.parallelepiped_check", S("a", "b", "c", "alpha", "beta", "gamma", length_tolerance="ltol", angle_tolerance="atol"), None),
    ("parallelepiped_check with errors", "wulfric.geometry.parallelepiped_check", S("a", "b", "c", "alpha", "beta", "gamma", raise_error=True, length_tolerance="ltol", angle_tolerance="atol"), None),
    ("get_vector", "wulfric.crystal.get_vector", A(before=("cell",), after=(0, 1), R="R"), 1),
    ("get_vector relative", "wulfric.crystal.get_vector", A(before=("cell",), after=(0, 1), R="R", return_relative=True), 0),
    ("get_distance", "wulfric.crystal.get_distance", A(before=("cell",), after=(0, 1), R="R"), 1),
    ("shift_atoms", "wulfric.crystal.shift_atoms", A(gravity_point="gp"), None),
    ("shift_atoms to a Cartesian point", "wulfric.crystal.shift_atoms", A(gravity_point="gpabs", cell="cell", gp_is_relative=False), None),
    ("cure_negative", "wulfric.crystal.cure_negative", A(), None),
    ("ensure_000", "wulfric.crystal.ensure_000", A(), None),
]
KPOINTS = [
    ("Kpoints.ticks", lambda it, st, k: kobj.call(it, st, k, "ticks"), -1),
    ("Kpoints.ticks relative", lambda it, st, k: kobj.call(it, st, k, "ticks", relative=True), 0),
    ("Kpoints.points", lambda it, st, k: kobj.call(it, st, k, "points"), -1),
    ("Kpoints.points relative", lambda it, st, k: kobj.call(it, st, k, "points", relative=True), 0),
    ("Kpoints.flat_points", lambda it, st, k: kobj.call(it, st, k, "flat_points"), -1),
    ("Kpoints.flat_points relative", lambda it, st, k: kobj.call(it, st, k, "flat_points", relative=True), 0),
    ("Kpoints.b1", lambda it, st, k: kobj.get(it, st, k, "b1"), -1),
]


def judge(ctx, it, label, roots, want, value, st):
    D = dims()
    for t in roots:
        for x in tm.subterms(t):
            D.dim(x)
    ctx.count("terms", len(D.memo))
    ctx.count("judged", D.judged)
    if D.reports:
        t, msg = D.reports[0]
        raise Violation(f"{label}: {msg} in {tm.show(t, 4)[:200]}; the result depends on the unit of length", t.loc, f"{msg} {label.split(' space')[0]}")
    if want is not None and value is not None:
        compare(ctx, it, D, label, value, want, st)
    if not D.judged and want is None:
        ctx.count("independent")


def compare(ctx, it, D, label, v, want, st):
    if isinstance(want, tuple):
        items = v.items if isinstance(v, Tup) else it.known_items(st, v)
        if items is None or len(items) != len(want):
            return
        for k, (x, w) in enumerate(zip(items, want)):
            if w is not None:
                compare(ctx, it, D, f"{label}, item {k}", x, w, st)
        return
    vals = values(it, st, v)
    for x in vals:
        d = D.flat(D.dim(x))
        if d is U or d is Z:
            continue
        ctx.count("results")
        if d != want:
            raise Violation(f"{label} is in {unit(d)} instead of {unit(Fraction(want))}", x.loc, f"power of {label.split(' space')[0]}")


def values(it, st, v):
    """Numeric terms of a value: arrays, numbers, values and items of containers (alternatives that contradict each other are left out)."""
    t = it.as_T(st, v)
    out, stack, seen = [], [(t, tm.TRUE)], set()
    while stack:
        x, g = stack.pop()
        if (x.id, g) in seen:
            continue
        seen.add((x.id, g))
        if x.op == "dict":
            for k, y in x.args:
                if tm.np_const(k) in ("names", "species", "spglib_types", "mykey"):
                    continue
                stack.append((y, g))
        elif x.op in ("list", "tuple"):
            stack.extend((y, g) for y in x.args)
        elif x.op == "ite":
            for y, c in ((x.args[1], x.args[0]), (x.args[2], tm.NOT(x.args[0]))):
                if tm.AND(g, c) != tm.FALSE:
                    stack.append((y, tm.AND(g, c)))
        else:
            out.append(x)
    return out


def roots(it, st, r, v):
    out = [it.as_T(st, v)] if v is not None else []
    for e in list(getattr(r, "exits", ())) + list(r.raises):
        out.extend(tm.atoms_of(e.pc))
    return out


def crystal(ctx, it, fn, fam, cen, conv, number, want, extra=None):
    r, *_ = run_crystal(it, fn, fam, cen, conv, number=number, extra_kwargs=extra)
    label = f"{fn.split('.')[-1]} {conv or ''} {fam}{cen} space group {number}"
    if want is not None and not isinstance(r.value, Tup):
        raise Undecided("result is not a pair")
    judge(ctx, it, label, roots(it, r.st, r, r.value), want, r.value, r.st)


def one(ctx, it, label, fn, build, want):
    st = State()
    args, kw = build(it, st)
    r = it.run(fn, args, kw, st=st)
    rs = roots(it, r.st, r, r.value)
    if want is None and label.split(" ")[0] in ("shift_atoms", "cure_negative", "ensure_000"):
        at = it.as_T(r.st, args[0])
        rs.append(at)
        D = dims()
        pos = [y for k, y in at.args if tm.np_const(k) == "positions"] if at.op == "dict" else []
        for p in pos:
            d = D.flat(D.dim(p))
            if d not in (U, Z) and d != 0:
                raise Violation(f"{label}: positions are in {unit(d)}", p.loc, f"power of {label}")
    if label == "from_params":  # documented: checks the lengths with the default tolerance, chosen for Angstroms
        rs = rs[:1]
    judge(ctx, it, label, rs, want, r.value, r.st)


def zone(ctx, fn, want):
    """SciPy is replaced by a model whose vertices are in the unit of the points it is given."""
    it, r, seen = c30_voronoi.analyse(ctx, "array", fn, "cube", "mixed")
    POWER["V"] = want
    for t in seen:
        d = dims()
        p = d.flat(d.dim(t))
        if p not in (U, Z, want):
            raise Violation(f"{fn}: the points are in {unit(p)}", t.loc, f"power of points of {fn}")
    judge(ctx, it, fn, roots(it, r.st, r, r.value), (want, None), r.value, r.st)


def kpoints(ctx, it, label, f, want):
    r = kobj.make(it, path="GAMMA-X-Y|Z-GAMMA", n=3)
    k = r.value
    v, raises = f(it, r.st, k)
    rs = [it.as_T(r.st, v)]
    for x in raises:
        rs.extend(tm.atoms_of(x.pc))
    judge(ctx, it, label, rs, want, v, r.st)
