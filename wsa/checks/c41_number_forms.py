"""Numbers given as lists, tuples, arrays, rows, integers or floats: the same result, the same effect, no error of types.

Every call is analysed with each form of its numeric arguments; the value
graphs of the result, of the argument changed in place and of the raises are
compared with the ones of the form "array of floats".
"""
import numpy as np

from .. import dtypes, oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..inputs import sarr
from ..interp import Fun, State, Tup
from . import kobj, plots
from .calls import sd
from .common import crystal_env, crystal_interp
from .files import Disk

LEVEL = "other"
FLOOR = 150
ASSUMPTIONS = ["numbers are finite", "the operators of numpy accept any array-like operand next to an array"]
FORMS = ("list", "tuple", "rows", "int array", "int list", "int rows")
INT_SYMS = ("cell", "c1", "c2", "v1", "v2", "a", "b", "c", "vector", "pa", "rl", "gp", "R", "atoms.positions", "shift", "points", "rcell", "coordinates", "kpoint", "rng")


class Make:
    """Builds one numeric argument in the form under test."""

    def __init__(self, it, st, form):
        self.it, self.st, self.form = it, st, form
        self.int = form.startswith("int")
        self.plain = form.replace("int ", "")

    def leaf(self, name):
        return tm.sym(name, "int" if self.int else "float")

    def seq(self, items, name):
        if self.plain == "tuple":
            return Tup(items)
        return self.it.new_list(self.st, items, f"input:{name}")

    def __call__(self, name, shape):
        it, st = self.it, self.st
        if self.plain == "array":
            return sarr(it, st, name, shape)
        if len(shape) == 2:
            if self.plain == "rows":
                return it.new_list(st, [sarr(it, st, f"{name}[{i}]", shape[1:]) for i in range(shape[0])], f"input:{name}")
            return self.seq([self.seq([self.leaf(f"{name}[{i}][{j}]") for j in range(shape[1])], name) for i in range(shape[0])], name)
        return self.seq([self.leaf(f"{name}[{i}]") for i in range(shape[0])], name)

    def atoms(self, n=2, names=("Cr1", "Br"), species=None):
        it, st = self.it, self.st
        pairs = [("names", it.new_list(st, list(names), "input:atoms.names"))]
        if species:
            pairs.append(("species", it.new_list(st, list(species), "input:atoms.species")))
        self.positions = self("atoms.positions", (n, 3))
        pairs.append(("positions", self.positions))
        self.at = it.new_dict(st, pairs, "input:atoms")
        return self.at


C, V = (3, 3), (3,)
N4 = ("Cr1", "Br", "Cr1", "Br")


def rows():
    """(label, function, builder of arguments, kind of the interpreter, changes atoms)."""
    out = []

    def add(label, fn, b, kind="plain", inplace=False):
        out.append((label, fn, b, kind, inplace))
    for n in ("get_reciprocal", "get_params", "get_scalar_products", "get_lattice_points"):
        add(n, "wulfric.cell." + n, lambda m: ([m("cell", C)], {}))
    add("get_lattice_points, relative", "wulfric.cell.get_lattice_points", lambda m: ([m("cell", C)], dict(relative=True, flat=False)))
    add("get_lattice_points, range", "wulfric.cell.get_lattice_points", lambda m: ([m("cell", C)], dict(range=range_of(m))))
    add("get_transformation_matrix", "wulfric.cell.get_transformation_matrix", lambda m: ([m("c1", C), m("c2", C)], {}))
    add("get_niggli", "wulfric.cell.get_niggli", lambda m: ([m("cell", C)], {}))
    for a in (True, False):
        add(f"get_angle, radians {a}", "wulfric.geometry.get_angle", lambda m, a=a: ([m("v1", V), m("v2", V)], dict(radians=a)))
    add("get_volume of a cell", "wulfric.geometry.get_volume", lambda m: ([m("cell", C)], {}))
    add("get_volume of three vectors", "wulfric.geometry.get_volume", lambda m: ([m(x, V) for x in "abc"], {}))
    add("get_spherical", "wulfric.geometry.get_spherical", lambda m: ([m("vector", V)], {}))
    add("get_spherical, axes", "wulfric.geometry.get_spherical", lambda m: ([m("vector", V)], dict(polar_axis=m("pa", V), radial_line_zero=m("rl", V), in_degrees=False)))
    for x in (True, False):
        add(f"get_vector, relative {x}", "wulfric.crystal.get_vector", lambda m, x=x: ([m("cell", C), m.atoms(), 0, 1], dict(R=m("R", V), return_relative=x)))
    add("get_vector in one cell", "wulfric.crystal.get_vector", lambda m: ([m("cell", C), m.atoms(), 0, 1], {}))
    add("get_distance", "wulfric.crystal.get_distance", lambda m: ([m("cell", C), m.atoms(), 1, 0], dict(R=m("R", V))))
    add("shift_atoms", "wulfric.crystal.shift_atoms", lambda m: ([m.atoms()], dict(gravity_point=m("gp", V))), inplace=True)
    add("shift_atoms, default", "wulfric.crystal.shift_atoms", lambda m: ([m.atoms()], {}), inplace=True)
    add("shift_atoms, absolute", "wulfric.crystal.shift_atoms",
        lambda m: ([m.atoms()], dict(gravity_point=m("gp", V), cell=m("cell", C), gp_is_relative=False)), inplace=True)
    add("cure_negative", "wulfric.crystal.cure_negative", lambda m: ([m.atoms()], {}), inplace=True)
    add("ensure_000", "wulfric.crystal.ensure_000", lambda m: ([m.atoms()], {}), inplace=True)
    add("get_spglib_types", "wulfric.get_spglib_types", lambda m: ([m.atoms()], {}))
    add("validate_atoms", "wulfric.crystal.validate_atoms", lambda m: ([m.atoms()], {}))
    for mode in ("Direct", "Cartesian"):
        add(f"dump_poscar, {mode}", "wulfric.io.dump_poscar",
            lambda m, mode=mode: ([m("cell", C), m.atoms(species=("Cr", "Br"))], dict(mode=mode, comment="c")), "disk")
    for fam, cen, number in (("c", "P", 195), ("o", "C", 20), ("m", "C", 5), ("h", "R", 146), ("a", "P", 1), ("t", "I", 79)):
        for fn in ("get_conventional", "get_primitive"):
            for conv in ("HPKOT", "SC") + (("spglib",) if fam == "c" else ()):
                add(f"{fn}({conv}, {fam}{cen})", "wulfric.crystal." + fn, crystal(fam, cen, number, conv), f"crystal {fam}{cen}")
        for fn in ("hpkot_get_extended_bl_symbol", "sc_get_variation"):
            add(f"{fn}({fam}{cen})", "wulfric.crystal." + fn, crystal(fam, cen, number, None), f"crystal {fam}{cen}")
        for conv in ("HPKOT", "SC"):
            for rel in (True, False):
                if fam in "coh":
                    add(f"get_path_and_points({conv}, {fam}{cen}, relative {rel})", "wulfric.kpoints.get_path_and_points",
                        crystal(fam, cen, number, conv, relative=rel), f"crystal {fam}{cen}")
    return out


def range_of(m):
    r = [1, 2, 0]
    return Tup(r) if m.plain in ("array", "tuple") else m.it.new_list(m.st, r)


def crystal(fam, cen, number, conv, **kw):
    def b(m):
        k = dict(spglib_data=sd(m.it, m.st, number, fam, cen), **kw)
        if conv:
            k["convention"] = conv
        return [m("cell", C), m.atoms(n=3, names=("Cr1", "Br", "Br"))], k
    return b


KP = [("points", {}), ("points", dict(relative=True)), ("ticks", {}), ("flat_points", {}), ("hs_table", {}), ("add", {})]
PLOTS = [
    ("plot_points", lambda m: ([m("points", (2, 3))], {})), ("plot_cell", lambda m: ([m("cell", C)], dict(shift=m("shift", V)))),
    ("plot_line", lambda m: ([m("v1", V), m("v2", V)], {})), ("plot_vector", lambda m: ([m("v1", V), m("v2", V)], {})),
    ("plot_lattice", lambda m: ([m("cell", C)], dict(range=range_of(m), shift=m("shift", V)))),
    ("plot_atoms", lambda m: ([m("cell", C), m.atoms()], dict(shift=m("shift", V)))),
]


def check(ctx):
    for label, fn, b, kind, inplace in rows():
        for f in FORMS:
            ctx.ob(f"{label} ({f})", one, ctx, label, fn, b, kind, inplace, f)
    for n, kw in KP:
        for f in FORMS:
            ctx.ob(f"Kpoints, {n} {kw or ''} ({f})", kpoints, ctx, n, kw, f)
    for n, b in PLOTS:
        for f in FORMS:
            ctx.ob(f"{n} ({f})", plot, ctx, n, b, f)


def with_numbers(it, form, fn):
    """Runs with the number types of the form: plain numbers are numbers of Python, integers are followed."""
    it.pyfloat = True
    dtypes.INTS.clear()
    if form.startswith("int"):
        dtypes.INTS.update(INT_SYMS)
    try:
        return fn()
    finally:
        dtypes.INTS.clear()


def spread(e):
    for n, v in list(e.items()):
        if isinstance(v, np.ndarray) and isinstance(n, str):
            for k in range(1, v.ndim + 1):
                for ix in np.ndindex(*v.shape[:k]):
                    x = v[ix]
                    e[n + "".join(f"[{i}]" for i in ix)] = float(x) if x.ndim == 0 else x
    return e


def env(g, kind, form="array"):
    if kind.startswith("crystal"):
        e = crystal_env(g, kind[-2], kind[-1], n=3)
        e["atoms.positions"] = e["sd.original_positions"]
        return spread(e)
    e = {n: g.uniform(-2, 2, size=V) for n in ("v1", "v2", "a", "b", "c", "vector", "gp", "R", "shift", "kpoint")}
    e.update({n: oracle.random_cell(g) for n in ("cell", "c1", "c2", "rcell")})
    e["atoms.positions"] = g.uniform(-2, 2, size=C)[:2]
    e["points"] = g.uniform(-2, 2, size=(2, 3))
    e["coordinates"] = g.uniform(-1, 1, size=(4, 3))
    p = oracle.random_rotation(g)
    e["pa"], e["rl"] = p[0] * 1.7, p[1] * 0.6
    if form.startswith("int"):
        e = {n: np.rint(3 * v) for n, v in e.items()}
        e["pa"], e["rl"] = np.array([0.0, 2, 1]), np.array([1.0, -1, 2])
        for n in ("cell", "c1", "c2", "rcell"):
            e[n] = np.rint(oracle.random_cell(g)) + 7 * np.eye(3)
        e["vector"][0], e["v1"][1], e["v2"][2], e["a"][0], e["b"][1], e["c"][2] = 1, 5, 7, 8, 9, -8
    return spread(e)


def canon(v):
    if isinstance(v, np.ndarray):
        return canon(v.tolist())
    if isinstance(v, np.generic):
        return canon(v.item())
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (int, float)):
        return float(v) + 0.0
    return v


def outcome(it, st, raises, value, e):
    """("raise", class, loc) or ("value", concrete)."""
    memo = {}
    r = type("Q", (), dict(raises=raises))
    x = rint.raised(r, e, memo, strict=False)
    if x is not None:
        return "raise", rint.cls_name(x.cls), x.loc
    if st.pc == 0:
        return "raise", rint.cls_name(raises[-1].cls), raises[-1].loc
    out = []
    for v in value:
        for w in (v.items if isinstance(v, Tup) else [v]):
            try:
                out.append(canon(tm.evaluate(it.as_T(st, w), e, memo)))
            except tm.Unevaluable as u:
                out.append(u)
    return "value", out, None


def alike(x, y):
    """Number of components which are not of closed form (not compared), None if some other one differs."""
    if len(x) != len(y):
        return None
    n = 0
    for a, b in zip(x, y):
        if isinstance(a, tm.Unevaluable) or isinstance(b, tm.Unevaluable):
            n += 1
        elif not rint.same(a, b):
            return None
    return n


def analyse(ctx, fn, b, kind, inplace, form):
    key = "forms " + ("crystal" if kind.startswith("crystal") else "plain")
    it = crystal_interp(ctx, key) if kind.startswith("crystal") else ctx.interp(key)

    def go():
        st = State()
        m = Make(it, st, form)
        a, k = b(m)
        if kind == "disk":
            d = Disk(it)
            with d:
                r = it.run(fn, a, k, st=st)
            return r.st, r.raises, [f for _, _, f, _ in d.opened], r
        r = it.run(fn, a, k, st=st)
        vals = [r.value] if r.st.pc != 0 else []
        if inplace and r.st.pc != 0:
            vals.append(it.getitem(r.st, m.at, "positions"))
        return r.st, r.raises, vals, r
    return (it,) + with_numbers(it, form, go)


def compare(ctx, name, form, kind, o1, o2, loc, points=2):
    g = oracle.rng(ctx.seed, name, kind)
    for _ in range(points):
        e = env(g, kind, form)
        x1, x2 = outcome(*o1, e), outcome(*o2, e)
        ctx.count("points")
        if x1[0] == "raise" and x2[0] == "raise":
            continue
        if x2[0] == "raise":
            raise Violation(f"{name} raises {x2[1]} for numbers given as {form}, not for an array of floats", x2[2] or loc, f"{name} raises for {form}")
        if x1[0] == "raise":
            raise Undecided("the array of floats is refused")
        n = alike(x1[1], x2[1])
        if n:
            ctx.count("components_with_errors_compared_only", n)
        if n is None:
            raise Violation(f"{name} gives another result for numbers given as {form} than for an array of floats", loc, f"{name} differs for {form}")


def one(ctx, label, fn, b, kind, inplace, form):
    i1, s1, x1, v1, r1 = analyse(ctx, fn, b, kind, inplace, "array")
    i2, s2, x2, v2, r2 = analyse(ctx, fn, b, kind, inplace, form)
    f = i1.public(fn)
    loc = (r1.exits[-1].loc if len(r1.exits) == 1 else None) or fun_loc(f)
    ctx.count("calls_analysed", 2)
    compare(ctx, fn.split(".")[-1], form, kind, (i1, s1, x1, v1), (i2, s2, x2, v2), loc)


def kpoints(ctx, name, kw, form):
    it = ctx.interp("forms plain")
    out = []
    for f in ("array", form):
        def go():
            st = State()
            m = Make(it, st, f)
            r = it.run("wulfric.Kpoints", [m("rcell", C), m("coordinates", (4, 3))],
                       dict(names=it.new_list(st, ["GAMMA", "X", "Y", "Z"]), path="GAMMA-X|Y-Z", n=3), st=st)
            raises = list(r.raises)
            if r.st.pc == 0:
                return r.st, raises, []
            if name == "add":
                v, x = kobj.call(it, r.st, r.value, "add_hs_point", "K", m("kpoint", V), "k", relative=False)
                raises += x
                v, x = kobj.get(it, r.st, r.value, "hs_coordinates") if r.st.pc else (None, [])
            else:
                v, x = kobj.call(it, r.st, r.value, name, **kw)
            return r.st, raises + x, [v]
        out.append((it,) + with_numbers(it, f, go))
    ctx.count("calls_analysed", 2)
    compare(ctx, f"Kpoints.{name}", form, "plain", out[0], out[1], kobj.loc(it, "add_hs_point" if name == "add" else name))


def plot(ctx, name, b, form):
    it = plots.plot_interp(ctx, "forms plots")
    out = []
    for f in ("array", form):
        def go():
            st = State()
            m = Make(it, st, f)
            a, k = b(m)
            p = plots.Plot(it, st)
            v, x = kobj.act(it, p.st, lambda: it.call(p.st, it.getattr(p.st, p.pe, name), a, k))
            val = []
            if p.st.pc:
                val = [it.getattr(p.st, p.fig, "traces")]
            return p.st, x, val
        out.append((it,) + with_numbers(it, f, go))
    loc = fun_loc(it.public("wulfric.PlotlyEngine").lookup(name))
    ctx.count("calls_analysed", 2)
    # identifiers of legend groups are random: only the coordinates count
    g = oracle.rng(ctx.seed, name)
    for _ in range(2):
        e = env(g, "plain", form)
        res = [outcome(*o, e) for o in out]
        if res[0][0] == "raise":
            raise Undecided("the array of floats is refused")
        if res[1][0] == "raise":
            raise Violation(f"{name} raises {res[1][1]} for numbers given as {form}, not for an array of floats", res[1][2] or loc, f"{name} raises for {form}")
        if any(isinstance(r[1][0], tm.Unevaluable) for r in res):
            raise Undecided("traces are not of closed form")
        xyz = [[{k: t[0].get(k) for k in ("type", "mode", "x", "y", "z")} for t in r[1][0]] for r in res]
        if not rint.same(*xyz):
            raise Violation(f"{name} draws something else for numbers given as {form} than for an array of floats", loc, f"{name} differs for {form}")
