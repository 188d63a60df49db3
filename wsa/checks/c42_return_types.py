"""Kinds of the returned values are the documented ones for every form and combination of arguments.

Abstract interpretation gives the kind of every returned component (array with
its shape, list, tuple, dictionary, text, number, truth value, class); it has to be
the one the documentation of the function promises, on every way out.
"""
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import Cls, Ref, State, Tup, U, cases_of
from ..terms import T
from . import c41_number_forms as forms
from . import calls, kobj
from .common import crystal_interp

LEVEL = "proof"
FLOOR = 200
ASSUMPTIONS = ["operators and functions of numpy return arrays for arrays, scalars for scalars"]
A33, V3, PTS = ("array", (3, 3)), ("array", (3,)), ("array", (None, 3))
NAMES = ("list", "str")
EXPECT = {
    "get_reciprocal": A33, "from_params": A33, "get_transformation_matrix": A33, "get_niggli": A33, "sc_get_example": A33,
    "get_params": ("tuple", ["number"] * 6), "get_scalar_products": ("tuple", ["number"] * 3), "get_lattice_points": ("array", None),
    "get_angle": "number", "get_volume": "number", "get_spherical": ("tuple", ["number"] * 3), "parallelepiped_check": "bool", "compare_with_tolerance": "bool",
    "validate_atoms": "bool", "get_vector": V3, "get_distance": "number", "shift_atoms": "none", "cure_negative": "none", "ensure_000": "none",
    "get_spglib_types": ("list", "number"), "get_spglib_data": ("inst", "SpglibData"), "validate_spglib_data": "none",
    "get_conventional": ("tuple", [A33, ("dict", {"spglib_types": ("list", "number")})]),
    "get_primitive": ("tuple", [A33, ("dict", {"spglib_types": ("list", "number")})]),
    "get_path_and_points": ("tuple", ["str", ("dict of", V3)]), "hpkot_get_extended_bl_symbol": "str", "sc_get_variation": "str",
    "from_crystal": ("inst", "Kpoints"), "dump_poscar": "none", "get_atom_species": "str", "get_atoms_species": NAMES, "get_unique_names": NAMES,
    "add_sugar": ("inst", "SyntacticSugar"), "remove_sugar": ("dict", {}), "hpkot_get_example": ("tuple", [A33, ("dict", {"positions": None, "species": None})]),
    "load_poscar": ("tuple", [A33, ("dict", {"positions": None, "names": NAMES}), "str"]), "logo": "str",
    "get_path_as_list": ("list", NAMES), "get_path_as_string": "str",
}
NONE_POSSIBLE = {"sc_get_variation"}  # regions without a variation are unreachable (values are decided by C07)
METHODS = {"ticks": ("array", (None,)), "points": PTS, "flat_points": ("array", (None,)), "hs_table": "str", "copy": ("inst", "Kpoints")}
GETTERS = {"labels": NAMES, "path_string": "str", "path": ("list", NAMES), "n": "number"}
SKIP = ("load_poscar", "get_niggli(spglib)", "get_niggli", "sc_get_example(None)", "validate_spglib_data(array)", "validate_spglib_data(list)", "validate_spglib_data(arrays)")
PLAIN = {"get_spglib_types", "get_spglib_data", "validate_atoms", "validate_spglib_data", "get_params"}


def check(ctx):
    for label, fn, build, inplace in calls.table():
        if label not in SKIP and "dump_poscar" not in label:
            ctx.ob(label, one, ctx, label, fn, build)
    for label, fn, b, kind, inplace in forms.rows():
        if kind == "plain" and label not in SKIP:
            for f in ("tuple", "int list"):
                ctx.ob(f"{label} ({f})", one, ctx, label, fn, lambda it, st, b=b, f=f: b(forms.Make(it, st, f)))
    for p in (None, "GAMMA-X-Y|Z-W", [["X", "W"], ["Z", "GAMMA", "X"]], []):
        for m, w in METHODS.items():
            ctx.ob(f"Kpoints.{m}() for {p}", kpoints, ctx, m, w, p, True)
        for m, w in GETTERS.items():
            ctx.ob(f"Kpoints.{m} for {p}", kpoints, ctx, m, w, p, False)
    for m in ("ticks", "points", "flat_points"):
        ctx.ob(f"Kpoints.{m}(relative=True)", kpoints, ctx, m, METHODS[m], "GAMMA-X-Y|Z-W", True, True)


class Wrong(Exception):
    pass


def shape_ok(s, want):
    return want is None or s is None or (len(s) == len(want) and all(w is None or not isinstance(x, int) or x == w for x, w in zip(s, want)))


def is_kind(it, st, v, want, what):
    """Raises Wrong; returns the number of decided components, raises Undecided for unknown ones."""
    if want is None:
        return
    if isinstance(v, U):
        for g, w in cases_of(v, st.pc):
            if w is None and what.split()[-1] in NONE_POSSIBLE:
                continue
            is_kind(it, st, w, want, what)
        return
    got = kind(it, st, v)
    if want[0] == "inst" and got in ("dict", "list") and isinstance(it.obj(st, v).cls, Cls):
        got = "inst"
    if want[0] == "dict" and got == "dict" and isinstance(it.obj(st, v).cls, Cls):
        raise Wrong(f"{what} is an object of {it.obj(st, v).cls.name.split('.')[-1]}, a plain dictionary is documented")
    if got is None:
        raise Undecided(f"kind of {what} is unknown")
    k = want if isinstance(want, str) else want[0]
    names = {"dict of": "dict"}
    if got != names.get(k, k):
        raise Wrong(f"{what} is {describe(it, st, v, got)}, {text(want)} is documented")
    if k == "array":
        s = tm.shape(it.as_T(st, v))
        if not shape_ok(s, want[1]):
            raise Wrong(f"{what} is an array of the shape {s}, {text(want)} is documented")
    if k == "tuple":
        if len(v.items) != len(want[1]):
            raise Wrong(f"{what} is a tuple of {len(v.items)} values, {text(want)} is documented")
        for n, (x, w) in enumerate(zip(v.items, want[1])):
            is_kind(it, st, x, w, f"{what}[{n}]")
    if k == "list":
        c = it.content(st, v)
        for _, x in cases_of(c, st.pc) if isinstance(c, U) else [(1, c)]:
            if type(x) is tuple:
                for n, y in enumerate(x):
                    is_kind(it, st, y, want[1], f"{what}[{n}]")
    if k in ("dict", "dict of"):
        c = it.content(st, v)
        for _, x in cases_of(c, st.pc) if isinstance(c, U) else [(1, c)]:
            if type(x) is tuple:
                for a, b in x:
                    if k == "dict of":
                        is_kind(it, st, b, want[1], f"{what}[{a!r}]")
                    elif isinstance(a, str) and a in want[1]:
                        is_kind(it, st, b, want[1][a], f"{what}[{a!r}]")
    if k == "inst":
        n = it.obj(st, v).cls.name.split(".")[-1]
        if n != want[1]:
            raise Wrong(f"{what} is an object of the class {n}, {want[1]} is documented")


def describe(it, st, v, got):
    return {"none": "None", "str": "a text", "number": "a number", "bool": "a truth value"}.get(got, f"a {got}")


def text(w):
    if isinstance(w, str):
        return {"none": "None", "str": "a text", "number": "a number", "bool": "a truth value"}[w]
    if w[0] == "array":
        return "an array" + (f" of the shape {w[1]}" if w[1] else "")
    return {"tuple": f"a tuple of {len(w[1])} values", "list": "a list", "dict": "a dictionary", "dict of": "a dictionary", "inst": f"an object of {w[1]}"}[w[0]]


STR_OPS = ("fstr", "fmt")
STR_CALLS = ("builtins.str", "builtins.repr", "builtins.format")


def kind(it, st, v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, float)):
        return "number"
    if isinstance(v, str):
        return "str"
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, Ref):
        if v.path:
            s = tm.shape(it.as_T(st, v))
            return None if s is None else "array" if s else "number"
        k = it.obj(st, v).kind
        return k if k in ("array", "list", "dict", "inst", "set") else None
    if isinstance(v, T):
        if v.op == "k":
            return kind(it, st, v.args[1])
        if v.op == "sym":
            s = v.args[1]
            return "str" if s == "str" else "number" if s in ("float", "int", "num") else "array" if isinstance(s, tuple) and s[0] == "arr" else None
        if v.op in STR_OPS or v.op == "call" and v.args[0] in STR_CALLS:
            return "str"
        if v.op in ("guard", "not", "truth", "isnone") or v.op == "cmp" and tm.shape(v) in (None, ()) and all(kind(it, st, x) in ("number", "str") for x in v.args[1:]):
            return "bool"
        if v.op == "ite":
            a, b = kind(it, st, v.args[1]), kind(it, st, v.args[2])
            return a if a == b else None
        if v.op in ("list", "tuple", "dict"):
            return v.op
        s = tm.shape(v)
        if v.op in ("bin", "un", "getitem", "call", "arr", "T", "setitem", "mcall", "stub"):
            return None if s is None else "array" if s else ("number" if v.op != "stub" else None)
    return None


def one(ctx, label, fn, build):
    n = fn.split(".")[-1]
    if n in PLAIN or not fn.startswith(("wulfric.crystal", "wulfric.kpoints", "wulfric.Kpoints")):
        it = ctx.interp("plain types")
    else:
        it = crystal_interp(ctx, "crystal types")
    st = State()
    a, k = build(it, st)
    r = it.run(fn, a, k, st=st)
    if r.st.pc == 0 or not r.exits:
        raise Undecided("does not return")
    want = EXPECT.get(n)
    f = it.public(fn)
    if want is None and n not in EXPECT:
        raise Undecided("no kind is documented")
    if label.startswith("get_lattice_points"):
        flat = "flat" not in k or k["flat"]
        want = ("array", (None, 3) if flat else (None, None, None, 3))
    late = None
    for e in r.exits:
        s = State()
        s.heap, s.pc = e.heap, e.pc
        try:
            is_kind(it, s, e.value, want, f"result of {n}")
        except Wrong as w:
            raise Violation(str(w), e.loc or fun_loc(f), f"kind of the result of {n}")
        except Undecided as u:
            late = u
    ctx.count("ways_out", len(r.exits))
    if late:
        raise late


def kpoints(ctx, name, want, path, call, relative=False):
    kw = dict(relative=True) if relative else {}
    it = ctx.interp("plain types")
    r = kobj.make(it, path=path)
    if r.st.pc == 0:
        raise Undecided("constructor refuses")
    v, raises = kobj.call(it, r.st, r.value, name, **kw) if call else kobj.get(it, r.st, r.value, name)
    if r.st.pc == 0:
        raise Undecided("does not return")
    try:
        is_kind(it, r.st, v, want, f"Kpoints.{name}")
    except Wrong as w:
        raise Violation(str(w), kobj.loc(it, name), f"kind of Kpoints.{name}")
