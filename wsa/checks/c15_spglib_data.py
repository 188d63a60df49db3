"""SpglibData describe the given crystal: ITA tables, fields of the dataset, orientation of the input.

The value graph of get_spglib_data is extracted modulo spglib: both calls of
spglib must receive the given cell, positions, types and tolerances, the fields
must be those of the (symbolic) dataset rotated back, and the family, centring
and number must be the ones of the International Tables for all 230 groups.
"""
import ast

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..inputs import sarr
from ..interp import Cls, Ref, State, Tup, U, cases_of
from ..terms import mk
from .calls import atoms, cell
from . import kobj
from .common import entry_loc

LEVEL = "proof"
FLOOR = 240
ASSUMPTIONS = ["spglib returns a dataset (dictionary or object) with the documented fields; find_primitive returns (cell, positions, types)"]
FN = "wulfric.get_spglib_data"
SHAPES = dict(std_lattice=(3, 3), std_rotation_matrix=(3, 3), std_positions=(4, 3), transformation_matrix=(3, 3), origin_shift=(3,), rotations=(2, 3, 3),
              primitive_lattice=(3, 3))


def check(ctx):
    it = ctx.interp("plain")
    for n in range(1, 231):
        ctx.ob(f"space group {n}", group, ctx, it, n)
    for form in ("object", "dict"):
        for inp in ("array", "list", "arrays"):
            for tol in (False, True):
                ctx.ob(f"fields of the dataset ({form}), {inp}, tolerances {'given' if tol else 'default'}", fields, ctx, it, form, inp, tol)
    ctx.ob("no dataset", none, ctx, it)


def run(it, form, number, inp="array", tol=False, none=False):
    calls = []
    st = State()
    types = [1, 1, 2, 2]
    pairs = [(k, sarr(it, st, f"ds.{k}", s)) for k, s in SHAPES.items()]
    pairs += [("number", number), ("std_types", it.new_array(st, tm.arr((4,), types), "input:ds.std_types")), ("international", "X"),
              ("choice", ""), ("pointgroup", "1")]

    def dataset(i, s, a, k):
        calls.append(("get_symmetry_dataset", a, k, i.loc, dict(s.heap), s))
        if none:
            return None
        if form == "dict":
            return i.new_dict(s, pairs)
        c = Cls("SpglibDataset", i.public(FN).module, [], ast.parse("class SpglibDataset:\n    pass").body[0])
        return i.alloc(s, "inst", tuple(pairs), "fresh", c)

    def primitive(i, s, a, k):
        calls.append(("find_primitive", a, k, i.loc, dict(s.heap), s))
        return Tup([sarr(i, s, "pr.cell", (3, 3), "fresh"), sarr(i, s, "pr.positions", (2, 3), "fresh"), i.new_array(s, tm.arr((2,), [1, 2]))])
    it.ext_stubs["spglib.get_symmetry_dataset"] = dataset
    it.ext_stubs["spglib.find_primitive"] = primitive
    it.ext_stubs["spglib.standardize_cell"] = primitive
    try:
        kw = dict(spglib_symprec=tm.sym("symprec", "float"), spglib_angle_tolerance=tm.sym("angle_tolerance", "float")) if tol else {}
        c = cell(it, st, "array" if inp == "array" else "list")
        a = atoms(it, st, inp, ("names",), n=3, types=[2, 1, 2])
        r = it.run(FN, [c, a], kw, st=st)
    finally:
        for k in ("get_symmetry_dataset", "find_primitive", "standardize_cell"):
            it.ext_stubs.pop("spglib." + k, None)
    return r, calls


def env_of(g, inp):
    env = {f"ds.{k}": g.uniform(-1.5, 1.5, size=s) for k, s in SHAPES.items()}
    env["ds.std_rotation_matrix"] = oracle.random_rotation(g)
    env.update({"pr.cell": oracle.random_cell(g), "pr.positions": g.uniform(-1.5, 2.5, size=(2, 3)), "cell": oracle.random_cell(g), "atoms.positions": g.uniform(-1.5, 2.5, size=(3, 3)),
                "symprec": 1e-3, "angle_tolerance": 0.7})
    for i in range(3):
        env[f"atoms.positions[{i}]"] = env["atoms.positions"][i]
        env[f"atoms.names[{i}]"] = f"n{i}"
        for j in range(3):
            env[f"cell[{i}][{j}]"] = env["cell"][i, j]
            env[f"atoms.positions[{i}][{j}]"] = env["atoms.positions"][i, j]
    return env


def attr(it, r, name, env):
    pc = r.st.pc
    v, raises = kobj.act(it, r.st, lambda: it.getattr(r.st, r.value, name))
    r.st.pc = pc
    for x in raises:
        if rint.cls_name(x.cls) == "AttributeError" and rint.guard(x.pc, env):
            raise Violation(f"the object has no {name}", ctor_loc(it), f"no {name}")
    return rint.val(r, v, env)


def instance(r, loc):
    if r.st.pc == 0:
        raise Violation(f"valid data raise {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
    if not isinstance(r.value, Ref) or r.it.obj(r.st, r.value).kind != "inst":
        raise Undecided("result is not an object of a class of the package")


def ctor_loc(it):
    f = it.public("wulfric.SpglibData").lookup("__init__")
    return fun_loc(f) if f is not None else fun_loc(it.public(FN))


def group(ctx, it, n):
    from ..interp import AnalysisBroken
    g = oracle.rng(ctx.seed, n)
    loc = ctor_loc(it)
    for form in ("object", "dict"):
        r, _ = run(it, form, n)
        instance(r, loc)
        env = env_of(g, "array")
        x = rint.raised(r, env)
        if x is not None:
            raise Violation(f"{rint.cls_name(x.cls)} for the space group {n}", x.loc, f"raises {n}")
        for name, want in (("space_group_number", n), ("crystal_family", oracle.ita_family(n)), ("centring_type", oracle.ita_centring(n))):
            v = attr(it, r, name, env)
            if isinstance(v, np.generic):
                v = v.item()
            if v != want:
                raise Violation(f"{name} of the space group {n} is {v!r}, International Tables: {want!r}", loc, f"{name} {n}")
    st = State()
    for name, f in (("INVERSION_SYMMETRY", oracle.ita_inversion), ("CRYSTAL_FAMILY", oracle.ita_family), ("CENTRING_TYPE", oracle.ita_centring)):
        t = it.as_T(st, it.public("wulfric.constants." + name))
        if t.op != "dict":
            raise Undecided(f"{name} is not a constant dictionary")
        d = {k.args[1]: v for k, v in t.args if k.op == "k"}
        if n not in d:
            raise Violation(f"{name} has no entry for the space group {n}", entry_loc(it, name, n), f"{name} missing {n}")
        if not tm.is_k(d[n]):
            raise Undecided(f"{name}[{n}] is not constant")
        if d[n].args[1] != f(n):
            raise Violation(f"{name}[{n}] is {d[n].args[1]!r}, International Tables: {f(n)!r}", entry_loc(it, name, n), f"{name} {n}")


def fields(ctx, it, form, inp, tol):
    r, calls = run(it, form, 12, inp, tol)
    loc = ctor_loc(it)
    instance(r, loc)
    g = oracle.rng(ctx.seed, form, inp, tol)
    for sp, an in ((1e-3, 0.7), (1e-12, -1), (0.5, 5), (2, 1e-9)):
        env = env_of(g, inp)
        env.update(symprec=sp, angle_tolerance=an)
        x = rint.raised(r, env, strict=True)
        if x is not None:
            raise Violation(f"valid data raise {rint.cls_name(x.cls)}", x.loc, "raises")
        R = env["ds.std_rotation_matrix"]
        want = dict(original_cell=env["cell"], original_positions=env["atoms.positions"], original_types=[2, 1, 2], conventional_cell=env["ds.std_lattice"] @ R,
                    conventional_positions=env["ds.std_positions"], conventional_types=[1, 1, 2, 2], primitive_cell=env["pr.cell"] @ R,
                    primitive_positions=env["pr.positions"], primitive_types=[1, 2], space_group_number=12, crystal_family="m", centring_type="C",
                    symprec=env["symprec"] if tol else 1e-5, angle_tolerance=env["angle_tolerance"] if tol else -1)
        for k, w in want.items():
            v = attr(it, r, k, env)
            ctx.count("points")
            same = v == w if isinstance(w, (str, int, float)) else rint.same(np.asarray(v), np.asarray(w))
            if not same:
                raise Violation(f"{k} is {np.round(v, 4).tolist() if not isinstance(w, (str, int, float)) else v}, expected {np.round(w, 4).tolist() if not isinstance(w, (str, int, float)) else w} "
                                f"({'rotated back to the orientation of the input' if k.endswith('_cell') else 'as given or as in the dataset'})",
                                rint.blame(r, it.getattr(r.st, r.value, k)) or loc, f"field {k}")
        seen = set()
        for name, a, k, cloc, heap, s in calls:
            seen.add(name)
            b = dict(zip(("cell", "symprec", "angle_tolerance", "hall_number"), a))
            b.update(k)
            items = it.known_items(s, b.get("cell"))
            if items is None or len(items) != 3:
                raise Undecided(f"first argument of spglib.{name} is not a triple")
            c, p, t = [rint.val(r, x, env) for x in items]
            for what, v, w in (("cell", c, env["cell"]), ("positions", p, env["atoms.positions"]), ("types", t, [2, 1, 2]),
                               ("symprec", rint.val(r, b.get("symprec", 1e-5), env), want["symprec"]), ("angle_tolerance", rint.val(r, b.get("angle_tolerance", -1), env), want["angle_tolerance"])):
                if v != w if isinstance(w, (int, float)) else not rint.same(np.asarray(v), np.asarray(w)):
                    raise Violation(f"spglib.{name} is called with {what} = {np.asarray(v).tolist()}, {np.asarray(w).tolist()} expected", cloc, f"call {name} {what}")
        if "get_symmetry_dataset" not in seen:
            raise Undecided("spglib.get_symmetry_dataset is not called")


def none(ctx, it):
    r, _ = run(it, "object", 1, none=True)
    if rint.returned(r):
        raise Violation("no error is raised when spglib finds no symmetry", r.exits[-1].loc if r.exits else ctor_loc(it), "none accepted")
    for x in rint.sure(r):
        if rint.cls_name(x.cls) not in ("RuntimeError", "ValueError"):
            raise Violation(f"{rint.cls_name(x.cls)} instead of RuntimeError when spglib finds no symmetry", x.loc, "none class")
