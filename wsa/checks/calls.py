"""Table of calls which cover the public interface, with symbolic arguments."""
from .. import terms as tm
from ..inputs import sarr, satoms, spglib_data
from ..interp import State, Tup
from ..terms import mk
from .common import crystal_interp


def nums(it, st, name, shape):
    """Nested lists of symbols."""
    if len(shape) == 1:
        return it.new_list(st, [tm.sym(f"{name}[{i}]", "float") for i in range(shape[0])], f"input:{name}")
    return it.new_list(st, [nums(it, st, f"{name}[{i}]", shape[1:]) for i in range(shape[0])], f"input:{name}")


def cell(it, st, form, name="cell"):
    return sarr(it, st, name, (3, 3)) if form == "array" else nums(it, st, name, (3, 3))


def vec(it, st, form, name, n=3):
    return sarr(it, st, name, (n,)) if form == "array" else nums(it, st, name, (n,))


def atoms(it, st, form, keys=("names",), n=3, name="atoms", types=None, values=None):
    """positions: array of the shape (n, 3) or list of lists or list of arrays; the other keys are lists."""
    if form == "array":
        pos = sarr(it, st, f"{name}.positions", (n, 3))
    elif form == "list":
        pos = nums(it, st, f"{name}.positions", (n, 3))
    else:
        pos = it.new_list(st, [sarr(it, st, f"{name}.positions[{i}]", (3,)) for i in range(n)], f"input:{name}.positions")
    pairs = [("positions", pos)]
    for k in keys:
        v = (values or {}).get(k) or [tm.sym(f"{name}.{k}[{i}]", "str" if k in ("names", "species") else "any") for i in range(n)]
        pairs.append((k, it.new_list(st, v, f"input:{name}.{k}")))
    if types:
        pairs.append(("spglib_types", it.new_list(st, list(types), f"input:{name}.spglib_types")))
    return it.new_dict(st, pairs, f"input:{name}")


NAMES = {"names": ["Cr1", "Br", "Br"]}


def sd(it, st, number=1, fam="o", cen="P"):
    from .common import ctypes_of
    return spglib_data(it, st, number, fam, cen, [2, 1, 2], ctypes_of(cen), [2, 1])


def sym(name, kind="float"):
    return tm.sym(name, kind)


def table():
    """(label, public name, builder(it, st) -> (args, kwargs), names of arguments which may change)."""
    out = []

    def add(label, fn, build, inplace=()):
        out.append((label, fn, build, tuple(inplace)))

    for form in ("array", "list"):
        f = form
        add(f"get_reciprocal({f})", "wulfric.cell.get_reciprocal", lambda it, st, f=f: ([cell(it, st, f)], {}))
        add(f"get_params({f})", "wulfric.cell.get_params", lambda it, st, f=f: ([cell(it, st, f)], {}))
        add(f"get_scalar_products({f})", "wulfric.cell.get_scalar_products", lambda it, st, f=f: ([cell(it, st, f)], {}))
        add(f"get_lattice_points({f})", "wulfric.cell.get_lattice_points", lambda it, st, f=f: ([cell(it, st, f)], {}))
        add(f"get_lattice_points({f}, relative)", "wulfric.cell.get_lattice_points", lambda it, st, f=f: ([cell(it, st, f)], dict(relative=True, flat=False)))
        add(f"get_angle({f})", "wulfric.geometry.get_angle", lambda it, st, f=f: ([vec(it, st, f, "v1"), vec(it, st, f, "v2")], {}))
        add(f"get_volume({f})", "wulfric.geometry.get_volume", lambda it, st, f=f: ([cell(it, st, f)], {}))
        add(f"get_volume(3 x {f})", "wulfric.geometry.get_volume", lambda it, st, f=f: ([vec(it, st, f, n) for n in ("a", "b", "c")], {}))
        add(f"get_spherical({f})", "wulfric.geometry.get_spherical", lambda it, st, f=f: ([vec(it, st, f, "vector")], {}))
        add(f"get_spherical({f}, axes)", "wulfric.geometry.get_spherical",
            lambda it, st, f=f: ([vec(it, st, f, "vector")], dict(polar_axis=vec(it, st, f, "pa"), radial_line_zero=vec(it, st, f, "rl"), in_degrees=False)))
        add(f"lepage({f})", "wulfric.lepage", None)
        add(f"get_path_as_list", "wulfric.kpoints.get_path_as_list", lambda it, st: (["GAMMA-X|Y-Z"], {}))
        add(f"get_path_as_string", "wulfric.kpoints.get_path_as_string",
            lambda it, st: ([it.new_list(st, [it.new_list(st, ["GAMMA", "X"], "input:path"), it.new_list(st, ["Y", "Z"], "input:path")], "input:path")], {}))
    add("get_transformation_matrix", "wulfric.cell.get_transformation_matrix", lambda it, st: ([cell(it, st, "array", "c1"), cell(it, st, "array", "c2")], {}))
    add("from_params", "wulfric.cell.from_params", lambda it, st: ([sym(x) for x in ("a", "b", "c", "alpha", "beta", "gamma")], {}))
    add("parallelepiped_check", "wulfric.geometry.parallelepiped_check", lambda it, st: ([sym(x) for x in ("a", "b", "c", "alpha", "beta", "gamma")], {}))
    add("compare_with_tolerance", "wulfric.compare_with_tolerance", lambda it, st: ([sym("x"), "<", sym("y")], {}))
    add("get_niggli(spglib)", "wulfric.cell.get_niggli", lambda it, st: ([cell(it, st, "array")], {}))
    # crystal
    for form in ("array", "list", "arrays"):
        f = form
        add(f"validate_atoms({f})", "wulfric.crystal.validate_atoms", lambda it, st, f=f: ([atoms(it, st, f, ("names", "species", "mykey"), types=[1, 2, 1])], {}))
        for keys in ((), ("species",), ("names",)):
            add(f"validate_atoms({f}, keys {keys})", "wulfric.crystal.validate_atoms", lambda it, st, f=f, keys=keys: ([atoms(it, st, f, keys)], dict(raise_errors=False)))
        if f != "list":
            add(f"get_vector({f})", "wulfric.crystal.get_vector", lambda it, st, f=f: ([cell(it, st, "array"), atoms(it, st, f), 0, 1], dict(R=vec(it, st, "array", "R"))))
            add(f"get_vector({f}, relative)", "wulfric.crystal.get_vector", lambda it, st, f=f: ([cell(it, st, "array"), atoms(it, st, f), 0, 1], dict(return_relative=True)))
            add(f"get_distance({f})", "wulfric.crystal.get_distance", lambda it, st, f=f: ([cell(it, st, "array"), atoms(it, st, f), 0, 1], dict(R=vec(it, st, "list", "R"))))
        add(f"shift_atoms({f})", "wulfric.crystal.shift_atoms", lambda it, st, f=f: ([atoms(it, st, f)], dict(gravity_point=vec(it, st, "array", "gp"))), ["atoms"])
        add(f"shift_atoms({f}, absolute)", "wulfric.crystal.shift_atoms",
            lambda it, st, f=f: ([atoms(it, st, f)], dict(gravity_point=vec(it, st, "array", "gp"), cell=cell(it, st, "array"), gp_is_relative=False)), ["atoms"])
        add(f"cure_negative({f})", "wulfric.crystal.cure_negative", lambda it, st, f=f: ([atoms(it, st, f)], {}), ["atoms"])
        add(f"ensure_000({f})", "wulfric.crystal.ensure_000", lambda it, st, f=f: ([atoms(it, st, f)], {}), ["atoms"])
        for keys, types in ((("names",), None), (("species", "names"), None), (("names",), [1, 2, 2]), (("species",), None), ((), [1, 1, 2])):
            vals = dict(names=["Cr1", "Br", "q"], species=["Cr", "Br", "Br"])
            add(f"get_spglib_types({f}, {keys}, {bool(types)})", "wulfric.get_spglib_types",
                lambda it, st, f=f, keys=keys, types=types, vals=vals: ([atoms(it, st, f, keys, types=types, values=vals)], {}))
        add(f"get_spglib_data({f})", "wulfric.get_spglib_data", lambda it, st, f=f: ([cell(it, st, "array" if f == "array" else "list"), atoms(it, st, f, ("names", "mykey"), values=NAMES)], {}))
        add(f"get_spglib_data({f}, types)", "wulfric.get_spglib_data", lambda it, st, f=f: ([cell(it, st, "array"), atoms(it, st, f, ("names",), types=[1, 2, 1])], {}))
        add(f"validate_spglib_data({f})", "wulfric.validate_spglib_data", lambda it, st, f=f: ([cell(it, st, "array"), atoms(it, st, f, ("names",), values=NAMES), sd(it, st)], {}))
        for fn in ("wulfric.crystal.get_conventional", "wulfric.crystal.get_primitive", "wulfric.kpoints.get_path_and_points"):
            for conv in ("HPKOT", "SC") + (("spglib",) if "crystal" in fn else ()):
                if f == "array":
                    for keys, types in (((), [1, 2, 1]), (("species",), None), (("names", "mykey"), None)):
                        add(f"{fn.split('.')[-1]}({conv}, keys {keys})", fn,
                            lambda it, st, keys=keys, types=types, conv=conv: (
                                [cell(it, st, "array"), atoms(it, st, "array", keys, types=types)], dict(spglib_data=sd(it, st, 195, "c", "P"), convention=conv)))
                for fam, cen, number in (("o", "C", 20), ("m", "C", 5), ("c", "F", 196), ("a", "P", 1), ("h", "R", 146)):
                    if f != "array" and fam not in "oa":
                        continue
                    add(f"{fn.split('.')[-1]}({f}, {conv}, {fam}{cen})", fn,
                        lambda it, st, f=f, conv=conv, fam=fam, cen=cen, number=number: (
                            [cell(it, st, "array" if f == "array" else "list"), atoms(it, st, f, ("names", "species", "mykey"))],
                            dict(spglib_data=sd(it, st, number, fam, cen), convention=conv)))
        for fam, cen, number in (("o", "C", 20), ("m", "C", 5), ("a", "P", 1), ("h", "R", 146), ("c", "P", 195)):
            for fn in ("wulfric.crystal.hpkot_get_extended_bl_symbol", "wulfric.crystal.sc_get_variation"):
                add(f"{fn.split('.')[-1]}({f}, {fam}{cen})", fn,
                    lambda it, st, f=f, fam=fam, cen=cen, number=number: ([cell(it, st, "array"), atoms(it, st, f)], dict(spglib_data=sd(it, st, number, fam, cen))))
        add(f"from_crystal({f})", "wulfric.Kpoints.from_crystal",
            lambda it, st, f=f: ([cell(it, st, "array"), atoms(it, st, f)], dict(spglib_data=sd(it, st, 195, "c", "P"), with_time_reversal=False)))
        add(f"dump_poscar({f})", "wulfric.io.dump_poscar",
            lambda it, st, f=f: ([cell(it, st, "array" if f == "array" else "list"), atoms(it, st, f, ("names", "species"), values=dict(names=["Cr1", "Br", "Br"], species=["Cr", "Br", "Br"]))], dict(comment="c")))
        add(f"dump_poscar({f}, Cartesian)", "wulfric.io.dump_poscar",
            lambda it, st, f=f: ([cell(it, st, "array"), atoms(it, st, f, ("names",), values=dict(names=["Cr1", "Br", "Br"]))], dict(mode="Cartesian")))
    for n in ("Cr1", "x"):
        add(f"get_atom_species({n})", "wulfric.crystal.get_atom_species", lambda it, st, n=n: ([n], {}))
    add("get_atoms_species", "wulfric.crystal.get_atoms_species", lambda it, st: ([atoms(it, st, "array", values=NAMES)], {}))
    for s in ("all", "repeated-only"):
        for label, names in (("repeated", ["Cr1", "Br", "Br"]), ("unique", ["Cr1", "Br", "S"])):
            add(f"get_unique_names({s}, {label})", "wulfric.crystal.get_unique_names",
                lambda it, st, s=s, names=names: ([atoms(it, st, "array", values=dict(names=list(names)))], dict(strategy=s)))
    add("add_sugar", "wulfric.add_sugar", lambda it, st: ([it.new_dict(st, [("a", sym("x")), ("b", it.new_list(st, [1, 2], "input:d.b"))], "input:d")], {}))
    add("remove_sugar", "wulfric.remove_sugar", lambda it, st: ([it.new_dict(st, [("a", sym("x")), ("b", it.new_list(st, [1, 2], "input:d.b"))], "input:d")], {}))
    for v in ("CUB", "ORCF1", "TRI2b", None):
        add(f"sc_get_example({v})", "wulfric.cell.sc_get_example", lambda it, st, v=v: ([v], {}))
    for m in ("hpkot_get_example",):
        add("hpkot_get_example", "wulfric.crystal.hpkot_get_example", lambda it, st: (["cP1"], {}))
    add("load_poscar", "wulfric.io.load_poscar", lambda it, st: (["some-file"], {}))
    add("logo", "wulfric.logo", lambda it, st: ([it.new_list(st, ["line 1", "line 2"], "input:info")], {}))
    seen, res = set(), []
    for r in out:
        if r[2] is not None and r[0] not in seen:
            seen.add(r[0])
            res.append(r)
    return res


def kp_inputs(it, st):
    rc = sarr(it, st, "rcell", (3, 3))
    co = it.new_list(st, [sarr(it, st, f"k{i}", (3,)) for i in range(4)], "input:coordinates")
    nm = it.new_list(st, ["GAMMA", "X", "Y", "Z"], "input:names")
    lb = it.new_list(st, ["G", "x", "y", "z"], "input:labels")
    pa = it.new_list(st, [it.new_list(st, ["GAMMA", "X"], "input:path"), it.new_list(st, ["Y", "Z", "GAMMA"], "input:path")], "input:path")
    return [rc], dict(coordinates=co, names=nm, labels=lb, path=pa, n=5)
