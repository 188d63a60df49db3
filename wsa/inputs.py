"""Symbolic inputs: cells, atoms, SpglibData objects with concrete shapes."""
from . import terms as tm
from .interp import State, Tup, Ref, Obj
from .terms import mk, const

SPG = "wulfric._spglib_interface"


def sarr(it, st, name, shape, origin=None):
    return it.new_array(st, tm.sym(name, ("arr", shape)), origin or f"input:{name}")


def satoms(it, st, n, keys=("names",), name="atoms", user_key=None, spglib_types=None, extra=()):
    """dict of atoms: positions is an array symbol, every other key a list of n symbols."""
    pairs = [("positions", sarr(it, st, f"{name}.positions", (n, 3), f"input:{name}.positions"))]
    for k in keys:
        kind = "str" if k in ("names", "species") else "any"
        items = [tm.sym(f"{name}.{k}[{i}]", kind) for i in range(n)]
        pairs.append((k, it.new_list(st, items, f"input:{name}.{k}")))
    if spglib_types is not None:
        pairs.append(("spglib_types", it.new_list(st, list(spglib_types), f"input:{name}.spglib_types")))
    return it.new_dict(st, pairs, f"input:{name}")


def spglib_cls(it):
    it.load("wulfric")
    return it.public("wulfric.SpglibData")


def spglib_data(it, st, number, family, centring, otypes, ctypes, ptypes, angle_tolerance=None,
                symprec=None, name="sd"):
    cls = spglib_cls(it)
    n, m, p = len(otypes), len(ctypes), len(ptypes)

    def A(a, shape):
        return sarr(it, st, f"{name}.{a}", shape)
    pairs = [
        ("original_cell", A("original_cell", (3, 3))),
        ("original_positions", A("original_positions", (n, 3))),
        ("original_types", it.new_list(st, list(otypes), f"input:{name}.original_types")),
        ("spglib_version", "2.5.0"),
        ("space_group_number", number),
        ("crystal_family", family),
        ("centring_type", centring),
        ("conventional_cell", A("conventional_cell", (3, 3))),
        ("conventional_positions", A("conventional_positions", (m, 3))),
        ("conventional_types", it.new_array(st, tm.arr((m,), ctypes), f"input:{name}.conventional_types")),
        ("primitive_cell", A("primitive_cell", (3, 3))),
        ("primitive_positions", A("primitive_positions", (p, 3))),
        ("primitive_types", it.new_array(st, tm.arr((p,), ptypes), f"input:{name}.primitive_types")),
        ("symprec", tm.sym(f"{name}.symprec", "float") if symprec is None else symprec),
        ("angle_tolerance", -1 if angle_tolerance is None else angle_tolerance),
    ]
    return it.alloc(st, "inst", tuple(pairs), f"input:{name}", cls)
